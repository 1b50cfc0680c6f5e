//! All monitored compositions: the crate's own (feature `trees`), or those with parts supplied
//! by a user of the crate (feature `parts`).
#[cfg(all(feature = "trees", not(feature = "parts")))]
pub fn all() -> Vec<vebmon::configs::Config> {
    let mut v = ca::all();
    v.extend(cb::all());
    v.extend(cc::all());
    v.extend(cd::all());
    v.sort_by_key(|c| (c.bits, c.name));
    v
}
#[cfg(feature = "parts")]
pub fn all() -> Vec<vebmon::configs::Config> {
    let mut v = ce::all();
    v.sort_by_key(|c| (c.bits, c.name));
    v
}
/// Calls across watched boundaries and comparisons of summaries with collections.
pub fn boundary() -> (u64, u64) {
    #[cfg(feature = "parts")]
    {
        let s = ce::parts::seen();
        (s.calls, s.audits)
    }
    #[cfg(not(feature = "parts"))]
    (0, 0)
}
