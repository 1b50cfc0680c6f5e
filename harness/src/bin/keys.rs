//! C11 (split/join/order), C12 (positions, small integers), C24 (key handles on their own).
use std::collections::HashSet;
use std::fmt::Debug;
use std::panic::{catch_unwind, AssertUnwindSafe};
use veb_tree::key::{MaybeBorrowed, SizedVebKey, VebKey, VebKeyRef, U2, U4};
use vebmon::engine::{last_panic, quiet_panics, BEAT};
use vebmon::host::*;
use vebmon::keys::*;
use vebmon::rng::{hash_str, mix2, Rng};

type R = Result<(), String>;

struct Mon {
    rng: Rng,
    distinct: HashSet<u64>,
    out: Output,
    secs: f64,
    j: Journal,
    prop: String,
    j_seed: u64,
    blocks: u64,
    digests: String,
}
impl Mon {
    /// Runs `f` on one input; a panic counts as a failure.
    fn case(&mut self, ty: &str, input: &dyn Fn() -> String, id: u64, f: impl FnOnce() -> R) -> bool {
        BEAT.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        self.out.count("cases", 1);
        if self.distinct.len() < 400_000 {
            self.distinct.insert(mix2(hash_str(ty), id));
        }
        let r = catch_unwind(AssertUnwindSafe(f));
        let e = match r {
            Ok(Ok(())) => return true,
            Ok(Err(e)) => e,
            Err(_) => format!("panicked: {}", last_panic()),
        };
        if self.out.violations.len() < 6 {
            let what = format!("{ty}: {}: {e}", input());
            self.out.violations.push(Violation { replay: format!("#veb-replay keys\n#prop {}\n{what}\n", self.prop), what });
        }
        false
    }
}

fn eq<T: PartialEq + Debug>(what: &str, got: T, exp: T) -> R {
    if got == exp {
        Ok(())
    } else {
        Err(format!("{what}: got {got:x?}, expected {exp:x?}"))
    }
}

/// boundary-biased integer below 2^bits
fn pick(r: &mut Rng, bits: u32) -> u128 {
    let m = mask(bits);
    if bits == 0 {
        return 0;
    }
    let p = r.below(bits as usize) as u32;
    m & match r.below(8) {
        0 => r.u128(),
        1 => (1u128 << p).wrapping_add(r.below(5) as u128).wrapping_sub(2),
        2 => (r.below(5) as u128).wrapping_sub(2),
        3 => m.wrapping_sub(1u128 << p).wrapping_add(r.below(3) as u128),
        4 => r.u128() & r.u128() & r.u128(),
        5 => r.u128() | r.u128() | r.u128(),
        6 => {
            // byte pattern
            let b = [0u8, 1, 0x7f, 0x80, 0xff][r.below(5)];
            let a = [0u8, 1, 0x7f, 0x80, 0xff][r.below(5)];
            let pat = u128::from_be_bytes(std::array::from_fn(|i| if i % 2 == r.below(2) { a } else { b }));
            pat >> (8 * r.below(3))
        }
        _ => {
            let half = bits.div_ceil(2);
            let s = [0, mask(half), mask(half) >> 1, (mask(half) >> 1) + 1, r.u128() & mask(half)];
            *r.pick(&s) << half | *r.pick(&s)
        }
    }
}

fn joins<K>(h: &K::Hi, l: &K::Lo) -> [K; 4]
where
    K: VebKey,
    K::Hi: Clone,
    K::Lo: Clone,
{
    use MaybeBorrowed::{Borrowed as B, Owned as O};
    [
        K::join(B(h), B(l)),
        K::join(O(h.clone()), B(l)),
        K::join(B(h), O(l.clone())),
        K::join(O(h.clone()), O(l.clone())),
    ]
}

// ---- integers: canonical encodings on both sides ------------------------------------------
fn int_one<K>(d: u128) -> R
where
    K: Kc + VebKey + VebKeyRef<<K as VebKey>::Hi, <K as VebKey>::Lo>,
    K::Hi: Kc,
    K::Lo: Kc,
{
    let lo = <K::Lo as Kc>::BITS;
    let exp = ((if lo == 0 { d } else { d >> lo }) & mask(<K::Hi as Kc>::BITS), d & mask(lo));
    let k = K::enc(d);
    let (h, l) = k.clone().split_val();
    eq("split_val halves (as ranks)", (h.dec(), l.dec()), exp)?;
    let r = k.split_ref(|h, l| (h.dec(), l.dec()));
    eq("split_ref halves (as ranks)", r, exp)?;
    for (i, j) in joins::<K>(&h, &l).into_iter().enumerate() {
        eq(["join(&,&) of the halves", "join(owned,&)", "join(&,owned)", "join(owned,owned)"][i], j.dec(), d)?;
    }
    // halves given: join, then split
    let (h2, l2) = (K::Hi::enc(exp.0), K::Lo::enc(exp.1));
    for j in joins::<K>(&h2, &l2) {
        let (h3, l3) = j.split_val();
        eq("halves after join and split_val", (h3.dec(), l3.dec()), exp)?;
    }
    Ok(())
}
fn int_pair<K>(a: u128, b: u128) -> R
where
    K: Kc + VebKey,
    K::Hi: Kc,
    K::Lo: Kc,
{
    let (x, y) = (K::enc(a), K::enc(b));
    let by_key = x.cmp(&y);
    let (p, q) = (x.split_val(), y.split_val());
    eq("order of the keys vs. order of their halves", p.cmp(&q), by_key)?;
    eq("order of the halves", p.cmp(&q), a.cmp(&b))
}
fn ints<K>(m: &mut Mon, name: &str)
where
    K: Kc + VebKey + VebKeyRef<<K as VebKey>::Hi, <K as VebKey>::Lo>,
    K::Hi: Kc,
    K::Lo: Kc,
{
    m.j.set(format!("#veb-replay keys\nC11 {name}"));
    let bits = K::BITS;
    m.case(name, &|| "type".into(), 1 << 60, || eq("bits of the halves", <K::Hi as Kc>::BITS + <K::Lo as Kc>::BITS, bits));
    if bits <= 16 {
        for d in 0..1u128 << bits {
            m.case(name, &|| format!("key of rank {d:#x}"), d as u64, || int_one::<K>(d));
            if d > 0 {
                m.case(name, &|| format!("keys of rank {:#x}, {d:#x}", d - 1), d as u64 | 1 << 40, || int_pair::<K>(d - 1, d));
            }
        }
        m.out.count("types_exhausted", 1);
    }
    if bits <= 8 {
        for a in 0..1u128 << bits {
            for b in 0..1u128 << bits {
                m.case(name, &|| format!("keys of rank {a:#x}, {b:#x}"), (a << 20 | b) as u64, || int_pair::<K>(a, b));
            }
        }
        return;
    }
    if bits > 16 {
        // every pattern of one half against the extremes of the other (halves of <= 16 bits)
        let lo = bits / 2;
        if lo <= 16 {
            for x in 0..1u128 << lo {
                for y in [0, 1, mask(lo), mask(lo) >> 1, (mask(lo) >> 1) + 1, 0x55] {
                    for d in [x << lo | y, y << lo | x] {
                        m.case(name, &|| format!("key of rank {d:#x}"), d as u64, || int_one::<K>(d));
                    }
                }
            }
        }
    }
    let t0 = m.out.cpu();
    let mut a = pick(&mut m.rng, bits);
    while m.out.cpu() - t0 < m.secs {
        for _ in 0..2000 {
            let b = match m.rng.below(4) {
                0 => a.wrapping_add(1) & mask(bits),
                1 => a ^ 1u128 << m.rng.below(bits as usize),
                _ => pick(&mut m.rng, bits),
            };
            let id = mix2(b as u64, (b >> 64) as u64);
            if !m.case(name, &|| format!("key of rank {b:#x}"), id, || int_one::<K>(b))
                | !m.case(name, &|| format!("keys of rank {a:#x}, {b:#x}"), id ^ 1, || int_pair::<K>(a, b))
            {
                return;
            }
            a = b;
        }
    }
}

// ---- arrays: sequences of digits --------------------------------------------------------
trait Flat: Clone + Ord + 'static {
    fn widths(o: &mut Vec<u32>);
    fn push(&self, o: &mut Vec<u128>);
    fn pull(i: &mut std::slice::Iter<'_, u128>) -> Self;
}
macro_rules! flat_leaf { ($($t:ty),*) => {$(
    impl Flat for $t {
        fn widths(o: &mut Vec<u32>) { o.push(<$t as Kc>::BITS) }
        fn push(&self, o: &mut Vec<u128>) { o.push(self.dec()) }
        fn pull(i: &mut std::slice::Iter<'_, u128>) -> Self { <$t as Kc>::enc(*i.next().unwrap()) }
    }
)*}}
flat_leaf!(bool, U2, U4, u8, i8, u16, i16, u32, i32, u64, i64, u128, i128, UK8, UK32, (), StrKey);
impl Kc for StrKey {
    const BITS: u32 = 16;
    fn enc(u: u128) -> Self {
        StrKey(format!("{u:04x}"))
    }
    fn dec(&self) -> u128 {
        u128::from_str_radix(&self.0, 16).unwrap_or(1 << 100)
    }
}
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord)]
struct StrKey(String);

impl<T: Flat, const N: usize> Flat for [T; N] {
    fn widths(o: &mut Vec<u32>) {
        for _ in 0..N {
            T::widths(o)
        }
    }
    fn push(&self, o: &mut Vec<u128>) {
        for t in self {
            t.push(o)
        }
    }
    fn pull(i: &mut std::slice::Iter<'_, u128>) -> Self {
        std::array::from_fn(|_| T::pull(i))
    }
}
fn flat<T: Flat>(t: &T) -> Vec<u128> {
    let mut v = Vec::new();
    t.push(&mut v);
    v
}
fn un<T: Flat>(v: &[u128]) -> T {
    T::pull(&mut v.iter())
}
fn both<A: Flat, B: Flat>(a: &A, b: &B) -> Vec<u128> {
    let mut v = flat(a);
    b.push(&mut v);
    v
}
fn arr_one<K>(d: &[u128]) -> R
where
    K: Flat + VebKey + VebKeyRef<<K as VebKey>::Hi, <K as VebKey>::Lo>,
    K::Hi: Flat,
    K::Lo: Flat,
{
    let k: K = un(d);
    let (h, l) = k.clone().split_val();
    eq("digits of the split_val halves", both(&h, &l), d.to_vec())?;
    eq("digits of the split_ref halves", k.split_ref(|h, l| both(h, l)), d.to_vec())?;
    let same = k.split_ref(|a, b| *a == h && *b == l);
    eq("split_ref halves equal the split_val halves", same, true)?;
    for j in joins::<K>(&h, &l) {
        eq("digits after split_val and join", flat(&j), d.to_vec())?;
        eq("equality with the original", j == k, true)?;
        let (h2, l2) = j.split_val();
        eq("halves after join and split_val are the same", h2 == h && l2 == l, true)?;
    }
    Ok(())
}
fn arr_pair<K>(a: &[u128], b: &[u128]) -> R
where
    K: Flat + VebKey,
{
    let (x, y): (K, K) = (un(a), un(b));
    let by_key = x.cmp(&y);
    eq("order of keys vs. halves", x.split_val().cmp(&y.split_val()), by_key)?;
    eq("order of keys vs. digits", by_key, a.cmp(b))
}
fn arrays<K>(m: &mut Mon, name: &str)
where
    K: Flat + VebKey + VebKeyRef<<K as VebKey>::Hi, <K as VebKey>::Lo>,
    K::Hi: Flat,
    K::Lo: Flat,
{
    m.j.set(format!("#veb-replay keys\nC11 {name}"));
    let mut w = Vec::new();
    K::widths(&mut w);
    let n = w.len();
    let gen = |r: &mut Rng| -> Vec<u128> { w.iter().map(|b| pick(r, *b)).collect() };
    let mut a = gen(&mut m.rng);
    // distinct digits first
    let d: Vec<u128> = w.iter().enumerate().map(|(i, b)| (i as u128 + 1) & mask(*b)).collect();
    m.case(name, &|| format!("{d:x?}"), 0, || arr_one::<K>(&d));
    let t0 = m.out.cpu();
    while m.out.cpu() - t0 < m.secs / 4.0 {
        for _ in 0..500 {
            let b: Vec<u128> = if m.rng.chance(1, 2) {
                let mut b = a.clone();
                let i = m.rng.below(n);
                b[i] = pick(&mut m.rng, w[i]);
                if m.rng.chance(1, 2) {
                    let i = m.rng.below(n);
                    b[i] = pick(&mut m.rng, w[i]);
                }
                b
            } else {
                gen(&mut m.rng)
            };
            let id = b.iter().fold(9, |h, x| mix2(h, mix2(*x as u64, (*x >> 64) as u64)));
            if !m.case(name, &|| format!("key {b:x?}"), id, || arr_one::<K>(&b))
                | !m.case(name, &|| format!("keys {a:x?}, {b:x?}"), id ^ 1, || arr_pair::<K>(&a, &b))
            {
                return;
            }
            a = b;
            kl_reset();
        }
    }
}

// ---- the same facts on every build and target ------------------------------------------------
/// Digests of what splitting, joining and comparing give, in blocks of 40 keys.
fn blocks(m: &mut Mon, name: &str, n: u64, mut one: impl FnMut(&mut Rng) -> (R, String)) {
    m.j.set(format!("#veb-replay keys\nC25 {name}"));
    for b in 0..n {
        let mut rng = Rng::new(mix2(mix2(m.j_seed, hash_str(name)), b));
        let mut d = 7;
        for _ in 0..40 {
            BEAT.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
            m.out.count("key_operations", 1);
            let mut input = String::new();
            let r = catch_unwind(AssertUnwindSafe(|| {
                let (r, i) = one(&mut rng);
                input = i;
                r
            }));
            d = mix2(d, match r {
                Ok(Ok(())) => 1,
                Ok(Err(e)) => hash_str(&e),
                Err(_) => {
                    let what = format!("{name}: a key operation panicked: {}", last_panic());
                    if m.out.violations.len() < 4 {
                        m.out.violations.push(Violation { replay: format!("#veb-replay keys\n#prop C25\n{what}\n#block {b}\n"), what });
                    }
                    0xdead
                }
            });
        }
        m.digests.push_str(&format!("{} {b} {d:016x}\n", name.replace(' ', "")));
    }
}
fn int_blocks<K>(m: &mut Mon, name: &str)
where
    K: Kc + VebKey + VebKeyRef<<K as VebKey>::Hi, <K as VebKey>::Lo>,
    K::Hi: Kc,
    K::Lo: Kc,
{
    let n = m.blocks;
    blocks(m, name, n, |r| {
        let (a, b) = (pick(r, K::BITS), pick(r, K::BITS));
        (int_one::<K>(a).and_then(|()| int_pair::<K>(a, b)), format!("{a:#x} {b:#x}"))
    })
}
fn arr_blocks<K>(m: &mut Mon, name: &str)
where
    K: Flat + VebKey + VebKeyRef<<K as VebKey>::Hi, <K as VebKey>::Lo>,
    K::Hi: Flat,
    K::Lo: Flat,
{
    let mut w = Vec::new();
    K::widths(&mut w);
    let n = m.blocks.div_ceil(8);
    blocks(m, name, n, |r| {
        let a: Vec<u128> = w.iter().map(|b| pick(r, *b)).collect();
        let b: Vec<u128> = w.iter().map(|b| pick(r, *b)).collect();
        kl_reset();
        (arr_one::<K>(&a).and_then(|()| arr_pair::<K>(&a, &b)), format!("{a:x?} {b:x?}"))
    })
}

// ---- positions --------------------------------------------------------------------------
fn positions<K>(m: &mut Mon, name: &str)
where
    K: Kc + SizedVebKey + Ord,
{
    use typenum::Unsigned;
    m.j.set(format!("#veb-replay keys\nC12 {name}"));
    let bits = K::BITS;
    if bits < usize::BITS {
        let real = 1usize << bits;
        m.case(name, &|| "CARDINALITY".into(), 1 << 61, || eq("declared number of keys", K::CARDINALITY, real));
        m.case(name, &|| "Cardinality".into(), 1 << 62, || {
            eq("declared number of keys (type level)", <K::Cardinality as Unsigned>::to_u64(), real as u64)
        });
    }
    let one = |d: u128| -> R {
        let k = K::enc(d);
        eq("position", k.index(), d as usize)?;
        // as many keys as positions: their number itself does not fit, all positions but the last must lie below
        eq("position below CARDINALITY", k.index() < K::CARDINALITY || k.index() == usize::MAX, true)?;
        Ok(())
    };
    if bits <= 16 {
        for d in 0..1u128 << bits {
            m.case(name, &|| format!("key of rank {d:#x}"), d as u64, || one(d));
        }
        m.out.count("types_exhausted", 1);
        return;
    }
    let t0 = m.out.cpu();
    while m.out.cpu() - t0 < m.secs {
        for _ in 0..5000 {
            let d = pick(&mut m.rng, bits);
            if !m.case(name, &|| format!("key of rank {d:#x}"), d as u64, || one(d)) {
                return;
            }
        }
    }
}

fn small_ints(m: &mut Mon) {
    let v2 = |x: U2| u8::from(U4::from(x));
    for a in 0..=255u8 {
        m.case("U4", &|| format!("from({a})"), a as u64, || eq("value", u8::from(U4::from(a)), a & 15));
        m.case("U2", &|| format!("from({a})"), a as u64, || eq("value", v2(U2::from(a)), a & 3));
        m.case("U2", &|| format!("from(U4 {a})"), a as u64 | 256, || eq("value", v2(U2::from(U4::from(a))), a & 3));
        m.case("bool", &|| format!("from(U2 {a})"), a as u64, || eq("value", bool::from(U2::from(a)), a & 1 == 1));
        for s in 0..8usize {
            let id = (a as u64) << 8 | s as u64 | 1 << 20;
            m.case("U4", &|| format!("{a} << {s}"), id, || eq("value", u8::from(U4::from(a) << s), ((a as u32 & 15) << s) as u8 & 15));
            m.case("U4", &|| format!("{a} >> {s}"), id | 1 << 21, || eq("value", u8::from(U4::from(a) >> s), (a & 15) >> s));
            m.case("U2", &|| format!("{a} << {s}"), id, || eq("value", v2(U2::from(a) << s), ((a as u32 & 3) << s) as u8 & 3));
            m.case("U2", &|| format!("{a} >> {s}"), id | 1 << 21, || eq("value", v2(U2::from(a) >> s), (a & 3) >> s));
        }
    }
    for a in 0..16u8 {
        for b in 0..16u8 {
            let id = (a as u64) << 8 | b as u64 | 1 << 30;
            let (x, y) = (U4::from(a), U4::from(b));
            m.case("U4", &|| format!("{a} | {b}"), id, || eq("value", u8::from(x | y), a | b));
            m.case("U4", &|| format!("{a} cmp {b}"), id, || eq("order", (x.cmp(&y), x == y), (a.cmp(&b), a == b)));
            // values built by arithmetic are as good as converted ones
            m.case("U4", &|| format!("({a} << 2) | {b}"), id, || {
                let z = x << 2 | y;
                eq("value", u8::from(z), (a << 2 | b) & 15)?;
                eq("equality with the converted value", z == U4::from(a << 2 | b), true)?;
                eq("position", z.index(), ((a << 2 | b) & 15) as usize)?;
                let (h, l) = z.split_val();
                eq("halves", (v2(h), v2(l)), ((a << 2 | b) >> 2 & 3, (a << 2 | b) & 3))
            });
            if a < 4 && b < 4 {
                let (x, y) = (U2::from(a), U2::from(b));
                m.case("U2", &|| format!("{a} | {b}"), id, || eq("value", v2(x | y), a | b));
                m.case("U2", &|| format!("{a} cmp {b}"), id, || eq("order", (x.cmp(&y), x == y), (a.cmp(&b), a == b)));
                m.case("U2", &|| format!("({a} << 1) | {b}"), id, || {
                    let z = x << 1 | y;
                    eq("value", v2(z), (a << 1 | b) & 3)?;
                    eq("equality with the converted value", z == U2::from(a << 1 | b), true)?;
                    eq("position", z.index(), ((a << 1 | b) & 3) as usize)?;
                    eq("halves", z.split_val(), ((a << 1 | b) & 2 != 0, (a << 1 | b) & 1 != 0))
                });
                m.case("U4", &|| format!("join({a}, {b})"), id, || {
                    for j in joins::<U4>(&x, &y) {
                        eq("value", u8::from(j), a << 2 | b)?;
                        eq("equality with the converted value", j == U4::from(a << 2 | b), true)?;
                    }
                    Ok(())
                });
            }
            m.case("u8", &|| format!("join({a}, {b})"), id, || {
                for j in joins::<u8>(&U4::from(a), &U4::from(b)) {
                    eq("value", j, a << 4 | b)?;
                }
                Ok(())
            });
        }
    }
    for a in 0..=255u8 {
        for (n, (h, l)) in [("u8", a.split_val()), ("i8", (a as i8).wrapping_add(i8::MIN).split_val())] {
            m.case(n, &|| format!("halves of {a}"), a as u64 | 1 << 40, || {
                eq("halves in range", (u8::from(h), u8::from(l)), (a >> 4, a & 15))?;
                eq("halves equal converted values", h == U4::from(a >> 4) && l == U4::from(a), true)
            });
        }
    }
}

/// Everything safe code can do with small integers and key halves, for an undefined-behaviour
/// detector to watch (what the results are is C11's and C12's business).
fn touch_all(m: &mut Mon, sh: (u64, u64)) {
    use std::hint::black_box;
    m.j.set("#veb-replay keys\nC16 small integers".into());
    let mut n = 0u64;
    let mut see2 = |x: U2| {
        n += 1;
        let y = x | (x >> 1);
        let (h, l) = x.split_val();
        // reading the truth values is what would expose an invalid one
        black_box((h as u8) + (l as u8) + (h & l) as u8);
        black_box((bool::from(x), u8::from(U4::from(x)), x.index(), x == y, x.cmp(&y)));
        x.split_ref(|h, l| black_box(*h as u8 + *l as u8));
        for j in joins::<U2>(&h, &l) {
            black_box(j.index());
        }
    };
    let from: Vec<u8> = (0..16).chain([0x80, 0xff, 0x5a, 0x11, 0xf0]).collect();
    for (i, a) in from.iter().enumerate() {
        if i as u64 % sh.1 != sh.0 {
            continue;
        }
        let (x, y) = (U2::from(*a), U4::from(*a));
        see2(x);
        see2(U2::from(y));
        for s in 0..8 {
            see2(x << s);
            see2(x >> s);
            see2(x << s >> 1);
            see2((x << s) | x);
            for z in [y << s, y >> s, (y << s) | y, y << s >> 2] {
                let (h, l) = z.split_val();
                see2(h);
                see2(l);
                z.split_ref(|h, l| black_box(h.index() + l.index()));
                for j in joins::<U4>(&h, &l) {
                    black_box((j.index(), u8::from(j)));
                }
                let (a, b) = <u8 as VebKey>::split_val(u8::from(z));
                black_box(joins::<u8>(&a, &b));
            }
        }
    }
    m.out.count("small_integers_examined", n);
    m.out.count("operations", n);
}

// ---- handles ------------------------------------------------------------------------------
fn handles<T: Clone + Ord + Eq + Debug>(m: &mut Mon, name: &str, a: T, b: T) {
    use std::borrow::Borrow;
    m.j.set(format!("#veb-replay keys\nC24 {name} {a:?} {b:?}"));
    let id = mix2(hash_str(&format!("{a:?}")), hash_str(&format!("{b:?}")));
    let show = || format!("{a:?}, {b:?}");
    let same = a == b;
    m.case(name, &show, id, || {
        fn forms<T: Clone>(t: &T) -> Vec<(&'static str, MaybeBorrowed<'_, T>)> {
            vec![
                ("borrowed", MaybeBorrowed::Borrowed(t)),
                ("owned", MaybeBorrowed::Owned(t.clone())),
                ("from reference", t.into()),
                ("from value", t.clone().into()),
                ("clone of borrowed", MaybeBorrowed::Borrowed(t).clone()),
                ("clone of owned", MaybeBorrowed::Owned(t.clone()).clone()),
            ]
        }
        for (n, x) in forms(&a) {
            eq(n, &*x == &a, true)?;
            let r: &T = Borrow::<T>::borrow(&x);
            eq(n, r == &a, true)?;
            let y = x.borrow();
            eq(n, *y == a && y == x && x == y, true)?;
            eq(n, y.into_or_clone() == a, true)?;
            for (k, z) in forms(&b) {
                eq(&format!("{n} == {k}"), x == z, same)?;
                eq(&format!("{k} == {n}"), z == x, same)?;
                eq(&format!("{n} != {k}"), x != z, !same)?;
            }
            eq(&format!("{n}: clone"), *x.clone() == a, true)?;
            eq(&format!("{n}: into_or_clone"), x.into_or_clone() == a, true)?;
        }
        Ok(())
    });
}
fn all_handles(m: &mut Mon) {
    for a in 0..=255u8 {
        for b in [a, a ^ 1, a ^ 0x80, 0] {
            handles(m, "u8", a, b);
            handles(m, "U4", U4::from(a), U4::from(b));
            handles(m, "U2", U2::from(a), U2::from(b));
        }
    }
    let t0 = m.out.cpu();
    while m.out.cpu() - t0 < m.secs {
        for _ in 0..200 {
            let a = pick(&mut m.rng, 128);
            let b = if m.rng.chance(1, 3) { a } else { a ^ 1u128 << m.rng.below(128) };
            handles(m, "u128", a, b);
            handles(m, "i64", a as i64, b as i64);
            handles(m, "[u8;16]", a.to_be_bytes(), b.to_be_bytes());
            handles(m, "[u16;8]", <[u16; 8] as Kc>::enc(a), <[u16; 8] as Kc>::enc(b));
            handles::<String>(m, "String", format!("{a}"), format!("{b}"));
            handles(m, "Vec<u8>", vec![a as u8; (a % 9) as usize], vec![b as u8; (b % 9) as usize]);
            kl_reset();
            handles(m, "UK32", Shown(UK32::enc(a)), Shown(UK32::enc(b)));
            let leak = (kl_live(), kl_error());
            m.case("UK32", &|| "after handling".into(), 3, || eq("key objects left", leak, (0, None)));
        }
    }
    // handles of two comparable types
    for s in ["", "a", "ab", "b"] {
        for t in ["", "a", "ab", "c"] {
            let (o, r): (MaybeBorrowed<String>, MaybeBorrowed<&str>) = (String::from(s).into(), MaybeBorrowed::Owned(t));
            m.case("String/&str", &|| format!("{s} {t}"), hash_str(s) ^ hash_str(t), || eq("equality", o == r, s == t));
        }
    }
    // the handle is Copy when the key is
    fn copy<T: Copy>(_: T) {}
    copy(MaybeBorrowed::Owned(3u8));
}
/// debug-printable, comparable wrapper (identity is hidden from the printout)
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord)]
struct Shown(UK32);
impl Debug for Shown {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{:#x}", self.0.dec())
    }
}

macro_rules! per_n {
    (% $m:ident, $sh:ident, $i:ident, $t:ty, $($n:literal),*) => { $(
        $i += 1;
        if $i % $sh.1 == $sh.0 {
            arr_blocks::<[$t; $n]>(&mut $m, concat!("[", stringify!($t), "; ", stringify!($n), "]"));
        }
    )* };
    ($m:ident, $sh:ident, $n:ident, $($t:ty),*) => {{ $(
        per_n!(@ $m, $sh, $n, $t, 2, 3, 4, 5, 6, 7, 8, 16);
    )* }};
    (@ $m:ident, $sh:ident, $i:ident, $t:ty, $($n:literal),*) => { $(
        $i += 1;
        if $i % $sh.1 == $sh.0 {
            arrays::<[$t; $n]>(&mut $m, concat!("[", stringify!($t), "; ", stringify!($n), "]"));
        }
    )* };
}
macro_rules! each {
    ($f:ident, $m:ident, $sh:ident, $n:ident, $($t:ty),*) => { $(
        $n += 1;
        if $n % $sh.1 == $sh.0 {
            $f::<$t>(&mut $m, stringify!($t));
        }
    )* };
}

fn main() {
    let a = Args::parse();
    quiet_panics();
    if !cfg!(miri) {
        watchdog(20.0);
    }
    let prop = a.str("prop", "C11");
    let sh = (a.num("shard", 0), a.num("shards", 1));
    let mut m = Mon {
        rng: Rng::new(mix2(a.num("seed", 1), mix2(hash_str(&prop), sh.0))),
        distinct: HashSet::new(),
        out: Output::default(),
        secs: a.num("ms", 300) as f64 / 1000.0,
        j: Journal::new(&a.str("journal", "")),
        prop: prop.clone(),
        j_seed: a.num("seed", 1),
        blocks: a.num("blocks", 50),
        digests: String::new(),
    };
    let mut n = 0u64;
    match prop.as_str() {
        "C11" => {
            each!(ints, m, sh, n, (), U2, U4, u8, i8, u16, i16, u32, i32, u64, i64, u128, i128, u64, i64, u128, i128);
            per_n!(m, sh, n, u8, u64, UK8);
            per_n!(@ m, sh, n, i8, 2, 4, 16);
            per_n!(@ m, sh, n, i128, 3, 6);
            per_n!(@ m, sh, n, bool, 7, 8);
            per_n!(@ m, sh, n, StrKey, 2, 3, 5, 16);
            per_n!(@ m, sh, n, [i16; 3], 2, 3, 7);
        }
        "C12" => {
            each!(positions, m, sh, n, (), U2, U4, u8, i8, u16, i16, u32, i32);
            #[cfg(target_pointer_width = "64")]
            each!(positions, m, sh, n, u64, i64);
            small_ints(&mut m);
        }
        "C16" => {
            touch_all(&mut m, sh);
            m.blocks = 1;
            each!(int_blocks, m, sh, n, (), U2, U4, u8, i8, u16, i16, u32, i32, u64, i64, u128, i128);
            per_n!(% m, sh, n, u8, 2, 3, 16);
            per_n!(% m, sh, n, UK8, 3, 4);
            per_n!(% m, sh, n, StrKey, 3);
            m.digests.clear();
            m.out.violations.clear();
        }
        "C25" => {
            each!(int_blocks, m, sh, n, (), U2, U4, u8, i8, u16, i16, u32, i32, u64, i64, u128, i128);
            per_n!(% m, sh, n, u8, 2, 3, 4, 5, 7, 8, 16);
            per_n!(% m, sh, n, u64, 2, 3);
            per_n!(% m, sh, n, i16, 2, 5);
        }
        "C24" => all_handles(&mut m),
        p => panic!("{p}"),
    }
    m.out.samples.push(format!("shard {} of {}: {} types or type groups of {prop}, e.g. ranks {:x?}", sh.0, sh.1, n, (0..4).map(|_| pick(&mut m.rng, 64)).collect::<Vec<_>>()));
    m.out.distinct = m.distinct.into_iter().collect();
    let o = a.str("out", "");
    if !m.digests.is_empty() && !o.is_empty() {
        std::fs::write(format!("{o}.digests"), &m.digests).expect("digests");
    }
    m.out.write(&o);
}
