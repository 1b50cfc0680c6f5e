//! C13: the ready-made 64-bit trees, in a child process of limited memory. Histories of up to two
//! entries over the whole key range are compared with an ordered map; then a third entry is
//! inserted. Every stage is announced on stdout, so that the driver knows where the process died.
use std::collections::BTreeMap;
use std::io::Write;
use veb_tree::markers::{Marker64, Marker64Empty, VebTreeType};
use veb_tree::VebTree;
use vebmon::host::Args;
use vebmon::rng::Rng;

fn say(s: &str) {
    println!("{s}");
    std::io::stdout().flush().unwrap();
}

fn agree<T: VebTree<Key = u64>>(t: &T, m: &BTreeMap<u64, u64>, rd: fn(&T::Value) -> u64, probes: &[u64], n: &mut u64)
where
    T::Key: Clone,
{
    let own = |r: Option<(veb_tree::key::MaybeBorrowed<'_, u64>, &T::Value)>| r.map(|(k, v)| (*k, rd(v)));
    for p in probes {
        let e = (
            m.get(p).map(|v| (*p, *v)),
            m.range(..p).next_back().map(|(k, v)| (*k, *v)),
            m.range((std::ops::Bound::Excluded(*p), std::ops::Bound::Unbounded)).next().map(|(k, v)| (*k, *v)),
        );
        let g = (own(t.find(p)), own(t.predecessor(p)), own(t.successor(p)));
        if g != e {
            say(&format!("BAD find/predecessor/successor({p:#x}) give {g:x?}, expected {e:x?} of {m:x?}"));
            std::process::exit(3);
        }
        *n += 3;
    }
    let e = (m.first_key_value().map(|(k, v)| (*k, *v)), m.last_key_value().map(|(k, v)| (*k, *v)));
    let g = (own(Some(t.min_val())), own(Some(t.max_val())));
    if g != e || t.is_monad() != (m.len() == 1) {
        say(&format!("BAD min/max/is_monad give {g:x?}, {}, expected {e:x?}", t.is_monad()));
        std::process::exit(3);
    }
    *n += 3;
}

fn go<T: VebTree<Key = u64>>(mk: fn(u64) -> T::Value, rd: fn(&T::Value) -> u64, seed: u64, cases: u64) {
    let mut rng = Rng::new(seed);
    let (mut n, mut ops) = (0, 0);
    for _ in 0..cases {
        let edge = |rng: &mut Rng| match rng.below(5) {
            0 => rng.next(),
            1 => 1u64 << rng.below(64),
            2 => (1u64 << rng.below(64)) - 1,
            3 => !(1u64 << rng.below(64)),
            _ => [0, u64::MAX, u32::MAX as u64, 1 << 32, i64::MAX as u64, 1 << 63][rng.below(6)],
        };
        let ks: Vec<u64> = (0..4).map(|_| edge(&mut rng)).collect();
        let mut m = BTreeMap::new();
        let mut t: Option<T> = None;
        for _ in 0..14 {
            ops += 1;
            let k = *rng.pick(&ks);
            let v = rng.next();
            let (sv, bad) = (rd(&mk(v)), |w: &str| {
                say(&format!("BAD {w}"));
                std::process::exit(3)
            });
            t = match t {
                None => {
                    BTreeMap::insert(&mut m, k, sv);
                    Some(T::from_monad(k, mk(v)))
                }
                Some(mut t) => {
                    if (m.len() < 2 || m.contains_key(&k)) && rng.chance(3, 5) {
                        let r = t.insert(k, mk(v)).map(|(k, v)| (k, rd(&v)));
                        if r != BTreeMap::insert(&mut m, k, sv).map(|v| (k, v)) {
                            bad("insert result");
                        }
                        Some(t)
                    } else if rng.chance(1, 2) {
                        match t.remove(&k) {
                            Err(t) => {
                                if m.contains_key(&k) {
                                    bad("remove misses a key");
                                }
                                Some(t)
                            }
                            Ok((t, (k2, v))) => {
                                if BTreeMap::remove(&mut m, &k).map(|v| (k, v)) != Some((k2, rd(&v))) || t.is_none() != m.is_empty() {
                                    bad("remove result");
                                }
                                t
                            }
                        }
                    } else {
                        let max = rng.chance(1, 2);
                        let (t, (k, v)) = if max { t.remove_max() } else { t.remove_min() };
                        let e = if max { m.pop_last() } else { m.pop_first() };
                        if e != Some((k, rd(&v))) || t.is_none() != m.is_empty() {
                            bad("remove_min/max result");
                        }
                        t
                    }
                }
            };
            if let Some(t) = &t {
                let mut p = ks.clone();
                p.extend(ks.iter().flat_map(|k| [k.wrapping_sub(1), k.wrapping_add(1), k ^ 1 << 32]));
                agree(t, &m, rd, &p, &mut n);
            }
        }
    }
    say(&format!("observed {n} ops {ops}"));
    say("stage third-insert");
    let mut t = T::from_monad(5, mk(1));
    t.insert(1 << 40, mk(2));
    t.insert(1 << 20 | 3, mk(3));
    let mut m: BTreeMap<u64, u64> = [(5, 1), (1 << 40, 2), (1 << 20 | 3, 3)].into_iter().map(|(k, v)| (k, rd(&mk(v)))).collect();
    agree(&t, &m, rd, &[0, 5, 6, 1 << 20, 1 << 20 | 3, 1 << 40, u64::MAX], &mut n);
    say("stage removal");
    let t = t.remove(&(1 << 20 | 3)).ok().and_then(|r| r.0).expect("two entries left");
    BTreeMap::remove(&mut m, &(1 << 20 | 3));
    agree(&t, &m, rd, &[0, 5, 6, 1 << 20, 1 << 20 | 3, 1 << 40, u64::MAX], &mut n);
    drop(t);
    say("stage end");
}

fn main() {
    let a = Args::parse();
    let (seed, cases) = (a.num("seed", 1), a.num("cases", 2000));
    if a.str("which", "map") == "map" {
        go::<VebTreeType<u64, u64, Marker64>>(|v| v, |v| *v, seed, cases);
    } else {
        go::<VebTreeType<u64, (), Marker64Empty>>(|_| (), |_| 0, seed, cases);
    }
}
