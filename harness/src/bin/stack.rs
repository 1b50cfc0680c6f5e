//! C27: the stack an operation uses depends on the composition, not on how many entries there
//! are. The stack below each operation is painted and the depth reached is read off afterwards.
use std::collections::{BTreeMap, BTreeSet, HashSet};
use vebchecks::all;
use vebmon::configs::*;
use vebmon::dynt::DynTree;
use vebmon::engine::{quiet_panics, BEAT};
use vebmon::host::*;
use vebmon::keys::mask;
use vebmon::paint::{depth, DEEP};
use vebmon::rng::{hash_str, mix2, Rng};

struct M<'a> {
    seen: usize,
    hi: BTreeMap<&'static str, (usize, usize)>,
    cfg: &'a Config,
    n: u64,
}
impl M<'_> {
    fn at(&mut self, op: &'static str, n: usize, f: &mut dyn FnMut()) {
        BEAT.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        let d = depth(&mut self.seen, f);
        self.n += 1;
        let e = self.hi.entry(op).or_insert((0, 0));
        if d > e.0 {
            *e = (d, n);
        }
    }
}

fn keys(rng: &mut Rng, bits: u32, n: usize, shape: usize) -> Vec<u128> {
    let m = mask(bits);
    let mut s = BTreeSet::new();
    let room = if bits < 40 { (m as usize) + 1 } else { usize::MAX };
    let n = n.min(room);
    let h = bits / 2;
    let base = rng.next() as u128 | (rng.next() as u128) << 64;
    let mut tries = 0;
    while s.len() < n && tries < 40 * n {
        tries += 1;
        let r = rng.next() as u128 | (rng.next() as u128) << 64;
        s.insert(match shape {
            // anywhere; one neighbourhood; few upper halves; few lower halves
            0 => r & m,
            1 => (base.wrapping_add(s.len() as u128)) & m,
            2 => (((base >> 3) + (r & 7)) << h | (r >> 64) & mask(h)) & m,
            _ => ((r >> 64) << h | (base & mask(h))) & m,
        });
    }
    let mut v: Vec<u128> = s.into_iter().collect();
    if rng.below(2) == 0 {
        for i in (1..v.len()).rev() {
            v.swap(i, rng.below(i + 1));
        }
    }
    v
}

/// One life of a tree: grown, queried, drained.
fn life(m: &mut M, rng: &mut Rng, ks: &[u128]) {
    let bits = m.cfg.bits;
    let mut t: Box<dyn DynTree> = (m.cfg.mk)(ks[0], 1);
    let every = (ks.len() / 150).max(1);
    for (i, k) in ks.iter().enumerate().skip(1) {
        if i % every == 0 || i + 20 > ks.len() || i < 30 {
            m.at("insert", i, &mut || {
                t.insert(*k, i as u64);
            });
        } else {
            t.insert(*k, i as u64);
        }
    }
    let n = ks.len();
    let (lo, hi) = (*ks.iter().min().unwrap(), *ks.iter().max().unwrap());
    for j in 0..30usize.min(4 * n) {
        let k = match j {
            0 => lo,
            1 => hi,
            2 => 0,
            3 => mask(bits),
            _ if j % 2 == 0 => ks[rng.below(n)],
            _ => ks[rng.below(n)].wrapping_add(1) & mask(bits),
        };
        let how = (j % 4) as u8;
        m.at("find", n, &mut || {
            t.find(k, how);
        });
        m.at("predecessor", n, &mut || {
            t.pred(k, how);
        });
        m.at("successor", n, &mut || {
            t.succ(k, how);
        });
        m.at("find_mut", n, &mut || {
            t.find_mut(k, how, Some(7));
        });
        m.at("predecessor_mut", n, &mut || {
            t.pred_mut(k, how, Some(7));
        });
        m.at("successor_mut", n, &mut || {
            t.succ_mut(k, how, Some(7));
        });
    }
    m.at("min and max", n, &mut || {
        t.min();
        t.max();
        t.min_mut(None);
        t.max_mut(None);
        t.is_monad();
        t.len_hint();
        t.exact_len();
    });
    m.at("iteration", n, &mut || {
        t.iter().drain_front(usize::MAX);
    });
    m.at("reverse iteration", n, &mut || {
        t.iter().drain_back(usize::MAX);
    });
    m.at("count", n, &mut || {
        t.iter().count();
    });
    m.at("last", n, &mut || {
        t.iter().last();
    });
    m.at("fold", n, &mut || {
        t.iter().fold();
    });
    m.at("rfold", n, &mut || {
        t.iter().rfold();
    });
    m.at("nth", n, &mut || {
        t.iter().nth(n / 2);
        t.iter().nth_back(n / 2);
        t.iter().nth(n - 1);
        t.iter().nth_back(n - 1);
        t.iter().nth(n + 1);
    });
    m.at("size_hint", n, &mut || {
        t.iter().size_hint();
    });
    let mut c = None;
    m.at("clone", n, &mut || c = t.try_clone());
    if let Some(mut c) = c {
        let mut one: Box<dyn DynTree> = (m.cfg.mk)(ks[0], 1);
        m.at("clone_from", n, &mut || {
            c.clone_from_tree(&*t);
        });
        m.at("clone_from", n, &mut || {
            one.clone_from_tree(&*t);
        });
        m.at("clear", n, &mut || c.clear());
        let mut one = Some(one);
        m.at("drop", n, &mut || one = None);
    }
    let mut left: BTreeSet<u128> = ks.iter().copied().collect();
    let mut i = 0;
    while left.len() > 1 {
        i += 1;
        let big = left.len();
        let look = big < 40 || i % every == 0;
        let absent = mask(bits).wrapping_sub(i as u128 * 7) & mask(bits);
        let k = match i % 4 {
            0 => *left.first().unwrap(),
            1 => *left.last().unwrap(),
            _ => *left.range(rng.next() as u128 & mask(bits)..).next().unwrap_or(left.first().unwrap()),
        };
        let mut go = |name: &'static str, f: &mut dyn FnMut(&mut dyn DynTree)| {
            if look {
                m.at(name, big, &mut || f(&mut *t));
            } else {
                f(&mut *t);
            }
        };
        if look && !left.contains(&absent) {
            go("failed removal", &mut |t| {
                t.remove(absent, (i % 4) as u8);
            });
        }
        match i % 8 {
            0 => go("remove_min", &mut |t| {
                t.remove_min();
            }),
            5 => go("remove_max", &mut |t| {
                t.remove_max();
            }),
            _ => go("remove", &mut |t| {
                t.remove(k, (i % 4) as u8);
            }),
        }
        left.remove(&k);
        if big < n / 2 && n > 2000 {
            break;
        }
    }
    let mut t = Some(t);
    m.at("drop", left.len(), &mut || t = None);
}

fn main() {
    let a = Args::parse();
    quiet_panics();
    watchdog(30.0);
    let j = Journal::new(&a.str("journal", ""));
    let (seed, shard, shards) = (a.num("seed", 1), a.num("shard", 0) as usize, a.num("shards", 1) as usize);
    let big = a.num("big", 20000) as usize;
    let only = a.str("cfg", "");
    let salt = a.num("salt", 0);
    let cfgs: Vec<Config> = all().into_iter().filter(|c| c.bits >= 8 && (only.is_empty() || c.name == only)).collect();
    let mut out = Output::default();
    let mut distinct: HashSet<u64> = HashSet::new();
    let (mut roomy, mut worst) = (0u64, 0u64);
    for (i, c) in cfgs.iter().enumerate() {
        if i % shards != shard {
            continue;
        }
        j.set(format!("#veb-replay stack\n#cfg {}\n#run stack --cfg {} --seed {seed} --salt {salt} --big {big}\n", c.name, c.name));
        let mut rng = Rng::new(mix2(seed ^ salt << 40, hash_str(c.name)));
        let mut run = |sizes: &[usize], rounds: usize, out: &mut Output| {
            let mut m = M { seen: 0, hi: BTreeMap::new(), cfg: c, n: 0 };
            for n in sizes {
                for r in 0..rounds {
                    let ks = keys(&mut rng, c.bits, *n, r % 4);
                    life(&mut m, &mut rng, &ks);
                    for op in m.hi.keys() {
                        distinct.insert(mix2(hash_str(c.name) ^ hash_str(op), *n as u64 ^ (r as u64) << 32 ^ ks[0] as u64));
                    }
                }
            }
            out.count("operations_measured", m.n);
            m.hi
        };
        let small = run(&[1, 2, 3, 5, 9, 24, 60], 6, &mut out);
        if small.values().any(|d| d.0 > DEEP / 3) {
            // trees with large arrays inside them: what is painted would not do
            roomy += 1;
            continue;
        }
        let heavy = c.heavy > 1;
        let large = run(&[if heavy { big / 10 } else { big }], 4, &mut out);
        // operations share their paths (a removal promotes, a failed one rebuilds), and which one a
        // small tree takes is chance: what the composition needs at all is the measure
        let base = small.values().map(|s| s.0).max().unwrap_or(0);
        for (op, (d, n)) in &large {
            let limit = 2 * base + 8192;
            out.count("depths_compared", 1);
            worst = worst.max((100 * d / limit) as u64);
            out.max("stack_bytes", *d as u64);
            if d > &limit {
                out.violations.push(Violation {
                    what: format!("{op} on {} reaches {d} bytes of stack{} with {n} entries, no operation more than {base} with at most 60", c.name, if *d >= DEEP - 4096 { " or more" } else { "" }),
                    replay: format!("#veb-replay stack\n#cfg {}\n#op {op}\n#run stack --cfg {} --seed {seed} --salt {salt} --big {big}\n", c.name, c.name),
                });
            }
        }
        out.count("compositions", 1);
    }
    out.count("compositions_too_large_to_paint", roomy);
    out.max("percent_of_limit_reached", worst);
    out.distinct = distinct.into_iter().collect();
    out.write(&a.str("out", ""));
}
