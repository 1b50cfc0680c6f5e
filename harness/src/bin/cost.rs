//! C17: key work of every operation, counted by instrumented keys, as the tree grows.
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::Ordering::Relaxed;
use vebchecks::all;
use vebmon::configs::Config;
use vebmon::dynt::DynTree;
use vebmon::engine::{last_panic, quiet_panics, BEAT};
use vebmon::gen;
use vebmon::host::*;
use vebmon::keys::{self, mask, Counts};
use vebmon::rng::{hash_str, mix2, Rng};
use vebmon::tok;

/// Operation kinds and the key work each may cost: (base, per level of key halving, hashes
/// per level). About twice the crate needs today; a doubled recursion or any dependence on the number of entries
/// exceeds it.
const KINDS: [(&str, u64, u64, u64); 21] = [
    ("find", 6, 10, 2),
    ("find_mut", 6, 10, 2),
    ("predecessor", 8, 15, 4),
    ("predecessor_mut", 8, 15, 4),
    ("successor", 10, 17, 4),
    ("successor_mut", 10, 17, 4),
    ("insert new key", 6, 11, 4),
    ("insert existing key", 6, 11, 2),
    ("remove", 10, 13, 3),
    ("remove absent key", 8, 9, 2),
    ("remove_min", 6, 5, 3),
    ("remove_max", 6, 5, 3),
    ("min_val", 2, 0, 0),
    ("max_val", 2, 0, 0),
    ("min_val_mut", 2, 0, 0),
    ("max_val_mut", 2, 0, 0),
    ("is_monad", 2, 0, 0),
    ("len_hint", 2, 0, 0),
    ("into_monad", 2, 0, 0),
    ("clear", 0, 0, 0),
    ("create", 2, 0, 0),
];

/// number of halvings from the tree's key down to its leaves
fn levels(c: &Config) -> u64 {
    match c.name.split('/').next().unwrap() {
        "UK8" => 3,
        "UK16" => 4,
        "UK32" => 5,
        "UK64" => 6,
        "UK128" => 7,
        "VK16" => 1,
        "VK24" | "VK32" => 2,
        _ => 4,
    }
}

struct Mon<'a> {
    c: &'a Config,
    /// maxima per kind: all but hashing, hashing
    max: [(u64, u64); 21],
    sum_hash: [u64; 21],
    n: [u64; 21],
    worst: Option<(usize, u64, u64, usize)>,
    /// a stretch of operations that hashed too much: operations, hashes, allowed, entries
    thrash: Option<(u64, u64, u64, usize)>,
    ops: u64,
}
fn work(c: &Counts) -> u64 {
    c.cmp + c.clone + c.split + c.join + c.index
}
impl Mon<'_> {
    fn run<T>(&mut self, kind: usize, size: usize, f: impl FnOnce() -> T) -> T {
        BEAT.fetch_add(1, Relaxed);
        keys::counts_reset();
        let r = f();
        let k = keys::counts();
        self.ops += 1;
        self.n[kind] += 1;
        self.sum_hash[kind] += k.hash;
        let m = &mut self.max[kind];
        m.0 = m.0.max(work(&k));
        m.1 = m.1.max(k.hash);
        let lim = limit(kind, self.c);
        if work(&k) > lim && self.worst.is_none_or(|w| w.1 < work(&k)) {
            self.worst = Some((kind, work(&k), lim, size));
        }
        r
    }
}
fn hash_limit(kind: usize, c: &Config) -> u64 {
    KINDS[kind].3 * levels(c) + 1
}
fn limit(kind: usize, c: &Config) -> u64 {
    KINDS[kind].1 + KINDS[kind].2 * levels(c)
}

/// Operations that may make a hash table grow, shrink or tidy itself up; for them hashing is judged as an average.
fn changes(kind: usize) -> bool {
    (6..=11).contains(&kind)
}

/// Entries come and go while the tree stays at one size: whatever a table does once at that size is allowed for,
/// doing it again and again is not.
fn seesaw(m: &mut Mon, t: &mut dyn DynTree, set: &BTreeSet<u128>, rng: &mut Rng) {
    let n = set.len();
    let top = mask(m.c.bits);
    // keys of high halves of their own, inside or at an end
    let keys: Vec<u128> = (0..4).map(|_| rng.next() as u128 * (rng.next() as u128 | 1) & top).chain([0, top]).filter(|k| !set.contains(k)).collect();
    let Some(k) = keys.get(rng.below(keys.len().max(1))).copied() else { return };
    let way = rng.below(3);
    let before = (m.sum_hash.iter().sum::<u64>(), m.ops);
    let mut due = 0;
    for r in 0..48 {
        m.run(6, n, || t.insert(k, r));
        due += hash_limit(6, m.c);
        if way == 0 && Some(&k) < set.first() {
            m.run(10, n, || t.remove_min());
            due += hash_limit(10, m.c);
        } else if way == 0 && Some(&k) > set.last() {
            m.run(11, n, || t.remove_max());
            due += hash_limit(11, m.c);
        } else {
            m.run(8, n, || t.remove(k, 1));
            due += hash_limit(8, m.c);
        }
        if way == 1 {
            m.run(9, n, || t.remove(k, 1));
            due += hash_limit(9, m.c);
        }
    }
    let (hashed, ops) = (m.sum_hash.iter().sum::<u64>() - before.0, m.ops - before.1);
    let lim = due + 3 * (n as u64 + 64) * levels(m.c);
    if hashed > lim && m.thrash.is_none() {
        m.thrash = Some((ops, hashed, lim, n));
    }
}

fn queries(m: &mut Mon, t: &mut dyn DynTree, set: &BTreeSet<u128>, rng: &mut Rng, pl: &[u128], times: usize) {
    let n = set.len();
    for _ in 0..times {
        let k = gen::query(rng, m.c.bits, set, pl);
        let how = rng.below(4) as u8;
        m.run(0, n, || t.find(k, how));
        m.run(1, n, || t.find_mut(k, how, None));
        m.run(2, n, || t.pred(k, how));
        m.run(3, n, || t.pred_mut(k, how, None));
        m.run(4, n, || t.succ(k, how));
        m.run(5, n, || t.succ_mut(k, how, None));
    }
    m.run(12, n, || t.min());
    m.run(13, n, || t.max());
    m.run(14, n, || t.min_mut(None));
    m.run(15, n, || t.max_mut(None));
    m.run(16, n, || t.is_monad());
    m.run(17, n, || {
        t.len_hint();
        t.exact_len();
    });
    if n > 1 {
        m.run(18, n, || t.into_monad()).unwrap_err();
    }
}

/// gen::query costs O(n) for a random member; for large sets sample the pool instead
fn some_key(rng: &mut Rng, c: &Config, set: &BTreeSet<u128>, pl: &[u128]) -> u128 {
    if set.len() < 200 {
        return gen::query(rng, c.bits, set, pl);
    }
    let k = pl[rng.below(pl.len())];
    match rng.below(4) {
        0 => k ^ (1 << rng.below(c.bits as usize)),
        1 => k.wrapping_add(1) & mask(c.bits),
        2 => k.wrapping_sub(1) & mask(c.bits),
        _ => k,
    }
}

fn case(m: &mut Mon, rng: &mut Rng, n: usize, see: &mut dyn FnMut(u64)) {
    tok::reset();
    keys::kl_reset();
    keys::arm(u64::MAX);
    let c = m.c;
    let sh = [0, 1, 2, 3, 4, 5, 6, 8, 9][rng.below(9)];
    let mut pl = gen::pool(rng, c.bits, n, sh);
    match rng.below(4) {
        0 => pl.sort(),
        1 => {
            pl.sort();
            pl.reverse()
        }
        2 => {
            // from the outside inwards
            pl.sort();
            let (mut a, mut b): (usize, usize) = (0, pl.len());
            let mut o = vec![];
            while a < b {
                b -= 1;
                o.push(pl[b]);
                if a < b {
                    o.push(pl[a]);
                    a += 1;
                }
            }
            pl = o;
        }
        _ => rng.shuffle(&mut pl),
    }
    let shape = mix2(hash_str(c.name), mix2(sh as u64, pl.first().map_or(0, |k| *k as u64)));
    let mut set = BTreeSet::new();
    let mut t = m.run(20, 0, || (c.mk)(pl[0], 0));
    set.insert(pl[0]);
    let every = (pl.len() / 40).max(1);
    for (i, k) in pl.iter().enumerate().skip(1) {
        let kind = if set.contains(k) { 7 } else { 6 };
        m.run(kind, i, || t.insert(*k, i as u64));
        set.insert(*k);
        if i % every == 0 || i < 12 {
            if set.len() < 300 {
                queries(m, &mut *t, &set, rng, &pl, 2);
            } else {
                for _ in 0..2 {
                    let k = some_key(rng, c, &set, &pl);
                    let n = set.len();
                    m.run(0, n, || t.find(k, 1));
                    m.run(2, n, || t.pred(k, 1));
                    m.run(3, n, || t.pred_mut(k, 1, None));
                    m.run(4, n, || t.succ(k, 1));
                    m.run(5, n, || t.succ_mut(k, 1, None));
                    m.run(1, n, || t.find_mut(k, 1, None));
                }
                let n = set.len();
                m.run(12, n, || t.min());
                m.run(13, n, || t.max());
                m.run(14, n, || t.min_mut(None));
                m.run(15, n, || t.max_mut(None));
                m.run(16, n, || t.is_monad());
                m.run(17, n, || {
                    t.len_hint();
                    t.exact_len();
                });
                let _ = m.run(18, n, || t.into_monad());
            }
            if i % 3 == 0 {
                let k = *rng.pick(&pl[..=i]);
                if set.contains(&k) {
                    m.run(7, i, || t.insert(k, 7));
                }
                let x = some_key(rng, c, &set, &pl);
                if !set.contains(&x) {
                    m.run(9, i, || t.remove(x, 1));
                }
            }
        }
        see(mix2(shape, i as u64));
        // around the sizes at which tables grow
        let s = set.len();
        if rng.chance(1, 40) || [12, 26, 54, 110, 222, 446, 894, 1790].iter().any(|g| (*g..g + 9).contains(&s)) && rng.chance(1, 2) {
            seesaw(m, &mut *t, &set, rng);
        }
    }
    // drain: from the ends, in random order, or mixed; re-inserting now and then
    let mode = rng.below(4);
    let mut order = pl.clone();
    rng.shuffle(&mut order);
    let mut i = 0;
    while let Some(first) = set.first().copied() {
        let size = set.len();
        see(mix2(shape ^ 1, (size as u64) << 2 | mode as u64));
        match if mode == 3 { rng.below(3) } else { mode } {
            0 => {
                m.run(10, size, || t.remove_min());
                set.pop_first();
            }
            1 => {
                m.run(11, size, || t.remove_max());
                set.pop_last();
            }
            _ => {
                let mut k = first;
                while i < order.len() {
                    i += 1;
                    if set.contains(&order[i - 1]) {
                        k = order[i - 1];
                        break;
                    }
                }
                m.run(8, size, || t.remove(k, 1));
                set.remove(&k);
            }
        }
        if !t.present() {
            break;
        }
        if size % every == 0 {
            if size < 300 {
                queries(m, &mut *t, &set, rng, &pl, 1);
            }
            let x = some_key(rng, c, &set, &pl);
            if !set.contains(&x) {
                m.run(9, size, || t.remove(x, 1));
            }
            if rng.chance(1, 3) && !set.contains(&x) {
                m.run(6, size, || t.insert(x, 1));
                set.insert(x);
            }
        }
    }
}

fn main() {
    let a = Args::parse();
    quiet_panics();
    watchdog(20.0);
    let cfgs: Vec<Config> = all().into_iter().filter(|c| c.uk && !c.name.contains("collide")).collect();
    let (seed, shard, shards) = (a.num("seed", 1), a.num("shard", 0), a.num("shards", 1));
    let deep = a.str("tier", "quick") == "thorough";
    let secs = a.num("secs", 10) as f64;
    let j = Journal::new(&a.str("journal", ""));
    let mut out = Output::default();
    let mut distinct: HashSet<u64> = HashSet::new();
    let mut tot: BTreeMap<&str, [(u64, u64, u64, u64); 21]> = BTreeMap::new();
    let t0 = out.cpu();
    let mut idx = shard;
    let mut ops = 0;
    while out.cpu() - t0 < secs && out.violations.len() < 3 {
        let rng = &mut Rng::new(mix2(mix2(seed, 17), idx));
        let c = &cfgs[(idx as usize / shards as usize) % cfgs.len()];
        let n = match rng.below(12) {
            0..=4 => 2 + rng.below(30),
            5..=8 => 30 + rng.below(400),
            9 | 10 => 400 + rng.below(2000),
            _ => 2000 + rng.below(if deep { 60_000 } else { 8_000 }),
        };
        let text = format!("#veb-replay cost\n#cfg {}\n#seed {seed}\n#idx {idx}\n#entries {n}", c.name);
        j.set(text.clone());
        let mut m = Mon { c, max: [(0, 0); 21], sum_hash: [0; 21], n: [0; 21], worst: None, thrash: None, ops: 0 };
        keys::set_limit(20_000_000);
        let r = catch_unwind(AssertUnwindSafe(|| {
            case(&mut m, rng, n, &mut |h| {
                if distinct.len() < 400_000 {
                    distinct.insert(h);
                }
            })
        }));
        ops += m.ops;
        if r.is_err() {
            let what = format!("[{}] panic: {}", c.name, last_panic());
            out.violations.push(Violation { what, replay: text });
        } else if let Some((k, w, lim, size)) = m.worst {
            let what = format!("[{}] {} on a tree of {size} entries makes {w} calls of key code (comparisons, clones, splits, joins); the bound for {} levels is {lim}", c.name, KINDS[k].0, levels(c));
            out.violations.push(Violation { what, replay: text });
        } else {
            // hashing: constant for operations that leave tables alone, on average for the others
            let changed: Vec<usize> = (0..21).filter(|k| changes(*k)).collect();
            let (sum, due): (u64, u64) = (changed.iter().map(|k| m.sum_hash[*k]).sum(), changed.iter().map(|k| m.n[*k] * hash_limit(*k, c)).sum());
            if sum > due + 3 * (n as u64 + 64) * levels(c) {
                let what = format!("[{}] {} insertions and removals hash {sum} keys, more than {due} expected on average", c.name, changed.iter().map(|k| m.n[*k]).sum::<u64>());
                out.violations.push(Violation { what, replay: text.clone() });
            } else if let Some((ops, hashed, lim, size)) = m.thrash {
                let what = format!("[{}] {ops} operations on a tree of {size} or {} entries hash {hashed} keys, more than {lim}", c.name, size + 1);
                out.violations.push(Violation { what, replay: text.clone() });
            }
            for k in 0..21 {
                let lim = hash_limit(k, c);
                if !changes(k) && m.max[k].1 > lim {
                    let what = format!("[{}] {} hashes {} keys in one call on some tree of at most {n} entries; the bound is {lim}", c.name, KINDS[k].0, m.max[k].1);
                    out.violations.push(Violation { what, replay: text.clone() });
                }
            }
        }
        let e = tot.entry(c.name).or_insert([(0, 0, 0, 0); 21]);
        for k in 0..21 {
            e[k].0 = e[k].0.max(m.max[k].0);
            e[k].1 = e[k].1.max(m.max[k].1);
            e[k].2 += m.sum_hash[k];
            e[k].3 += m.n[k];
        }
        if out.samples.len() < 3 {
            out.samples.push(format!("{}: built to {n} entries and drained; costliest insertion {} key calls, removal {}", c.name, m.max[6].0, m.max[8].0));
        }
        out.max("entries", n as u64);
        idx += shards;
    }
    if a.has("table") {
        for (n, e) in &tot {
            println!("{n}");
            for k in 0..21 {
                println!("   {:22} work {:5} hash {:5} mean hash {:.2} limit {} n {}", KINDS[k].0, e[k].0, e[k].1, e[k].2 as f64 / e[k].3.max(1) as f64, KINDS[k].1 + KINDS[k].2 * levels(cfgs.iter().find(|c| c.name == *n).unwrap()), e[k].3);
            }
        }
    }
    for k in 0..21 {
        out.max(&format!("key_calls_per_level_x100_{}", KINDS[k].0.replace(' ', "_")), tot.iter().map(|(n, e)| e[k].0 * 100 / levels(cfgs.iter().find(|c| c.name == *n).unwrap())).max().unwrap_or(0));
    }
    out.count("operations", ops);
    out.count("compositions", tot.len() as u64);
    out.distinct = distinct.into_iter().collect();
    out.write(&a.str("out", ""));
}
