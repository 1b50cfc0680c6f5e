//! C28: queries and iteration acquire no memory, not even for a moment. A counting global
//! allocator watches every call into the trees.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::collections::{BTreeSet, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::Ordering::Relaxed;
use vebchecks::all;
use vebmon::configs::Config;
use vebmon::dynt::DynTree;
use vebmon::engine::{last_panic, quiet_panics, BEAT};
use vebmon::gen;
use vebmon::host::*;
use vebmon::keys::{self, mask};
use vebmon::rng::{hash_str, mix2, Rng};
use vebmon::tok;

struct Meter;
thread_local! { static NEW: Cell<u64> = const { Cell::new(0) }; }
fn note() {
    let _ = NEW.try_with(|n| n.set(n.get() + 1));
}
unsafe impl GlobalAlloc for Meter {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note();
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        note();
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        note();
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static METER: Meter = Meter;

/// What one call asked of the allocator.
fn met<T>(f: impl FnOnce() -> T) -> (T, u64) {
    let a = NEW.get();
    BEAT.fetch_add(1, Relaxed);
    let r = f();
    (r, NEW.get() - a)
}

#[derive(Default)]
struct St {
    trees: u64,
    queries: u64,
    steps: u64,
    allocating: u64,
    max_entries: u64,
}

/// The tree, probed with `k`; the name of the first call that asked for memory.
fn probe(t: &mut dyn DynTree, k: u128, how: u8, st: &mut St) -> Result<(), String> {
    macro_rules! none { ($($what:expr => $e:expr;)*) => { $(
        let (r, n) = met(|| $e);
        std::hint::black_box(&r);
        st.queries += 1;
        if n > 0 {
            return Err(format!("{} of {k:#x} asks {n} times for memory", $what));
        }
    )* } }
    none! {
        "find" => t.find(k, how);
        "predecessor" => t.pred(k, how);
        "successor" => t.succ(k, how);
        "find_mut" => t.find_mut(k, how, None);
        "predecessor_mut" => t.pred_mut(k, how, None);
        "successor_mut" => t.succ_mut(k, how, None);
        "min_val" => t.min();
        "max_val" => t.max();
        "min_val_mut" => t.min_mut(None);
        "max_val_mut" => t.max_mut(None);
        "is_monad" => t.is_monad();
        "len_hint" => t.len_hint();
        "len" => t.exact_len();
    }
    Ok(())
}

fn walk(t: &dyn DynTree, rng: &mut Rng, len: usize, st: &mut St) -> Result<(), String> {
    // the harness boxes the iterator
    let (mut it, n) = met(|| t.iter());
    if n > 1 {
        return Err(format!("making an iterator asks {} times for memory", n - 1));
    }
    let style = rng.below(5);
    for i in 0..len + 2 {
        let (what, n) = match if style < 4 { style * 2 } else { rng.below(8) } {
            0 | 1 => ("next", met(|| it.next()).1),
            2 | 3 => ("next_back", met(|| it.next_back()).1),
            4 if i % 3 == 2 => ("nth", met(|| it.nth(i % 4)).1),
            4 => ("size_hint of the iterator", met(|| it.size_hint()).1),
            5 => ("len of the iterator", met(|| it.exact_len()).1),
            6 => ("nth_back", met(|| it.nth_back(i % 3)).1),
            _ => ("size_hint of the iterator", met(|| it.size_hint()).1),
        };
        st.steps += 1;
        if n > 0 {
            return Err(format!("step {i} of an iteration, {what}, asks {n} times for memory"));
        }
    }
    let (what, n) = match rng.below(3) {
        0 => ("count", met(|| it.count()).1),
        1 => ("last", met(|| it.last()).1),
        _ => ("dropping an iterator", met(|| drop(it)).1),
    };
    if n > 0 {
        return Err(format!("{what} after {} steps asks {n} times for memory", len + 2));
    }
    Ok(())
}

fn case(c: &Config, seed: u64, n: usize, st: &mut St, see: &mut dyn FnMut(u64)) -> Result<String, String> {
    tok::reset();
    keys::kl_reset();
    keys::arm(u64::MAX);
    let rng = &mut Rng::new(seed);
    let shape = rng.below(5);
    let pool = gen::pool(rng, c.bits, n + 3, shape);
    let mut t = (c.mk)(pool[0], rng.next() & c.vmask);
    let mut m: BTreeSet<u128> = [pool[0]].into();
    let before = NEW.get();
    let name = hash_str(c.name);
    let stop = 1 + rng.below(pool.len().max(2) * 2);
    for i in 0..stop {
        let k = *rng.pick(&pool);
        if m.contains(&k) && m.len() > 1 && rng.chance(1, 3) {
            t.remove(k, 1);
            m.remove(&k);
        } else {
            t.insert(k, rng.next() & c.vmask);
            m.insert(k);
        }
        if i % 7 == 0 || i + 1 == stop || m.len() <= 3 && rng.chance(1, 4) {
            let (k, near) = (*rng.pick(&pool), *rng.pick(&pool));
            let near = near ^ if c.bits == 0 { 0 } else { 1 << rng.below(c.bits as usize) };
            for k in [k, near & mask(c.bits)] {
                see(mix2(mix2(name, k as u64), m.iter().fold(m.len() as u64, |h, x| mix2(h, *x as u64))));
                probe(&mut *t, k, rng.below(2) as u8, st).map_err(|e| format!("[{}] {} entries: {e}", c.name, m.len()))?;
            }
        }
        if i % 31 == 0 || i + 1 == stop {
            let steps = if m.len() > 200 && rng.chance(3, 4) { 100 } else { m.len() };
            see(mix2(mix2(name, 77), m.iter().fold(m.len() as u64, |h, x| mix2(h, *x as u64))));
            walk(&*t, rng, steps, st).map_err(|e| format!("[{}] {} entries: {e}", c.name, m.len()))?;
        }
    }
    st.trees += 1;
    st.allocating += (NEW.get() > before) as u64;
    st.max_entries = st.max_entries.max(m.len() as u64);
    Ok(format!("{}: {stop} insertions and removals, {} entries at the end", c.name, m.len()))
}

fn main() {
    let a = Args::parse();
    quiet_panics();
    watchdog(20.0);
    let cfgs: Vec<Config> = all().into_iter().filter(|c| !c.uk).collect();
    let (seed, shard, shards) = (a.num("seed", 1), a.num("shard", 0), a.num("shards", 1));
    let secs = a.num("secs", 8) as f64;
    let deep = a.str("tier", "quick") == "thorough";
    let j = Journal::new(&a.str("journal", ""));
    let mut out = Output::default();
    let mut st = St::default();
    let mut distinct: HashSet<u64> = HashSet::new();
    let t0 = out.cpu();
    let mut idx = shard;
    while out.cpu() - t0 < secs && out.violations.len() < 3 {
        let rng = &mut Rng::new(mix2(mix2(seed, 28), idx));
        let c = &cfgs[(idx / shards) as usize % cfgs.len()];
        idx += shards;
        if c.heavy > 1 && !rng.chance(1, c.heavy) {
            continue;
        }
        let n = if c.heavy > 1 { 12 } else { *rng.pick(&[1usize, 2, 3, 6, 20, 20, 60, 60, 300, if deep { 5000 } else { 900 }]) };
        let s = rng.next();
        j.set(format!("#veb-replay lazy\n#cfg {}\n#seed {s}\n#n {n}", c.name));
        let go = |n: usize, st: &mut St, see: &mut dyn FnMut(u64)| match catch_unwind(AssertUnwindSafe(|| case(c, s, n, st, see))) {
            Ok(r) => r,
            Err(_) => Err(format!("[{}] panic: {}", c.name, last_panic())),
        };
        let see = &mut |h: u64| {
            if distinct.len() < 400_000 {
                distinct.insert(h);
            }
        };
        match go(n, &mut st, see) {
            Ok(s) => {
                if out.samples.len() < 3 {
                    out.samples.push(s)
                }
            }
            Err(mut what) => {
                let mut best = n;
                for k in 1..n.min(40) {
                    if let Err(w) = go(k, &mut St::default(), &mut |_| {}) {
                        (best, what) = (k, w);
                        break;
                    }
                }
                out.violations.push(Violation { what: what.clone(), replay: format!("#veb-replay lazy\n#cfg {}\n#seed {s}\n#n {best}\n# {what}\n", c.name) });
            }
        }
    }
    out.count("trees", st.trees);
    out.count("queries_metered", st.queries);
    out.count("iteration_steps_metered", st.steps);
    out.count("trees_whose_building_allocated", st.allocating);
    out.max("entries", st.max_entries);
    out.distinct = distinct.into_iter().collect();
    out.write(&a.str("out", ""));
}
