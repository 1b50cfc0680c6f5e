//! C23 (storage follows the entries) and the heap side of C14 (nothing stays behind): a counting
//! global allocator watches every call into the trees.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::collections::{BTreeSet, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::Ordering::Relaxed;
use vebchecks::all;
use vebmon::configs::Config;
use vebmon::dynt::{DynTree, Rem};
use vebmon::engine::{last_panic, quiet_panics, BEAT};
use vebmon::gen::{self, Mix, Op};
use vebmon::host::*;
use vebmon::keys::{self, mask};
use vebmon::rng::{hash_str, mix2, Rng};
use vebmon::tok;

struct Meter;
thread_local! {
    static BLOCKS: Cell<i64> = const { Cell::new(0) };
    static BYTES: Cell<i64> = const { Cell::new(0) };
    static ALLOCS: Cell<u64> = const { Cell::new(0) };
}
fn note(blocks: i64, bytes: i64) {
    let _ = BLOCKS.try_with(|b| b.set(b.get() + blocks));
    let _ = BYTES.try_with(|b| b.set(b.get() + bytes));
    if blocks > 0 {
        let _ = ALLOCS.try_with(|b| b.set(b.get() + 1));
    }
}
unsafe impl GlobalAlloc for Meter {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(1, l.size() as i64);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        note(-1, -(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        note(1, l.size() as i64);
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        note(0, n as i64 - l.size() as i64);
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static METER: Meter = Meter;

fn metered<T>(f: impl FnOnce() -> T) -> (T, i64, i64) {
    let (a, b) = (BLOCKS.get(), BYTES.get());
    BEAT.fetch_add(1, Relaxed);
    let r = f();
    (r, BLOCKS.get() - a, BYTES.get() - b)
}

#[derive(Default)]
struct St {
    histories: u64,
    ops: u64,
    quiet_ops: u64,
    fresh_compared: u64,
    small_states: u64,
    releases: u64,
    max_blocks: u64,
    max_entries: u64,
    drops: u64,
}

struct Slot {
    t: Option<Box<dyn DynTree>>,
    m: BTreeSet<u128>,
    blocks: i64,
    peak: i64,
}
impl Slot {
    fn new() -> Slot {
        Slot { t: None, m: BTreeSet::new(), blocks: 0, peak: 0 }
    }
}

/// Blocks of a tree built by inserting these keys in order.
fn fresh(c: &Config, m: &BTreeSet<u128>) -> i64 {
    let ((), _, _) = metered(|| ());
    let mut it = m.iter();
    let Some(k) = it.next() else { return 0 };
    let (mut t, b0, _) = metered(|| (c.mk)(*k, 1));
    let mut b = b0;
    for k in it {
        b += metered(|| t.insert(*k, 1)).1;
    }
    b
}

struct Kind {
    leak: bool, // C14: only the release side
    /// blocks of a one-entry tree, and per value
    base: i64,
    per_value: i64,
    factor: i64,
}

fn warm(c: &Config) {
    tok::reset();
    keys::kl_reset();
    keys::arm(u64::MAX);
    // the ledgers' own vectors and the harness' one-off allocations
    let mut t = (c.mk)(0, 0);
    t.find(0, 0);
    for i in 0..40 {
        t.insert(i & mask(c.bits), 1);
    }
}

fn kind(c: &Config, leak: bool) -> Kind {
    warm(c);
    let (t, base, _) = metered(|| (c.mk)(0, 0));
    drop(t);
    let per_value = if c.name == "u16/hash-weak" { 1 } else { 0 };
    // B-tree nodes may be less than half full after removals
    let b_tree = !c.interior || c.name.contains("btree") || c.name.contains("u4") || c.uk || c.bits < 16;
    Kind { leak, base, per_value, factor: if b_tree { 3 } else { 2 } }
}

/// Runs a history; Err((op index, message)).
fn run(c: &Config, k: &Kind, ops: &[Op], every: usize, st: &mut St, see: &mut dyn FnMut(u64)) -> Result<(), (usize, String)> {
    warm(c);
    let mk = mask(c.bits);
    let mut a = Slot::new();
    let mut b = Slot::new();
    st.histories += 1;
    let start = (BLOCKS.get(), a.m.len());
    let _ = start;
    for (i, op) in ops.iter().enumerate() {
        st.ops += 1;
        let mut quiet = false;
        let mut bytes = 0i64;
        let mut delta = 0i64;
        let fail = |m: String| Err((i, format!("[{}] {m}", c.name)));
        macro_rules! go {
            ($e:expr) => {{
                let (r, d, y) = metered(|| $e);
                delta += d;
                bytes += y;
                r
            }};
        }
        if a.t.is_none() {
            if let Op::Ins(key, v) = op {
                let key = key & mk;
                let t = go!((c.mk)(key, *v));
                a.t = Some(t);
                a.m.insert(key);
                // the box of the harness itself is part of every count
                a.blocks = delta;
                let _ = bytes;
            }
            continue;
        }
        let t = a.t.as_mut().unwrap();
        let mut gone = false;
        match op {
            Op::Ins(key, v) => {
                let key = key & mk;
                go!(t.insert(key, *v));
                a.m.insert(key);
            }
            Op::Rem(key, h) => match go!(t.remove(key & mk, *h)) {
                Rem::Absent => quiet = true,
                Rem::Gone((key, _)) => {
                    gone = true;
                    a.m.remove(&key);
                }
                Rem::Left((key, _)) => {
                    a.m.remove(&key);
                }
            },
            Op::RMin | Op::RMax => {
                let r = if *op == Op::RMin { go!(t.remove_min()) } else { go!(t.remove_max()) };
                if let Rem::Gone((key, _)) | Rem::Left((key, _)) = r {
                    a.m.remove(&key);
                }
                gone = matches!(r, Rem::Gone(_));
            }
            Op::IntoMonad => match go!(t.into_monad()) {
                Ok((key, _)) => {
                    gone = true;
                    a.m.remove(&key);
                }
                Err(()) => quiet = true,
            },
            Op::Probe(key, h) => {
                quiet = true;
                let key = key & mk;
                go!({
                    t.find(key, *h);
                    t.pred(key, *h);
                    t.succ(key, *h);
                    t.find_mut(key, *h, None);
                    t.pred_mut(key, *h, None);
                    t.succ_mut(key, *h, None);
                    t.min();
                    t.max();
                    t.is_monad();
                    t.len_hint();
                    t.exact_len();
                });
            }
            Op::FindMut(key, h, v) => {
                quiet = true;
                go!(t.find_mut(key & mk, *h, Some(*v)));
            }
            Op::PredMut(key, h, v) => {
                quiet = true;
                go!(t.pred_mut(key & mk, *h, Some(*v)));
            }
            Op::SuccMut(key, h, v) => {
                quiet = true;
                go!(t.succ_mut(key & mk, *h, Some(*v)));
            }
            Op::MinMut(v) => {
                quiet = true;
                go!(t.min_mut(Some(*v)));
            }
            Op::MaxMut(v) => {
                quiet = true;
                go!(t.max_mut(Some(*v)));
            }
            Op::Iter(n, side, extra) => {
                quiet = true;
                let (n, side, extra) = (*n, *side, *extra);
                go!({
                    let mut it = t.iter();
                    for i in 0..n {
                        let _ = if side >> (i as u64 % 64) & 1 == 1 { it.next_back() } else { it.next() };
                        it.size_hint();
                    }
                    match extra & 3 {
                        1 => {
                            it.drain_front(100000);
                        }
                        2 => {
                            it.count();
                        }
                        _ => {}
                    }
                });
            }
            Op::Handles(key) => {
                quiet = true;
                let r = go!(t.handles(key & mk));
                if r.is_err() {
                    continue;
                }
            }
            Op::Snap => {
                let old = b.t.take();
                drop(old);
                let r = go!(t.try_clone());
                if let Some(r) = r {
                    b = Slot { t: Some(r), m: a.m.clone(), blocks: delta, peak: delta };
                    if b.blocks > k.factor * a.blocks.max(1) + 8 {
                        return fail(format!("a clone holds {} heap blocks, the original {}", b.blocks, a.blocks));
                    }
                } else {
                    b = Slot::new();
                }
                let _ = bytes;
                continue;
            }
            Op::Assign => {
                let src = &**t;
                if let Some(dst) = &mut b.t {
                    let (did, d, _) = metered(|| dst.clone_from_tree(src));
                    b.blocks += d;
                    b.peak = b.peak.max(b.blocks);
                    if did {
                        b.m = a.m.clone();
                    }
                }
                continue;
            }
            Op::Swap => {
                std::mem::swap(&mut a, &mut b);
                continue;
            }
            Op::Clear | Op::Full => gone = *op == Op::Clear,
        }
        a.blocks += delta;
        if delta < 0 {
            st.releases += 1;
        }
        a.peak = a.peak.max(a.blocks);
        st.max_blocks = st.max_blocks.max(a.blocks as u64);
        st.max_entries = st.max_entries.max(a.m.len() as u64);
        let n = a.m.len();
        if gone {
            let (_, d, _) = metered(|| a.t = None);
            a.blocks += d;
            st.drops += 1;
            if a.blocks != 0 {
                return fail(format!("{} heap blocks remain after {} (most held before: {})", a.blocks, if *op == Op::Clear { "dropping the tree".into() } else { op.text() }, a.peak));
            }
            a = Slot::new();
            continue;
        }
        if k.leak {
            continue;
        }
        if quiet {
            st.quiet_ops += 1;
            if delta != 0 {
                return fail(format!("{} (a query or failed removal) changed the number of heap blocks held by {delta}", op.text()));
            }
            if bytes > 0 && !c.uk {
                return fail(format!("{} (a query or failed removal) grew the storage held by {bytes} bytes", op.text()));
            }
        }
        see(mix2(a.m.iter().take(6).fold(n as u64, |h, k| mix2(h, *k as u64)), mix2(op.code(), hash_str(c.name))));
        if c.interior && n <= 2 {
            st.small_states += 1;
            let lim = k.base + k.per_value * (n as i64 - 1);
            if a.blocks > lim {
                return fail(format!("{n} entries left, but {} heap blocks are held; a new tree of one entry holds {} (most held before: {})", a.blocks, k.base, a.peak));
            }
        }
        if n <= 12 && every != 0 && i % 3 == 0 || every != 0 && i % every == every - 1 || i + 1 == ops.len() {
            st.fresh_compared += 1;
            let f = fresh(c, &a.m);
            if a.blocks > k.factor * f + 8 {
                return fail(format!("{n} entries hold {} heap blocks; a freshly built tree of the same entries holds {f} (most held before: {})", a.blocks, a.peak));
            }
        }
    }
    for s in [&mut a, &mut b] {
        if s.t.is_some() {
            let (_, d, _) = metered(|| s.t = None);
            st.drops += 1;
            if s.blocks + d != 0 {
                return Err((ops.len(), format!("[{}] {} heap blocks remain after dropping the tree", c.name, s.blocks + d)));
            }
        }
    }
    Ok(())
}

fn guarded(c: &Config, k: &Kind, ops: &[Op], every: usize, st: &mut St, see: &mut dyn FnMut(u64)) -> Result<(), (usize, String)> {
    match catch_unwind(AssertUnwindSafe(|| run(c, k, ops, every, st, see))) {
        Ok(r) => r,
        Err(_) => Err((ops.len(), format!("[{}] panic: {}", c.name, last_panic()))),
    }
}

/// A few live entries moving through the key space.
fn window(rng: &mut Rng, c: &Config, len: usize) -> Vec<Op> {
    let w = 1 + rng.below(5);
    let n = 40 + rng.below(200);
    let sh = *rng.pick(&[0, 2, 3, 4, 8, 9]);
    let mut pl = gen::pool(rng, c.bits, n, sh);
    rng.shuffle(&mut pl);
    if rng.chance(1, 3) {
        pl.sort();
    }
    let mut live: std::collections::VecDeque<u128> = Default::default();
    let mut ops = vec![];
    let mode = rng.below(4);
    for i in 0..len {
        let k = pl[i % pl.len()];
        ops.push(Op::Ins(k, i as u64));
        if !live.contains(&k) {
            live.push_back(k);
        }
        while live.len() > w {
            match mode {
                0 => {
                    ops.push(Op::RMin);
                    let x = *live.iter().min().unwrap();
                    live.retain(|k| *k != x);
                }
                1 => {
                    ops.push(Op::RMax);
                    let x = *live.iter().max().unwrap();
                    live.retain(|k| *k != x);
                }
                2 => {
                    let x = live.pop_front().unwrap();
                    ops.push(Op::Rem(x, 1));
                }
                _ => {
                    let x = live.remove(rng.below(live.len())).unwrap();
                    ops.push(Op::Rem(x, 1));
                    ops.push(Op::Rem(x, 1));
                }
            }
        }
    }
    ops
}

fn main() {
    let a = Args::parse();
    quiet_panics();
    watchdog(20.0);
    let cfgs = all();
    let (seed, shard, shards) = (a.num("seed", 1), a.num("shard", 0), a.num("shards", 1));
    let leak = a.str("prop", "C23") == "C14";
    let deep = a.str("tier", "quick") == "thorough";
    let secs = a.num("secs", 10) as f64;
    let j = Journal::new(&a.str("journal", ""));
    let mut out = Output::default();
    let mut st = St::default();
    let mut distinct: HashSet<u64> = HashSet::new();
    let t0 = out.cpu();
    let mut idx = shard;
    let mut per = vec![0u64; cfgs.len()];
    while out.cpu() - t0 < secs && out.violations.len() < 3 {
        let rng = &mut Rng::new(mix2(mix2(seed, 23), idx));
        let i = (idx as usize / shards as usize) % cfgs.len();
        let c = &cfgs[i];
        idx += shards;
        if c.heavy > 1 && !rng.chance(1, c.heavy) {
            continue;
        }
        let mix = Mix { probe: 10, muts: 6, iter: 4, monad: 5, clone: if c.clone { 5 } else { 0 }, handles: 2, clear: 2 };
        let (ops, every, what) = match rng.below(if c.heavy > 1 { 1 } else { 10 }) {
            0..=3 => {
                let (len, np) = (30 + rng.below(if c.heavy > 1 { 40 } else { 150 }), 3 + rng.below(60));
                (gen::history(rng, c, &mix, len, np, (0, 6)), 20, "churn")
            }
            4 | 5 => {
                let len = 60 + rng.below(500);
                (window(rng, c, len), 40, "window")
            }
            6 | 7 => {
                let (len, np) = (200 + rng.below(400), 40 + rng.below(300));
                (gen::history(rng, c, &mix, len, np, (0, 160)), 100, "tides")
            }
            _ => {
                let n = [60, 300, 700, if deep { 6000 } else { 1500 }][rng.below(4)];
                let mut o = gen::scenario(rng, c, n, 0);
                // stop before the very end so that a small remainder is examined
                let keep = rng.below(3);
                o.truncate(o.len().saturating_sub(keep));
                (o, 97, "fill and drain")
            }
        };
        let k = kind(c, leak);
        j.set(format!("#veb-replay store\n#prop {}\n#cfg {}\n{}", if leak { "C14" } else { "C23" }, c.name, gen::script(&ops)));
        per[i] += 1;
        let see = &mut |h: u64| {
            if distinct.len() < 400_000 {
                distinct.insert(h);
            }
        };
        if let Err((at, m)) = guarded(c, &k, &ops, every, &mut st, see) {
            // shorten: truncate, then drop chunks
            let mut cur = ops[..(at + 1).min(ops.len())].to_vec();
            let mut msg = m;
            let t1 = out.elapsed();
            let mut chunk = cur.len() / 2;
            while chunk > 0 && out.elapsed() - t1 < 6.0 {
                let mut p = 0;
                while p < cur.len() && out.elapsed() - t1 < 6.0 {
                    let mut o = cur.clone();
                    o.drain(p..(p + chunk).min(o.len()));
                    let mut s2 = St::default();
                    match guarded(c, &k, &o, 1, &mut s2, &mut |_| {}) {
                        Err((at, m)) => {
                            o.truncate(at + 1);
                            cur = o;
                            msg = m;
                        }
                        Ok(()) => p += chunk,
                    }
                }
                chunk /= 2;
            }
            out.violations.push(Violation { what: msg.clone(), replay: format!("#veb-replay store\n#cfg {}\n#msg {msg}\n{}", c.name, gen::script(&cur)) });
        } else if out.samples.len() < 3 {
            out.samples.push(format!("{}: {what}, {} operations, at most {} blocks", c.name, ops.len(), st.max_blocks));
        }
    }
    out.count("histories", st.histories);
    out.count("operations", st.ops);
    out.count("queries_and_failed_removals_metered", st.quiet_ops);
    out.count("comparisons_with_fresh_trees", st.fresh_compared);
    out.count("states_of_at_most_two_entries", st.small_states);
    out.count("operations_releasing_blocks", st.releases);
    out.count("trees_gone_with_zero_blocks", st.drops);
    out.count("allocations_seen", ALLOCS.get());
    out.max("heap_blocks", st.max_blocks);
    out.max("entries", st.max_entries);
    out.max("compositions_driven_by_one_process", per.iter().filter(|n| **n > 0).count() as u64);
    out.distinct = distinct.into_iter().collect();
    out.write(&a.str("out", ""));
}
