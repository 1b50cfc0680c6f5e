//! C15: a panic is injected at every call of user code (comparison, hashing, cloning, splitting,
//! joining, indexing, removal callbacks) inside an operation; what survives is examined.
use std::cell::Cell;
use std::collections::{BTreeMap, HashSet, VecDeque};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::Ordering::Relaxed;
use veb_tree::bitset::{ByteCollectionMarker, TreeList, VecDequeMarker};
use veb_tree::collection::array::{ArrayTreeCollectionMarker, GenericArrayMarker};
use veb_tree::collection::hash::HashMapMarker;
use veb_tree::collection::{TreeCollection, VebTreeCollectionMarker};
use veb_tree::markers::BoxMarker;
use veb_tree::VebTree;
use vebchecks::all;
use vebmon::configs::*;
use vebmon::direct::{apply, consistent, Tree, R};
use vebmon::dynt::KV;
use vebmon::engine::{last_panic, quiet_panics, Model, BEAT};
use vebmon::gen::{self, Mix, Op};
use vebmon::host::*;
use vebmon::keys::{self, *};
use vebmon::rng::{hash_str, mix2, Rng};
use vebmon::tok::{self, Tok, Val};

#[derive(Default)]
struct St {
    ops: u64,
    faults: u64,
    ins: u64,
    rems: u64,
    queries: u64,
    survived: u64,
    suffix_ops: u64,
    lost: u64,
    max_ticks: u64,
    callbacks: u64,
    unreached: u64,
}

fn ledger(what: &str) -> R {
    match tok::take_error().or_else(keys::kl_error) {
        Some(e) => Err(format!("{what}: {e}")),
        None => Ok(()),
    }
}

thread_local! { static WHERE: Cell<&'static str> = const { Cell::new("") }; }

/// Replays `prefix`, injects a panic at call `n` of `op`, examines, goes on with `suffix`.
/// Returns false if the operation made fewer calls.
fn inject(c: &Config, prefix: &[Op], op: &Op, n: u64, suffix: &[Op], probes: &[u128], st: &mut St) -> R<bool> {
    tok::reset();
    keys::kl_reset();
    keys::arm(u64::MAX);
    let mut s = Tree { t: None, m: Model::new() };
    for o in prefix {
        apply(&mut s, o, c)?;
    }
    let before = s.m.clone();
    if s.t.is_none() {
        return Ok(false);
    }
    WHERE.set("op");
    keys::arm(n);
    let r = catch_unwind(AssertUnwindSafe(|| apply(&mut s, op, c)));
    keys::arm(u64::MAX);
    WHERE.set("after");
    match r {
        Ok(r) => {
            r?;
            st.unreached += 1;
            return Ok(false);
        }
        Err(_) => {
            let p = last_panic();
            if !p.starts_with(keys::INJECTED) {
                return Err(format!("panic of its own during {}: {p}", op.text()));
            }
        }
    }
    st.faults += 1;
    BEAT.fetch_add(1, Relaxed);
    ledger("after the caught panic")?;
    let left = s.t.as_ref().is_some_and(|t| t.present());
    match op {
        Op::Rem(..) | Op::RMin | Op::RMax | Op::IntoMonad => {
            // the tree was handed over; the panic has destroyed it, with all it held
            st.rems += 1;
            if left {
                return Err("harness: tree still there".into());
            }
            if tok::live() != 0 {
                return Err(format!("{} of {} values are never dropped after an interrupted {}", tok::live(), before.len(), op.text()));
            }
            if keys::kl_live() != 0 {
                return Err(format!("{} key objects are never dropped after an interrupted {}", keys::kl_live(), op.text()));
            }
            return Ok(true);
        }
        _ => {}
    }
    if !left {
        return Err("harness: tree vanished".into());
    }
    st.survived += 1;
    let t = &mut **s.t.as_mut().unwrap();
    let e = consistent(t, c.bits, probes, !(c.sized && matches!(op, Op::Ins(..)))).map_err(|e| format!("after an interrupted {}: {e}", op.text()))?;
    match op {
        Op::Ins(k, v) => {
            st.ins += 1;
            let k = k & mask(c.bits);
            for (ek, ev) in &e {
                let old = before.get(ek) == Some(ev);
                if !old && !(*ek == k && *ev == *v) {
                    return Err(format!("after an interrupted insert({k:#x}) the tree contains ({ek:#x}, {ev}), which was not stored"));
                }
            }
            st.lost += (before.len() as u64).saturating_sub(e.len() as u64);
        }
        _ => {
            st.queries += 1;
            let b: Vec<KV> = before.iter().map(|(k, v)| (*k, *v)).collect();
            if e != b {
                return Err(format!("an interrupted {} changed the tree: {e:x?}, before {b:x?}", op.text()));
            }
        }
    }
    if c.tok && tok::live() != e.len() {
        return Err(format!("{} values alive, {} entries after an interrupted {}", tok::live(), e.len(), op.text()));
    }
    ledger("while examining the tree after the caught panic")?;
    // the tree stays usable
    s.m = e.into_iter().collect();
    let suffix = if c.sized && matches!(op, Op::Ins(..)) {
        return dropped(s, c).map(|_| true);
    } else {
        suffix
    };
    for o in suffix {
        apply(&mut s, o, c).map_err(|e| format!("continuing with {} after an interrupted {}: {e}", o.text(), op.text()))?;
        st.suffix_ops += 1;
    }
    if let Some(t) = &mut s.t {
        let e = consistent(&mut **t, c.bits, &[], true).map_err(|e| format!("some operations after an interrupted {}: {e}", op.text()))?;
        let m: Vec<KV> = s.m.iter().map(|(k, v)| (*k, *v)).collect();
        if e != m {
            return Err(format!("some operations after an interrupted {}: tree holds {e:x?}, expected {m:x?}", op.text()));
        }
    }
    dropped(s, c)?;
    Ok(true)
}

fn dropped(s: Tree, c: &Config) -> R {
    drop(s);
    ledger("at the end")?;
    if c.tok && tok::live() != 0 || keys::kl_live() != 0 {
        return Err(format!("{} values and {} keys left after dropping the tree", tok::live(), keys::kl_live()));
    }
    Ok(())
}

/// as `inject`, with panics of the crate itself turned into failures
fn guarded(c: &Config, prefix: &[Op], op: &Op, n: u64, suffix: &[Op], probes: &[u128], st: &mut St) -> R<bool> {
    let r = match catch_unwind(AssertUnwindSafe(|| inject(c, prefix, op, n, suffix, probes, st))) {
        Ok(r) => r,
        Err(_) => {
            keys::arm(u64::MAX);
            Err(format!("panic {} an interrupted {}: {}", if WHERE.get() == "after" { "while using the tree after" } else { "before" }, op.text(), last_panic()))
        }
    };
    memory_only(r, true)
}

thread_local! { static UB: Cell<bool> = const { Cell::new(false) }; }

/// With --ub 1 only what shows misused memory counts.
fn memory_only<T>(r: R<T>, or: T) -> R<T> {
    match r {
        Err(e) if UB.get() && !tok::misuse(&e) => match tok::take_error().or_else(keys::kl_error) {
            Some(e) => Err(e),
            None => Ok(or),
        },
        r => r,
    }
}

fn ticks_of(c: &Config, prefix: &[Op], op: &Op) -> Option<u64> {
    tok::reset();
    keys::kl_reset();
    keys::arm(u64::MAX);
    let mut s = Tree { t: None, m: Model::new() };
    for o in prefix {
        apply(&mut s, o, c).ok()?;
    }
    s.t.as_ref()?;
    keys::arm(u64::MAX);
    apply(&mut s, op, c).ok()?;
    Some(keys::ticks())
}

fn tree_case(c: &Config, rng: &mut Rng, cap: usize, st: &mut St, note: &mut dyn FnMut(u64)) -> Result<Option<String>, (String, String)> {
    let mix = Mix { probe: 12, muts: 10, iter: 6, monad: 3, clone: if c.clone { 4 } else { 0 }, ..Mix::default() };
    let np = 2 + rng.below(14);
    let len = 3 + rng.below(26);
    let steer = *rng.pick(&[(0, 6), (1, 4), (3, 20), (2, 9)]);
    let ops = gen::history(rng, c, &mix, len, np, steer);
    let keys: Vec<u128> = ops.iter().filter_map(|o| o.key()).collect();
    let probes: Vec<u128> = keys.iter().take(10).copied().collect();
    let cut = 1 + rng.below(ops.len());
    let prefix = &ops[..cut];
    let suffix: Vec<Op> = ops[cut..].iter().take(12).cloned().collect();
    // the operation to interrupt: the next one, or a fresh one about a known key
    let k = if keys.is_empty() { 0 } else { *rng.pick(&keys) };
    let near = k ^ if c.bits == 0 { 0 } else { 1 << rng.below(c.bits as usize) };
    let v = rng.next() >> 20;
    let op = match rng.below(16) {
        0..=2 => Op::Ins(near, v),
        3 => Op::Ins(k, v),
        4 | 5 => Op::Rem(k, 1),
        6 => Op::Rem(near, 0),
        7 => Op::RMin,
        8 => Op::RMax,
        9 => Op::Probe(near, 1),
        10 => Op::Iter(2 + rng.below(6) as u16, rng.next(), 0),
        11 => rng.pick(&[Op::FindMut(k, 1, v), Op::PredMut(k, 1, v), Op::SuccMut(k, 1, v)]).clone(),
        12 if c.clone => Op::Snap,
        _ => ops.get(cut).cloned().unwrap_or(Op::Ins(near, v)),
    };
    if matches!(op, Op::Swap | Op::Clear | Op::Assign) {
        return Ok(None);
    }
    let r = catch_unwind(AssertUnwindSafe(|| ticks_of(c, prefix, &op)));
    let Ok(Some(n)) = r else { return Ok(None) };
    st.ops += 1;
    st.max_ticks = st.max_ticks.max(n);
    let all = n as usize <= cap;
    for i in 0..(n as usize).min(cap) {
        let at = if all { i as u64 } else { rng.next() % n };
        note(mix2(mix2(hash_str(&gen::script(prefix)), hash_str(&op.text())), mix2(at, hash_str(c.name))));
        if let Err(m) = guarded(c, prefix, &op, at, &suffix, &probes, st) {
            if m.starts_with("harness:") {
                continue;
            }
            // shorten the prefix
            let mut p = prefix.to_vec();
            let mut sink = St::default();
            let fails = |p: &[Op], sink: &mut St| -> Option<(u64, String)> {
                let n = catch_unwind(AssertUnwindSafe(|| ticks_of(c, p, &op))).ok()??;
                (0..n.min(200)).find_map(|i| guarded(c, p, &op, i, &suffix, &probes, sink).err().filter(|e| !e.starts_with("harness:")).map(|e| (i, e)))
            };
            let mut best = (at, m);
            let mut i = 0;
            while i < p.len() {
                let mut q = p.clone();
                q.remove(i);
                if let Some(f) = fails(&q, &mut sink) {
                    best = f;
                    p = q;
                } else {
                    i += 1;
                }
            }
            let rep = format!("#veb-replay fault\n#cfg {}\n#at {}\n#op {}\n#suffix {}\n#msg {}\n{}", c.name, best.0, op.text(), gen::script(&suffix).replace('\n', "; "), best.1, gen::script(&p));
            return Err((format!("[{}] {} interrupted at user call {}: {}", c.name, op.text(), best.0, best.1), rep));
        }
    }
    Ok(Some(format!("{}: {} ops, then {} interrupted at each of its {} user calls", c.name, prefix.len(), op.text(), n)))
}

// ---- removal callbacks that panic, on collections and lists directly ----------------------
fn cb_panic() -> ! {
    panic!("{}", keys::INJECTED)
}

fn coll_case<C>(name: &str, rng: &mut Rng, st: &mut St) -> R
where
    C: TreeCollection,
    C::Hi: Kc,
    C::Tree: VebTree<Value = Tok>,
    <C::Tree as VebTree>::Key: Kc,
{
    let hb = <C::Hi as Kc>::BITS;
    let lb = <<C::Tree as VebTree>::Key as Kc>::BITS;
    let n = 1 + rng.below(5);
    let his = gen::pool(rng, hb, n, 5);
    let seed = rng.next();
    for form in 0..2 {
        for when in 0..4 {
            tok::reset();
            keys::kl_reset();
            keys::arm(u64::MAX);
            let r = &mut Rng::new(seed);
            let mut c: Option<C> = None;
            let mut total = 0usize;
            let mut first = BTreeMap::new();
            for h in &his {
                for _ in 0..1 + r.below(3) {
                    let l = r.u128() & mask(lb);
                    let v = r.next() >> 8;
                    total += 1;
                    first.entry(*h).or_insert(l);
                    match &mut c {
                        None => c = Some(C::create(&C::Hi::enc(*h), C::Tree::from_monad(Kc::enc(l), Tok::mk(v)))),
                        Some(c) => match c.insert_key(C::Hi::enc(*h), (Kc::enc(l), Tok::mk(v))) {
                            Err((_, Some(_))) => total -= 1,
                            _ => {}
                        },
                    }
                }
            }
            if tok::live() != total {
                return Err(format!("[{name}] {} values alive, {total} stored", tok::live()));
            }
            let c = c.unwrap();
            let h = *r.pick(&his);
            let l = first[&h];
            let key = C::Hi::enc(h);
            let res = catch_unwind(AssertUnwindSafe(|| {
                if form == 0 {
                    let _ = c.remove_key(&key, |t| {
                        if when == 0 {
                            cb_panic()
                        }
                        let (t, kv) = t.remove_min();
                        if when == 1 {
                            drop(kv);
                            cb_panic()
                        }
                        if when == 2 {
                            drop(t);
                            cb_panic()
                        }
                        let x = (t, kv);
                        std::hint::black_box(&x);
                        cb_panic()
                    });
                } else {
                    let _ = c.maybe_remove_key(&key, |t| {
                        if when == 0 {
                            cb_panic()
                        }
                        let x = t.remove(<<C::Tree as VebTree>::Key as Kc>::enc(l));
                        if when == 1 {
                            drop(x);
                        }
                        cb_panic()
                    });
                }
            }));
            drop(key);
            if res.is_ok() {
                return Err(format!("[{name}] a panicking removal callback did not panic out (form {form})"));
            }
            let p = last_panic();
            if !p.starts_with(keys::INJECTED) {
                return Err(format!("[{name}] panic of its own: {p}"));
            }
            st.callbacks += 1;
            st.faults += 1;
            ledger(&format!("[{name}] after a panicking removal callback (form {form}, when {when})"))?;
            if tok::live() != 0 || keys::kl_live() != 0 {
                return Err(format!("[{name}] {} values, {} keys never dropped after a panicking removal callback (form {form}, when {when})", tok::live(), keys::kl_live()));
            }
        }
    }
    Ok(())
}

fn list_case(rng: &mut Rng, st: &mut St) -> R {
    type T = BTreeMap<u8, Tok>;
    let n = 1 + rng.below(6);
    for form in 0..2 {
        for i in 0..n {
            for when in 0..2 {
                tok::reset();
                let mut l: VecDeque<T> = <VecDeque<T> as TreeList>::from_monad(T::from_monad(1, Tok::mk(1)));
                for j in 1..n {
                    TreeList::insert_tree(&mut l, j / 2, T::from_monad(j as u8, Tok::mk(j as u64)));
                }
                let res = catch_unwind(AssertUnwindSafe(|| {
                    if form == 0 {
                        let _ = TreeList::remove_key(l, i, |t| {
                            if when == 0 {
                                drop(t);
                            }
                            cb_panic()
                        });
                    } else {
                        let _ = TreeList::maybe_remove_key(l, i, |t| {
                            if when == 0 {
                                drop(t);
                            }
                            cb_panic()
                        });
                    }
                }));
                st.callbacks += 1;
                st.faults += 1;
                if res.is_ok() {
                    return Err("a panicking list callback did not panic out".into());
                }
                ledger("after a panicking list callback")?;
                if tok::live() != 0 {
                    return Err(format!("{} values never dropped after a panicking list removal callback (element {i} of {n}, form {form})", tok::live()));
                }
            }
        }
    }
    Ok(())
}

type Coll<K, M> = <M as VebTreeCollectionMarker<K, Tok>>::TreeCollection;

fn main() {
    let a = Args::parse();
    quiet_panics();
    if !cfg!(miri) {
        watchdog(20.0);
    }
    let cfgs: Vec<Config> = all().into_iter().filter(|c| c.uk).collect();
    let (seed, shard, shards) = (a.num("seed", 1), a.num("shard", 0), a.num("shards", 1));
    let j = Journal::new(&a.str("journal", ""));
    let mut out = Output::default();
    let mut st = St::default();
    let mut distinct: HashSet<u64> = HashSet::new();
    let cap = a.num("cap", 60) as usize;
    let max = a.num("cases", u64::MAX);
    let secs = a.num("secs", 10) as f64;
    let only = a.str("small", "0") == "1";
    UB.set(a.num("ub", 0) == 1);
    let t0 = out.cpu();
    let mut idx = shard;
    let mut per = vec![0u64; cfgs.len()];
    while idx < max && out.cpu() - t0 < secs && out.violations.len() < 3 {
        let rng = &mut Rng::new(mix2(mix2(seed, 15), idx));
        let i = (idx as usize / shards as usize) % cfgs.len();
        let c = &cfgs[i];
        if !(only && !c.small) {
            j.set(format!("#veb-replay fault-case\n#seed {seed}\n#idx {idx}\n#cfg {}", c.name));
            match tree_case(c, rng, cap, &mut st, &mut |h| {
                if distinct.len() < 400_000 {
                    distinct.insert(h);
                }
            }) {
                Ok(Some(s)) => {
                    per[i] += 1;
                    if out.samples.len() < 3 {
                        out.samples.push(s)
                    }
                }
                Ok(None) => {}
                Err((what, replay)) => out.violations.push(Violation { what, replay }),
            }
        }
        if idx / shards % 64 == 0 {
            j.set(format!("#veb-replay callback-case\n#seed {seed}\n#idx {idx}"));
            let r = catch_unwind(AssertUnwindSafe(|| -> R {
                coll_case::<Coll<u16, HashMapMarker<Bt, Fx>>>("HashMap<u8, BTreeMap>", rng, &mut st)?;
                coll_case::<Coll<u16, HashMapMarker<Bm, Bad>>>("HashMap<u8, ByteMap> colliding", rng, &mut st)?;
                coll_case::<Coll<u16, ArrayTreeCollectionMarker<BoxMarker<Bm>>>>("boxed array", rng, &mut st)?;
                coll_case::<Coll<u8, ArrayTreeCollectionMarker<GenericArrayMarker<Bt>>>>("inline array", rng, &mut st)?;
                coll_case::<Coll<u16, ByteCollectionMarker<VecDequeMarker, Bt>>>("packed byte collection", rng, &mut st)?;
                coll_case::<Coll<u16, BoxC<HashMapMarker<Bm, Fx>>>>("boxed HashMap", rng, &mut st)?;
                coll_case::<Coll<UK8, HashMapMarker<Bt, Fx>>>("HashMap<UK4, BTreeMap>", rng, &mut st)?;
                coll_case::<Coll<UK8, ArrayTreeCollectionMarker<BoxMarker<Bt>>>>("array over UK4", rng, &mut st)?;
                list_case(rng, &mut st)
            }));
            let e = match r {
                Ok(r) => r,
                Err(_) => Err(format!("panic: {}", last_panic())),
            };
            let e = memory_only(e, ()).err();
            if let Some(e) = e {
                out.violations.push(Violation { what: e.clone(), replay: format!("#veb-replay callback-case\n#seed {seed}\n#idx {idx}\n# {e}\n") });
            }
        }
        idx += shards;
    }
    out.count("operations_interrupted", st.ops);
    out.count("faults_injected", st.faults);
    out.count("interrupted_insertions", st.ins);
    out.count("interrupted_removals", st.rems);
    out.count("interrupted_queries", st.queries);
    out.count("callback_panics", st.callbacks);
    out.count("trees_surviving", st.survived);
    out.count("operations_after_the_fault", st.suffix_ops);
    out.count("entries_lost_by_interrupted_insertions", st.lost);
    out.max("user_calls_in_one_operation", st.max_ticks);
    out.max("compositions", per.iter().filter(|n| **n > 0).count() as u64);
    out.distinct = distinct.into_iter().collect();
    out.write(&a.str("out", ""));
}
