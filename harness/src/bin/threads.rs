//! C19: queries are pure, and safe to issue from many threads at once. Every answer is compared
//! with the answer the same question got before (never with a model, so that what is judged here
//! is purity and independence, not correctness).
use std::collections::HashSet;
use std::marker::PhantomData;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::Barrier;
use veb_tree::markers::VebTreeType;
use vebchecks::all;
use vebmon::configs::*;
use vebmon::dynt::{DynTree, KV, Rem};
use vebmon::engine::{last_panic, quiet_panics, BEAT};
use vebmon::gen::{self, Mix, Op};
use vebmon::host::*;
use vebmon::keys::{self, *};
use vebmon::rng::{hash_str, mix2, Rng};

/// The type is known to be shareable or not from `Config::send_sync`; sharing it regardless lets
/// the race detector (rather than the compiler) have its say about hidden mutation.
struct AssertSync<T>(T);
unsafe impl<T> Sync for AssertSync<T> {}
unsafe impl<T> Send for AssertSync<T> {}

#[derive(Clone, Debug)]
enum Q {
    Find(u128, u8),
    Pred(u128, u8),
    Succ(u128, u8),
    Min,
    Max,
    Monad,
    Hint,
    Len,
    Fwd(usize),
    Bwd(usize),
    Mixed(usize, u64),
    Nth(usize, usize),
    Count,
    Last,
    Handles(u128),
    Clone,
}
#[derive(Clone, Debug, PartialEq, Eq)]
enum A {
    Kv(Option<KV>),
    Bool(bool),
    Hint(usize, Option<usize>),
    Len(Option<usize>),
    Seq(Vec<(Option<KV>, usize, Option<usize>)>),
    All(Vec<KV>),
    Text(String),
    Panic(String),
}

const CAP: usize = 5000;

fn ask(t: &dyn DynTree, q: &Q) -> A {
    BEAT.fetch_add(1, Relaxed);
    catch_unwind(AssertUnwindSafe(|| match q {
        Q::Find(k, h) => A::Kv(t.find(*k, *h)),
        Q::Pred(k, h) => A::Kv(t.pred(*k, *h)),
        Q::Succ(k, h) => A::Kv(t.succ(*k, *h)),
        Q::Min => A::Kv(Some(t.min())),
        Q::Max => A::Kv(Some(t.max())),
        Q::Monad => A::Bool(t.is_monad()),
        Q::Hint => {
            let h = t.len_hint();
            A::Hint(h.0, h.1)
        }
        Q::Len => A::Len(t.exact_len()),
        Q::Fwd(n) => A::All(t.iter().drain_front(*n)),
        Q::Bwd(n) => A::All(t.iter().drain_back(*n)),
        Q::Mixed(n, side) => {
            let mut it = t.iter();
            let mut v = Vec::new();
            for i in 0..*n {
                let x = if side >> (i % 64) & 1 == 1 { it.next_back() } else { it.next() };
                let h = it.size_hint();
                v.push((x, h.0, h.1));
            }
            A::Seq(v)
        }
        Q::Nth(a, b) => {
            let mut it = t.iter();
            let x = it.nth(*a);
            let y = it.nth_back(*b);
            let h = it.size_hint();
            A::Seq(vec![(x, 0, None), (y, h.0, h.1)])
        }
        Q::Count => A::Len(Some(t.iter().count())),
        Q::Last => A::Kv(t.iter().last()),
        Q::Handles(k) => match t.handles(*k) {
            Ok(n) => A::Len(Some(n as usize)),
            Err(e) => A::Text(e),
        },
        Q::Clone => match t.try_clone() {
            Some(c) => A::All(c.iter().drain_front(CAP)),
            None => A::Len(None),
        },
    }))
    .unwrap_or_else(|_| A::Panic(last_panic()))
}

/// One mutating step; the outcome is returned, not judged.
fn step(t: &mut Box<dyn DynTree>, op: &Op, bits: u32) -> A {
    BEAT.fetch_add(1, Relaxed);
    let m = mask(bits);
    if !t.present() {
        if let Op::Ins(k, v) = op {
            t.restart(k & m, *v);
        }
        return A::Len(None);
    }
    let rem = |r: Rem| match r {
        Rem::Absent => A::Kv(None),
        Rem::Gone(kv) => A::Seq(vec![(Some(kv), 0, None)]),
        Rem::Left(kv) => A::Seq(vec![(Some(kv), 1, None)]),
    };
    catch_unwind(AssertUnwindSafe(|| match op {
        Op::Ins(k, v) => A::Kv(t.insert(k & m, *v)),
        Op::Rem(k, h) => rem(t.remove(k & m, *h)),
        Op::RMin => rem(t.remove_min()),
        Op::RMax => rem(t.remove_max()),
        Op::IntoMonad => A::Kv(t.into_monad().ok()),
        Op::FindMut(k, h, v) => A::Kv(t.find_mut(k & m, *h, Some(*v))),
        Op::PredMut(k, h, v) => A::Kv(t.pred_mut(k & m, *h, Some(*v))),
        Op::SuccMut(k, h, v) => A::Kv(t.succ_mut(k & m, *h, Some(*v))),
        Op::MinMut(v) => A::Kv(Some(t.min_mut(Some(*v)))),
        Op::MaxMut(v) => A::Kv(Some(t.max_mut(Some(*v)))),
        _ => A::Len(None),
    }))
    .unwrap_or_else(|_| A::Panic(last_panic()))
}

fn questions(rng: &mut Rng, bits: u32, set: &std::collections::BTreeSet<u128>, pool: &[u128], n: usize, clone: bool) -> Vec<Q> {
    let m = mask(bits);
    let mut v = vec![Q::Min, Q::Max, Q::Monad, Q::Hint, Q::Len, Q::Fwd(CAP), Q::Bwd(CAP), Q::Count, Q::Last];
    if clone {
        v.push(Q::Clone);
    }
    for _ in 0..n {
        let k = gen::query(rng, bits, set, pool) & m;
        let h = rng.below(4) as u8;
        v.push(match rng.below(12) {
            0..=2 => Q::Find(k, h),
            3..=5 => Q::Pred(k, h),
            6..=8 => Q::Succ(k, h),
            9 => Q::Mixed(1 + rng.below(12), rng.next()),
            10 => Q::Nth(rng.below(6), rng.below(6)),
            _ => {
                if rng.chance(1, 3) {
                    Q::Handles(k)
                } else {
                    Q::Min
                }
            }
        });
    }
    v
}

static CLOCK: AtomicU64 = AtomicU64::new(0);
static INSIDE: AtomicU64 = AtomicU64::new(0);

#[derive(Default)]
struct St {
    queries: u64,
    repeats: u64,
    concurrent: u64,
    twins: u64,
    moved: u64,
    inside: u64,
    threads: u64,
    tries: u64,
}

struct Case<'a> {
    c: &'a Config,
    a: Vec<Op>,
    b: Vec<Op>,
    suffix: Vec<Op>,
    pool: Vec<u128>,
    seed: u64,
    nq: usize,
    threads: usize,
    per: usize,
}

fn mk(c: &Config, ops: &[Op], mut each: impl FnMut(&dyn DynTree)) -> Box<dyn DynTree> {
    let mut t = (c.mk)(0, 0);
    t.clear();
    for o in ops {
        step(&mut t, o, c.bits);
        if t.present() {
            each(&*t);
        }
    }
    if !t.present() {
        t.restart(mask(c.bits) / 3, 7);
    }
    t
}

fn differ(what: &str, q: &impl std::fmt::Debug, x: &A, y: &A) -> Result<(), String> {
    if x == y {
        return Ok(());
    }
    let s = |a: &A| {
        let mut t = format!("{a:x?}");
        t.truncate(300);
        t
    };
    Err(format!("{what}: {q:x?} answered {} first and {} then", s(x), s(y)))
}

fn run(k: &Case, st: &mut St, orders: &mut HashSet<u64>, distinct: &mut HashSet<u64>) -> Result<(), String> {
    let c = k.c;
    let mut rng = Rng::new(k.seed);
    // --- twins: one is queried all along, the other never before the end
    let quiet = mk(c, &k.a, |_| {});
    let other = mk(c, &k.b, |_| {});
    let set: std::collections::BTreeSet<u128> = quiet.iter().drain_front(CAP).iter().map(|e| e.0).collect();
    let qs = questions(&mut rng, c.bits, &set, &k.pool, k.nq, c.clone);
    let qc = hash_str(c.name);
    for q in &qs {
        distinct.insert(mix2(mix2(qc, hash_str(&format!("{q:?}"))), set.len() as u64 * 31 + k.a.len() as u64));
    }
    {
        let mut r2 = rng.clone();
        let mut n = 0;
        let mut noisy = mk(c, &k.a, |t| {
            for _ in 0..2 {
                ask(t, r2.pick(&qs));
                n += 1;
            }
            // iterators dropped half way
            let mut it = t.iter();
            it.next();
            it.next_back();
        });
        st.queries += n;
        let mut quiet2 = mk(c, &k.a, |_| {});
        for q in &qs {
            differ("a tree that was queried while it was built and one that was not", q, &ask(&*quiet2, q), &ask(&*noisy, q))?;
        }
        for o in &k.suffix {
            let (x, y) = (step(&mut quiet2, o, c.bits), step(&mut noisy, o, c.bits));
            differ("an operation on a queried and on an unqueried tree", o, &x, &y)?;
            if noisy.present() {
                ask(&*noisy, r2.pick(&qs));
            }
        }
        if quiet2.present() != noisy.present() {
            return Err("a queried and an unqueried tree end differently".into());
        }
        if quiet2.present() {
            for q in qs.iter().rev() {
                differ("a tree that was queried throughout and one that was not", q, &ask(&*quiet2, q), &ask(&*noisy, q))?;
            }
        }
        st.twins += 1;
    }
    // --- alone: baseline, then repeated and reordered, with queries of another tree in between
    let base: Vec<A> = qs.iter().map(|q| ask(&*quiet, q)).collect();
    let obase: Vec<A> = qs.iter().map(|q| ask(&*other, q)).collect();
    st.queries += 2 * qs.len() as u64;
    for _ in 0..2 {
        let mut ord: Vec<usize> = (0..qs.len()).collect();
        rng.shuffle(&mut ord);
        for i in ord {
            for _ in 0..1 + rng.below(2) {
                differ("the same query repeated", &qs[i], &base[i], &ask(&*quiet, &qs[i]))?;
                st.repeats += 1;
            }
            if rng.chance(1, 3) {
                let j = rng.below(qs.len());
                differ("the same query repeated on another tree", &qs[j], &obase[j], &ask(&*other, &qs[j]))?;
            }
        }
    }
    // --- at once
    let shared = AssertSync((quiet, other));
    let bar = Barrier::new(k.threads);
    let res: Vec<(Result<(), String>, Vec<(u64, u64)>, u64)> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..k.threads)
            .map(|w| {
                let (shared, bar, qs, base, obase) = (&shared, &bar, &qs, &base, &obase);
                let mut rng = Rng::new(mix2(k.seed, 5000 + w as u64));
                s.spawn(move || {
                    let shared = &shared.0;
                    keys::set_delay(w % 2 == 0);
                    let mut log = Vec::with_capacity(k.per);
                    let mut most = 0;
                    bar.wait();
                    let mut r = Ok(());
                    for _ in 0..k.per {
                        let i = rng.below(qs.len());
                        let o = rng.chance(1, 5);
                        let at = CLOCK.fetch_add(1, Relaxed);
                        most = most.max(INSIDE.fetch_add(1, Relaxed) + 1);
                        let a = ask(if o { &*shared.1 } else { &*shared.0 }, &qs[i]);
                        INSIDE.fetch_sub(1, Relaxed);
                        log.push((at, w as u64));
                        let e = if o { &obase[i] } else { &base[i] };
                        r = differ("a query issued while other threads query the tree", &qs[i], e, &a);
                        if r.is_err() {
                            break;
                        }
                        match rng.below(12) {
                            0 => std::thread::yield_now(),
                            1 => (0..rng.below(400)).for_each(|_| std::hint::spin_loop()),
                            _ => {}
                        }
                    }
                    (r, log, most)
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().expect("worker")).collect()
    });
    let mut order: Vec<(u64, u64)> = Vec::new();
    for (r, log, most) in res {
        r?;
        st.concurrent += log.len() as u64;
        st.inside = st.inside.max(most);
        order.extend(log);
    }
    order.sort();
    orders.insert(order.iter().fold(qc, |h, (_, w)| mix2(h, *w)));
    st.threads += k.threads as u64;
    let AssertSync((quiet, _other)) = shared;
    for (q, a) in qs.iter().zip(&base) {
        differ("after concurrent queries", q, a, &ask(&*quiet, q))?;
    }
    // --- sent to another thread, changed there, and sent back
    let mut twin = mk(c, &k.a, |_| {});
    let travel = AssertSync(quiet);
    let (travel, there) = std::thread::scope(|s| {
        s.spawn(move || {
            let w = travel;
            let AssertSync(mut t) = w;
            let v: Vec<A> = k.suffix.iter().map(|o| step(&mut t, o, c.bits)).collect();
            (AssertSync(t), v)
        })
        .join()
        .expect("traveller")
    });
    let t = travel.0;
    for (o, a) in k.suffix.iter().zip(&there) {
        differ("an operation here and on another thread", o, &step(&mut twin, o, c.bits), a)?;
    }
    if t.present() && twin.present() {
        for q in &qs {
            differ("a tree changed here and one changed on another thread", q, &ask(&*twin, q), &ask(&*t, q))?;
        }
    }
    // dropped on a third thread
    let gone = AssertSync((t, twin));
    std::thread::scope(|s| {
        s.spawn(move || {
            let g = gone;
            drop(g)
        });
    });
    st.moved += 1;
    Ok(())
}

/// What is shareable and sendable, for values that are neither, one or both: (what, Send as
/// expected, Sync as expected).
fn bounds() -> Vec<(String, bool, bool)> {
    use veb_tree::bitset::{ByteCollectionMarker, ByteMap, VecDequeMarker};
    use veb_tree::collection::array::{ArrayTreeCollectionMarker, GenericArrayMarker};
    use veb_tree::collection::hash::HashMapMarker;
    use veb_tree::collection::VebTreeCollectionMarker;
    use veb_tree::key::MaybeBorrowed;
    use veb_tree::markers::{BoxMarker, Marker32};
    use veb_tree::Iter;
    type Guard = std::sync::MutexGuard<'static, u64>;
    type Cell = std::cell::Cell<u64>;
    type Ck = std::cell::Cell<u8>;
    type Col<M, K, V> = <M as VebTreeCollectionMarker<K, V>>::TreeCollection;
    let mut v = Vec::new();
    macro_rules! tie { ($n:expr, $t:ty, $send:expr, $sync:expr) => {{
        let p = Probe::<$t>(PhantomData);
        v.push(($n, p.is_send() == $send, p.is_sync() == $sync));
    }} }
    // owners of values: sendable and shareable exactly when the values are
    macro_rules! own { ($($n:literal : $v:ident => $t:ty);* $(;)?) => {$({
        type A<$v> = $t;
        tie!(concat!($n, " of values that are neither Send nor Sync").to_string(), A<Rc<u64>>, false, false);
        tie!(concat!($n, " of values that are Send only").to_string(), A<Cell>, true, false);
        tie!(concat!($n, " of values that are Sync only").to_string(), A<Guard>, false, true);
        tie!(concat!($n, " of values that are Send and Sync").to_string(), A<u64>, true, true);
    })*} }
    // lenders of values: both exactly when the values are Sync
    macro_rules! lend { ($($n:literal : $v:ident => $t:ty);* $(;)?) => {$({
        type A<$v> = $t;
        tie!(concat!($n, " of values that are neither Send nor Sync").to_string(), A<Rc<u64>>, false, false);
        tie!(concat!($n, " of values that are Send only").to_string(), A<Cell>, false, false);
        tie!(concat!($n, " of values that are Sync only").to_string(), A<Guard>, true, true);
        tie!(concat!($n, " of values that are Send and Sync").to_string(), A<u64>, true, true);
    })*} }
    own! {
        "u8 byte map": V => VebTreeType<u8, V, Bm>;
        "u8 ordered map": V => VebTreeType<u8, V, Bt>;
        "u8 inline tree": V => VebTreeType<u8, V, Gen<Bt, Bt>>;
        "boxed byte map": V => VebTreeType<u8, V, BoxMarker<Bm>>;
        "u16 hash tree": V => VebTreeType<u16, V, H16>;
        "u16 tree with the default hasher": V => VebTreeType<u16, V, HashStd<Bs, Bm>>;
        "u16 array tree": V => VebTreeType<u16, V, Arr<Bs, Bm>>;
        "u16 array tree of ordered maps": V => VebTreeType<u16, V, Arr<Bs, Bt>>;
        "u16 inline array tree": V => VebTreeType<u16, V, Gen<Bs, Bm>>;
        "u16 packed tree": V => VebTreeType<u16, V, B16>;
        "u16 tree with a boxed collection": V => VebTreeType<u16, V, BoxArr<Bs, Bm>>;
        "u16 size-tracking tree": V => VebTreeType<u16, V, SizedM<H16>>;
        "u32 hash tree": V => VebTreeType<u32, V, H32>;
        "u32 ready-made tree": V => VebTreeType<u32, V, Marker32>;
        "[u8;5] tree": V => VebTreeType<[u8; 5], V, Hash<H16E, Hash<Bs, H16>>>;
        "boxed array of ordered maps": V => Col<ArrayTreeCollectionMarker<BoxMarker<Bt>>, u16, V>;
        "boxed array of byte maps": V => Col<ArrayTreeCollectionMarker<BoxMarker<Bm>>, u16, V>;
        "inline array of ordered maps": V => Col<ArrayTreeCollectionMarker<GenericArrayMarker<Bt>>, u8, V>;
        "hash of byte maps": V => Col<HashMapMarker<Bm, Fx>, u16, V>;
        "bytes of byte maps": V => Col<ByteCollectionMarker<VecDequeMarker, Bm>, u16, V>;
        "byte map": V => ByteMap<std::collections::VecDeque<V>>;
    }
    lend! {
        "iterator over a byte map": V => Iter<'static, VebTreeType<u8, V, Bm>>;
        "iterator over an ordered map": V => Iter<'static, VebTreeType<u8, V, Bt>>;
        "iterator over a hash tree": V => Iter<'static, VebTreeType<u16, V, H16>>;
        "iterator over a ready-made tree": V => Iter<'static, VebTreeType<u32, V, Marker32>>;
        "iterator over an array tree": V => Iter<'static, VebTreeType<u16, V, Arr<Bs, Bm>>>;
        "iterator over a packed tree": V => Iter<'static, VebTreeType<u16, V, B16>>;
        "iterator over a size-tracking tree": V => Iter<'static, VebTreeType<u16, V, SizedM<H16>>>;
    }
    // keys matter as well
    tie!("hash tree of keys that are neither".into(), VebTreeType<[Rc<u8>; 2], u64, Hash<Bt, Bt>>, false, false);
    tie!("packed ordered map of keys that are Send only".into(), VebTreeType<Ck, u64, Bt>, true, false);
    tie!("boxed ordered map of keys that are neither".into(), VebTreeType<Rc<u8>, u64, BoxMarker<Bt>>, false, false);
    tie!("iterator over keys that are neither".into(), Iter<'static, VebTreeType<[Rc<u8>; 2], u64, Hash<Bt, Bt>>>, false, false);
    tie!("handle of a key that is neither".into(), MaybeBorrowed<'static, Rc<u8>>, false, false);
    tie!("handle of a key that is Send only".into(), MaybeBorrowed<'static, Ck>, false, false);
    tie!("handle of a key that is both".into(), MaybeBorrowed<'static, u64>, true, true);
    v
}

fn main() {
    let a = Args::parse();
    quiet_panics();
    watchdog(60.0);
    let (seed, shard, shards) = (a.num("seed", 1), a.num("shard", 0), a.num("shards", 1));
    let secs = a.num("secs", 8) as f64;
    let small = a.num("small", 0) == 1;
    let max = a.num("cases", u64::MAX);
    let threads = a.num("threads", 6) as usize;
    let cfgs = all();
    let cs: Vec<&Config> = cfgs.iter().filter(|c| !small || c.small).collect();
    let j = Journal::new(&a.str("journal", ""));
    let mut out = Output::default();
    let mut st = St::default();
    let (mut orders, mut distinct) = (HashSet::new(), HashSet::new());
    if a.has("probe") || shard == 0 {
        for c in &cfgs {
            st.tries += 1;
            if c.send_sync != (true, true) {
                out.violations.push(Violation {
                    what: format!("{}: keys and values are Send + Sync but the tree is Send: {}, Sync: {}", c.name, c.send_sync.0, c.send_sync.1),
                    replay: format!("#veb-replay send-sync\n#cfg {}\n", c.name),
                });
            }
        }
        for (n, send, sync) in bounds() {
            st.tries += 1;
            if !send || !sync {
                out.violations.push(Violation {
                    what: format!("{n}: Send as the contents allow: {send}, Sync as the contents allow: {sync}"),
                    replay: format!("#veb-replay send-sync\n#cfg {n}\n"),
                });
            }
        }
        out.violations.truncate(4);
    }
    let t0 = out.elapsed();
    let mut idx = a.num("from", 0) + shard;
    let mut n = 0u64;
    while out.elapsed() - t0 < secs && n < max && out.violations.len() < 3 {
        let mut rng = Rng::new(mix2(mix2(seed, 19), idx));
        let c = cs[(idx as usize).wrapping_mul(if small { 1 } else { 7 }) % cs.len()];
        idx += shards;
        if c.heavy > 1 && !rng.chance(1, 20) {
            continue;
        }
        let mix = Mix { probe: 0, iter: 0, muts: 4, monad: 3, clear: 0, ..Mix::default() };
        let (len, np, steer) = if small {
            (8 + rng.below(10), 3 + rng.below(6), (1, 6))
        } else {
            match rng.below(8) {
                0 => (3, 2, (1, 2)),
                1 => (250, 120, (30, 90)),
                _ => (20 + rng.below(60), 3 + rng.below(24), (1, 16)),
            }
        };
        let h = |rng: &mut Rng, len| gen::history(rng, c, &mix, len, np, steer);
        let (oa, ob, suffix) = (h(&mut rng, len), h(&mut rng, len), h(&mut rng, if small { 5 } else { 30 }));
        let pool = gen::pool(&mut rng, c.bits, np, 0);
        let k = Case {
            c,
            a: oa,
            b: ob,
            suffix,
            pool,
            seed: rng.next(),
            nq: if small { 6 } else { 40 },
            threads,
            per: if small { 8 } else { 120 },
        };
        j.set(format!("#veb-replay threads\n#cfg {}\n#seed {seed}\n#idx {}\n{}", c.name, idx - shards, gen::script(&k.a)));
        keys::set_limit(u64::MAX);
        if let Err(e) = run(&k, &mut st, &mut orders, &mut distinct) {
            out.violations.push(Violation {
                what: format!("{}: {e}", c.name),
                replay: format!("#veb-replay threads\n#cfg {}\n#run threads --seed {seed} --from {} --shard 0 --shards 1 --cases 1\n#built by\n{}#then\n{}", c.name, idx - shards, gen::script(&k.a), gen::script(&k.suffix)),
            });
        }
        if out.samples.len() < 2 && k.a.len() < 30 {
            out.samples.push(format!("{}: built by {} ops, {} questions, {} threads x {}", c.name, k.a.len(), k.nq + 9, k.threads, k.per));
        }
        n += 1;
    }
    out.count("cases", n);
    out.count("queries_alone", st.queries);
    out.count("queries_repeated", st.repeats);
    out.count("queries_concurrent", st.concurrent);
    out.count("twin_pairs", st.twins);
    out.count("trees_sent_between_threads", st.moved);
    out.count("threads_started", st.threads);
    out.count("distinct_interleavings", orders.len() as u64);
    out.count("types_probed", st.tries);
    out.max("queries_in_flight", st.inside);
    out.distinct = distinct.into_iter().collect();
    out.write(&a.str("out", ""));
}
