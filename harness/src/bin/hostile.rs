//! C16: key types that break every promise (inconsistent order, equality and hashes, positions out
//! of range, halves that do not fit together), and calls outside of what the interfaces ask for.
//! Wrong answers and panics are allowed; undefined behaviour, double drops and reads of dropped
//! values are not. The judge is the sanitizer or interpreter this runs under, and the ledger.
#[allow(unused_imports)]
use std::borrow::Borrow;
use std::cell::Cell;
use std::cmp::Ordering;
use std::collections::{BTreeMap, HashSet, VecDeque};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::Ordering::Relaxed;
use typenum::{U16, U256};
use veb_tree::bitset::{ByteCollectionMarker, ByteSet, List, TreeList, VecDequeMarker};
use veb_tree::collection::array::{ArrayMarker, ArrayTreeCollectionMarker, GenericArrayMarker, OptionArray};
use veb_tree::collection::hash::HashMapMarker;
use veb_tree::collection::{TreeCollection, VebTreeCollectionMarker};
use veb_tree::key::{MaybeBorrowed, SizedVebKey, VebKey, VebKeyRef};
use veb_tree::markers::BoxMarker;
use veb_tree::tree::{TreeMarker, VebTreeMarker};
use veb_tree::{SizedVebTree, VebTree};
use vebmon::configs::*;
use vebmon::engine::{quiet_panics, BEAT};
use vebmon::host::*;
use vebmon::rng::{mix2, Rng};
use vebmon::tok::{self, Tok};

thread_local! {
    static STATE: Cell<u64> = const { Cell::new(1) };
    /// one call in this many lies; 0 = none
    static RATE: Cell<u64> = const { Cell::new(0) };
    static LIES: Cell<u64> = const { Cell::new(0) };
    static CALLS: Cell<u64> = const { Cell::new(0) };
}
fn roll() -> u64 {
    STATE.with(|s| {
        s.set(mix2(s.get(), 0x9e37));
        s.get() >> 8
    })
}
fn lie() -> bool {
    CALLS.with(|c| c.set(c.get() + 1));
    let r = RATE.with(|r| r.get());
    let l = r != 0 && roll() % r == 0;
    if l {
        LIES.with(|c| c.set(c.get() + 1));
    }
    l
}

macro_rules! evil { ($($n:ident $inner:ty, $half:ty, $bits:expr, $card:ty, |$u:ident| $split:expr, |$h:ident, $l:ident| $join:expr;)*) => {$(
    /// Owns heap memory, so that a stale copy is seen.
    #[derive(Debug)]
    struct $n(Box<$inner>);
    impl $n {
        fn of(u: u32) -> Self { $n(Box::new((u & ((1u64 << $bits) - 1) as u32) as $inner)) }
        fn val(&self) -> u32 { *self.0 as u32 }
    }
    impl Clone for $n { fn clone(&self) -> Self { if lie() { Self::of(roll() as u32) } else { Self::of(self.val()) } } }
    impl PartialEq for $n { fn eq(&self, o: &Self) -> bool { (self.0 == o.0) != lie() } }
    impl Eq for $n {}
    impl PartialOrd for $n { fn partial_cmp(&self, o: &Self) -> Option<Ordering> { Some(self.cmp(o)) } }
    impl Ord for $n {
        fn cmp(&self, o: &Self) -> Ordering {
            if lie() { [Ordering::Less, Ordering::Equal, Ordering::Greater][roll() as usize % 3] } else { self.0.cmp(&o.0) }
        }
    }
    impl Hash for $n { fn hash<H: Hasher>(&self, h: &mut H) { if lie() { h.write_u64(roll()) } else { h.write_u32(self.val()) } } }
    impl VebKey for $n {
        type Hi = $half;
        type Lo = $half;
        fn split_val(self) -> ($half, $half) {
            let $u = if lie() { roll() as u32 } else { self.val() };
            $split
        }
        fn join<'a>(hi: MaybeBorrowed<'a, $half>, lo: MaybeBorrowed<'a, $half>) -> Self {
            if lie() { return Self::of(roll() as u32) }
            let ($h, $l) = (&*hi, &*lo);
            Self::of($join)
        }
    }
    impl VebKeyRef<$half, $half> for $n {
        fn split_ref<F, R>(&self, f: F) -> R where F: FnOnce(&$half, &$half) -> R {
            let $u = if lie() { roll() as u32 } else { self.val() };
            let (h, l): ($half, $half) = $split;
            f(&h, &l)
        }
    }
    impl SizedVebKey for $n {
        const CARDINALITY: usize = <$card as typenum::Unsigned>::USIZE;
        type Cardinality = $card;
        fn index(&self) -> usize {
            if lie() {
                let c = Self::CARDINALITY;
                match roll() % 8 { 0 => c, 1 => c + 1, 2 => usize::MAX, 3 => usize::MAX / 2, 4 => c + roll() as usize % 4096, _ => roll() as usize % c }
            } else { self.val() as usize % Self::CARDINALITY }
        }
    }
)*}}
evil! {
    E4 u8, u8, 4, U16, |u| ((u >> 2) as u8 & 3, u as u8 & 3), |h, l| (*h as u32) << 2 | *l as u32;
    E8 u8, E4, 8, U256, |u| (E4::of(u >> 4), E4::of(u)), |h, l| h.val() << 4 | l.val();
    E16 u16, E8, 16, typenum::U65536, |u| (E8::of(u >> 8), E8::of(u)), |h, l| h.val() << 8 | l.val();
    F16 u16, u8, 16, typenum::U65536, |u| ((u >> 8) as u8, u as u8), |h, l| (*h as u32) << 8 | *l as u32;
}

struct St {
    ops: u64,
    panics: u64,
    trees: u64,
    steps: u64,
    direct: u64,
}

fn ledger(what: &str) -> Result<(), String> {
    match tok::take_error() {
        Some(e) => Err(format!("{what}: {e}")),
        None => Ok(()),
    }
}

/// How a fresh key is made, by type.
trait Mk: Sized {
    fn mk(u: u32) -> Self;
    fn code(&self) -> u32;
}
impl Mk for E8 {
    fn mk(u: u32) -> Self {
        E8::of(u)
    }
    fn code(&self) -> u32 {
        self.val()
    }
}
impl Mk for E16 {
    fn mk(u: u32) -> Self {
        E16::of(u)
    }
    fn code(&self) -> u32 {
        self.val()
    }
}
impl Mk for F16 {
    fn mk(u: u32) -> Self {
        F16::of(u)
    }
    fn code(&self) -> u32 {
        self.val()
    }
}

/// A history of calls with lying keys on one composition.
fn history<T>(name: &str, rng: &mut Rng, len: usize, st: &mut St, see: &mut dyn FnMut(u64)) -> Result<String, String>
where
    T: VebTree<Value = Tok>,
    T::Key: Mk + Clone,
{
    tok::reset();
    STATE.with(|s| s.set(rng.next()));
    // build honestly first or lie all along; keys from a small or a wide pool
    let late = rng.chance(1, 2);
    let rate = [2, 5, 20, 60, 200][rng.below(5)];
    let pool = [12, 60, 256, 65536][rng.below(4)] as u32;
    RATE.with(|r| r.set(if late { 0 } else { rate }));
    let mut log = format!("{name} rate 1/{rate} late {late} pool {pool}:");
    let key = |rng: &mut Rng| T::Key::mk((rng.next() as u32 % pool).wrapping_mul(0x9e5));
    let mut tree: Option<T> = Some(T::from_monad(key(rng), Tok::new(0)));
    st.trees += 1;
    for i in 0..len {
        if late && i == len / 2 {
            RATE.with(|r| r.set(rate));
        }
        BEAT.fetch_add(1, Relaxed);
        let op = rng.below(16);
        let k = {
            // keys made from here are what they seem; their copies may not be
            key(rng)
        };
        let code = k.code();
        let v = i as u64;
        st.ops += 1;
        see(vebmon::rng::hash_str(name) ^ mix2(code as u64, op as u64 ^ (i as u64) << 8 ^ rate << 40));
        if log.len() < 4000 {
            log.push_str(&format!(" {op}({code:#x})"));
        }
        let mut t = match tree.take() {
            Some(t) => t,
            None => T::from_monad(T::Key::mk(code), Tok::new(v)),
        };
        let steps = Cell::new(0u64);
        let r = catch_unwind(AssertUnwindSafe(|| {
            let touch = |v: &Tok| {
                v.get();
            };
            match op {
                0..=4 => {
                    let old = t.insert(k, Tok::new(v));
                    if let Some((k, v)) = old {
                        k.code();
                        touch(&v);
                    }
                    Some(t)
                }
                5 => {
                    if let Some((k, v)) = t.find(&k) {
                        k.code();
                        touch(v);
                    }
                    Some(t)
                }
                6 => {
                    if let Some((k, v)) = t.find_mut(&k) {
                        k.code();
                        v.set(v.get() + 1);
                    }
                    if let Some((k, v)) = t.predecessor_mut(&k) {
                        k.code();
                        v.set(v.get() + 1);
                    }
                    Some(t)
                }
                7 => {
                    if let Some((k, v)) = t.successor_mut(&k) {
                        k.code();
                        v.set(v.get() + 1);
                    }
                    if let Some((h, v)) = t.predecessor(&k) {
                        h.code();
                        touch(v);
                        // a handle as the key of the next query
                        if let Some((h, v)) = t.successor(h) {
                            h.code();
                            touch(v);
                        }
                    }
                    Some(t)
                }
                8 => {
                    let (k, v) = t.min_val();
                    k.code();
                    touch(v);
                    let (k, v) = t.max_val_mut();
                    k.code();
                    v.set(7);
                    Some(t)
                }
                9 | 10 => match t.remove(&k) {
                    Ok((t, (k, v))) => {
                        k.code();
                        touch(&v);
                        t
                    }
                    Err(t) => Some(t),
                },
                11 => {
                    let (t, (k, v)) = t.remove_min();
                    k.code();
                    touch(&v);
                    t
                }
                12 => {
                    let (t, (k, v)) = t.remove_max();
                    k.code();
                    touch(&v);
                    t
                }
                13 => match t.into_monad() {
                    Ok((k, v)) => {
                        k.code();
                        touch(&v);
                        None
                    }
                    Err(t) => Some(t),
                },
                14 => {
                    t.is_monad();
                    t.len_hint();
                    Some(t)
                }
                _ => {
                    let mut it = veb_tree::iter::Iter::from(&t);
                    for s in 0..60 {
                        let _ = it.size_hint();
                        let x = if (code >> (s % 16)) & 1 == 1 { it.next() } else { it.next_back() };
                        match x {
                            Some((k, v)) => {
                                k.code();
                                touch(v);
                                steps.set(steps.get() + 1);
                            }
                            None => break,
                        }
                    }
                    drop(it);
                    Some(t)
                }
            }
        }));
        st.steps += steps.get();
        match r {
            Ok(t) => tree = t,
            Err(_) => st.panics += 1,
        }
        ledger(&log)?;
    }
    RATE.with(|r| r.set(0));
    drop(catch_unwind(AssertUnwindSafe(|| drop(tree))));
    ledger(&log)?;
    Ok(log)
}

/// Collections driven with lying keys, removals of what is absent, and panicking callbacks.
fn collection<C>(name: &str, rng: &mut Rng, len: usize, st: &mut St) -> Result<(), String>
where
    C: TreeCollection,
    C::Hi: Mk,
    C::Tree: VebTree<Value = Tok>,
    <C::Tree as VebTree>::Key: Mk,
{
    tok::reset();
    let rate = [0, 2, 5, 30][rng.below(4)];
    RATE.with(|r| r.set(rate));
    let tree = |a: u32| <C::Tree as VebTree>::from_monad(Mk::mk(a), Tok::new(a as u64));
    let mut c: Option<C> = None;
    for i in 0..len {
        BEAT.fetch_add(1, Relaxed);
        st.direct += 1;
        let (h, l) = (C::Hi::mk(rng.next() as u32 % 40), rng.next() as u32 % 8);
        let op = rng.below(7);
        let again = rng.chance(1, 3);
        let was = c.take();
        let r = catch_unwind(AssertUnwindSafe(|| {
            let mut c = match was {
                Some(c) => c,
                None => C::create(&h, tree(l)),
            };
            match op {
                0 | 1 => {
                    let _ = c.insert_key(h, (Mk::mk(l), Tok::new(i as u64)));
                    Some(c)
                }
                2 => {
                    if let Some(t) = c.get(&h) {
                        t.min_val().1.get();
                    }
                    Some(c)
                }
                3 => {
                    if let Some(t) = c.get_mut(&h) {
                        // leave another tree behind
                        drop(std::mem::replace(t, tree(l)));
                    }
                    Some(c)
                }
                // possibly an absent subtree, or a callback that hands back another tree
                4 => c
                    .remove_key(&h, |t| {
                        if again {
                            let (r, e) = t.remove_max();
                            drop(r);
                            (Some(tree(9)), e)
                        } else {
                            t.remove_min()
                        }
                    })
                    .0
                    .map(|x| x.0),
                5 => match c.maybe_remove_key(&h, |t| if again { Err(t) } else { Ok(t.remove_max()) }) {
                    Ok((c, _)) => c.map(|x| x.0),
                    Err(c) => Some(c),
                },
                _ => match c.maybe_remove_key(&h, |t| if again { Err(tree(5)) } else { t.remove(&Mk::mk(l)) }) {
                    Ok((c, _)) => c.map(|x| x.0),
                    Err(c) => Some(c),
                },
            }
        }));
        match r {
            Ok(x) => c = x,
            Err(_) => st.panics += 1,
        }
        ledger(name)?;
    }
    RATE.with(|r| r.set(0));
    drop(c);
    ledger(name)?;
    Ok(())
}
impl Mk for u8 {
    fn mk(u: u32) -> u8 {
        u as u8
    }
    fn code(&self) -> u32 {
        *self as u32
    }
}
impl Mk for E4 {
    fn mk(u: u32) -> Self {
        E4::of(u)
    }
    fn code(&self) -> u32 {
        self.val()
    }
}

/// Ranks and positions out of range: a panic or an answer, never an access outside.
fn ranges(rng: &mut Rng, st: &mut St) -> Result<(), String> {
    tok::reset();
    type T = BTreeMap<u8, Tok>;
    let n = 1 + rng.below(9);
    let wild = |rng: &mut Rng, n: usize| match rng.below(6) {
        0 => n,
        1 => n + 1,
        2 => usize::MAX,
        3 => usize::MAX / 2 + 1,
        4 => n + rng.below(64),
        _ => rng.below(n),
    };
    let tree = |i: usize| <T as VebTree>::from_monad(i as u8, Tok::new(i as u64));
    for _ in 0..12 {
        st.direct += 8;
        let i = wild(rng, n);
        let mut l: VecDeque<T> = (0..n).map(tree).collect();
        l.rotate_left(rng.below(n));
        let mut m: VecDeque<Tok> = (0..n).map(|i| Tok::new(i as u64)).collect();
        for _ in 0..rng.below(n) {
            let x = m.pop_front();
            m.extend(x);
        }
        let mut p = 0;
        macro_rules! call {
            ($e:expr) => {
                if catch_unwind(AssertUnwindSafe(|| $e)).is_err() {
                    p += 1;
                }
            };
        }
        call!({ let _ = TreeList::get(&l, i).min_val().1.get(); });
        call!({ let _ = TreeList::get_mut(&mut l, i).min_val_mut().1.set(3); });
        call!(TreeList::insert_tree(&mut l, i, tree(3)));
        call!({ let _ = List::get(&m, i).get(); });
        call!(List::get_mut(&mut m, i).set(4));
        call!(List::insert_value(&mut m, i, Tok::new(4)));
        let (l2, m2) = (std::mem::take(&mut l), std::mem::take(&mut m));
        if rng.chance(1, 2) {
            call!({ let _ = l2.remove_key(i, |t| t.remove_min()); })
        } else {
            call!({ let _ = l2.maybe_remove_key(i, |t| Ok(t.remove_min())); })
        }
        call!({ let _ = m2.remove_value(i); });
        // arrays of optional trees
        let mut a: Box<[Option<T>]> = <Box<[Option<T>]> as OptionArray<U16>>::create();
        let mut g = <InlineE4 as OptionArray<U16>>::create();
        let j = wild(rng, 16);
        call!(*OptionArray::<U16>::get_mut(&mut a, j) = Some(tree(1)));
        call!({ let _ = OptionArray::<U16>::get(&a, j).is_some(); });
        call!(*OptionArray::<U16>::get_mut(&mut g, j) = Some(VebTree::from_monad(E4::of(1), Tok::new(1))));
        call!({ let _ = OptionArray::<U16>::get(&g, j).is_some(); });
        st.panics += p;
        drop((a, g));
        ledger("ranks out of range")?;
        if tok::live() != 0 {
            return Err(format!("{} values never dropped after accesses out of range", tok::live()));
        }
    }
    Ok(())
}

type InlineE4 = <GenericArrayMarker<Bt> as ArrayMarker<E4, Tok>>::Array;
type Coll<K, M> = <M as VebTreeCollectionMarker<K, Tok>>::TreeCollection;
type TreeOf<K, M> = <M as VebTreeMarker<K, Tok>>::Tree;
type S8 = TreeMarker<Bt, HashMapMarker<Bt, Fx>>;
type A8 = TreeMarker<Bt, ArrayTreeCollectionMarker<BoxMarker<Bt>>>;

fn main() {
    let a = Args::parse();
    quiet_panics();
    if !cfg!(miri) {
        watchdog(20.0);
    }
    let (seed, shard, shards) = (a.num("seed", 1), a.num("shard", 0), a.num("shards", 1));
    let j = Journal::new(&a.str("journal", ""));
    let mut out = Output::default();
    let mut st = St { ops: 0, panics: 0, trees: 0, steps: 0, direct: 0 };
    let mut distinct: HashSet<u64> = HashSet::new();
    let (max, secs, len) = (a.num("cases", u64::MAX), a.num("secs", 10) as f64, a.num("len", 120) as usize);
    let mut idx = a.num("from", 0) + shard;
    let t0 = out.cpu();
    while idx < max && out.cpu() - t0 < secs && out.violations.len() < 3 {
        j.set(format!("#veb-replay hostile\n#seed {seed}\n#idx {idx}\n#len {len}\n#run hostile --seed {seed} --from {idx} --cases {} --len {len}", idx + 1));
        let rng = &mut Rng::new(mix2(mix2(seed, 1616), idx));
        let s = &mut st;
        let see = &mut |h| {
            if distinct.len() < 300_000 {
                distinct.insert(h);
            }
        };
        let len = 1 + rng.below(len);
        macro_rules! t {
            ($n:expr, $k:ty, $m:ty) => {
                history::<TreeOf<$k, $m>>($n, rng, len, s, see).map(Some)
            };
        }
        macro_rules! c {
            ($n:expr, $k:ty, $m:ty) => {
                collection::<Coll<$k, $m>>($n, rng, len, s).map(|_| None)
            };
        }
        let r: Result<Option<String>, String> = match (idx / shards) % 24 {
            0 => t!("E8/btree", E8, Bt),
            1 => t!("E8/hash", E8, S8),
            2 => t!("E8/array", E8, A8),
            3 => t!("E8/inline", E8, TreeMarker<Bt, ArrayTreeCollectionMarker<GenericArrayMarker<Bt>>>),
            4 => t!("E8/hash-collide", E8, TreeMarker<Bt, HashMapMarker<Bt, Bad>>),
            5 => t!("E16/hash", E16, TreeMarker<S8, HashMapMarker<S8, Fx>>),
            6 => t!("E16/array", E16, TreeMarker<A8, ArrayTreeCollectionMarker<BoxMarker<A8>>>),
            7 => t!("E16/mixed", E16, TreeMarker<A8, HashMapMarker<BoxMarker<S8>, Bad>>),
            8 => t!("E16/sized", E16, SizedM<TreeMarker<S8, HashMapMarker<SizedM<A8>, Fx>>>),
            9 => t!("E16/boxed", E16, BoxMarker<TreeMarker<S8, BoxC<HashMapMarker<A8, Fx>>>>),
            10 => t!("F16/array", F16, TreeMarker<Bs, ArrayTreeCollectionMarker<BoxMarker<Bm>>>),
            11 => t!("F16/bytecoll", F16, TreeMarker<Bs, ByteCollectionMarker<VecDequeMarker, Bm>>),
            12 => t!("F16/bytecoll-btree", F16, TreeMarker<Bs, ByteCollectionMarker<VecDequeMarker, Bt>>),
            13 => t!("F16/hash", F16, TreeMarker<Bs, HashMapMarker<Bm, Fx>>),
            14 => t!("F16/sized-bytecoll", F16, SizedM<TreeMarker<Bs, ByteCollectionMarker<VecDequeMarker, SizedM<Bm>>>>),
            15 => t!("E16/btree", E16, SizedM<Bt>),
            16 => c!("hash of E4 maps", E8, HashMapMarker<Bt, Fx>),
            17 => c!("array of E4 maps", E8, ArrayTreeCollectionMarker<BoxMarker<Bt>>),
            18 => c!("inline array of E4 maps", E8, ArrayTreeCollectionMarker<GenericArrayMarker<Bt>>),
            19 => c!("packed byte collection", F16, ByteCollectionMarker<VecDequeMarker, Bm>),
            20 => c!("boxed hash, E8", E16, BoxC<HashMapMarker<S8, Bad>>),
            21 => c!("array of bytes", F16, ArrayTreeCollectionMarker<BoxMarker<Bm>>),
            22 => c!("packed byte collection of maps", F16, BoxC<ByteCollectionMarker<VecDequeMarker, Bt>>),
            _ => ranges(rng, s).map(|_| None),
        };
        match r {
            Ok(Some(l)) => {
                if out.samples.len() < 2 {
                    out.samples.push(l.chars().take(300).collect());
                }
            }
            Ok(None) => {}
            Err(e) => out.violations.push(Violation { what: format!("with lying keys: {}", e.rsplit(": ").next().unwrap_or(&e)), replay: format!("{}\n# {e}\n", j.get()) }),
        }
        RATE.with(|r| r.set(0));
        idx += shards;
    }
    let _ = (SizedVebTree::<ByteSet>::from_monad(1, ()), <MaybeBorrowed<u8> as Borrow<u8>>::borrow(&MaybeBorrowed::Owned(1)));
    out.count("operations", st.ops + st.direct);
    out.count("lies_told", LIES.with(|l| l.get()));
    out.count("key_calls", CALLS.with(|l| l.get()));
    out.count("panics_caught", st.panics);
    out.count("iterator_steps", st.steps);
    out.count("trees", st.trees);
    out.distinct = distinct.into_iter().collect();
    out.write(&a.str("out", ""));
}
