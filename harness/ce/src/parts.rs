//! Parts a user of the crate could supply: leaf trees, collections, lists and arrays written
//! against the public traits only, and monitors that wrap any summary or collection and watch
//! the boundary at which the tree uses it.
use vebmon::rng::mix;
use vebmon::tok;
use std::borrow::Borrow;
use std::cell::Cell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::marker::PhantomData;
use std::num::NonZeroUsize;
use veb_tree::bitset::{List, ListMarker, TreeList, TreeListMarker};
use veb_tree::collection::array::{ArrayMarker, OptionArray};
use veb_tree::collection::{CollectionKV, TreeCollection, TreeInsertResult, TreeMaybeRemoveResult, TreeRemoveResult, VebTreeCollectionMarker};
use veb_tree::key::{MaybeBorrowed, SizedVebKey, VebKey};
use veb_tree::tree::VebTreeMarker;
use veb_tree::{MaybeRemoveResult, RemoveResult, TreeKV, VebTree};

// ---- what the monitors see -----------------------------------------------------------------
#[derive(Default, Clone, Copy)]
pub struct Seen {
    /// calls that crossed a watched boundary
    pub calls: u64,
    /// comparisons of the summaries with the collections
    pub audits: u64,
    sum: [u64; 2],
    live: [i64; 2],
}
thread_local! {
    static SEEN: Cell<Seen> = const { Cell::new(Seen { calls: 0, audits: 0, sum: [0; 2], live: [0; 2] }) };
}
pub fn seen() -> Seen {
    SEEN.get()
}
/// Forget objects of an earlier history.
pub fn reset() {
    let mut s = SEEN.get();
    s.sum = [0; 2];
    s.live = [0; 2];
    SEEN.set(s);
}
fn breach(m: String) {
    tok::breach(m)
}
/// Between operations the watched summaries name exactly the subtrees of the watched collections.
pub fn audit() -> Option<String> {
    let mut s = SEEN.get();
    s.audits += 1;
    SEEN.set(s);
    if s.live[0] != s.live[1] {
        return Some(format!("{} summaries exist beside {} collections", s.live[0], s.live[1]));
    }
    if s.sum[0] != s.sum[1] {
        return Some("a summary does not name exactly the subtrees present in its collection".into());
    }
    None
}

struct Fnv(u64);
impl Hasher for Fnv {
    fn finish(&self) -> u64 {
        mix(self.0)
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100_0000_01b3);
        }
    }
}
fn kh<K: Hash>(k: &K) -> u64 {
    let mut h = Fnv(0xcbf2_9ce4_8422_2325);
    k.hash(&mut h);
    h.finish()
}

/// One watched object: a running fingerprint of the keys it was told about.
struct Reg {
    side: usize,
    keys: u64,
    n: usize,
}
impl Reg {
    fn new(side: usize) -> Reg {
        let mut s = SEEN.get();
        s.live[side] += 1;
        SEEN.set(s);
        Reg { side, keys: 0, n: 0 }
    }
    fn print(&self) -> u64 {
        mix(self.keys ^ mix(self.n as u64))
    }
    fn toggle(&mut self, h: u64, up: bool) {
        let mut s = SEEN.get();
        if self.n > 0 {
            s.sum[self.side] = s.sum[self.side].wrapping_sub(self.print());
        }
        self.keys = if up { self.keys.wrapping_add(mix(h)) } else { self.keys.wrapping_sub(mix(h)) };
        self.n = if up { self.n + 1 } else { self.n.wrapping_sub(1) };
        if self.n > 0 {
            s.sum[self.side] = s.sum[self.side].wrapping_add(self.print());
        }
        SEEN.set(s);
    }
}
impl Clone for Reg {
    fn clone(&self) -> Reg {
        let mut r = Reg::new(self.side);
        (r.keys, r.n) = (self.keys, self.n);
        let mut s = SEEN.get();
        if r.n > 0 {
            s.sum[r.side] = s.sum[r.side].wrapping_add(r.print());
        }
        SEEN.set(s);
        r
    }
}
impl Drop for Reg {
    fn drop(&mut self) {
        let _ = SEEN.try_with(|c| {
            let mut s = c.get();
            s.live[self.side] -= 1;
            if self.n > 0 {
                s.sum[self.side] = s.sum[self.side].wrapping_sub(self.print());
            }
            c.set(s);
        });
    }
}
fn call() {
    let mut s = SEEN.get();
    s.calls += 1;
    SEEN.set(s);
}

// ---- a leaf tree: a sorted vector -------------------------------------------------------------
/// `OWN`: handles lent (0), owned (1) or by turns (2). `HINT`: size hints by default method (0),
/// exact (1), or as loose as may be (2).
#[derive(Clone)]
pub struct UTree<K, V, const OWN: u8, const HINT: u8> {
    items: Vec<(K, V)>,
}
impl<K: Ord + Clone + Hash, V, const OWN: u8, const HINT: u8> UTree<K, V, OWN, HINT> {
    fn at(&self, k: &K) -> Result<usize, usize> {
        self.items.binary_search_by(|e| e.0.cmp(k))
    }
    fn lend(k: &K) -> MaybeBorrowed<'_, K> {
        match OWN {
            0 => MaybeBorrowed::Borrowed(k),
            1 => MaybeBorrowed::Owned(k.clone()),
            _ if kh(k) & 1 == 0 => MaybeBorrowed::Borrowed(k),
            _ => MaybeBorrowed::Owned(k.clone()),
        }
    }
    fn r(&self, i: usize) -> (MaybeBorrowed<'_, K>, &V) {
        let (k, v) = &self.items[i];
        (Self::lend(k), v)
    }
    fn m(&mut self, i: usize) -> (MaybeBorrowed<'_, K>, &mut V) {
        let (k, v) = &mut self.items[i];
        (Self::lend(k), v)
    }
    fn rest(mut self, i: usize) -> (Option<Self>, (K, V)) {
        let e = self.items.remove(i);
        ((!self.items.is_empty()).then_some(self), e)
    }
}
macro_rules! utree {
    ($h:literal; $($hint:tt)*) => {
impl<K: Ord + Clone + Hash, V, const OWN: u8> VebTree for UTree<K, V, OWN, $h> {
    type Key = K;
    type Value = V;
    fn from_monad(key: K, val: V) -> Self {
        UTree { items: vec![(key, val)] }
    }
    fn is_monad(&self) -> bool {
        self.items.len() == 1
    }
        $($hint)*
    fn into_monad(mut self) -> Result<TreeKV<Self>, Self> {
        if self.items.len() == 1 {
            Ok(self.items.pop().unwrap())
        } else {
            Err(self)
        }
    }
    fn min_val(&self) -> (MaybeBorrowed<'_, K>, &V) {
        self.r(0)
    }
    fn min_val_mut(&mut self) -> (MaybeBorrowed<'_, K>, &mut V) {
        self.m(0)
    }
    fn max_val(&self) -> (MaybeBorrowed<'_, K>, &V) {
        self.r(self.items.len() - 1)
    }
    fn max_val_mut(&mut self) -> (MaybeBorrowed<'_, K>, &mut V) {
        self.m(self.items.len() - 1)
    }
    fn find<Q: Borrow<K>>(&self, k: Q) -> Option<(MaybeBorrowed<'_, K>, &V)> {
        self.at(k.borrow()).ok().map(|i| self.r(i))
    }
    fn find_mut<Q: Borrow<K>>(&mut self, k: Q) -> Option<(MaybeBorrowed<'_, K>, &mut V)> {
        self.at(k.borrow()).ok().map(|i| self.m(i))
    }
    fn predecessor<Q: Borrow<K>>(&self, k: Q) -> Option<(MaybeBorrowed<'_, K>, &V)> {
        let i = self.at(k.borrow()).unwrap_or_else(|i| i);
        (i > 0).then(|| self.r(i - 1))
    }
    fn predecessor_mut<Q: Borrow<K>>(&mut self, k: Q) -> Option<(MaybeBorrowed<'_, K>, &mut V)> {
        let i = self.at(k.borrow()).unwrap_or_else(|i| i);
        (i > 0).then(|| self.m(i - 1))
    }
    fn successor<Q: Borrow<K>>(&self, k: Q) -> Option<(MaybeBorrowed<'_, K>, &V)> {
        let i = self.at(k.borrow()).map_or_else(|i| i, |i| i + 1);
        (i < self.items.len()).then(|| self.r(i))
    }
    fn successor_mut<Q: Borrow<K>>(&mut self, k: Q) -> Option<(MaybeBorrowed<'_, K>, &mut V)> {
        let i = self.at(k.borrow()).map_or_else(|i| i, |i| i + 1);
        (i < self.items.len()).then(|| self.m(i))
    }
    fn insert(&mut self, k: K, v: V) -> Option<(K, V)> {
        match self.at(&k) {
            Ok(i) => Some(std::mem::replace(&mut self.items[i], (k, v))),
            Err(i) => {
                self.items.insert(i, (k, v));
                None
            }
        }
    }
    fn remove<Q: Borrow<K>>(self, k: Q) -> MaybeRemoveResult<Self> {
        match self.at(k.borrow()) {
            Ok(i) => Ok(self.rest(i)),
            Err(_) => Err(self),
        }
    }
    fn remove_min(self) -> RemoveResult<Self> {
        self.rest(0)
    }
    fn remove_max(self) -> RemoveResult<Self> {
        let i = self.items.len() - 1;
        self.rest(i)
    }
}
    };
}
// 0: the provided method
utree! { 0; }
utree! { 1; fn len_hint(&self) -> (usize, Option<usize>) {
    (self.items.len(), Some(self.items.len()))
} }
utree! { 2; fn len_hint(&self) -> (usize, Option<usize>) {
    (1, if self.items.len() % 2 == 0 { Some(usize::MAX) } else { None })
} }
pub struct UT<const OWN: u8, const HINT: u8>;
impl<K: Ord + Clone + Hash, V, const OWN: u8, const HINT: u8> VebTreeMarker<K, V> for UT<OWN, HINT>
where
    UTree<K, V, OWN, HINT>: VebTree<Key = K, Value = V>,
{
    type Tree = UTree<K, V, OWN, HINT>;
}

// ---- a collection: an ordered map of subtrees ---------------------------------------------------
#[derive(Clone)]
pub struct UColl<H, T> {
    map: BTreeMap<H, T>,
}
impl<H: Ord + Clone, T: VebTree> TreeCollection for UColl<H, T> {
    type Hi = H;
    type Tree = T;
    fn create(h: &H, tree: T) -> Self {
        UColl { map: BTreeMap::from([(h.clone(), tree)]) }
    }
    fn get(&self, h: &H) -> Option<&T> {
        self.map.get(h)
    }
    fn get_mut(&mut self, h: &H) -> Option<&mut T> {
        self.map.get_mut(h)
    }
    fn insert_key(&mut self, h: H, (l, v): CollectionKV<Self>) -> TreeInsertResult<Self> {
        if let Some(t) = self.map.get_mut(&h) {
            let old = t.insert(l, v);
            return Err((h, old));
        }
        self.map.insert(h.clone(), T::from_monad(l, v));
        Ok(h)
    }
    fn remove_key<Q, R>(mut self, h: Q, r: R) -> TreeRemoveResult<Self>
    where
        Q: Borrow<H>,
        R: FnOnce(T) -> RemoveResult<T>,
    {
        let (k, t) = self.map.remove_entry(h.borrow()).expect("contract: remove_key of a value that is not contained");
        let (t, e) = r(t);
        let gone = t.is_none();
        if let Some(t) = t {
            self.map.insert(k, t);
        }
        ((!self.map.is_empty()).then_some((self, gone)), e)
    }
    fn maybe_remove_key<Q, R>(mut self, h: Q, r: R) -> TreeMaybeRemoveResult<Self>
    where
        Q: Borrow<H>,
        R: FnOnce(T) -> MaybeRemoveResult<T>,
    {
        let Some((k, t)) = self.map.remove_entry(h.borrow()) else { return Err(self) };
        match r(t) {
            Err(t) => {
                self.map.insert(k, t);
                Err(self)
            }
            Ok((t, e)) => {
                let gone = t.is_none();
                if let Some(t) = t {
                    self.map.insert(k, t);
                }
                Ok(((!self.map.is_empty()).then_some((self, gone)), e))
            }
        }
    }
}
pub struct UC<T>(PhantomData<T>);
impl<K: VebKey, V, T: VebTreeMarker<K::Lo, V>> VebTreeCollectionMarker<K, V> for UC<T>
where
    K::Hi: Ord + Clone,
{
    type TreeCollection = UColl<K::Hi, T::Tree>;
}

// ---- a ranked list: a plain vector ------------------------------------------------------------
#[derive(Clone)]
pub struct UList<T>(Vec<T>);
impl<T: VebTree> TreeList for UList<T> {
    type Tree = T;
    fn from_monad(v: T) -> Self {
        UList(vec![v])
    }
    fn len(&self) -> NonZeroUsize {
        NonZeroUsize::new(self.0.len()).unwrap()
    }
    fn get(&self, i: usize) -> &T {
        &self.0[i]
    }
    fn get_mut(&mut self, i: usize) -> &mut T {
        &mut self.0[i]
    }
    fn insert_tree(&mut self, i: usize, v: T) {
        self.0.insert(i, v)
    }
    fn remove_key<F>(mut self, i: usize, f: F) -> (Option<(Self, bool)>, TreeKV<T>)
    where
        F: FnOnce(T) -> RemoveResult<T>,
    {
        let (t, e) = f(self.0.remove(i));
        let gone = t.is_none();
        if let Some(t) = t {
            self.0.insert(i, t);
        }
        ((!self.0.is_empty()).then_some((self, gone)), e)
    }
    fn maybe_remove_key<F>(mut self, i: usize, f: F) -> Result<(Option<(Self, bool)>, TreeKV<T>), Self>
    where
        F: FnOnce(T) -> MaybeRemoveResult<T>,
    {
        match f(self.0.remove(i)) {
            Err(t) => {
                self.0.insert(i, t);
                Err(self)
            }
            Ok((t, e)) => {
                let gone = t.is_none();
                if let Some(t) = t {
                    self.0.insert(i, t);
                }
                Ok(((!self.0.is_empty()).then_some((self, gone)), e))
            }
        }
    }
}
pub struct UL;
impl<T: VebTree> TreeListMarker<T> for UL {
    type List = UList<T>;
}

/// ... of values, in pieces of four
#[derive(Clone)]
pub struct UVals<V>(Vec<Vec<V>>);
impl<V> UVals<V> {
    fn at(&self, mut i: usize) -> (usize, usize) {
        for (p, v) in self.0.iter().enumerate() {
            if i < v.len() {
                return (p, i);
            }
            i -= v.len();
        }
        panic!("contract: a rank past the end of a list")
    }
}
impl<V> List for UVals<V> {
    type Value = V;
    fn from_monad(v: V) -> Self {
        UVals(vec![vec![v]])
    }
    fn len(&self) -> usize {
        self.0.iter().map(|v| v.len()).sum()
    }
    fn get(&self, i: usize) -> &V {
        let (p, i) = self.at(i);
        &self.0[p][i]
    }
    fn get_mut(&mut self, i: usize) -> &mut V {
        let (p, i) = self.at(i);
        &mut self.0[p][i]
    }
    fn insert_value(&mut self, i: usize, v: V) {
        if i == List::len(self) {
            self.0.push(vec![v]);
            return;
        }
        let (p, i) = self.at(i);
        self.0[p].insert(i, v);
        if self.0[p].len() > 4 {
            let tail = self.0[p].split_off(2);
            self.0.insert(p + 1, tail);
        }
    }
    fn remove_value(mut self, i: usize) -> (Option<Self>, V) {
        let (p, i) = self.at(i);
        let v = self.0[p].remove(i);
        self.0.retain(|p| !p.is_empty());
        ((!self.0.is_empty()).then_some(self), v)
    }
}
impl<V> ListMarker<V> for UL {
    type List = UVals<V>;
}

// ---- an array of optional subtrees, allocated as it is touched --------------------------------
pub struct UArr<T, const N: usize> {
    none: Option<T>,
    map: BTreeMap<usize, Option<T>>,
}
impl<T: VebTree, C, const N: usize> OptionArray<C> for UArr<T, N> {
    type V = T;
    fn create() -> Self {
        UArr { none: None, map: BTreeMap::new() }
    }
    fn get(&self, i: usize) -> &Option<T> {
        if i >= N {
            breach(format!("contract: slot {i} of an array of {N} is read"));
        }
        self.map.get(&i).unwrap_or(&self.none)
    }
    fn get_mut(&mut self, i: usize) -> &mut Option<T> {
        if i >= N {
            breach(format!("contract: slot {i} of an array of {N} is opened"));
        }
        self.map.entry(i).or_insert(None)
    }
}
pub struct UA<T>(PhantomData<T>);
macro_rules! ua {
    ($($h:ty, $n:expr;)*) => { $(
        impl<V, T: VebTreeMarker<$h, V>> ArrayMarker<$h, V> for UA<T> {
            type Array = UArr<T::Tree, { $n }>;
        }
    )* };
}
ua! { u8, 256; veb_tree::key::U4, 16; veb_tree::key::U2, 4; }
const _: usize = <u8 as SizedVebKey>::CARDINALITY;

// ---- monitors around any part ----------------------------------------------------------------
/// Watches a summary: which keys it holds, as told by its own answers.
#[derive(Clone)]
pub struct WTree<T> {
    t: T,
    reg: Reg,
}
impl<T: VebTree<Value = ()>> VebTree for WTree<T>
where
    T::Key: Hash,
{
    type Key = T::Key;
    type Value = ();
    fn from_monad(key: T::Key, val: ()) -> Self {
        call();
        let mut reg = Reg::new(0);
        reg.toggle(kh(&key), true);
        WTree { t: T::from_monad(key, val), reg }
    }
    fn is_monad(&self) -> bool {
        self.t.is_monad()
    }
    fn len_hint(&self) -> (usize, Option<usize>) {
        self.t.len_hint()
    }
    fn into_monad(self) -> Result<TreeKV<Self>, Self> {
        let WTree { t, reg } = self;
        t.into_monad().map_err(|t| WTree { t, reg })
    }
    fn min_val(&self) -> (MaybeBorrowed<'_, T::Key>, &()) {
        self.t.min_val()
    }
    fn min_val_mut(&mut self) -> (MaybeBorrowed<'_, T::Key>, &mut ()) {
        self.t.min_val_mut()
    }
    fn max_val(&self) -> (MaybeBorrowed<'_, T::Key>, &()) {
        self.t.max_val()
    }
    fn max_val_mut(&mut self) -> (MaybeBorrowed<'_, T::Key>, &mut ()) {
        self.t.max_val_mut()
    }
    fn find<Q: Borrow<T::Key>>(&self, k: Q) -> Option<(MaybeBorrowed<'_, T::Key>, &())> {
        self.t.find(k)
    }
    fn find_mut<Q: Borrow<T::Key>>(&mut self, k: Q) -> Option<(MaybeBorrowed<'_, T::Key>, &mut ())> {
        self.t.find_mut(k)
    }
    fn predecessor<Q: Borrow<T::Key>>(&self, k: Q) -> Option<(MaybeBorrowed<'_, T::Key>, &())> {
        self.t.predecessor(k)
    }
    fn predecessor_mut<Q: Borrow<T::Key>>(&mut self, k: Q) -> Option<(MaybeBorrowed<'_, T::Key>, &mut ())> {
        self.t.predecessor_mut(k)
    }
    fn successor<Q: Borrow<T::Key>>(&self, k: Q) -> Option<(MaybeBorrowed<'_, T::Key>, &())> {
        self.t.successor(k)
    }
    fn successor_mut<Q: Borrow<T::Key>>(&mut self, k: Q) -> Option<(MaybeBorrowed<'_, T::Key>, &mut ())> {
        self.t.successor_mut(k)
    }
    fn insert(&mut self, k: T::Key, v: ()) -> Option<TreeKV<Self>> {
        call();
        let h = kh(&k);
        let r = self.t.insert(k, v);
        if r.is_none() {
            self.reg.toggle(h, true);
        }
        r
    }
    fn remove<Q: Borrow<T::Key>>(self, k: Q) -> MaybeRemoveResult<Self> {
        call();
        let WTree { t, mut reg } = self;
        match t.remove(k) {
            Err(t) => Err(WTree { t, reg }),
            Ok((t, e)) => {
                reg.toggle(kh(&e.0), false);
                Ok((t.map(|t| WTree { t, reg }), e))
            }
        }
    }
    fn remove_min(self) -> RemoveResult<Self> {
        call();
        let WTree { t, mut reg } = self;
        let (t, e) = t.remove_min();
        reg.toggle(kh(&e.0), false);
        (t.map(|t| WTree { t, reg }), e)
    }
    fn remove_max(self) -> RemoveResult<Self> {
        call();
        let WTree { t, mut reg } = self;
        let (t, e) = t.remove_max();
        reg.toggle(kh(&e.0), false);
        (t.map(|t| WTree { t, reg }), e)
    }
}
pub struct WS<T>(PhantomData<T>);
impl<K: Hash, T: VebTreeMarker<K, ()>> VebTreeMarker<K, ()> for WS<T> {
    type Tree = WTree<T::Tree>;
}

/// Watches a collection: which subtrees it holds, and whether it is used as documented.
#[derive(Clone)]
pub struct WColl<C> {
    c: C,
    reg: Reg,
    keys: HashSet<u64>,
}
impl<C: TreeCollection> WColl<C>
where
    C::Hi: Hash,
{
    fn note(mut self_: (C, Reg, HashSet<u64>), h: u64, gone: bool) -> Self {
        if gone {
            self_.1.toggle(h, false);
            if !self_.2.remove(&h) {
                breach("a subtree vanished twice from a collection".into());
            }
        }
        WColl { c: self_.0, reg: self_.1, keys: self_.2 }
    }
}
impl<C: TreeCollection> TreeCollection for WColl<C>
where
    C::Hi: Hash,
{
    type Hi = C::Hi;
    type Tree = C::Tree;
    fn create(h: &C::Hi, tree: C::Tree) -> Self {
        call();
        let k = kh(h);
        let mut reg = Reg::new(1);
        reg.toggle(k, true);
        WColl { c: C::create(h, tree), reg, keys: HashSet::from([k]) }
    }
    fn get(&self, h: &C::Hi) -> Option<&C::Tree> {
        let r = self.c.get(h);
        if r.is_some() != self.keys.contains(&kh(h)) {
            breach("a collection lost or invented a subtree".into());
        }
        r
    }
    fn get_mut(&mut self, h: &C::Hi) -> Option<&mut C::Tree> {
        let r = self.c.get_mut(h);
        if r.is_some() != self.keys.contains(&kh(h)) {
            breach("a collection lost or invented a subtree".into());
        }
        r
    }
    fn insert_key(&mut self, h: C::Hi, lv: CollectionKV<Self>) -> TreeInsertResult<Self> {
        call();
        let k = kh(&h);
        let r = self.c.insert_key(h, lv);
        let new = match &r {
            Ok(h) => {
                self.reg.toggle(k, true);
                (kh(h), self.keys.insert(k))
            }
            Err((h, _)) => (kh(h), self.keys.contains(&k)),
        };
        if new != (k, true) {
            breach("a collection reports an insertion wrongly".into());
        }
        r
    }
    fn remove_key<Q, R>(self, h: Q, r: R) -> TreeRemoveResult<Self>
    where
        Q: Borrow<C::Hi>,
        R: FnOnce(C::Tree) -> RemoveResult<C::Tree>,
    {
        call();
        let k = kh(h.borrow());
        if !self.keys.contains(&k) {
            breach("contract: remove_key is called for a subtree that is not in the collection".into());
        }
        let WColl { c, mut reg, keys } = self;
        match c.remove_key(h, r) {
            (None, e) => {
                reg.toggle(k, false);
                if keys.len() != 1 {
                    breach("a collection of several subtrees vanished".into());
                }
                (None, e)
            }
            (Some((c, gone)), e) => (Some((Self::note((c, reg, keys), k, gone), gone)), e),
        }
    }
    fn maybe_remove_key<Q, R>(self, h: Q, r: R) -> TreeMaybeRemoveResult<Self>
    where
        Q: Borrow<C::Hi>,
        R: FnOnce(C::Tree) -> MaybeRemoveResult<C::Tree>,
    {
        call();
        let k = kh(h.borrow());
        let WColl { c, mut reg, keys } = self;
        match c.maybe_remove_key(h, r) {
            Err(c) => Err(WColl { c, reg, keys }),
            Ok((None, e)) => {
                reg.toggle(k, false);
                if keys.len() != 1 {
                    breach("a collection of several subtrees vanished".into());
                }
                Ok((None, e))
            }
            Ok((Some((c, gone)), e)) => Ok((Some((Self::note((c, reg, keys), k, gone), gone)), e)),
        }
    }
}
pub struct WC<C>(PhantomData<C>);
impl<K: VebKey, V, C> VebTreeCollectionMarker<K, V> for WC<C>
where
    C: VebTreeCollectionMarker<K, V>,
    C::TreeCollection: TreeCollection<Hi = K::Hi>,
    <C::TreeCollection as TreeCollection>::Tree: VebTree<Key = K::Lo, Value = V>,
    K::Hi: Hash,
{
    type TreeCollection = WColl<C::TreeCollection>;
}
