//! One object-safe face for every monitored tree type, so that workloads and oracles are
//! written (and compiled) once. Only public API of the crate under test is used.

use crate::keys::Kc;
use crate::tok::Val;
use veb_tree::key::MaybeBorrowed;
use veb_tree::{Iter, VebTree};

pub type KV = (u128, u64);

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Rem {
    /// no such key; tree handed back
    Absent,
    /// removed, no tree left
    Gone(KV),
    /// removed, a tree is left
    Left(KV),
}

pub trait DynIter {
    fn next(&mut self) -> Option<KV>;
    fn next_back(&mut self) -> Option<KV>;
    fn nth(&mut self, n: usize) -> Option<KV>;
    fn nth_back(&mut self, n: usize) -> Option<KV>;
    fn size_hint(&self) -> (usize, Option<usize>);
    fn exact_len(&self) -> Option<usize>;
    /// consume up to `cap` items from the front with `for_each`-style internal iteration
    fn drain_front(self: Box<Self>, cap: usize) -> Vec<KV>;
    fn drain_back(self: Box<Self>, cap: usize) -> Vec<KV>;
    fn last(self: Box<Self>) -> Option<KV>;
    fn count(self: Box<Self>) -> usize;
    /// internal iteration
    fn fold(self: Box<Self>) -> Vec<KV>;
    fn rfold(self: Box<Self>) -> Vec<KV>;
    fn for_each(self: Box<Self>) -> Vec<KV>;
    /// the first / last entry whose key is at least / at most `k`; the iterator goes on from there
    fn find(&mut self, k: u128) -> Option<KV>;
    fn rfind(&mut self, k: u128) -> Option<KV>;
    /// collect into a vector, by way of the size hints
    fn collect(self: Box<Self>) -> Vec<KV>;
}

/// Ways of handing a key to an operation.
pub const HOWS: u8 = 4;
macro_rules! pass {
    ($t:expr, $m:ident, $k:expr, $how:expr) => {
        match $how {
            0 => $t.$m($k),
            1 => $t.$m(&$k),
            2 => $t.$m(MaybeBorrowed::Borrowed(&$k)),
            _ => $t.$m(MaybeBorrowed::Owned($k)),
        }
    };
}

/// Operations on a possibly vanished tree. Queries panic if no tree is present.
pub trait DynTree {
    fn present(&self) -> bool;
    fn insert(&mut self, k: u128, v: u64) -> Option<KV>;
    fn remove(&mut self, k: u128, how: u8) -> Rem;
    fn remove_min(&mut self) -> Rem;
    fn remove_max(&mut self) -> Rem;
    /// Ok(kv): deconstructed, no tree left
    fn into_monad(&mut self) -> Result<KV, ()>;
    fn is_monad(&self) -> bool;
    fn len_hint(&self) -> (usize, Option<usize>);
    fn exact_len(&self) -> Option<usize>;
    fn min(&self) -> KV;
    fn max(&self) -> KV;
    fn find(&self, k: u128, how: u8) -> Option<KV>;
    fn pred(&self, k: u128, how: u8) -> Option<KV>;
    fn succ(&self, k: u128, how: u8) -> Option<KV>;
    fn min_mut(&mut self, w: Option<u64>) -> KV;
    fn max_mut(&mut self, w: Option<u64>) -> KV;
    fn find_mut(&mut self, k: u128, how: u8, w: Option<u64>) -> Option<KV>;
    fn pred_mut(&mut self, k: u128, how: u8, w: Option<u64>) -> Option<KV>;
    fn succ_mut(&mut self, k: u128, how: u8, w: Option<u64>) -> Option<KV>;
    fn iter<'a>(&'a self) -> Box<dyn DynIter + 'a>;
    fn try_clone(&self) -> Option<Box<dyn DynTree>>;
    fn as_any(&self) -> &dyn std::any::Any;
    /// `clone_from`; false where the type is not cloneable or the types differ
    fn clone_from_tree(&mut self, src: &dyn DynTree) -> bool;
    /// Check the handles returned by the queries around `k`; returns how many were examined.
    fn handles(&self, k: u128) -> Result<u64, String>;
    /// start again from a single entry (drops any tree held)
    fn restart(&mut self, k: u128, v: u64);
    /// drop the tree held
    fn clear(&mut self);
}

pub struct Ext<T: VebTree> {
    pub len: Option<fn(&T) -> usize>,
    pub clone: Option<fn(&T) -> T>,
    pub clone_from: Option<fn(&mut T, &T)>,
    #[allow(clippy::type_complexity)]
    pub xlen: Option<for<'a, 'b> fn(&'b Iter<'a, T>) -> usize>,
}
impl<T: VebTree> Ext<T> {
    pub fn none() -> Self {
        Ext { len: None, clone: None, clone_from: None, xlen: None }
    }
}
impl<T: VebTree> Clone for Ext<T> {
    fn clone(&self) -> Self {
        Ext { len: self.len, clone: self.clone, clone_from: self.clone_from, xlen: self.xlen }
    }
}

pub struct Ad<T: VebTree> {
    t: Option<T>,
    ext: Ext<T>,
}

impl<T> Ad<T>
where
    T: VebTree + 'static,
    T::Key: Kc,
    T::Value: Val,
{
    pub fn boxed(k: u128, v: u64, ext: Ext<T>) -> Box<dyn DynTree> {
        let t = Some(T::from_monad(T::Key::enc(k), T::Value::mk(v)));
        Box::new(Ad { t, ext })
    }
    fn r(&self) -> &T {
        self.t.as_ref().expect("harness: query on a vanished tree")
    }
    fn m(&mut self) -> &mut T {
        self.t.as_mut().expect("harness: query on a vanished tree")
    }
    fn own(&mut self) -> T {
        self.t.take().expect("harness: removal from a vanished tree")
    }
}

fn kv<K: Kc, V: Val>(k: &K, v: &V) -> KV {
    (k.dec(), v.rd())
}
/// Reads the entry, writes the value if asked to, and looks at both references again.
fn touch<K: Kc, V: Val>(k: MaybeBorrowed<'_, K>, v: &mut V, w: Option<u64>) -> KV {
    let r = kv(&*k, v);
    if let Some(w) = w {
        v.wr(w);
        // key and value references stay usable side by side
        if k.dec() != r.0 || v.rd() != w {
            return (r.0 ^ 1, 0xBAD0_0001);
        }
    }
    r
}

struct It<'a, T: VebTree> {
    it: Iter<'a, T>,
    #[allow(clippy::type_complexity)]
    xlen: Option<for<'x, 'y> fn(&'y Iter<'x, T>) -> usize>,
}
impl<'a, T> DynIter for It<'a, T>
where
    T: VebTree,
    T::Key: Kc,
    T::Value: Val,
{
    fn next(&mut self) -> Option<KV> {
        self.it.next().map(|(k, v)| kv(&*k, v))
    }
    fn next_back(&mut self) -> Option<KV> {
        self.it.next_back().map(|(k, v)| kv(&*k, v))
    }
    fn nth(&mut self, n: usize) -> Option<KV> {
        self.it.nth(n).map(|(k, v)| kv(&*k, v))
    }
    fn nth_back(&mut self, n: usize) -> Option<KV> {
        self.it.nth_back(n).map(|(k, v)| kv(&*k, v))
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.it.size_hint()
    }
    fn exact_len(&self) -> Option<usize> {
        self.xlen.map(|f| f(&self.it))
    }
    fn drain_front(self: Box<Self>, cap: usize) -> Vec<KV> {
        self.it.map(|(k, v)| kv(&*k, v)).take(cap).collect()
    }
    fn drain_back(self: Box<Self>, cap: usize) -> Vec<KV> {
        self.it.rev().map(|(k, v)| kv(&*k, v)).take(cap).collect()
    }
    fn last(self: Box<Self>) -> Option<KV> {
        self.it.last().map(|(k, v)| kv(&*k, v))
    }
    fn count(self: Box<Self>) -> usize {
        self.it.count()
    }
    fn fold(self: Box<Self>) -> Vec<KV> {
        self.it.fold(Vec::new(), |mut v, (k, x)| {
            v.push(kv(&*k, x));
            v
        })
    }
    fn rfold(self: Box<Self>) -> Vec<KV> {
        self.it.rfold(Vec::new(), |mut v, (k, x)| {
            v.push(kv(&*k, x));
            v
        })
    }
    fn for_each(self: Box<Self>) -> Vec<KV> {
        let mut v = Vec::new();
        self.it.for_each(|(k, x)| v.push(kv(&*k, x)));
        v
    }
    fn find(&mut self, k: u128) -> Option<KV> {
        self.it.find(|(j, _)| j.dec() >= k).map(|(k, v)| kv(&*k, v))
    }
    fn rfind(&mut self, k: u128) -> Option<KV> {
        self.it.rfind(|(j, _)| j.dec() <= k).map(|(k, v)| kv(&*k, v))
    }
    fn collect(self: Box<Self>) -> Vec<KV> {
        let v: Vec<_> = self.it.collect();
        v.into_iter().map(|(k, v)| kv(&*k, v)).collect()
    }
}

impl<T> DynTree for Ad<T>
where
    T: VebTree + 'static,
    T::Key: Kc,
    T::Value: Val,
{
    fn present(&self) -> bool {
        self.t.is_some()
    }
    fn insert(&mut self, k: u128, v: u64) -> Option<KV> {
        let (k, v) = (T::Key::enc(k), T::Value::mk(v));
        self.m().insert(k, v).map(|(k, v)| kv(&k, &v))
    }
    fn remove(&mut self, k: u128, how: u8) -> Rem {
        let k = T::Key::enc(k);
        let t = self.own();
        match pass!(t, remove, k, how) {
            Err(t) => {
                self.t = Some(t);
                Rem::Absent
            }
            Ok((None, (k, v))) => Rem::Gone(kv(&k, &v)),
            Ok((Some(t), (k, v))) => {
                self.t = Some(t);
                Rem::Left(kv(&k, &v))
            }
        }
    }
    fn remove_min(&mut self) -> Rem {
        let (t, (k, v)) = self.own().remove_min();
        self.t = t;
        match self.t {
            None => Rem::Gone(kv(&k, &v)),
            Some(_) => Rem::Left(kv(&k, &v)),
        }
    }
    fn remove_max(&mut self) -> Rem {
        let (t, (k, v)) = self.own().remove_max();
        self.t = t;
        match self.t {
            None => Rem::Gone(kv(&k, &v)),
            Some(_) => Rem::Left(kv(&k, &v)),
        }
    }
    fn into_monad(&mut self) -> Result<KV, ()> {
        match self.own().into_monad() {
            Ok((k, v)) => Ok(kv(&k, &v)),
            Err(t) => {
                self.t = Some(t);
                Err(())
            }
        }
    }
    fn is_monad(&self) -> bool {
        self.r().is_monad()
    }
    fn len_hint(&self) -> (usize, Option<usize>) {
        self.r().len_hint()
    }
    fn exact_len(&self) -> Option<usize> {
        self.ext.len.map(|f| f(self.r()))
    }
    fn min(&self) -> KV {
        let (k, v) = self.r().min_val();
        kv(&*k, v)
    }
    fn max(&self) -> KV {
        let (k, v) = self.r().max_val();
        kv(&*k, v)
    }
    fn find(&self, k: u128, how: u8) -> Option<KV> {
        let k = T::Key::enc(k);
        let r = pass!(self.r(), find, k, how);
        r.map(|(k, v)| kv(&*k, v))
    }
    fn pred(&self, k: u128, how: u8) -> Option<KV> {
        let k = T::Key::enc(k);
        let r = pass!(self.r(), predecessor, k, how);
        r.map(|(k, v)| kv(&*k, v))
    }
    fn succ(&self, k: u128, how: u8) -> Option<KV> {
        let k = T::Key::enc(k);
        let r = pass!(self.r(), successor, k, how);
        r.map(|(k, v)| kv(&*k, v))
    }
    fn min_mut(&mut self, w: Option<u64>) -> KV {
        let (k, v) = self.m().min_val_mut();
        touch(k, v, w)
    }
    fn max_mut(&mut self, w: Option<u64>) -> KV {
        let (k, v) = self.m().max_val_mut();
        touch(k, v, w)
    }
    fn find_mut(&mut self, k: u128, how: u8, w: Option<u64>) -> Option<KV> {
        let k = T::Key::enc(k);
        let (k, v) = pass!(self.m(), find_mut, k, how)?;
        Some(touch(k, v, w))
    }
    fn pred_mut(&mut self, k: u128, how: u8, w: Option<u64>) -> Option<KV> {
        let k = T::Key::enc(k);
        let (k, v) = pass!(self.m(), predecessor_mut, k, how)?;
        Some(touch(k, v, w))
    }
    fn succ_mut(&mut self, k: u128, how: u8, w: Option<u64>) -> Option<KV> {
        let k = T::Key::enc(k);
        let (k, v) = pass!(self.m(), successor_mut, k, how)?;
        Some(touch(k, v, w))
    }
    fn iter<'a>(&'a self) -> Box<dyn DynIter + 'a> {
        Box::new(It { it: Iter::from(self.r()), xlen: self.ext.xlen })
    }
    fn try_clone(&self) -> Option<Box<dyn DynTree>> {
        let f = self.ext.clone?;
        Some(Box::new(Ad { t: self.t.as_ref().map(f), ext: self.ext.clone() }))
    }
    fn as_any(&self) -> &dyn std::any::Any {
        self
    }
    fn clone_from_tree(&mut self, src: &dyn DynTree) -> bool {
        let (Some(f), Some(s)) = (self.ext.clone_from, src.as_any().downcast_ref::<Self>()) else {
            return false;
        };
        match (&mut self.t, &s.t) {
            (Some(t), Some(s)) => f(t, s),
            _ => return false,
        }
        true
    }
    fn handles(&self, k: u128) -> Result<u64, String> {
        let t = self.r();
        let q = T::Key::enc(k);
        let mut n = 0;
        for (what, r) in [
            ("min_val", Some(t.min_val())),
            ("max_val", Some(t.max_val())),
            ("find", t.find(&q)),
            ("predecessor", t.predecessor(&q)),
            ("successor", t.successor(&q)),
            ("iter.next", Iter::from(t).next()),
            ("iter.next_back", Iter::from(t).next_back()),
        ] {
            let Some((h, v)) = r else { continue };
            one_handle(t, what, h, v)?;
            n += 1;
        }
        // many handles held at once, from both ends, stay valid and distinct
        let mut it = Iter::from(t);
        let mut held = Vec::new();
        for i in 0..6 {
            held.extend(if i % 3 == 1 { it.next_back() } else { it.next() });
        }
        let (a, b) = (t.min_val(), t.max_val());
        for (h, v) in held.iter().chain([&a, &b]) {
            let (d, x) = (h.dec(), v.rd());
            if t.find(h.borrow()).map(|(k, v)| kv(&*k, v)) != Some((d, x)) {
                return Err(format!("handle held across other queries no longer finds its entry {d:#x}"));
            }
            n += 1;
        }
        Ok(n)
    }
    fn restart(&mut self, k: u128, v: u64) {
        self.t = Some(T::from_monad(T::Key::enc(k), T::Value::mk(v)));
    }
    fn clear(&mut self) {
        self.t = None;
    }
}

/// One handle: every way of looking at it denotes the same stored key, and it is as good a query
/// key as the owned or borrowed key.
fn one_handle<T>(t: &T, what: &str, h: MaybeBorrowed<'_, T::Key>, v: &T::Value) -> Result<(), String>
where
    T: VebTree,
    T::Key: Kc,
    T::Value: Val,
{
    let d = (*h).dec();
    let own = T::Key::enc(d);
    let bad = |m: &str| Err(format!("handle returned by {what} for key {d:#x}: {m}"));
    if *h != own {
        return bad("dereferences to something unequal to the key it reads as");
    }
    if <MaybeBorrowed<'_, T::Key> as std::borrow::Borrow<T::Key>>::borrow(&h) != &own {
        return bad("Borrow yields a different key");
    }
    let (as_ref, as_own): (MaybeBorrowed<'_, T::Key>, MaybeBorrowed<'_, T::Key>) =
        ((&own).into(), own.clone().into());
    if h != as_ref || h != as_own || as_ref != h || as_own != h {
        return bad("does not equal a handle made from the same key");
    }
    let other = d ^ 1;
    if other <= crate::keys::mask(T::Key::BITS) && T::Key::BITS > 0 {
        let o = T::Key::enc(other);
        if h == MaybeBorrowed::Borrowed(&o) || h == MaybeBorrowed::Owned(o) {
            return bad("equals a handle made from a different key");
        }
    }
    // one query per way of passing the key
    let want = (d, v.rd());
    let look = |r: Option<(MaybeBorrowed<'_, T::Key>, &T::Value)>| r.map(|(k, v)| kv(&*k, v));
    for (n, r) in [
        ("the key by value", look(t.find(own.clone()))),
        ("a reference to the key", look(t.find(&own))),
        ("a reference to the handle's key", look(t.find(&*h))),
        ("a borrowed copy of the handle", look(t.find(h.borrow()))),
        ("a clone of the handle", look(t.find(h.clone()))),
    ] {
        if r != Some(want) {
            return bad(&format!("find with {n} gives {r:?}, expected {want:?}"));
        }
    }
    let (p, s) = (look(t.predecessor(&own)), look(t.successor(&own)));
    if look(t.predecessor(h.clone())) != p || look(t.predecessor(h.borrow())) != p {
        return bad("predecessor depends on how the key is passed");
    }
    if look(t.successor(h.clone())) != s || look(t.successor(h.borrow())) != s {
        return bad("successor depends on how the key is passed");
    }
    let c = h.clone();
    if c.into_or_clone() != own {
        return bad("a clone converts into a different owned key");
    }
    if h.borrow().into_or_clone() != own {
        return bad("a reborrow converts into a different owned key");
    }
    if look(t.find(h)) != Some(want) {
        return bad("find with the handle itself misses the entry");
    }
    Ok(())
}
