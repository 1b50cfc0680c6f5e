//! The compositions under test.

use crate::dynt::{DynTree, Ext};
use crate::keys::*;
use crate::tok::Val;
use std::collections::BTreeMap;
use std::hash::{BuildHasher, Hasher};
use std::marker::PhantomData;
use veb_tree::bitset::{ByteCollectionMarker, ByteSetMarker, ByteTreeMarker, VecDequeMarker};
use veb_tree::collection::array::{ArrayTreeCollectionMarker, GenericArrayMarker};
use veb_tree::collection::hash::HashMapMarker;
use veb_tree::collection::{TreeCollection, VebTreeCollectionMarker};
use veb_tree::key::VebKey;
use veb_tree::markers::*;
use veb_tree::tree::{TreeMarker, VebTreeMarker};
use veb_tree::{SizedVebTree, VebTree};

// --- markers supplied by this harness (plain users of the public traits) ---------------
/// ordered-map leaf
pub struct Bt;
impl<K: Ord, V> VebTreeMarker<K, V> for Bt {
    type Tree = BTreeMap<K, V>;
}
/// size-tracking wrapper at any level
pub struct SizedM<T>(PhantomData<T>);
impl<K, V, T: VebTreeMarker<K, V>> VebTreeMarker<K, V> for SizedM<T> {
    type Tree = SizedVebTree<T::Tree>;
}
/// boxed collection
pub struct BoxC<C>(PhantomData<C>);
impl<K: VebKey, V, C> VebTreeCollectionMarker<K, V> for BoxC<C>
where
    C: VebTreeCollectionMarker<K, V>,
    C::TreeCollection: TreeCollection<Hi = K::Hi>,
    <C::TreeCollection as TreeCollection>::Tree: VebTree<Key = K::Lo, Value = V>,
{
    type TreeCollection = Box<C::TreeCollection>;
}

/// FNV: deterministic, so that runs replay exactly
#[derive(Default, Clone)]
pub struct Fx;
#[derive(Clone)]
pub struct FxH(u64);
impl Hasher for FxH {
    fn finish(&self) -> u64 {
        crate::rng::mix(self.0)
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100_0000_01b3);
        }
    }
}
impl BuildHasher for Fx {
    type Hasher = FxH;
    fn build_hasher(&self) -> FxH {
        FxH(0xcbf2_9ce4_8422_2325)
    }
}
/// every key collides
#[derive(Default, Clone)]
pub struct Bad;
pub struct BadH;
impl Hasher for BadH {
    fn finish(&self) -> u64 {
        42
    }
    fn write(&mut self, _: &[u8]) {}
}
impl BuildHasher for Bad {
    type Hasher = BadH;
    fn build_hasher(&self) -> BadH {
        BadH
    }
}
/// equal hashes for keys that agree in the low three bits
#[derive(Default, Clone)]
pub struct Weak;
pub struct WeakH(u64);
impl Hasher for WeakH {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 ^= (*x & 7) as u64;
        }
    }
}
impl BuildHasher for Weak {
    type Hasher = WeakH;
    fn build_hasher(&self) -> WeakH {
        WeakH(0)
    }
}

pub type Bs = ByteSetMarker;
pub type Bm = ByteTreeMarker<VecDequeMarker>;
pub type Arr<S, C> = TreeMarker<S, ArrayTreeCollectionMarker<BoxMarker<C>>>;
pub type ArrB<S, C> = TreeMarker<S, ArrayTreeCollectionMarker<BoxMarker<BoxMarker<C>>>>;
pub type Gen<S, C> = TreeMarker<S, ArrayTreeCollectionMarker<GenericArrayMarker<C>>>;
pub type Hash<S, C> = TreeMarker<S, HashMapMarker<C, Fx>>;
pub type HashBad<S, C> = TreeMarker<S, HashMapMarker<C, Bad>>;
pub type HashWeak<S, C> = TreeMarker<S, HashMapMarker<C, Weak>>;
pub type HashStd<S, C> = TreeMarker<S, HashMapMarker<C>>;
pub type Bc<S, C> = TreeMarker<S, ByteCollectionMarker<VecDequeMarker, C>>;
pub type BoxHash<S, C> = TreeMarker<S, BoxC<HashMapMarker<C, Fx>>>;
pub type BoxBc<S, C> = TreeMarker<S, BoxC<ByteCollectionMarker<VecDequeMarker, C>>>;
pub type BoxArr<S, C> = TreeMarker<S, BoxC<ArrayTreeCollectionMarker<BoxMarker<C>>>>;
// 16-bit building blocks
pub type H16E = Hash<Bs, Bs>;
pub type H16 = Hash<Bs, Bm>;
pub type B16E = Bc<Bs, Bs>;
pub type B16 = Bc<Bs, Bm>;
pub type Bt16 = Hash<Bt, Bt>;
pub type H32E = Hash<H16E, H16E>;
pub type H32 = Hash<H16E, H16>;
pub type A32E = Hash<Marker16Empty, Marker16Empty>;
pub type A32 = Hash<Marker16Empty, Marker16>;
pub type Bt32 = Hash<Bt16, Bt16>;
// down to U4 / U2 / bool
pub type D2 = Hash<Bt, Bt>;
pub type Q4 = Arr<D2, D2>;
pub type Q4g = Gen<D2, D2>;
pub type Q8 = Arr<Q4, Q4>;
pub type Q8g = Gen<Q4g, Q4g>;

// instrumented keys
pub type K2 = Hash<Bt, Bt>;
pub type K4 = Arr<K2, K2>;
pub type K8 = Hash<K4, K4>;
pub type K8a = Arr<K4, K4>;
pub type K16 = Hash<K8, K8>;
pub type K16a = Arr<K8a, K8a>;
pub type K32 = Hash<K16, K16>;
pub type K64 = Hash<K32, K32>;
pub type K128 = Hash<K64, K64>;

pub struct Config {
    pub name: &'static str,
    pub bits: u32,
    pub vmask: u64,
    pub mk: fn(u128, u64) -> Box<dyn DynTree>,
    /// exact length known (size-tracking, byte set, ordered map)
    pub len: bool,
    /// iterator is ExactSizeIterator
    pub exact_iter: bool,
    pub clone: bool,
    /// values have identities
    pub tok: bool,
    /// keys have identities and count work
    pub uk: bool,
    /// an interior tree whose subtree storage must vanish at <= 2 entries
    pub interior: bool,
    /// relative cost of one case
    pub heavy: u32,
    /// usable under Miri in reasonable time
    pub small: bool,
    /// iteration order etc. do not depend on a random hasher
    pub det: bool,
    /// the tree is Sized over something (iterator hints exact)
    pub sized: bool,
    /// built with watched summaries and collections
    pub watched: bool,
    /// the tree type is Send, Sync
    pub send_sync: (bool, bool),
}

/// Is a concrete type Send / Sync? (method resolution prefers the bounded inherent impl)
pub struct Probe<T>(pub PhantomData<T>);
pub trait Otherwise {
    fn is_send(&self) -> bool {
        false
    }
    fn is_sync(&self) -> bool {
        false
    }
}
impl<T> Otherwise for Probe<T> {}
impl<T: Send> Probe<T> {
    pub fn is_send(&self) -> bool {
        true
    }
}
impl<T: Sync> Probe<T> {
    pub fn is_sync(&self) -> bool {
        true
    }
}

pub const SIZED: u32 = 1; // SizedVebTree
pub const LEAF: u32 = 2; // ByteSet / BTreeMap / ByteMap themselves
pub const UKEY: u32 = 4;
pub const HEAVY: u32 = 8;
pub const BIG: u32 = 16; // too slow for Miri
pub const STDHASH: u32 = 32;
pub const WATCHED: u32 = 64;

pub fn tidy<T>(name: &'static str, flags: u32, mk: fn(u128, u64) -> Box<dyn DynTree>, ext: Ext<T>, send_sync: (bool, bool)) -> Config
where
    T: VebTree,
    T::Key: Kc,
    T::Value: Val,
{
    Config {
        name,
        bits: T::Key::BITS,
        vmask: T::Value::MASK,
        mk,
        len: ext.len.is_some(),
        exact_iter: ext.xlen.is_some(),
        clone: ext.clone.is_some(),
        tok: T::Value::TOK,
        uk: flags & UKEY != 0,
        interior: flags & LEAF == 0,
        heavy: if flags & HEAVY != 0 { 60 } else { 1 },
        small: flags & (HEAVY | BIG) == 0,
        det: flags & STDHASH == 0,
        watched: flags & WATCHED != 0,
        sized: flags & SIZED != 0,
        send_sync,
    }
}

#[macro_export]
macro_rules! cfgs {
    ($( $name:literal : $k:ty, $v:ty, $m:ty $(, $kind:ident)* ; $flags:expr )*) => {{
        let mut all: Vec<Config> = Vec::new();
        $( {
            type T = VebTreeType<$k, $v, $m>;
            #[allow(unused_mut)]
            fn ext() -> Ext<T> {
                let mut e: Ext<T> = Ext::none();
                $( $crate::cfgs!(@ $kind e); )*
                e
            }
            fn mk(k: u128, v: u64) -> Box<dyn DynTree> {
                Ad::<T>::boxed(k, v, ext())
            }
            #[allow(unused_imports)]
            use $crate::configs::Otherwise as _;
            let p = $crate::configs::Probe::<T>(std::marker::PhantomData);
            all.push(tidy::<T>($name, $flags, mk, ext(), (p.is_send(), p.is_sync())));
        } )*
        all
    }};
    (@ clone $e:ident) => {
        $e.clone = Some(|t: &T| t.clone());
        $e.clone_from = Some(|t: &mut T, s: &T| t.clone_from(s));
    };
    (@ sized $e:ident) => {
        $e.len = Some(|t: &T| t.len().get());
        $e.xlen = Some(|i| i.len());
    };
    (@ sizedbox $e:ident) => { $e.len = Some(|t: &T| t.len().get()); };
    (@ nzlen $e:ident) => { $e.len = Some(|t: &T| t.len().get()); };
    (@ len $e:ident) => { $e.len = Some(|t: &T| t.len()); };
}

