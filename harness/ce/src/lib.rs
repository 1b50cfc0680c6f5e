//! Compositions with parts a user supplies, and with monitors between a tree and its parts.
pub mod parts;

use veb_tree::bitset::{ByteCollectionMarker, ByteTreeMarker};
use veb_tree::collection::array::ArrayTreeCollectionMarker;
use veb_tree::key::U4;
use veb_tree::markers::*;
use veb_tree::tree::TreeMarker;
use vebmon::cfgs;
use vebmon::configs::*;
use vebmon::dynt::{Ad, DynTree, Ext};
use vebmon::keys::*;
use parts::*;
use vebmon::tok::Tok;

/// lent handles and default hints; owned and exact; by turns and loose
type U0 = UT<0, 0>;
type U1 = UT<1, 1>;
type U2 = UT<2, 2>;
type UU<S, C> = TreeMarker<S, UC<C>>;
type WU<S, C> = TreeMarker<WS<S>, WC<UC<C>>>;
type WH<S, C> = TreeMarker<WS<S>, WC<HashMapFx<C>>>;
type WB<S, C> = TreeMarker<WS<S>, WC<ByteCollectionMarker<veb_tree::bitset::VecDequeMarker, C>>>;
type WBu<S, C> = TreeMarker<WS<S>, WC<ByteCollectionMarker<UL, C>>>;
type WA<S, C> = TreeMarker<WS<S>, WC<ArrayTreeCollectionMarker<BoxMarker<C>>>>;
type WAg<S, C> = TreeMarker<WS<S>, WC<ArrayTreeCollectionMarker<veb_tree::collection::array::GenericArrayMarker<C>>>>;
type WAu<S, C> = TreeMarker<WS<S>, WC<ArrayTreeCollectionMarker<UA<C>>>>;
type Bu<S, C> = TreeMarker<S, ByteCollectionMarker<UL, C>>;
type Au<S, C> = TreeMarker<S, ArrayTreeCollectionMarker<UA<C>>>;
type HashMapFx<C> = veb_tree::collection::hash::HashMapMarker<C, Fx>;
type Lm = ByteTreeMarker<UL>;

pub fn all() -> Vec<Config> {
    vebmon::engine::hook(parts::reset, parts::audit);
    cfgs! {
        "parts/u4/user-array": U4, Tok, Au<U0, U1>; 0
        "parts/u8/user-leaf": u8, Tok, U0, clone; LEAF
        "parts/u8/user-leaf-owned": u8, Tok, U1, clone; LEAF
        "parts/u8/user-list": u8, Tok, Lm; LEAF
        "parts/u8/sized-user-leaf": u8, Tok, SizedM<U2>, sized; LEAF | SIZED
        "parts/u8/box-user-leaf": u8, Tok, BoxMarker<U2>; LEAF
        "parts/u8/user-coll-u4": u8, Tok, WU<U2, U1>, clone; WATCHED
        "parts/UK8/user": UK8, Tok, WU<U1, U2>; UKEY | WATCHED
        "parts/u16/user": u16, Tok, UU<U0, U0>, clone; 0
        "parts/u16/user-owned": u16, Tok, UU<U1, U1>, clone; 0
        "parts/u16/user-turns": u16, Tok, WU<U2, U2>, clone; WATCHED
        "parts/u16/user-summary": u16, Tok, WH<U1, Bm>; WATCHED
        "parts/u16/user-children": u16, Tok, WH<Bs, U2>; WATCHED
        "parts/u16/user-lists": u16, Tok, WBu<Bs, Lm>; WATCHED
        "parts/u16/user-list-of-trees": i16, Tok, Bu<U2, U1>; 0
        "parts/u16/user-array": u16, Tok, WAu<Bs, U0>; WATCHED
        "parts/u16/watched-bytecoll": u16, Tok, WB<Bs, Bm>; WATCHED
        "parts/u16/watched-hash": u16, Tok, WH<Bs, Bm>; WATCHED
        "parts/u16/watched-array": u16, Tok, WA<Bs, Bm>; WATCHED
        "parts/[i8;2]/watched-inline": [i8; 2], Tok, WAg<Bt, Bt>; WATCHED | BIG
        "parts/u16/boxed-user-coll": u16, Tok, TreeMarker<WS<BoxMarker<U0>>, WC<BoxC<UC<BoxMarker<U1>>>>>; WATCHED
        "parts/u16/sized-user": u16, Tok, SizedM<WU<SizedM<U1>, SizedM<U2>>>, sized; SIZED | WATCHED
        "parts/u16/leaf": u16, Tok, U2, clone; LEAF
        "parts/u16/set": u16, (), WU<Bs, Bs>; WATCHED
        "parts/u32/user-deep": u32, Tok, WU<WU<U2, U0>, WU<U1, U2>>; WATCHED
        "parts/u32/mixed": u32, Tok, WH<WB<Bs, Bs>, WU<Bs, Lm>>; WATCHED
        "parts/u32/watched-marker": u32, Tok, WH<Marker16Empty, Marker16>; WATCHED
        "parts/[u8;3]/user": [u8; 3], Tok, WBu<U1, WBu<Bs, Lm>>; WATCHED
        "parts/UK16/user": UK16, Tok, WU<K8, WU<K4, UT<2, 1>>>; UKEY | WATCHED
        "parts/u64/user": u64, Tok, WU<WH<H16E, H16E>, WU<H16E, H16>>; WATCHED
        "parts/u128/user": u128, Tok, WU<UT<1, 2>, UT<0, 2>>; WATCHED
    }
}
