//! One share of the monitored compositions (split only to compile in parallel).
#[allow(unused_imports)]
use veb_tree::key::{U2, U4};
use veb_tree::markers::*;
use vebmon::cfgs;
use vebmon::configs::*;
use vebmon::dynt::{Ad, DynTree, Ext};
use vebmon::keys::*;
#[allow(unused_imports)]
use vebmon::tok::{Al, Tok, Zt};

#[allow(unused_imports, unused_mut)]
pub fn all() -> Vec<Config> {
    cfgs! {
        "u2/hash": U2, Tok, D2, clone; 0
        "u8/bytemap": u8, Tok, Bm; LEAF
        "u8/bytemap-niche": u8, Option<Box<u64>>, Bm; LEAF
        "u8/sized-byteset": u8, (), SizedM<Bs>, sized; LEAF | SIZED
        "i8/hash-u4": i8, Tok, Hash<Bt, Bt>, clone; 0
        "u16/marker16": u16, Tok, Marker16; 0
        "[i8;2]/arr-btree": [i8; 2], Tok, Arr<Bt, Bt>; 0
        "u16/hash-set": u16, (), H16E, clone; 0
        "u16/bytecoll": u16, Tok, B16; 0
        "u16/hash-btree": u16, Tok, Bt16, clone; 0
        "u16/arr-box-inside": u16, Tok, ArrB<BoxMarker<Bs>, Bm>; 0
        "u16/sized": u16, Tok, SizedM<Marker16>, sized; SIZED
        "u16/sized-sized": u16, Tok, SizedM<SizedM<Bt16>>, sized; SIZED
        "UK16/hash": UK16, Tok, K16; UKEY
        "VK24/bytecoll": VK24, Tok, Bc<Bs, Bc<Bs, Bm>>; UKEY
        "[i16;2]/marker32": [i16; 2], Tok, Marker32; HEAVY
        "[u8;4]/hash-bytecoll": [u8; 4], Tok, Hash<B16E, B16>; 0
        "u32/sized-hash": u32, Tok, SizedM<H32>, sized; SIZED
        "[u8;6]/hash": [u8; 6], Tok, Hash<Bc<Bs, B16E>, Bc<Bs, B16>>; 0
        "i64/hash-btree": i64, Tok, Hash<Bt32, Bt32>, clone; 0
        "u64/sized-hash": u64, Tok, SizedM<Hash<H32E, H32>>, sized; SIZED
        "[u8;16]/hash": [u8; 16], Tok, Hash<Hash<Hash<B16E, B16E>, Hash<B16E, B16E>>, Hash<Hash<B16E, B16E>, Hash<B16E, B16>>>; 0
    }
}
