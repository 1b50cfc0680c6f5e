//! One share of the monitored compositions (split only to compile in parallel).
#[allow(unused_imports)]
use veb_tree::key::{U2, U4};
use veb_tree::markers::*;
use vebmon::cfgs;
use vebmon::configs::*;
use vebmon::dynt::{Ad, DynTree, Ext};
use vebmon::keys::*;
#[allow(unused_imports)]
use vebmon::tok::{Al, Tok, Zt};

#[allow(unused_imports, unused_mut)]
pub fn all() -> Vec<Config> {
    cfgs! {
        "unit/hash": (), Tok, Hash<Bt, Bt>, clone; 0
        "u8/byteset": u8, (), Bs, clone, nzlen; LEAF
        "u8/sized-bytemap": u8, Tok, SizedM<Bm>, sized; LEAF | SIZED
        "u8/inline-u4": u8, Tok, Q8g; 0
        "UK8/arr": UK8, Tok, K8a; UKEY
        "UK8/hash-clone": UK8, Tok, Hash<Hash<K2, K2>, Hash<K2, K2>>, clone; UKEY
        "[u8;2]/marker16": [u8; 2], Tok, Marker16; 0
        "u16/marker16-aligned": u16, Al, Marker16; 0
        "u16/hash": u16, Tok, H16; 0
        "u16/hash-weak": u16, Box<u64>, HashWeak<Bs, Bm>; 0
        "u16/bytecoll-btree": u16, Tok, Bc<Bt, Bt>; 0
        "u16/hash-sized-inside": u16, Tok, Hash<SizedM<Bs>, SizedM<Bm>>; 0
        "u16/boxcoll-arr": u16, Tok, BoxArr<Bs, Bm>; 0
        "u16/sized-hash-set": u16, (), SizedM<H16E>, sized; SIZED
        "VK16/marker16": VK16, Tok, Marker16; UKEY
        "[u8;3]/bytecoll": [u8; 3], Tok, Bc<Bs, B16>; 0
        "i32/marker32": i32, u64, Marker32; HEAVY
        "i32/hash": i32, Tok, H32; 0
        "u32/hash-set-clone": u32, (), H32E, clone; 0
        "[u8;5]/hash": [u8; 5], Tok, Hash<H16E, Hash<Bs, H16>>; 0
        "u64/hash-set": u64, (), Hash<A32E, A32E>; 0
        "[i32;2]/hash": [i32; 2], Tok, Hash<H32E, H32>; 0
        "i128/hash": i128, Tok, Hash<Hash<A32E, A32E>, Hash<A32E, A32>>; 0
        "UK128/hash": UK128, Tok, K128; UKEY | BIG
    }
}
