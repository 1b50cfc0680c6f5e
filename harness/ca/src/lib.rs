//! One share of the monitored compositions (split only to compile in parallel).
#[allow(unused_imports)]
use veb_tree::key::{U2, U4};
use veb_tree::markers::*;
use vebmon::cfgs;
use vebmon::configs::*;
use vebmon::dynt::{Ad, DynTree, Ext};
use vebmon::keys::*;
#[allow(unused_imports)]
use vebmon::tok::{Al, Tok, Zt};

#[allow(unused_imports, unused_mut)]
pub fn all() -> Vec<Config> {
    cfgs! {
        "unit/btree": (), Tok, Bt, clone, len; LEAF
        "u4/inline": U4, Tok, Q4g; 0
        "u8/btree": u8, Tok, Bt, clone, len; LEAF
        "u8/arr-u4": u8, Tok, Q8; 0
        "UK8/hash": UK8, Tok, K8; UKEY
        "i16/marker16": i16, Tok, Marker16; 0
        "u16/hash-btree-zst": u16, Zt, Bt16, clone; 0
        "u16/inline": u16, u64, Gen<Bs, Bm>; BIG
        "u16/hash-collide": u16, Tok, HashBad<Bs, Bm>; 0
        "i16/bytecoll-wide": i16, [u64; 9], Bc<Bs, Bm>; 0
        "u16/bytecoll-u4": u16, Tok, Bc<Q8, Q8g>; 0
        "u16/boxcoll-byte": u16, Tok, BoxBc<Bs, Bm>; 0
        "u16/box-sized": u16, Tok, BoxMarker<SizedM<H16>>, sizedbox; SIZED
        "VK16/bytecoll": VK16, Tok, B16; UKEY
        "[u8;3]/hash": [u8; 3], Tok, Hash<Bs, H16>; 0
        "u32/marker32-set": u32, (), Marker32Empty; HEAVY
        "u32/hash-set": u32, (), A32E; 0
        "u32/hash-btree": u32, Tok, Bt32, clone; 0
        "UK32/hash": UK32, Tok, K32; UKEY
        "UK32/sized-hash": UK32, Tok, SizedM<K32>, sized; UKEY | SIZED
        "u64/hash": u64, Tok, Hash<H32E, H32>; 0
        "[u16;4]/hash": [u16; 4], Tok, Hash<H32E, H32>; 0
        "u128/hash": u128, Tok, Hash<Hash<H32E, H32E>, Hash<H32E, H32>>; 0
        "[u16;8]/hash": [u16; 8], Tok, Hash<Hash<H32E, H32E>, Hash<H32E, H32>>; 0
    }
}
