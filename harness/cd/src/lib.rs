//! One share of the monitored compositions (split only to compile in parallel).
#[allow(unused_imports)]
use veb_tree::key::{U2, U4};
use veb_tree::markers::*;
use vebmon::cfgs;
use vebmon::configs::*;
use vebmon::dynt::{Ad, DynTree, Ext};
use vebmon::keys::*;
#[allow(unused_imports)]
use vebmon::tok::{Al, Tok, Zt};

#[allow(unused_imports, unused_mut)]
pub fn all() -> Vec<Config> {
    cfgs! {
        "u4/arr": U4, Tok, Q4; 0
        "u8/bytemap-zst": u8, Zt, Bm; LEAF
        "u8/bytemap-wide": u8, [u64; 9], Bm; LEAF
        "u8/box-bytemap": u8, Tok, BoxMarker<Bm>; LEAF
        "i8/arr-u4": i8, Tok, Arr<Q4, Q4>; 0
        "u16/marker16-set": u16, (), Marker16Empty; 0
        "[i8;2]/inline-u4": [i8; 2], Tok, Gen<Hash<Bt, Bt>, Hash<Bt, Bt>>; BIG
        "u16/hash-std": u16, Tok, HashStd<Bs, Bm>; STDHASH
        "u16/bytecoll-set": u16, (), B16E; 0
        "u16/arr-u4": u16, Tok, Arr<Q8, Q8>; BIG
        "u16/boxcoll-hash": u16, Tok, BoxHash<Bs, Bm>; 0
        "u16/sized-box": u16, Tok, SizedM<BoxMarker<B16>>, sized; SIZED
        "VK16/hash": VK16, Tok, H16; UKEY
        "UK16/hash-collide": UK16, Tok, HashBad<K8, K8>; UKEY
        "UK16/arr": UK16, Tok, K16a; UKEY | BIG
        "u32/marker32": u32, Tok, Marker32; HEAVY
        "u32/hash": u32, Tok, A32; 0
        "[u16;2]/hash": [u16; 2], Tok, Hash<B16E, Bt16>; 0
        "VK32/hash": VK32, Tok, Hash<B16E, B16>; UKEY
        "[u8;7]/hash": [u8; 7], Tok, Hash<Bc<Bs, B16E>, Hash<B16E, B16>>; 0
        "[u8;8]/hash": [u8; 8], Tok, Hash<Hash<B16E, B16E>, Hash<B16E, B16>>; 0
        "UK64/hash": UK64, Tok, K64; UKEY | BIG
        "[i64;2]/hash": [i64; 2], Tok, Hash<Hash<H32E, H32E>, Hash<H32E, H32>>; 0
    }
}
