//! Operation histories: key pools with structure, steered operation mixes, exhaustive walks.

use crate::configs::Config;
use crate::keys::mask;
use crate::rng::Rng;
use std::collections::BTreeSet;
use std::fmt::Write as _;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Op {
    Ins(u128, u64),
    Rem(u128, u8),
    RMin,
    RMax,
    IntoMonad,
    /// lookups, neighbours around a key
    Probe(u128, u8),
    /// write through find_mut / pred_mut / succ_mut / min_mut / max_mut
    FindMut(u128, u8, u64),
    PredMut(u128, u8, u64),
    SuccMut(u128, u8, u64),
    MinMut(u64),
    MaxMut(u64),
    /// iterate by script: bits of `.1` (front = 0, back = 1), `.0` steps; then past the end
    Iter(u16, u64, u8),
    /// clone the tree into the other slot (dropping what was there)
    Snap,
    /// make the other slot a copy by `clone_from`
    Assign,
    /// exchange the two slots
    Swap,
    /// look at the handles around a key
    Handles(u128),
    /// observe everything
    Full,
    /// drop the tree
    Clear,
}

impl Op {
    pub fn code(&self) -> u64 {
        match self {
            Op::Ins(..) => 1,
            Op::Rem(..) => 2,
            Op::RMin => 3,
            Op::RMax => 4,
            Op::IntoMonad => 5,
            Op::Probe(..) => 6,
            Op::FindMut(..) => 7,
            Op::PredMut(..) => 8,
            Op::SuccMut(..) => 9,
            Op::MinMut(..) => 10,
            Op::MaxMut(..) => 11,
            Op::Iter(..) => 12,
            Op::Snap => 13,
            Op::Swap => 14,
            Op::Handles(..) => 15,
            Op::Full => 16,
            Op::Clear => 17,
            Op::Assign => 18,
        }
    }
    pub fn key(&self) -> Option<u128> {
        match self {
            Op::Ins(k, _)
            | Op::Rem(k, _)
            | Op::Probe(k, _)
            | Op::FindMut(k, ..)
            | Op::PredMut(k, ..)
            | Op::SuccMut(k, ..)
            | Op::Handles(k) => Some(*k),
            _ => None,
        }
    }
    pub fn text(&self) -> String {
        match self {
            Op::Ins(k, v) => format!("insert {k:#x} {v}"),
            Op::Rem(k, h) => format!("remove {k:#x} {h}"),
            Op::RMin => "remove_min".into(),
            Op::RMax => "remove_max".into(),
            Op::IntoMonad => "into_monad".into(),
            Op::Probe(k, h) => format!("probe {k:#x} {h}"),
            Op::FindMut(k, h, w) => format!("find_mut {k:#x} {h} {w}"),
            Op::PredMut(k, h, w) => format!("pred_mut {k:#x} {h} {w}"),
            Op::SuccMut(k, h, w) => format!("succ_mut {k:#x} {h} {w}"),
            Op::MinMut(w) => format!("min_mut {w}"),
            Op::MaxMut(w) => format!("max_mut {w}"),
            Op::Iter(n, b, x) => format!("iter {n} {b:#x} {x}"),
            Op::Snap => "snap".into(),
            Op::Assign => "assign".into(),
            Op::Swap => "swap".into(),
            Op::Handles(k) => format!("handles {k:#x}"),
            Op::Full => "full".into(),
            Op::Clear => "clear".into(),
        }
    }
    pub fn parse(s: &str) -> Option<Op> {
        let w: Vec<&str> = s.split_whitespace().collect();
        let n = |i: usize| -> Option<u128> {
            let t = w.get(i)?;
            match t.strip_prefix("0x") {
                Some(h) => u128::from_str_radix(h, 16).ok(),
                None => t.parse().ok(),
            }
        };
        Some(match *w.first()? {
            "insert" => Op::Ins(n(1)?, n(2)? as u64),
            "remove" => Op::Rem(n(1)?, n(2)? as u8),
            "remove_min" => Op::RMin,
            "remove_max" => Op::RMax,
            "into_monad" => Op::IntoMonad,
            "probe" => Op::Probe(n(1)?, n(2)? as u8),
            "find_mut" => Op::FindMut(n(1)?, n(2)? as u8, n(3)? as u64),
            "pred_mut" => Op::PredMut(n(1)?, n(2)? as u8, n(3)? as u64),
            "succ_mut" => Op::SuccMut(n(1)?, n(2)? as u8, n(3)? as u64),
            "min_mut" => Op::MinMut(n(1)? as u64),
            "max_mut" => Op::MaxMut(n(1)? as u64),
            "iter" => Op::Iter(n(1)? as u16, n(2)? as u64, n(3)? as u8),
            "snap" => Op::Snap,
            "assign" => Op::Assign,
            "swap" => Op::Swap,
            "handles" => Op::Handles(n(1)?),
            "full" => Op::Full,
            "clear" => Op::Clear,
            _ => return None,
        })
    }
}
pub fn script(ops: &[Op]) -> String {
    let mut s = String::new();
    for o in ops {
        let _ = writeln!(s, "{}", o.text());
    }
    s
}

fn special(rng: &mut Rng, w: u32) -> u128 {
    let m = mask(w);
    let h = (m >> 1) + 1;
    let c = [0, 1, 2, m, m.wrapping_sub(1), h, h.wrapping_sub(1), h + 1, h / 2, m / 2, m / 4, m / 4 + 1, 127, 128, 129, 63, 64];
    if rng.chance(1, 3) {
        rng.u128() & m
    } else {
        *rng.pick(&c) & m
    }
}

/// where the key type splits, roughly
fn split_at(rng: &mut Rng, bits: u32) -> u32 {
    if bits < 2 {
        return bits;
    }
    if rng.chance(1, 2) {
        return bits / 2;
    }
    let unit = if bits > 16 && rng.chance(3, 4) { 8 } else { 1 };
    (1 + rng.below((bits / unit).max(2) as usize - 1) as u32) * unit
}

pub const SHAPES: usize = 11;
/// `n` keys (or fewer) below 2^bits
pub fn pool(rng: &mut Rng, bits: u32, n: usize, shape: usize) -> Vec<u128> {
    let m = mask(bits);
    let mut out: BTreeSet<u128> = BTreeSet::new();
    let n = if bits < 20 { n.min(1 << bits) } else { n };
    let mut tries = 0;
    let widths: Vec<u32> = [1, 2, 4, 8, 16, 32].into_iter().filter(|w| *w <= bits && bits % w == 0).collect();
    match shape {
        0 | 1 if !widths.is_empty() => {
            // digit alphabets
            let w = if shape == 0 && bits >= 16 { 8 } else { *rng.pick(&widths) };
            let d = bits / w;
            let per = 1 + rng.below(4);
            let alpha: Vec<Vec<u128>> = (0..d)
                .map(|_| {
                    let c = if rng.chance(1, 4) { 1 } else { per + rng.below(2) };
                    (0..c).map(|_| special(rng, w)).collect()
                })
                .collect();
            while out.len() < n && tries < 4 * n {
                tries += 1;
                out.insert(alpha.iter().fold(0, |a, al| (if w == 128 { 0 } else { a << w }) | *rng.pick(al)));
            }
        }
        2 => {
            let s = special(rng, bits).wrapping_sub(rng.below(n + 1) as u128);
            for i in 0..n as u128 {
                out.insert(s.wrapping_add(i) & m);
            }
        }
        3 | 4 => {
            let lo = split_at(rng, bits);
            let (few, many) = (1 + rng.below(3), n);
            let (nh, nl) = if shape == 3 { (few, many) } else { (many, few) };
            let run = rng.chance(1, 2);
            let part = |c: usize, w: u32, rng: &mut Rng| -> Vec<u128> {
                let s = special(rng, w);
                (0..c)
                    .map(|i| if run { s.wrapping_add(i as u128) & mask(w) } else { special(rng, w) })
                    .collect()
            };
            let his = part(nh, bits - lo, rng);
            let los = part(nl, lo, rng);
            while out.len() < n && tries < 4 * n {
                tries += 1;
                let h = *rng.pick(&his);
                let l = *rng.pick(&los);
                out.insert((if lo == 128 { 0 } else { h << lo }) | l);
            }
        }
        5 => {
            while out.len() < n && tries < 4 * n {
                tries += 1;
                out.insert(special(rng, bits));
            }
        }
        6 => {
            let base = special(rng, bits);
            out.insert(base);
            let w = if widths.is_empty() { 1 } else { *rng.pick(&widths) };
            while out.len() < n && tries < 4 * n && bits > 0 {
                tries += 1;
                let p = rng.below((bits / w).max(1) as usize) as u32 * w;
                let k = base & !(mask(w) << p) | special(rng, w) << p;
                out.insert(k & m);
            }
        }
        7 if bits >= 2 => {
            // equal halves, recursively
            while out.len() < n && tries < 4 * n {
                tries += 1;
                let mut w = bits;
                let depth = 1 + rng.below(4);
                for _ in 0..depth {
                    if w >= 2 && w % 2 == 0 {
                        w /= 2
                    }
                }
                let mut k = special(rng, w);
                let mut cw = w;
                while cw < bits {
                    let other = if rng.chance(1, 6) { special(rng, cw) } else { k };
                    k |= other << cw;
                    cw *= 2;
                }
                out.insert(k & m);
            }
        }
        8 if bits >= 1 => {
            let j = rng.below(bits as usize) as u32;
            let st = (1u128 << j).wrapping_add([0, 1, u128::MAX][rng.below(3)]).max(1);
            let s = special(rng, bits);
            for i in 0..n as u128 {
                out.insert(s.wrapping_add(st.wrapping_mul(i)) & m);
            }
        }
        10 if bits >= 2 => {
            // corners: extreme upper parts with extreme lower parts
            let lo = if rng.chance(1, 2) { bits / 2 } else { split_at(rng, bits).clamp(1, bits - 1) };
            let edge = |rng: &mut Rng, w: u32| {
                let (m, h) = (mask(w), (mask(w) >> 1) + 1);
                *rng.pick(&[0, 1, h - 1, h, h.wrapping_add(1), m - 1, m, h | h >> 1]) & m
            };
            while out.len() < n && tries < 4 * n {
                tries += 1;
                let (h, l) = (edge(rng, bits - lo), edge(rng, lo));
                out.insert(h << lo | l);
            }
        }
        _ => {
            while out.len() < n && tries < 4 * n {
                tries += 1;
                out.insert(rng.u128() & m);
            }
        }
    }
    if out.is_empty() {
        out.insert(special(rng, bits));
    }
    let mut v: Vec<u128> = out.into_iter().collect();
    rng.shuffle(&mut v);
    v
}

/// A query key: present, next to present, sharing a half with present, extreme or random.
pub fn query(rng: &mut Rng, bits: u32, set: &BTreeSet<u128>, pool: &[u128]) -> u128 {
    let m = mask(bits);
    let base = if !set.is_empty() && rng.chance(2, 3) {
        nth(set, rng.below(set.len()))
    } else {
        *rng.pick(pool)
    };
    match rng.below(10) {
        0 | 1 => base,
        2 => base.wrapping_add(1) & m,
        3 => base.wrapping_sub(1) & m,
        4 => {
            let lo = split_at(rng, bits);
            base & !mask(lo) | special(rng, lo)
        }
        5 => {
            let lo = split_at(rng, bits);
            let hi = special(rng, bits - lo);
            (if lo >= 128 { 0 } else { hi << lo }) & m | base & mask(lo)
        }
        6 => {
            if bits == 0 {
                0
            } else {
                base ^ (1 << rng.below(bits as usize))
            }
        }
        7 => special(rng, bits),
        8 => *rng.pick(pool),
        _ => rng.u128() & m,
    }
}
pub fn nth(set: &BTreeSet<u128>, i: usize) -> u128 {
    *set.iter().nth(i).unwrap()
}

/// Weights of the optional operation kinds; removals and insertions are steered by phase.
#[derive(Clone, Copy, Default)]
pub struct Mix {
    pub probe: usize,
    pub muts: usize,
    pub iter: usize,
    pub monad: usize,
    pub clone: usize,
    pub handles: usize,
    pub clear: usize,
}

pub fn history(rng: &mut Rng, c: &Config, mix: &Mix, len: usize, npool: usize, steer: (usize, usize)) -> Vec<Op> {
    let bits = c.bits;
    let mut shape = rng.below(SHAPES);
    if rng.chance(1, 3) {
        shape = 0;
    }
    let mut pl = pool(rng, bits, npool, shape);
    if rng.chance(1, 2) {
        pl.extend(pool(rng, bits, 1 + npool / 4, 10));
    }
    if rng.chance(1, 3) {
        let sh = rng.below(SHAPES);
        pl.extend(pool(rng, bits, 1 + npool / 4, sh));
    }
    let (mut a, mut b): (BTreeSet<u128>, BTreeSet<u128>) = Default::default();
    let (lo, hi) = steer;
    let mut target = lo + rng.below(hi - lo + 1);
    let mut id = rng.next() >> 24;
    let ends = rng.below(4); // preference for removals at the ends
    let mut ops = Vec::with_capacity(len);
    let opt = mix.probe + mix.muts + mix.iter + mix.monad + mix.clone + mix.handles + mix.clear;
    for _ in 0..len {
        id += 1;
        if a.len() == target || rng.chance(1, 40) {
            target = lo + rng.below(hi - lo + 1);
        }
        let how = rng.below(8).saturating_sub(4) as u8;
        let how = if how == 0 { rng.below(2) as u8 } else { how };
        if !a.is_empty() && opt > 0 && rng.chance(opt.min(90) as u32, 100) {
            let mut x = rng.below(opt);
            let mut take = |w: usize| {
                if x < w {
                    true
                } else {
                    x -= w;
                    false
                }
            };
            let k = query(rng, bits, &a, &pl);
            if take(mix.probe) {
                ops.push(Op::Probe(k, how));
            } else if take(mix.muts) {
                ops.push(match rng.below(5) {
                    0 => Op::FindMut(k, how, id),
                    1 => Op::PredMut(k, how, id),
                    2 => Op::SuccMut(k, how, id),
                    3 => Op::MinMut(id),
                    _ => Op::MaxMut(id),
                });
            } else if take(mix.iter) {
                let bias = rng.below(5);
                let w = match bias {
                    0 => 0,
                    1 => !0,
                    2 => 0xAAAA_AAAA_AAAA_AAAA,
                    3 => rng.next() & rng.next(),
                    _ => rng.next(),
                };
                let n = if rng.chance(1, 2) { a.len() + 4 } else { rng.below(a.len() + 3) };
                ops.push(Op::Iter(n.min(2000) as u16, w, rng.below(128) as u8));
            } else if take(mix.monad) {
                if a.len() == 1 {
                    a.clear();
                }
                ops.push(Op::IntoMonad);
            } else if take(mix.clone) {
                if !c.clone || rng.chance(2, 3) && !b.is_empty() {
                    std::mem::swap(&mut a, &mut b);
                    ops.push(Op::Swap);
                } else {
                    ops.push(if b.is_empty() || rng.chance(1, 2) { Op::Snap } else { Op::Assign });
                    b = a.clone();
                }
            } else if take(mix.handles) {
                ops.push(Op::Handles(k));
            } else {
                a.clear();
                ops.push(Op::Clear);
            }
            continue;
        }
        let grow = a.len() < target;
        let r = rng.below(100);
        let ins = if a.is_empty() {
            true
        } else if grow {
            r < 75
        } else {
            r < 25
        };
        if ins {
            let k = if rng.chance(1, 12) { query(rng, bits, &a, &pl) } else { *rng.pick(&pl) };
            a.insert(k);
            ops.push(Op::Ins(k, id));
        } else if rng.chance(1, 6) {
            let k = query(rng, bits, &a, &pl);
            a.remove(&k);
            ops.push(Op::Rem(k, how));
        } else if rng.below(4) < ends {
            if rng.chance(1, 2) {
                a.pop_first();
                ops.push(Op::RMin);
            } else {
                a.pop_last();
                ops.push(Op::RMax);
            }
        } else {
            let k = nth(&a, rng.below(a.len()));
            a.remove(&k);
            ops.push(Op::Rem(k, how));
        }
    }
    ops
}

/// Fill in a pattern, then drain in a pattern, with observations in between.
pub fn scenario(rng: &mut Rng, c: &Config, n: usize, every: usize) -> Vec<Op> {
    let sh = [0, 2, 2, 3, 4, 8, 9][rng.below(7)];
    let mut ks = pool(rng, c.bits, n, sh);
    if c.bits == 16 && rng.chance(1, 3) {
        // all 256 subtrees, few entries each
        ks = (0..256u128).flat_map(|h| [h << 8 | (h ^ 0x55), h << 8 | 0xff]).collect();
        rng.shuffle(&mut ks);
    }
    let mut id = rng.next() >> 24;
    let mut ops = Vec::new();
    let order = |rng: &mut Rng, v: &mut Vec<u128>| match rng.below(5) {
        0 => v.sort(),
        1 => v.sort_by(|a, b| b.cmp(a)),
        2 => v.sort_by_key(|k| k.reverse_bits()),
        3 => {
            v.sort();
            // outside in
            let mut o = Vec::new();
            let (mut i, mut j) = (0, v.len());
            while i < j {
                o.push(v[i]);
                i += 1;
                if i < j {
                    j -= 1;
                    o.push(v[j]);
                }
            }
            if rng.chance(1, 2) {
                o.reverse();
            }
            *v = o;
        }
        _ => rng.shuffle(v),
    };
    order(rng, &mut ks);
    for (i, k) in ks.iter().enumerate() {
        id += 1;
        ops.push(Op::Ins(*k, id));
        if every > 0 && i % every == every - 1 {
            ops.push(Op::Full);
        }
    }
    ops.push(Op::Full);
    let how = rng.below(5);
    if how < 3 {
        for i in 0..ks.len() {
            ops.push(match how {
                0 => Op::RMin,
                1 => Op::RMax,
                _ => {
                    if rng.chance(1, 2) {
                        Op::RMin
                    } else {
                        Op::RMax
                    }
                }
            });
            if every > 0 && i % every == every - 1 {
                ops.push(Op::Full);
            }
        }
    } else {
        order(rng, &mut ks);
        for (i, k) in ks.iter().enumerate() {
            ops.push(Op::Rem(*k, (i % 2) as u8));
            if rng.chance(1, 16) {
                ops.push(Op::Rem(*k, 0));
            }
            if every > 0 && i % every == every - 1 {
                ops.push(Op::Full);
            }
        }
    }
    ops
}

/// A tree with every subtree of its top level present (`2^(bits/2)` of them, at most 65536): filled,
/// kept near full under churn, half drained from both ends, the rest removed at random.
pub fn multitude(rng: &mut Rng, bits: u32) -> Vec<Op> {
    let lo = bits.div_ceil(2).max(bits.saturating_sub(16));
    let his = 1u128 << (bits - lo);
    let mut id = rng.next() >> 24;
    let mut next = || {
        id += 1;
        id
    };
    let low = |h: u128, i: u128| (h.wrapping_mul(0x9E37_79B9) ^ (i * 0x5bd1)) & mask(lo);
    // one entry in most subtrees, several in some; the least and greatest entries
    // of the whole tree sit outside its collection, so the outer subtrees get more
    let mut ks: Vec<u128> = (0..his).map(|h| h << lo | low(h, 1)).collect();
    ks.extend([0, mask(bits)]);
    for h in (0..his).filter(|h| h % 7 == 3 || *h == 0 || *h == his - 1) {
        ks.extend([h << lo | low(h, 3), h << lo | low(h, 4)]);
    }
    ks.sort_unstable();
    ks.dedup();
    match rng.below(4) {
        0 => {}
        1 => ks.reverse(),
        _ => rng.shuffle(&mut ks),
    }
    let mut ops: Vec<Op> = ks.iter().map(|k| Op::Ins(*k, next())).collect();
    let few: Vec<u128> = (0..40).map(|_| *rng.pick(&ks)).collect();
    // with every subtree present: entries go from and come back to crowded subtrees
    let pairs: Vec<u128> = few.iter().map(|k| k >> lo << lo | low(k >> lo, 5)).collect();
    for p in &pairs[..20] {
        ops.extend([Op::Ins(*p, next()), Op::Probe(*p, 0), Op::Rem(*p, 0)]);
    }
    for p in &pairs[..20] {
        ops.extend([Op::Ins(*p, next()), Op::Rem(*p ^ 1, 0), Op::Rem(*p, 1)]);
    }
    ops.extend([Op::RMin, Op::Ins(0, next()), Op::RMax, Op::Ins(mask(bits), next())]);
    let churn = |rng: &mut Rng, ops: &mut Vec<Op>, next: &mut dyn FnMut() -> u64| {
        for k in &few {
            let h = k >> lo;
            match rng.below(5) {
                0 => ops.push(Op::Rem(*k, 1)),
                1 => ops.push(Op::Ins(h << lo | low(h, 2), next())),
                2 => ops.push(Op::Ins(*k, next())),
                3 => ops.push(Op::Rem(h << lo | low(h, 2), 0)),
                _ => ops.push(Op::Probe(*k ^ 1, 1)),
            }
        }
        ops.extend([Op::RMin, Op::RMax, Op::Iter(50, 0x5a5a, 1), Op::IntoMonad]);
    };
    churn(rng, &mut ops, &mut next);
    ops.push(Op::Full);
    churn(rng, &mut ops, &mut next);
    // fill the holes again, then empty
    for k in &few {
        ops.push(Op::Ins(*k, next()));
    }
    for _ in 0..his / 4 {
        ops.push(if rng.chance(1, 2) { Op::RMin } else { Op::RMax });
    }
    ops.push(Op::Full);
    rng.shuffle(&mut ks);
    for k in &ks {
        ops.push(Op::Rem(*k, 0));
    }
    for k in &few {
        ops.push(Op::Rem((k >> lo) << lo | low(k >> lo, 2), 0));
    }
    for _ in 0..20 {
        ops.push(Op::RMin);
    }
    ops
}

/// `n` keys arranged over several subtrees, for exhaustive walks.
pub fn universe(rng: &mut Rng, bits: u32, n: usize) -> Vec<u128> {
    for _ in 0..50 {
        let mut out: BTreeSet<u128> = BTreeSet::new();
        if bits <= 3 || rng.chance(1, 4) {
            let sh = rng.below(SHAPES);
            out.extend(pool(rng, bits, n, sh));
        } else {
            // recursive: k his x l los, the los again structured
            let lo = if rng.chance(2, 3) { bits / 2 } else { split_at(rng, bits).min(bits - 1) };
            let nh = 2 + rng.below(4);
            let mut his = BTreeSet::new();
            for _ in 0..20 {
                if his.len() < nh {
                    his.insert(special(rng, bits - lo));
                }
            }
            let his: Vec<u128> = his.into_iter().collect();
            let sh = rng.below(SHAPES);
            let los = pool(rng, lo, n.div_ceil(his.len()) + 1, sh);
            for _ in 0..200 {
                if out.len() < n {
                    out.insert(*rng.pick(&his) << lo | *rng.pick(&los));
                }
            }
        }
        let v: Vec<u128> = out.into_iter().take(n).collect();
        if v.len() == n || bits <= 3 {
            return v;
        }
    }
    let sh = 9;
    pool(rng, bits, n, sh)
}

/// Every edge of the graph (subset of the universe) x (toggle one key | remove_min | remove_max),
/// walked from subset to subset in Gray-code order. One history.
pub fn exhaustive(rng: &mut Rng, keys: &[u128]) -> Vec<Op> {
    let n = keys.len();
    let mut ks = keys.to_vec();
    rng.shuffle(&mut ks);
    let mut id = rng.next() >> 24;
    let mut cur = vec![false; n];
    let mut ops = Vec::new();
    let mut toggle = |i: usize, cur: &mut Vec<bool>, ops: &mut Vec<Op>, how: u8| {
        id += 1;
        if cur[i] {
            ops.push(Op::Rem(ks[i], how));
        } else {
            ops.push(Op::Ins(ks[i], id));
        }
        cur[i] = !cur[i];
    };
    for g in 0u32..1 << n {
        for i in 0..n {
            toggle(i, &mut cur, &mut ops, (i % 2) as u8);
            toggle(i, &mut cur, &mut ops, 0);
        }
        let pos = |cur: &Vec<bool>, max: bool| {
            let it = (0..n).filter(|i| cur[*i]);
            if max {
                it.max_by_key(|i| ks[*i])
            } else {
                it.min_by_key(|i| ks[*i])
            }
        };
        for max in [false, true] {
            if let Some(i) = pos(&cur, max) {
                ops.push(if max { Op::RMax } else { Op::RMin });
                cur[i] = false;
                toggle(i, &mut cur, &mut ops, 0);
            }
        }
        if g + 1 < 1 << n {
            let i = (g + 1).trailing_zeros() as usize;
            toggle(i, &mut cur, &mut ops, 0);
        }
    }
    ops
}
