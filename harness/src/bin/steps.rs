//! C17: machine instructions per operation, read off by callgrind (client requests mark the
//! batches), for trees of growing size. Prints one line per batch; the driver pairs it with the
//! counts callgrind dumps and `--judge` style rules live there.
use std::collections::BTreeSet;
use veb_tree::markers::*;
use vebmon::cfgs;
use vebmon::configs::*;
use vebmon::dynt::{Ad, DynTree, Ext};
use vebmon::gen;
use vebmon::host::Args;
use vebmon::keys::mask;
use vebmon::rng::{hash_str, mix2, Rng};

#[cfg(target_arch = "x86_64")]
fn request(code: u64, arg: *const u8) -> u64 {
    let args: [u64; 6] = [code, arg as u64, 0, 0, 0, 0];
    let mut res: u64 = 0;
    unsafe {
        std::arch::asm!(
            "rol rdi, 3", "rol rdi, 13", "rol rdi, 61", "rol rdi, 51", "xchg rbx, rbx",
            in("rax") &args, inout("rdx") res, inout("rdi") 0u64 => _,
        );
    }
    std::hint::black_box(&args);
    res
}
#[cfg(not(target_arch = "x86_64"))]
fn request(_: u64, _: *const u8) -> u64 {
    0
}
const BASE: u64 = (b'C' as u64) << 24 | (b'T' as u64) << 16;
fn start() {
    request(BASE + 4, std::ptr::null());
}
fn stop() {
    request(BASE + 5, std::ptr::null());
}
fn batch(label: &str, f: impl FnOnce()) {
    let l = format!("{label}\0");
    request(BASE + 1, std::ptr::null());
    f();
    request(BASE + 3, l.as_ptr());
}

fn all() -> Vec<Config> {
    cfgs! {
        "u64/btree": u64, u64, Bt, clone, len; LEAF
        "u64/hash": u64, u64, Hash<H32E, H32>; 0
        "u64/sized-hash": u64, u64, SizedM<Hash<H32E, H32>>, sized; SIZED
        "u32/hash-array": u32, u64, A32; 0
        "u16/marker16": u16, u64, Marker16; 0
        "u16/bytecoll": u16, u64, B16; 0
        "u16/boxcoll-hash": u16, u64, BoxHash<Bs, Bm>; 0
        "u8/bytemap": u8, u64, Bm; LEAF
    }
}

const N: usize = 32;

/// C28: the iterators of a tree of `n` entries: making and dropping one, its first steps, steps
/// after a third of the entries has come from each end, and walking it whole.
fn iteration(t: &dyn DynTree, cfg: &str, n: usize) -> usize {
    let m = N.min(n / 3);
    if m == 0 {
        return 0;
    }
    let run = |op: &str, k: usize, f: &mut dyn FnMut()| batch(&format!("{cfg}|{n}|{op}|{k}"), || f());
    start();
    run("iter and drop", N, &mut || {
        for _ in 0..N {
            std::hint::black_box(&t.iter());
        }
    });
    run("first next", N, &mut || {
        for _ in 0..N {
            std::hint::black_box(t.iter().next());
        }
    });
    run("first next_back", N, &mut || {
        for _ in 0..N {
            std::hint::black_box(t.iter().next_back());
        }
    });
    let mut it = t.iter();
    stop();
    for _ in 0..n / 3 {
        it.next();
    }
    start();
    run("iterator's size_hint", N, &mut || {
        for _ in 0..N {
            std::hint::black_box(it.size_hint());
        }
    });
    run("next far from the front", m, &mut || {
        for _ in 0..m {
            std::hint::black_box(it.next());
        }
    });
    stop();
    let mut it = t.iter();
    for _ in 0..n / 3 {
        it.next_back();
    }
    start();
    run("next_back far from the back", m, &mut || {
        for _ in 0..m {
            std::hint::black_box(it.next_back());
        }
    });
    stop();
    for _ in 0..n / 4 {
        it.next();
    }
    let m = m.min(n - n / 3 - m - n / 4);
    start();
    if m > 0 {
        run("next and next_back in turn", m, &mut || {
            for i in 0..m {
                std::hint::black_box(if i % 2 == 0 { it.next() } else { it.next_back() });
            }
        });
    }
    run("whole iteration", n, &mut || {
        let mut it = t.iter();
        while let Some(x) = it.next() {
            std::hint::black_box(x);
        }
    });
    run("whole iteration backwards", n, &mut || {
        let mut it = t.iter();
        while let Some(x) = it.next_back() {
            std::hint::black_box(x);
        }
    });
    run("count", n, &mut || {
        std::hint::black_box(t.iter().count());
    });
    stop();
    4 * N + 3 * m + 3 * n
}

fn main() {
    let a = Args::parse();
    let seed = a.num("seed", 1);
    let big = a.num("big", 12_000) as usize;
    let (shard, shards) = (a.num("shard", 0), a.num("shards", 1));
    let mut ops = 0;
    for (ci, c) in all().iter().enumerate() {
        if ci as u64 % shards != shard {
            continue;
        }
        for (n, pat) in [2usize, 12, 100, 1200, big].into_iter().flat_map(|n| ["random", "every second", "columns"].map(|p| (n, p))) {
            let room = c.bits.min(40) - 1;
            if n > 1 << if pat == "columns" { room.min(c.bits / 2) } else { room } {
                continue;
            }
            let rng = &mut Rng::new(mix2(mix2(seed, hash_str(c.name)), mix2(n as u64, hash_str(pat))));
            let mut set: BTreeSet<u128> = BTreeSet::new();
            let at = rng.u128();
            let mut i = 0u128;
            while set.len() < n {
                set.insert(mask(c.bits) & match pat {
                    // as many subtrees near the root as the width allows
                    "random" => rng.u128(),
                    // as few
                    "every second" => at.wrapping_add(2 * i),
                    // one entry in each subtree, the same in all
                    _ => at.wrapping_add(i << (c.bits / 2)),
                });
                i += 1;
            }
            let mut order: Vec<u128> = set.iter().copied().collect();
            // in ascending order every other time
            if pat == "random" || n % 3 == 0 {
                rng.shuffle(&mut order);
            }
            let cfg = if pat == "random" { c.name.to_string() } else { format!("{} {pat}", c.name) };
            let mut t = (c.mk)(order[0], 1);
            for k in &order[1..] {
                t.insert(*k, 2);
            }
            let t = &mut *t;
            let mut fresh = vec![];
            while fresh.len() < N {
                let k = if rng.chance(1, 3) { order[rng.below(n)] ^ 1 << rng.below(c.bits as usize) } else { rng.u128() & mask(c.bits) };
                if !set.contains(&k) && !fresh.contains(&k) {
                    fresh.push(k);
                }
            }
            let members: Vec<u128> = (0..N).map(|_| *rng.pick(&order)).collect();
            let near: Vec<u128> = (0..N).map(|i| if i % 2 == 0 { members[i] } else { fresh[i] }).collect();
            // let tables reach the capacity they need
            for k in &fresh {
                t.insert(*k, 3);
            }
            for k in &fresh {
                t.remove(*k, 1);
            }
            if a.str("what", "") == "iter" {
                ops += iteration(t, &cfg, n);
                continue;
            }
            start();
            let lab = |op: &str| format!("{}|{}|{}|{}", cfg, n, op, N);
            let each = |op: &str, ks: &[u128], f: &mut dyn FnMut(u128)| {
                batch(&lab(op), || {
                    for k in ks {
                        f(*k)
                    }
                })
            };
            each("nothing", &near, &mut |_| {});
            each("find", &near, &mut |k| { std::hint::black_box(t.find(k, 1)); });
            each("find_mut", &near, &mut |k| { std::hint::black_box(t.find_mut(k, 1, None)); });
            each("predecessor", &near, &mut |k| { std::hint::black_box(t.pred(k, 1)); });
            each("predecessor_mut", &near, &mut |k| { std::hint::black_box(t.pred_mut(k, 1, None)); });
            each("successor", &near, &mut |k| { std::hint::black_box(t.succ(k, 1)); });
            each("successor_mut", &near, &mut |k| { std::hint::black_box(t.succ_mut(k, 1, None)); });
            each("min_val", &near, &mut |_| { std::hint::black_box(t.min()); });
            each("max_val", &near, &mut |_| { std::hint::black_box(t.max()); });
            each("min_val_mut", &near, &mut |_| { std::hint::black_box(t.min_mut(None)); });
            each("max_val_mut", &near, &mut |_| { std::hint::black_box(t.max_mut(None)); });
            each("is_monad", &near, &mut |_| { std::hint::black_box(t.is_monad()); });
            each("len_hint", &near, &mut |_| { std::hint::black_box(t.len_hint()); });
            each("len", &near, &mut |_| { std::hint::black_box(t.exact_len()); });
            each("failed into_monad", &near, &mut |_| { let _ = std::hint::black_box(t.into_monad()); });
            each("remove absent", &fresh, &mut |k| { std::hint::black_box(t.remove(k, 1)); });
            each("insert existing", &members, &mut |k| { std::hint::black_box(t.insert(k, 5)); });
            each("insert new", &fresh, &mut |k| { std::hint::black_box(t.insert(k, 4)); });
            each("remove", &fresh, &mut |k| { std::hint::black_box(t.remove(k, 1)); });
            let m = N.min(n.saturating_sub(1));
            if m > 4 {
                let mut out = vec![];
                batch(&format!("{}|{}|remove_min|{m}", cfg, n), || {
                    for _ in 0..m / 2 {
                        out.push(t.remove_min());
                    }
                    for _ in 0..m - m / 2 {
                        out.push(t.remove_min());
                    }
                });
                stop();
                for k in &order {
                    t.insert(*k, 6);
                }
                start();
                batch(&format!("{}|{}|remove_max|{m}", cfg, n), || {
                    for _ in 0..m {
                        out.push(t.remove_max());
                    }
                });
                std::hint::black_box(&out);
            }
            let left = t.iter().count();
            let mut copy = None;
            batch(&format!("{}|{}|clone, per entry|{left}", cfg, n), || copy = t.try_clone());
            drop(copy);
            batch(&format!("{}|{}|drop, per entry|{left}", cfg, n), || t.clear());
            stop();
            ops += 19 * N + 2 * m;
        }
    }
    let _ = gen::SHAPES;
    println!("operations {ops}");
}
