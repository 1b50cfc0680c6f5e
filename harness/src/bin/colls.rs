//! C20 (collections of subtrees), C21 (ranked lists), C22 (byte sets), driven directly.
use veb_tree::key::U4;
use veb_tree::markers::Marker16;
use std::collections::{BTreeMap, HashSet, VecDeque};
use std::fmt::Debug;
use std::panic::{catch_unwind, AssertUnwindSafe};
use veb_tree::bitset::{ByteCollectionMarker, ByteMap, ByteSet, List, TreeList, VecDequeMarker};
use veb_tree::collection::array::{ArrayTreeCollectionMarker, GenericArrayMarker};
use veb_tree::collection::hash::HashMapMarker;
use veb_tree::collection::{TreeCollection, VebTreeCollectionMarker};
use veb_tree::markers::BoxMarker;
use veb_tree::{Iter, VebTree};
use vebmon::configs::*;
use vebmon::engine::{last_panic, quiet_panics, BEAT};
use vebmon::host::*;
use vebmon::keys::*;
use vebmon::rng::{hash_str, mix2, Rng};
use vebmon::tok::{self, Tok, Val};

type R<T = ()> = Result<T, String>;
type Content = Vec<(u128, u64)>;

fn eq<T: PartialEq + Debug>(what: &str, got: T, exp: T) -> R {
    if got == exp {
        Ok(())
    } else {
        Err(format!("{what}: got {got:x?}, expected {exp:x?}"))
    }
}

struct Mon {
    seed: u64,
    distinct: HashSet<u64>,
    out: Output,
    j: Journal,
    prop: String,
    /// only what shows misused memory counts
    ub: bool,
    steps: u64,
}
impl Mon {
    fn note(&mut self, h: u64) {
        self.steps += 1;
        if self.distinct.len() < 400_000 {
            self.distinct.insert(h);
        }
    }
    fn fail(&mut self, what: String, replay: String) {
        if self.ub && !tok::misuse(&what) {
            return;
        }
        if self.out.violations.len() < 6 {
            self.out.violations.push(Violation { what: what.clone(), replay: format!("#veb-replay colls\n#prop {}\n{replay}\n# {what}\n", self.prop) });
        }
    }
}

// ---- C20 --------------------------------------------------------------------------------
type Model = BTreeMap<u128, BTreeMap<u128, u64>>;

fn content<T>(t: &T) -> R<Content>
where
    T: VebTree,
    T::Key: Kc,
    T::Value: Val,
{
    let v: Content = Iter::from(t).take(600).map(|(k, v)| (k.dec(), v.rd())).collect();
    eq("number of entries against is_monad", t.is_monad(), v.len() == 1)?;
    Ok(v)
}
fn want(m: &BTreeMap<u128, u64>) -> Content {
    m.iter().map(|(k, v)| (*k, *v)).collect()
}

fn same<C>(c: &mut C, m: &Model, probes: &[u128]) -> R<u64>
where
    C: TreeCollection,
    C::Hi: Kc,
    <C::Tree as VebTree>::Key: Kc,
    <C::Tree as VebTree>::Value: Val,
{
    let mut n = 0;
    for h in m.keys().chain(probes) {
        let k = C::Hi::enc(*h);
        match (c.get(&k), m.get(h)) {
            (None, None) => {}
            (Some(t), Some(e)) => eq(&format!("subtree at {h:#x}"), content(t)?, want(e))?,
            (g, _) => return Err(format!("get({h:#x}) finds a subtree: {}, expected {}", g.is_some(), m.contains_key(h))),
        }
        match (c.get_mut(&k), m.get(h)) {
            (None, None) => {}
            (Some(t), Some(e)) => eq(&format!("subtree through get_mut at {h:#x}"), content(t)?, want(e))?,
            (g, _) => return Err(format!("get_mut({h:#x}) finds a subtree: {}, expected {}", g.is_some(), m.contains_key(h))),
        }
        n += 2;
    }
    Ok(n)
}

fn history<C>(seed: u64, len: usize, log: &mut Vec<String>, note: &mut dyn FnMut(u64), obs: &mut u64) -> R
where
    C: TreeCollection,
    C::Hi: Kc,
    <C::Tree as VebTree>::Key: Kc,
    <C::Tree as VebTree>::Value: Val,
{
    tok::reset();
    kl_reset();
    let r = &mut Rng::new(seed);
    let (hb, lb) = (<C::Hi as Kc>::BITS, <<C::Tree as VebTree>::Key as Kc>::BITS);
    let vm = <<C::Tree as VebTree>::Value as Val>::MASK;
    let sh = [0, 2, 5, 8, 9, 5][r.below(6)];
    let nh = *r.pick(&[3, 8, 24, 70, 256]);
    let nh = 1 + r.below(nh);
    let his = vebmon::gen::pool(r, hb, nh, sh);
    let nl = 1 + r.below(6);
    let los = vebmon::gen::pool(r, lb, nl, 5);
    let mut id = r.next() >> 20;
    let mut c: Option<C> = None;
    let mut m: Model = Model::new();
    let dense = r.chance(1, 3);
    for _ in 0..len {
        BEAT.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        id += 1;
        let any = *r.pick(&his);
        let present = if m.is_empty() { any } else { *m.keys().nth(r.below(m.len())).unwrap() };
        let h = if r.chance(1, 2) { present } else { any };
        let l = *r.pick(&los);
        let v = id & vm;
        let mut state = m.iter().fold(1, |a, (h, t)| a ^ mix2(*h as u64, t.keys().fold(3, |a, l| mix2(a, *l as u64))));
        let Some(mut cur) = c.take() else {
            // a collection made from one subtree, of one or more entries
            let mut t = C::Tree::from_monad(Kc::enc(l), Val::mk(v));
            let mut e = BTreeMap::from([(l, v)]);
            log.push(format!("create({any:#x}, [{l:#x}:{v:x}..])"));
            for _ in 0..r.below(4) {
                let l = *r.pick(&los);
                id += 1;
                t.insert(Kc::enc(l), Val::mk(id & vm));
                e.insert(l, id & vm);
            }
            m.insert(any, e);
            c = Some(C::create(&C::Hi::enc(any), t));
            let cc = c.as_mut().unwrap();
            *obs += same(cc, &m, &his)?;
            continue;
        };
        let op = r.below(if dense && m.len() < his.len() { 5 } else { 10 });
        state = mix2(mix2(state, op as u64), mix2(h as u64, l as u64));
        if m.len() >= 2 {
            note(state);
        }
        match op {
            0..=4 => {
                let h = if op < 3 { any } else { h };
                log.push(format!("insert_key({h:#x}, ({l:#x}, {v:x}))"));
                let known = m.contains_key(&h);
                let e = m.entry(h).or_default().insert(l, v);
                match cur.insert_key(C::Hi::enc(h), (Kc::enc(l), Val::mk(v))) {
                    Ok(k) => {
                        eq("insert_key reports the position as new", true, !known)?;
                        eq("position handed back", k.dec(), h)?;
                    }
                    Err((k, old)) => {
                        eq("insert_key reports the position as new", false, !known)?;
                        eq("position handed back", k.dec(), h)?;
                        eq("replaced entry", old.map(|(k, v)| (k.dec(), v.rd())), e.map(|v| (l, v)))?;
                    }
                }
                c = Some(cur);
            }
            5 | 6 => {
                // remove_key: the position is present and the callback removes one entry
                let h = present;
                let how = r.below(3);
                let e = m.get_mut(&h).unwrap();
                let (k, _) = match how {
                    0 => e.first_key_value().unwrap(),
                    1 => e.last_key_value().unwrap(),
                    _ => e.iter().nth(r.below(e.len())).unwrap(),
                };
                let k = *k;
                let before = want(e);
                let val = BTreeMap::remove(e, &k).unwrap();
                let emptied = e.is_empty();
                if emptied {
                    BTreeMap::remove(&mut m, &h);
                }
                log.push(format!("remove_key({h:#x}, removing {k:#x})"));
                let (mut calls, mut seen) = (0, Ok(vec![]));
                let cb = |t: C::Tree| {
                    calls += 1;
                    seen = content(&t);
                    match how {
                        0 => t.remove_min(),
                        1 => t.remove_max(),
                        _ => t.remove(<<C::Tree as VebTree>::Key as Kc>::enc(k)).ok().expect("entry present"),
                    }
                };
                let key = C::Hi::enc(h);
                let (rest, kv) = if r.chance(1, 2) { cur.remove_key(&key, cb) } else { cur.remove_key(key, cb) };
                eq("callback calls", calls, 1)?;
                eq("subtree given to the callback", seen?, before)?;
                eq("removed entry", (kv.0.dec(), kv.1.rd()), (k, val))?;
                match rest {
                    None => eq("collection gone", true, m.is_empty())?,
                    Some((cc, removed)) => {
                        eq("collection gone", false, m.is_empty())?;
                        eq("subtree reported emptied", removed, emptied)?;
                        c = Some(cc);
                    }
                }
            }
            7 | 8 => {
                // maybe_remove_key: present or absent position, present or absent entry
                log.push(format!("maybe_remove_key({h:#x}, removing {l:#x})"));
                let here = m.get(&h).map(want);
                let hit = m.get_mut(&h).and_then(|e| BTreeMap::remove(e, &l));
                let mut emptied = false;
                if m.get(&h).is_some_and(|e| e.is_empty()) {
                    BTreeMap::remove(&mut m, &h);
                    emptied = true;
                }
                let (mut calls, mut seen) = (0, Ok(vec![]));
                let cb = |t: C::Tree| {
                    calls += 1;
                    seen = content(&t);
                    t.remove(<<C::Tree as VebTree>::Key as Kc>::enc(l))
                };
                let key = C::Hi::enc(h);
                let res = if r.chance(1, 2) { cur.maybe_remove_key(&key, cb) } else { cur.maybe_remove_key(key, cb) };
                eq("callback calls", calls, here.is_some() as i32)?;
                if let Some(e) = here {
                    eq("subtree given to the callback", seen?, e)?;
                }
                match res {
                    Err(cc) => {
                        eq("nothing found", true, hit.is_none())?;
                        c = Some(cc);
                    }
                    Ok((rest, kv)) => {
                        eq("nothing found", false, hit.is_none())?;
                        eq("removed entry", (kv.0.dec(), kv.1.rd()), (l, hit.unwrap()))?;
                        match rest {
                            None => eq("collection gone", true, m.is_empty())?,
                            Some((cc, removed)) => {
                                eq("collection gone", false, m.is_empty())?;
                                eq("subtree reported emptied", removed, emptied)?;
                                c = Some(cc);
                            }
                        }
                    }
                }
            }
            _ => {
                log.push(format!("get_mut({h:#x}) then insert ({l:#x}, {v:x})"));
                let g = cur.get_mut(&C::Hi::enc(h));
                eq("get_mut finds a subtree", g.is_some(), m.contains_key(&h))?;
                if let Some(t) = g {
                    t.insert(Kc::enc(l), Val::mk(v));
                    m.get_mut(&h).unwrap().insert(l, v);
                }
                c = Some(cur);
            }
        }
        if let Some(cc) = &mut c {
            let near: Vec<u128> = his.iter().copied().chain([h ^ 1, 0, mask(hb), h.wrapping_add(1) & mask(hb)].map(|x| x & mask(hb))).take(12).collect();
            *obs += same(cc, &m, &near)?;
        }
    }
    Ok(())
}

/// Many positions at once (every position of the type if there are at most `cap`): filled, kept
/// near full under churn, and emptied to the last one.
fn crowd<C>(seed: u64, cap: usize, log: &mut Vec<String>, note: &mut dyn FnMut(u64), obs: &mut u64) -> R
where
    C: TreeCollection,
    C::Hi: Kc,
    <C::Tree as VebTree>::Key: Kc,
    <C::Tree as VebTree>::Value: Val,
{
    tok::reset();
    kl_reset();
    let r = &mut Rng::new(seed);
    let (hb, lb) = (<C::Hi as Kc>::BITS, <<C::Tree as VebTree>::Key as Kc>::BITS);
    let vm = <<C::Tree as VebTree>::Value as Val>::MASK;
    let mut ps: Vec<u128> = if hb <= 16 && 1usize << hb <= cap {
        (0..1u128 << hb).collect()
    } else {
        let n = cap.min(1500);
        vebmon::gen::pool(r, hb, n, 9)
    };
    r.shuffle(&mut ps);
    log.push(format!("{} positions", ps.len()));
    let mut id = r.next() >> 20;
    let los = [0, mask(lb), mask(lb) >> 1];
    let mut m: Model = Model::new();
    let mut c: Option<C> = None;
    let look = |c: &mut C, m: &Model, h: u128| -> R {
        let k = C::Hi::enc(h);
        match (c.get(&k), m.get(&h)) {
            (None, None) => {}
            (Some(t), Some(e)) => eq(&format!("subtree at {h:#x}"), content(t)?, want(e))?,
            (g, _) => return Err(format!("get({h:#x}) finds a subtree: {}, expected {}", g.is_some(), m.contains_key(&h))),
        }
        eq(&format!("get_mut({h:#x}) finds a subtree"), c.get_mut(&k).is_some(), m.contains_key(&h))
    };
    let put = |c: &mut Option<C>, m: &mut Model, h: u128, l: u128, v: u64| -> R {
        let known = m.contains_key(&h);
        let e = m.entry(h).or_default().insert(l, v);
        match c {
            None => *c = Some(C::create(&C::Hi::enc(h), C::Tree::from_monad(Kc::enc(l), Val::mk(v)))),
            Some(c) => match c.insert_key(C::Hi::enc(h), (Kc::enc(l), Val::mk(v))) {
                Ok(k) => eq("insert_key: new position, handed back", (true, k.dec()), (!known, h))?,
                Err((k, old)) => {
                    eq("insert_key: known position, handed back", (true, k.dec()), (known, h))?;
                    eq("replaced entry", old.map(|(k, v)| (k.dec(), v.rd())), e.map(|v| (l, v)))?;
                }
            },
        }
        Ok(())
    };
    // remove the smallest entry at a present position, by either form
    let take = |c: &mut Option<C>, m: &mut Model, h: u128, maybe: bool| -> R {
        let e = m.get_mut(&h).ok_or("harness: position unknown")?;
        let (k, v) = e.pop_first().ok_or("harness: empty subtree")?;
        let emptied = e.is_empty();
        if emptied {
            BTreeMap::remove(m, &h);
        }
        let cur = c.take().ok_or("harness: no collection")?;
        let key = C::Hi::enc(h);
        let mut calls = 0;
        let (rest, kv) = if maybe {
            let cb = |t: C::Tree| {
                calls += 1;
                t.remove(<<C::Tree as VebTree>::Key as Kc>::enc(k))
            };
            match cur.maybe_remove_key(&key, cb) {
                Ok(x) => x,
                Err(_) => return Err(format!("maybe_remove_key({h:#x}) finds nothing")),
            }
        } else {
            cur.remove_key(&key, |t: C::Tree| {
                calls += 1;
                t.remove_min()
            })
        };
        eq("callback calls", calls, 1)?;
        eq("removed entry", (kv.0.dec(), kv.1.rd()), (k, v))?;
        let left = m.len();
        match rest {
            None => eq(&format!("collection gone with {left} subtrees left"), true, m.is_empty())?,
            Some((cc, removed)) => {
                eq("collection left with no subtree", m.is_empty(), false)?;
                eq("subtree reported emptied", removed, emptied)?;
                *c = Some(cc);
            }
        }
        Ok(())
    };
    for (i, h) in ps.iter().enumerate() {
        BEAT.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        id += 1;
        put(&mut c, &mut m, *h, los[0], id & vm)?;
        if i % 3 == 0 {
            put(&mut c, &mut m, *h, los[1], (id + 7) & vm)?;
        }
        *obs += 2;
    }
    // churn with all, all but one, all but a few positions occupied
    let all = ps.len();
    for i in 0..60usize {
        BEAT.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        let h = *r.pick(&ps);
        id += 1;
        let what = r.below(6);
        log.push(format!("{what} at {h:#x}, {} of {all} positions occupied", m.len()));
        note(mix2(mix2(all as u64, h as u64), mix2(what as u64, (all - m.len()) as u64)));
        match what {
            0 | 1 if m.contains_key(&h) && m.len() > 1 => take(&mut c, &mut m, h, what == 0)?,
            2 => put(&mut c, &mut m, h, los[2], id & vm)?,
            3 => {
                // nothing to find: the entry is absent
                let cur = c.take().ok_or("harness: no collection")?;
                let l = los[0] ^ 2 & mask(lb);
                let hit = m.get(&h).is_some_and(|e| e.contains_key(&l));
                if hit {
                    c = Some(cur);
                } else {
                    match cur.maybe_remove_key(&C::Hi::enc(h), |t: C::Tree| t.remove(<<C::Tree as VebTree>::Key as Kc>::enc(l))) {
                        Err(cc) => c = Some(cc),
                        Ok(_) => return Err(format!("maybe_remove_key({h:#x}) removes the absent {l:#x}")),
                    }
                }
            }
            _ => {
                if let Some(h) = ps.iter().find(|h| !m.contains_key(h)) {
                    put(&mut c, &mut m, *h, los[0], id & vm)?;
                }
            }
        }
        let cc = c.as_mut().ok_or("collection gone")?;
        look(cc, &m, h)?;
        for _ in 0..4 {
            look(cc, &m, *r.pick(&ps))?;
        }
        *obs += 10;
        if i == 30 {
            for h in ps.iter().take(3000) {
                look(cc, &m, *h)?;
                *obs += 2;
            }
        }
    }
    let order = r.below(3);
    match order {
        0 => ps.sort(),
        1 => ps.sort_by(|a, b| b.cmp(a)),
        _ => r.shuffle(&mut ps),
    }
    for h in &ps {
        BEAT.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        while m.contains_key(h) {
            take(&mut c, &mut m, *h, id & 1 == 0)?;
            id += 1;
            *obs += 2;
        }
        if let Some(cc) = &mut c {
            look(cc, &m, *h)?;
            if id % 16 == 0 {
                look(cc, &m, *r.pick(&ps))?;
            }
        }
    }
    eq("collection left at the end", c.is_some(), false)?;
    eq("values left at the end", tok::live(), 0)?;
    Ok(())
}

fn coll<C>(m: &mut Mon, name: &str, rounds: u64, len: usize, many: usize)
where
    C: TreeCollection,
    C::Hi: Kc,
    <C::Tree as VebTree>::Key: Kc,
    <C::Tree as VebTree>::Value: Val,
{
    for i in 0..rounds {
        let seed = mix2(mix2(m.seed, hash_str(name)), i);
        m.j.set(format!("#veb-replay colls\nC20 {name} seed {seed} len {len} many {many}"));
        let run = |n: usize, m: &mut Mon| -> Option<(String, Vec<String>)> {
            let mut log = Vec::new();
            let mut notes = Vec::new();
            let mut obs = 0;
            let r = catch_unwind(AssertUnwindSafe(|| {
                if many > 0 {
                    crowd::<C>(seed, many, &mut log, &mut |h| notes.push(h), &mut obs)
                } else {
                    history::<C>(seed, n, &mut log, &mut |h| notes.push(h), &mut obs)
                }
            }));
            let hn = hash_str(name);
            for h in notes {
                m.note(mix2(h, hn));
            }
            m.out.count("observations_compared", obs);
            m.out.count("operations", log.len() as u64);
            if let Some(e) = tok::take_error().or_else(vebmon::keys::kl_error) {
                return Some((e, log));
            }
            match r {
                Ok(Ok(())) => None,
                Ok(Err(e)) => Some((e, log)),
                Err(_) => Some((format!("panicked: {}", last_panic()), log)),
            }
        };
        m.out.count("histories", 1);
        if let Some((e, log)) = run(len, m) {
            m.fail(format!("{name}: {e} at {}", log.last().cloned().unwrap_or_default()), format!("{name} seed {seed}\n{}", log.join("\n")));
            return;
        }
    }
}

type Col<M, K, V> = <M as VebTreeCollectionMarker<K, V>>::TreeCollection;
type ABox<T> = ArrayTreeCollectionMarker<BoxMarker<T>>;
type AGen<T> = ArrayTreeCollectionMarker<GenericArrayMarker<T>>;
type HM<T, S> = HashMapMarker<T, S>;
type BCol<T> = ByteCollectionMarker<VecDequeMarker, T>;

fn c20(m: &mut Mon, sh: (u64, u64), secs: f64, len: usize) {
    let t0 = m.out.cpu();
    let mut round = 0;
    while m.out.cpu() - t0 < secs && m.out.violations.is_empty() {
        m.seed = mix2(m.seed, round * sh.1 + sh.0);
        macro_rules! go { ($($name:literal $c:ty;)*) => {
            let all = [$($name),*];
            m.out.max("collection_types", all.len() as u64);
            let len = if round % 6 == 5 { len * 8 } else { len };
            // crowded collections: now and then, and of 65536 positions once per process
            let crowded = round % 8 == 1 && !cfg!(miri);
            let mut i = 0;
            $(
                i += 1;
                if crowded {
                    let array16 = $name.contains("array[u16]") || $name.contains("array[i16]");
                    let cap = if array16 && round == 1 && (i + sh.0) % 2 == 0 { 1 << 16 } else if $name.contains("olliding") || $name.contains("weak") { 300 } else { 1500 };
                    coll::<$c>(m, $name, 1, len, cap);
                } else {
                    coll::<$c>(m, $name, 2, len, 0);
                }
            )*
        } }
        go! {
            "array[u8] of byte maps" Col<ABox<Bm>, u16, Tok>;
            "array[i8] of ordered maps" Col<ABox<Bt>, [i8; 2], Tok>;
            "array[u2] of ordered maps" Col<ABox<Bt>, U4, Tok>;
            "array[u16] of byte sets" Col<ABox<H16E>, u32, ()>;
            "array[i16] of trees" Col<ABox<Bt>, [i16; 2], Tok>;
            "array[()] of ordered maps" Col<ABox<Bt>, (), Tok>;
            "inline array[()] of ordered maps" Col<AGen<Bt>, (), Tok>;
            "inline array[i8] of sets" Col<AGen<Bt>, [i8; 2], ()>;
            "inline array[u2] of trees" Col<AGen<D2>, U4, Tok>;
            "inline array[u4] of ordered maps" Col<AGen<Bt>, u8, Tok>;
            "inline array[u8] of byte maps" Col<AGen<Bm>, u16, Tok>;
            "inline array[UK4] of trees" Col<AGen<K4>, UK8, Tok>;
            "hash[u8] of byte maps" Col<HM<Bm, Fx>, u16, Tok>;
            "hash[i64] of trees" Col<HM<Bt, Fx>, [i64; 2], Tok>;
            "hash[u8], all colliding" Col<HM<Bm, Bad>, i16, Tok>;
            "hash[[u8;2]], weak" Col<HM<B16, Weak>, [u8; 4], Tok>;
            "hash[u16], default hasher" Col<HashMapMarker<Marker16>, u32, Tok>;
            "hash[UK8] of trees" Col<HM<K8, Fx>, UK16, Tok>;
            "hash[()] of ordered maps" Col<HM<Bt, Fx>, (), Tok>;
            "bytes of byte maps" Col<BCol<Bm>, u16, Tok>;
            "bytes of byte sets" Col<BCol<Bs>, u16, ()>;
            "bytes of ordered maps" Col<BCol<Bt>, i16, Tok>;
            "bytes of trees" Col<BCol<H16>, [u8; 3], Tok>;
            "bytes of wide trees" Col<BCol<Q8>, u16, [u64; 9]>;
            "boxed bytes of byte maps" Box<Col<BCol<Bm>, u16, Tok>>;
            "boxed hash[u8]" Box<Col<HM<Bm, Fx>, u16, Tok>>;
            "boxed boxed array[u8]" Box<Box<Col<ABox<Bm>, u16, Tok>>>;
            "boxed inline array[u4]" Box<Col<AGen<Bt>, u8, Tok>>;
        }
        if round == 0 {
            m.out.samples.push(format!("{} collection types, {len} operations per history, position and entry pools of 1-256 and 1-6 keys; e.g. seed {:#x} for {}", 24, m.seed, "array[u8] of byte maps"));
        }
        round += 1;
    }
}

// ---- C21 --------------------------------------------------------------------------------
/// A deque whose storage starts at an arbitrary offset.
fn wrapped<T>(r: &mut Rng, first: T, mut filler: impl FnMut() -> T) -> VecDeque<T> {
    let cap = 1 + r.below(40);
    let mut d = VecDeque::with_capacity(cap);
    let n = r.below(2 * cap + 2);
    for _ in 0..n {
        d.push_back(filler());
        d.pop_front();
    }
    d.push_back(first);
    d
}

fn rank(r: &mut Rng, n: usize) -> usize {
    match r.below(5) {
        0 => 0,
        1 => n - 1,
        2 => n / 2,
        _ => r.below(n),
    }
}

fn list_history<V: Val>(seed: u64, len: usize, log: &mut Vec<String>, note: &mut dyn FnMut(u64), obs: &mut u64) -> R {
    tok::reset();
    let r = &mut Rng::new(seed);
    let mut id = r.next() >> 20;
    let mut next = || {
        id += 1;
        id & V::MASK
    };
    let mut l: Option<VecDeque<V>> = None;
    let mut m: Vec<u64> = vec![];
    let target = [1, 3, 10, 40, 257][r.below(5)];
    for _ in 0..len {
        BEAT.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        let v = next();
        let Some(mut d) = l.take() else {
            log.push(format!("new [{v:x}]"));
            let d = if r.chance(1, 3) { <VecDeque<V> as List>::from_monad(V::mk(v)) } else { wrapped(r, V::mk(v), || V::mk(7)) };
            m = vec![v];
            l = Some(d);
            continue;
        };
        let n = m.len();
        let grow = if n < target { 70 } else { 30 };
        let x = r.below(100);
        let op;
        if x < grow {
            let i = if r.chance(1, 3) { n } else { rank(r, n) };
            op = (1, i);
            log.push(format!("insert_value({i}, {v:x}) into {n}"));
            List::insert_value(&mut d, i, V::mk(v));
            m.insert(i, v);
            l = Some(d);
        } else if x < 92 {
            let i = rank(r, n);
            op = (2, i);
            log.push(format!("remove_value({i}) of {n}"));
            let (rest, got) = List::remove_value(d, i);
            eq("removed value", got.rd(), m.remove(i))?;
            eq("list gone", rest.is_none(), m.is_empty())?;
            l = rest;
        } else {
            let i = rank(r, n);
            op = (3, i);
            log.push(format!("*get_mut({i}) = {v:x} in {n}"));
            let g = List::get_mut(&mut d, i);
            eq("value through get_mut", g.rd(), m[i])?;
            g.wr(v);
            m[i] = v;
            l = Some(d);
        }
        note(mix2(mix2(n as u64, op.0), op.1 as u64 ^ (r.next() & 7) << 32));
        if let Some(d) = &l {
            eq("len", List::len(d), m.len())?;
            eq("is_empty", List::is_empty(d), false)?;
            for (i, e) in m.iter().enumerate() {
                eq(&format!("element {i}"), List::get(d, i).rd(), *e)?;
            }
            *obs += m.len() as u64 + 2;
        }
    }
    Ok(())
}

fn treelist_history<T>(seed: u64, len: usize, log: &mut Vec<String>, note: &mut dyn FnMut(u64), obs: &mut u64) -> R
where
    T: VebTree,
    T::Key: Kc,
    T::Value: Val,
{
    tok::reset();
    kl_reset();
    let r = &mut Rng::new(seed);
    let (bits, vm) = (<T::Key as Kc>::BITS, <T::Value as Val>::MASK);
    let mut id = r.next() >> 20;
    // a fresh subtree and its content
    let mut fresh = |r: &mut Rng| -> (T, BTreeMap<u128, u64>) {
        let mut ks: Vec<u128> = (0..1 + r.below(4)).map(|_| r.u128() & mask(bits)).collect();
        if r.chance(1, 3) {
            ks = vec![*r.pick(&[0, mask(bits), 5 & mask(bits)])];
        }
        let mut e = BTreeMap::new();
        let mut t: Option<T> = None;
        for k in ks {
            id += 1;
            e.insert(k, id & vm);
            match &mut t {
                None => t = Some(T::from_monad(Kc::enc(k), Val::mk(id & vm))),
                Some(t) => drop(t.insert(Kc::enc(k), Val::mk(id & vm))),
            }
        }
        (t.unwrap(), e)
    };
    let mut l: Option<VecDeque<T>> = None;
    let mut m: Vec<BTreeMap<u128, u64>> = vec![];
    let target = [1, 2, 6, 30, 256][r.below(5)];
    for _ in 0..len {
        BEAT.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        let (t, e) = fresh(r);
        let Some(mut d) = l.take() else {
            log.push(format!("new [{:x?}]", want(&e)));
            let d = if r.chance(1, 3) {
                <VecDeque<T> as TreeList>::from_monad(t)
            } else {
                wrapped(r, t, || T::from_monad(Kc::enc(0), Val::mk(0)))
            };
            m = vec![e];
            l = Some(d);
            continue;
        };
        let n = m.len();
        let x = r.below(100);
        let i = rank(r, n);
        let op;
        if x < if n < target { 60 } else { 20 } {
            let i = if r.chance(1, 3) { n } else { i };
            op = 1;
            log.push(format!("insert_tree({i}, {:x?}) into {n}", want(&e)));
            TreeList::insert_tree(&mut d, i, t);
            m.insert(i, e);
            l = Some(d);
        } else if x < 65 {
            op = 2;
            log.push(format!("insert through get_mut({i}) of {n}"));
            let g = TreeList::get_mut(&mut d, i);
            eq("tree through get_mut", content(g)?, want(&m[i]))?;
            let (k, v) = e.iter().next().map(|(k, v)| (*k, *v)).unwrap();
            g.insert(Kc::enc(k), Val::mk(v));
            m[i].insert(k, v);
            l = Some(d);
        } else {
            // what the callback does: 0 remove the first entry, 1 replace by another subtree,
            // 2 declare the subtree gone, 3 hand back unchanged (maybe_), 4 hand back another (maybe_)
            let maybe = r.chance(1, 2);
            let act = r.below(if maybe { 5 } else { 3 });
            op = 3 + act as u64 + if maybe { 8 } else { 0 };
            log.push(format!("{}({i}) of {n}, action {act}", if maybe { "maybe_remove_key" } else { "remove_key" }));
            let before = want(&m[i]);
            let first = before[0];
            let (mut calls, mut seen) = (0, Ok(vec![]));
            let mut other = Some((t, e.clone()));
            let report = (T::Key::enc(first.0), T::Value::mk(first.1));
            let mut keep = true;
            let mut absent = false;
            match act {
                0 => {
                    BTreeMap::remove(&mut m[i], &first.0);
                    keep = !m[i].is_empty();
                }
                1 => m[i] = e,
                2 => keep = false,
                3 => absent = true,
                _ => {
                    m[i] = e;
                    absent = true
                }
            }
            if !keep {
                m.remove(i);
            }
            let got: Result<(Option<(VecDeque<T>, bool)>, (T::Key, T::Value)), VecDeque<T>> = if maybe {
                TreeList::maybe_remove_key(d, i, |t| {
                    calls += 1;
                    seen = content(&t);
                    match act {
                        0 => Ok(t.remove_min()),
                        1 => Ok((Some(other.take().unwrap().0), report)),
                        2 => Ok((None, report)),
                        3 => Err(t),
                        _ => Err(other.take().unwrap().0),
                    }
                })
            } else {
                Ok(TreeList::remove_key(d, i, |t| {
                    calls += 1;
                    seen = content(&t);
                    match act {
                        0 => t.remove_min(),
                        1 => (Some(other.take().unwrap().0), report),
                        _ => (None, report),
                    }
                }))
            };
            eq("callback calls", calls, 1)?;
            eq("subtree given to the callback", seen?, before)?;
            match got {
                Err(d) => {
                    eq("nothing removed", true, absent)?;
                    l = Some(d);
                }
                Ok((rest, kv)) => {
                    eq("nothing removed", false, absent)?;
                    eq("removed entry", (kv.0.dec(), kv.1.rd()), first)?;
                    match rest {
                        None => eq("list gone", true, m.is_empty())?,
                        Some((d, removed)) => {
                            eq("list gone", false, m.is_empty())?;
                            eq("element reported deleted", removed, !keep)?;
                            l = Some(d);
                        }
                    }
                }
            }
        }
        note(mix2(mix2(n as u64, op), i as u64 ^ (r.next() & 7) << 32));
        if let Some(d) = &l {
            eq("len", TreeList::len(d).get(), m.len())?;
            for (i, e) in m.iter().enumerate() {
                eq(&format!("element {i}"), content(TreeList::get(d, i))?, want(e))?;
            }
            *obs += m.len() as u64 + 1;
        }
    }
    Ok(())
}

type Hist = fn(u64, usize, &mut Vec<String>, &mut dyn FnMut(u64), &mut u64) -> R;
fn c21(m: &mut Mon, sh: (u64, u64), secs: f64, len: usize) {
    let hs: [(&str, Hist); 7] = [
        ("values", list_history::<Tok>),
        ("bytes", list_history::<u8>),
        ("wide values", list_history::<[u64; 9]>),
        ("byte sets", treelist_history::<ByteSet>),
        ("byte maps", treelist_history::<ByteMap<VecDeque<Tok>>>),
        ("ordered maps", treelist_history::<BTreeMap<u32, Tok>>),
        ("trees", treelist_history::<veb_tree::markers::VebTreeType<UK8, Tok, K8>>),
    ];
    let t0 = m.out.cpu();
    let mut i = sh.0;
    while m.out.cpu() - t0 < secs && m.out.violations.is_empty() {
        let (name, h) = hs[(i / sh.1) as usize % hs.len()];
        let seed = mix2(mix2(m.seed, hash_str(name)), i);
        let len = if (i / sh.1) % 5 == 0 { len * 8 } else { len };
        m.j.set(format!("#veb-replay colls\nC21 {name} seed {seed} len {len}"));
        let (mut log, mut notes, mut obs) = (vec![], vec![], 0);
        let r = catch_unwind(AssertUnwindSafe(|| h(seed, len, &mut log, &mut |x| notes.push(x), &mut obs)));
        for x in notes {
            m.note(mix2(x, hash_str(name)));
        }
        m.out.count("histories", 1);
        m.out.count("operations", log.len() as u64);
        m.out.count("observations_compared", obs);
        if m.out.samples.len() < 2 {
            m.out.samples.push(format!("list of {name}: {}", log.iter().take(15).cloned().collect::<Vec<_>>().join("; ")));
        }
        let e = match r {
            Ok(Ok(())) => None,
            Ok(Err(e)) => Some(e),
            Err(_) => Some(format!("panicked: {}", last_panic())),
        };
        if let Some(e) = tok::take_error().or_else(vebmon::keys::kl_error).or(e) {
            m.fail(format!("list of {name}: {e} at {}", log.last().cloned().unwrap_or_default()), format!("{name} seed {seed}\n{}", log.join("\n")));
        }
        i += sh.1;
    }
}

// ---- C22 --------------------------------------------------------------------------------
type Bits = [bool; 256];
fn members(b: &Bits) -> Vec<u8> {
    (0..=255u8).filter(|i| b[*i as usize]).collect()
}
fn build(v: &[u8]) -> ByteSet {
    let mut s = ByteSet::from_monad(v[0], ());
    for x in &v[1..] {
        s.insert(*x, ());
    }
    s
}
/// every answer of a set, for every byte
fn set_full(s: &ByteSet, b: &Bits) -> R<u64> {
    let m = members(b);
    let n = m.len();
    eq("len", s.len().get(), n)?;
    eq("len_hint", s.len_hint(), (n, Some(n)))?;
    eq("lowest", s.lowest(), m[0])?;
    eq("highest", s.highest(), m[n - 1])?;
    eq("min_val", *s.min_val().0, m[0])?;
    eq("max_val", *s.max_val().0, m[n - 1])?;
    eq("is_monad", s.is_monad(), n == 1)?;
    eq("into_monad", s.clone().into_monad().map(|(k, ())| k).map_err(|t| t == *s), if n == 1 { Ok(m[0]) } else { Err(true) })?;
    let mut c = *s;
    eq("min_val_mut", *c.min_val_mut().0, m[0])?;
    eq("max_val_mut", *c.max_val_mut().0, m[n - 1])?;
    let mut below: Option<u8> = None;
    let mut above: Vec<Option<u8>> = vec![None; 256];
    let mut up = None;
    for k in (0..=255u8).rev() {
        above[k as usize] = up;
        if b[k as usize] {
            up = Some(k);
        }
    }
    for k in 0..=255u8 {
        let here = b[k as usize];
        let g = s.find(k).map(|(k, ())| *k);
        if g != here.then_some(k) {
            eq(&format!("find({k})"), g, here.then_some(k))?;
        }
        let g = c.find_mut(&k).map(|(k, ())| *k);
        if g != here.then_some(k) {
            eq(&format!("find_mut({k})"), g, here.then_some(k))?;
        }
        for (w, g, e) in [
            ("predecessor", s.predecessor(k).map(|(k, ())| *k), below),
            ("predecessor_mut", c.predecessor_mut(k).map(|(k, ())| *k), below),
            ("successor", s.successor(&k).map(|(k, ())| *k), above[k as usize]),
            ("successor_mut", c.successor_mut(&k).map(|(k, ())| *k), above[k as usize]),
        ] {
            if g != e {
                eq(&format!("{w}({k})"), g, e)?;
            }
        }
        if here {
            below = Some(k);
        }
    }
    // masking a pair of words with a set keeps exactly the bits of the set
    let mut words = [!0u128; 2];
    words &= *s;
    let kept: Vec<u8> = (0..=255u8).filter(|k| words[*k as usize / 128] >> (k % 128) & 1 == 1).collect();
    eq("bytes kept by masking", &kept, &m)?;
    eq("queries changed the set", c == *s, true)?;
    Ok(256 * 6 + 10)
}
/// insertion and removal of every byte, both ends, iteration
fn set_edges(s: &ByteSet, b: &Bits) -> R<u64> {
    let m = members(b);
    let n = m.len();
    for k in 0..=255u8 {
        let here = b[k as usize];
        let mut c = *s;
        let r = c.insert(k, ());
        if r != here.then_some((k, ())) {
            eq(&format!("insert({k})"), r, here.then_some((k, ())))?;
        }
        if (c == *s) != here || (c != *s) == here || c.len().get() != n + !here as usize || c.find(k).is_none() {
            return Err(format!("set after insert({k}) has length {}, expected {}; equal to the original: {}", c.len(), n + !here as usize, c == *s));
        }
        match s.clone().remove(k) {
            Err(t) => {
                if here || t != *s {
                    return Err(format!("remove({k}) reports absence; byte present: {here}; set unchanged: {}", t == *s));
                }
            }
            Ok((t, (g, ()))) => {
                if !here || g != k || t.is_none() != (n == 1) {
                    return Err(format!("remove({k}) of {n} bytes, present {here}: byte {g}, set left {}", t.is_some()));
                }
                if let Some(mut t) = t {
                    if t.len().get() != n - 1 || t.find(k).is_some() || t == *s {
                        return Err(format!("set after remove({k}) has length {} (from {n}), still finds it: {}", t.len(), t.find(k).is_some()));
                    }
                    t.insert(k, ());
                    eq("equality after removing and inserting again", t == *s, true)?;
                }
            }
        }
    }
    for max in [false, true] {
        let (t, (k, ())) = if max { s.clone().remove_max() } else { s.clone().remove_min() };
        let e = if max { m[n - 1] } else { m[0] };
        eq(if max { "remove_max" } else { "remove_min" }, (k, t.is_none()), (e, n == 1))?;
        if let Some(t) = t {
            let mut b2 = *b;
            b2[e as usize] = false;
            set_full(&t, &b2)?;
            eq("equality with the set built directly", t == build(&members(&b2)), true)?;
        }
    }
    let f: Vec<u8> = Iter::from(s).take(300).map(|(k, ())| *k).collect();
    eq("forward iteration", &f, &m)?;
    let mut g: Vec<u8> = Iter::from(s).rev().take(300).map(|(k, ())| *k).collect();
    g.reverse();
    eq("backward iteration", &g, &m)?;
    Ok(256 * 6)
}
fn c22(m: &mut Mon, sh: (u64, u64), secs: f64, deep: bool) {
    let mut rng = Rng::new(m.seed);
    let mut case = |m: &mut Mon, v: &[u8], edges: bool| -> bool {
        BEAT.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        let mut b = [false; 256];
        for x in v {
            b[*x as usize] = true;
        }
        let h = members(&b).iter().fold(5, |h, x| mix2(h, *x as u64));
        m.j.set(format!("#veb-replay colls\nC22 set built from {v:?}"));
        let mut o = 0;
        let r = catch_unwind(AssertUnwindSafe(|| -> R {
            let s = build(v);
            o += set_full(&s, &b)?;
            if edges {
                o += set_edges(&s, &b)?;
            }
            // same bytes, another order and a detour
            let mut w = members(&b);
            rng.shuffle(&mut w);
            let mut t = build(&w);
            eq("equality of two sets of the same bytes", t == s && s == t && !(t != s), true)?;
            // related sets that are (mostly) not equal
            let x = rng.next() as u8;
            let mv = members(&b);
            let i = rng.below(mv.len());
            let swap_some = rng.next();
            let mut kin: Vec<Vec<u8>> = vec![
                mv.iter().map(|k| k ^ 0x80).collect(),
                mv.iter().map(|k| k ^ x).collect(),
                mv.iter().map(|k| k.wrapping_add(x)).collect(),
                mv.iter().map(|k| 255 - k).collect(),
                mv.iter().map(|k| k.reverse_bits()).collect(),
                mv.iter().map(|k| k.rotate_left(1)).collect(),
                mv.iter().map(|k| k ^ ((swap_some >> (k % 64)) as u8 & 1) << 7).collect(),
                mv.iter().map(|k| if *k == mv[i] { k ^ 0x80 } else { *k }).collect(),
                mv.iter().map(|k| if *k == mv[i] { x } else { *k }).collect(),
                mv.iter().map(|k| if *k == mv[i] { k ^ 1 << (x & 7) } else { *k }).collect(),
                mv.iter().copied().chain([x]).collect(),
                mv.iter().copied().filter(|k| *k < 128).collect(),
                mv.iter().copied().filter(|k| *k >= 128).collect(),
                mv.iter().copied().chain(mv.iter().map(|k| k ^ 0x80)).collect(),
                // same size, same ends, another inside
                (mv[0]..=mv[mv.len() - 1]).take(mv.len() - 1).chain([mv[mv.len() - 1]]).collect(),
                (0..=255u8).filter(|k| !b[*k as usize]).collect(),
            ];
            kin.extend((0..3).map(|_| (0..mv.len()).map(|_| rng.next() as u8).collect()));
            for w in kin.iter().filter(|w| !w.is_empty()) {
                let mut wb = [false; 256];
                for k in w {
                    wb[*k as usize] = true;
                }
                let u = build(w);
                let same = wb == b;
                if (u == s) != same || (s == u) != same || (u != s) == same || (s != u) == same {
                    return Err(format!("compared with the set of {:?}: {} {} {}, expected equal: {same}", members(&wb), u == s, s == u, !(u != s)));
                }
                o += 4;
            }
            let extra = rng.below(256) as u8;
            if !b[extra as usize] {
                let mut u = t;
                u.insert(extra, ());
                eq("equality with a set of one byte more", u == s, false)?;
                eq("a copy is independent", t == s && t.find(extra).is_none(), true)?;
                t = u.remove(extra).ok().and_then(|x| x.0).ok_or("remove fails")?;
                eq("equality after a detour", t == s, true)?;
            }
            Ok(())
        }));
        m.note(h);
        m.out.count("sets", 1);
        m.out.count("observations_compared", o);
        let e = match r {
            Ok(Ok(())) => return true,
            Ok(Err(e)) => e,
            Err(_) => format!("panicked: {}", last_panic()),
        };
        m.fail(format!("byte set built from {v:?}: {e}"), format!("{v:?}"));
        false
    };
    // all one- and two-byte sets, all runs, and their complements
    let mut i = 0u64;
    for a in 0..=255u8 {
        for z in a..=255u8 {
            i += 1;
            if i % sh.1 != sh.0 || m.out.violations.len() > 3 {
                continue;
            }
            case(m, &[z, a], a == z || deep || i % 32 < sh.1);
            let run: Vec<u8> = (a..=z).collect();
            case(m, &run, a == z || i % 64 < sh.1);
            if z - a < 255 {
                let rest: Vec<u8> = (0..=255u8).filter(|x| !(a..=z).contains(x)).collect();
                case(m, &rest, i % 64 < sh.1);
            }
            if a == z || deep || i % 4 < sh.1 {
                let rest: Vec<u8> = (0..=255u8).filter(|x| *x != a && *x != z).collect();
                case(m, &rest, false);
            }
        }
    }
    m.out.count("pairs_and_runs_swept", 1);
    // random sets and histories
    let mut rng2 = Rng::new(m.seed ^ 1);
    let t0 = m.out.cpu();
    while m.out.cpu() - t0 < secs && m.out.violations.len() <= 3 {
        let n = *rng2.pick(&[4, 20, 128, 256]);
        let n = 1 + rng2.below(n);
        let mut v: Vec<u8> = (0..n).map(|_| rng2.next() as u8).collect();
        match rng2.below(4) {
            0 => v = v.iter().map(|x| x & 0x7f | (v[0] & 0x80)).collect(),
            1 => v = v.iter().map(|x| *rng2.pick(&[0, 1, 63, 64, 127, 128, 129, 191, 192, 254, 255]) ^ (x & 2)).collect(),
            _ => {}
        }
        case(m, &v, true);
        // a history, with a model
        m.j.set(format!("#veb-replay colls\nC22 history"));
        let mut b = [false; 256];
        let mut s: Option<ByteSet> = None;
        let mut log = vec![];
        for _ in 0..60 {
            let k = if rng2.chance(1, 3) { *rng2.pick(&v) } else { rng2.next() as u8 };
            let ms = members(&b);
            let op = rng2.below(10);
            let r = catch_unwind(AssertUnwindSafe(|| -> R<Option<ByteSet>> {
                let Some(mut t) = s else {
                    log.push(format!("from_monad({k})"));
                    b[k as usize] = true;
                    return Ok(Some(ByteSet::from_monad(k, ())));
                };
                let here = b[k as usize];
                let out = match op {
                    0..=4 => {
                        log.push(format!("insert({k})"));
                        eq("insert", t.insert(k, ()), here.then_some((k, ())))?;
                        b[k as usize] = true;
                        Some(t)
                    }
                    5..=7 => {
                        let k = if op == 5 { k } else { ms[k as usize % ms.len()] };
                        let here = b[k as usize];
                        log.push(format!("remove({k})"));
                        b[k as usize] = false;
                        match t.remove(k) {
                            Err(t) => {
                                eq("remove reports absence", true, !here)?;
                                Some(t)
                            }
                            Ok((t, (g, ()))) => {
                                eq("remove reports absence", false, !here)?;
                                eq("removed byte", g, k)?;
                                t
                            }
                        }
                    }
                    x => {
                        log.push(format!("remove_{}", if x == 8 { "min" } else { "max" }));
                        let (t, (g, ())) = if x == 8 { t.remove_min() } else { t.remove_max() };
                        let e = if x == 8 { ms[0] } else { ms[ms.len() - 1] };
                        eq("removed byte", g, e)?;
                        b[e as usize] = false;
                        t
                    }
                };
                eq("set left", out.is_some(), b.iter().any(|x| *x))?;
                if let Some(t) = &out {
                    set_full(t, &b)?;
                    eq("equality with the set built directly", *t == build(&members(&b)), true)?;
                }
                Ok(out)
            }));
            m.out.count("operations", 1);
            m.note(members(&b).iter().fold(mix2(op as u64, k as u64), |h, x| mix2(h, *x as u64)));
            match r {
                Ok(Ok(t)) => s = t,
                Ok(Err(e)) => {
                    m.fail(format!("byte set: {e} after {}", log.join("; ")), log.join("\n"));
                    break;
                }
                Err(_) => {
                    m.fail(format!("byte set: panicked: {} after {}", last_panic(), log.join("; ")), log.join("\n"));
                    break;
                }
            }
        }
        if m.out.samples.len() < 2 {
            m.out.samples.push(format!("set of {v:?}, then history {}", log.join("; ")));
        }
    }
}

fn main() {
    let a = Args::parse();
    quiet_panics();
    if !cfg!(miri) {
        watchdog(20.0);
    }
    let prop = a.str("prop", "C20");
    let sh = (a.num("shard", 0), a.num("shards", 1));
    let secs = a.num("ms", 2000) as f64 / 1000.0;
    let len = a.num("len", 60) as usize;
    let mut m = Mon {
        seed: mix2(a.num("seed", 1), hash_str(&prop)),
        distinct: HashSet::new(),
        out: Output::default(),
        j: Journal::new(&a.str("journal", "")),
        prop: prop.clone(),
        ub: a.num("ub", 0) == 1,
        steps: 0,
    };
    match prop.as_str() {
        "C20" => c20(&mut m, sh, secs, len),
        "C21" => c21(&mut m, sh, secs, len),
        "C22" => {
            m.seed = mix2(m.seed, sh.0);
            c22(&mut m, sh, secs, a.num("deep", 0) == 1)
        }
        p => panic!("{p}"),
    }
    m.out.count("steps", m.steps);
    m.out.distinct = m.distinct.into_iter().collect();
    m.out.write(&a.str("out", ""));
}
