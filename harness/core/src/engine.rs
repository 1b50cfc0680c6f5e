//! Executes histories against the real trees and compares every observation with a
//! reference model (an ordered map of key -> unique value).

use crate::configs::Config;
use crate::dynt::{DynTree, Rem, KV};
use crate::gen::Op;
use crate::keys::{self, mask};
use crate::rng::{mix2, Rng};
use crate::tok;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

pub type Model = BTreeMap<u128, u64>;

/// Property tags as a bit set: tag(5) is C05.
pub const fn tag(n: u32) -> u64 {
    1 << n
}
pub const ANY: u64 = !0;

#[derive(Clone, Debug)]
pub struct Fail {
    pub tags: u64,
    pub at: usize,
    pub msg: String,
}

/// Running hashes of what was observed: keys and outcomes, values, size information.
pub type Log = [u64; 3];

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}
/// Progress for the watchdog: bumped at every call into the crate.
pub static BEAT: Beat = Beat(AtomicU64::new(0));
pub struct Beat(AtomicU64);
/// Under Miri the process that started this one watches instead: a file that grows with every beat.
pub static BEAT_FILE: std::sync::OnceLock<std::fs::File> = std::sync::OnceLock::new();
impl Beat {
    #[inline]
    pub fn fetch_add(&self, n: u64, o: std::sync::atomic::Ordering) {
        self.0.fetch_add(n, o);
        if cfg!(miri) {
            if let Some(mut f) = BEAT_FILE.get() {
                let _ = std::io::Write::write(&mut f, b".");
            }
        }
    }
    pub fn load(&self, o: std::sync::atomic::Ordering) -> u64 {
        self.0.load(o)
    }
}

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|i| {
        let m = i
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "?".into());
        let l = i.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{m}{l}"));
    }));
}
pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}

/// Which observations to make.
#[derive(Clone, Copy, Default)]
pub struct Watch {
    pub find: bool,
    pub neigh: bool,
    pub ext: bool,
    pub monad: bool,
    pub len: bool,
    pub iter: bool,
    pub hints: bool,
    pub muts: bool,
    pub ledger: bool,
    pub handles: bool,
    /// few observations per operation (interpreters)
    pub lean: bool,
}
impl Watch {
    pub fn all() -> Watch {
        Watch {
            find: true,
            neigh: true,
            ext: true,
            monad: true,
            len: true,
            iter: true,
            hints: true,
            muts: true,
            ledger: true,
            handles: false,
            lean: false,
        }
    }
}

#[derive(Default, Clone)]
pub struct Stats {
    pub histories: u64,
    pub ops: u64,
    pub observations: u64,
    pub full_checks: u64,
    pub max_len: u64,
    pub handles: u64,
    pub by_op: [u64; 20],
    pub iter_steps: u64,
    pub size_hist: [u64; 6],
    pub replaced: u64,
    pub absent_removals: u64,
    pub emptied: u64,
    pub clones: u64,
}
impl Stats {
    pub fn add(&mut self, o: &Stats) {
        self.histories += o.histories;
        self.ops += o.ops;
        self.observations += o.observations;
        self.full_checks += o.full_checks;
        self.max_len = self.max_len.max(o.max_len);
        self.handles += o.handles;
        for i in 0..20 {
            self.by_op[i] += o.by_op[i];
        }
        self.iter_steps += o.iter_steps;
        for i in 0..6 {
            self.size_hist[i] += o.size_hist[i];
        }
        self.replaced += o.replaced;
        self.absent_removals += o.absent_removals;
        self.emptied += o.emptied;
        self.clones += o.clones;
    }
}

pub struct Run<'a> {
    pub cfg: &'a Config,
    pub want: u64,
    pub watch: Watch,
    /// full observation after each operation while the tree has at most this many entries
    pub full_upto: usize,
    pub stats: Stats,
    pub distinct: Option<&'a mut HashSet<u64>>,
    /// order-independent digest of everything observed (for cross-build comparison)
    pub digest: Option<Log>,
    /// transcript of op results for lockstep comparison
    pub transcript: Option<Vec<Log>>,
}

struct Slot {
    t: Option<Box<dyn DynTree>>,
    m: Model,
    hash: u64,
}

fn kh(k: u128) -> u64 {
    mix2(k as u64, (k >> 64) as u64)
}

struct Ctx<'c> {
    cfg: &'c Config,
    want: u64,
    fails: Vec<Fail>,
    at: usize,
    obs: u64,
    last: u64,
    log: Option<Log>,
}
impl Ctx<'_> {
    #[inline]
    fn check<T: PartialEq + std::fmt::Debug>(&mut self, tags: u64, what: impl FnOnce() -> String, got: T, exp: T) {
        self.obs += 1;
        BEAT.fetch_add(1, Relaxed);
        if got != exp {
            self.fail(tags, || format!("{}: got {got:x?}, expected {exp:x?}", what()));
        }
    }
    /// An entry handed out by a query. A handle that does not denote the key its value is stored
    /// under is a C24 matter on top of the query's own properties.
    #[inline]
    fn ent(&mut self, tags: u64, m: &Model, what: impl FnOnce() -> String, got: Option<KV>, exp: Option<KV>) {
        self.obs += 1;
        BEAT.fetch_add(1, Relaxed);
        if got != exp {
            let mut tags = tags;
            if let Some((k, v)) = got {
                let holder = if self.cfg.vmask == !0 { m.iter().find(|e| *e.1 == v).map(|e| *e.0) } else { None };
                if holder.is_some_and(|h| h != k) || !m.contains_key(&k) {
                    tags |= tag(24);
                }
            }
            self.fail(tags, || format!("{}: got {got:x?}, expected {exp:x?}", what()));
        }
    }
    fn fail(&mut self, tags: u64, m: impl FnOnce() -> String) {
        if tags & self.want != 0 {
            let (at, name) = (self.at, self.cfg.name);
            self.fails.push(Fail { tags, at, msg: format!("[{name}] {}", m()) });
        }
    }
    fn recn(&mut self, i: usize, x: u64) {
        if let Some(l) = &mut self.log {
            l[i] = mix2(l[i], x);
        }
    }
    fn rec(&mut self, x: u64) {
        self.recn(0, x)
    }
    fn aux(&mut self, x: u64) {
        self.recn(2, x)
    }
    fn reckv(&mut self, x: Option<KV>) {
        if self.log.is_some() {
            match x {
                None => self.rec(1),
                Some((k, v)) => {
                    self.rec(kh(k));
                    self.recn(1, v);
                }
            }
        }
    }
}

fn mpred(m: &Model, k: u128) -> Option<KV> {
    m.range(..k).next_back().map(|(k, v)| (*k, *v))
}
fn msucc(m: &Model, k: u128) -> Option<KV> {
    m.range((std::ops::Bound::Excluded(k), std::ops::Bound::Unbounded)).next().map(|(k, v)| (*k, *v))
}
fn mmin(m: &Model) -> KV {
    m.iter().next().map(|(k, v)| (*k, *v)).unwrap()
}
fn mmax(m: &Model) -> KV {
    m.iter().next_back().map(|(k, v)| (*k, *v)).unwrap()
}

/// Lookups and neighbours of one key, shared and mutable.
fn probe(x: &mut Ctx, t: &mut dyn DynTree, m: &Model, k: u128, how: u8, w: &Watch) {
    let l = x.last;
    if w.find {
        let e = m.get(&k).map(|v| (k, *v));
        let g = t.find(k, how);
        x.reckv(g);
        x.ent(tag(1) | l, m, || format!("find({k:#x})"), g, e);
        if w.muts {
            x.ent(tag(1) | tag(6) | l, m, || format!("find_mut({k:#x})"), t.find_mut(k, how, None), e);
        }
    }
    if w.neigh {
        let (p, s) = (mpred(m, k), msucc(m, k));
        let g = t.pred(k, how);
        x.reckv(g);
        x.ent(tag(5) | l, m, || format!("predecessor({k:#x})"), g, p);
        let g = t.succ(k, how);
        x.reckv(g);
        x.ent(tag(5) | l, m, || format!("successor({k:#x})"), g, s);
        if w.muts {
            x.ent(tag(5) | tag(6) | l, m, || format!("predecessor_mut({k:#x})"), t.pred_mut(k, how, None), p);
            x.ent(tag(5) | tag(6) | l, m, || format!("successor_mut({k:#x})"), t.succ_mut(k, how, None), s);
        }
    }
    if w.handles {
        match t.handles(k) {
            Ok(n) => x.obs += n,
            Err(e) => x.fail(tag(24), || e),
        }
    }
}

fn light(x: &mut Ctx, t: &mut dyn DynTree, m: &Model, w: &Watch) {
    let l = x.last;
    if w.ext {
        let g = (t.min(), t.max());
        x.reckv(Some(g.0));
        x.reckv(Some(g.1));
        x.ent(tag(4) | l, m, || "min_val".into(), Some(g.0), Some(mmin(m)));
        x.ent(tag(4) | l, m, || "max_val".into(), Some(g.1), Some(mmax(m)));
        if w.muts {
            x.ent(tag(4) | tag(6) | l, m, || "min_val_mut".into(), Some(t.min_mut(None)), Some(mmin(m)));
            x.ent(tag(4) | tag(6) | l, m, || "max_val_mut".into(), Some(t.max_mut(None)), Some(mmax(m)));
        }
    }
    let n = m.len();
    if w.monad {
        let g = t.is_monad();
        x.rec(g as u64);
        x.check(tag(7) | l, || format!("is_monad with {n} entries"), g, n == 1);
        let h = t.len_hint();
        x.aux(h.0 as u64);
        x.aux(h.1.map_or(0, |u| (u as u64).saturating_add(1)));
        let ok = h.0 <= n && h.1.map_or(true, |u| u >= n);
        x.check(tag(7) | l, || format!("len_hint {h:?} must bracket {n}"), ok, true);
    }
    if w.len {
        if let Some(g) = t.exact_len() {
            x.aux(g as u64);
            x.check(tag(8) | l, || "len".into(), g, n);
            let h = t.len_hint();
            x.check(tag(8), || format!("len_hint of a tree of known length {n}"), h, (n, Some(n)));
        }
    }
}

fn full(x: &mut Ctx, t: &mut dyn DynTree, m: &Model, w: &Watch) {
    light(x, t, m, w);
    let n = m.len();
    let l = x.last;
    let top = mask(x.cfg.bits);
    // of very many entries a sample
    let step = 1 + n / 20_000;
    for (i, k) in m.keys().enumerate() {
        if (i + x.at) % step != 0 {
            continue;
        }
        probe(x, t, m, *k, (i % 2) as u8, w);
        // the gaps right next to it
        if n <= 40 || i % 16 == 0 {
            if *k < top && !m.contains_key(&(k + 1)) {
                probe(x, t, m, k + 1, 1, w);
            }
            if *k > 0 && !m.contains_key(&(k - 1)) {
                probe(x, t, m, k - 1, 0, w);
            }
        }
    }
    probe(x, t, m, 0, 0, w);
    probe(x, t, m, top, 0, w);
    if w.iter {
        let e: Vec<KV> = m.iter().map(|(k, v)| (*k, *v)).collect();
        let f = t.iter().drain_front(n + 8);
        x.obs += n as u64;
        x.check(tag(9) | l, || "forward iteration".into(), &f, &e);
        let mut b = t.iter().drain_back(n + 8);
        b.reverse();
        x.check(tag(9) | l, || "backward iteration (reversed)".into(), &b, &e);
        if n <= 300 {
            let c = t.iter().count();
            x.check(tag(9) | l, || "iter().count()".into(), c, n);
            let c = t.iter().last();
            x.check(tag(9) | l, || "iter().last()".into(), c, e.last().copied());
        }
        iterate(x, t, m, n + 3, 0xAAAA_AAAA_AAAA_AAAA ^ (n as u64 & 1).wrapping_neg(), 0, w);
    }
}

fn i_odd(n: u64) -> bool {
    n & 1 == 1
}

/// Script: `steps` steps, front or back by the bits of `side`, plus variations in `extra`.
fn iterate(x: &mut Ctx, t: &dyn DynTree, m: &Model, steps: usize, side: u64, extra: u8, w: &Watch) -> u64 {
    let l = x.last;
    let mut left: std::collections::VecDeque<KV> = m.iter().map(|(k, v)| (*k, *v)).collect();
    let mut it = t.iter();
    let mut done = 0;
    let hints = |x: &mut Ctx, it: &dyn crate::dynt::DynIter, n: usize, done: u64| {
        if !w.hints {
            return;
        }
        let h = it.size_hint();
        let ok = h.0 <= n && h.1.map_or(true, |u| u >= n);
        x.check(tag(10), || format!("size_hint {h:?} with {n} items left after {done} steps"), ok, true);
        if x.cfg.len {
            x.check(tag(10), || format!("exact size_hint after {done} steps"), h, (n, Some(n)));
        }
        if let Some(e) = it.exact_len() {
            x.check(tag(10), || format!("iterator len() after {done} steps"), e, n);
        }
    };
    for i in 0..steps {
        hints(x, &*it, left.len(), done);
        let back = side >> (i % 64) & 1 == 1;
        if extra & 1 == 1 && i % 5 == 4 {
            // skip some, at times all that is left and more
            let n = match extra >> 4 & 3 {
                0 => 1,
                1 => 0,
                2 => 2 + i % 3,
                _ => (left.len() + i % 3).saturating_sub(1),
            };
            let keep = left.len().saturating_sub(n);
            let (g, e) = if back {
                left.truncate(keep);
                (it.nth_back(n), left.pop_back())
            } else {
                left.drain(..left.len() - keep);
                (it.nth(n), left.pop_front())
            };
            x.ent(tag(9) | l, m, || format!("iterator step {i} ({}({n}))", if back { "nth_back" } else { "nth" }), g, e);
        } else if extra & 0x40 != 0 && i % 7 == 6 && left.len() > 1 {
            // search for an entry one or two ahead
            let ahead = 1 + i % 2;
            let at = if back { left.len().saturating_sub(1 + ahead) } else { ahead.min(left.len() - 1) };
            let k = left[at].0;
            let (g, e) = if back {
                left.truncate(at + 1);
                (it.rfind(k), left.pop_back())
            } else {
                left.drain(..at);
                (it.find(k), left.pop_front())
            };
            x.ent(tag(9) | l, m, || format!("iterator step {i} ({} {k:#x})", if back { "rfind" } else { "find" }), g, e);
        } else {
            let (g, e) = if back {
                (it.next_back(), left.pop_back())
            } else {
                (it.next(), left.pop_front())
            };
            x.reckv(g);
            x.ent(tag(9) | l, m, || format!("iterator step {i} ({}) of script {side:#x}", if back { "back" } else { "front" }), g, e);
        }
        done += 1;
    }
    hints(x, &*it, left.len(), done);
    let n = left.len();
    match extra >> 1 & 7 {
        0 => {}
        4 => {
            let g = it.count();
            x.check(tag(9) | l, || format!("count() after {done} steps of {side:#x}"), g, n);
        }
        5 => {
            let g = it.fold();
            x.check(tag(9) | l, || format!("fold() after {done} steps of {side:#x}"), g, left.into_iter().collect());
        }
        6 => {
            let g = it.rfold();
            x.check(tag(9) | l, || format!("rfold() after {done} steps of {side:#x}"), g, left.into_iter().rev().collect());
        }
        7 => {
            let g = if i_odd(done) { it.for_each() } else { it.collect() };
            x.check(tag(9) | l, || format!("for_each() / collect() after {done} steps of {side:#x}"), g, left.into_iter().collect());
        }
        1 => {
            let g = it.drain_front(n + 8);
            x.check(tag(9) | l, || format!("rest consumed from the front after {done} steps of {side:#x}"), g, left.into_iter().collect());
        }
        2 => {
            let g = it.drain_back(n + 8);
            x.check(tag(9) | l, || format!("rest consumed from the back after {done} steps of {side:#x}"), g, left.into_iter().rev().collect());
        }
        _ => {
            let g = it.last();
            x.check(tag(9) | l, || format!("last() after {done} steps of {side:#x}"), g, left.back().copied());
        }
    }
    done
}

type Hook = (fn(), fn() -> Option<String>);
static HOOK: std::sync::OnceLock<Hook> = std::sync::OnceLock::new();
/// Monitors beside the tree: called before each history, and after each operation of a watched one.
pub fn hook(reset: fn(), audit: fn() -> Option<String>) {
    let _ = HOOK.set((reset, audit));
}

impl<'a> Run<'a> {
    pub fn new(cfg: &'a Config, want: u64, watch: Watch) -> Self {
        Run { cfg, want, watch, full_upto: 24, stats: Stats::default(), distinct: None, digest: None, transcript: None }
    }

    /// Runs one history; returns the first wanted failure.
    pub fn exec(&mut self, ops: &[Op]) -> Result<(), Fail> {
        tok::reset();
        if let Some((reset, _)) = HOOK.get() {
            reset();
        }
        keys::kl_reset();
        keys::arm(u64::MAX);
        let cfg = self.cfg;
        let vm = cfg.vmask;
        let mut a = Slot { t: None, m: Model::new(), hash: 0 };
        let mut b = Slot { t: None, m: Model::new(), hash: 0 };
        let mut x = Ctx { cfg, want: self.want, fails: Vec::new(), at: 0, obs: 0, last: 0, log: self.digest };
        let w = self.watch;
        self.stats.histories += 1;
        let mut steps = 0u64;
        let mut end: Option<Fail> = None;
        // checks on the other slot after an operation on this one
        for (at, op) in ops.iter().enumerate() {
            x.at = at;
            BEAT.fetch_add(1, Relaxed);
            let n0 = a.m.len();
            self.stats.ops += 1;
            self.stats.by_op[op.code() as usize] += 1;
            self.stats.size_hist[match n0 {
                0 => 0,
                1 => 1,
                2 => 2,
                3..=8 => 3,
                9..=64 => 4,
                _ => 5,
            }] += 1;
            if let Some(d) = self.distinct.as_deref_mut() {
                if n0 >= 2 && d.len() < 400_000 {
                    let key = op.key().map(kh).unwrap_or(7);
                    d.insert(mix2(mix2(a.hash, op.code()), key));
                }
            }
            let stats = &mut self.stats;
            let full_upto = self.full_upto;
            if let Some(tr) = &mut self.transcript {
                x.log = Some([at as u64; 3]);
                let _ = tr;
            }
            let r = catch_unwind(AssertUnwindSafe(|| {
                step(&mut x, op, &mut a, &mut b, cfg, vm, &w, stats, full_upto, &mut steps)
            }));
            if let Some(tr) = &mut self.transcript {
                tr.push(x.log.unwrap_or_default());
            }
            match r {
                Ok(true) => {}
                Ok(false) => {
                    // the tree and the model disagree about whether a tree is left
                    break;
                }
                Err(_) => {
                    let p = last_panic();
                    let tags = if p.starts_with("harness:") { 0 } else { ANY };
                    if let Some(tr) = &mut self.transcript {
                        *tr.last_mut().unwrap() = [0xdead; 3];
                    }
                    x.rec(0xdead);
                    if tags & self.want != 0 {
                        end = Some(Fail { tags, at, msg: format!("[{}] {} panicked: {p}", cfg.name, op.text()) });
                    }
                    break;
                }
            }
            if w.ledger {
                if let Some(f) = cfg.watched.then(|| HOOK.get().and_then(|(_, audit)| audit())).flatten() {
                    x.fail(tag(26), || f);
                }
                if let Some(f) = ledger(cfg, a.m.len() + b.m.len(), &a, &b) {
                    x.fail(tag(14) | tag(16), || f);
                }
            }
            if !x.fails.is_empty() {
                break;
            }
            let n = a.m.len() as u64;
            self.stats.max_len = self.stats.max_len.max(n);
        }
        self.stats.observations += x.obs;
        self.stats.iter_steps += steps;
        let mut first = x.fails.into_iter().next();
        if first.is_none() {
            first = end;
        }
        if let Some(d) = &mut self.digest {
            *d = x.log.unwrap_or(*d);
        }
        // the end of every history: drop what is left, nothing may stay behind
        let r = catch_unwind(AssertUnwindSafe(|| {
            drop(a);
            drop(b);
        }));
        if first.is_none() {
            let mut m = None;
            if r.is_err() {
                m = Some((ANY, format!("dropping the tree panicked: {}", last_panic())));
            } else if w.ledger {
                if let Some(e) = tok::take_error().or_else(keys::kl_error) {
                    m = Some((tag(14) | tag(16), e));
                } else if cfg.tok && tok::live() != 0 {
                    m = Some((tag(14), format!("{} values never dropped", tok::live())));
                } else if cfg.uk && keys::kl_live() != 0 {
                    m = Some((tag(14), format!("{} keys never dropped", keys::kl_live())));
                }
            }
            if let Some((tags, m)) = m {
                if tags & self.want != 0 {
                    first = Some(Fail { tags, at: ops.len(), msg: format!("[{}] at the end of the history: {m}", cfg.name) });
                }
            }
        }
        match first {
            Some(f) => Err(f),
            None => Ok(()),
        }
    }
}

fn ledger(cfg: &Config, held: usize, a: &Slot, b: &Slot) -> Option<String> {
    if let Some(e) = tok::take_error().or_else(keys::kl_error) {
        return Some(e);
    }
    if cfg.tok && a.t.is_some() | b.t.is_some() {
        let live = tok::live();
        if live != held {
            return Some(format!("{live} values alive while the tree holds {held} entries"));
        }
    }
    None
}

#[allow(clippy::too_many_arguments)]
fn step(
    x: &mut Ctx,
    op: &Op,
    a: &mut Slot,
    b: &mut Slot,
    cfg: &Config,
    vm: u64,
    w: &Watch,
    stats: &mut Stats,
    full_upto: usize,
    steps: &mut u64,
) -> bool {
    let present = a.t.is_some();
    let mut changed = None::<u128>;
    let mut write = false;
    x.last = 0;
    match op {
        Op::Ins(k, v) => {
            let v = v & vm;
            let k = k & mask(cfg.bits);
            if !present {
                a.t = Some((cfg.mk)(k, v));
                a.m.insert(k, v);
                a.hash ^= kh(k);
                x.last = tag(2);
            } else {
                let e = a.m.insert(k, v).map(|v| (k, v));
                if e.is_none() {
                    a.hash ^= kh(k);
                } else {
                    stats.replaced += 1;
                }
                let g = a.t.as_mut().unwrap().insert(k, v);
                x.reckv(g);
                x.check(tag(2), || format!("insert({k:#x}) result"), g, e);
                x.last = tag(2);
            }
            changed = Some(k);
        }
        _ if !present => return true,
        Op::Rem(k, how) => {
            let k = k & mask(cfg.bits);
            let e = match (a.m.remove(&k), a.m.len()) {
                (None, _) => Rem::Absent,
                (Some(v), 0) => Rem::Gone((k, v)),
                (Some(v), _) => Rem::Left((k, v)),
            };
            if e == Rem::Absent {
                stats.absent_removals += 1;
            } else {
                a.hash ^= kh(k);
            }
            let g = a.t.as_mut().unwrap().remove(k, *how);
            rem(x, a, g, e, tag(3), &format!("remove({k:#x})"), stats);
            x.last = tag(3);
            changed = Some(k);
        }
        Op::RMin | Op::RMax => {
            let max = *op == Op::RMax;
            let (k, v) = if max { a.m.pop_last() } else { a.m.pop_first() }.unwrap();
            a.hash ^= kh(k);
            let e = if a.m.is_empty() { Rem::Gone((k, v)) } else { Rem::Left((k, v)) };
            let t = a.t.as_mut().unwrap();
            let g = if max { t.remove_max() } else { t.remove_min() };
            rem(x, a, g, e, tag(4), if max { "remove_max" } else { "remove_min" }, stats);
            x.last = tag(4);
            changed = Some(k);
        }
        Op::IntoMonad => {
            let e = if a.m.len() == 1 { Ok(mmin(&a.m)) } else { Err(()) };
            let g = a.t.as_mut().unwrap().into_monad();
            x.reckv(g.ok());
            let n = a.m.len();
            x.check(tag(7), || format!("into_monad with {n} entries"), g, e);
            if g.is_ok() {
                a.t = None;
                if e.is_ok() {
                    a.m.clear();
                    a.hash = 0;
                    stats.emptied += 1;
                    return true;
                }
                return false;
            }
            x.last = tag(7);
        }
        Op::Probe(k, how) => {
            let k = k & mask(cfg.bits);
            probe(x, &mut **a.t.as_mut().unwrap(), &a.m, k, *how, w);
        }
        Op::FindMut(k, how, v) | Op::PredMut(k, how, v) | Op::SuccMut(k, how, v) => {
            let (k, v) = (k & mask(cfg.bits), v & vm);
            let t = a.t.as_mut().unwrap();
            let (g, e, name, tg) = match op {
                Op::FindMut(..) => (t.find_mut(k, *how, Some(v)), a.m.get(&k).map(|v| (k, *v)), "find_mut", 1),
                Op::PredMut(..) => (t.pred_mut(k, *how, Some(v)), mpred(&a.m, k), "predecessor_mut", 5),
                _ => (t.succ_mut(k, *how, Some(v)), msucc(&a.m, k), "successor_mut", 5),
            };
            x.reckv(g);
            x.ent(tag(6) | tag(tg), &a.m, || format!("{name}({k:#x})"), g, e);
            if let Some((k, _)) = e {
                a.m.insert(k, v);
                changed = Some(k);
            }
            x.last = tag(6);
            write = true;
        }
        Op::MinMut(v) | Op::MaxMut(v) => {
            let v = v & vm;
            let t = a.t.as_mut().unwrap();
            let (g, e) = match op {
                Op::MinMut(..) => (t.min_mut(Some(v)), mmin(&a.m)),
                _ => (t.max_mut(Some(v)), mmax(&a.m)),
            };
            x.reckv(Some(g));
            x.ent(tag(6) | tag(4), &a.m, || op.text(), Some(g), Some(e));
            a.m.insert(e.0, v);
            changed = Some(e.0);
            x.last = tag(6);
            write = true;
        }
        Op::Iter(n, side, extra) => {
            *steps += iterate(x, &**a.t.as_ref().unwrap(), &a.m, *n as usize, *side, *extra, w);
        }
        Op::Snap => {
            x.last = tag(18);
            if let Some(c) = a.t.as_ref().unwrap().try_clone() {
                stats.clones += 1;
                b.t = Some(c);
                b.m = a.m.clone();
                b.hash = a.hash;
            }
            if let Some(t) = &mut b.t {
                full(x, &mut **t, &b.m, w);
            }
        }
        Op::Assign => {
            // the other tree becomes a copy of this one, by clone_from over what it holds
            x.last = tag(18);
            let src = a.t.as_deref().unwrap();
            let done = match &mut b.t {
                Some(t) => t.clone_from_tree(src),
                None => match src.try_clone() {
                    Some(c) => {
                        b.t = Some(c);
                        true
                    }
                    None => false,
                },
            };
            if done {
                stats.clones += 1;
                b.m = a.m.clone();
                b.hash = a.hash;
            }
            if let Some(t) = &mut b.t {
                full(x, &mut **t, &b.m, w);
            }
        }
        Op::Swap => {
            std::mem::swap(a, b);
            x.last = tag(18);
        }
        Op::Handles(k) => {
            let k = k & mask(cfg.bits);
            match a.t.as_ref().unwrap().handles(k) {
                Ok(n) => {
                    stats.handles += n;
                    x.obs += n;
                }
                Err(e) => x.fail(tag(24), || e),
            }
        }
        Op::Full => {}
        Op::Clear => {
            a.t = None;
            a.m.clear();
            a.hash = 0;
            return true;
        }
    }
    let Some(t) = a.t.as_mut() else {
        return a.m.is_empty();
    };
    if a.m.is_empty() {
        return false;
    }
    let t = &mut **t;
    let n = a.m.len();
    if w.lean && *op != Op::Full && x.at % 9 != 8 {
        let k = changed.unwrap_or(x.at as u128 & mask(cfg.bits));
        match x.at % 3 {
            0 => light(x, t, &a.m, w),
            1 => probe(x, t, &a.m, k, (x.at / 3 % 4) as u8, w),
            _ => {
                iterate(x, t, &a.m, n.min(6) + 1, 0x6666_6666_6666_6666, 0, w);
            }
        }
    } else if n <= full_upto || *op == Op::Full {
        stats.full_checks += 1;
        full(x, t, &a.m, w);
    } else {
        light(x, t, &a.m, w);
        if let Some(k) = changed {
            probe(x, t, &a.m, k, 1, w);
            let (p, s) = (mpred(&a.m, k), msucc(&a.m, k));
            for (k, _) in [p, s].into_iter().flatten() {
                probe(x, t, &a.m, k, 0, w);
            }
            let mut r = Rng::new(a.hash ^ kh(k));
            for _ in 0..3 {
                let k2 = k ^ if cfg.bits == 0 { 0 } else { 1u128 << r.below(cfg.bits as usize) };
                probe(x, t, &a.m, k2, 1, w);
            }
        }
        let _ = write;
    }
    // an operation on one tree must not touch the other (C18)
    if let Some(t2) = &mut b.t {
        if cfg.clone && b.m.len() <= full_upto && !(w.lean && x.at % 9 != 8) {
            x.last = tag(18);
            full(x, &mut **t2, &b.m, w);
        }
    }
    true
}

fn rem(x: &mut Ctx, a: &mut Slot, g: Rem, e: Rem, tags: u64, what: &str, stats: &mut Stats) {
    match g {
        Rem::Absent => x.rec(3),
        Rem::Gone(kv) => {
            x.rec(4);
            x.reckv(Some(kv))
        }
        Rem::Left(kv) => x.reckv(Some(kv)),
    }
    x.check(tags, || format!("{what} result"), g, e);
    if let Rem::Gone(_) = g {
        a.t = None;
        stats.emptied += 1;
    }
}

/// Smallest sub-history (by repeated halving, then single removals) that still fails.
pub fn shrink(cfg: &Config, want: u64, watch: Watch, full_upto: usize, ops: &[Op], f: &Fail, budget_s: f64) -> (Vec<Op>, Fail) {
    let t0 = std::time::Instant::now();
    let mut cur: Vec<Op> = ops[..(f.at + 1).min(ops.len())].to_vec();
    let mut cf = f.clone();
    let try_ops = |o: &[Op]| -> Option<Fail> {
        let mut r = Run::new(cfg, want, watch);
        r.full_upto = full_upto;
        r.exec(o).err()
    };
    if try_ops(&cur).is_none() {
        cur = ops.to_vec();
        if let Some(f) = try_ops(&cur) {
            cf = f;
        } else {
            return (cur, cf);
        }
    }
    let mut chunk = cur.len().div_ceil(2);
    while chunk >= 1 && t0.elapsed().as_secs_f64() < budget_s {
        let mut i = 0;
        let mut any = false;
        while i < cur.len() && t0.elapsed().as_secs_f64() < budget_s {
            let mut c = cur.clone();
            c.drain(i..(i + chunk).min(cur.len()));
            if let Some(f) = try_ops(&c) {
                c.truncate(f.at + 1);
                cur = c;
                cf = f;
                any = true;
            } else {
                i += chunk;
            }
        }
        if chunk == 1 && !any {
            break;
        }
        if !any || chunk > cur.len() {
            chunk = (chunk / 2).max(1);
        }
    }
    (cur, cf)
}
