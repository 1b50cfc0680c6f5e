//! Histories applied to a tree and a model without observing in between, and mutual consistency
//! of all observations of a tree.
use crate::configs::Config;
use crate::dynt::{DynTree, Rem, KV};
use crate::engine::{Model, BEAT};
use crate::gen::Op;
use crate::keys::mask;
use std::collections::BTreeSet;
use std::sync::atomic::Ordering::Relaxed;

pub type R<T = ()> = Result<T, String>;

pub struct Tree {
    pub t: Option<Box<dyn DynTree>>,
    pub m: Model,
}

/// Applies one operation to tree and model alike (no faults).
pub fn apply(s: &mut Tree, op: &Op, c: &Config) -> R {
    let mk = mask(c.bits);
    BEAT.fetch_add(1, Relaxed);
    match op {
        Op::Ins(k, v) => {
            let k = k & mk;
            match &mut s.t {
                None => s.t = Some((c.mk)(k, *v)),
                Some(t) => {
                    let g = t.insert(k, *v);
                    let e = s.m.get(&k).map(|v| (k, *v));
                    if g != e {
                        return Err(format!("insert({k:#x}) gave {g:x?}, expected {e:x?}"));
                    }
                }
            }
            s.m.insert(k, *v);
        }
        _ if s.t.is_none() => {}
        _ => {
            let t = s.t.as_mut().unwrap();
            match op {
                Op::Rem(k, h) => {
                    let k = k & mk;
                    let g = t.remove(k, *h);
                    let e = s.m.remove(&k);
                    let ok = match (g, e) {
                        (Rem::Absent, None) => true,
                        (Rem::Gone(kv) | Rem::Left(kv), Some(v)) => kv == (k, v),
                        _ => false,
                    };
                    if !ok {
                        return Err(format!("remove({k:#x}) gave {g:x?}, expected {e:x?}"));
                    }
                }
                Op::RMin => {
                    t.remove_min();
                    s.m.pop_first();
                }
                Op::RMax => {
                    t.remove_max();
                    s.m.pop_last();
                }
                Op::IntoMonad => {
                    if t.into_monad().is_ok() {
                        s.m.clear();
                    }
                }
                Op::FindMut(k, h, v) => {
                    if let Some((k, _)) = t.find_mut(k & mk, *h, Some(*v)) {
                        s.m.insert(k, *v);
                    }
                }
                Op::PredMut(k, h, v) => {
                    if let Some((k, _)) = t.pred_mut(k & mk, *h, Some(*v)) {
                        s.m.insert(k, *v);
                    }
                }
                Op::SuccMut(k, h, v) => {
                    if let Some((k, _)) = t.succ_mut(k & mk, *h, Some(*v)) {
                        s.m.insert(k, *v);
                    }
                }
                Op::MinMut(v) => {
                    let (k, _) = t.min_mut(Some(*v));
                    s.m.insert(k, *v);
                }
                Op::MaxMut(v) => {
                    let (k, _) = t.max_mut(Some(*v));
                    s.m.insert(k, *v);
                }
                Op::Probe(k, h) => {
                    t.find(k & mk, *h);
                    t.pred(k & mk, *h);
                    t.succ(k & mk, *h);
                }
                Op::Iter(n, side, _) => {
                    let mut it = t.iter();
                    for i in 0..*n {
                        if side >> (i as u64 % 64) & 1 == 1 {
                            it.next_back();
                        } else {
                            it.next();
                        }
                    }
                }
                Op::Handles(k) => {
                    let _ = t.handles(k & mk);
                }
                Op::Snap => {
                    t.try_clone();
                }
                Op::Full => {
                    t.min();
                    t.max();
                    t.is_monad();
                    t.len_hint();
                }
                _ => {}
            }
            if !t.present() || s.m.is_empty() {
                if t.present() != !s.m.is_empty() {
                    return Err(format!("{}: tree left: {}, expected {}", op.text(), t.present(), !s.m.is_empty()));
                }
                s.t = None;
                s.m.clear();
            }
        }
    }
    Ok(())
}

/// All observations of a tree agree with each other; returns the entries.
pub fn consistent(t: &mut dyn DynTree, bits: u32, probes: &[u128], counted: bool) -> R<Vec<KV>> {
    let cap = 4000;
    let f = t.iter().drain_front(cap);
    let mut b = t.iter().drain_back(cap);
    b.reverse();
    if f.is_empty() || f.len() == cap {
        return Err(format!("iteration yields {} entries", f.len()));
    }
    if !f.windows(2).all(|w| w[0].0 < w[1].0) {
        return Err(format!("iteration is not ascending: {f:x?}"));
    }
    if f != b {
        return Err(format!("forward {f:x?} and backward iteration {b:x?} disagree"));
    }
    let chk = |w: &str, g: Option<KV>, e: Option<KV>| if g == e { Ok(()) } else { Err(format!("{w} gives {g:x?}, iteration says {e:x?} (entries {f:x?})")) };
    chk("min_val", Some(t.min()), f.first().copied())?;
    chk("max_val", Some(t.max()), f.last().copied())?;
    chk("min_val_mut", Some(t.min_mut(None)), f.first().copied())?;
    chk("max_val_mut", Some(t.max_mut(None)), f.last().copied())?;
    // (a size-tracking tree checks its counter here, which an interrupted insertion may leave behind)
    if counted && t.is_monad() != (f.len() == 1) {
        return Err(format!("is_monad is {} with {} entries", t.is_monad(), f.len()));
    }
    let top = mask(bits);
    let mut qs: BTreeSet<u128> = probes.iter().map(|k| k & top).collect();
    for (k, _) in &f {
        qs.insert(*k);
        qs.insert(k.saturating_sub(1));
        qs.insert(k.saturating_add(1).min(top));
    }
    qs.insert(0);
    qs.insert(top);
    for q in qs {
        let e = f.iter().find(|e| e.0 == q).copied();
        let p = f.iter().rev().find(|e| e.0 < q).copied();
        let s = f.iter().find(|e| e.0 > q).copied();
        chk(&format!("find({q:#x})"), t.find(q, 1), e)?;
        chk(&format!("find_mut({q:#x})"), t.find_mut(q, 0, None), e)?;
        chk(&format!("predecessor({q:#x})"), t.pred(q, 1), p)?;
        chk(&format!("successor({q:#x})"), t.succ(q, 1), s)?;
        chk(&format!("predecessor_mut({q:#x})"), t.pred_mut(q, 1, None), p)?;
        chk(&format!("successor_mut({q:#x})"), t.succ_mut(q, 1, None), s)?;
    }
    Ok(f)
}
