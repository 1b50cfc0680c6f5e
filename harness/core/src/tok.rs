//! Values stored in the trees under test, and the exactly-once ledger.

use std::cell::RefCell;

#[derive(Default)]
pub struct Ledger {
    alive: Vec<bool>,
    pay: Vec<u64>,
    live: usize,
    pub created: u64,
    pub dropped: u64,
    errors: Vec<String>,
}

thread_local! {
    static LEDGER: RefCell<Ledger> = RefCell::new(Ledger::default());
}

fn with<R>(f: impl FnOnce(&mut Ledger) -> R) -> Option<R> {
    LEDGER.try_with(|l| f(&mut l.borrow_mut())).ok()
}

/// Forget everything recorded (start of a case). Tokens alive across a reset are reported.
pub fn reset() {
    with(|l| {
        l.alive.clear();
        l.pay.clear();
        l.live = 0;
        l.errors.clear();
    });
}
pub fn live() -> usize {
    with(|l| l.live).unwrap_or(0)
}
pub fn take_error() -> Option<String> {
    with(|l| if l.errors.is_empty() { None } else { Some(l.errors.remove(0)) }).flatten()
}
/// (values created, values dropped) on this thread so far
pub fn totals() -> (u64, u64) {
    with(|l| (l.created, l.dropped)).unwrap_or((0, 0))
}
fn err(l: &mut Ledger, s: String) {
    if l.errors.len() < 8 {
        l.errors.push(s)
    }
}

/// Does this failure (a ledger entry, possibly with context) say that memory was misused?
pub fn misuse(what: &str) -> bool {
    ["dropped twice", "after it was dropped", "but holds", "outlived its case", "more values without size dropped", "not aligned for it"]
        .iter()
        .any(|s| what.contains(s))
}

/// Something a monitor of user-supplied parts saw.
pub fn breach(s: String) {
    with(|l| err(l, s));
}

/// A value with an identity. Construction, reading and dropping are recorded.
pub struct Tok {
    id: u32,
    pay: u64,
}
impl Tok {
    pub fn new(pay: u64) -> Tok {
        let id = with(|l| {
            l.alive.push(true);
            l.pay.push(pay);
            l.live += 1;
            l.created += 1;
            l.alive.len() as u32 - 1
        })
        .unwrap_or(0);
        Tok { id, pay }
    }
    pub fn get(&self) -> u64 {
        with(|l| {
            let i = self.id as usize;
            if !l.alive.get(i).copied().unwrap_or(false) {
                err(l, format!("value #{} read after it was dropped", self.id));
            } else if l.pay[i] != self.pay {
                let p = l.pay[i];
                err(l, format!("value #{} reads {} but holds {}", self.id, self.pay, p));
            }
        });
        self.pay
    }
    pub fn set(&mut self, pay: u64) {
        with(|l| {
            let i = self.id as usize;
            if !l.alive.get(i).copied().unwrap_or(false) {
                err(l, format!("value #{} written after it was dropped", self.id));
            } else {
                l.pay[i] = pay;
            }
        });
        self.pay = pay;
    }
}
impl Clone for Tok {
    fn clone(&self) -> Tok {
        crate::keys::tick_callback();
        Tok::new(self.get())
    }
}
impl Drop for Tok {
    fn drop(&mut self) {
        with(|l| {
            let i = self.id as usize;
            if i >= l.alive.len() {
                err(l, format!("value #{} outlived its case", self.id));
            } else if !l.alive[i] {
                err(l, format!("value #{} (payload {}) dropped twice", self.id, self.pay));
            } else {
                l.alive[i] = false;
                l.live -= 1;
                l.dropped += 1;
            }
        });
    }
}

/// A value type usable in the monitored trees, read and written as an integer.
pub trait Val: 'static {
    const MASK: u64;
    /// recorded in the ledger
    const TOK: bool = false;
    fn mk(u: u64) -> Self;
    fn rd(&self) -> u64;
    fn wr(&mut self, u: u64);
}
impl Val for () {
    const MASK: u64 = 0;
    fn mk(_: u64) {}
    fn rd(&self) -> u64 {
        0
    }
    fn wr(&mut self, _: u64) {}
}
impl Val for u8 {
    const MASK: u64 = 0xff;
    fn mk(u: u64) -> u8 {
        u as u8
    }
    fn rd(&self) -> u64 {
        *self as u64
    }
    fn wr(&mut self, u: u64) {
        *self = u as u8
    }
}
impl Val for u64 {
    const MASK: u64 = !0;
    fn mk(u: u64) -> u64 {
        u
    }
    fn rd(&self) -> u64 {
        *self
    }
    fn wr(&mut self, u: u64) {
        *self = u
    }
}
impl Val for Box<u64> {
    const MASK: u64 = !0;
    fn mk(u: u64) -> Self {
        Box::new(u)
    }
    fn rd(&self) -> u64 {
        **self
    }
    fn wr(&mut self, u: u64) {
        **self = u
    }
}
impl Val for [u64; 9] {
    const MASK: u64 = !0;
    fn mk(u: u64) -> Self {
        [u; 9]
    }
    fn rd(&self) -> u64 {
        if self.iter().any(|x| *x != self[0]) {
            return 0xBAD0_BAD0_BAD0_BAD0;
        }
        self[0]
    }
    fn wr(&mut self, u: u64) {
        *self = [u; 9]
    }
}
impl Val for Tok {
    const MASK: u64 = !0;
    const TOK: bool = true;
    fn mk(u: u64) -> Self {
        Tok::new(u)
    }
    fn rd(&self) -> u64 {
        self.get()
    }
    fn wr(&mut self, u: u64) {
        self.set(u)
    }
}

/// A value that takes no room and still has to be dropped once.
pub struct Zt(());
impl Zt {
    pub fn new() -> Zt {
        with(|l| {
            l.live += 1;
            l.created += 1;
        });
        Zt(())
    }
}
impl Default for Zt {
    fn default() -> Self {
        Zt::new()
    }
}
impl Clone for Zt {
    fn clone(&self) -> Zt {
        crate::keys::tick_callback();
        Zt::new()
    }
}
impl Drop for Zt {
    fn drop(&mut self) {
        with(|l| {
            if l.live == 0 {
                err(l, "more values without size dropped than made".to_string());
            } else {
                l.live -= 1;
                l.dropped += 1;
            }
        });
    }
}
impl Val for Zt {
    const MASK: u64 = 0;
    const TOK: bool = true;
    fn mk(_: u64) -> Self {
        Zt::new()
    }
    fn rd(&self) -> u64 {
        0
    }
    fn wr(&mut self, _: u64) {}
}

/// A value that must lie on a cache line of its own.
#[repr(align(64))]
#[derive(Clone)]
pub struct Al(Tok);
impl Val for Al {
    const MASK: u64 = !0;
    const TOK: bool = true;
    fn mk(u: u64) -> Self {
        Al(Tok::new(u))
    }
    fn rd(&self) -> u64 {
        if self as *const Al as usize % 64 != 0 {
            with(|l| err(l, "a value is read from an address that is not aligned for it".to_string()));
        }
        self.0.get()
    }
    fn wr(&mut self, u: u64) {
        self.0.set(u)
    }
}

/// A value whose absence and presence share one representation.
impl Val for Option<Box<u64>> {
    const MASK: u64 = !0;
    fn mk(u: u64) -> Self {
        if u == 0 {
            None
        } else {
            Some(Box::new(u))
        }
    }
    fn rd(&self) -> u64 {
        self.as_ref().map_or(0, |b| **b)
    }
    fn wr(&mut self, u: u64) {
        *self = Self::mk(u)
    }
}
