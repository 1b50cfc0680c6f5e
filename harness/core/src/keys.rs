//! Key types of the monitored trees, each read and written as a canonical integer whose
//! order is the key order; and instrumented user-defined keys.

use std::cell::{Cell, RefCell};
use std::cmp::Ordering;
use std::hash::{Hash, Hasher};
use veb_tree::key::{MaybeBorrowed, SizedVebKey, VebKey, VebKeyRef, U2, U4};

/// Order-preserving correspondence between a key type and the integers below 2^BITS.
pub trait Kc: Clone + 'static {
    const BITS: u32;
    fn enc(u: u128) -> Self;
    fn dec(&self) -> u128;
}
pub fn mask(bits: u32) -> u128 {
    if bits == 0 {
        0
    } else {
        u128::MAX >> (128 - bits)
    }
}
impl Kc for () {
    const BITS: u32 = 0;
    fn enc(_: u128) {}
    fn dec(&self) -> u128 {
        0
    }
}
impl Kc for bool {
    const BITS: u32 = 1;
    fn enc(u: u128) -> bool {
        u & 1 == 1
    }
    fn dec(&self) -> u128 {
        *self as u128
    }
}
impl Kc for U2 {
    const BITS: u32 = 2;
    fn enc(u: u128) -> Self {
        U2::from(u as u8 & 3)
    }
    fn dec(&self) -> u128 {
        u8::from(U4::from(*self)) as u128
    }
}
impl Kc for U4 {
    const BITS: u32 = 4;
    fn enc(u: u128) -> Self {
        U4::from(u as u8 & 15)
    }
    fn dec(&self) -> u128 {
        u8::from(*self) as u128
    }
}
macro_rules! ints { ($($u:ty, $i:ty);*) => {$(
    impl Kc for $u {
        const BITS: u32 = <$u>::BITS;
        fn enc(u: u128) -> Self { u as $u }
        fn dec(&self) -> u128 { *self as u128 }
    }
    impl Kc for $i {
        const BITS: u32 = <$u>::BITS;
        fn enc(u: u128) -> Self { (u as $u ^ (1 << (<$u>::BITS - 1))) as $i }
        fn dec(&self) -> u128 { (*self as $u ^ (1 << (<$u>::BITS - 1))) as u128 }
    }
)*}}
ints!(u8, i8; u16, i16; u32, i32; u64, i64; u128, i128);

impl<T: Kc, const N: usize> Kc for [T; N] {
    const BITS: u32 = N as u32 * T::BITS;
    fn enc(u: u128) -> Self {
        std::array::from_fn(|i| T::enc((u >> (T::BITS * (N - 1 - i) as u32)) & mask(T::BITS)))
    }
    fn dec(&self) -> u128 {
        self.iter().fold(0, |a, t| a << T::BITS | t.dec())
    }
}

// ---------------------------------------------------------------------------------------
// Instrumented user keys

#[derive(Clone, Copy, Default, Debug, PartialEq, Eq)]
pub struct Counts {
    pub cmp: u64,
    pub clone: u64,
    pub hash: u64,
    pub split: u64,
    pub join: u64,
    pub index: u64,
}
impl Counts {
    pub fn total(&self) -> u64 {
        self.cmp + self.clone + self.hash + self.split + self.join + self.index
    }
}

#[derive(Default)]
struct KeyLedger {
    alive: Vec<bool>,
    live: usize,
    errors: Vec<String>,
}

thread_local! {
    static COUNTS: Cell<Counts> = Cell::new(Counts::default());
    /// Calls of user key code left before an injected panic; u64::MAX = off
    static FUSE: Cell<u64> = Cell::new(u64::MAX);
    static TICKS: Cell<u64> = Cell::new(0);
    static DELAY: Cell<bool> = const { Cell::new(false) };
    static LIMIT: Cell<u64> = Cell::new(u64::MAX);
    static KL: RefCell<KeyLedger> = RefCell::new(KeyLedger::default());
}

pub const INJECTED: &str = "injected fault in user key code";
pub const RUNAWAY: &str = "runaway: key work limit exceeded";

pub fn counts_reset() {
    COUNTS.with(|c| c.set(Counts::default()));
}
pub fn counts() -> Counts {
    COUNTS.with(|c| c.get())
}
/// Panic at the n-th (0-based) call of user key code from now on; u64::MAX disarms.
pub fn arm(n: u64) {
    FUSE.with(|f| f.set(n));
    TICKS.with(|t| t.set(0));
}
/// User key calls since `arm`.
pub fn ticks() -> u64 {
    TICKS.with(|t| t.get())
}
/// Give up the processor now and then inside user key code (on this thread), to open windows.
pub fn set_delay(on: bool) {
    DELAY.with(|d| d.set(on));
}
pub fn set_limit(n: u64) {
    LIMIT.with(|l| l.set(n));
}
fn tick(f: impl FnOnce(&mut Counts)) {
    COUNTS.with(|c| {
        let mut v = c.get();
        f(&mut v);
        c.set(v);
        if v.total() > LIMIT.with(|l| l.get()) {
            LIMIT.with(|l| l.set(u64::MAX));
            panic!("{}", RUNAWAY);
        }
    });
    TICKS.with(|t| t.set(t.get() + 1));
    if DELAY.with(|d| d.get()) && TICKS.with(|t| t.get()) % 5 == 0 {
        std::thread::yield_now();
    }
    FUSE.with(|f| {
        let n = f.get();
        if n == 0 {
            f.set(u64::MAX);
            if !std::thread::panicking() {
                panic!("{}", INJECTED);
            }
        } else if n != u64::MAX {
            f.set(n - 1);
        }
    });
}
/// Also usable from removal callbacks.
pub fn tick_callback() {
    tick(|_| {});
}

pub fn kl_reset() {
    KL.with(|l| *l.borrow_mut() = KeyLedger::default());
}
pub fn kl_live() -> usize {
    KL.with(|l| l.borrow().live)
}
pub fn kl_error() -> Option<String> {
    KL.with(|l| {
        let e = &mut l.borrow_mut().errors;
        if e.is_empty() {
            None
        } else {
            Some(e.remove(0))
        }
    })
}

/// Identity of one key object, for the exactly-once ledger.
#[derive(Debug)]
struct Kid(u32);
impl Kid {
    fn new() -> Kid {
        KL.with(|l| {
            let mut l = l.borrow_mut();
            l.alive.push(true);
            l.live += 1;
            Kid(l.alive.len() as u32 - 1)
        })
    }
    fn check(&self, what: &str) {
        KL.with(|l| {
            let mut l = l.borrow_mut();
            if !l.alive.get(self.0 as usize).copied().unwrap_or(false) && l.errors.len() < 8 {
                let s = format!("key object #{} used ({what}) after it was dropped", self.0);
                l.errors.push(s);
            }
        })
    }
}
impl Drop for Kid {
    fn drop(&mut self) {
        let _ = KL.try_with(|l| {
            let mut l = l.borrow_mut();
            let i = self.0 as usize;
            if i >= l.alive.len() || !l.alive[i] {
                if l.errors.len() < 8 {
                    let s = format!("key object #{i} dropped twice");
                    l.errors.push(s);
                }
            } else {
                l.alive[i] = false;
                l.live -= 1;
            }
        });
    }
}

macro_rules! user_key {
    ($name:ident, $bits:expr) => {
        /// User-defined key: not Copy, every operation counted, every object in the ledger.
        #[derive(Debug)]
        pub struct $name(u128, Kid);
        impl $name {
            fn raw(v: u128) -> Self {
                $name(v & mask($bits), Kid::new())
            }
        }
        impl Kc for $name {
            const BITS: u32 = $bits;
            fn enc(u: u128) -> Self {
                Self::raw(u)
            }
            fn dec(&self) -> u128 {
                self.1.check("read");
                self.0
            }
        }
        impl Clone for $name {
            fn clone(&self) -> Self {
                tick(|c| c.clone += 1);
                self.1.check("clone");
                Self::raw(self.0)
            }
        }
        impl PartialEq for $name {
            fn eq(&self, o: &Self) -> bool {
                tick(|c| c.cmp += 1);
                self.1.check("eq");
                o.1.check("eq");
                self.0 == o.0
            }
        }
        impl Eq for $name {}
        impl PartialOrd for $name {
            fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
                Some(self.cmp(o))
            }
        }
        impl Ord for $name {
            fn cmp(&self, o: &Self) -> Ordering {
                tick(|c| c.cmp += 1);
                self.1.check("cmp");
                o.1.check("cmp");
                self.0.cmp(&o.0)
            }
        }
        impl Hash for $name {
            fn hash<H: Hasher>(&self, h: &mut H) {
                tick(|c| c.hash += 1);
                self.1.check("hash");
                h.write_u128(self.0)
            }
        }
    };
}
macro_rules! user_split {
    ($name:ident, $hi:ty, $lo:ty) => {
        impl VebKey for $name {
            type Hi = $hi;
            type Lo = $lo;
            fn split_val(self) -> ($hi, $lo) {
                tick(|c| c.split += 1);
                self.1.check("split");
                (
                    <$hi as Kc>::enc(self.0 >> <$lo as Kc>::BITS),
                    <$lo as Kc>::enc(self.0 & mask(<$lo as Kc>::BITS)),
                )
            }
            fn join<'a>(hi: MaybeBorrowed<'a, $hi>, lo: MaybeBorrowed<'a, $lo>) -> Self {
                tick(|c| c.join += 1);
                Self::raw((*hi).dec() << <$lo as Kc>::BITS | (*lo).dec())
            }
        }
        impl VebKeyRef<$hi, $lo> for $name {
            fn split_ref<F, R>(&self, f: F) -> R
            where
                F: FnOnce(&$hi, &$lo) -> R,
            {
                tick(|c| c.split += 1);
                self.1.check("split");
                let hi = <$hi as Kc>::enc(self.0 >> <$lo as Kc>::BITS);
                let lo = <$lo as Kc>::enc(self.0 & mask(<$lo as Kc>::BITS));
                f(&hi, &lo)
            }
        }
    };
}
macro_rules! user_sized {
    ($name:ident, $card:ty, $n:expr) => {
        impl SizedVebKey for $name {
            const CARDINALITY: usize = $n;
            type Cardinality = $card;
            fn index(&self) -> usize {
                tick(|c| c.index += 1);
                self.0 as usize
            }
        }
    };
}
// fully instrumented down to one bit
user_key!(UK1, 1);
user_key!(UK2, 2);
user_key!(UK4, 4);
user_key!(UK8, 8);
user_key!(UK16, 16);
user_key!(UK32, 32);
user_key!(UK64, 64);
user_key!(UK128, 128);
user_split!(UK2, UK1, UK1);
user_split!(UK4, UK2, UK2);
user_split!(UK8, UK4, UK4);
user_split!(UK16, UK8, UK8);
user_split!(UK32, UK16, UK16);
user_split!(UK64, UK32, UK32);
user_split!(UK128, UK64, UK64);
user_sized!(UK2, typenum::U4, 4);
user_sized!(UK4, typenum::U16, 16);
user_sized!(UK8, typenum::U256, 256);
// instrumented above byte leaves
user_key!(VK16, 16);
user_key!(VK32, 32);
user_key!(VK24, 24);
user_split!(VK16, u8, u8);
user_split!(VK32, VK16, VK16);
user_split!(VK24, u8, VK16);
