//! How much stack a call reaches.
pub const DEEP: usize = 384 << 10;
const PAT: u64 = 0xa5c3_96e1_5a3c_691e;

#[inline(never)]
fn here() -> usize {
    let x = 0u8;
    std::hint::black_box(&x as *const u8 as usize) & !15
}
/// Bytes of stack below the caller that `f` reached, at most `DEEP`. The words painted lie far
/// below this frame; nothing else uses them (no signal handlers are installed).
#[inline(never)]
pub fn depth(seen: &mut usize, f: &mut dyn FnMut()) -> usize {
    let top = here() - 512;
    let lo = top - DEEP;
    // only what the previous measurement dirtied needs painting again
    let dirty = if *seen == 0 { DEEP } else { (*seen + 8192).min(DEEP) };
    let mut p = top - dirty;
    while p < top {
        unsafe { std::ptr::write_volatile(p as *mut u64, PAT) };
        p += 32;
    }
    f();
    let mut q = lo;
    while q < top && unsafe { std::ptr::read_volatile(q as *const u64) } == PAT {
        q += 32;
    }
    *seen = top - q;
    top - q
}
