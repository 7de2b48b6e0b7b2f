//! Guarding global allocator: redzones, poisoning, quarantine, layout matching and live counts.
//!
//! Problems are recorded (never panics inside the allocator); the engine asks for them after
//! every operation. Not used under Miri or AddressSanitizer, which do the same job themselves.

use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, AtomicUsize, Ordering::Relaxed};

const MAGIC_LIVE: u64 = 0x5AFE_A110_C8ED_0001;
const MAGIC_FREE: u64 = 0xDEAD_F4EE_D000_0002;
const TAIL: usize = 32;
const TAIL_BYTE: u8 = 0xC3;
const HEAD_BYTE: u8 = 0x3C;
pub const FRESH: u8 = 0xA7;
pub const FREED: u8 = 0xDE;
const QSLOTS: usize = 2048;
const QMAX_BLOCK: usize = 256 * 1024;

#[repr(C)]
struct Header {
    magic: u64,
    size: usize,
    align: usize,
    front: usize,
}

pub struct Guard;

static VIOL_COUNT: AtomicUsize = AtomicUsize::new(0);
static VIOL_KIND: [AtomicUsize; 8] = [const { AtomicUsize::new(0) }; 8];
static VIOL_A: AtomicUsize = AtomicUsize::new(0);
static VIOL_B: AtomicUsize = AtomicUsize::new(0);
static LIVE_BLOCKS: AtomicI64 = AtomicI64::new(0);
static LIVE_BYTES: AtomicI64 = AtomicI64::new(0);
static REQUESTED: AtomicU64 = AtomicU64::new(0);
static LOCK: AtomicBool = AtomicBool::new(false);
static FILL: AtomicBool = AtomicBool::new(true);

const KINDS: [&str; 8] = [
    "zero-sized memory request",
    "block released or resized with a different layout than it was obtained with",
    "block released twice or never obtained",
    "write past the end of a block",
    "write before the start of a block",
    "write to a released block",
    "null pointer passed to dealloc/realloc",
    "invalid alignment in memory request",
];

struct Quarantine {
    slots: [(usize, usize, usize); QSLOTS],
    pos: usize,
}
static mut QUAR: Quarantine = Quarantine {
    slots: [(0, 0, 0); QSLOTS],
    pos: 0,
};

fn report(kind: usize, a: usize, b: usize) {
    VIOL_KIND[kind].fetch_add(1, Relaxed);
    if VIOL_COUNT.fetch_add(1, Relaxed) == 0 {
        VIOL_A.store(a, Relaxed);
        VIOL_B.store(b, Relaxed);
    }
}

/// Description of the problems recorded since the last reset, if any.
pub fn problems() -> Option<String> {
    if VIOL_COUNT.load(Relaxed) == 0 {
        return None;
    }
    let mut out = String::from("allocator contract: ");
    for (i, k) in KINDS.iter().enumerate() {
        let n = VIOL_KIND[i].load(Relaxed);
        if n > 0 {
            out += &format!("{k} (x{n}); ");
        }
    }
    out += &format!(
        "first: size/recorded={} given={}",
        VIOL_A.load(Relaxed),
        VIOL_B.load(Relaxed)
    );
    Some(out)
}

pub fn reset() {
    VIOL_COUNT.store(0, Relaxed);
    for k in &VIOL_KIND {
        k.store(0, Relaxed);
    }
}

pub fn live_blocks() -> i64 {
    LIVE_BLOCKS.load(Relaxed)
}
pub fn live_bytes() -> i64 {
    LIVE_BYTES.load(Relaxed)
}
/// Bytes requested in all, released or not.
pub fn requested() -> u64 {
    REQUESTED.load(Relaxed)
}
/// Poison filling costs time on very large populations; redzones and layout checks stay on.
pub fn set_fill(on: bool) {
    FILL.store(on, Relaxed);
}

fn front_for(align: usize) -> usize {
    let h = std::mem::size_of::<Header>();
    let a = align.max(16);
    // header, at least 16 spare bytes, rounded to the alignment
    (h + 16 + a - 1) / a * a
}

// Memory that can be sealed against writing. Blocks obtained while `ARENA_ON` come from one mapping
// and are never reused; `seal` makes them read-only, and a write ends the process with status 77.
const ARENA_BYTES: usize = 4 << 30;
static ARENA_ON: AtomicBool = AtomicBool::new(false);
static ARENA: AtomicUsize = AtomicUsize::new(0);
static ARENA_USED: AtomicUsize = AtomicUsize::new(0);
pub const SEALED_STATUS: i32 = 77;

fn in_arena(p: usize) -> bool {
    let a = ARENA.load(Relaxed);
    a != 0 && p >= a && p < a + ARENA_BYTES
}

unsafe fn base_alloc(full: Layout, zero: bool) -> *mut u8 {
    if ARENA_ON.load(Relaxed) {
        let a = ARENA.load(Relaxed);
        let mut at = ARENA_USED.load(Relaxed);
        loop {
            let start = (a + at + full.align() - 1) / full.align() * full.align() - a;
            let end = start + full.size();
            if end > ARENA_BYTES {
                break;
            }
            match ARENA_USED.compare_exchange(at, end, Relaxed, Relaxed) {
                // fresh pages are zero
                Ok(_) => return (a + start) as *mut u8,
                Err(x) => at = x,
            }
        }
    }
    if zero {
        System.alloc_zeroed(full)
    } else {
        System.alloc(full)
    }
}

unsafe fn base_free(base: *mut u8, full: Layout) {
    if !in_arena(base as usize) {
        System.dealloc(base, full)
    }
}

/// Blocks obtained from now on can be sealed (or not).
pub fn arena(on: bool) {
    #[cfg(not(any(miri, feature = "asan")))]
    unsafe {
        if on && ARENA.load(Relaxed) == 0 {
            let p = libc::mmap(
                std::ptr::null_mut(),
                ARENA_BYTES,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
                -1,
                0,
            );
            if p == libc::MAP_FAILED {
                return;
            }
            ARENA.store(p as usize, Relaxed);
        }
        ARENA_ON.store(on, Relaxed);
    }
    let _ = on;
}

#[cfg(not(any(miri, feature = "asan")))]
extern "C" fn sealed_write(sig: i32, info: *mut libc::siginfo_t, _: *mut libc::c_void) {
    unsafe {
        if in_arena((*info).si_addr() as usize) {
            libc::_exit(SEALED_STATUS);
        }
        libc::signal(sig, libc::SIG_DFL);
    }
}

/// Makes everything obtained while the arena was on read-only (or writable again).
pub fn seal(on: bool) {
    #[cfg(not(any(miri, feature = "asan")))]
    unsafe {
        let a = ARENA.load(Relaxed);
        let n = (ARENA_USED.load(Relaxed) + 4095) / 4096 * 4096;
        if a == 0 || n == 0 {
            return;
        }
        if on {
            let mut sa: libc::sigaction = std::mem::zeroed();
            sa.sa_sigaction = sealed_write as *const () as usize;
            sa.sa_flags = libc::SA_SIGINFO | libc::SA_ONSTACK;
            libc::sigaction(libc::SIGSEGV, &sa, std::ptr::null_mut());
        }
        let prot = if on { libc::PROT_READ } else { libc::PROT_READ | libc::PROT_WRITE };
        assert_eq!(libc::mprotect(a as *mut _, n, prot), 0);
        // what comes next starts on a page of its own
        ARENA_USED.store(n, Relaxed);
    }
    let _ = on;
}

unsafe fn obtain(layout: Layout, zero: bool) -> *mut u8 {
    let (size, align) = (layout.size(), layout.align());
    if align == 0 || !align.is_power_of_two() {
        report(7, size, align);
        return std::ptr::null_mut();
    }
    if size == 0 {
        report(0, size, align);
    }
    REQUESTED.fetch_add(size as u64, Relaxed);
    let front = front_for(align);
    let Some(total) = size.checked_add(front + TAIL) else {
        return std::ptr::null_mut();
    };
    let Ok(full) = Layout::from_size_align(total, align.max(16)) else {
        return std::ptr::null_mut();
    };
    let base = base_alloc(full, zero);
    if base.is_null() {
        return base;
    }
    let user = base.add(front);
    let h = user.sub(std::mem::size_of::<Header>()) as *mut Header;
    // spare bytes between base and header
    let spare = front - std::mem::size_of::<Header>();
    let s = spare.min(64);
    std::ptr::write_bytes((h as *mut u8).sub(s), HEAD_BYTE, s);
    h.write_unaligned(Header {
        magic: MAGIC_LIVE,
        size,
        align,
        front,
    });
    if !zero && FILL.load(Relaxed) {
        std::ptr::write_bytes(user, FRESH, size);
    }
    std::ptr::write_bytes(user.add(size), TAIL_BYTE, TAIL);
    LIVE_BLOCKS.fetch_add(1, Relaxed);
    LIVE_BYTES.fetch_add(size as i64, Relaxed);
    user
}

unsafe fn all(p: *const u8, n: usize, b: u8) -> bool {
    let s = std::slice::from_raw_parts(p, n);
    s.iter().all(|x| *x == b)
}

/// Checks header and redzones. Returns the recorded (size, align, front) if it is a live block.
unsafe fn inspect(user: *mut u8, layout: Layout) -> Option<(usize, usize, usize)> {
    if user.is_null() {
        report(6, 0, layout.size());
        return None;
    }
    let h = user.sub(std::mem::size_of::<Header>()) as *mut Header;
    let hd = h.read_unaligned();
    if hd.magic != MAGIC_LIVE {
        report(2, 0, layout.size());
        return None;
    }
    if hd.size != layout.size() || hd.align != layout.align() {
        report(1, hd.size, layout.size());
    }
    if layout.size() == 0 {
        report(0, hd.size, 0);
    }
    if !all(user.add(hd.size), TAIL, TAIL_BYTE) {
        report(3, hd.size, layout.size());
    }
    let s = (hd.front - std::mem::size_of::<Header>()).min(64);
    if !all((h as *mut u8).sub(s), s, HEAD_BYTE) {
        report(4, hd.size, layout.size());
    }
    Some((hd.size, hd.align, hd.front))
}

unsafe fn really_free(user: usize, size: usize, align: usize) {
    let front = front_for(align);
    base_free(
        (user as *mut u8).sub(front),
        Layout::from_size_align_unchecked(size + front + TAIL, align.max(16)),
    );
}

unsafe fn release(user: *mut u8, layout: Layout) {
    let Some((size, align, _)) = inspect(user, layout) else {
        return;
    };
    let h = user.sub(std::mem::size_of::<Header>()) as *mut Header;
    (*h).magic = MAGIC_FREE;
    LIVE_BLOCKS.fetch_sub(1, Relaxed);
    LIVE_BYTES.fetch_sub(size as i64, Relaxed);
    if FILL.load(Relaxed) {
        std::ptr::write_bytes(user, FREED, size);
    }
    if size > QMAX_BLOCK || !FILL.load(Relaxed) {
        really_free(user as usize, size, align);
        return;
    }
    while LOCK.swap(true, std::sync::atomic::Ordering::Acquire) {
        std::hint::spin_loop();
    }
    let q = &mut *std::ptr::addr_of_mut!(QUAR);
    let old = q.slots[q.pos];
    q.slots[q.pos] = (user as usize, size, align);
    q.pos = (q.pos + 1) % QSLOTS;
    LOCK.store(false, std::sync::atomic::Ordering::Release);
    if old.0 != 0 {
        let n = old.1.min(4096);
        if !all(old.0 as *const u8, n, FREED) {
            report(5, old.1, 0);
        }
        really_free(old.0, old.1, old.2);
    }
}

unsafe fn remap(user: *mut u8, size: usize, align: usize, new_size: usize) -> *mut u8 {
    let front = front_for(align);
    let full = Layout::from_size_align_unchecked(size + front + TAIL, align.max(16));
    REQUESTED.fetch_add(new_size as u64, Relaxed);
    let base = System.realloc(user.sub(front), full, new_size + front + TAIL);
    if base.is_null() {
        return base;
    }
    let user = base.add(front);
    let h = user.sub(std::mem::size_of::<Header>()) as *mut Header;
    let mut hd = h.read_unaligned();
    hd.size = new_size;
    h.write_unaligned(hd);
    std::ptr::write_bytes(user.add(new_size), TAIL_BYTE, TAIL);
    LIVE_BYTES.fetch_add(new_size as i64 - size as i64, Relaxed);
    user
}

/// Checks that no quarantined (released) block has been written to.
pub fn sweep() {
    #[cfg(not(any(miri, feature = "asan")))]
    unsafe {
        if !FILL.load(Relaxed) {
            return;
        }
        let q = &*std::ptr::addr_of!(QUAR);
        for s in q.slots.iter() {
            if s.0 != 0 && !all(s.0 as *const u8, s.1, FREED) {
                report(5, s.1, 0);
            }
        }
    }
}

// Refusing memory: while the window is open, the request with this number (and all after it that ask
// for more memory, if `REFUSE_ALL`) gets a null pointer.
static WINDOW: AtomicBool = AtomicBool::new(false);
static REFUSE_AT: AtomicI64 = AtomicI64::new(-1);
static REFUSE_ALL: AtomicBool = AtomicBool::new(false);
static QUIET: AtomicBool = AtomicBool::new(false);
static REFUSED: AtomicUsize = AtomicUsize::new(0);
pub const OUT_OF_MEMORY_STATUS: i32 = 78;

fn refuse(size: usize) -> bool {
    // (small requests are granted: a panic's message needs some)
    if !WINDOW.load(Relaxed) || size < if REFUSED.load(Relaxed) > 0 { 300 } else { 128 } {
        return false;
    }
    let n = REFUSE_AT.load(Relaxed);
    if n < 0 {
        return false;
    }
    if n > 0 {
        REFUSE_AT.store(n - 1, Relaxed);
        return false;
    }
    if !REFUSE_ALL.load(Relaxed) {
        REFUSE_AT.store(-1, Relaxed);
    }
    REFUSED.fetch_add(1, Relaxed);
    true
}

#[cfg(not(any(miri, feature = "asan")))]
extern "C" fn aborted(sig: i32) {
    unsafe {
        if WINDOW.load(Relaxed) && REFUSED.load(Relaxed) > 0 {
            // the way Rust's collections end the process when there is no memory
            libc::_exit(OUT_OF_MEMORY_STATUS);
        }
        libc::signal(sig, libc::SIG_DFL);
        libc::raise(sig);
    }
}

/// The `nth` request for memory made by the library from now on is refused.
pub fn starve(nth: u8, all: bool) {
    #[cfg(not(any(miri, feature = "asan")))]
    unsafe {
        libc::signal(libc::SIGABRT, aborted as *const () as usize);
        if !QUIET.swap(true, Relaxed) {
            // (what is printed about it would ask for memory, too)
            let n = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
            libc::dup2(n, 2);
        }
    }
    REFUSED.store(0, Relaxed);
    REFUSE_ALL.store(all, Relaxed);
    REFUSE_AT.store(nth as i64, Relaxed);
}

/// The library is being called (requests count), or not.
pub fn window(open: bool) {
    WINDOW.store(open, Relaxed);
}

/// No more refusals. Returns how many there were.
pub fn feed() -> usize {
    window(false);
    REFUSE_AT.store(-1, Relaxed);
    REFUSED.swap(0, Relaxed)
}

unsafe impl GlobalAlloc for Guard {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        if refuse(layout.size()) {
            return std::ptr::null_mut();
        }
        obtain(layout, false)
    }
    unsafe fn alloc_zeroed(&self, layout: Layout) -> *mut u8 {
        if refuse(layout.size()) {
            return std::ptr::null_mut();
        }
        obtain(layout, true)
    }
    unsafe fn dealloc(&self, ptr: *mut u8, layout: Layout) {
        release(ptr, layout)
    }
    unsafe fn realloc(&self, ptr: *mut u8, layout: Layout, new_size: usize) -> *mut u8 {
        if new_size == 0 {
            report(0, layout.size(), 0);
        }
        if new_size > layout.size() && refuse(new_size) {
            return std::ptr::null_mut();
        }
        let Some((size, align, _)) = inspect(ptr, layout) else {
            // Behave as a plain request so that the run can go on to be reported.
            return obtain(
                Layout::from_size_align(new_size, layout.align().max(1)).unwrap_or(layout),
                false,
            );
        };
        if !FILL.load(Relaxed) && !in_arena(ptr as usize) && align <= 16 && size > 64 << 20 && new_size > 64 << 20 {
            // Very large: let the system remap it instead of copying.
            return remap(ptr, size, align, new_size);
        }
        let new = obtain(Layout::from_size_align_unchecked(new_size, align), false);
        if new.is_null() {
            return new;
        }
        std::ptr::copy_nonoverlapping(ptr, new, size.min(new_size));
        // inspected already: release with the recorded layout so nothing is reported twice
        release(ptr, Layout::from_size_align_unchecked(size.max(1), align));
        new
    }
}
