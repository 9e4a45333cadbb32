//! An allocator that checks its callers: every block carries a header, so
//! that freeing a block twice, freeing what was never allocated or freeing
//! with another layout ends the process; freed memory is overwritten; and the
//! blocks allocated while recording is on are counted until they are freed.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

const LIVE: u64 = 0x1A11_0CA7_ED01_5A5A;
const DEAD: u64 = 0xDEAD_B10C_DEAD_B10C;

#[repr(C)]
struct Header {
    magic: u64,
    size: usize,
    align: usize,
    tracked: usize,
}

thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static BLOCKS: Cell<i64> = const { Cell::new(0) };
    static BYTES: Cell<i64> = const { Cell::new(0) };
    static TOTAL: Cell<i64> = const { Cell::new(0) };
}

pub struct Guard;

fn die(what: &str) -> ! {
    ON.with(|x| x.set(false));
    use std::io::Write;
    let _ = std::io::stderr().write_all(what.as_bytes());
    std::process::abort()
}

fn pad(align: usize) -> usize {
    align.max(std::mem::size_of::<Header>())
}

unsafe impl GlobalAlloc for Guard {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() == 0 {
            die("memory allocation of zero bytes requested\n");
        }
        let pad = pad(l.align());
        let p = System.alloc(Layout::from_size_align_unchecked(l.size() + pad, l.align().max(16)));
        if p.is_null() {
            return p;
        }
        let tracked = ON.try_with(|x| x.get()).unwrap_or(false);
        if tracked {
            BLOCKS.with(|x| x.set(x.get() + 1));
            BYTES.with(|x| x.set(x.get() + l.size() as i64));
            TOTAL.with(|x| x.set(x.get() + 1));
        }
        let u = p.add(pad);
        *(u.sub(32) as *mut Header) = Header { magic: LIVE, size: l.size(), align: l.align(), tracked: tracked as usize };
        std::ptr::write_bytes(u, 0xA5, l.size());
        u
    }
    unsafe fn dealloc(&self, u: *mut u8, l: Layout) {
        let h = u.sub(32) as *mut Header;
        if (*h).magic == DEAD {
            die("memory allocation freed twice\n");
        }
        if (*h).magic != LIVE {
            die("memory allocation freed that was never made, or its header overwritten\n");
        }
        if (*h).size != l.size() || (*h).align != l.align() {
            die("memory allocation freed with another layout\n");
        }
        if (*h).tracked != 0 {
            BLOCKS.with(|x| x.set(x.get() - 1));
            BYTES.with(|x| x.set(x.get() - l.size() as i64));
        }
        (*h).magic = DEAD;
        std::ptr::write_bytes(u, 0xDE, l.size());
        let pad = pad(l.align());
        System.dealloc(u.sub(pad), Layout::from_size_align_unchecked(l.size() + pad, l.align().max(16)));
    }
}

/// Whether allocations are counted from here on; returns what it was.
pub fn counting(on: bool) -> bool {
    ON.with(|x| x.replace(on))
}
/// Blocks and bytes that were counted and are not freed yet.
pub fn live() -> (i64, i64) {
    (BLOCKS.with(|x| x.get()), BYTES.with(|x| x.get()))
}
/// Blocks counted so far.
pub fn total() -> i64 {
    TOTAL.with(|x| x.get())
}
/// Run something whose allocations are not counted.
pub fn aside<R>(f: impl FnOnce() -> R) -> R {
    let was = counting(false);
    let r = f();
    counting(was);
    r
}
