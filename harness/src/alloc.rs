//! A checking allocator: notices double frees and frees with a different layout, poisons freed memory,
//! and accounts for the memory held by the current thread.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Checking;

thread_local! {
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static BLOCKS: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
    static LIMIT: Cell<isize> = const { Cell::new(isize::MAX) };
}

/// Bytes allocated minus bytes freed by this thread.
pub fn live() -> isize {
    LIVE.with(Cell::get)
}
pub fn blocks() -> isize {
    BLOCKS.with(Cell::get)
}
pub fn reset_peak() {
    PEAK.with(|p| p.set(live()));
}
pub fn peak() -> isize {
    PEAK.with(Cell::get)
}
/// Makes allocations beyond `bytes` more than currently held fail (which aborts the process).
pub fn limit(bytes: Option<usize>) {
    LIMIT.with(|l| l.set(bytes.map_or(isize::MAX, |b| live() + b as isize)));
}

const LIVE_MAGIC: u64 = 0xA110_CA7E_D000_0001;
const DEAD_MAGIC: u64 = 0xDEAD_DEAD_DEAD_0002;

#[repr(C)]
struct Head {
    magic: u64,
    size: u32,
    align: u32,
}

fn offset(align: usize) -> usize {
    if align < 16 {
        16
    } else {
        align
    }
}

fn die(msg: &str) -> ! {
    use std::io::Write;
    let _ = std::io::stderr().write_all(msg.as_bytes());
    std::process::abort()
}

unsafe impl GlobalAlloc for Checking {
    #[inline]
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let off = offset(l.align());
        let live = LIVE.try_with(|x| x.get() + l.size() as isize).unwrap_or(0);
        if live > LIMIT.try_with(Cell::get).unwrap_or(isize::MAX) {
            return std::ptr::null_mut();
        }
        let p = System.alloc(Layout::from_size_align_unchecked(l.size() + off, l.align().max(16)));
        if p.is_null() {
            return p;
        }
        let u = p.add(off);
        *(u.sub(16) as *mut Head) = Head { magic: LIVE_MAGIC, size: l.size() as u32, align: l.align() as u32 };
        let _ = LIVE.try_with(|x| x.set(live));
        let _ = PEAK.try_with(|x| x.set(x.get().max(live)));
        let _ = BLOCKS.try_with(|x| x.set(x.get() + 1));
        u
    }

    #[inline]
    unsafe fn dealloc(&self, u: *mut u8, l: Layout) {
        let off = offset(l.align());
        let h = &mut *(u.sub(16) as *mut Head);
        if h.magic != LIVE_MAGIC {
            if h.magic == DEAD_MAGIC {
                die("CHECKING-ALLOCATOR: double free\n");
            }
            die("CHECKING-ALLOCATOR: free of a pointer that was not allocated, or overwritten heap header\n");
        }
        if h.size != l.size() as u32 || h.align != l.align() as u32 {
            die("CHECKING-ALLOCATOR: freed with a different layout than allocated\n");
        }
        h.magic = DEAD_MAGIC;
        std::ptr::write_bytes(u, 0xDD, l.size().min(512));
        let _ = LIVE.try_with(|x| x.set(x.get() - l.size() as isize));
        let _ = BLOCKS.try_with(|x| x.set(x.get() - 1));
        System.dealloc(u.sub(off), Layout::from_size_align_unchecked(l.size() + off, l.align().max(16)));
    }
}
