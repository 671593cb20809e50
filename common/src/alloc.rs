//! A global allocator that counts live bytes and blocks per thread.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;
thread_local! {
    static BYTES: Cell<i64> = const { Cell::new(0) };
    static BLOCKS: Cell<i64> = const { Cell::new(0) };
}
fn add(bytes: i64, blocks: i64) {
    let _ = BYTES.try_with(|b| b.set(b.get() + bytes));
    let _ = BLOCKS.try_with(|b| b.set(b.get() + blocks));
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size() as i64, 1);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as i64), -1);
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size() as i64, 1);
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        add(n as i64 - l.size() as i64, 0);
        System.realloc(p, l, n)
    }
}
/// Live (bytes, blocks) allocated minus freed by this thread.
pub fn live() -> (i64, i64) {
    (BYTES.with(|b| b.get()), BLOCKS.with(|b| b.get()))
}

/// Like `Counting`, and notices misuse: blocks freed twice, freed with another layout than they were
/// allocated with, or written past their end or after being freed. New blocks are filled with 0xAA
/// and freed ones with 0xDD, so that reads of either give implausible values.
pub struct Strict;
const LIVE: u64 = 0x6c69_7665_b10c_c0de;
const SOFT: u64 = 0x50f7_50f7_b10c_c0de;
const DEAD: u64 = 0xdead_dead_b10c_c0de;
const TAIL: u64 = 0x7a11_7a11_7a11_7a11;
const FILL: usize = 512;
const QUEUE: usize = 256;
#[repr(C)]
struct Head {
    magic: u64,
    size: usize,
    align: usize,
    raw: *mut u8,
}
const HEAD: usize = std::mem::size_of::<Head>();
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Fault {
    None,
    DoubleFree { size: usize },
    NotAllocated,
    WrongLayout { size: usize, align: usize, freed_size: usize, freed_align: usize },
    PastEnd { size: usize },
    AfterFree { size: usize },
}
thread_local! {
    static FAULT: Cell<Fault> = const { Cell::new(Fault::None) };
    static QUAR: Cell<*mut *mut u8> = const { Cell::new(std::ptr::null_mut()) };
    static QPOS: Cell<usize> = const { Cell::new(0) };
    static FREES: Cell<u64> = const { Cell::new(0) };
    static OTHER: Cell<u64> = const { Cell::new(0) };
}
thread_local! {
    static HARD: Cell<bool> = const { Cell::new(true) };
}
/// Whether blocks that this thread allocates from now on are watched. Gives what held before.
pub fn watch(on: bool) -> bool {
    HARD.with(|h| h.replace(on))
}
/// How many blocks this thread has freed.
pub fn frees() -> u64 {
    FREES.with(|f| f.get())
}
/// The blocks that this thread freed after it had freed `since`, unless they are too many.
pub fn freed(since: u64) -> Option<Vec<u64>> {
    let n = frees().wrapping_sub(since);
    if n as usize > QUEUE || OTHER.with(|o| o.get()) > since {
        return None;
    }
    let (q, at) = (QUAR.with(|q| q.get()), QPOS.with(|p| p.get()));
    Some((1..=n as usize).map(|i| unsafe { *q.add((at + QUEUE - i) % QUEUE) as u64 }).collect())
}
fn fault(f: Fault) {
    let _ = FAULT.try_with(|x| {
        if x.get() == Fault::None {
            x.set(f)
        }
    });
}
/// The first fault on this thread since the last call.
pub fn take_fault() -> Fault {
    // blocks that wait to be reused are looked at as well
    let _ = QUAR.try_with(|q| {
        let q = q.get();
        if !q.is_null() {
            for i in 0..QUEUE {
                unsafe { check_poison(*q.add(i)) }
            }
        }
    });
    FAULT.with(|f| f.replace(Fault::None))
}
/// The first fault on this thread since the last `take_fault`, without a look at freed blocks.
pub fn fault_so_far() -> Fault {
    FAULT.with(|f| f.get())
}
unsafe fn raw_layout(size: usize, align: usize) -> (std::alloc::Layout, usize) {
    let align = align.max(16);
    let pre = (HEAD + align - 1) / align * align;
    (Layout::from_size_align_unchecked(pre + size + 8, align), pre)
}
unsafe fn check_poison(p: *mut u8) {
    if p.is_null() {
        return;
    }
    let h = &*(p.sub(HEAD) as *const Head);
    for i in 0..h.size.min(FILL) {
        if *p.add(i) != 0xDD {
            std::ptr::write_bytes(p, 0xDD, h.size.min(FILL));
            return fault(Fault::AfterFree { size: h.size });
        }
    }
}
unsafe fn release(p: *mut u8) {
    if p.is_null() {
        return;
    }
    check_poison(p);
    let h = p.sub(HEAD) as *mut Head;
    let (l, _) = raw_layout((*h).size, (*h).align);
    let raw = (*h).raw;
    (*h).magic = 0;
    System.dealloc(raw, l)
}
unsafe impl GlobalAlloc for Strict {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let (rl, pre) = raw_layout(l.size(), l.align());
        let raw = System.alloc(rl);
        if raw.is_null() {
            return raw;
        }
        let p = raw.add(pre);
        if !HARD.try_with(|h| h.get()).unwrap_or(true) {
            *(p.sub(HEAD) as *mut Head) = Head { magic: SOFT, size: l.size(), align: l.align(), raw };
            return p;
        }
        *(p.sub(HEAD) as *mut Head) = Head { magic: LIVE, size: l.size(), align: l.align(), raw };
        std::ptr::write_bytes(p, 0xAA, l.size().min(FILL));
        (p.add(l.size()) as *mut u64).write_unaligned(TAIL);
        add(l.size() as i64, 1);
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = self.alloc(l);
        if !p.is_null() {
            std::ptr::write_bytes(p, 0, l.size());
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let h = p.sub(HEAD) as *mut Head;
        match (*h).magic {
            LIVE => {}
            SOFT => {
                (*h).magic = 0;
                let (rl, _) = raw_layout((*h).size, (*h).align);
                return System.dealloc((*h).raw, rl);
            }
            DEAD => return fault(Fault::DoubleFree { size: (*h).size }),
            _ => return fault(Fault::NotAllocated),
        }
        let size = (*h).size;
        if size != l.size() || (*h).align != l.align() {
            fault(Fault::WrongLayout { size, align: (*h).align, freed_size: l.size(), freed_align: l.align() });
        }
        if (p.add(size) as *mut u64).read_unaligned() != TAIL {
            fault(Fault::PastEnd { size });
        }
        add(-(size as i64), -1);
        (*h).magic = DEAD;
        let _ = FREES.try_with(|f| f.set(f.get() + 1));
        std::ptr::write_bytes(p, 0xDD, size.min(FILL));
        let old = QUAR.try_with(|q| {
            if size > 1 << 16 {
                OTHER.with(|o| o.set(frees()));
                return p;
            }
            if q.get().is_null() {
                let t = System.alloc_zeroed(Layout::array::<*mut u8>(QUEUE).unwrap()) as *mut *mut u8;
                q.set(t)
            }
            QPOS.with(|i| {
                let n = i.get();
                i.set((n + 1) % QUEUE);
                std::mem::replace(&mut *q.get().add(n), p)
            })
        });
        release(old.unwrap_or(p))
    }
}
/// Whether a live block of `Strict` begins at this address, which must be one that can be read from.
pub unsafe fn begins_block(p: u64) -> bool {
    if p % 8 != 0 || (p as usize) < 1 << 16 {
        return false;
    }
    let h = &*((p as usize - HEAD) as *const Head);
    h.magic == LIVE && (h.raw as u64) < p && p - (h.raw as u64) <= 1 << 16
}
