//! The allocator seam: while the system under test runs, all memory comes from an arena whose reuse policy, contents,
//! addresses and failures the simulator decides.

use crate::rt::HOT;
use crate::sys;
use std::alloc::{GlobalAlloc, Layout, System};

pub struct SimAlloc;

#[global_allocator]
static GLOBAL: SimAlloc = SimAlloc;

const SMALL: usize = 64; // classes of 16 bytes up to 1024
const CLASSES: usize = SMALL + 24;
const SIZE: usize = 1 << 30;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Reuse {
    Lifo,
    Fifo,
    Never,
}

pub struct Arena {
    base: usize,
    next: usize,
    head: [usize; CLASSES],
    tail: [usize; CLASSES],
    reuse: Reuse,
    fill: Option<u64>,
    pub live_bytes: u64,
    pub live_count: u64,
    pub total: u64,
    /// Allocations seen by the current attempt.
    pub seq: u64,
    /// The allocations of the current attempt that fail: `fail.0 <= seq < fail.1`.
    pub fail: (u64, u64),
    pub failed: u64,
    pub reused: u64,
}

pub static mut ARENA: Arena = Arena {
    base: 0,
    next: 0,
    head: [0; CLASSES],
    tail: [0; CLASSES],
    reuse: Reuse::Lifo,
    fill: None,
    live_bytes: 0,
    live_count: 0,
    total: 0,
    seq: 0,
    fail: (u64::MAX, u64::MAX),
    failed: 0,
    reused: 0,
};

fn class(size: usize) -> (usize, usize) {
    let s = size.max(1).div_ceil(16);
    if s <= SMALL {
        (s - 1, s * 16)
    } else {
        let b = size.next_power_of_two();
        (SMALL + (b.trailing_zeros() as usize - 11).min(CLASSES - SMALL - 1), b)
    }
}

impl Arena {
    pub fn setup(&mut self, base: usize, reuse: Reuse, fill: Option<u64>) {
        let p = unsafe {
            sys::mmap(
                base as *mut u8,
                SIZE,
                sys::PROT_RW,
                sys::MAP_PRIVATE | sys::MAP_ANON | sys::MAP_NORESERVE | sys::MAP_FIXED_NOREPLACE,
                -1,
                0,
            )
        };
        assert!(p as usize == base, "the arena could not be mapped");
        self.base = base;
        self.next = base;
        self.reuse = reuse;
        self.fill = fill;
    }
    fn owns(&self, p: *mut u8) -> bool {
        let p = p as usize;
        self.base != 0 && p >= self.base && p < self.base + SIZE
    }
    unsafe fn paint(&self, p: usize, n: usize) {
        if let Some(v) = self.fill {
            for i in 0..n / 8 {
                *((p + 8 * i) as *mut u64) = v;
            }
        }
    }
    unsafe fn get(&mut self, l: Layout) -> *mut u8 {
        let seq = self.seq;
        self.seq += 1;
        // running out of memory while reporting a panic ends every Rust process
        if seq >= self.fail.0 && seq < self.fail.1 && !std::thread::panicking() {
            self.failed += 1;
            return std::ptr::null_mut();
        }
        if l.align() > 16 {
            // over-aligned memory is served once and never reused
            let p = (self.next + l.align() - 1) & !(l.align() - 1);
            if p + l.size() > self.base + SIZE {
                return std::ptr::null_mut();
            }
            self.next = (p + l.size() + 15) & !15;
            self.live_bytes += l.size() as u64;
            self.live_count += 1;
            self.total += 1;
            return p as *mut u8;
        }
        let (c, n) = class(l.size());
        let full = self.next + n > self.base + SIZE;
        let p = if self.head[c] != 0 && (self.reuse != Reuse::Never || full) {
            let p = self.head[c];
            self.head[c] = *(p as *const usize);
            if self.head[c] == 0 {
                self.tail[c] = 0;
            }
            self.reused += 1;
            p
        } else if full {
            return std::ptr::null_mut();
        } else {
            let p = self.next;
            self.next += n;
            p
        };
        self.paint(p, n);
        self.live_bytes += l.size() as u64;
        self.live_count += 1;
        self.total += 1;
        p as *mut u8
    }
    unsafe fn put(&mut self, p: *mut u8, l: Layout) {
        self.live_bytes = self.live_bytes.wrapping_sub(l.size() as u64);
        self.live_count = self.live_count.wrapping_sub(1);
        if l.align() > 16 {
            return;
        }
        let (c, n) = class(l.size());
        let p = p as usize;
        self.paint(p, n);
        if self.reuse == Reuse::Fifo {
            *(p as *mut usize) = 0;
            if self.tail[c] == 0 {
                self.head[c] = p;
            } else {
                *(self.tail[c] as *mut usize) = p;
            }
            self.tail[c] = p;
        } else {
            *(p as *mut usize) = self.head[c];
            if self.head[c] == 0 {
                self.tail[c] = p;
            }
            self.head[c] = p;
        }
    }
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if HOT.sut {
            (*std::ptr::addr_of_mut!(ARENA)).get(l)
        } else {
            System.alloc(l)
        }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let a = &mut *std::ptr::addr_of_mut!(ARENA);
        if a.owns(p) {
            a.put(p, l)
        } else {
            System.dealloc(p, l)
        }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if !HOT.sut {
            return System.alloc_zeroed(l);
        }
        let p = self.alloc(l);
        if !p.is_null() {
            std::ptr::write_bytes(p, 0, l.size());
        }
        p
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        let a = &*std::ptr::addr_of!(ARENA);
        if !HOT.sut && !a.owns(p) {
            return System.realloc(p, l, new);
        }
        let n = Layout::from_size_align_unchecked(new, l.align());
        let q = self.alloc(n);
        if !q.is_null() {
            std::ptr::copy_nonoverlapping(p, q, l.size().min(new));
            self.dealloc(p, l);
        }
        q
    }
}
