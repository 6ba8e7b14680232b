//! Raw system interface (no libc crate is needed).

pub const SYS_FUTEX: i64 = 202;
pub const SYS_CLOCK_GETTIME: i64 = 228;
pub const SYS_GETRANDOM: i64 = 318;
pub const PROT_RW: i32 = 3;
pub const MAP_SHARED: i32 = 1;
pub const MAP_PRIVATE: i32 = 2;
pub const MAP_ANON: i32 = 0x20;
pub const MAP_NORESERVE: i32 = 0x4000;
pub const MAP_FIXED_NOREPLACE: i32 = 0x10_0000;

#[repr(C)]
#[derive(Clone, Copy)]
pub struct Timespec {
    pub sec: i64,
    pub nsec: i64,
}

extern "C" {
    pub fn fork() -> i32;
    pub fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    pub fn _exit(code: i32) -> !;
    pub fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    pub fn alarm(seconds: u32) -> u32;
    pub fn kill(pid: i32, sig: i32) -> i32;
    pub fn personality(p: u64) -> i32;
    pub fn setrlimit(res: i32, lim: *const [u64; 2]) -> i32;
    pub fn dlsym(handle: *mut u8, name: *const u8) -> *mut u8;
    pub fn pthread_key_create(key: *mut u32, dtor: Option<extern "C" fn(*mut u8)>) -> i32;
    pub fn pthread_setspecific(key: u32, v: *const u8) -> i32;
    pub fn pthread_self() -> usize;
    fn __errno_location() -> *mut i32;
}

pub const RTLD_NEXT: *mut u8 = usize::MAX as *mut u8;

#[inline]
pub unsafe fn raw(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e,
        in("r9") f, out("rcx") _, out("r11") _);
    r
}
pub unsafe fn ret(r: i64) -> i64 {
    if r < 0 && r > -4096 {
        set_errno((-r) as i32);
        -1
    } else {
        r
    }
}
pub unsafe fn set_errno(e: i32) {
    *__errno_location() = e;
}

/// The harness' own wall clock (never used for a decision inside a run).
pub fn wall() -> f64 {
    let mut t = Timespec { sec: 0, nsec: 0 };
    unsafe { raw(SYS_CLOCK_GETTIME, 1, &mut t as *mut _ as i64, 0, 0, 0, 0) };
    t.sec as f64 + t.nsec as f64 * 1e-9
}

pub fn map_shared(len: usize) -> *mut u8 {
    let p = unsafe { mmap(std::ptr::null_mut(), len, PROT_RW, MAP_SHARED | MAP_ANON | MAP_NORESERVE, -1, 0) };
    assert!(p as isize != -1, "mmap");
    p
}
