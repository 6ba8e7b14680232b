//! The simulator's runtime: one token, passed between real threads only where the scheduler says so.
//!
//! Scheduling points are compiled into the system under test (every edge, load and store of the crate `bsplines`, see
//! rustc-wrap.sh); blocking, sleeping, clocks, randomness and thread creation are intercepted at the libc boundary.

use crate::alloc::ARENA;
use crate::rng::Rng;
use crate::sys;
use std::cell::UnsafeCell;
use std::collections::HashMap;
use std::sync::atomic::{AtomicU32, Ordering::*};

#[repr(C)]
pub struct Hot {
    /// Count scheduling points?
    pub on: bool,
    /// Is the system under test running (allocations come from the arena, clocks are simulated)?
    pub sut: bool,
    pub left: i64,
    pub armed: i64,
    cov: *mut u8,
}
pub static mut HOT: Hot = Hot { on: false, sut: false, left: i64::MAX, armed: i64::MAX, cov: std::ptr::null_mut() };

pub const MAX_CLIENTS: usize = 24;
pub const MAX_SW: usize = 1 << 14;
pub const LOG: usize = 1 << 21;
pub const COV: usize = 1 << 15;

/// A decision to run another client.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
#[repr(C)]
pub struct Sw {
    pub client: u16,
    pub op: u16,
    /// 'P' preempted at a scheduling point, 'Y' before an operation, 'B' blocked, 'F' finished, 'W' at a yield.
    pub kind: u16,
    pub to: u16,
    pub pt: u64,
}

pub const RUNNING: u64 = 0;
pub const DONE: u64 = 1;
pub const FATAL: u64 = 2;
pub const HARNESS: u64 = 3;

#[repr(u64)]
#[derive(Clone, Copy)]
pub enum St {
    Points,
    Preempt,
    YieldSw,
    BlockSw,
    FutexWait,
    FutexWake,
    Stall,
    ClockRead,
    ClockJump,
    Random,
    Spawned,
    Sleep,
    OomFired,
    OomUnwound,
    Allocs,
    Reused,
    LockWait,
    Contended,
    N,
}

#[repr(C)]
pub struct Shared {
    pub status: u64,
    pub client: u64,
    pub op: u64,
    pub n_sw: u64,
    pub log_len: u64,
    pub stats: [u64; 32],
    pub sw: [Sw; MAX_SW],
    pub log: [u8; LOG],
    pub cov: [u8; COV],
}

impl Shared {
    pub fn map() -> &'static mut Shared {
        unsafe { &mut *(sys::map_shared(std::mem::size_of::<Shared>()) as *mut Shared) }
    }
    pub fn reset(&mut self) {
        self.status = RUNNING;
        self.client = 0;
        self.op = 0;
        self.n_sw = 0;
        self.log_len = 0;
        self.stats = [0; 32];
    }
    pub fn line(&mut self, s: &str) {
        let n = self.log_len as usize;
        if n + s.len() + 1 <= LOG {
            self.log[n..n + s.len()].copy_from_slice(s.as_bytes());
            self.log[n + s.len()] = b'\n';
            self.log_len += s.len() as u64 + 1;
        }
    }
    pub fn text(&self) -> String {
        String::from_utf8_lossy(&self.log[..self.log_len as usize]).into_owned()
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum State {
    Free,
    Runnable,
    Blocked { addr: usize, deadline: u64 },
    Done,
}

struct Cl {
    gate: AtomicU32,
    st: UnsafeCell<Cs>,
}
#[derive(Clone, Copy)]
struct Cs {
    state: State,
    timed_out: bool,
    op: u16,
    pts: u64,
    yields: u64,
    seq: u64,
    fail: (u64, u64),
    failed: u64,
    stall: u64,
    thread: usize,
}
const CS: Cs = Cs {
    state: State::Free,
    timed_out: false,
    op: 0,
    pts: 0,
    yields: 0,
    seq: 0,
    fail: (u64::MAX, u64::MAX),
    failed: 0,
    stall: 0,
    thread: 0,
};
unsafe impl Sync for Cl {}
#[allow(clippy::declare_interior_mutable_const)]
const CL: Cl = Cl { gate: AtomicU32::new(0), st: UnsafeCell::new(CS) };
static CLIENTS: [Cl; MAX_CLIENTS] = [CL; MAX_CLIENTS];
static MAIN: AtomicU32 = AtomicU32::new(0);

pub struct Cfg {
    pub sched_seed: u64,
    /// Mean number of scheduling points between preemptions (0: only between operations).
    pub mean: f64,
    /// Probability of running another client before an operation.
    pub yield_p: f64,
    /// Probability that a preempted client is stalled for long.
    pub stall_p: f64,
    pub clock_seed: u64,
    pub cap: u64,
    /// Explicit decisions instead of generated ones.
    pub trace: Option<Vec<Sw>>,
}

struct Rt {
    sh: *mut Shared,
    cur: usize,
    n: usize,
    rng: Rng,
    clock: Rng,
    now: u64,
    total: u64,
    cfg: Cfg,
    trace: HashMap<(u16, u16, u16, u64), u16>,
    points: HashMap<(u16, u16), Vec<u64>>,
    panic: Option<String>,
    key: u32,
}
static mut RT: Option<Rt> = None;

#[allow(static_mut_refs)]
fn rt() -> &'static mut Rt {
    unsafe { RT.as_mut().unwrap() }
}
pub fn shared() -> &'static mut Shared {
    unsafe { &mut *rt().sh }
}
fn cs(i: usize) -> &'static mut Cs {
    unsafe { &mut *CLIENTS[i].st.get() }
}
pub fn stat(s: St, n: u64) {
    shared().stats[s as usize] += n;
}

pub struct Oom;

fn wait(g: &AtomicU32) {
    while g.swap(0, AcqRel) == 0 {
        unsafe { sys::raw(sys::SYS_FUTEX, g as *const _ as i64, 0x80, 0, 0, 0, 0) };
    }
}
fn signal(g: &AtomicU32) {
    g.store(1, Release);
    unsafe { sys::raw(sys::SYS_FUTEX, g as *const _ as i64, 0x81, 1, 0, 0, 0) };
}

/// Ends the whole simulated process with a verdict.
pub fn fatal(tag: &str, msg: &str) -> ! {
    unsafe {
        HOT.on = false;
        HOT.sut = false;
    }
    let r = rt();
    let (c, op) = (r.cur, cs(r.cur).op);
    shared().line(&format!("V {} {}.{} {}", tag, c, op, msg.replace('\n', " ")));
    shared().status = FATAL;
    unsafe { sys::_exit(3) }
}

fn disarm() {
    unsafe {
        let d = (HOT.armed - HOT.left) as u64;
        HOT.armed = i64::MAX;
        HOT.left = i64::MAX;
        if let Some(r) = (*std::ptr::addr_of_mut!(RT)).as_mut() {
            cs(r.cur).pts += d;
            r.total += d;
            r.now += d;
        }
    }
}
/// Sets the distance to the next decision.
fn arm() {
    let r = rt();
    let c = cs(r.cur);
    let mut d = r.cfg.cap.saturating_sub(c.pts).max(1);
    if r.cfg.trace.is_some() {
        if let Some(v) = r.points.get(&(r.cur as u16, c.op)) {
            let i = v.partition_point(|&x| x <= c.pts);
            if i < v.len() {
                d = d.min(v[i] - c.pts);
            }
        }
    } else if r.cfg.mean > 0.0 && runnable_other() {
        // the more preemptions there were, the rarer they get: runs stay short, and late operations are reached
        let far = (shared().n_sw as f64 / 400.0).max(1.0);
        d = d.min(r.rng.geometric(r.cfg.mean * far * far));
    }
    unsafe {
        HOT.armed = d as i64;
        HOT.left = d as i64;
    }
}

fn runnable_other() -> bool {
    let r = rt();
    (0..r.n).any(|i| i != r.cur && cs(i).state == State::Runnable)
}

fn note(kind: char, to: usize, pt: u64) {
    let r = rt();
    let sh = shared();
    let i = sh.n_sw as usize;
    if i < MAX_SW {
        sh.sw[i] = Sw { client: r.cur as u16, op: cs(r.cur).op, kind: kind as u16, to: to as u16, pt };
    }
    sh.n_sw += 1;
}

/// Chooses who runs next; `None` if nobody (else) can.
fn choose(kind: char, pt: u64) -> Option<usize> {
    let r = rt();
    let c = r.cur;
    let can: Vec<usize> = (0..r.n).filter(|&i| i != c && cs(i).state == State::Runnable).collect();
    if can.is_empty() {
        return None;
    }
    if r.cfg.trace.is_some() {
        let op = cs(c).op;
        match r.trace.get(&(c as u16, op, kind as u16, pt)) {
            Some(&t) if can.contains(&(t as usize)) => return Some(t as usize),
            _ if kind == 'P' || kind == 'Y' || kind == 'W' => return None,
            _ => return can.iter().copied().find(|&i| i > c).or(Some(can[0])),
        }
    }
    // Stalled clients run only if nobody else can.
    let total = r.total;
    let awake: Vec<usize> = can.iter().copied().filter(|&i| cs(i).stall <= total).collect();
    let from = if awake.is_empty() { &can } else { &awake };
    Some(*r.rng.pick(from))
}

fn hand_over(to: usize) {
    let r = rt();
    let me = r.cur;
    let a = unsafe { &mut *std::ptr::addr_of_mut!(ARENA) };
    let c = cs(me);
    c.seq = a.seq;
    c.fail = a.fail;
    c.failed = a.failed;
    r.cur = to;
    let t = cs(to);
    a.seq = t.seq;
    a.fail = t.fail;
    a.failed = t.failed;
    shared().client = to as u64;
    shared().op = t.op as u64;
    signal(&CLIENTS[to].gate);
}
fn switch_to(kind: char, to: usize, pt: u64) {
    note(kind, to, pt);
    let me = rt().cur;
    hand_over(to);
    wait(&CLIENTS[me].gate);
}

/// The current client cannot go on: run others until somebody made it runnable again.
fn block(addr: usize, deadline: u64) -> bool {
    let r = rt();
    let me = r.cur;
    cs(me).state = State::Blocked { addr, deadline };
    cs(me).timed_out = false;
    cs(me).yields += 1;
    let pt = cs(me).pts * 4096 + cs(me).yields % 4096;
    match choose('B', pt) {
        Some(t) => {
            stat(St::BlockSw, 1);
            switch_to('B', t, pt)
        }
        None => {
            // nobody can run: simulated time jumps to the earliest deadline
            let next = (0..r.n)
                .filter_map(|i| match cs(i).state {
                    State::Blocked { deadline, .. } if deadline < u64::MAX => Some((deadline, i)),
                    _ => None,
                })
                .min();
            match next {
                None => fatal("C09", "deadlock: every client is blocked"),
                Some((t, i)) => {
                    r.now = r.now.max(t);
                    cs(i).state = State::Runnable;
                    cs(i).timed_out = true;
                    if i != me {
                        switch_to('B', i, pt);
                    }
                }
            }
        }
    }
    cs(me).timed_out
}
fn wake(addr: usize, n: usize) -> usize {
    let r = rt();
    let mut woken = 0;
    for i in 0..r.n {
        if woken == n {
            break;
        }
        if let State::Blocked { addr: a, .. } = cs(i).state {
            if a == addr {
                cs(i).state = State::Runnable;
                woken += 1;
            }
        }
    }
    woken
}

/// Runs `f` as the simulator in the middle of code of the system under test.
pub fn outside<T>(f: impl FnOnce() -> T) -> T {
    unsafe {
        let (on, sut) = (HOT.on, HOT.sut);
        HOT.on = false;
        HOT.sut = false;
        disarm();
        let v = f();
        if on {
            arm();
        }
        HOT.sut = sut;
        HOT.on = on;
        v
    }
}

#[cold]
#[inline(never)]
fn slow() {
    outside(|| {
        let r = rt();
        let c = cs(r.cur);
        if c.pts >= r.cfg.cap {
            fatal("C09", &format!("no end after {} steps", c.pts));
        }
        let pt = c.pts;
        if let Some(t) = choose('P', pt) {
            stat(St::Preempt, 1);
            if r.cfg.trace.is_none() && r.rng.chance(r.cfg.stall_p) {
                stat(St::Stall, 1);
                c.stall = r.total + r.rng.geometric(20000.0);
            }
            switch_to('P', t, pt);
        }
    })
}

#[inline(always)]
fn point() {
    unsafe {
        if HOT.on {
            HOT.left -= 1;
            if HOT.left == 0 {
                slow();
            }
        }
    }
}

static mut GUARDS: u32 = 0;
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc_guard_init(mut a: *mut u32, b: *mut u32) {
    unsafe {
        if a == b || *a != 0 {
            return;
        }
        while a < b {
            GUARDS += 1;
            *a = GUARDS;
            a = a.add(1);
        }
    }
}
pub fn guards() -> u32 {
    unsafe { GUARDS }
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    unsafe {
        if HOT.on {
            *HOT.cov.add(*g as usize & (COV - 1)) = 1;
        }
    }
    point()
}
macro_rules! mem {
    ($($n:ident)*) => { $(#[no_mangle] pub extern "C" fn $n(_p: *const u8) { point() })* };
}
mem!(__sanitizer_cov_load1 __sanitizer_cov_load2 __sanitizer_cov_load4 __sanitizer_cov_load8 __sanitizer_cov_load16
     __sanitizer_cov_store1 __sanitizer_cov_store2 __sanitizer_cov_store4 __sanitizer_cov_store8 __sanitizer_cov_store16);

// ---------------------------------------------------------------------------------------------------- libc seams

fn clock_now() -> u64 {
    let r = rt();
    stat(St::ClockRead, 1);
    if r.clock.chance(0.3) {
        stat(St::ClockJump, 1);
        r.now += r.clock.log_uniform(1e12);
    }
    r.now
}

#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    if !HOT.sut {
        return sys::ret(sys::raw(n, a, b, c, d, e, f));
    }
    match n {
        sys::SYS_FUTEX => outside(|| {
            let cmd = b & 0x7f;
            match cmd {
                0 | 9 => {
                    let p = &*(a as *const AtomicU32);
                    if p.load(SeqCst) != c as u32 {
                        sys::set_errno(11);
                        return -1;
                    }
                    stat(St::FutexWait, 1);
                    let deadline = if d == 0 {
                        u64::MAX
                    } else {
                        let t = *(d as *const sys::Timespec);
                        let t = t.sec as u64 * 1_000_000_000 + t.nsec as u64;
                        if cmd == 0 {
                            rt().now + t
                        } else {
                            t
                        }
                    };
                    if block(a as usize, deadline) {
                        sys::set_errno(110);
                        return -1;
                    }
                    0
                }
                1 | 10 => {
                    let w = wake(a as usize, c.clamp(0, 1 << 20) as usize);
                    stat(St::FutexWake, w as u64);
                    w as i64
                }
                _ => sys::ret(sys::raw(n, a, b, c, d, e, f)),
            }
        }),
        sys::SYS_GETRANDOM => getrandom(a as *mut u8, b as usize, c as u32) as i64,
        _ => sys::ret(sys::raw(n, a, b, c, d, e, f)),
    }
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: i32, t: *mut sys::Timespec) -> i32 {
    if !HOT.sut {
        return sys::ret(sys::raw(sys::SYS_CLOCK_GETTIME, id as i64, t as i64, 0, 0, 0, 0)) as i32;
    }
    let now = outside(clock_now);
    let skew = if id == 0 { 1_600_000_000_000_000_000 } else { 0 };
    *t = sys::Timespec { sec: ((now + skew) / 1_000_000_000) as i64, nsec: ((now + skew) % 1_000_000_000) as i64 };
    0
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(p: *mut u8, n: usize, flags: u32) -> isize {
    if !HOT.sut {
        return sys::ret(sys::raw(sys::SYS_GETRANDOM, p as i64, n as i64, flags as i64, 0, 0, 0)) as isize;
    }
    outside(|| {
        stat(St::Random, 1);
        for i in 0..n {
            *p.add(i) = rt().clock.next() as u8;
        }
    });
    n as isize
}

fn yield_point() {
    outside(|| {
        let r = rt();
        let c = cs(r.cur);
        c.yields += 1;
        let pt = c.pts * 4096 + c.yields % 4096;
        if let Some(t) = choose('W', pt) {
            stat(St::YieldSw, 1);
            switch_to('W', t, pt)
        }
    })
}

#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    if HOT.sut {
        yield_point();
        0
    } else {
        sys::raw(24, 0, 0, 0, 0, 0, 0) as i32
    }
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(t: *const sys::Timespec, rem: *mut sys::Timespec) -> i32 {
    if !HOT.sut {
        return sys::ret(sys::raw(35, t as i64, rem as i64, 0, 0, 0, 0)) as i32;
    }
    outside(|| {
        stat(St::Sleep, 1);
        let d = (*t).sec as u64 * 1_000_000_000 + (*t).nsec as u64;
        block(t as usize, rt().now + d);
    });
    0
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(id: i32, fl: i32, t: *const sys::Timespec, rem: *mut sys::Timespec) -> i32 {
    if !HOT.sut {
        return -(sys::raw(230, id as i64, fl as i64, t as i64, rem as i64, 0, 0) as i32);
    }
    outside(|| {
        stat(St::Sleep, 1);
        let d = (*t).sec as u64 * 1_000_000_000 + (*t).nsec as u64;
        let until = if fl & 1 == 1 { d } else { rt().now + d };
        block(t as usize, until);
    });
    0
}

type Start = extern "C" fn(*mut u8) -> *mut u8;
struct Child {
    start: Start,
    arg: *mut u8,
    id: usize,
}
extern "C" fn child_main(p: *mut u8) -> *mut u8 {
    let c = unsafe { Box::from_raw(p as *mut Child) };
    let Child { start, arg, id } = *c;
    wait(&CLIENTS[id].gate);
    unsafe {
        sys::pthread_setspecific(rt().key, 1 as *const u8);
        HOT.sut = true;
        HOT.on = true;
    }
    arm();
    start(arg)
}
/// Runs after the thread-local destructors of a thread started by the system under test.
extern "C" fn child_end(_p: *mut u8) {
    unsafe {
        HOT.on = false;
        HOT.sut = false;
    }
    disarm();
    leave();
}
unsafe fn real<T: Copy>(name: &str) -> T {
    let p = sys::dlsym(sys::RTLD_NEXT, name.as_ptr());
    assert!(!p.is_null());
    std::mem::transmute_copy(&p)
}
#[no_mangle]
pub unsafe extern "C" fn pthread_create(t: *mut usize, attr: *const u8, start: Start, arg: *mut u8) -> i32 {
    type F = unsafe extern "C" fn(*mut usize, *const u8, Start, *mut u8) -> i32;
    if !HOT.sut {
        return real::<F>("pthread_create\0")(t, attr, start, arg);
    }
    outside(|| {
        let r = rt();
        let id = match (0..r.n).find(|&i| cs(i).state == State::Free).or((r.n < MAX_CLIENTS).then_some(r.n)) {
            Some(i) => i,
            None => return 11,
        };
        r.n = r.n.max(id + 1);
        *cs(id) = Cs { state: State::Runnable, op: cs(r.cur).op, ..CS };
        CLIENTS[id].gate.store(0, Release);
        stat(St::Spawned, 1);
        let b = Box::into_raw(Box::new(Child { start, arg, id }));
        let rc = real::<F>("pthread_create\0")(t, attr, child_main, b as *mut u8);
        if rc != 0 {
            cs(id).state = State::Free;
        } else {
            cs(id).thread = *t;
        }
        rc
    })
}
#[no_mangle]
pub unsafe extern "C" fn pthread_join(t: usize, out: *mut *mut u8) -> i32 {
    type F = unsafe extern "C" fn(usize, *mut *mut u8) -> i32;
    if HOT.sut {
        outside(|| {
            let r = rt();
            while let Some(i) = (0..r.n).find(|&i| cs(i).thread == t && cs(i).state != State::Free) {
                if cs(i).state == State::Done {
                    cs(i).state = State::Free;
                    cs(i).thread = 0;
                    break;
                }
                block(&CLIENTS[i] as *const _ as usize, u64::MAX);
            }
        });
    }
    real::<F>("pthread_join\0")(t, out)
}

// ------------------------------------------------------------------------------------------- the harness' own side

/// Why a call did not return.
#[derive(Debug, Clone, PartialEq)]
pub enum Fail {
    Oom,
    Panic(String),
}

pub fn install() {
    std::panic::set_hook(Box::new(|info| unsafe {
        if !HOT.sut {
            eprintln!("harness panic: {}", info);
            if let Some(r) = (*std::ptr::addr_of_mut!(RT)).as_mut() {
                (*r.sh).status = HARNESS;
                sys::_exit(4)
            }
            return;
        }
        HOT.on = false;
        HOT.sut = false;
        disarm();
        let m = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or(info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        let l = info.location().map(|l| format!("{}:{}", short(l.file()), l.line())).unwrap_or_default();
        let m: String = m.chars().take(200).collect();
        rt().panic = Some(format!("panicked at {}: {}", l, m));
    }));
    std::alloc::set_alloc_error_hook(|_| unsafe {
        HOT.on = false;
        HOT.sut = false;
        disarm();
        stat(St::OomUnwound, 1);
        std::panic::resume_unwind(Box::new(Oom))
    });
}
fn short(f: &str) -> &str {
    match f.find("/src/") {
        Some(i) => &f[i + 1..],
        None => f,
    }
}

pub fn start(sh: &'static mut Shared, cfg: Cfg) {
    unsafe { HOT.cov = sh.cov.as_mut_ptr() };
    let mut trace = HashMap::new();
    let mut points: HashMap<(u16, u16), Vec<u64>> = HashMap::new();
    for s in cfg.trace.iter().flatten() {
        trace.insert((s.client, s.op, s.kind, s.pt), s.to);
        if s.kind == 'P' as u16 {
            points.entry((s.client, s.op)).or_default().push(s.pt);
        }
    }
    points.values_mut().for_each(|v| v.sort());
    let mut key = 0;
    unsafe { sys::pthread_key_create(&mut key, Some(child_end)) };
    // until the clients start there is only the one preparing the curves
    *cs(0) = Cs { state: State::Runnable, op: 9998, ..CS };
    let r = Rt {
        sh,
        cur: 0,
        n: 1,
        rng: Rng::new(cfg.sched_seed),
        clock: Rng::new(cfg.clock_seed),
        now: 1_000_000_000 + Rng::new(cfg.clock_seed ^ 77).log_uniform(1e15),
        total: 0,
        trace,
        points,
        cfg,
        panic: None,
        key,
    };
    unsafe { RT = Some(r) };
}

/// Runs the clients to completion; each gets its own thread.
pub fn run_clients(n: usize, body: fn(usize)) {
    static EXIT: [AtomicU32; MAX_CLIENTS] = {
        #[allow(clippy::declare_interior_mutable_const)]
        const Z: AtomicU32 = AtomicU32::new(0);
        [Z; MAX_CLIENTS]
    };
    static READY: AtomicU32 = AtomicU32::new(0);
    let hs: Vec<_> = (0..n)
        .map(|i| {
            std::thread::Builder::new()
                .stack_size(4 << 20)
                .spawn(move || {
                    READY.fetch_add(1, AcqRel);
                    wait(&CLIENTS[i].gate);
                    body(i);
                    leave();
                    wait(&EXIT[i]);
                })
                .unwrap()
        })
        .collect();
    // what a starting thread does on its own must not overlap with the simulation
    while READY.load(Acquire) < n as u32 {
        unsafe { sys::raw(24, 0, 0, 0, 0, 0, 0) };
    }
    let r = rt();
    r.n = n;
    for i in 0..n {
        *cs(i) = Cs { state: State::Runnable, ..CS };
    }
    let first = match &r.cfg.trace {
        Some(v) => v.iter().find(|s| s.kind == 'I' as u16).map_or(0, |s| s.to as usize),
        None => r.rng.below(n),
    };
    r.cur = first;
    note('I', first, 0);
    signal(&CLIENTS[first].gate);
    wait(&MAIN);
    // threads end one after the other, so that thread-local destructors of the system under test do not overlap
    for (i, h) in hs.into_iter().enumerate() {
        signal(&EXIT[i]);
        if h.join().is_err() {
            shared().status = HARNESS;
            unsafe { sys::_exit(4) }
        }
    }
    // the epilogue runs as client 0 with nobody else around
    r.cur = 0;
    *cs(0) = Cs { state: State::Runnable, op: 9999, ..CS };
    let a = unsafe { &mut *std::ptr::addr_of_mut!(ARENA) };
    a.seq = 0;
    a.fail = (u64::MAX, u64::MAX);
}

fn leave() {
    let r = rt();
    let me = r.cur;
    cs(me).state = State::Done;
    wake(&CLIENTS[me] as *const _ as usize, usize::MAX);
    let pt = cs(me).pts * 4096;
    match choose('F', pt) {
        Some(t) => {
            note('F', t, pt);
            hand_over(t);
        }
        None => {
            if (0..r.n).any(|i| matches!(cs(i).state, State::Blocked { .. })) {
                fatal("C09", "deadlock: the remaining clients are blocked");
            }
            signal(&MAIN);
        }
    }
}

/// The current client starts its operation number `op`.
pub fn begin_op(op: usize) {
    let r = rt();
    let c = cs(r.cur);
    c.op = op as u16;
    c.pts = 0;
    c.yields = 0;
    shared().client = r.cur as u64;
    shared().op = op as u64;
    let go = r.cfg.trace.is_some() || r.rng.chance(r.cfg.yield_p);
    if go {
        if let Some(t) = choose('Y', 0) {
            stat(St::YieldSw, 1);
            switch_to('Y', t, 0);
        }
    }
}

/// Waits until another client changed the locks.
pub fn wait_locks() {
    stat(St::LockWait, 1);
    block(1, u64::MAX);
}
pub fn locks_changed() {
    wake(1, usize::MAX);
}
pub fn current() -> usize {
    rt().cur
}
pub fn total_points() -> u64 {
    rt().total
}

/// Calls the system under test; the allocations `fail.0..fail.1` of the call fail.
pub fn call<T>(fail: Option<(u64, u64)>, f: impl FnOnce() -> T) -> Result<T, Fail> {
    let a = unsafe { &mut *std::ptr::addr_of_mut!(ARENA) };
    a.seq = 0;
    a.fail = fail.unwrap_or((u64::MAX, u64::MAX));
    a.failed = 0;
    arm();
    unsafe {
        HOT.sut = true;
        HOT.on = true;
    }
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    unsafe {
        HOT.on = false;
        HOT.sut = false;
    }
    disarm();
    a.fail = (u64::MAX, u64::MAX);
    if a.failed > 0 {
        stat(St::OomFired, a.failed);
    }
    match r {
        Ok(v) => Ok(v),
        Err(e) if e.is::<Oom>() => Err(Fail::Oom),
        Err(e) => {
            let m = rt().panic.take().unwrap_or_else(|| "unwound without a panic message".into());
            std::mem::forget(e);
            Err(Fail::Panic(m))
        }
    }
}
/// Allocations made by the last call.
pub fn last_allocs() -> u64 {
    unsafe { (*std::ptr::addr_of!(ARENA)).seq }
}
