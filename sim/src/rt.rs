//! Seams: everything the library could observe or be interrupted by goes
//! through here. Instrumentation callbacks (scheduling, crash and stall
//! points), futex, clock, sleep, random numbers, environment, process id and
//! the allocator.
use crate::rng::{hash_bytes, mix};
use crate::scen::Fault;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicU32, Ordering::*};

pub const MAXT: usize = 24; // os threads per run
pub const MAXOPS: usize = 256;
pub const SLICE: u32 = 30_000;
pub const BUDGET: u32 = 6_000_000;
pub const NGLOB: usize = 24;

pub struct Ctx {
    pub in_op: Cell<bool>,
    pub pos: Cell<u32>,
    pub next: Cell<u32>,
    pub slice_end: Cell<u32>,
    pub os: Cell<usize>,
    pub op: Cell<usize>,
    pub evi: Cell<usize>,
    pub nglob: Cell<usize>,
    pub glob: Cell<[u32; NGLOB]>,
    pub allocs: Cell<u32>,
    pub fails: Cell<u32>,
    /// 0: never; MAX: every allocation; k: the k-th allocation of the op
    pub fail_at: Cell<u32>,
    pub panics: Cell<u32>,
    pub panic_line: Cell<u32>,
    pub seams: Cell<u32>,
    /// rolling hash of the edges taken by the current call
    pub path: Cell<u64>,
}
thread_local! {
    pub static CTX: Ctx = const { Ctx {
        in_op: Cell::new(false), pos: Cell::new(0), next: Cell::new(0), slice_end: Cell::new(0), os: Cell::new(0),
        op: Cell::new(0), evi: Cell::new(0), nglob: Cell::new(0), glob: Cell::new([0; NGLOB]), allocs: Cell::new(0),
        fails: Cell::new(0), fail_at: Cell::new(0), panics: Cell::new(0), panic_line: Cell::new(0), seams: Cell::new(0), path: Cell::new(0),
    } };
}

// ---------------------------------------------------------------- coverage
extern "C" {
    static __data_start: u8;
    static _end: u8;
}
static mut DLO: usize = 0;
static mut DLEN: usize = 0;
pub static mut EDGES: u32 = 0;

pub unsafe fn init_ranges() {
    DLO = &__data_start as *const u8 as usize;
    DLEN = &_end as *const u8 as usize - DLO;
}

#[inline(always)]
fn tick(addr: usize) {
    CTX.with(|c| {
        if !c.in_op.get() {
            return;
        }
        let p = c.pos.get() + 1;
        c.pos.set(p);
        let g = unsafe { addr.wrapping_sub(DLO) < DLEN };
        if g || p >= c.next.get() {
            slow(c, p, g);
        }
    })
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    unsafe {
        if start == stop || *start != 0 {
            return;
        }
        let mut p = start;
        while p < stop {
            EDGES += 1;
            *p = EDGES;
            p = p.add(1);
        }
    }
}
pub const NEDGE: usize = 1 << 14;
pub static mut EDGE_HIT: *mut u8 = std::ptr::null_mut();
/// one bit per path signature of a completed call
pub const PATHBITS: u64 = 1 << 24;
pub static mut PATH_HIT: *mut u8 = std::ptr::null_mut();
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    unsafe {
        let i = *g as usize;
        if !EDGE_HIT.is_null() && i < NEDGE {
            *EDGE_HIT.add(i) = 1;
        }
        CTX.with(|c| c.path.set((c.path.get().rotate_left(5) ^ i as u64).wrapping_mul(0x9e37_79b9_7f4a_7c15)));
    }
    tick(0)
}
macro_rules! mem { ($($n:ident)*) => { $(#[no_mangle] pub extern "C" fn $n(a: usize) { tick(a) })* } }
mem! { __sanitizer_cov_load1 __sanitizer_cov_load2 __sanitizer_cov_load4 __sanitizer_cov_load8 __sanitizer_cov_load16
__sanitizer_cov_store1 __sanitizer_cov_store2 __sanitizer_cov_store4 __sanitizer_cov_store8 __sanitizer_cov_store16 }

// --------------------------------------------------------------- scheduler
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum St {
    Idle,
    Mid,
    Blocked(usize, bool), // address, has timeout
    Dead,
}
pub const END_OK: u32 = 1;
pub const END_DEADLOCK: u32 = 2;
pub const END_OVERRUN: u32 = 3;
pub const END_CRASH: u32 = 4;

pub struct OpMeta {
    pub thr: u8,
    pub started: bool,
    pub evs: Vec<(u32, Fault)>,
}
pub struct Sched {
    pub on: bool,
    pub n: usize,
    pub st: [St; MAXT],
    pub todo: [usize; MAXT],
    pub cur_op: [usize; MAXT],
    pub map: [usize; 8], // logical thread -> os thread
    pub spare: usize,
    pub ops: Vec<OpMeta>,
    pub end: u32,
    pub nsw: usize,
    pub sws: [(u16, u16, u32); 512], // (from os, op, pos)
    pub fired: [u32; 4],
    pub blocks: u32,
    pub on_crash: fn(),
    pub run: fn(usize, usize),
}
pub static mut S: *mut Sched = std::ptr::null_mut();
static BATON: [AtomicU32; MAXT] = [const { AtomicU32::new(0) }; MAXT];
static MAIN: AtomicU32 = AtomicU32::new(0);

#[inline(always)]
unsafe fn s() -> &'static mut Sched {
    &mut *S
}

pub unsafe fn raw_syscall(n: usize, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let r: isize;
    core::arch::asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}
fn fwait(w: &AtomicU32) {
    while w.swap(0, AcqRel) == 0 {
        unsafe { raw_syscall(202, w as *const _ as usize, 128, 0, 0, 0, 0) };
    }
}
fn fwake(w: &AtomicU32) {
    w.store(1, Release);
    unsafe { raw_syscall(202, w as *const _ as usize, 129, 1, 0, 0, 0) };
}
fn park() -> ! {
    loop {
        unsafe { raw_syscall(34, 0, 0, 0, 0, 0, 0) }; // pause
    }
}
unsafe fn finish(code: u32) -> ! {
    s().end = code;
    fwake(&MAIN);
    park()
}

/// who runs next; None: nobody can
unsafe fn pick(s: &mut Sched) -> Option<usize> {
    for i in 0..s.ops.len() {
        if s.ops[i].started {
            continue;
        }
        let t = s.map[s.ops[i].thr as usize];
        match s.st[t] {
            St::Idle => {
                s.ops[i].started = true;
                s.todo[t] = i;
                s.st[t] = St::Mid;
                return Some(t);
            }
            St::Mid => return Some(t),
            _ => {}
        }
    }
    if let Some(t) = (0..s.n).find(|t| s.st[*t] == St::Mid) {
        return Some(t);
    }
    // time passes: a wait with a timeout ends
    if let Some(t) = (0..s.n).find(|t| matches!(s.st[*t], St::Blocked(_, true))) {
        s.st[t] = St::Mid;
        return Some(t);
    }
    None
}
/// can thread t be given control right now? (starts its next operation)
unsafe fn give(s: &mut Sched, t: usize) -> bool {
    if t >= s.n {
        return false;
    }
    match s.st[t] {
        St::Mid => true,
        St::Idle => {
            for i in 0..s.ops.len() {
                if !s.ops[i].started && s.map[s.ops[i].thr as usize] == t {
                    s.ops[i].started = true;
                    s.todo[t] = i;
                    s.st[t] = St::Mid;
                    return true;
                }
            }
            false
        }
        _ => false,
    }
}
unsafe fn note_sw(me: usize, op: usize, pos: u32) {
    let s = s();
    if s.nsw < s.sws.len() {
        s.sws[s.nsw] = (me as u16, op as u16, pos);
        s.nsw += 1;
    }
}
unsafe fn pass(me: usize, to: usize) {
    if me != to {
        fwake(&BATON[to]);
        fwait(&BATON[me]);
    }
}
unsafe fn rotate(me: usize) -> bool {
    let n = s().n;
    for d in 1..n {
        let t = (me + d) % n;
        if give(s(), t) {
            s().st[me] = St::Mid;
            pass(me, t);
            return true;
        }
    }
    if let Some(t) = (0..n).find(|t| *t != me && matches!(s().st[*t], St::Blocked(_, true))) {
        s().st[t] = St::Mid;
        pass(me, t);
        return true;
    }
    false
}

#[cold]
#[inline(never)]
fn slow(c: &Ctx, p: u32, global: bool) {
    unsafe {
        if global {
            let k = c.nglob.get();
            if k < NGLOB {
                let mut g = c.glob.get();
                g[k] = p;
                c.glob.set(g);
            }
            c.nglob.set(k + 1);
        }
        if p < c.next.get() {
            return;
        }
        c.in_op.set(false);
        let me = c.os.get();
        let op = c.op.get();
        if S.is_null() {
            if p > BUDGET {
                libc::_exit(77);
            }
            c.next.set(BUDGET + 1);
            c.in_op.set(true);
            return;
        }
        loop {
            let evs = s().ops.get(op).map_or(&[][..], |o| &o.evs[..]);
            let k = c.evi.get();
            if k >= evs.len() || evs[k].0 > p {
                break;
            }
            c.evi.set(k + 1);
            let f = evs[k].1;
            match f {
                Fault::Sw(t) => {
                    if !s().on {
                        continue;
                    }
                    let t = s().map[t as usize & 7];
                    if t != me && give(s(), t) {
                        s().fired[0] += 1;
                        note_sw(me, op, p);
                        pass(me, t);
                    }
                }
                Fault::Stall | Fault::Abandon => {
                    if !s().on {
                        continue;
                    }
                    note_sw(me, op, p);
                    s().st[me] = St::Dead;
                    if f == Fault::Abandon {
                        s().fired[2] += 1;
                        if s().spare < s().n {
                            let l = s().ops[op].thr as usize; // only operations have events
                            s().map[l] = s().spare;
                            s().spare += 1;
                        }
                    } else {
                        s().fired[1] += 1;
                    }
                    match pick(s()) {
                        Some(t) => {
                            fwake(&BATON[t]);
                            park()
                        }
                        None => end_or_deadlock(),
                    }
                }
                Fault::Crash => {
                    s().fired[3] += 1;
                    s().end = END_CRASH;
                    (s().on_crash)();
                    libc::_exit(0);
                }
            }
        }
        if p >= c.slice_end.get() {
            c.slice_end.set(p.saturating_add(SLICE));
            if p >= BUDGET {
                if s().on {
                    finish(END_OVERRUN)
                }
                s().end = END_OVERRUN;
                libc::_exit(0);
            }
            if s().on {
                rotate(me);
            }
        }
        let evs = s().ops.get(op).map_or(&[][..], |o| &o.evs[..]);
        let ne = evs.get(c.evi.get()).map_or(u32::MAX, |e| e.0);
        c.next.set(ne.min(c.slice_end.get()));
        c.in_op.set(true);
    }
}
unsafe fn end_or_deadlock() -> ! {
    let s = s();
    let blocked = (0..s.n).any(|t| matches!(s.st[t], St::Blocked(..)));
    finish(if blocked { END_DEADLOCK } else { END_OK })
}

/// body of a simulated caller thread
pub unsafe fn thread_main(me: usize) {
    CTX.with(|c| c.os.set(me));
    fwait(&BATON[me]);
    loop {
        let i = s().todo[me];
        s().cur_op[me] = i;
        (s().run)(i, me);
        s().st[me] = St::Idle;
        match pick(s()) {
            Some(t) if t == me => {}
            Some(t) => pass(me, t),
            None => end_or_deadlock(),
        }
    }
}
pub unsafe fn run_threads() {
    if let Some(t) = pick(s()) {
        fwake(&BATON[t]);
        fwait(&MAIN);
    } else {
        s().end = END_OK;
    }
}
pub fn begin_op(i: usize, fail_at: u32) {
    CTX.with(|c| {
        c.op.set(i);
        c.pos.set(0);
        c.evi.set(0);
        c.nglob.set(0);
        c.allocs.set(0);
        c.fails.set(0);
        c.panics.set(0);
        c.seams.set(0);
        c.path.set(0);
        c.fail_at.set(fail_at);
        c.slice_end.set(SLICE);
        let ne = if unsafe { S.is_null() } { u32::MAX } else { unsafe { s() }.ops.get(i).and_then(|o| o.evs.first()).map_or(u32::MAX, |e| e.0) };
        c.next.set(ne.min(SLICE));
        c.in_op.set(true);
    });
}
pub fn end_op() {
    CTX.with(|c| {
        c.in_op.set(false);
        c.fail_at.set(0);
        let b = mix(c.path.get()) % PATHBITS;
        unsafe {
            if !PATH_HIT.is_null() {
                *PATH_HIT.add(b as usize / 8) |= 1 << (b % 8);
            }
        }
    });
}
fn sim_op() -> bool {
    CTX.with(|c| c.in_op.get())
}
/// runs f outside the operation, counted as a use of an ambient seam
fn seam<R>(f: impl FnOnce() -> R) -> R {
    CTX.with(|c| {
        c.in_op.set(false);
        c.seams.set(c.seams.get() + 1);
        let r = f();
        c.in_op.set(true);
        r
    })
}

// ------------------------------------------------------- ambient conditions
pub struct Amb {
    pub now: u64,
    pub step: u64,
    pub jump: i64,
    pub calls: u64,
    pub rnd: u64,
    pub env: u64,
    pub pid: i32,
}
pub static mut AMB: Amb = Amb { now: 1_600_000_000_000_000_000, step: 1000, jump: 0, calls: 0, rnd: 1, env: 0, pid: 4242 };

unsafe fn sim_now() -> u64 {
    AMB.calls += 1;
    AMB.now = AMB.now.wrapping_add(AMB.step);
    if AMB.jump != 0 && mix(AMB.rnd ^ AMB.calls) % 3 == 0 {
        AMB.now = (AMB.now as i64).wrapping_add(AMB.jump).max(1) as u64;
    }
    AMB.now
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    if sim_op() {
        return seam(|| {
            let n = sim_now();
            (*ts).tv_sec = (n / 1_000_000_000) as i64;
            (*ts).tv_nsec = (n % 1_000_000_000) as i64;
            0
        });
    }
    raw_syscall(228, clk as usize, ts as usize, 0, 0, 0, 0) as i32
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const libc::timespec, rem: *mut libc::timespec) -> libc::c_int {
    if sim_op() {
        return seam(|| {
            AMB.now += (*req).tv_sec as u64 * 1_000_000_000 + (*req).tv_nsec as u64;
            if !S.is_null() && s().on {
                rotate(CTX.with(|c| c.os.get()));
            }
            0
        });
    }
    raw_syscall(35, req as usize, rem as usize, 0, 0, 0, 0) as i32
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(clk: libc::clockid_t, fl: libc::c_int, req: *const libc::timespec, rem: *mut libc::timespec) -> libc::c_int {
    if sim_op() {
        return nanosleep(req, rem);
    }
    -(raw_syscall(230, clk as usize, fl as usize, req as usize, rem as usize, 0, 0) as i32)
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> libc::c_int {
    if sim_op() {
        return seam(|| {
            if !S.is_null() && s().on {
                rotate(CTX.with(|c| c.os.get()));
            }
            0
        });
    }
    raw_syscall(24, 0, 0, 0, 0, 0, 0) as i32
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut libc::c_void, len: usize, flags: libc::c_uint) -> isize {
    if sim_op() {
        return seam(|| {
            for i in 0..len {
                AMB.rnd = mix(AMB.rnd);
                *(buf as *mut u8).add(i) = AMB.rnd as u8;
            }
            len as isize
        });
    }
    raw_syscall(318, buf as usize, len, flags as usize, 0, 0, 0)
}
#[no_mangle]
pub unsafe extern "C" fn getpid() -> libc::pid_t {
    if sim_op() {
        return seam(|| AMB.pid);
    }
    raw_syscall(39, 0, 0, 0, 0, 0, 0) as i32
}
extern "C" {
    static environ: *const *const libc::c_char;
}
static mut ENVBUF: [u8; 64] = [0; 64];
#[no_mangle]
pub unsafe extern "C" fn getenv(name: *const libc::c_char) -> *mut libc::c_char {
    let nm = std::ffi::CStr::from_ptr(name).to_bytes();
    if sim_op() {
        return seam(|| {
            const V: [&[u8]; 8] = [b"1\0", b"true\0", b"0\0", b"half_even\0", b"C\0", b"tr_TR.UTF-8\0", b"7\0", b"off\0"];
            if AMB.env == 0 {
                return std::ptr::null_mut();
            }
            let h = hash_bytes(AMB.env, nm);
            let v = V[(h % V.len() as u64) as usize];
            let p = &raw mut ENVBUF as *mut u8;
            std::ptr::copy_nonoverlapping(v.as_ptr(), p, v.len());
            p as *mut libc::c_char
        });
    }
    let mut e = environ;
    while !e.is_null() && !(*e).is_null() {
        let kv = std::ffi::CStr::from_ptr(*e).to_bytes();
        if kv.len() > nm.len() && &kv[..nm.len()] == nm && kv[nm.len()] == b'=' {
            return (*e).add(nm.len() + 1) as *mut libc::c_char;
        }
        e = e.add(1);
    }
    std::ptr::null_mut()
}
unsafe fn set_errno(e: i32) {
    *libc::__errno_location() = e;
}
/// libc's syscall(): the standard library blocks through it (futex)
#[no_mangle]
pub unsafe extern "C" fn syscall(n: libc::c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> libc::c_long {
    if sim_op() && n == 202 && !S.is_null() {
        return seam(|| sim_futex(a, b, c, d));
    }
    if sim_op() && n == 318 {
        return getrandom(a as *mut libc::c_void, b, c as u32) as libc::c_long;
    }
    let r = raw_syscall(n as usize, a, b, c, d, e, f);
    if r < 0 && r > -4096 {
        set_errno(-r as i32);
        return -1;
    }
    r as libc::c_long
}
unsafe fn sim_futex(addr: usize, opn: usize, val: usize, timeout: usize) -> libc::c_long {
    let me = CTX.with(|c| c.os.get());
    let sch = s();
    match opn & 0x7f {
        0 | 9 => {
            if (*(addr as *const AtomicU32)).load(Acquire) != val as u32 {
                set_errno(libc::EAGAIN);
                return -1;
            }
            sch.blocks += 1;
            if !sch.on {
                // alone: nobody can ever wake it
                if timeout != 0 {
                    set_errno(libc::ETIMEDOUT);
                    return -1;
                }
                sch.end = END_DEADLOCK;
                libc::_exit(0);
            }
            sch.st[me] = St::Blocked(addr, timeout != 0);
            match pick(sch) {
                Some(t) if t == me => {
                    set_errno(libc::ETIMEDOUT);
                    return -1;
                }
                Some(t) => pass(me, t),
                None => finish(END_DEADLOCK),
            }
            0
        }
        1 | 10 => {
            let mut k = 0;
            for t in 0..sch.n {
                if k < val && matches!(sch.st[t], St::Blocked(a, _) if a == addr) {
                    sch.st[t] = St::Mid;
                    k += 1;
                }
            }
            k as libc::c_long
        }
        _ => 0,
    }
}

// --------------------------------------------------------------- allocator
pub struct SimAlloc;
#[inline(always)]
fn alloc_ok() -> bool {
    CTX.try_with(|c| {
        if !c.in_op.get() {
            return true;
        }
        let k = c.allocs.get() + 1;
        c.allocs.set(k);
        let f = c.fail_at.get();
        if f != 0 && (f == u32::MAX || f == k) {
            c.fails.set(c.fails.get() + 1);
            return false;
        }
        tick(0);
        true
    })
    .unwrap_or(true)
}
unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !alloc_ok() {
            return std::ptr::null_mut();
        }
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if !alloc_ok() {
            return std::ptr::null_mut();
        }
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if !alloc_ok() {
            return std::ptr::null_mut();
        }
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static GA: SimAlloc = SimAlloc;

pub struct AllocFail;
pub fn install_hooks() {
    std::alloc::set_alloc_error_hook(|_| {
        CTX.with(|c| c.fail_at.set(0));
        std::panic::panic_any(AllocFail)
    });
    std::panic::set_hook(Box::new(|i| {
        let sim = CTX.with(|c| {
            c.fail_at.set(0);
            c.panics.set(c.panics.get() + 1);
            if let Some(l) = i.location() {
                c.panic_line.set(l.line());
            }
            c.in_op.get()
        });
        if !sim && std::thread::current().name() != Some("crowd") {
            eprintln!("simulator panic: {}", i);
        }
    }));
}
