//! Executes operations of a scenario in a simulated process (a forked child
//! that starts from a pristine copy of the library's state) and brings back
//! everything observable.
use crate::gen;
use crate::rng::{hash_bytes, mix, Rng};
use crate::rt::{self, AllocFail, OpMeta, Sched, St, AMB, CTX, MAXOPS, MAXT, NGLOB};
use crate::scen::{Fault, Op, Text, NONE};
use fxdshim::{exec, Aux, FixedDecimal, Kind, AUX};
use std::mem::{align_of, size_of, MaybeUninit};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub const VS: usize = if size_of::<FixedDecimal>() <= 96 { 96 } else { 160 }; // room for one value
pub type Raw = [u8; VS];
pub const NREG: usize = 128;
const STRIDE: usize = if VS == 96 { 128 } else { 256 };
const ARENA: usize = 0x5f00_0000_0000;
pub const MAXSNAP: usize = 8;
pub const SNAPREGS: usize = 16;
pub const MAXCALL: usize = 320;
pub const LOG: usize = 1 << 16;

pub fn vsize() -> usize {
    size_of::<FixedDecimal>().min(VS)
}

#[repr(C)]
#[derive(Clone)]
pub struct Rec {
    pub started: u8,
    pub done: u8,
    pub tag: u8,
    pub opchg: u8,
    pub os: u8,
    pub seq: u32,
    pub steps: u32,
    pub nglob: u32,
    pub glob: [u32; NGLOB],
    pub nalloc: u32,
    pub nfail: u32,
    pub seams: u32,
    pub aux_len: u32,
    pub aux: [u8; AUX],
    pub out: Raw,
    pub a: Raw,
    pub b: Raw,
    pub pre: Raw,
    /// operands after the call, where their bytes changed
    pub a2: Raw,
    pub b2: Raw,
}
impl Rec {
    pub fn aux(&self) -> &[u8] {
        &self.aux[..self.aux_len as usize]
    }
    pub fn ok(&self) -> bool {
        self.done != 0 && self.tag == 0
    }
}
pub const T_PANIC: u8 = 100;
pub const T_ALLOC: u8 = 101;
pub const T_HASHER: u8 = 102;
pub const T_UNFINISHED: u8 = 103;

#[repr(C)]
#[derive(Clone, Copy)]
pub struct SnapReg {
    pub raw: Raw,
    pub tag: u8,
    pub len: u16,
    pub text: [u8; 256],
}
#[repr(C)]
pub struct Shm {
    pub end: u32,
    pub nsw: u32,
    pub sws: [(u16, u16, u32); 512],
    pub fired: [u32; 4],
    pub blocks: u32,
    pub seq: u32,
    pub steps: u64,
    /// calls made before the run's own ones; 1 + the one that came out differently the second time
    pub aged: u32,
    pub aged_bad: u32,
    pub aged_msg: [u8; 400],
    pub crowd: u32,
    pub burst: u32,
    pub nsnap: u32,
    pub snap_op: [u32; MAXSNAP],
    pub snaps: [[SnapReg; SNAPREGS]; MAXSNAP],
    pub regs: [Raw; NREG],
    pub recs: [Rec; MAXOPS],
    // batch of single calls
    pub call_tag: [u8; MAXCALL],
    pub call_len: [u32; MAXCALL],
    pub call_aux: [[u8; AUX]; MAXCALL],
    pub call_out: [Raw; MAXCALL],
    // free-form log of bespoke drivers
    pub log_len: u32,
    pub log: [u8; LOG],
    pub edges: [u8; rt::NEDGE],
    pub paths: [u8; rt::PATHBITS as usize / 8],
}

static mut SHM: *mut Shm = std::ptr::null_mut();
pub fn shm() -> &'static mut Shm {
    unsafe { &mut *SHM }
}
pub unsafe fn init_worker() {
    let p = libc::mmap(std::ptr::null_mut(), size_of::<Shm>(), libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0);
    assert!(p != libc::MAP_FAILED);
    SHM = p as *mut Shm;
    rt::EDGE_HIT = &raw mut (*SHM).edges as *mut u8;
    rt::PATH_HIT = &raw mut (*SHM).paths as *mut u8;
    let p = libc::mmap(ARENA as *mut _, 1 << 17, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_FIXED_NOREPLACE, -1, 0);
    assert!(p as usize == ARENA, "arena");
    assert!(size_of::<FixedDecimal>() <= VS && align_of::<FixedDecimal>() <= 64, "a decimal no longer fits the simulator's slots");
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Ret {
    Ok,
    Timeout,
    Died(i32),
}
pub static mut FORKS: u64 = 0;
/// how the last simulated process that did not end normally ended (wait status)
pub static mut LAST_BAD: i32 = 0;
/// runs f in a fresh simulated process
pub fn in_child(secs: u32, f: impl FnOnce()) -> Ret {
    unsafe {
        FORKS += 1;
        let pid = libc::fork();
        assert!(pid >= 0, "fork");
        if pid == 0 {
            libc::alarm(secs);
            f();
            libc::_exit(0);
        }
        let mut st = 0;
        loop {
            let r = libc::waitpid(pid, &mut st, 0);
            if r == pid {
                break;
            }
            assert!(r < 0 && *libc::__errno_location() == libc::EINTR, "waitpid");
        }
        if st != 0 {
            LAST_BAD = st;
        }
        if libc::WIFSIGNALED(st) {
            if libc::WTERMSIG(st) == libc::SIGALRM {
                return Ret::Timeout;
            }
            return Ret::Died(libc::WTERMSIG(st));
        }
        match libc::WEXITSTATUS(st) {
            0 => Ret::Ok,
            77 => Ret::Timeout,
            c => Ret::Died(1000 + c),
        }
    }
}

// ---------------------------------------------------------------- raw values
static mut MASK: [bool; VS] = [false; VS]; // true: padding
pub fn read_raw(p: *const FixedDecimal) -> Raw {
    let mut r = [0u8; VS];
    unsafe { std::ptr::copy_nonoverlapping(p as *const u8, r.as_mut_ptr(), vsize()) };
    for i in 0..VS {
        if unsafe { MASK[i] } {
            r[i] = 0;
        }
    }
    r
}
pub fn write_raw(p: *mut FixedDecimal, r: &Raw) {
    unsafe { std::ptr::copy_nonoverlapping(r.as_ptr(), p as *mut u8, vsize()) }
}
pub fn from_raw(r: &Raw) -> FixedDecimal {
    let mut v = MaybeUninit::<FixedDecimal>::uninit();
    write_raw(v.as_mut_ptr(), r);
    unsafe { v.assume_init() }
}
/// finds the padding bytes of the representation (they are not part of a value)
pub fn find_padding() {
    let r = in_child(60, || {
        let z = FixedDecimal::one();
        let mut raw = [0u8; VS];
        unsafe { std::ptr::copy_nonoverlapping(&z as *const _ as *const u8, raw.as_mut_ptr(), vsize()) };
        let base = format!("{:?}", from_raw(&raw));
        let sh = shm();
        for i in 0..vsize() {
            sh.log[i] = 0;
            let mut q = raw;
            q[i] ^= 1;
            if format!("{:?}", from_raw(&q)) == base {
                sh.log[i] = 1;
            }
        }
        sh.log_len = 1;
    });
    let n = (0..vsize()).filter(|i| shm().log[*i] == 1).count();
    if r == Ret::Ok && shm().log_len == 1 && n <= 4 {
        for i in 0..vsize() {
            unsafe { MASK[i] = shm().log[i] == 1 };
        }
    }
    shm().log_len = 0;
}

// ------------------------------------------------------------------ run plan
#[derive(Clone)]
pub enum Start {
    Text(Vec<u8>),
    Raw(Raw),
}
#[derive(Clone)]
pub struct Opts {
    /// allocations fail in operations with index >= .0
    pub fail_from: usize,
    pub zero_on_err: bool,
    pub amb: u64, // 0: plain
    pub dirty: u64,
    pub start: Vec<(u8, Start)>,
    pub snaps: Vec<u32>,
    pub reloads: Vec<(u32, u8)>,
    pub force_threads: bool,
}
impl Default for Opts {
    fn default() -> Opts {
        Opts { fail_from: usize::MAX, zero_on_err: false, amb: 0, dirty: 0, start: vec![], snaps: vec![], reloads: vec![], force_threads: false }
    }
}
struct Plan {
    inits: Vec<Op>,
    ops: Vec<Op>,
    opts: Opts,
    base: usize,
    depth: usize,
}
static mut PLAN: *const Plan = std::ptr::null();
fn plan() -> &'static Plan {
    unsafe { &*PLAN }
}
/// pointer of a location; 128.. are per-thread scratch values
fn slot(l: usize) -> *mut FixedDecimal {
    (plan().base + l * STRIDE) as *mut FixedDecimal
}
fn scratch(os: usize, k: usize) -> *mut FixedDecimal {
    slot(NREG + os * 3 + k)
}

pub struct Outcome {
    pub ret: Ret,
    pub end: u32,
    pub recs: Vec<Rec>,
    pub regs: Vec<Raw>,
    pub sws: Vec<(u16, u16, u32)>,
    pub fired: [u32; 4],
    pub steps: u64,
    pub aged: u32,
    pub aged_bad: Option<String>,
    pub crowd: u32,
    pub burst: u32,
    pub snaps: Vec<(u32, Vec<SnapReg>)>,
}
impl Outcome {
    pub fn hash(&self) -> u64 {
        let mut h = 7u64 ^ self.end as u64;
        for r in &self.recs {
            h = hash_bytes(h, &[r.started, r.done, r.tag, r.opchg]);
            h = hash_bytes(h, &r.seq.to_le_bytes());
            h = hash_bytes(h, &r.steps.to_le_bytes());
            h = hash_bytes(h, r.aux());
            h = hash_bytes(h, &r.out);
        }
        for s in &self.sws {
            h = mix(h ^ ((s.0 as u64) << 48 | (s.1 as u64) << 32 | s.2 as u64));
        }
        h
    }
    pub fn sched_hash(&self) -> u64 {
        let mut h = 11;
        for s in &self.sws {
            h = mix(h ^ ((s.0 as u64) << 48 | (s.1 as u64) << 32 | s.2 as u64));
        }
        h
    }
}

fn text_of<'a>(op: &'a Op, ops: &[Op]) -> Vec<u8> {
    match &op.text {
        Text::Lit(t) => t.clone(),
        Text::Ref(id) => match ops.iter().position(|o| o.id == *id) {
            Some(i) if shm().recs[i].ok() => shm().recs[i].aux().to_vec(),
            _ => vec![],
        },
    }
}

// ------------------------------------------------------- long-lived processes
/// What a process has behind it before the run's own calls, and the callers
/// that come and go while it runs.
pub struct Age {
    /// calls made before
    pub n: u32,
    pub seed: u64,
    /// (operation, how many short-lived threads make one call each before it)
    pub crowd: Vec<(u32, u32)>,
    /// (operation, how many calls of its kind its caller makes before it)
    pub bursts: Vec<(u32, u32)>,
}
pub static mut AGE: Age = Age { n: 0, seed: 0, crowd: vec![], bursts: vec![] };
static mut ELDERS: Vec<FixedDecimal> = vec![];

const BUSY: &[Kind] = {
    use Kind::*;
    &[Parse, FromStr, Add, Sub, Mul, Div, Rem, Round, RoundTo, Cmp, Eq, Hash, AsI64, AsU64, FromI64, Str, Append, Mul, Div, OpSub, ParseKeep]
};
fn elders(r: &mut Rng) -> Vec<FixedDecimal> {
    let mut v = Vec::new();
    let mut prev = gen::dec(r, 7, 30);
    for i in 0..16 {
        let d = if i % 2 == 0 { gen::dec(r, 7, 30) } else { gen::sibling(r, &prev) };
        let mut x = FixedDecimal::zero();
        let _ = catch_unwind(AssertUnwindSafe(|| x.from_bytes_str(&d.text(), true)));
        v.push(x);
        prev = d;
    }
    v
}
fn plain(k: Kind, a: &FixedDecimal, b: &FixedDecimal, out: &mut FixedDecimal, n: i64, text: &[u8], aux: &mut Aux, buf: &mut Vec<u8>) -> u8 {
    buf.clear();
    let r = catch_unwind(AssertUnwindSafe(|| exec(k, a, b, out, n, text, aux, if k == Kind::Append { Some(buf) } else { None })));
    match r {
        Ok(t) => t,
        Err(e) => panic_tag(&e),
    }
}
/// Calls made before the run's own: any kinds on ever new values, or the same
/// few calls over and over (which must come out the same every time).
pub fn grow_old(own: &[Kind]) {
    let (n, seed, later) = unsafe {
        let a = &*(&raw const AGE);
        (a.n, a.seed, !a.crowd.is_empty() || !a.bursts.is_empty())
    };
    shm().aged = 0;
    if n == 0 && !later {
        return; // a cold start must stay cold
    }
    let mut r = Rng::new(seed);
    let mut vals = elders(&mut r);
    unsafe { ELDERS = vals.clone() };
    if n == 0 {
        return;
    }
    let sh = shm();
    let mut buf: Vec<u8> = Vec::with_capacity(1024);
    let any = |r: &mut Rng| {
        let k = if own.is_empty() || r.chance(1, 3) { *r.pick(BUSY) } else { *r.pick(own) };
        if matches!(k, Kind::HashPanic | Kind::HashReenter | Kind::HashSplit) || k.is_operator() && r.chance(3, 4) {
            Kind::Hash
        } else {
            k
        }
    };
    let one = |k: Kind, a: &FixedDecimal, b: &FixedDecimal, out: &mut FixedDecimal, m: i64, t: &[u8], aux: &mut Aux, buf: &mut Vec<u8>| {
        rt::begin_op(usize::MAX, 0);
        let c = plain(k, a, b, out, m, t, aux, buf);
        rt::end_op();
        c
    };
    let focus = any(&mut r);
    if r.chance(1, 2) {
        // the same few calls again and again
        struct Again {
            k: Kind,
            a: FixedDecimal,
            b: FixedDecimal,
            n: i64,
            text: Vec<u8>,
            first: Option<(u8, Vec<u8>, Raw)>,
        }
        let few = 1 + r.below(4);
        let pure = r.chance(1, 2);
        let tiny = r.chance(1, 2);
        let small = |r: &mut Rng| FixedDecimal::from(*r.pick(&[0i64, 1, 2, 3, 7, 10, -1, -5, 12, 100]));
        let mut calls: Vec<Again> = (0..few)
            .map(|i| {
                let k = if pure || r.chance(4, 5) { focus } else { any(&mut r) };
                let text = match r.below(8) {
                    0 => gen::odd(&mut r),
                    _ => gen::dec(&mut r, 7, 30).text(),
                };
                let (a, b) = if tiny && i > 0 { (small(&mut r), small(&mut r)) } else { (r.pick(&vals).clone(), r.pick(&vals).clone()) };
                Again { k, a, b, n: gen::scale_arg(&mut r, k), text, first: None }
            })
            .collect();
        // one of them comes round only every so often
        let every = if r.chance(1, 2) { *r.pick(&[32, 64, 100, 128, 255, 256, 256, 256, 257, 512, 1000, 1024]) } else { 1 };
        let lead = r.below(16);
        for i in 0..n {
            let c = if every == 1 || few == 1 || (i as usize) < lead {
                &mut calls[i as usize % few]
            } else if (i as usize - lead) % every == 0 {
                &mut calls[0]
            } else {
                &mut calls[1 + i as usize % (few - 1)]
            };
            let mut out = if c.k.in_place() { c.a.clone() } else { FixedDecimal::zero() };
            let mut aux = Aux::new();
            let t = one(c.k, &c.a, &c.b, &mut out, c.n, &c.text, &mut aux, &mut buf);
            sh.aged += 1;
            let raw = read_raw(&out);
            let settled = t == 0 && (c.k.writes() || c.k.in_place());
            match &c.first {
                None => c.first = Some((t, aux.get().to_vec(), raw)),
                Some((ft, fa, fr)) if *ft != t || fa != aux.get() || settled && *fr != raw => {
                    let f = |v: &Raw| {
                        let v = from_raw(v);
                        (full_text(&v), v.is_neg(), v.is_zero(), v.frac(), v.frac_units())
                    };
                    if sh.aged_bad == 0 && (*ft != t || fa != aux.get() || f(fr) != f(&raw)) {
                        let show = |v: &FixedDecimal| String::from_utf8_lossy(&full_text(v).unwrap_or_default()).into_owned();
                        let m = format!("{} a={} b={} n={} text={}: call number {} of the process came out differently", c.k.name(), show(&c.a), show(&c.b), c.n, crate::scen::esc(&c.text), i + 1);
                        let m = m.as_bytes();
                        let l = m.len().min(400);
                        sh.aged_msg[..l].copy_from_slice(&m[..l]);
                        sh.aged_bad = l as u32;
                    }
                }
                _ => {}
            }
        }
        return;
    }
    let only = r.chance(1, 2);
    let texts: Vec<Vec<u8>> = (0..16).map(|_| if r.chance(1, 4) { gen::odd(&mut r) } else { let d = gen::dec(&mut r, 7, 30); gen::spell(&mut r, &d) }).collect();
    for i in 0..n {
        let k = if only && r.chance(7, 8) { focus } else if r.chance(1, 8) { Kind::FromI64 } else { any(&mut r) };
        let (a, b, o) = (r.below(16), r.below(16), r.below(16));
        let mut out = if k.in_place() { vals[a].clone() } else { FixedDecimal::zero() };
        let mut aux = Aux::new();
        let m = if k == Kind::FromI64 { (mix(seed ^ i as u64) as i64) >> r.below(60) } else { gen::scale_arg(&mut r, k) };
        let t = one(k, &vals[a], &vals[b], &mut out, m, &texts[r.below(16)], &mut aux, &mut buf);
        sh.aged += 1;
        if t == 0 && (k.writes() || k.in_place()) && (!only || k != focus || r.chance(1, 4)) {
            vals[o] = out;
        }
    }
}
/// calls the caller makes on values of its own before operation `id`
fn burst(id: u32, k: Kind) {
    let (n, seed) = unsafe {
        let a = &*(&raw const AGE);
        match a.bursts.iter().find(|c| c.0 == id) {
            Some(c) => (c.1, a.seed),
            None => return,
        }
    };
    let mut r = Rng::new(mix(seed ^ 0xb1 ^ (id as u64) << 20));
    let mut vals: Vec<FixedDecimal> = unsafe { (*(&raw const ELDERS)).clone() };
    let k = if matches!(k, Kind::HashPanic | Kind::HashReenter | Kind::HashSplit) { Kind::Hash } else { k };
    let k = if r.chance(1, 2) { k } else { *r.pick(BUSY) };
    let mixed = r.chance(1, 4);
    let mut buf = Vec::with_capacity(1024);
    for i in 0..n {
        let k = if i > 0 && mixed && r.chance(1, 4) { *r.pick(BUSY) } else { k };
        let (a, b) = (r.below(vals.len()), r.below(vals.len()));
        let mut out = if k.in_place() { vals[a].clone() } else { FixedDecimal::zero() };
        let m = gen::scale_arg(&mut r, k);
        rt::begin_op(usize::MAX, 0);
        let t = plain(k, &vals[a], &vals[b], &mut out, m, b"-901.25", &mut Aux::new(), &mut buf);
        rt::end_op();
        shm().burst += 1;
        if t == 0 && (k.writes() || k.in_place()) && r.chance(1, 8) {
            let o = r.below(vals.len());
            vals[o] = out;
        }
    }
}
/// threads that make one call each and end, before operation `id`
fn crowd(id: u32, k: Kind) {
    let (n, seed) = unsafe {
        let a = &*(&raw const AGE);
        match a.crowd.iter().find(|c| c.0 == id) {
            Some(c) => (c.1, a.seed),
            None => return,
        }
    };
    for i in 0..n {
        let h = std::thread::Builder::new()
            .name("crowd".into())
            .stack_size(128 * 1024)
            .spawn(move || {
                let mut r = Rng::new(mix(seed ^ ((id as u64) << 32 | i as u64)));
                let k = if mix(seed) % 4 != 0 || r.chance(1, 2) { k } else { *r.pick(BUSY) };
                let k = if matches!(k, Kind::HashPanic | Kind::HashReenter | Kind::HashSplit) { Kind::Hash } else { k };
                let (a, b) = unsafe {
                    let e = &*(&raw const ELDERS);
                    (r.pick(e).clone(), r.pick(e).clone())
                };
                let mut out = if k.in_place() { a.clone() } else { FixedDecimal::zero() };
                let n = gen::scale_arg(&mut r, k);
                plain(k, &a, &b, &mut out, n, b"-901.25", &mut Aux::new(), &mut Vec::with_capacity(1024));
            })
            .expect("spawn");
        let _ = h.join();
        shm().crowd += 1;
    }
}

#[inline(never)]
fn deep(n: usize, f: &mut dyn FnMut()) {
    let mut pad = [0u8; 192];
    unsafe { std::ptr::write_volatile(&mut pad[n % 192], n as u8) };
    if n == 0 {
        f()
    } else {
        deep(n - 1, f)
    }
    unsafe { std::ptr::read_volatile(&pad[0]) };
}

fn run_op(i: usize, os: usize) {
    let p = plan();
    one_op(&p.ops[i], i, os, false)
}
fn one_op(op: &Op, i: usize, os: usize, init: bool) {
    let p = plan();
    let sh = shm();
    let text = text_of(op, &p.ops);
    let k = op.kind;
    let dummy = scratch(os, 2);
    let ap = if k.uses_a() && op.a != NONE { slot(op.a as usize) } else { dummy };
    let bp = if k.uses_b() && op.b != NONE { slot(op.b as usize) } else { dummy };
    let mut tmp = false;
    let reent = matches!(k, Kind::HashReenter | Kind::HashSplit);
    let outp = if reent {
        let q = scratch(os, 0);
        unsafe { *q = FixedDecimal::zero() };
        q
    } else if op.out == NONE {
        scratch(os, 0)
    } else {
        let q = slot(op.out as usize);
        if k.writes() && (q == ap || q == bp) {
            tmp = true;
            scratch(os, 1)
        } else {
            q
        }
    };
    if p.opts.dirty != 0 && !init && k.writes() && op.out != NONE {
        // the result value is recycled: it holds some other value
        let j = mix(p.opts.dirty ^ op.id as u64) as usize;
        let r = read_raw(slot(64 + j % 16));
        write_raw(outp, &r);
    }
    let mut aux = Aux::new();
    let mut buf: Vec<u8> = Vec::new();
    if k == Kind::Append {
        buf.reserve(1024);
    }
    let ra = read_raw(ap);
    let rb = read_raw(bp);
    let pre = read_raw(outp);
    let fail = if !init && i >= p.opts.fail_from { u32::MAX } else { 0 };
    let n = op.n;
    if !init {
        crowd(op.id, k);
        burst(op.id, k);
        let rec = &mut sh.recs[i];
        rec.started = 1;
        rec.os = os as u8;
        rec.a = ra;
        rec.b = rb;
        rec.pre = pre;
        rec.seq = sh.seq;
        sh.seq += 1;
    }
    let mut res = None;
    {
        let mut go = || {
            rt::begin_op(if init { usize::MAX } else { i }, fail);
            let r = catch_unwind(AssertUnwindSafe(|| unsafe { exec(k, &*ap, &*bp, &mut *outp, n, &text, &mut aux, if k == Kind::Append { Some(&mut buf) } else { None }) }));
            rt::end_op();
            res = Some(r);
        };
        if p.depth > 0 {
            deep(p.depth, &mut go)
        } else {
            go()
        }
    }
    let tag = match res.unwrap() {
        Ok(c) => c,
        Err(e) => panic_tag(&e),
    };
    let out = read_raw(outp);
    if tmp && tag == 0 {
        write_raw(slot(op.out as usize), &out);
    }
    if init {
        if tag != 0 && (k.writes() || k.in_place()) && op.out != NONE {
            unsafe { *slot(op.out as usize) = FixedDecimal::zero() };
        }
        return;
    }
    let rec = &mut sh.recs[i];
    CTX.with(|c| {
        rec.steps = c.pos.get();
        rec.nglob = c.nglob.get() as u32;
        rec.glob = c.glob.get();
        rec.nalloc = c.allocs.get();
        rec.nfail = c.fails.get();
        rec.seams = c.seams.get();
    });
    rec.tag = tag;
    rec.out = out;
    if k.uses_a() && ap != outp && read_raw(ap) != ra && !(tmp && op.out == op.a) {
        rec.opchg |= 1;
        rec.a2 = read_raw(ap);
    }
    if k.uses_b() && bp != outp && read_raw(bp) != rb && !(tmp && op.out == op.b) {
        rec.opchg |= 2;
        rec.b2 = read_raw(bp);
    }
    rec.aux_len = aux.len as u32;
    rec.aux[..aux.len].copy_from_slice(aux.get());
    sh.steps += rec.steps as u64;
    rec.done = 1;
    if tag != 0 && p.opts.zero_on_err && (k.writes() || k.in_place()) && op.out != NONE {
        unsafe { *slot(op.out as usize) = FixedDecimal::zero() };
    }
    for (id, reg) in &p.opts.reloads {
        if *id == op.id {
            reload(*reg);
        }
    }
    if p.opts.snaps.contains(&op.id) {
        snapshot(op.id);
    }
}
pub fn panic_tag(e: &Box<dyn std::any::Any + Send>) -> u8 {
    if e.is::<AllocFail>() {
        T_ALLOC
    } else if e.is::<u8>() {
        T_HASHER
    } else {
        T_PANIC
    }
}
/// full text of a value, in this process
pub fn full_text(v: &FixedDecimal) -> Result<Vec<u8>, u8> {
    match catch_unwind(AssertUnwindSafe(|| v.to_string(-1).into_bytes())) {
        Ok(t) => Ok(t),
        Err(e) => Err(panic_tag(&e)),
    }
}
/// can the text carry the value across a restart?
pub fn storable(t: &[u8]) -> bool {
    let d = t.iter().filter(|c| c.is_ascii_digit()).count();
    let f = t.iter().position(|c| *c == b'.').map_or(0, |p| t.len() - p - 1);
    let lead = t.iter().find(|c| c.is_ascii_digit()) == Some(&b'0') && f > 0;
    d - lead as usize <= 65 && f <= 30
}
fn reload(reg: u8) {
    let p = slot(reg as usize);
    unsafe {
        if let Ok(t) = full_text(&*p) {
            if storable(&t) {
                let mut v = FixedDecimal::zero();
                let _ = catch_unwind(AssertUnwindSafe(|| v.from_bytes_str(&t, true)));
                *p = v;
            }
        }
    }
}
fn snapshot(id: u32) {
    let sh = shm();
    let k = sh.nsnap as usize;
    if k >= MAXSNAP {
        return;
    }
    sh.snap_op[k] = id;
    for r in 0..SNAPREGS {
        let p = slot(64 + r);
        let s = &mut sh.snaps[k][r];
        s.raw = read_raw(p);
        match full_text(unsafe { &*p }) {
            Ok(t) => {
                s.tag = 0;
                s.len = t.len().min(256) as u16;
                s.text[..s.len as usize].copy_from_slice(&t[..s.len as usize]);
            }
            Err(t) => {
                s.tag = t;
                s.len = 0;
            }
        }
    }
    sh.nsnap += 1;
}

fn publish() {
    unsafe {
        let sh = shm();
        let s = &*rt::S;
        sh.end = s.end;
        sh.nsw = s.nsw as u32;
        sh.sws = s.sws;
        sh.fired = s.fired;
        sh.blocks = s.blocks;
        for l in 0..NREG {
            sh.regs[l] = read_raw(slot(l));
        }
    }
}

/// One simulated process: set up the values, run the operations under the
/// given schedule and faults.
pub fn run(inits: &[Op], ops: &[Op], evs: &[(u32, u32, Fault)], opts: &Opts) -> Outcome {
    assert!(ops.len() <= MAXOPS);
    let sh = shm();
    for r in sh.recs[..ops.len()].iter_mut() {
        unsafe { std::ptr::write_bytes(r, 0, 1) };
        r.tag = T_UNFINISHED;
    }
    sh.end = 0;
    sh.nsw = 0;
    sh.fired = [0; 4];
    sh.blocks = 0;
    sh.seq = 0;
    sh.steps = 0;
    sh.aged = 0;
    sh.aged_bad = 0;
    sh.crowd = 0;
    sh.burst = 0;
    sh.nsnap = 0;
    let secs = if unsafe { (*(&raw const AGE)).crowd.is_empty() } { 60 } else { 20 };
    let ret = in_child(secs, || child(inits, ops, evs, opts));
    let sh = shm();
    Outcome {
        ret,
        end: sh.end,
        recs: sh.recs[..ops.len()].to_vec(),
        regs: sh.regs.to_vec(),
        sws: sh.sws[..sh.nsw as usize].to_vec(),
        fired: sh.fired,
        steps: sh.steps,
        aged: sh.aged,
        aged_bad: if sh.aged_bad == 0 { None } else { Some(String::from_utf8_lossy(&sh.aged_msg[..sh.aged_bad as usize]).into_owned()) },
        crowd: sh.crowd,
        burst: sh.burst,
        snaps: (0..sh.nsnap as usize).map(|k| (sh.snap_op[k], sh.snaps[k].to_vec())).collect(),
    }
}
fn child(inits: &[Op], ops: &[Op], evs: &[(u32, u32, Fault)], opts: &Opts) {
    let amb = opts.amb;
    unsafe {
        if amb != 0 {
            AMB.now = 1 + mix(amb) % 4_000_000_000_000_000_000;
            AMB.step = mix(amb + 1) % 5_000_000_000;
            AMB.jump = (mix(amb + 2) as i64) >> (mix(amb + 3) % 60);
            AMB.rnd = mix(amb + 4);
            AMB.env = if amb % 3 == 0 { 0 } else { mix(amb + 5) };
            AMB.pid = 2 + (mix(amb + 6) % 4_000_000) as i32;
        }
    }
    let nthr = ops.iter().map(|o| o.thr as usize + 1).max().unwrap_or(1);
    let spares = evs.iter().filter(|e| e.2 == Fault::Abandon).count();
    let n = (nthr + spares).min(MAXT);
    let threaded = opts.force_threads || nthr > 1 || evs.iter().any(|e| e.2 != Fault::Crash);
    let pl = Plan {
        inits: inits.to_vec(),
        ops: ops.to_vec(),
        opts: opts.clone(),
        base: ARENA + if amb != 0 { (mix(amb + 7) % 512) as usize * align_of::<FixedDecimal>() } else { 0 },
        depth: if amb != 0 { (mix(amb + 8) % 24) as usize } else { 0 },
    };
    unsafe {
        PLAN = &pl;
        for l in 0..NREG + MAXT * 3 {
            std::ptr::write_bytes(slot(l) as *mut u8, 0, STRIDE);
            std::ptr::write(slot(l), FixedDecimal::zero());
        }
        for (l, s) in &pl.opts.start {
            match s {
                Start::Raw(r) => write_raw(slot(*l as usize), r),
                Start::Text(t) => {
                    let mut v = FixedDecimal::zero();
                    let _ = catch_unwind(AssertUnwindSafe(|| v.from_bytes_str(t, true)));
                    *slot(*l as usize) = v;
                }
            }
        }
        for o in &pl.inits {
            one_op(o, 0, 0, true);
        }
        if !ops.is_empty() {
            let kinds: Vec<Kind> = ops.iter().map(|o| o.kind).collect();
            grow_old(&kinds);
        }
        let mut meta: Vec<OpMeta> = Vec::with_capacity(ops.len());
        for o in ops {
            let mut e: Vec<(u32, Fault)> = evs.iter().filter(|e| e.0 == o.id).map(|e| (e.1, e.2)).collect();
            e.sort_by_key(|x| x.0);
            meta.push(OpMeta { thr: o.thr, started: false, evs: e });
        }
        let mut s = Sched {
            on: threaded,
            n,
            st: [St::Idle; MAXT],
            todo: [0; MAXT],
            cur_op: [0; MAXT],
            map: std::array::from_fn(|i| i),
            spare: nthr,
            ops: meta,
            end: 0,
            nsw: 0,
            sws: [(0, 0, 0); 512],
            fired: [0; 4],
            blocks: 0,
            on_crash: publish,
            run: run_op,
        };
        rt::S = &mut s;
        if threaded {
            for t in 0..n {
                std::thread::Builder::new().stack_size(256 * 1024).spawn(move || rt::thread_main(t)).expect("spawn");
            }
            rt::run_threads();
        } else {
            for i in 0..ops.len() {
                run_op(i, 0);
            }
            s.end = rt::END_OK;
        }
        publish();
        libc::_exit(0);
    }
}

// ------------------------------------------------------- single calls, fresh
#[derive(Clone)]
pub struct Call {
    pub kind: Kind,
    pub a: Raw,
    pub b: Raw,
    pub out: Option<Raw>,
    pub n: i64,
    pub text: Vec<u8>,
}
#[derive(Clone, Debug)]
pub struct CallRes {
    pub tag: u8,
    pub aux: Vec<u8>,
    pub out: Raw,
}
/// Runs the calls one after another in one pristine process, each on values
/// of its own. None: the process did not survive.
pub fn batch(calls: &[Call]) -> Vec<Option<CallRes>> {
    batch_mem(calls, 0)
}
/// The same; fail_at = MAX: every allocation request of a call is refused.
pub fn batch_mem(calls: &[Call], fail_at: u32) -> Vec<Option<CallRes>> {
    assert!(calls.len() <= MAXCALL);
    let sh = shm();
    for i in 0..calls.len() {
        sh.call_tag[i] = T_UNFINISHED;
    }
    in_child(60, || {
        for (i, c) in calls.iter().enumerate() {
            call_one(i, c, fail_at);
        }
    });
    (0..calls.len())
        .map(|i| {
            let sh = shm();
            if sh.call_tag[i] == T_UNFINISHED {
                return None;
            }
            Some(CallRes {
                tag: sh.call_tag[i],
                aux: sh.call_aux[i][..sh.call_len[i] as usize].to_vec(),
                out: sh.call_out[i],
            })
        })
        .collect()
}
fn call_one(i: usize, c: &Call, fail_at: u32) {
    let sh = shm();
    let a = from_raw(&c.a);
    let b = from_raw(&c.b);
    let mut out = match &c.out {
        Some(r) => from_raw(r),
        None => FixedDecimal::zero(),
    };
    let mut aux = Aux::new();
    let mut buf = Vec::new();
    if c.kind == Kind::Append {
        buf.reserve(1024);
    }
    rt::begin_op(usize::MAX, fail_at);
    let r = catch_unwind(AssertUnwindSafe(|| exec(c.kind, &a, &b, &mut out, c.n, &c.text, &mut aux, if c.kind == Kind::Append { Some(&mut buf) } else { None })));
    rt::end_op();
    let tag = match r {
        Ok(t) => t,
        Err(e) => panic_tag(&e),
    };
    sh.call_len[i] = aux.len as u32;
    sh.call_aux[i][..aux.len].copy_from_slice(aux.get());
    sh.call_out[i] = read_raw(&out);
    sh.call_tag[i] = tag;
}

/// Everything later calls can see of a value, from a pristine process.
#[derive(Clone, Debug, PartialEq)]
pub struct View {
    /// full text, None if printing fails
    pub text: Option<Vec<u8>>,
    pub neg: bool,
    pub zero: bool,
    pub frac: u8,
    /// value, scale, sign and everything computed from them
    pub num: u64,
    /// the same plus digit counts and hash input
    pub all: u64,
}
pub fn views(raws: &[Raw]) -> Vec<View> {
    let mut out = Vec::new();
    for ch in raws.chunks(96) {
        let sh = shm();
        sh.log_len = 0;
        in_child(60, || {
            for (i, r) in ch.iter().enumerate() {
                view_one(i, r);
                shm().log_len = i as u32 + 1;
            }
        });
        let done = shm().log_len as usize;
        for i in 0..ch.len() {
            if i >= done {
                out.push(View { text: None, neg: false, zero: false, frac: 0, num: i as u64, all: i as u64 });
                continue;
            }
            let s = &shm().log[i * 640..(i + 1) * 640];
            let n = u16::from_le_bytes([s[0], s[1]]) as usize;
            let u = |o: usize| u64::from_le_bytes(s[o..o + 8].try_into().unwrap());
            out.push(View { text: if s[2] == 0 { Some(s[40..40 + n].to_vec()) } else { None }, neg: s[3] != 0, zero: s[4] != 0, frac: s[5], num: u(8), all: u(16) });
        }
    }
    out
}
fn view_one(i: usize, r: &Raw) {
    let v = from_raw(r);
    let z = FixedDecimal::zero();
    let mut out = FixedDecimal::zero();
    let mut h = 1u64;
    let mut one = |k: Kind, a: &FixedDecimal, b: &FixedDecimal, n: i64, upd: bool| -> (u8, Vec<u8>, Option<Vec<u8>>) {
        let mut aux = Aux::new();
        if k == Kind::Round {
            out = a.clone();
        } else {
            out = FixedDecimal::zero();
        }
        rt::begin_op(usize::MAX, 0);
        let t = match catch_unwind(AssertUnwindSafe(|| exec(k, a, b, &mut out, n, b"", &mut aux, None))) {
            Ok(t) => t,
            Err(e) => panic_tag(&e),
        };
        rt::end_op();
        let txt = if t == 0 && (k.writes() || k.in_place()) { full_text(&out).ok() } else { None };
        if upd {
            h = hash_bytes(h, &[t]);
            h = hash_bytes(h, aux.get());
            if let Some(x) = &txt {
                h = hash_bytes(h, x);
            }
        }
        (t, aux.get().to_vec(), txt)
    };
    let (tt, text, _) = one(Kind::Str, &v, &z, -1, true);
    let (_, intro, _) = one(Kind::Intro, &v, &z, 0, false);
    for n in [0, 1, 9, 30] {
        one(Kind::Str, &v, &z, n, true);
    }
    one(Kind::AsI64, &v, &z, 0, true);
    one(Kind::AsU64, &v, &z, 0, true);
    for n in [-19, -9, -1, 0, 1, 2, 9, 18, 30] {
        one(Kind::RoundTo, &v, &z, n, true);
        one(Kind::Round, &v, &z, n, true);
    }
    for t in [&b"0"[..], b"1", b"-1.5", b"999999999999999999.999999999", b"0.000000000000000000000000000001", b"-99999999999999999999999999999999999999999999999999999999999999999", b"333333333.3"] {
        let mut c = FixedDecimal::zero();
        let _ = catch_unwind(AssertUnwindSafe(|| c.from_bytes_str(t, true)));
        for k in [Kind::Add, Kind::Sub, Kind::Mul, Kind::Div, Kind::Rem, Kind::Cmp, Kind::Eq] {
            one(k, &v, &c, 4, true);
            one(k, &c, &v, 4, true);
        }
    }
    one(Kind::Mul, &v, &v, 0, true);
    let num = hash_bytes(hash_bytes(1, &intro[..2.min(intro.len())]), &intro.get(3..4).unwrap_or(&[0]).to_vec());
    let (ht, hx, _) = one(Kind::Hash, &v, &z, 0, false);
    let num = mix(num ^ h);
    let mut all = hash_bytes(num, &intro);
    all = hash_bytes(all, &[ht]);
    all = hash_bytes(all, &hx);
    let s = &mut shm().log[i * 640..(i + 1) * 640];
    let n = text.len().min(560);
    s[..2].copy_from_slice(&(n as u16).to_le_bytes());
    s[2] = tt;
    s[3] = intro.first().copied().unwrap_or(9);
    s[4] = intro.get(1).copied().unwrap_or(9);
    s[5] = intro.get(3).copied().unwrap_or(99);
    s[8..16].copy_from_slice(&num.to_le_bytes());
    s[16..24].copy_from_slice(&all.to_le_bytes());
    s[40..40 + n].copy_from_slice(&text[..n]);
}
/// texts only (cheap): None if printing fails
pub fn texts(raws: &[Raw]) -> Vec<Option<(Vec<u8>, bool, u8)>> {
    let mut out = Vec::new();
    for ch in raws.chunks(140) {
        let mut calls = Vec::new();
        for r in ch {
            calls.push(Call { kind: Kind::Str, a: *r, b: *r, out: None, n: -1, text: vec![] });
            calls.push(Call { kind: Kind::Intro, a: *r, b: *r, out: None, n: 0, text: vec![] });
        }
        let rs = batch(&calls);
        for p in rs.chunks(2) {
            out.push(match (&p[0], &p[1]) {
                (Some(t), Some(i)) if t.tag == 0 && i.tag == 0 => Some((t.aux.clone(), i.aux[0] != 0, i.aux[3])),
                _ => None,
            });
        }
    }
    out
}
