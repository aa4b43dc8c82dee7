//! One generator and one oracle per property.
use crate::exec::{self, *};
use crate::gen::*;
use crate::model::{self, Big};
use crate::refine;
use crate::rng::{hash_bytes, mix, Rng};
use crate::rt::{self, END_CRASH, END_DEADLOCK, END_OK, END_OVERRUN};
use crate::scen::*;
use fxdshim::{nested_kind, FixedDecimal, Kind};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Debug)]
pub struct Viol {
    pub class: String,
    pub msg: String,
}
pub fn viol<T>(class: &str, msg: String) -> Result<T, Viol> {
    Err(Viol { class: class.into(), msg })
}
pub type Check = Result<(), Viol>;

#[derive(Default)]
pub struct Env {
    pub fired: BTreeMap<&'static str, u64>,
    pub probes: BTreeMap<&'static str, u64>,
    pub calls: u64,
    pub steps: u64,
    pub sched: HashSet<u64>,
    pub distinct: HashSet<u64>,
    /// reports that did not repeat
    pub unreproduced: u64,
    pub digest: u64,
    pub nontrivial: bool,
    cache_key: u64,
    cache: Vec<Outcome>,
}
impl Env {
    pub fn fire(&mut self, k: &'static str, n: u64) {
        if n > 0 {
            *self.fired.entry(k).or_default() += n;
            self.nontrivial = true;
        }
    }
    pub fn probe(&mut self, k: &'static str) {
        *self.probes.entry(k).or_default() += 1;
    }
    /// for drivers of their own
    pub fn aged(&mut self) {
        if shm().aged > 0 {
            self.fire("calls made by a process before the run's own", shm().aged as u64);
        }
    }
    pub fn take(&mut self, o: &Outcome) {
        self.calls += o.recs.iter().filter(|r| r.done != 0).count() as u64;
        self.steps += o.steps;
        self.digest = mix(self.digest ^ o.hash());
        self.fire("preemption inside a call", o.fired[0] as u64);
        self.fire("caller stalled for ever inside a call", o.fired[1] as u64);
        self.fire("call abandoned half-way", o.fired[2] as u64);
        self.fire("process crash inside a call", o.fired[3] as u64);
        if o.aged > 0 {
            self.fire("calls made by a process before the run's own", o.aged as u64);
        }
        if o.burst > 0 {
            self.fire("calls made in a row by one caller before one of its operations", o.burst as u64);
        }
        if o.crowd > 0 {
            self.fire("short-lived caller threads", o.crowd as u64);
        }
        if !o.sws.is_empty() {
            self.sched.insert(o.sched_hash());
        }
        for r in &o.recs {
            if r.done != 0 {
                match r.tag {
                    0 => {}
                    T_PANIC => self.probe("call panicked"),
                    T_ALLOC => self.probe("call ended by allocation failure"),
                    T_HASHER => self.fire("caller-supplied hasher panics", 1),
                    1 => self.probe("text rejected"),
                    2 => self.probe("division by zero reported"),
                    3 => self.probe("overflow reported"),
                    4 => self.probe("integer range error reported"),
                    _ => self.probe("other error"),
                }
            }
        }
    }
}

pub fn cl(ops: &[&Op]) -> Vec<Op> {
    ops.iter().map(|o| (*o).clone()).collect()
}
pub fn show(o: &Op) -> String {
    Line::Op(o.clone()).show()
}
pub fn show_out(r: &Rec) -> String {
    let t = texts(&[r.out]);
    let t = match &t[0] {
        Some((t, n, f)) => format!("{}{}({} frac)", esc(t), if *n { " neg " } else { " " }, f),
        None => "unprintable".into(),
    };
    format!("{}, output {}, value {}", tag_name(r.tag), esc(r.aux()), t)
}
pub fn tag_name(t: u8) -> String {
    match t {
        0 => "ok".into(),
        1 => "Err(ConversionSyntax)".into(),
        2 => "Err(DivisionByZero)".into(),
        3 => "Err(Overflow)".into(),
        4 => "Err(ExceedsConversionTargetRange)".into(),
        T_PANIC => "panic".into(),
        T_ALLOC => "allocation failure".into(),
        T_HASHER => "hasher panic".into(),
        T_UNFINISHED => "never returned".into(),
        _ => format!("Err({})", t),
    }
}
pub fn end_class(o: &Outcome) -> Option<(&'static str, String)> {
    match o.ret {
        Ret::Timeout => return Some(("hang", "the simulated process never came back".into())),
        Ret::Died(c) => return Some(("died", format!("the simulated process died (signal/exit {})", c))),
        Ret::Ok => {}
    }
    match o.end {
        END_OK | END_CRASH => None,
        END_DEADLOCK => Some(("deadlock", "callers are blocked and nobody can wake them".into())),
        END_OVERRUN => Some(("overrun", "a call exceeded its step bound".into())),
        x => Some(("end", format!("unknown end {}", x))),
    }
}

/// differences that only a pristine process can judge
#[derive(Default)]
struct Later {
    v: Vec<(Raw, Raw, &'static str, String, bool)>,
}
impl Later {
    fn same(&mut self, a: &Raw, b: &Raw, class: &'static str, msg: impl FnOnce() -> String, num: bool) {
        if a != b {
            self.v.push((*a, *b, class, msg(), num));
        }
    }
    fn judge(self, env: &mut Env) -> Check {
        if self.v.is_empty() {
            return Ok(());
        }
        env.probe("representations differed, judged by behaviour");
        let raws: Vec<Raw> = self.v.iter().flat_map(|x| [x.0, x.1]).collect();
        let w = views(&raws);
        for (i, x) in self.v.iter().enumerate() {
            let (p, q) = (&w[2 * i], &w[2 * i + 1]);
            let eq = if x.4 { p.num == q.num } else { p.all == q.all };
            if !eq {
                let t = |v: &View| match &v.text {
                    Some(t) => format!("{}{}/{}", if v.neg { "neg " } else { "" }, esc(t), v.frac),
                    None => "unprintable".into(),
                };
                return viol(x.2, format!("{}: {} against {}", x.3, t(p), t(q)));
            }
        }
        Ok(())
    }
}
/// same call, two executions: same outcome?
fn same_rec(o: &Op, x: &Rec, y: &Rec, later: &mut Later, num: bool, class: &'static str, what: &str) -> Check {
    // a nested call that panics cuts the hashing around it short
    let cut = o.kind == Kind::HashReenter && x.tag >= 100;
    if x.tag != y.tag || (x.aux() != y.aux() && !cut) {
        return viol(class, format!("{}: {}: {} against {}", what, show(o), show_out(x), show_out(y)));
    }
    if (x.tag == 0 && (o.kind.writes() || o.kind.in_place())) || (o.kind.is_parse() && !matches!(o.kind, Kind::FromStr)) {
        later.same(&x.out, &y.out, class, || format!("{}: {}", what, show(o)), num);
    }
    Ok(())
}
fn operands_kept(o: &Op, r: &Rec, later: &mut Later) {
    if r.opchg & 1 != 0 {
        later.same(&r.a, &r.a2, "operand-changed", || format!("operand a changed by {}", show(o)), false);
    }
    if r.opchg & 2 != 0 {
        later.same(&r.b, &r.b2, "operand-changed", || format!("operand b changed by {}", show(o)), false);
    }
}

pub const ALL: &[&str] = &["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14"];

pub fn gen(prop: &str, seed: u64, env: &mut Env) -> Scen {
    let mut r = Rng::new(seed);
    let mut sc = Scen { prop: prop.into(), lines: vec![] };
    gen_age(prop, &mut Rng::new(mix(seed ^ 0xa9e)), &mut sc);
    set_age(&sc);
    match prop {
        "C01" => gen_conc(&mut r, &mut sc, env, false),
        "C03" => gen_conc(&mut r, &mut sc, env, true),
        "C02" => gen_history(&mut r, &mut sc, env),
        "C04" => gen_c04(&mut r, &mut sc),
        "C05" => gen_c05(&mut r, &mut sc),
        "C06" => gen_c06(&mut r, &mut sc),
        "C07" => gen_c07(&mut r, &mut sc),
        "C08" => gen_c08(&mut r, &mut sc, env),
        "C09" => gen_c09(&mut r, &mut sc, env),
        "C10" => gen_c10(&mut r, &mut sc),
        "C11" => gen_c11(&mut r, &mut sc),
        "C12" => refine::gen(&mut r, &mut sc, true),
        "C13" => refine::gen(&mut r, &mut sc, false),
        "C14" => refine::gen_index(&mut r, &mut sc),
        _ => panic!("property"),
    }
    sc
}
/// some processes have a past, and some see many short-lived callers
fn gen_age(prop: &str, r: &mut Rng, sc: &mut Scen) {
    if r.chance(1, 10) {
        let n = match r.weighted(&[200, 200, 240, 60, 6]) {
            0 => r.range(1, 80),
            1 => (1 << r.range(6, 8)) - r.range(0, 12),
            2 => *r.pick(&[400, 512, 600, 1000, 1024, 1100]) - r.range(0, 12),
            3 => *r.pick(&[2048, 4096, 5000]) - r.range(0, 12),
            _ => *r.pick(&[10_000, 32_768, 65_536]) - r.range(0, 12),
        };
        sc.lines.push(Line::Cfg("age".into(), n.max(1)));
        sc.lines.push(Line::Cfg("ageseed".into(), r.below(1 << 30) as i64));
    }
    if matches!(prop, "C02" | "C12") && r.chance(1, 40) {
        for _ in 0..1 + r.below(2) {
            let n = if r.chance(1, 2) { r.range(1, 12) } else { (1 << r.range(3, 7)) - r.range(0, 3) };
            sc.lines.push(Line::Cfg(format!("crowd{}", 3 + r.below(20)), n));
        }
    }
    if matches!(prop, "C02" | "C12") && r.chance(1, 60) {
        sc.lines.push(Line::Cfg(format!("burst{}", 3 + r.below(20)), burst_len(r, false)));
    }
}
/// how many calls in a row; often about a number something might be counted to
fn burst_len(r: &mut Rng, long: bool) -> i64 {
    match r.weighted(&if long { [6, 15, 15, 40, 2] } else { [20, 30, 20, 20, 2] }) {
        0 => r.range(1, 12),
        1 => (1 << r.range(3, 8)) + r.range(-3, 1),
        2 => *r.pick(&[400, 512, 600, 1000, 1024, 1100]) + r.range(-3, 1),
        3 => *r.pick(&[2048, 4096, 5000]) + r.range(-3, 1),
        _ => *r.pick(&[10_000, 32_768, 65_536]) + r.range(-3, 1),
    }
}
fn set_age(sc: &Scen) {
    let mut crowd = vec![];
    let mut bursts = vec![];
    for l in &sc.lines {
        if let Line::Cfg(k, v) = l {
            if let Some(id) = k.strip_prefix("crowd").and_then(|x| x.parse().ok()) {
                crowd.push((id, (*v).clamp(0, 1000) as u32));
            }
            if let Some(id) = k.strip_prefix("burst").and_then(|x| x.parse().ok()) {
                bursts.push((id, (*v).clamp(0, 1 << 17) as u32));
            }
        }
    }
    unsafe { exec::AGE = Age { n: sc.cfg("age", 0).clamp(0, 1 << 20) as u32, seed: sc.cfg("ageseed", 1) as u64, crowd, bursts } };
}
pub fn check(sc: &Scen, env: &mut Env) -> Check {
    set_age(sc);
    match sc.prop.as_str() {
        "C01" => check_conc(sc, env, false),
        "C03" => check_conc(sc, env, true),
        "C02" => check_history(sc, env),
        "C04" => check_c04(sc, env),
        "C05" => check_c05(sc, env),
        "C06" => check_c06(sc, env),
        "C07" => check_c07(sc, env),
        "C08" => check_c08(sc, env),
        "C09" => check_c09(sc, env),
        "C10" => check_c10(sc, env),
        "C11" => check_c11(sc, env),
        "C12" => refine::check(sc, env, true),
        "C13" => refine::check(sc, env, false),
        "C14" => refine::check_index(sc, env),
        _ => viol("harness", "unknown property".into()),
    }
}

pub const EVERY: &[Kind] = {
    use Kind::*;
    &[
        Parse, ParseAscii, FromStr, Add, Sub, Mul, Div, Rem, OpAdd, OpSub, OpMul, OpDiv, OpRem, Round, RoundTo, Cmp, Eq, Hash, HashReenter, HashPanic, AsI64, AsU64,
        FromI64, FromU64, Str, Append, SetNeg, SetPos, SetZero, SetOne, Zero, One, Clone, Intro,
    ]
};
pub fn hash_lines(sc: &Scen) -> u64 {
    let mut h = 3;
    for l in &sc.lines {
        if !matches!(l, Line::Ev { .. }) {
            h = hash_bytes(h, l.show().as_bytes());
        }
    }
    h
}
/// an initial value: mostly parsed, sometimes the result of arithmetic on
/// earlier ones (so that its representation is not the parsed one)
pub fn init_value(r: &mut Rng, sc: &mut Scen, pool: &mut Pool, at: u8, earlier: &[u8]) {
    if r.chance(1, pool.extreme) {
        return extreme(r, sc, pool, at, earlier);
    }
    let d = if r.chance(1, 15) { near_int(r) } else { pool.get(r) };
    sc.push_init(parse_op(at, spell(r, &d)));
    if !earlier.is_empty() && r.chance(1, 3) {
        let k = *r.pick(&[Kind::Add, Kind::Sub, Kind::Sub, Kind::Mul, Kind::Div, Kind::Rem, Kind::RoundTo, Kind::Clone]);
        let mut o = op(r, k, pool, earlier, &[at]);
        o.out = at;
        if r.chance(1, 2) {
            o.a = at;
        }
        sc.push_init(o);
    }
}
/// values only computing can reach, and the smallest text can: eight or nine
/// integral groups, thirty-six fractional digits, all nine groups in use
fn extreme(r: &mut Rng, sc: &mut Scen, pool: &mut Pool, at: u8, earlier: &[u8]) {
    let sparse = r.chance(1, 2);
    let digits = |r: &mut Rng, n: usize| -> Vec<u8> {
        let mut v: Vec<u8> = (0..n).map(|_| if sparse { b'0' } else { *r.pick(b"0123456789999") }).collect();
        if sparse && n > 0 {
            v[0] = *r.pick(b"123456789");
            for _ in 0..r.below(3) {
                let k = r.below(n);
                v[k] = *r.pick(b"0123456789");
            }
        }
        v
    };
    let neg = r.chance(1, 3);
    let d = match r.below(7) {
        6 => {
            // a fraction at a scale that only rounding gives
            let mut f = vec![b'0'; r.below(28)];
            let k = 1 + r.below(30 - f.len());
            f.extend(digits(r, k));
            let n = (f.len() as i64).max(match r.below(4) {
                0 => 9 * (4 + r.below(6) as i64),
                1 => 73 + r.below(9) as i64,
                _ => 31 + r.below(51) as i64,
            });
            let mut i = digits(r, 9);
            if r.chance(1, 2) {
                i.clear();
            }
            sc.push_init(parse_op(at, Dec { neg, i, f }.fix().text()));
            sc.push_init(Op { out: at, n, ..Op::new(Kind::Round) });
            return;
        }
        5 => {
            // sixteen times the square is about the largest value there is
            let mut i = b"7905694150420948329997233861081796334298".to_vec();
            let mut twice = 4;
            match r.below(4) {
                0 => {}
                1 => {
                    let k = 1 + r.below(39);
                    i[k] = *r.pick(b"0123");
                }
                2 => {
                    let k = 1 + r.below(39);
                    i.truncate(k);
                    i.extend(digits(r, 40 - k));
                    twice = 1 + r.below(4);
                }
                _ => {
                    i = digits(r, 40);
                    twice = 1 + r.below(4);
                }
            }
            sc.push_init(parse_op(at, Dec { neg, i, f: vec![] }.fix().text()));
            sc.push_init(Op { out: at, a: at, b: at, ..Op::new(Kind::Mul) });
            for _ in 0..twice {
                sc.push_init(Op { out: at, a: at, b: at, ..Op::new(Kind::Add) });
            }
            return;
        }
        0 => {
            // stays as it is: only the lowest group is not zero
            let mut f = vec![b'0'; 18 + r.below(12)];
            let k = 1 + r.below(30 - f.len());
            f.extend(digits(r, k));
            sc.push_init(parse_op(at, Dec { neg, i: vec![], f }.fix().text()));
            return;
        }
        1 | 2 => {
            let n = 33 + r.below(9);
            Dec { neg, i: digits(r, n), f: vec![] }
        }
        3 => {
            let n = 14 + r.below(9);
            let mut f = vec![b'0'; r.below(n)];
            let k = n - f.len();
            f.extend(digits(r, k));
            Dec { neg, i: vec![], f }
        }
        _ => {
            let n = 12 + r.below(12);
            let i = digits(r, n);
            let f = *r.pick(&[1, 9, 10, 13, 18, 18]);
            Dec { neg, i, f: digits(r, f) }
        }
    }
    .fix();
    sc.push_init(parse_op(at, d.text()));
    sc.push_init(Op { out: at, a: at, b: at, ..Op::new(Kind::Mul) });
    if !earlier.is_empty() && r.chance(1, 3) {
        let k = *r.pick(&[Kind::Add, Kind::Sub, Kind::Mul, Kind::Div, Kind::Rem]);
        let mut o = op(r, k, pool, earlier, &[at]);
        o.out = at;
        o.a = at;
        sc.push_init(o);
    }
}
/// How a run gets its initial values. With "cfg cold 1" they are made in a
/// process of their own and carried over as bytes, so that the first library
/// call of the process is one of the run's own calls.
pub fn begin(sc: &Scen) -> (Vec<Op>, Opts) {
    let inits = cl(&sc.inits());
    if sc.cfg("cold", 0) == 0 || inits.is_empty() {
        return (inits, Opts::default());
    }
    (vec![], Opts { start: carried(&inits), ..Opts::default() })
}
pub fn carried(inits: &[Op]) -> Vec<(u8, Start)> {
    let o = run(inits, &[], &[], &Opts::default());
    let outs: HashSet<u8> = inits.iter().map(|x| x.out).collect();
    let mut v: Vec<u8> = outs.into_iter().filter(|l| (*l as usize) < o.regs.len()).collect();
    v.sort();
    v.into_iter().map(|l| (l, Start::Raw(o.regs[l as usize]))).collect()
}
/// a position inside an op, preferably next to an access to global memory
pub fn position(r: &mut Rng, rec: &Rec) -> u32 {
    let g = (rec.nglob as usize).min(rt::NGLOB);
    let s = rec.steps.max(1);
    if g > 0 && r.chance(2, 3) {
        let p = rec.glob[r.below(g)];
        let d = *r.pick(&[0i64, 0, 1, 1, 2, 3, 5, 9, 20]);
        return (p as i64 + d).clamp(1, s as i64) as u32;
    }
    match r.below(6) {
        0 => 1 + r.below(4.min(s as usize)) as u32,
        1 => s - r.below(4.min(s as usize)) as u32,
        _ => 1 + r.below(s as usize) as u32,
    }
}

// --------------------------------------------------- C01, C03: many callers
fn gen_conc(r: &mut Rng, sc: &mut Scen, env: &mut Env, stall: bool) {
    let nt = 2 + r.below(3);
    let mut pool = Pool::new(r);
    let ns = 1 + r.below(5);
    let shared: Vec<u8> = (0..ns).map(sl).collect();
    for i in 0..ns {
        init_value(r, sc, &mut pool, sl(i), &shared[..i]);
    }
    for t in 0..nt {
        for k in 0..2 {
            init_value(r, sc, &mut pool, rl(t * 8 + k), &shared);
        }
    }
    let mixk = Mix::new(r, EVERY);
    // callers that come and go while the others run
    let crowd = r.chance(1, 24);
    let same = crowd || r.chance(1, 2); // all callers make the same kind of call
    let focus = mixk.pick(r);
    let per = 1 + r.below(4);
    let mut list = Vec::new();
    for t in 0..nt {
        let mine: Vec<u8> = (0..3).map(|k| rl(t * 8 + k)).collect();
        let mut opn = mine.clone();
        opn.extend(&shared);
        opn.extend(&shared);
        let mut v = Vec::new();
        for _ in 0..per {
            let k = if same && r.chance(3, 4) { focus } else { mixk.pick(r) };
            let mut o = op(r, k, &mut pool, &opn, &mine);
            o.thr = t as u8;
            v.push(o);
        }
        list.push(v);
    }
    // merge, keeping each caller's order
    while list.iter().any(|v| !v.is_empty()) {
        let t = r.below(nt);
        if !list[t].is_empty() {
            let o = list[t].remove(0);
            sc.push_op(o);
        }
    }
    // the others make the very call a stopped caller was in
    let mut told = None;
    if stall && r.chance(1, 4) {
        let ops = cl(&sc.ops());
        let x = r.pick(&ops).clone();
        let own = |l: u8, t: usize| if l >= rl(0) && l != NONE { rl(t * 8 + (l - rl(0)) as usize % 8) } else { l };
        for t in (0..nt).filter(|t| *t != x.thr as usize) {
            sc.push_op(Op { thr: t as u8, out: own(x.out, t), a: own(x.a, t), b: own(x.b, t), ..x.clone() });
        }
        told = Some(x);
    }
    if r.chance(1, 3) {
        sc.lines.push(Line::Cfg("cold".into(), 1));
    }
    let mut met = vec![];
    if crowd {
        // between the first calls of two callers
        let ops = sc.ops();
        let t = 1 + r.below(nt - 1);
        let id = ops.iter().find(|o| o.thr as usize == t).map_or(0, |o| o.id);
        met = ops.iter().filter(|o| o.thr as usize != t && o.id < id).map(|o| (o.id, t)).collect();
        let n = if r.chance(1, 4) { r.range(1, 12) } else { (1 << *r.pick(&[2, 3, 3, 4, 4, 4, 5, 5, 6, 7])) - r.range(0, 3) };
        sc.lines.push(Line::Cfg(format!("crowd{}", id), n));
        set_age(sc);
    }
    let solos = solo_runs(sc, env);
    let ops = cl(&sc.ops());
    let rec_of = |id: u32| -> Rec {
        let o = ops.iter().find(|o| o.id == id).unwrap();
        let k = ops.iter().filter(|x| x.thr == o.thr).position(|x| x.id == id).unwrap();
        solos[o.thr as usize].recs[k].clone()
    };
    let mut dead = HashSet::new();
    if stall {
        for _ in 0..1 + r.below(nt - 1) {
            let o = told.take().unwrap_or_else(|| r.pick(&ops).clone());
            if dead.len() + 1 < nt && dead.insert(o.thr) {
                let pos = position(r, &rec_of(o.id));
                let f = if r.chance(1, 5) { Fault::Abandon } else { Fault::Stall };
                sc.lines.push(Line::Ev { op: o.id, pos, fault: f });
            }
        }
    }
    if r.chance(1, if stall { 5 } else { 50 }) {
        // somebody goes on for long, mostly after the others have stopped
        let mut alive: Vec<u32> = ops.iter().filter(|o| !dead.contains(&o.thr)).map(|o| o.id).collect();
        let at = ops.iter().position(|o| dead.contains(&o.thr)).map_or(0, |k| ops[k].id);
        if r.chance(3, 4) && alive.iter().any(|i| *i > at) {
            alive.retain(|i| *i > at);
        }
        if !alive.is_empty() {
            sc.lines.push(Line::Cfg(format!("burst{}", r.pick(&alive)), burst_len(r, stall)));
        }
    }
    let ne = if stall { *r.pick(&[0, 0, 1, 3]) } else { *r.pick(&[1, 1, 2, 3, 5, 8, 16]) };
    for _ in 0..ne {
        let mut o = r.pick(&ops).clone();
        let mut to = (o.thr as usize + 1 + r.below(nt - 1)) % nt;
        if !met.is_empty() && r.chance(1, 2) {
            let (id, t) = *r.pick(&met);
            o = ops.iter().find(|x| x.id == id).unwrap().clone();
            to = t;
        }
        let pos = position(r, &rec_of(o.id));
        sc.lines.push(Line::Ev { op: o.id, pos, fault: Fault::Sw(to as u8) });
    }
    env.cache_key = hash_lines(sc);
    env.cache = solos;
}
/// every caller alone, each in its own process
fn solo_runs(sc: &Scen, env: &mut Env) -> Vec<Outcome> {
    let key = hash_lines(sc);
    if env.cache_key == key && !env.cache.is_empty() {
        env.cache_key = 0;
        return std::mem::take(&mut env.cache);
    }
    let (inits, opts) = begin(sc);
    let ops = cl(&sc.ops());
    let nt = ops.iter().map(|o| o.thr as usize + 1).max().unwrap_or(0);
    let crowd = unsafe { std::mem::take(&mut (*(&raw mut exec::AGE)).crowd) };
    let bursts = unsafe { std::mem::take(&mut (*(&raw mut exec::AGE)).bursts) };
    let v = (0..nt)
        .map(|t| {
            let mine: Vec<Op> = ops.iter().filter(|o| o.thr as usize == t).map(|o| Op { thr: 0, ..o.clone() }).collect();
            run(&inits, &mine, &[], &opts)
        })
        .collect();
    unsafe { exec::AGE.crowd = crowd };
    unsafe { exec::AGE.bursts = bursts };
    v
}
fn check_conc(sc: &Scen, env: &mut Env, stall: bool) -> Check {
    let solos = solo_runs(sc, env);
    let (inits, opts) = begin(sc);
    let ops = cl(&sc.ops());
    if ops.is_empty() {
        return Ok(());
    }
    let evs = sc.evs();
    let o = run(&inits, &ops, &evs, &opts);
    env.take(&o);
    let dead: HashSet<u8> = evs.iter().filter(|e| matches!(e.2, Fault::Stall | Fault::Abandon)).filter_map(|e| ops.iter().find(|x| x.id == e.0).map(|x| x.thr)).collect();
    let solo_bad = solos.iter().any(|s| end_class(s).is_some());
    if let Some((c, m)) = end_class(&o) {
        if solo_bad {
            return Ok(()); // this call never returns for anybody
        }
        let who: Vec<String> = ops.iter().zip(&o.recs).filter(|(x, r)| r.started != 0 && r.done == 0 && !dead.contains(&x.thr)).map(|(x, _)| show(x)).collect();
        return viol(c, format!("{}; unfinished: {}", m, who.join("; ")));
    }
    let mut later = Later::default();
    for (i, x) in ops.iter().enumerate() {
        if dead.contains(&x.thr) {
            continue;
        }
        let k = ops[..i].iter().filter(|y| y.thr == x.thr).count();
        let s = &solos[x.thr as usize];
        let (sr, cr) = (&s.recs[k], &o.recs[i]);
        if sr.done == 0 {
            continue;
        }
        let what = if stall { "with stalled callers against alone" } else { "concurrent against alone" };
        if cr.done == 0 {
            return viol("unfinished", format!("{}: {} did not finish", what, show(x)));
        }
        same_rec(x, cr, sr, &mut later, false, "differs", what)?;
        operands_kept(x, cr, &mut later);
    }
    later.judge(env)
}

// ------------------------------------------------------ C02: histories
fn gen_history(r: &mut Rng, sc: &mut Scen, env: &mut Env) {
    let mut pool = Pool::new(r);
    let nr = 3 + r.below(6);
    let regs: Vec<u8> = (0..nr).map(rl).collect();
    for i in 0..nr {
        init_value(r, sc, &mut pool, rl(i), &regs[..i]);
    }
    let mut kinds = EVERY.to_vec();
    kinds.push(Kind::ParseKeep);
    let m = Mix::new(r, &kinds);
    let n = 3 + r.below(20);
    let nt = 1 + r.below(2);
    for _ in 0..n {
        let k = m.pick(r);
        let mut o = op(r, k, &mut pool, &regs, &regs);
        o.thr = r.below(nt) as u8;
        sc.push_op(o);
    }
    let na = *r.pick(&[0, 1, 1, 2, 3]);
    if r.chance(1, 4) {
        sc.lines.push(Line::Cfg("cold".into(), 1));
    }
    if na > 0 {
        let (inits, opts) = begin(sc);
        let p = run(&inits, &cl(&sc.ops()), &[], &opts);
        let ops = cl(&sc.ops());
        let mut used = HashSet::new();
        for _ in 0..na {
            let i = r.below(ops.len());
            if p.recs[i].done != 0 && used.insert(i) {
                let pos = position(r, &p.recs[i]);
                sc.lines.push(Line::Ev { op: ops[i].id, pos, fault: Fault::Abandon });
            }
        }
    }
    let _ = env;
}
fn call_of(o: &Op, r: &Rec) -> Call {
    Call {
        kind: if o.kind == Kind::HashReenter { Kind::HashSplit } else { o.kind },
        a: r.a,
        b: r.b,
        out: if o.kind.in_place() || o.kind == Kind::ParseKeep || (o.kind == Kind::FromStr) { Some(r.pre) } else { None },
        n: o.n,
        text: match &o.text {
            Text::Lit(t) => t.clone(),
            Text::Ref(_) => vec![],
        },
    }
}
fn as_rec(c: &CallRes) -> Rec {
    let mut r: Rec = unsafe { std::mem::zeroed() };
    r.tag = c.tag;
    r.done = 1;
    r.aux_len = c.aux.len() as u32;
    r.aux[..c.aux.len()].copy_from_slice(&c.aux);
    r.out = c.out;
    r
}
/// every finished call of the run against the same call in a pristine process
fn against_pristine(ops: &[Op], o: &Outcome, later: &mut Later, skip: &dyn Fn(usize) -> bool) -> Check {
    let idx: Vec<usize> = (0..ops.len()).filter(|i| o.recs[*i].done != 0 && !skip(*i)).rev().collect();
    let calls: Vec<Call> = idx.iter().map(|i| call_of(&ops[*i], &o.recs[*i])).collect();
    let res = batch(&calls);
    let cmp = |i: usize, c: &CallRes, later: &mut Later, what: &str| -> Check {
        same_rec(&ops[i], &o.recs[i], &as_rec(c), later, false, "depends-on-history", what)
    };
    for (j, i) in idx.iter().enumerate() {
        if let Some(c) = &res[j] {
            cmp(*i, c, later, "in this history against a pristine process")?;
        }
    }
    // a few calls in a process of their own
    for (j, i) in idx.iter().enumerate() {
        if j == 0 || mix(ops[*i].id as u64 + idx.len() as u64) % 8 == 0 {
            if let Some(c) = &batch(&calls[j..j + 1])[0] {
                cmp(*i, c, later, "in this history against a pristine process of its own")?;
            }
        }
    }
    Ok(())
}
fn check_history(sc: &Scen, env: &mut Env) -> Check {
    let (inits, opts) = begin(sc);
    let ops = cl(&sc.ops());
    if ops.is_empty() {
        return Ok(());
    }
    let evs = sc.evs();
    let o = run(&inits, &ops, &evs, &opts);
    env.take(&o);
    for (x, r) in ops.iter().zip(&o.recs) {
        if x.kind == Kind::HashReenter && r.done != 0 {
            env.fire("library re-entered from a hasher", 1);
        }
        if r.done != 0 && r.tag != 0 && r.tag != T_HASHER {
            env.fire("call failed", 1);
        }
    }
    if let Some((c, m)) = end_class(&o) {
        // does the unfinished call finish in a pristine process?
        let i = (0..ops.len()).rev().find(|i| o.recs[*i].started != 0 && o.recs[*i].done == 0 && !evs.iter().any(|e| e.0 == ops[*i].id));
        if let Some(i) = i {
            if let Some(r) = &batch(&[call_of(&ops[i], &o.recs[i])])[0] {
                return viol(c, format!("{}: {} (pristine process: {})", m, show(&ops[i]), tag_name(r.tag)));
            }
        } else if o.fired[2] > 0 {
            return viol(c, m);
        }
        return Ok(());
    }
    if let Some(m) = &o.aged_bad {
        return viol("aged", m.clone());
    }
    let mut later = Later::default();
    for (x, r) in ops.iter().zip(&o.recs) {
        if r.done != 0 {
            operands_kept(x, r, &mut later);
        }
    }
    against_pristine(&ops, &o, &mut later, &|_| false)?;
    later.judge(env)
}

// ------------------------------------------------------ C04: failures
fn gen_c04(r: &mut Rng, sc: &mut Scen) {
    let mut pool = Pool::new(r);
    if r.chance(1, 2) {
        // magnitudes at the limits
        for _ in 0..3 {
            let d = match r.below(3) {
                0 => Dec { neg: r.chance(1, 3), i: (0..45 + r.below(21)).map(|_| *r.pick(b"999999999105")).collect(), f: vec![] }.fix(),
                1 => {
                    let mut f = vec![b'0'; r.below(30)];
                    f.push(*r.pick(b"159"));
                    Dec { neg: r.chance(1, 3), i: vec![], f }.fix()
                }
                _ => near_int(r),
            };
            pool.v.push(d);
        }
    }
    if r.chance(1, 2) {
        pool.v.push(Dec { neg: false, i: vec![], f: vec![b'0'; r.below(12)] });
    }
    let nr = 4 + r.below(5);
    let regs: Vec<u8> = (0..nr).map(rl).collect();
    for i in 0..nr {
        init_value(r, sc, &mut pool, rl(i), &regs[..i]);
    }
    use Kind::*;
    let m = Mix::new(r, &[Parse, ParseAscii, FromStr, ParseKeep, Add, Sub, Mul, Div, Rem, AsI64, AsU64, Round, RoundTo, Cmp, Str, FromI64, Clone, OpAdd, OpSub, OpMul, OpDiv, OpRem]);
    for _ in 0..4 + r.below(20) {
        let k = m.pick(r);
        let mut o = op(r, k, &mut pool, &regs, &regs);
        if k.is_parse() && r.chance(1, 2) {
            let mut t = odd(r);
            if r.chance(1, 2) {
                let d = pool.get(r);
                t = spell(r, &d);
                damage(r, &mut t);
            }
            o.text = Text::Lit(t);
        }
        if k == ParseKeep {
            if let Text::Lit(t) = &o.text {
                if model::read(t).is_some() {
                    sc.push_op(Op { out: o.out, ..Op::new(SetZero) });
                }
            }
        }
        if matches!(k, Round | RoundTo) && r.chance(2, 3) {
            o.n = -(r.below(12) as i64);
        }
        if matches!(k, Add | Sub | Mul) && r.chance(1, 3) {
            // accumulate into one value, so that magnitudes grow
            o.a = regs[0];
            o.out = regs[0];
            if k == Mul && r.chance(1, 2) {
                o.b = regs[0];
            }
        }
        sc.push_op(o);
    }
}
fn zeros_after_dot(t: &[u8]) -> usize {
    match t.iter().position(|c| *c == b'.') {
        Some(p) => t[p + 1..].iter().take_while(|c| **c == b'0').count(),
        None => 0,
    }
}
fn check_c04(sc: &Scen, env: &mut Env) -> Check {
    use Kind::*;
    let inits = cl(&sc.inits());
    let ops = cl(&sc.ops());
    if ops.is_empty() {
        return Ok(());
    }
    for (i, o) in ops.iter().enumerate() {
        if o.kind == ParseKeep {
            if let Text::Lit(t) = &o.text {
                let fresh = i > 0 && ops[i - 1].kind == SetZero && ops[i - 1].out == o.out;
                if model::read(t).is_some() && !fresh {
                    return Ok(()); // outside the contract: accepted text on a used target
                }
            }
        }
    }
    let o = run(&inits, &ops, &[], &Opts::default());
    env.take(&o);
    let mut later = Later::default();
    let mut raws = Vec::new();
    for r in &o.recs {
        raws.extend([r.a, r.b, r.out, r.pre]);
    }
    let tx = texts(&raws);
    let val = |i: usize, w: usize| -> Option<(Big, usize, usize)> { tx[i * 4 + w].as_ref().and_then(|t| model::value_of(&t.0)) };
    let mut failed_outs: Vec<(usize, Raw)> = Vec::new();
    for (i, x) in ops.iter().enumerate() {
        let r = &o.recs[i];
        if r.done == 0 {
            if r.started != 0 {
                let (c, m) = end_class(&o).unwrap_or(("unfinished", "never returned".into()));
                return viol(c, format!("{}: {}", m, show(x)));
            }
            break;
        }
        let k = x.kind;
        if r.tag >= 100 && (k.is_arith_to() || k.is_parse() || matches!(k, AsI64 | AsU64)) {
            return viol("panic", format!("{} panicked (operands {} and {})", show(x), tshow(&tx[i * 4]), tshow(&tx[i * 4 + 1])));
        }
        operands_kept(x, r, &mut later);
        if k.is_parse() && r.tag != 0 {
            env.fire("damaged or oversized text", 1);
            match k {
                ParseKeep | FromStr => later.same(&r.pre, &r.out, "target-changed", || format!("target changed by failed {}", show(x)), false),
                _ => match &tx[i * 4 + 2] {
                    Some((t, neg, 0)) if t == b"0" && !*neg => {}
                    t => return viol("target-not-zero", format!("after failed {} the target is {}", show(x), tshow(t))),
                },
            }
            failed_outs.push((i, r.out));
        }
        let operator = k.is_operator();
        let k = match k {
            OpAdd => Add,
            OpSub => Sub,
            OpMul => Mul,
            OpDiv => Div,
            OpRem => Rem,
            k => k,
        };
        if k.is_arith_to() {
            let (a, b) = match (val(i, 0), val(i, 1)) {
                (Some(a), Some(b)) => (a, b),
                _ => continue,
            };
            let mut must: Option<&str> = None;
            match k {
                Add | Sub => {
                    let s = if k == Add { a.0.add(&b.0) } else { a.0.sub(&b.0) };
                    if s.intg_units() + (a.2.max(b.2) + 8) / 9 > 9 && s.intg_units() + frac_units_of(&s) > 9 {
                        must = Some("overflow");
                    }
                    if r.tag == 0 {
                        if let Some(v) = val(i, 2) {
                            if v.0 != s {
                                return viol("silent-overflow", format!("{} = {} instead of {} or an error", show(x), v.0.text(), s.text()));
                            }
                        }
                    }
                }
                Mul => {
                    let (da, db) = (a.0.intg_digits(), b.0.intg_digits());
                    if da > 0 && db > 0 && da + db - 1 > 81 {
                        must = Some("overflow");
                    }
                }
                Div | Rem => {
                    if b.0.is_zero() {
                        env.fire("zero divisor", 1);
                        if r.tag == 0 || !operator && r.tag != 2 {
                            return viol("zero-divisor", format!("{} by zero ({}): {}", show(x), tshow(&tx[i * 4 + 1]), tag_name(r.tag)));
                        }
                    } else if k == Div && !a.0.is_zero() && b.0.intg_digits() == 0 {
                        let zb = zeros_after_dot(&b.0.text().into_bytes());
                        if a.0.intg_digits() > 0 && a.0.intg_digits() + zb > 81 {
                            must = Some("overflow");
                        }
                    }
                }
                _ => {}
            }
            if let Some(m) = must {
                env.fire("result too large", 1);
                if r.tag == 0 {
                    return viol("silent-overflow", format!("{} ({} and {}) cannot be represented but returned {}", show(x), a.0.text(), b.0.text(), tshow(&tx[i * 4 + 2])));
                }
                let _ = m;
            }
            if operator && r.tag >= 100 {
                // only in place of an error
                let n = if k == Div { 4 } else { 0 };
                let c = batch(&[Call { kind: k, a: r.a, b: r.b, out: None, n, text: vec![] }]);
                if !matches!(&c[0], Some(c) if c.tag == 2 || c.tag == 3) {
                    return viol("panic", format!("{} panicked (operands {} and {}), and the result-slot form reports no error", show(x), tshow(&tx[i * 4]), tshow(&tx[i * 4 + 1])));
                }
            }
            if r.tag != 0 && !operator {
                failed_outs.push((i, r.out));
            }
        }
        if matches!(k, AsI64 | AsU64) {
            if let Some((v, _, _)) = val(i, 0) {
                let (lo, hi) = if k == AsI64 { (i64::MIN as i128, i64::MAX as i128) } else { (0, u64::MAX as i128) };
                // 2v compared with 2lo-1 and 2hi+1: outside, no rounding can reach the range
                let twice = v.add(&v);
                let out = twice < Big::from_i128(2 * lo - 1) || twice > Big::from_i128(2 * hi + 1);
                if out {
                    env.fire("integer out of range", 1);
                    if r.tag == 0 {
                        return viol("silent-range", format!("{} of {} returned {:?}", show(x), v.text(), r.aux()));
                    }
                }
            }
        }
    }
    // a value a failed call wrote to must behave like its own reload
    let raws: Vec<Raw> = failed_outs.iter().map(|x| x.1).collect();
    for ((i, raw), t) in failed_outs.iter().zip(texts(&raws)) {
        match t {
            None => return viol("unusable", format!("the result value of failed {} cannot be formatted", show(&ops[*i]))),
            Some((t, _, _)) => {
                if storable(&t) {
                    let z = [0; VS];
                    let c = batch(&[Call { kind: Parse, a: z0(), b: z0(), out: None, n: 0, text: t.clone() }]);
                    let _ = z;
                    match &c[0] {
                        Some(c) if c.tag == 0 => later.same(raw, &c.out, "unusable", || format!("value left by failed {} differs from its own text {}", show(&ops[*i]), esc(&t)), true),
                        _ => return viol("unusable", format!("text {} left by failed {} cannot be read back", esc(&t), show(&ops[*i]))),
                    }
                }
            }
        }
    }
    against_pristine(&ops, &o, &mut later, &|_| false)?;
    later.judge(env)
}
fn frac_units_of(b: &Big) -> usize {
    let t = b.text();
    match t.find('.') {
        Some(p) => (t.len() - p - 1 + 8) / 9,
        None => 0,
    }
}
static mut ZRAW: Raw = [0; VS];
static mut ZSET: bool = false;
/// raw form of a pristine zero
pub fn z0() -> Raw {
    unsafe {
        if !ZSET {
            in_child(60, || {
                let z = FixedDecimal::zero();
                shm().regs[0] = read_raw(&z);
            });
            ZRAW = shm().regs[0];
            ZSET = true;
        }
        ZRAW
    }
}
pub fn tshow(t: &Option<(Vec<u8>, bool, u8)>) -> String {
    match t {
        Some((t, n, f)) => format!("{}{} scale {}", if *n { "(neg) " } else { "" }, esc(t), f),
        None => "unprintable".into(),
    }
}

// ------------------------------------------------------ C05: no heap
fn gen_c05(r: &mut Rng, sc: &mut Scen) {
    let mut pool = Pool::new(r);
    let nr = 3 + r.below(6);
    let regs: Vec<u8> = (0..nr).map(rl).collect();
    for i in 0..nr {
        init_value(r, sc, &mut pool, rl(i), &regs[..i]);
    }
    use Kind::*;
    let m = Mix::new(r, &[Parse, ParseAscii, FromStr, Add, Sub, Mul, Div, Rem, Round, RoundTo, Cmp, Eq, Hash, AsI64, AsU64, FromI64, FromU64, Append, SetNeg, SetPos, SetZero, SetOne, Zero, One, Clone, Intro]);
    let n = 3 + r.below(24);
    for _ in 0..n {
        let k = m.pick(r);
        let o = op(r, k, &mut pool, &regs, &regs);
        sc.push_op(o);
    }
    let f = if r.chance(2, 3) { 0 } else { r.below(n) as i64 };
    sc.lines.push(Line::Cfg("fail_from".into(), f));
}
fn check_c05(sc: &Scen, env: &mut Env) -> Check {
    if std::mem::needs_drop::<FixedDecimal>() {
        return viol("heap", "a decimal owns something that must be dropped: it is not one fixed-size inline value".into());
    }
    let inits = cl(&sc.inits());
    let ops = cl(&sc.ops());
    let mut ops = ops;
    let from = sc.cfg("fail_from", 0).max(0) as usize;
    let mut a = run(&inits, &ops, &[], &Opts::default());
    // a call that panics anyway has no normal outcome to keep (and a panic
    // message needs memory): leave it out
    for _ in 0..4 {
        if end_class(&a).is_some() || !a.recs.iter().any(|r| r.tag >= 100) {
            break;
        }
        let keep: Vec<Op> = ops.iter().zip(&a.recs).filter(|(_, r)| r.tag < 100).map(|(o, _)| o.clone()).collect();
        ops = keep;
        a = run(&inits, &ops, &[], &Opts::default());
    }
    if a.recs.iter().any(|r| r.tag >= 100) {
        return Ok(());
    }
    let b = run(&inits, &ops, &[], &Opts { fail_from: from, ..Opts::default() });
    env.take(&b);
    env.fire("allocator refuses everything during a call", ops.len().saturating_sub(from) as u64);
    let refused: u32 = b.recs.iter().map(|r| r.nfail).sum();
    if refused > 0 {
        *env.probes.entry("allocation requests refused").or_default() += refused as u64;
    }
    if end_class(&a).is_some() {
        return Ok(());
    }
    let mut later = Later::default();
    for (i, x) in ops.iter().enumerate() {
        if b.recs[i].done == 0 {
            let (c, m) = end_class(&b).unwrap_or(("unfinished", "never returned".into()));
            return viol(c, format!("without memory: {}: {}", m, show(x)));
        }
        same_rec(x, &b.recs[i], &a.recs[i], &mut later, false, "needs-heap", "without memory against with memory")?;
    }
    // the first call a process ever makes must not need the heap either
    let idx: Vec<usize> = (0..ops.len()).filter(|i| a.recs[*i].done != 0).rev().collect();
    let calls: Vec<Call> = idx.iter().map(|i| call_of(&ops[*i], &a.recs[*i])).collect();
    let mut parts = vec![(0, idx.len())];
    parts.extend((0..idx.len()).filter(|j| idx.len() <= 3 || mix(ops[idx[*j]].id as u64 + idx.len() as u64) % 16 == 0).map(|j| (j, j + 1)));
    for (lo, hi) in parts {
        for (c, i) in batch_mem(&calls[lo..hi], u32::MAX).iter().zip(&idx[lo..hi]) {
            match c {
                None => return viol("died", format!("without memory in a fresh process: {} did not come back", show(&ops[*i]))),
                Some(c) => same_rec(&ops[*i], &as_rec(c), &a.recs[*i], &mut later, false, "needs-heap", "without memory in a fresh process against with memory")?,
            }
        }
    }
    later.judge(env)
}

// ------------------------------------------------------ C06: appending
fn gen_c06(r: &mut Rng, sc: &mut Scen) {
    let mut pool = Pool::new(r);
    let nr = 2 + r.below(6);
    let regs: Vec<u8> = (0..nr).map(rl).collect();
    for i in 0..nr {
        init_value(r, sc, &mut pool, rl(i), &regs[..i]);
        if r.chance(1, 10) {
            sc.push_init(Op { out: rl(i), ..Op::new(Kind::SetNeg) });
        }
    }
    let n = match r.below(10) {
        0 => 0,
        1 => 250 + r.below(12),
        2 => 120 + r.below(20),
        3 if r.chance(1, 4) => 65530 + r.below(12),
        4 | 5 => 1 + r.below(3),
        _ => r.below(40),
    };
    let pre: Vec<u8> = match r.below(5) {
        0 => r.pick(&[&b"0"[..], b"-", b"-0", b"0.", b"000", b"1.50", b".", b"-1.00", b"000000000", b"1e5", b"\xff\xfe", b"\x00", b"12.300"]).to_vec(),
        1 => (0..n.min(300)).map(|_| *r.pick(b"0.-")).collect(),
        2 => (0..n.min(300)).map(|_| *r.pick(b"0123456789.-")).collect(),
        3 => (0..n.min(300)).map(|_| r.below(256) as u8).collect(),
        _ => b"0".to_vec(),
    };
    let len = if pre.is_empty() { 0 } else { n.max(pre.len().min(13)) };
    let spare = *r.pick(&[0, 0, 0, 1, 2, 3, 7, 8, 16, 31, 64, 200]);
    sc.lines.push(Line::Act(vec![b"buf".to_vec(), pre, len.to_string().into_bytes(), spare.to_string().into_bytes()]));
    for _ in 0..1 + r.below(8) {
        if r.chance(1, 8) {
            // an unrelated byte string is written between
            let b = r.pick(&[&b","[..], b"0", b"\n", b".", b"-", b"key=", b"0.0"]).to_vec();
            sc.lines.push(Line::Act(vec![b"raw".to_vec(), b]));
        }
        let k = match r.below(4) {
            0 => 0,
            1 => 1,
            2 => 1 + r.below(4),
            _ => 1 + r.below(2),
        };
        let cut = r.chance(3, 4); // shrink before: growth is needed
        let n = scale_arg(r, Kind::Append);
        sc.lines.push(Line::Act(vec![
            b"app".to_vec(),
            (*r.pick(&regs) - 64).to_string().into_bytes(),
            n.to_string().into_bytes(),
            k.to_string().into_bytes(),
            (cut as u8).to_string().into_bytes(),
        ]));
    }
}
pub fn num(b: &[u8]) -> i64 {
    std::str::from_utf8(b).ok().and_then(|s| s.parse().ok()).unwrap_or(0)
}
fn check_c06(sc: &Scen, env: &mut Env) -> Check {
    let inits = cl(&sc.inits());
    let acts: Vec<Vec<Vec<u8>>> = sc.acts().into_iter().cloned().collect();
    let o = run(&inits, &[], &[], &Opts::default());
    if end_class(&o).is_some() {
        return Ok(());
    }
    let apps: Vec<&Vec<Vec<u8>>> = acts.iter().filter(|a| a[0] == b"app" && a.len() == 5).collect();
    let reg = |a: &Vec<Vec<u8>>| o.regs[64 + (num(&a[1]) as usize & 15)];
    let want = batch(&apps.iter().map(|a| Call { kind: Kind::Append, a: reg(a), b: z0(), out: None, n: num(&a[2]), text: vec![] }).collect::<Vec<_>>());
    // log of the driver: per append: tag, prefix kept, value kept, appended len u16, bytes; then the same for the retry
    shm().log_len = 0;
    let ret = in_child(60, || {
        let sh = shm();
        grow_old(&[Kind::Append, Kind::Str]);
        let mut log: Vec<u8> = Vec::with_capacity(LOG);
        let mut v: Vec<u8> = Vec::new();
        for a in &acts {
            if a[0] == b"buf" && a.len() == 4 {
                let len = num(&a[2]) as usize;
                v = Vec::with_capacity(len + num(&a[3]) as usize);
                for i in 0..len {
                    v.push(if a[1].is_empty() { b'x' } else { a[1][i % a[1].len()] });
                }
            } else if a[0] == b"raw" && a.len() == 2 {
                v.extend_from_slice(&a[1]);
            } else if a[0] == b"app" && a.len() == 5 {
                let raw = reg(a);
                let d = from_raw(&raw);
                if num(&a[4]) != 0 {
                    v.shrink_to_fit();
                }
                let old = v.clone();
                let mut k = num(&a[3]) as u32;
                let mut round = 0;
                loop {
                    if round == 2 {
                        k = 0;
                    }
                    rt::begin_op(usize::MAX, k);
                    let r = catch_unwind(AssertUnwindSafe(|| d.append_str_buf(&mut v, num(&a[2]) as isize)));
                    rt::end_op();
                    let (steps, fails) = rt::CTX.with(|c| (c.pos.get(), c.fails.get()));
                    sh.steps += steps as u64;
                    let tag = match r {
                        Ok(()) => 0,
                        Err(e) => panic_tag(&e),
                    };
                    let keep = v.len() >= old.len() && v[..old.len()] == old[..];
                    let same = read_raw(&d) == raw;
                    let tail: Vec<u8> = if keep { v[old.len()..].iter().take(fxdshim::AUX).copied().collect() } else { vec![] };
                    log.extend_from_slice(&[tag, keep as u8, same as u8, fails as u8]);
                    log.extend_from_slice(&(tail.len() as u16).to_le_bytes());
                    log.extend_from_slice(&tail);
                    if tag == T_ALLOC && keep && round < 2 {
                        v.truncate(old.len());
                        round += 1;
                        continue;
                    }
                    log.push(254);
                    break;
                }
                if v.len() < old.len() || v[..old.len()] != old[..] {
                    v = old;
                }
            }
            sh.log[..log.len()].copy_from_slice(&log);
            sh.log_len = log.len() as u32;
        }
        sh.log[..log.len()].copy_from_slice(&log);
        sh.log_len = log.len() as u32;
    });
    env.aged();
    let log = shm().log[..shm().log_len as usize].to_vec();
    env.digest = mix(env.digest ^ hash_bytes(1, &log));
    env.steps += shm().steps;
    env.calls += apps.len() as u64;
    let mut p = 0;
    for (a, w) in apps.iter().zip(&want) {
        let line = Line::Act((*a).clone()).show();
        let w = match w {
            Some(w) => w,
            None => continue,
        };
        let vt = || tshow(&texts(&[reg(a)])[0]);
        let mut first = true;
        loop {
            if p >= log.len() {
                return viol(if ret == Ret::Ok { "unfinished" } else { "died" }, format!("{} did not finish", line));
            }
            let (tag, keep, same, fails) = (log[p], log[p + 1], log[p + 2], log[p + 3]);
            let n = u16::from_le_bytes([log[p + 4], log[p + 5]]) as usize;
            let tail = &log[p + 6..p + 6 + n];
            p += 6 + n;
            env.fire("allocation failed while appending", fails as u64);
            let what = || format!("{} (value {}, {})", line, vt(), if first { "first try" } else { "retry" });
            if keep == 0 {
                return viol("prefix-lost", format!("{}: earlier content of the buffer was changed", what()));
            }
            if same == 0 {
                return viol("value-changed", format!("{}: the decimal changed", what()));
            }
            match tag {
                T_ALLOC => {
                    if fails == 0 {
                        return viol("differs", format!("{}: reported an allocation failure that did not happen", what()));
                    }
                    if w.tag == 0 && !w.aux.starts_with(tail) {
                        return viol("partial-garbage", format!("{}: after the failed allocation {} was appended, full text is {}", what(), esc(tail), esc(&w.aux)));
                    }
                    if !tail.is_empty() {
                        env.probe("partial text left by a failed append");
                    }
                }
                0 if w.tag == 0 => {
                    if tail != &w.aux[..] {
                        return viol("differs", format!("{}: appended {} instead of {}", what(), esc(tail), esc(&w.aux)));
                    }
                }
                t => {
                    if t != w.tag {
                        return viol("differs", format!("{}: {} instead of {}", what(), tag_name(t), tag_name(w.tag)));
                    }
                }
            }
            first = false;
            if log.get(p) == Some(&254) {
                p += 1;
                break;
            }
        }
    }
    if apps.len() > 1 {
        env.nontrivial = true;
    }
    Ok(())
}

// ------------------------------------------------------ C07: stored text
fn gen_c07(r: &mut Rng, sc: &mut Scen) {
    let mut pool = Pool::new(r);
    for i in 0..2 {
        init_value(r, sc, &mut pool, rl(i), &[]);
    }
    let ns = 1 + r.below(3);
    let act = |v: Vec<Vec<u8>>| Line::Act(v);
    let s = |x: usize| x.to_string().into_bytes();
    let faults: Vec<usize> = (0..10).filter(|_| r.chance(1, 2)).collect();
    for _ in 0..4 + r.below(16) {
        let k = r.below(ns);
        let mut t = |r: &mut Rng| {
            if r.chance(1, 4) {
                odd(r)
            } else {
                let d = pool.get(r);
                spell(r, &d)
            }
        };
        let txt = t(r);
        if r.chance(1, 2) || faults.is_empty() {
            sc.lines.push(act(vec![b"write".to_vec(), s(k), txt]));
        } else {
            let cut = r.below(txt.len() + 2);
            match *r.pick(&faults) {
                0 => sc.lines.push(act(vec![b"torn".to_vec(), s(k), s(cut), txt])),
                1 => sc.lines.push(act(vec![b"short".to_vec(), s(k), s(cut), txt])),
                2 => sc.lines.push(act(vec![b"lost".to_vec(), s(k), txt])),
                3 => {
                    for _ in 0..1 + r.below(2) {
                        let l = act(vec![b"flip".to_vec(), s(k), s(r.below(80)), s(r.below(8))]);
                        sc.lines.push(l);
                    }
                }
                4 => sc.lines.push(act(vec![b"dup".to_vec(), s(k)])),
                5 => {
                    let k2 = r.below(ns);
                    let l = act(vec![b"splice".to_vec(), s(k), s(k2), s(r.below(30)), s(r.below(30))]);
                    sc.lines.push(l)
                }
                6 => {
                    let l = act(vec![b"nul".to_vec(), s(k), s(r.below(40)), s(1 + r.below(9))]);
                    sc.lines.push(l)
                }
                7 => sc.lines.push(act(vec![b"append".to_vec(), s(k), txt])),
                8 => {
                    let n = *r.pick(&[40usize, 64, 128, 192, 250, 255, 256, 257, 300, 512, 1000, 4096, 32767, 32768, 65535, 65536, 65537]);
                    let n = n + r.below(70);
                    if n < 1000 || r.chance(1, 8) {
                        let l = act(vec![b"fill".to_vec(), s(k), s(r.below(40)), s(*r.pick(b"000009915.e-+\x00\xff") as usize), s(n)]);
                        sc.lines.push(l)
                    }
                }
                _ => {
                    let l = act(vec![b"drop".to_vec(), s(k), s(r.below(40)), s(1 + r.below(12))]);
                    sc.lines.push(l)
                }
            }
        }
        let l = act(vec![b"read".to_vec(), s(k), r.pick(&[&b"parse"[..], b"parse_ascii", b"from_str"]).to_vec(), s(r.below(3))]);
        sc.lines.push(l);
    }
}
fn check_c07(sc: &Scen, env: &mut Env) -> Check {
    // the simulated disk
    let mut disk: HashMap<usize, Vec<u8>> = HashMap::new();
    let mut ops: Vec<Op> = Vec::new();
    let mut texts_read: Vec<Vec<u8>> = Vec::new();
    for a in sc.acts() {
        if a.len() < 2 {
            continue;
        }
        let k = num(&a[1]) as usize & 7;
        let cell = disk.entry(k).or_default();
        let arg = |i: usize| a.get(i).map_or(0, |x| num(x)).max(0) as usize;
        let dat = |i: usize| a.get(i).cloned().unwrap_or_default();
        match &a[0][..] {
            b"write" => *cell = dat(2),
            b"torn" => {
                let t = dat(3);
                let n = arg(2).min(t.len());
                let mut v = t[..n].to_vec();
                if cell.len() > n {
                    v.extend_from_slice(&cell[n..]);
                }
                *cell = v;
                env.fire("torn write", 1);
            }
            b"short" => {
                let t = dat(3);
                *cell = t[..arg(2).min(t.len())].to_vec();
                env.fire("short write", 1);
            }
            b"lost" => env.fire("lost write", 1),
            b"flip" => {
                let n = cell.len();
                if n > 0 {
                    cell[arg(2) % n] ^= 1 << (arg(3) & 7);
                    env.fire("bit flip", 1);
                }
            }
            b"dup" => {
                let t = cell.clone();
                if t.len() < 5000 {
                    cell.extend_from_slice(&t);
                    env.fire("duplicated write", 1);
                }
            }
            b"append" => {
                cell.extend_from_slice(&dat(2));
                env.fire("misplaced write", 1);
            }
            b"splice" => {
                let k2 = arg(2) & 7;
                let (i, j) = (arg(3), arg(4));
                let x = disk.get(&k).cloned().unwrap_or_default();
                let y = disk.get(&k2).cloned().unwrap_or_default();
                let mut v = x[..i.min(x.len())].to_vec();
                v.extend_from_slice(&y[j.min(y.len())..]);
                disk.insert(k, v);
                env.fire("splice of two records", 1);
            }
            b"nul" => {
                let (i, n) = (arg(2), arg(3));
                for p in i..(i + n).min(cell.len()) {
                    cell[p] = 0;
                }
                env.fire("zeroed bytes", 1);
            }
            b"fill" => {
                let (i, c, n) = (arg(2).min(cell.len()), arg(3) as u8, arg(4).min(70_000));
                if cell.len() < 80_000 {
                    cell.splice(i..i, std::iter::repeat(c).take(n));
                    env.fire("run of one byte inserted", 1);
                }
            }
            b"drop" => {
                let (i, n) = (arg(2).min(cell.len()), arg(3));
                let e = (i + n).min(cell.len());
                cell.drain(i..e);
                env.fire("missing bytes", 1);
            }
            b"read" => {
                let kind = Kind::from_name(std::str::from_utf8(&dat(2)).unwrap_or("")).filter(|k| k.is_parse()).unwrap_or(Kind::Parse);
                if ops.len() < rt::MAXOPS {
                    ops.push(Op { id: ops.len() as u32 + 1, out: rl(arg(3) % 3), text: Text::Lit(cell.clone()), ..Op::new(kind) });
                    texts_read.push(cell.clone());
                }
            }
            _ => {}
        }
    }
    if ops.is_empty() {
        return Ok(());
    }
    let o = run(&cl(&sc.inits()), &ops, &[], &Opts::default());
    env.take(&o);
    let tx = texts(&o.recs.iter().map(|r| r.out).collect::<Vec<_>>());
    for (i, x) in ops.iter().enumerate() {
        let r = &o.recs[i];
        let what = format!("{} of {} ({} bytes)", x.kind.name(), esc(&texts_read[i]), texts_read[i].len());
        if r.done == 0 {
            let (c, m) = end_class(&o).unwrap_or(("unfinished", "never returned".into()));
            return viol(c, format!("{}: {}", what, m));
        }
        if r.tag >= 100 {
            return viol("panic", format!("{} panicked", what));
        }
        // text entry points take strings: bytes that are not UTF-8 cannot reach them
        match model::read(&texts_read[i]) {
            None => {
                if r.tag == 0 {
                    return viol("accepted", format!("{} was accepted as {}", what, tshow(&tx[i])));
                }
                if r.tag != 1 {
                    return viol("wrong-error", format!("{} gave {}", what, tag_name(r.tag)));
                }
            }
            Some(m) => {
                env.probe("accepted text");
                if r.tag != 0 {
                    return viol("rejected", format!("{} was rejected: {}", what, tag_name(r.tag)));
                }
                let c = m.canonical();
                match &tx[i] {
                    Some((t, neg, f)) if *t == c && *f as usize == m.frac.len() && *neg == (c[0] == b'-') => {}
                    t => return viol("misread", format!("{} was read as {} instead of {} scale {}", what, tshow(t), esc(&c), m.frac.len())),
                }
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------ C08: merging
fn gen_c08(r: &mut Rng, sc: &mut Scen, env: &mut Env) {
    let _ = env;
    let (mu, mf) = *r.pick(&[(2, 9), (4, 18), (5, 30), (7, 9), (3, 27), (1, 30), (7, 0), (6, 18), (7, 30)]);
    let mut fam: Vec<Dec> = Vec::new();
    let item = |r: &mut Rng, fam: &mut Vec<Dec>| {
        let d = match r.below(4) {
            0 if !fam.is_empty() => r.pick(fam).clone(),
            1 | 2 if !fam.is_empty() => {
                let b = r.pick(fam).clone();
                sibling(r, &b)
            }
            _ => dec(r, mu, mf),
        };
        fam.push(d.clone());
        d
    };
    let w = 1 + r.below(3);
    let n = 3 + r.below(14);
    let items: Vec<(Dec, bool)> = (0..n).map(|_| (item(r, &mut fam), r.chance(1, 4))).collect();
    let mut queue: Vec<Vec<usize>> = vec![vec![]; w];
    for i in 0..n {
        queue[r.below(w)].push(i);
    }
    let crashy = r.chance(2, 3);
    let (part, tmp) = (|k: usize| rl(8 * k), |k: usize| rl(8 * k + 1));
    let c = w; // coordinator
    let mut evs: Vec<(u32, bool)> = Vec::new();
    // worker state: next index, checkpoint (text op, index)
    let mut at = vec![0usize; w];
    let mut ck: Vec<(Option<u32>, usize)> = vec![(None, 0); w];
    let mut inflight: Vec<(u32, usize)> = Vec::new(); // (text op, message id)
    let mut seen: HashSet<usize> = HashSet::new();
    let mut next_msg = 0;
    let mut all: Vec<usize> = vec![];
    let mut crashes = 0;
    let mut cck: Option<(u32, HashSet<usize>)> = None;
    let mut unacked: Vec<(u32, usize)> = vec![];
    let mut guard = 0;
    let on = |o: Op, t: usize| Op { thr: t as u8, ..o };
    loop {
        guard += 1;
        let busy = (0..w).any(|k| at[k] < queue[k].len());
        if (!busy && inflight.is_empty() && unacked.iter().all(|m| seen.contains(&m.1))) || guard > 200 || sc.ops().len() > 170 {
            break;
        }
        let k = r.below(w + 2);
        if k < w && at[k] < queue[k].len() {
            match r.below(8) {
                0 if at[k] > ck[k].1 => {
                    let id = sc.push_op(on(Op { a: part(k), n: -1, ..Op::new(Kind::Str) }, k));
                    ck[k] = (Some(id), at[k]);
                }
                1 if at[k] > 0 => {
                    // ship the partial sum and start a new one
                    let id = sc.push_op(on(Op { a: part(k), n: -1, ..Op::new(Kind::Str) }, k));
                    sc.push_op(on(Op { out: part(k), ..Op::new(Kind::SetZero) }, k));
                    queue[k].drain(..at[k]);
                    at[k] = 0;
                    ck[k] = (None, 0);
                    inflight.push((id, next_msg));
                    unacked.push((id, next_msg));
                    next_msg += 1;
                }
                x => {
                    let (d, sub) = &items[queue[k][at[k]]];
                    sc.push_op(on(parse_op(tmp(k), spell(r, d)), k));
                    let kind = if *sub { Kind::Sub } else { Kind::Add };
                    let mut o = Op { a: part(k), b: tmp(k), out: part(k), ..Op::new(kind) };
                    if !*sub && r.chance(1, 2) {
                        std::mem::swap(&mut o.a, &mut o.b);
                    }
                    if r.chance(1, 3) {
                        // into a fresh value, then moved
                        o.out = rl(8 * k + 2);
                        let id = sc.push_op(on(o, k));
                        if crashy && x == 2 && crashes < 3 {
                            crashes += 1;
                            evs.push((id, true));
                            recover(sc, k, &ck[k], part(k));
                            at[k] = ck[k].1;
                            continue;
                        }
                        sc.push_op(on(Op { a: rl(8 * k + 2), out: part(k), ..Op::new(Kind::Clone) }, k));
                    } else {
                        let id = sc.push_op(on(o, k));
                        if crashy && x == 2 && crashes < 3 {
                            crashes += 1;
                            evs.push((id, true));
                            recover(sc, k, &ck[k], part(k));
                            at[k] = ck[k].1;
                            continue;
                        } else if r.chance(1, 6) {
                            evs.push((id, false));
                        }
                    }
                    at[k] += 1;
                    if at[k] == queue[k].len() {
                        let id = sc.push_op(on(Op { a: part(k), n: -1, ..Op::new(Kind::Str) }, k));
                        inflight.push((id, next_msg));
                        unacked.push((id, next_msg));
                        next_msg += 1;
                    }
                }
            }
        } else if k == w && !inflight.is_empty() {
            let j = r.below(inflight.len());
            match r.below(8) {
                0 => {
                    inflight.remove(j);
                    sc.lines.push(Line::Cfg("drop".into(), 1));
                }
                1 => {
                    let m = inflight[j];
                    inflight.push(m);
                    sc.lines.push(Line::Cfg("dup".into(), 1));
                }
                x => {
                    let (id, m) = inflight.remove(j);
                    if j > 0 {
                        sc.lines.push(Line::Cfg("reorder".into(), 1));
                    }
                    sc.push_op(on(Op { out: tmp(c), text: Text::Ref(id), ..Op::new(Kind::Parse) }, c));
                    if seen.contains(&m) {
                        continue;
                    }
                    let mut o = Op { a: part(c), b: tmp(c), out: part(c), ..Op::new(Kind::Add) };
                    if r.chance(1, 2) {
                        std::mem::swap(&mut o.a, &mut o.b);
                    }
                    let a = sc.push_op(on(o, c));
                    if crashy && x == 2 && crashes < 3 {
                        crashes += 1;
                        evs.push((a, true));
                        match &cck {
                            Some((t, s)) => {
                                sc.push_op(on(Op { out: part(c), text: Text::Ref(*t), ..Op::new(Kind::Parse) }, c));
                                seen = s.clone();
                            }
                            None => {
                                sc.push_op(on(Op { out: part(c), ..Op::new(Kind::SetZero) }, c));
                                seen.clear();
                            }
                        }
                        inflight = unacked.iter().filter(|x| !seen.contains(&x.1)).copied().collect();
                        continue;
                    }
                    seen.insert(m);
                }
            }
        } else if k == w + 1 {
            if r.chance(1, 3) && !seen.is_empty() {
                let id = sc.push_op(on(Op { a: part(c), n: -1, ..Op::new(Kind::Str) }, c));
                cck = Some((id, seen.clone()));
            } else {
                // retransmission of what was not acknowledged
                for m in &unacked {
                    if !seen.contains(&m.1) && !inflight.iter().any(|x| x.1 == m.1) {
                        inflight.push(*m);
                    }
                }
            }
        }
    }
    sc.push_op(on(Op { a: part(c), n: -1, ..Op::new(Kind::Str) }, c));
    // the same items folded directly, in another order
    all.extend(0..n);
    r.shuffle(&mut all);
    let (acc, t2) = (rl(8 * c + 3), rl(8 * c + 4));
    sc.push_op(on(Op { out: acc, ..Op::new(Kind::SetZero) }, c));
    for i in all {
        let (d, sub) = &items[i];
        sc.push_op(on(parse_op(t2, spell(r, d)), c));
        let mut o = Op { a: acc, b: t2, out: acc, ..Op::new(if *sub { Kind::Sub } else { Kind::Add }) };
        if !*sub && r.chance(1, 2) {
            std::mem::swap(&mut o.a, &mut o.b);
        }
        sc.push_op(on(o, c));
    }
    sc.push_op(on(Op { a: acc, n: -1, ..Op::new(Kind::Str) }, c));
    sc.push_op(on(Op { a: acc, b: part(c), ..Op::new(Kind::Cmp) }, c));
    sc.push_op(on(Op { a: part(c), b: acc, ..Op::new(Kind::Eq) }, c));
    for (id, dead) in evs {
        let pos = match r.below(3) {
            0 => 1 + r.below(10),
            1 => 1 + r.below(60),
            _ => 1 + r.below(250),
        } as u32;
        let fault = if dead { Fault::Abandon } else { Fault::Sw(r.below(w + 1) as u8) };
        sc.lines.push(Line::Ev { op: id, pos, fault });
    }
}
fn recover(sc: &mut Scen, k: usize, ck: &(Option<u32>, usize), part: u8) {
    let o = match ck.0 {
        Some(t) => Op { out: part, text: Text::Ref(t), ..Op::new(Kind::Parse) },
        None => Op { out: part, ..Op::new(Kind::SetZero) },
    };
    sc.push_op(Op { thr: k as u8, ..o });
}
fn check_c08(sc: &Scen, env: &mut Env) -> Check {
    let ops = cl(&sc.ops());
    if ops.is_empty() || ops.len() > rt::MAXOPS {
        return Ok(());
    }
    let evs = sc.evs();
    let o = run(&cl(&sc.inits()), &ops, &evs, &Opts { zero_on_err: true, ..Opts::default() });
    env.take(&o);
    for l in &sc.lines {
        if let Line::Cfg(k, _) = l {
            match k.as_str() {
                "drop" => env.fire("message lost", 1),
                "dup" => env.fire("message duplicated", 1),
                "reorder" => env.fire("message reordered", 1),
                _ => {}
            }
        }
    }
    // replay in real execution order; per location the exact value
    let mut order: Vec<usize> = (0..ops.len()).filter(|i| o.recs[*i].started != 0).collect();
    order.sort_by_key(|i| o.recs[*i].seq);
    let mut m: HashMap<u8, Option<(Big, usize)>> = HashMap::new();
    let mut shown: HashMap<u32, Vec<u8>> = HashMap::new();
    let outs: Vec<Raw> = ops.iter().zip(&o.recs).map(|(_, r)| r.out).collect();
    let tx = texts(&outs);
    for i in order {
        let (x, r) = (&ops[i], &o.recs[i]);
        let zero = || Some((Big::zero(), 0usize));
        let get = |m: &HashMap<u8, Option<(Big, usize)>>, l: u8| m.get(&l).cloned().unwrap_or_else(zero);
        if r.done == 0 {
            if evs.iter().any(|e| e.0 == x.id && e.2 == Fault::Abandon) {
                if x.out != NONE {
                    m.insert(x.out, None);
                }
                continue;
            }
            let (c, e) = end_class(&o).unwrap_or(("unfinished", "never returned".into()));
            return viol(c, format!("{}: {}", show(x), e));
        }
        let outv = |i: usize| tx[i].as_ref().and_then(|t| model::value_of(&t.0));
        match x.kind {
            Kind::Parse => {
                let t = match &x.text {
                    Text::Lit(t) => t.clone(),
                    Text::Ref(id) => shown.get(id).cloned().unwrap_or_default(),
                };
                match (model::read(&t), r.tag) {
                    (Some(n), 0) => {
                        let v = outv(i);
                        if v.as_ref().map(|v| &v.0) != Some(&n.big()) {
                            return viol("text-exchange", format!("{} read {} as {}", show(x), esc(&t), tshow(&tx[i])));
                        }
                        m.insert(x.out, Some((n.big(), n.frac.len())));
                    }
                    (Some(_), e) => return viol("text-exchange", format!("{}: {} for {}", show(x), tag_name(e), esc(&t))),
                    (None, 0) => {
                        // longer than required, accepted: then it must be exact
                        let v = model::value_of(&t);
                        if v.is_none() || outv(i).map(|x| x.0) != v.as_ref().map(|x| x.0.clone()) {
                            return viol("text-exchange", format!("{} read {} as {}", show(x), esc(&t), tshow(&tx[i])));
                        }
                        m.insert(x.out, v.map(|v| (v.0, v.2)));
                    }
                    (None, 1..=99) => {
                        m.insert(x.out, zero());
                    }
                    (None, e) => return viol("text-exchange", format!("{}: {} for {}", show(x), tag_name(e), esc(&t))),
                }
            }
            Kind::Add | Kind::Sub => {
                let (a, b) = (get(&m, x.a), get(&m, x.b));
                let (a, b) = match (a, b) {
                    (Some(a), Some(b)) => (a, b),
                    _ => {
                        m.insert(x.out, if r.tag == 0 { None } else { zero() });
                        continue;
                    }
                };
                let s = if x.kind == Kind::Add { a.0.add(&b.0) } else { a.0.sub(&b.0) };
                if r.tag == 0 {
                    let v = outv(i);
                    if v.as_ref().map(|v| &v.0) != Some(&s) {
                        return viol("inexact", format!("{}: {} and {} gave {} instead of {}", show(x), a.0.text(), b.0.text(), tshow(&tx[i]), s.text()));
                    }
                    m.insert(x.out, Some((s, a.1.max(b.1))));
                } else {
                    let iu = a.0.intg_units().max(b.0.intg_units()).max(s.intg_units());
                    if r.tag != 3 || iu + (a.1.max(b.1) + 8) / 9 <= 9 {
                        return viol("refused", format!("{}: {} and {} gave {} instead of {}", show(x), a.0.text(), b.0.text(), tag_name(r.tag), s.text()));
                    }
                    m.insert(x.out, zero());
                }
            }
            Kind::SetZero => {
                m.insert(x.out, zero());
            }
            Kind::Clone => {
                let v = get(&m, x.a);
                m.insert(x.out, v);
            }
            Kind::Str => {
                if let Some(v) = get(&m, x.a) {
                    if r.tag != 0 || model::value_of(r.aux()).map(|t| t.0) != Some(v.0.clone()) {
                        return viol("text-exchange", format!("{}: {} printed as {} ({})", show(x), v.0.text(), esc(r.aux()), tag_name(r.tag)));
                    }
                    shown.insert(x.id, r.aux().to_vec());
                }
            }
            Kind::Cmp | Kind::Eq => {
                if let (Some(a), Some(b)) = (get(&m, x.a), get(&m, x.b)) {
                    let c = b"<=>"[(a.0.cmp(&b.0) as i8 + 1) as usize];
                    let want = if x.kind == Kind::Cmp { c } else if c == b'=' { b'=' } else { b'!' };
                    if c == b'=' {
                        env.probe("both groupings reached the same total");
                    }
                    if r.tag != 0 || r.aux() != [want] {
                        return viol("totals-differ", format!("{}: totals {} and {} compare {}", show(x), a.0.text(), b.0.text(), esc(r.aux())));
                    }
                }
            }
            _ => {}
        }
    }
    if let Some((c, e)) = end_class(&o) {
        return viol(c, e);
    }
    Ok(())
}

// ------------------------------------------------------ C09: restarts
fn gen_c09(r: &mut Rng, sc: &mut Scen, env: &mut Env) {
    let _ = env;
    let mut pool = Pool::new(r);
    if r.chance(1, 4) {
        let d = near_int(r);
        pool.v.push(d);
    }
    let nr = 3 + r.below(6);
    let regs: Vec<u8> = (0..nr).map(rl).collect();
    for i in 0..nr {
        init_value(r, sc, &mut pool, rl(i), &regs[..i]);
    }
    use Kind::*;
    let m = Mix::new(
        r,
        &[Parse, FromStr, Add, Sub, Sub, Mul, Mul, Div, Div, Rem, Rem, OpAdd, OpSub, OpMul, OpDiv, OpRem, Round, RoundTo, Round, RoundTo, Cmp, Eq, AsI64, AsU64, FromI64, FromU64, Str, Append, SetPos, SetOne, Clone],
    );
    let n = 4 + r.below(20);
    let mut ids = Vec::new();
    for _ in 0..n {
        let k = m.pick(r);
        let o = op(r, k, &mut pool, &regs, &regs);
        let out = o.out;
        let id = sc.push_op(o);
        ids.push(id);
        if out != NONE && r.chance(1, 3) {
            sc.lines.push(Line::Reload { op: id, reg: out });
        }
    }
    for _ in 0..r.below(4) {
        sc.lines.push(Line::Snap { op: *r.pick(&ids) });
    }
    let nc = *r.pick(&[0, 1, 1, 2, 3]);
    if nc > 0 {
        let p = run(&cl(&sc.inits()), &cl(&sc.ops()), &[], &Opts { zero_on_err: true, ..Opts::default() });
        for _ in 0..nc {
            let i = r.below(ids.len());
            if p.recs[i].done != 0 {
                let pos = position(r, &p.recs[i]);
                sc.lines.push(Line::Ev { op: ids[i], pos, fault: Fault::Crash });
            }
        }
    }
}
fn check_c09(sc: &Scen, env: &mut Env) -> Check {
    let inits = cl(&sc.inits());
    let ops = cl(&sc.ops());
    if ops.is_empty() {
        return Ok(());
    }
    let base = Opts { zero_on_err: true, ..Opts::default() };
    let reference = run(&inits, &ops, &[], &base);
    if end_class(&reference).is_some() {
        return Ok(());
    }
    env.take(&reference);
    let snaps: Vec<u32> = sc.lines.iter().filter_map(|l| if let Line::Snap { op } = l { Some(*op) } else { None }).collect();
    let reloads: Vec<(u32, u8)> = sc.lines.iter().filter_map(|l| if let Line::Reload { op, reg } = l { Some((*op, *reg)) } else { None }).collect();
    let mut evs: Vec<(u32, u32, Fault)> = sc.evs().into_iter().filter(|e| e.2 == Fault::Crash).collect();
    env.fire("value replaced by the parse of its text", reloads.len() as u64);
    let mut from = 0usize;
    let mut start: Option<Vec<(u8, Start)>> = None;
    let mut later = Later::default();
    loop {
        let opts = Opts { start: start.clone().unwrap_or_default(), snaps: snaps.clone(), reloads: reloads.clone(), ..base.clone() };
        let o = run(if start.is_none() { &inits } else { &[] }, &ops[from..], &evs, &opts);
        env.take(&o);
        for (i, x) in ops[from..].iter().enumerate() {
            if o.recs[i].done != 0 {
                same_rec(x, &o.recs[i], &reference.recs[from + i], &mut later, true, "not-transparent", "after restart or reload against never restarted")?;
            }
        }
        if o.end == END_CRASH && o.ret == Ret::Ok {
            let i = match (0..o.recs.len()).find(|i| o.recs[*i].started != 0 && o.recs[*i].done == 0) {
                Some(i) => i,
                None => return viol("harness", "crash without a running call".into()),
            };
            let id = ops[from + i].id;
            let p = evs.iter().filter(|e| e.0 == id).map(|e| e.1).min().unwrap_or(0);
            evs.retain(|e| !(e.0 == id && e.1 == p));
            if let Some((sop, sn)) = o.snaps.last() {
                let k = ops.iter().position(|x| x.id == *sop).unwrap_or(0);
                from = k + 1;
                let mut v = Vec::new();
                for (j, s) in sn.iter().enumerate() {
                    let t = &s.text[..s.len as usize];
                    if s.tag == 0 && storable(t) {
                        v.push((rl(j), Start::Text(t.to_vec())));
                    } else {
                        v.push((rl(j), Start::Raw(s.raw)));
                    }
                }
                start = Some(v);
                env.fire("restart from a text snapshot", 1);
            } else {
                env.fire("restart without a newer snapshot", 1);
            }
            continue;
        }
        if let Some((c, m)) = end_class(&o) {
            let who: Vec<String> = ops[from..].iter().zip(&o.recs).filter(|(_, r)| r.started != 0 && r.done == 0).map(|(x, _)| show(x)).collect();
            return viol(c, format!("{}: {} (finished when never restarted)", m, who.join("; ")));
        }
        for l in 64..64 + SNAPREGS {
            later.same(&o.regs[l], &reference.regs[l], "not-transparent", || format!("final r{}", l - 64), true);
        }
        break;
    }
    later.judge(env)
}

// ------------------------------------------------------ C10: ordered index
fn gen_c10(r: &mut Rng, sc: &mut Scen) {
    let mut pool = Pool::new(r);
    let nr = 4 + r.below(20);
    let regs: Vec<u8> = (0..nr).map(rl).collect();
    for i in 0..nr {
        init_value(r, sc, &mut pool, rl(i), &regs[..i]);
        match r.below(12) {
            0 => {
                let k = *r.pick(&[Kind::Round, Kind::SetNeg, Kind::SetPos]);
                let n = scale_arg(r, Kind::Round);
                sc.push_init(Op { out: rl(i), n: if k == Kind::Round { n } else { 0 }, ..Op::new(k) });
            }
            1 => {
                sc.push_init(Op { out: rl(i), a: rl(i), b: rl(i), ..Op::new(Kind::Sub) });
            }
            2 => {
                sc.push_init(Op { out: rl(i), ..Op::new(Kind::SetZero) });
                if r.chance(1, 2) {
                    sc.push_init(Op { out: rl(i), ..Op::new(Kind::SetNeg) });
                }
            }
            3 if i > 0 => {
                // the same value by another route
                let j = rl(r.below(i));
                sc.push_init(Op { out: rl(i), a: j, n: r.range(0, 30), ..Op::new(Kind::RoundTo) });
            }
            4 if i > 1 => {
                let (x, y) = (rl(r.below(i)), rl(r.below(i)));
                sc.push_init(Op { out: rl(i), a: x, b: y, ..Op::new(Kind::Add) });
                sc.push_init(Op { out: rl(i), a: rl(i), b: y, ..Op::new(Kind::Sub) });
            }
            _ => {}
        }
    }
    // clients whose requests arrive in some order
    let s = |x: u8| (x - 64).to_string().into_bytes();
    let mut pend: Vec<Vec<Vec<u8>>> = Vec::new();
    for g in &regs {
        if r.chance(5, 6) {
            pend.push(vec![b"ins".to_vec(), s(*g)]);
        }
    }
    for _ in 0..r.below(16) {
        let (x, y) = (*r.pick(&regs), *r.pick(&regs));
        pend.push(match r.below(8) {
            0 => vec![b"del".to_vec(), s(x)],
            1 | 2 => vec![b"get".to_vec(), s(x)],
            3 => vec![b"range".to_vec(), s(x), s(y)],
            4 => vec![b"all".to_vec()],
            5 => vec![b"rebuild".to_vec(), (r.below(1000)).to_string().into_bytes()],
            6 => vec![b"find".to_vec(), s(x)],
            _ => vec![b"ins".to_vec(), s(x)],
        });
    }
    r.shuffle(&mut pend);
    pend.push(vec![b"all".to_vec()]);
    pend.push(vec![b"pairs".to_vec()]);
    for p in pend {
        sc.lines.push(Line::Act(p));
    }
}
fn check_c10(sc: &Scen, env: &mut Env) -> Check {
    let inits = cl(&sc.inits());
    let acts: Vec<Vec<Vec<u8>>> = sc.acts().into_iter().cloned().collect();
    let o = run(&inits, &[], &[], &Opts::default());
    if end_class(&o).is_some() {
        return Ok(());
    }
    let mut used: Vec<usize> = inits.iter().filter(|x| x.out != NONE && x.out >= 64).map(|x| x.out as usize - 64).collect();
    used.sort();
    used.dedup();
    used.truncate(32);
    let raws: Vec<Raw> = used.iter().map(|g| o.regs[64 + g]).collect();
    let tx = texts(&raws);
    let mut val: BTreeMap<usize, Big> = BTreeMap::new();
    for (g, t) in used.iter().zip(&tx) {
        match t.as_ref().and_then(|t| model::value_of(&t.0)) {
            Some(v) => {
                val.insert(*g, v.0);
            }
            None => return Ok(()), // formatting is another property's business
        }
    }
    let reg = |a: &Vec<Vec<u8>>, i: usize| a.get(i).map_or(0, |x| num(x)).max(0) as usize;
    shm().log_len = 0;
    let ret = in_child(60, || {
        let sh = shm();
        grow_old(&[Kind::Cmp, Kind::Eq]);
        let mut log: Vec<u8> = Vec::with_capacity(LOG);
        let vals: BTreeMap<usize, FixedDecimal> = used.iter().map(|g| (*g, from_raw(&o.regs[64 + g]))).collect();
        let mut map: BTreeMap<FixedDecimal, usize> = BTreeMap::new();
        for a in &acts {
            let (x, y) = (reg(a, 1), reg(a, 2));
            let mut res: Vec<u8> = Vec::new();
            let ok = catch_unwind(AssertUnwindSafe(|| {
                rt::begin_op(usize::MAX, 0);
                match &a[0][..] {
                    b"ins" => {
                        if let Some(v) = vals.get(&x) {
                            map.insert(v.clone(), x);
                        }
                    }
                    b"del" => {
                        if let Some(v) = vals.get(&x) {
                            res.push(map.remove(v).map_or(255, |i| i as u8));
                        }
                    }
                    b"get" => {
                        if let Some(v) = vals.get(&x) {
                            res.push(map.get(v).map_or(255, |i| *i as u8));
                        }
                    }
                    b"range" => {
                        if let (Some(v), Some(w)) = (vals.get(&x), vals.get(&y)) {
                            let (lo, hi) = if v <= w { (v, w) } else { (w, v) };
                            res.extend(map.range(lo.clone()..=hi.clone()).map(|(_, i)| *i as u8));
                        }
                    }
                    b"all" => res.extend(map.values().map(|i| *i as u8)),
                    b"find" => {
                        // binary search in a sorted array
                        let mut v: Vec<(FixedDecimal, usize)> = map.iter().map(|(k, i)| (k.clone(), *i)).collect();
                        let n = v.len().max(1);
                        v.rotate_left(x % n);
                        v.sort_by(|p, q| p.0.cmp(&q.0));
                        res.extend(v.iter().map(|p| p.1 as u8));
                        if let Some(k) = vals.get(&x) {
                            res.push(v.binary_search_by(|p| p.0.cmp(k)).map_or(255, |i| v[i].1 as u8));
                        }
                    }
                    b"rebuild" => {
                        // only the texts of the keys survive; they come back in any order
                        let mut rec: Vec<(Vec<u8>, FixedDecimal, usize)> = Vec::new();
                        for (k, i) in &map {
                            rec.push((k.to_string(-1).into_bytes(), k.clone(), *i));
                        }
                        Rng::new(x as u64).shuffle(&mut rec);
                        map = BTreeMap::new();
                        for (t, k, i) in rec {
                            let mut v = FixedDecimal::zero();
                            if storable(&t) && v.from_bytes_str(&t, true).is_ok() {
                                map.insert(v, i);
                            } else {
                                map.insert(k, i);
                            }
                        }
                    }
                    b"pairs" => {
                        for v in vals.values() {
                            for w in vals.values() {
                                let c = (v.cmp(w) as i8 + 1) as u8;
                                let e = (v == w) as u8;
                                let p = v.partial_cmp(w).map_or(9, |c| (c as i8 + 1) as u8);
                                let l = ((v < w) as u8) | ((v > w) as u8) << 1 | ((v <= w) as u8) << 2 | ((v >= w) as u8) << 3 | ((v != w) as u8) << 4;
                                res.push(c | e << 2 | (p != c) as u8 * 8);
                                res.push(l);
                            }
                        }
                    }
                    _ => {}
                }
            }));
            rt::end_op();
            sh.steps += rt::CTX.with(|c| c.pos.get()) as u64;
            log.push(if ok.is_ok() { 0 } else { 1 });
            log.extend_from_slice(&(res.len() as u32).to_le_bytes());
            log.extend_from_slice(&res);
            sh.log[..log.len()].copy_from_slice(&log);
            sh.log_len = log.len() as u32;
            if ok.is_err() {
                break;
            }
        }
    });
    env.aged();
    let log = shm().log[..shm().log_len as usize].to_vec();
    env.digest = mix(env.digest ^ hash_bytes(1, &log));
    env.steps += shm().steps;
    env.calls += acts.len() as u64;
    env.nontrivial = acts.len() > 2;
    let mut map: BTreeMap<Big, usize> = BTreeMap::new();
    let mut p = 0;
    for a in &acts {
        let line = Line::Act(a.clone()).show();
        let (x, y) = (reg(a, 1), reg(a, 2));
        let vt = |g: usize| val.get(&g).map_or("?".into(), |v| v.text());
        if p >= log.len() {
            return viol(if ret == Ret::Ok { "unfinished" } else { "died" }, format!("{} did not finish", line));
        }
        if log[p] != 0 {
            return viol("panic", format!("{} ({}, {}) panicked", line, vt(x), vt(y)));
        }
        let n = u32::from_le_bytes(log[p + 1..p + 5].try_into().unwrap()) as usize;
        let res = &log[p + 5..p + 5 + n];
        p += 5 + n;
        let mut want: Vec<u8> = Vec::new();
        match &a[0][..] {
            b"ins" => {
                if let Some(v) = val.get(&x) {
                    env.fire("insert", 1);
                    map.insert(v.clone(), x);
                }
            }
            b"del" => {
                if let Some(v) = val.get(&x) {
                    want.push(map.remove(v).map_or(255, |i| i as u8));
                }
            }
            b"get" => {
                if let Some(v) = val.get(&x) {
                    want.push(map.get(v).map_or(255, |i| *i as u8));
                }
            }
            b"range" => {
                if let (Some(v), Some(w)) = (val.get(&x), val.get(&y)) {
                    let (lo, hi) = if v <= w { (v, w) } else { (w, v) };
                    want.extend(map.range(lo.clone()..=hi.clone()).map(|(_, i)| *i as u8));
                }
            }
            b"all" => want.extend(map.values().map(|i| *i as u8)),
            b"find" => {
                want.extend(map.values().map(|i| *i as u8));
                if let Some(v) = val.get(&x) {
                    want.push(map.get(v).map_or(255, |i| *i as u8));
                }
            }
            b"rebuild" => env.fire("index rebuilt from stored text", 1),
            b"pairs" => {
                let mut k = 0;
                for (g, v) in &val {
                    for (h, w) in &val {
                        let c = v.cmp(w);
                        let cc = (c as i8 + 1) as u8;
                        let e = (c == std::cmp::Ordering::Equal) as u8;
                        let l = ((v < w) as u8) | ((v > w) as u8) << 1 | ((v <= w) as u8) << 2 | ((v >= w) as u8) << 3 | ((v != w) as u8) << 4;
                        if e == 1 && g != h {
                            env.probe("equal keys of different origin compared");
                        }
                        if res.get(k) != Some(&(cc | e << 2)) || res.get(k + 1) != Some(&l) {
                            return viol("compare", format!("{} and {} compare as {:?}/{:?}", v.text(), w.text(), res.get(k), res.get(k + 1)));
                        }
                        k += 2;
                    }
                }
                continue;
            }
            _ => {}
        }
        if res != &want[..] {
            let names = |v: &[u8]| v.iter().map(|i| if *i == 255 { "none".into() } else { format!("r{}={}", i, vt(*i as usize)) }).collect::<Vec<_>>().join(" ");
            return viol("index", format!("{} ({}): got [{}] want [{}]", line, vt(x), names(res), names(&want)));
        }
    }
    Ok(())
}

// ------------------------------------------------------ C11: replicas
fn gen_c11(r: &mut Rng, sc: &mut Scen) {
    let mut pool = Pool::new(r);
    if r.chance(1, 4) {
        let d = near_int(r);
        pool.v.push(d);
    }
    let nr = 3 + r.below(6);
    let regs: Vec<u8> = (0..nr).map(rl).collect();
    for i in 0..nr {
        init_value(r, sc, &mut pool, rl(i), &regs[..i]);
    }
    use Kind::*;
    let m = Mix::new(r, &[Parse, Parse, Add, Sub, Mul, Div, Rem, RoundTo, RoundTo, Round, Round, Cmp, Eq, Hash, AsI64, AsU64, FromI64, FromU64, Str, Append, SetNeg, SetPos, SetOne, Clone, Intro]);
    for _ in 0..4 + r.below(20) {
        let k = m.pick(r);
        let mut o = op(r, k, &mut pool, &regs, &regs);
        if k == Div && r.chance(2, 3) {
            o.n = 4;
        }
        sc.push_op(o);
    }
    for k in 0..1 + r.below(2) {
        let v = (1 + r.below(1 << 30)) as i64;
        sc.lines.push(Line::Cfg(format!("replica{}", k), v));
    }
}
/// the same command through another call form
fn alt_form(o: &Op, h: u64) -> Op {
    use Kind::*;
    let mut x = o.clone();
    let pick = |v: &[Kind]| v[(h % v.len() as u64) as usize];
    x.kind = match o.kind {
        Parse => pick(&[Parse, ParseAscii, FromStr]),
        Add => pick(&[Add, OpAdd]),
        Sub => pick(&[Sub, OpSub]),
        Mul => pick(&[Mul, OpMul]),
        Rem => pick(&[Rem, OpRem]),
        Div if o.n == 4 => pick(&[Div, OpDiv]),
        Str => pick(&[Str, Append]),
        Append => pick(&[Str, Append]),
        SetOne => pick(&[SetOne, One]),
        k => k,
    };
    x
}
fn check_c11(sc: &Scen, env: &mut Env) -> Check {
    use Kind::*;
    let inits = cl(&sc.inits());
    let ops = cl(&sc.ops());
    if ops.is_empty() {
        return Ok(());
    }
    let base = Opts { zero_on_err: true, ..Opts::default() };
    let age = unsafe { std::mem::replace(&mut (*(&raw mut exec::AGE)).n, 0) };
    let a = run(&inits, &ops, &[], &base);
    unsafe { exec::AGE.n = age };
    env.take(&a);
    for k in 0..4 {
        let seed = sc.cfg(&format!("replica{}", k), 0) as u64;
        if seed == 0 {
            continue;
        }
        // Round and RoundTo: an extra copy makes them the same command
        let mut alt: Vec<Op> = Vec::new();
        for o in &ops {
            let h = mix(seed ^ (o.id as u64) << 32);
            let mut x = alt_form(o, h);
            if h >> 60 & 1 == 1 {
                if o.kind == Round {
                    x.kind = RoundTo;
                    x.a = x.out;
                } else if o.kind == RoundTo && o.a != NONE && o.out != NONE {
                    alt.push(Op { id: o.id + 1_000_000, thr: o.thr, kind: Clone, out: o.out, a: o.a, ..Op::new(Clone) });
                    x.kind = Round;
                    x.a = NONE;
                }
            }
            alt.push(x);
        }
        let cold = seed & 4 == 4;
        let start = if cold { carried(&inits) } else { vec![] };
        let b = run(if cold { &[] } else { &inits }, &alt, &[], &Opts { start, amb: seed, dirty: if seed & 1 == 1 { mix(seed) | 1 } else { 0 }, force_threads: seed & 2 == 2, ..base.clone() });
        env.take(&b);
        env.fire("replica with another clock, random source, environment, memory layout and call forms", 1);
        if seed & 1 == 1 {
            env.fire("recycled result values", alt.iter().filter(|x| x.kind.writes()).count() as u64);
        }
        *env.probes.entry("ambient seam consulted by the library").or_default() += b.recs.iter().map(|r| r.seams as u64).sum::<u64>();
        match (end_class(&a), end_class(&b)) {
            (None, None) => {}
            (None, Some((c, m))) => return viol(c, format!("replica {}: {}", k, m)),
            (Some((c, m)), None) => return viol(c, format!("replica without variations: {}", m)),
            _ => continue,
        }
        let mut later = Later::default();
        for (i, o) in ops.iter().enumerate() {
            let j = alt.iter().position(|x| x.id == o.id).unwrap();
            let (ra, rb) = (&a.recs[i], &b.recs[j]);
            let x = &alt[j];
            let what = format!("replica {} used {}", k, show(x));
            let same_tag = if x.kind.is_operator() && ra.tag != 0 { rb.tag != 0 } else { ra.tag == rb.tag };
            if !same_tag || ra.aux() != rb.aux() {
                return viol("replicas-differ", format!("{}: {}: {} against {}", what, show(o), show_out(ra), show_out(rb)));
            }
            if ra.tag == 0 && (o.kind.writes() || o.kind.in_place()) {
                later.same(&ra.out, &rb.out, "replicas-differ", || format!("{}: {}", what, show(o)), false);
            }
        }
        later.judge(env)?;
    }
    let _ = nested_kind;
    Ok(())
}
