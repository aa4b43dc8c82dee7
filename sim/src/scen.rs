//! A scenario: every operation, schedule decision and fault of one run,
//! written out. A run is a pure function of its scenario and of the code.
use fxdshim::Kind;

pub const NONE: u8 = 255;
/// locations: 0..64 = s0.. (shared, never written after set-up), 64..128 = r0..
pub fn sl(i: usize) -> u8 {
    i as u8
}
pub fn rl(i: usize) -> u8 {
    64 + i as u8
}
fn loc_str(l: u8) -> String {
    match l {
        NONE => "-".into(),
        l if l < 64 => format!("s{}", l),
        l => format!("r{}", l - 64),
    }
}
fn loc_parse(s: &str) -> Option<u8> {
    if s == "-" {
        return Some(NONE);
    }
    let n: u8 = s.get(1..)?.parse().ok()?;
    if n >= 64 {
        return None;
    }
    match s.as_bytes()[0] {
        b's' => Some(n),
        b'r' => Some(64 + n),
        _ => None,
    }
}

#[derive(Clone, PartialEq, Debug)]
pub enum Text {
    Lit(Vec<u8>),
    /// the text another op produced
    Ref(u32),
}
#[derive(Clone, PartialEq, Debug)]
pub struct Op {
    pub id: u32,
    pub thr: u8,
    pub kind: Kind,
    pub out: u8,
    pub a: u8,
    pub b: u8,
    pub n: i64,
    pub text: Text,
}
impl Op {
    pub fn new(kind: Kind) -> Op {
        Op { id: 0, thr: 0, kind, out: NONE, a: NONE, b: NONE, n: 0, text: Text::Lit(vec![]) }
    }
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Fault {
    /// preempt and switch to a thread
    Sw(u8),
    /// suspended for ever
    Stall,
    /// dies; a fresh thread takes over its later operations
    Abandon,
    /// the whole process dies
    Crash,
}
#[derive(Clone, PartialEq, Debug)]
pub enum Line {
    Cfg(String, i64),
    Init(Op),
    Op(Op),
    Ev { op: u32, pos: u32, fault: Fault },
    /// after op: write all registers to the log as text
    Snap { op: u32 },
    /// after op: replace register by the parse of its text
    Reload { op: u32, reg: u8 },
    /// property-specific step
    Act(Vec<Vec<u8>>),
}
#[derive(Clone, Debug)]
pub struct Scen {
    pub prop: String,
    pub lines: Vec<Line>,
}

pub fn esc(b: &[u8]) -> String {
    let mut s = String::new();
    for c in b {
        if c.is_ascii_graphic() && *c != b'%' {
            s.push(*c as char);
        } else {
            s += &format!("%{:02x}", c);
        }
    }
    if s.is_empty() {
        s.push_str("%");
    }
    s
}
pub fn unesc(s: &str) -> Option<Vec<u8>> {
    if s == "%" {
        return Some(vec![]);
    }
    let b = s.as_bytes();
    let mut v = Vec::new();
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'%' {
            v.push(u8::from_str_radix(s.get(i + 1..i + 3)?, 16).ok()?);
            i += 3;
        } else {
            v.push(b[i]);
            i += 1;
        }
    }
    Some(v)
}

impl Line {
    pub fn show(&self) -> String {
        match self {
            Line::Cfg(k, v) => format!("cfg {} {}", k, v),
            Line::Init(o) => format!("init {}", op_str(o)),
            Line::Op(o) => format!("op {}", op_str(o)),
            Line::Ev { op, pos, fault } => match fault {
                Fault::Sw(t) => format!("switch op={} at={} to={}", op, pos, t),
                Fault::Stall => format!("stall op={} at={}", op, pos),
                Fault::Abandon => format!("abandon op={} at={}", op, pos),
                Fault::Crash => format!("crash op={} at={}", op, pos),
            },
            Line::Snap { op } => format!("snap after={}", op),
            Line::Reload { op, reg } => format!("reload after={} reg={}", op, loc_str(*reg)),
            Line::Act(v) => {
                let w: Vec<String> = v.iter().map(|x| esc(x)).collect();
                format!("act {}", w.join(" "))
            }
        }
    }
}
fn op_str(o: &Op) -> String {
    let mut s = format!("{} t{} {}", o.id, o.thr, o.kind.name());
    for (k, l) in [("out", o.out), ("a", o.a), ("b", o.b)] {
        if l != NONE {
            s += &format!(" {}={}", k, loc_str(l));
        }
    }
    if o.n != 0 {
        s += &format!(" n={}", o.n);
    }
    match &o.text {
        Text::Lit(t) if t.is_empty() => {}
        Text::Lit(t) => s += &format!(" text={}", esc(t)),
        Text::Ref(i) => s += &format!(" textof={}", i),
    }
    s
}
fn op_parse(w: &[&str]) -> Option<Op> {
    let mut o = Op::new(Kind::from_name(w.get(2)?)?);
    o.id = w[0].parse().ok()?;
    o.thr = w[1].strip_prefix('t')?.parse().ok()?;
    if o.thr >= 8 {
        return None;
    }
    for x in &w[3..] {
        let (k, v) = x.split_once('=')?;
        match k {
            "out" => o.out = loc_parse(v)?,
            "a" => o.a = loc_parse(v)?,
            "b" => o.b = loc_parse(v)?,
            "n" => o.n = v.parse().ok()?,
            "text" => o.text = Text::Lit(unesc(v)?),
            "textof" => o.text = Text::Ref(v.parse().ok()?),
            _ => return None,
        }
    }
    Some(o)
}
impl Scen {
    pub fn show(&self) -> String {
        let mut s = format!("property {}\n", self.prop);
        for l in &self.lines {
            s += &l.show();
            s.push('\n');
        }
        s
    }
    pub fn parse(t: &str) -> Option<Scen> {
        let mut sc = Scen { prop: String::new(), lines: vec![] };
        for l in t.lines() {
            let l = l.trim();
            if l.is_empty() || l.starts_with('#') {
                continue;
            }
            let w: Vec<&str> = l.split_whitespace().collect();
            let kv = |k: &str| -> Option<&str> { w.iter().find_map(|x| x.strip_prefix(k).and_then(|r| r.strip_prefix('='))) };
            let num = |k: &str| -> Option<u32> { kv(k)?.parse().ok() };
            match w[0] {
                "property" => sc.prop = w.get(1)?.to_string(),
                "cfg" => sc.lines.push(Line::Cfg(w.get(1)?.to_string(), w.get(2)?.parse().ok()?)),
                "init" => sc.lines.push(Line::Init(op_parse(&w[1..])?)),
                "op" => sc.lines.push(Line::Op(op_parse(&w[1..])?)),
                "switch" => sc.lines.push(Line::Ev { op: num("op")?, pos: num("at")?, fault: Fault::Sw(num("to")? as u8) }),
                "stall" => sc.lines.push(Line::Ev { op: num("op")?, pos: num("at")?, fault: Fault::Stall }),
                "abandon" => sc.lines.push(Line::Ev { op: num("op")?, pos: num("at")?, fault: Fault::Abandon }),
                "crash" => sc.lines.push(Line::Ev { op: num("op")?, pos: num("at")?, fault: Fault::Crash }),
                "snap" => sc.lines.push(Line::Snap { op: num("after")? }),
                "reload" => sc.lines.push(Line::Reload { op: num("after")?, reg: loc_parse(kv("reg")?)? }),
                "act" => {
                    let mut v = Vec::new();
                    for x in &w[1..] {
                        v.push(unesc(x)?);
                    }
                    sc.lines.push(Line::Act(v));
                }
                _ => return None,
            }
        }
        Some(sc)
    }
    pub fn cfg(&self, k: &str, def: i64) -> i64 {
        self.lines.iter().find_map(|l| match l { Line::Cfg(n, v) if n == k => Some(*v), _ => None }).unwrap_or(def)
    }
    pub fn inits(&self) -> Vec<&Op> {
        self.lines.iter().filter_map(|l| match l { Line::Init(o) => Some(o), _ => None }).collect()
    }
    pub fn ops(&self) -> Vec<&Op> {
        self.lines.iter().filter_map(|l| match l { Line::Op(o) => Some(o), _ => None }).collect()
    }
    pub fn evs(&self) -> Vec<(u32, u32, Fault)> {
        self.lines.iter().filter_map(|l| match l { Line::Ev { op, pos, fault } => Some((*op, *pos, *fault)), _ => None }).collect()
    }
    pub fn acts(&self) -> Vec<&Vec<Vec<u8>>> {
        self.lines.iter().filter_map(|l| match l { Line::Act(v) => Some(v), _ => None }).collect()
    }
    pub fn push_op(&mut self, mut o: Op) -> u32 {
        let id = self.lines.iter().filter(|l| matches!(l, Line::Op(_) | Line::Init(_))).count() as u32 + 1;
        o.id = id;
        self.lines.push(Line::Op(o));
        id
    }
    pub fn push_init(&mut self, mut o: Op) -> u32 {
        let id = self.lines.iter().filter(|l| matches!(l, Line::Op(_) | Line::Init(_))).count() as u32 + 1;
        o.id = id;
        self.lines.push(Line::Init(o));
        id
    }
}
