//! Worker processes, seeds, minimisation, replay files, evidence.
use crate::exec;
use crate::model;
use crate::props::{self, Env, Viol};
use crate::rng::{hash_bytes, mix, Rng};
use crate::rt;
use crate::scen::*;
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, AtomicU8, Ordering::*};
use std::time::{Duration, Instant};

fn die(m: &str) -> ! {
    eprintln!("fxdsim: {}", m);
    std::process::exit(2)
}
fn arg(name: &str) -> Option<String> {
    let v: Vec<String> = std::env::args().collect();
    v.iter().position(|x| x == name).and_then(|i| v.get(i + 1).cloned())
}
fn argn(name: &str, def: u64) -> u64 {
    arg(name).map_or(def, |s| s.parse().unwrap_or_else(|_| die("bad number")))
}

pub fn main() {
    unsafe {
        // identical address space layout in every process
        let p = libc::personality(0xffff_ffff);
        if p >= 0 && p & 0x0040000 == 0 && std::env::var_os("FXDSIM_REEXEC").is_none() && libc::personality(p as u64 | 0x0040000) >= 0 {
            std::env::set_var("FXDSIM_REEXEC", "1");
            use std::os::unix::process::CommandExt;
            let e = std::process::Command::new("/proc/self/exe").args(std::env::args_os().skip(1)).exec();
            let _ = e;
        }
        rt::init_ranges();
    }
    rt::install_hooks();
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("check") => check(&a[2]),
        Some("replay") => replay(Path::new(&a[2])),
        Some("digest") => digest(&a[2]),
        Some("gen") => {
            boot();
            let sc = props::gen(&a[2], run_seed(argn("--seed", 1), &a[2], argn("--run", 0)), &mut Env::default());
            print!("{}", sc.show());
        }
        Some("selftest") => selftest(),
        _ => die("usage: check ID | replay FILE | digest ID | gen ID | selftest"),
    }
}
fn boot() {
    unsafe { exec::init_worker() };
    if std::mem::size_of::<fxdshim::FixedDecimal>() > exec::VS {
        die("a decimal is larger than the harness supports");
    }
    exec::find_padding();
    props::z0();
}
fn run_seed(seed: u64, prop: &str, run: u64) -> u64 {
    mix(hash_bytes(mix(seed), prop.as_bytes()) ^ mix(run.wrapping_mul(0x5851f42d4c957f2d)))
}

// ---------------------------------------------------------------- one worker
#[repr(C)]
struct Shared {
    stop: AtomicU64,
    done: AtomicU64,
    edges: [u8; rt::NEDGE],
    edge_total: AtomicU64,
    paths: [AtomicU8; rt::PATHBITS as usize / 8],
}
struct Found {
    run: u64,
    v: Viol,
    sc: Scen,
    orig: usize,
}
fn pin(w: usize) {
    unsafe {
        let mut set: libc::cpu_set_t = std::mem::zeroed();
        if libc::sched_getaffinity(0, std::mem::size_of_val(&set), &mut set) == 0 {
            let cpus: Vec<usize> = (0..1024).filter(|c| libc::CPU_ISSET(*c, &set)).collect();
            if cpus.len() > 1 {
                let mut one: libc::cpu_set_t = std::mem::zeroed();
                libc::CPU_SET(cpus[w % cpus.len()], &mut one);
                libc::sched_setaffinity(0, std::mem::size_of_val(&one), &one);
            }
        }
    }
}
fn is_known(known: &[(String, String, String)], prop: &str, v: &Viol) -> Option<usize> {
    known.iter().position(|k| k.0 == prop && k.1 == v.class && v.msg.contains(&k.2))
}
/// lines "known: property=<id> class=<class> match=<text of the failing call>"
fn load_known() -> Vec<(String, String, String)> {
    let mut v = Vec::new();
    let f = match arg("--known") {
        Some(f) => f,
        None => return v,
    };
    for l in std::fs::read_to_string(f).unwrap_or_default().lines() {
        if let Some(r) = l.strip_prefix("known: property=") {
            let mut it = r.splitn(3, ' ');
            let p = it.next().unwrap_or("").to_string();
            let c = it.next().unwrap_or("").strip_prefix("class=").unwrap_or("?").to_string();
            let m = it.next().unwrap_or("").strip_prefix("match=").unwrap_or("?").to_string();
            v.push((p, c, m));
        }
    }
    v
}

/// corpus/<id>-*.scen: minimised scenarios of repaired defects
fn corpus_of(prop: &str) -> Vec<(String, Scen)> {
    let mut v = Vec::new();
    if let Some(d) = arg("--corpus") {
        for e in std::fs::read_dir(d).into_iter().flatten().flatten() {
            let n = e.file_name().to_string_lossy().into_owned();
            if n.starts_with(&format!("{}-", prop)) && n.ends_with(".scen") {
                let t = std::fs::read_to_string(e.path()).unwrap_or_default();
                v.push((n.clone(), Scen::parse(&t).unwrap_or_else(|| die(&format!("cannot parse corpus/{}", n)))));
            }
        }
    }
    v.sort_by(|a, b| a.0.cmp(&b.0));
    v
}

fn again(sc: &Scen) -> bool {
    (0..3).any(|_| props::check(sc, &mut Env::default()).is_err())
}
fn worker(w: u64, nw: u64, prop: &str, seed: u64, runs: u64, deadline: Duration, shared: &Shared, out: &Path) {
    pin(w as usize);
    boot();
    let t0 = Instant::now();
    let known = load_known();
    let mut env = Env::default();
    let mut found: Option<Found> = None;
    let mut hits: BTreeMap<usize, u64> = BTreeMap::new();
    let mut samples = Vec::new();
    let mut n = 0u64;
    let mut nontrivial = 0u64;
    // regression scenarios of this property, each decided like any other run
    let corpus = corpus_of(prop);
    let nc = corpus.len() as u64;
    for (i, (name, sc)) in corpus.into_iter().enumerate() {
        if i as u64 % nw != w {
            continue;
        }
        n += 1;
        env.nontrivial = false;
        if let Err(v) = props::check(&sc, &mut env) {
            if !again(&sc) {
                env.unreproduced += 1;
                continue;
            }
            shared.stop.fetch_min(i as u64, Relaxed);
            let orig = sc.lines.len();
            found = Some(Found { run: i as u64, v: Viol { msg: format!("{} (regression scenario {})", v.msg, name), ..v }, sc, orig });
            break;
        }
        if env.nontrivial {
            nontrivial += 1;
            env.distinct.insert(sc.lines.iter().fold(5, |h, l| hash_bytes(h, l.show().as_bytes())));
        }
    }
    let runs = runs + nc;
    let mut r = w + nc;
    while found.is_none() && r < runs && t0.elapsed() < deadline && shared.stop.load(Relaxed) > r {
        let s = run_seed(seed, prop, r - nc);
        let sc = props::gen(prop, s, &mut env);
        env.nontrivial = false;
        env.digest = mix(env.digest ^ r);
        let res = props::check(&sc, &mut env);
        n += 1;
        if env.nontrivial {
            nontrivial += 1;
            let mut h = 5;
            for l in &sc.lines {
                h = hash_bytes(h, l.show().as_bytes());
            }
            env.distinct.insert(h);
        }
        if samples.len() < 2 && env.nontrivial && sc.lines.len() < 40 {
            samples.push((r - nc, s, sc.show()));
        }
        if let Err(v) = res {
            // one scenario is one execution: what does not happen again was done
            // to the simulator from outside (a simulated process was killed)
            if !again(&sc) {
                env.unreproduced += 1;
                eprintln!("fxdsim: run {} reported {} ({}), and never again; last abnormal wait status {:#x}", r - nc, v.class, v.msg, unsafe { exec::LAST_BAD });
                if env.unreproduced < 4 {
                    r += nw;
                    continue;
                }
            }
            if let Some(k) = is_known(&known, prop, &v) {
                *hits.entry(k).or_default() += 1;
            } else {
                shared.stop.fetch_min(r, Relaxed);
                let orig = sc.lines.len();
                found = Some(Found { run: r, v, sc, orig });
                break;
            }
        }
        r += nw;
        shared.done.fetch_add(1, Relaxed);
    }
    for (i, e) in exec::shm().edges.iter().enumerate() {
        if *e != 0 {
            unsafe { *(shared.edges.as_ptr().add(i) as *mut u8) = 1 };
        }
    }
    shared.edge_total.fetch_max(unsafe { rt::EDGES } as u64, Relaxed);
    for (i, b) in exec::shm().paths.iter().enumerate() {
        if *b != 0 {
            shared.paths[i].fetch_or(*b, Relaxed);
        }
    }
    let wall = t0.elapsed().as_secs_f64();
    let mut f = String::new();
    if let Some(x) = found {
        let (sc, v) = if x.run < nc { (x.sc, x.v) } else { shrink(x.sc, x.v, Duration::from_secs(40)) };
        f += &format!("found {} {} {} {}\n", x.run, x.orig, esc(v.class.as_bytes()), esc(v.msg.as_bytes()));
        std::fs::write(out.join(format!("w{}.scen", w)), sc.show()).unwrap_or_else(|_| die("cannot write scenario"));
    }
    f += &format!("n {} {} {} {} {} {:.3}\n", n, nontrivial, env.calls, env.steps, unsafe { exec::FORKS }, wall);
    for (k, v) in &env.fired {
        f += &format!("fired {} {}\n", v, k);
    }
    for (k, v) in &env.probes {
        f += &format!("probe {} {}\n", v, k);
    }
    for (k, v) in &hits {
        f += &format!("known {} {}\n", k, v);
    }
    for (r, s, t) in &samples {
        f += &format!("sample {} {} {}\n", r, s, esc(t.as_bytes()));
    }
    if env.unreproduced > 0 {
        f += &format!("probe {} {}\n", env.unreproduced, "report that did not repeat (simulated process killed from outside)");
    }
    f += &format!("digest {:016x}\n", env.digest);
    for h in &env.sched {
        f += &format!("s {:x}\n", h);
    }
    for h in &env.distinct {
        f += &format!("d {:x}\n", h);
    }
    f += "end\n";
    std::fs::write(out.join(format!("w{}.txt", w)), f).unwrap_or_else(|_| die("cannot write result"));
}

// -------------------------------------------------------------- minimisation
fn fails(lines: &[Line], prop: &str, class: &str) -> Option<Viol> {
    let sc = Scen { prop: prop.into(), lines: lines.to_vec() };
    match props::check(&sc, &mut Env::default()) {
        Err(v) if v.class == class => Some(v),
        _ => None,
    }
}
fn shrink(sc: Scen, v: Viol, limit: Duration) -> (Scen, Viol) {
    let t0 = Instant::now();
    let prop = sc.prop.clone();
    let mut lines = sc.lines;
    let mut best = v;
    let left = || t0.elapsed() < limit;
    if best.class == "hang" {
        return (Scen { prop, lines }, best);
    }
    // removal, halving chunks; repeated until nothing more goes
    loop {
        let before = lines.len();
        let mut chunk = (lines.len() / 2).max(1);
        while left() {
            let mut i = 0;
            while i < lines.len() && left() {
                let e = (i + chunk).min(lines.len());
                let mut cand = lines.clone();
                cand.drain(i..e);
                if let Some(x) = fails(&cand, &prop, &best.class) {
                    best = x;
                    lines = cand;
                } else {
                    i = e;
                }
            }
            if chunk == 1 {
                break;
            }
            chunk = chunk.div_ceil(2).min(chunk - 1).max(1);
        }
        if lines.len() == before || !left() {
            break;
        }
    }
    // simpler arguments
    let mut progress = true;
    while progress && left() {
        progress = false;
        for i in 0..lines.len() {
            for c in simpler(&lines[i]) {
                if !left() {
                    break;
                }
                let mut cand = lines.clone();
                cand[i] = c;
                if let Some(x) = fails(&cand, &prop, &best.class) {
                    best = x;
                    lines = cand;
                    progress = true;
                    break;
                }
            }
        }
    }
    (Scen { prop, lines }, best)
}
fn simpler_text(t: &[u8]) -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = Vec::new();
    if t.is_empty() {
        return v;
    }
    for s in [&b"0"[..], b"1"] {
        if t.len() > s.len() {
            v.push(s.to_vec());
        }
    }
    let mut k = t.len() / 2;
    while k >= 1 {
        let mut i = 0;
        while i + k <= t.len() {
            let mut x = t.to_vec();
            x.drain(i..i + k);
            v.push(x);
            i += k;
        }
        if k > 8 && v.len() > 60 {
            break;
        }
        k /= 2;
    }
    for i in 0..t.len().min(80) {
        if t[i].is_ascii_digit() && t[i] != b'0' && t[i] != b'1' {
            let mut x = t.to_vec();
            x[i] = b'0';
            v.push(x.clone());
            x[i] = b'1';
            v.push(x);
        }
    }
    v
}
fn simpler(l: &Line) -> Vec<Line> {
    let mut v = Vec::new();
    let ops = |o: &Op| -> Vec<Op> {
        let mut v = Vec::new();
        if let Text::Lit(t) = &o.text {
            for s in simpler_text(t) {
                v.push(Op { text: Text::Lit(s), ..o.clone() });
            }
        }
        for n in [0, o.n / 2, o.n - o.n.signum()] {
            if n != o.n && o.n != -1 {
                v.push(Op { n, ..o.clone() });
            }
        }
        v
    };
    match l {
        Line::Init(o) => v.extend(ops(o).into_iter().map(Line::Init)),
        Line::Op(o) => v.extend(ops(o).into_iter().map(Line::Op)),
        Line::Ev { op, pos, fault } => {
            for p in [1, *pos / 2, *pos - 1] {
                if p > 0 && p < *pos {
                    v.push(Line::Ev { op: *op, pos: p, fault: *fault });
                }
            }
        }
        Line::Act(a) => {
            for i in 1..a.len() {
                for s in simpler_text(&a[i]) {
                    let mut b = a.clone();
                    b[i] = s;
                    v.push(Line::Act(b));
                }
            }
        }
        _ => {}
    }
    v
}

// -------------------------------------------------------------------- replay
fn replay(f: &Path) {
    boot();
    let t = std::fs::read_to_string(f).unwrap_or_else(|_| die("cannot read the replay file"));
    let sc = Scen::parse(&t).unwrap_or_else(|| die("cannot parse the replay file"));
    let mut env = Env::default();
    match props::check(&sc, &mut env) {
        Ok(()) => {
            println!("property {} holds on this scenario (digest {:016x})", sc.prop, env.digest);
        }
        Err(v) => {
            println!("{}: {}", v.class, v.msg);
            println!("digest {:016x}", env.digest);
            println!("VIOLATION property={} replay={}", sc.prop, f.display());
            std::process::exit(1);
        }
    }
}

/// event-log digest per run, for the determinism proof
fn digest(prop: &str) {
    let seed = argn("--seed", 1);
    let (from, runs) = (argn("--from", 0), argn("--runs", 200));
    boot();
    for r in from..from + runs {
        let mut env = Env::default();
        let sc = props::gen(prop, run_seed(seed, prop, r), &mut env);
        let res = props::check(&sc, &mut env);
        let mut h = env.digest;
        for l in &sc.lines {
            h = hash_bytes(h, l.show().as_bytes());
        }
        println!("{} {} {:016x} {}", prop, r, h, res.err().map_or("ok".into(), |v| v.class));
    }
}

// --------------------------------------------------------------------- check
fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 32 || (c as u32) > 126 => o += &format!("\\u{:04x}", (c as u32).min(0xffff)),
            c => o.push(c),
        }
    }
    o + "\""
}
struct Meta {
    quick: u64,
    faults: &'static str,
    rule: &'static str,
    real: &'static str,
    stub: &'static str,
}
fn meta(p: &str) -> Meta {
    let real = "all of fxd (every module, compiled from /repo's working tree with edge/load/store callbacks), real OS threads, real stacks";
    let stub = "thread scheduler, futex, clock, sleep, random source, environment, process id, allocator failures; each simulated process is a fork that starts from pristine library state";
    let m = |quick, faults, rule| Meta { quick, faults, rule, real, stub };
    match p {
        "C01" => m(120_000, "preemption", "seeded caller programs over shared operands, seeded preemption points at the granularity of single loads, stores and branches (biased to accesses of global memory); non-trivial: at least one caller was preempted inside a call and another one ran"),
        "C02" => m(120_000, "abandon, hasher", "seeded histories over recycled values with failing calls, panicking and re-entrant hashers and calls abandoned at an instruction; non-trivial: at least one of those faults fired"),
        "C03" => m(120_000, "stall", "seeded caller programs, one or more callers suspended for ever at a seeded instruction inside a call; non-trivial: at least one caller was suspended inside a call"),
        "C04" => m(100_000, "damaged text, zero divisors, overflow", "seeded histories in which texts are damaged, divisors are zero and magnitudes overflow; non-trivial: at least one call had to fail"),
        "C05" => m(180_000, "allocator", "seeded call sequences with the allocator refusing everything from a seeded call on; non-trivial: the refusal covered at least one call"),
        "C06" => m(140_000, "allocation failure", "seeded sequences of appends into one buffer with seeded previous content and capacity, the k-th allocation of an append failing; non-trivial: an allocation failed, or more than one append into the same buffer"),
        "C07" => m(180_000, "torn, short, lost, misplaced, duplicated writes, bit flips, zeroed and missing bytes", "seeded write/fault/read histories of a simulated record store holding decimal text; non-trivial: at least one storage fault fired"),
        "C08" => m(120_000, "worker crashes, message loss, duplication, reordering", "seeded discrete-event runs of workers and a coordinator that sum and exchange partial sums as text; non-trivial: a worker crashed inside an addition, was preempted in it, or a message was lost, duplicated or reordered"),
        "C09" => m(120_000, "process crash inside a call, restart from text", "seeded command histories, crash at a seeded instruction, restart from the last text snapshot, replay; single values reloaded from text in between; non-trivial: at least one crash or reload"),
        "C10" => m(150_000, "arrival order, rebuild", "seeded arrival orders of inserts, removals, lookups, range reads and rebuilds over families of related keys; non-trivial: more than two requests"),
        "C11" => m(140_000, "clock jumps, random source, environment, memory layout", "seeded command logs applied by replicas with different call forms and ambient conditions; non-trivial: at least one varied replica ran"),
        "C12" => m(120_000, "preemption, abandoned calls, panicking hashers, recycled results, ambient conditions", "seeded histories of several callers with arithmetic on parsed and computed values, every result compared with exact rational arithmetic; non-trivial: at least one fault fired"),
        "C13" => m(120_000, "preemption, abandoned calls, panicking hashers, recycled results, ambient conditions", "seeded histories of several callers with rounding, conversions, comparisons and formatting of parsed and computed values, every outcome compared with the exact model; non-trivial: at least one fault fired"),
        "C14" => m(150_000, "arrival order, hasher panics, growth and rebuild", "seeded arrival orders of inserts, removals and lookups of a hash index over families of related keys; non-trivial: more than two requests"),
        _ => die("unknown property"),
    }
}
fn check(prop: &str) {
    let m = meta(prop);
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<u64>().ok()).unwrap_or(1);
    let tier = std::env::var("VERIF_TIER").unwrap_or("quick".into());
    let thorough = tier == "thorough";
    let runs = argn("--runs", if thorough { m.quick * 15 } else { m.quick });
    let cap = argn("--seconds", if thorough { 900 } else { 120 });
    let nw = argn("--workers", 8);
    let vdir = PathBuf::from(arg("--out").unwrap_or("/verif/out".into()));
    let out = vdir.join(format!("{}-{}", prop, std::process::id()));
    std::fs::create_dir_all(&out).unwrap_or_else(|_| die("cannot create the output directory"));
    println!("property {} tier {} VERIF_SEED {} runs {} workers {} profile {}", prop, tier, seed, runs, nw, arg("--profile").unwrap_or_default());
    let shared: &Shared = unsafe {
        let p = libc::mmap(std::ptr::null_mut(), std::mem::size_of::<Shared>(), libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0);
        &*(p as *const Shared)
    };
    shared.stop.store(u64::MAX, Relaxed);
    let t0 = Instant::now();
    let start = |w: u64| {
        let pid = unsafe { libc::fork() };
        if pid == 0 {
            let r = std::panic::catch_unwind(|| worker(w, nw, prop, seed, runs, Duration::from_secs(cap), shared, &out));
            unsafe { libc::_exit(if r.is_ok() { 0 } else { 3 }) };
        }
        pid
    };
    let pids: Vec<i32> = (0..nw).map(start).collect();
    let mut bad = 0;
    for (w, p) in pids.into_iter().enumerate() {
        let mut st = 0;
        unsafe { libc::waitpid(p, &mut st, 0) };
        if st != 0 {
            // killed from outside? its runs are the same when made again
            eprintln!("fxdsim: worker {} ended with status {:#x}; started again", w, st);
            let p = start(w as u64);
            unsafe { libc::waitpid(p, &mut st, 0) };
            if st != 0 {
                bad += 1;
            }
        }
    }
    // collect
    let (mut n, mut nontriv, mut calls, mut steps, mut forks) = (0u64, 0u64, 0u64, 0u64, 0u64);
    let mut fired: BTreeMap<String, u64> = BTreeMap::new();
    let mut probes: BTreeMap<String, u64> = BTreeMap::new();
    let mut known_hits: BTreeMap<usize, u64> = BTreeMap::new();
    let mut samples: Vec<(u64, u64, String)> = vec![];
    let (mut sched, mut dist): (HashSet<String>, HashSet<String>) = Default::default();
    let mut found: Vec<(u64, usize, String, String, u64)> = vec![];
    for w in 0..nw {
        let t = std::fs::read_to_string(out.join(format!("w{}.txt", w))).unwrap_or_default();
        if !t.ends_with("end\n") {
            bad += 1;
            continue;
        }
        for l in t.lines() {
            let v: Vec<&str> = l.splitn(2, ' ').collect();
            let rest = v.get(1).copied().unwrap_or("");
            let f: Vec<&str> = rest.split(' ').collect();
            let num = |i: usize| f.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
            let tx = |s: &str| String::from_utf8_lossy(&unesc(s).unwrap_or_default()).into_owned();
            match v[0] {
                "n" => {
                    n += num(0);
                    nontriv += num(1);
                    calls += num(2);
                    steps += num(3);
                    forks += num(4);
                }
                "fired" => *fired.entry(f[1..].join(" ")).or_default() += num(0),
                "probe" => *probes.entry(f[1..].join(" ")).or_default() += num(0),
                "known" => *known_hits.entry(num(0) as usize).or_default() += num(1),
                "sample" => samples.push((num(0), num(1), tx(f[2]))),
                "s" => {
                    sched.insert(rest.into());
                }
                "d" => {
                    dist.insert(rest.into());
                }
                "found" => found.push((num(0), num(1) as usize, tx(f[2]), tx(f[3]), w)),
                _ => {}
            }
        }
    }
    let wall = t0.elapsed().as_secs_f64();
    let edges = shared.edges.iter().filter(|e| **e != 0).count();
    let edge_total = shared.edge_total.load(Relaxed);
    // linear counting
    let unset = rt::PATHBITS - shared.paths.iter().map(|b| b.load(Relaxed).count_ones() as u64).sum::<u64>();
    let paths = ((rt::PATHBITS as f64 / unset.max(1) as f64).ln() * rt::PATHBITS as f64).round() as u64;
    found.sort();
    let mut replay_path = None;
    let nc = corpus_of(prop).len() as u64;
    if let Some((run, orig, class, msg, w)) = found.first() {
        let origin = if *run < nc { "a regression scenario".to_string() } else { format!("run={} (seed {})", run - nc, run_seed(seed, prop, run - nc)) };
        let s = std::fs::read_to_string(out.join(format!("w{}.scen", w))).unwrap_or_default();
        let path = vdir.join(format!("{}-{}.replay", prop, class));
        let head = format!(
            "# violation of {}: {}\n# {}\n# found with VERIF_SEED={} {}; minimised from {} to {} lines\n# replay with: bash /verif/check.sh replay {}\n",
            prop, class, msg.replace('\n', " "), seed, origin, orig, s.lines().count().saturating_sub(1), path.display()
        );
        std::fs::write(&path, head + &s).unwrap_or_else(|_| die("cannot write the replay file"));
        println!("violation class {}: {}", class, msg);
        println!("found with VERIF_SEED={} {}; {} lines minimised to {}", seed, origin, orig, s.lines().count().saturating_sub(1));
        replay_path = Some(path);
    }
    let known = load_known();
    for (k, c) in &known_hits {
        println!("KNOWN-FINDING: property={} {} {} ({} runs)", prop, known[*k].1, known[*k].2, c);
    }
    samples.sort();
    samples.truncate(3);
    let map = |m: &BTreeMap<String, u64>| m.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect::<Vec<_>>().join(", ");
    let smp: Vec<String> = samples.iter().map(|(r, s, t)| format!("{{\"run\": {}, \"seed\": {}, \"scenario\": {}}}", r, js(&s.to_string()), js(t))).collect();
    let ev = format!(
        "{{\"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"exploration\", \"wall_s\": {:.2}, \"violations\": {}, \"coverage\": {{\"evaluations\": {}, \"distinct_nontrivial\": {}, \"rule\": {}, \"samples\": [{}], \"nontrivial_runs\": {}, \"runs_planned\": {}, \"regression_scenarios\": {}, \"runs_per_hour\": {:.0}, \"simulated_processes\": {}, \"library_calls\": {}, \"simulated_steps\": {}, \"simulated_time\": \"the library reads no clock; simulated time is counted in instrumented steps (loads, stores, branches) of the calls\", \"faults_fired\": {{{}}}, \"probes\": {{{}}}, \"distinct_interleavings\": {}, \"interleaving_measure\": \"distinct sequences of (caller, call, step) at which control was taken away\", \"distinct_call_paths\": {}, \"call_path_measure\": \"different sequences of control-flow edges taken by one completed call (signatures counted by linear counting in 2^24 bits)\", \"library_edges_reached\": {}, \"library_edges_instrumented\": {}, \"components_real\": {}, \"components_simulated\": {}, \"build\": {}, \"known_findings_hit\": {}}}, \"assumptions\": [{}, {}]}}\n",
        js(prop), js(if thorough { "thorough" } else { "quick" }), seed, wall, found.len(), n, dist.len(), js(m.rule), smp.join(", "), nontriv, runs, nc,
        n as f64 / wall * 3600.0, forks, calls, steps, map(&fired), map(&probes), sched.len(), paths, edges, edge_total, js(m.real), js(m.stub), js(&arg("--profile").unwrap_or("dev".into())), known_hits.values().sum::<u64>(),
        js("seeded sampling: a clean batch is evidence, not proof"),
        js("memory accesses inside the standard library's own compiled code are not scheduling points; its futex, clock, sleep, random and environment calls are simulated"),
    );
    if let Some(e) = arg("--evidence") {
        let mut f = std::fs::File::create(&e).unwrap_or_else(|_| die("cannot write the evidence file"));
        f.write_all(ev.as_bytes()).unwrap_or_else(|_| die("cannot write the evidence file"));
    }
    let _ = std::fs::remove_dir_all(&out);
    println!("{} runs ({} non-trivial, {} distinct), {} calls, {} steps, {} processes, {} interleavings, {} call paths, {} of {} edges, {:.1} s; faults {}", n, nontriv, dist.len(), calls, steps, forks, sched.len(), paths, edges, edge_total, wall, m.faults);
    for (k, v) in &fired {
        println!("  fired {:>9}  {}", v, k);
    }
    for (k, v) in &probes {
        println!("  probe {:>9}  {}", v, k);
    }
    if let Some(p) = replay_path {
        println!("VIOLATION property={} replay={}", prop, p.display());
        std::process::exit(1);
    }
    if bad > 0 || n == 0 {
        die("a worker failed");
    }
}

/// consistency of the simulator's own parts
fn selftest() {
    boot();
    let mut r = Rng::new(argn("--seed", 1));
    for _ in 0..200_000 {
        let d = crate::gen::dec(&mut r, 7, 30);
        let d = if r.chance(1, 2) { crate::gen::sibling(&mut r, &d) } else { d };
        let t = crate::gen::spell(&mut r, &d);
        match model::read(&t) {
            Some(n) if n.canonical() == (if d.is_zero() { crate::gen::Dec { neg: false, ..d.clone() } } else { d.clone() }).text() => {}
            x => die(&format!("spelling {} of {} read as {:?}", esc(&t), esc(&d.text()), x.map(|n| esc(&n.canonical())))),
        }
    }
    for p in props::ALL {
        for i in 0..50 {
            let sc = props::gen(p, run_seed(7, p, i), &mut Env::default());
            let t = sc.show();
            let b = Scen::parse(&t).unwrap_or_else(|| die(&format!("cannot parse\n{}", t)));
            if b.show() != t || b.lines != sc.lines {
                die(&format!("scenario text does not round-trip\n{}", t));
            }
        }
    }
    println!("selftest ok");
}
