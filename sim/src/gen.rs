//! Seeded generation of values, texts and operations.
use crate::rng::Rng;
use crate::scen::{Op, Text, NONE};
use fxdshim::Kind;

#[derive(Clone, Debug, PartialEq)]
pub struct Dec {
    pub neg: bool,
    pub i: Vec<u8>, // integral digits, no leading zeros
    pub f: Vec<u8>, // fractional digits
}
pub fn unit(r: &mut Rng) -> u32 {
    match r.weighted(&[4, 3, 4, 2, 2, 3, 3, 2, 2, 5]) {
        0 => 0,
        1 => 1,
        2 => 999_999_999,
        3 => 500_000_000,
        4 => 499_999_999,
        5 => 10u32.pow(r.below(9) as u32),
        6 => 10u32.pow(1 + r.below(8) as u32) - 1,
        7 => 5 * 10u32.pow(r.below(9) as u32),
        8 => r.below(100) as u32,
        _ => r.below(1_000_000_000) as u32,
    }
}
fn trim(v: &mut Vec<u8>) {
    let k = v.iter().position(|c| *c != b'0').unwrap_or(v.len());
    v.drain(..k);
}
impl Dec {
    pub fn fix(mut self) -> Dec {
        trim(&mut self.i);
        self.f.truncate(30);
        let n = 65 - self.f.len().min(65);
        if self.i.len() > n {
            let k = self.i.len() - n;
            self.i.drain(..k);
            trim(&mut self.i);
        }
        if self.is_zero() {
            self.neg = false;
        }
        self
    }
    pub fn is_zero(&self) -> bool {
        self.i.iter().chain(&self.f).all(|c| *c == b'0')
    }
    pub fn text(&self) -> Vec<u8> {
        let mut v = Vec::new();
        if self.neg {
            v.push(b'-');
        }
        if self.i.is_empty() {
            v.push(b'0');
        }
        v.extend_from_slice(&self.i);
        if !self.f.is_empty() {
            v.push(b'.');
            v.extend_from_slice(&self.f);
        }
        v
    }
}
/// a number; big: how many integral groups at most
pub fn dec(r: &mut Rng, maxu: usize, maxf: usize) -> Dec {
    if r.chance(1, 12) {
        return sparse(r, maxu, maxf);
    }
    if maxf >= 9 && r.chance(1, 24) {
        return tiny(r, maxf);
    }
    let nu = match r.weighted(&[3, 5, 5, 3, 2, 1]) {
        0 => 0,
        1 => 1,
        2 => 2,
        3 => 3,
        4 => 4 + r.below(2),
        _ => 5 + r.below(3),
    }
    .min(maxu);
    let mut i = Vec::new();
    for _ in 0..nu {
        i.extend_from_slice(format!("{:09}", unit(r)).as_bytes());
    }
    if nu > 0 && r.chance(1, 2) {
        let k = r.below(9);
        i.drain(..k);
    }
    let nf = match r.weighted(&[5, 4, 3, 2, 3, 2]) {
        0 => 0,
        1 => 1 + r.below(3),
        2 => 1 + r.below(9),
        3 => 9 * (1 + r.below(3)),
        4 => 1 + r.below(30),
        _ => 28 + r.below(3),
    }
    .min(maxf);
    let mut f = Vec::new();
    while f.len() < nf {
        f.extend_from_slice(format!("{:09}", unit(r)).as_bytes());
    }
    f.truncate(nf);
    if nf > 0 && r.chance(1, 8) {
        let k = f.len();
        f[k - 1] = *r.pick(b"0159");
    }
    Dec { neg: r.chance(1, 3), i, f }.fix()
}
/// few digits that are not zero (or not nine), anywhere: tiny, huge, or with wide gaps
fn sparse(r: &mut Rng, maxu: usize, maxf: usize) -> Dec {
    let ni = if r.chance(1, 2) { 0 } else { r.below(9 * maxu + 1) };
    let nf = if r.chance(1, 3) { 0 } else { r.below(maxf + 1) };
    let fill = if r.chance(1, 5) { b'9' } else { b'0' };
    let mut v = vec![fill; ni + nf];
    if !v.is_empty() {
        for _ in 0..1 + r.below(2) {
            let p = match r.below(3) {
                0 => v.len() - 1,
                1 => ni.min(v.len() - 1),
                _ => r.below(v.len()),
            };
            v[p] = b'0' + r.below(10) as u8;
        }
    }
    let f = v.split_off(ni);
    Dec { neg: r.chance(1, 3), i: v, f }.fix()
}
/// below one, with zeros after the dot, about a whole number of groups of them
fn tiny(r: &mut Rng, maxf: usize) -> Dec {
    let n = if r.chance(1, 2) { maxf - r.below(3) } else { 2 + r.below(maxf - 1) };
    let z = match r.below(3) {
        0 => 9 * (1 + r.below(2)),
        1 => (8 + r.below(3)) * (1 + r.below(2)),
        _ => 1 + r.below(n),
    }
    .min(n - 1);
    let mut f = vec![b'0'; z];
    while f.len() < n {
        f.extend_from_slice(format!("{:09}", unit(r)).as_bytes());
    }
    f.truncate(n);
    Dec { neg: r.chance(1, 3), i: vec![], f }.fix()
}
/// a number related to d
pub fn sibling(r: &mut Rng, d: &Dec) -> Dec {
    let mut x = d.clone();
    match r.below(16) {
        0 => x.neg = !x.neg,
        13 => factor(r, &mut x),
        14 | 15 => multiple(r, &mut x),
        1 => x.f.push(b'0'),
        2 => {
            x.f.pop();
        }
        3 => {
            // move the dot
            let k = 1 + r.below(10);
            for _ in 0..k {
                if let Some(c) = x.i.pop() {
                    x.f.insert(0, c);
                }
            }
        }
        4 => {
            let k = 1 + r.below(10);
            for _ in 0..k {
                let c = if x.f.is_empty() { b'0' } else { x.f.remove(0) };
                x.i.push(c);
            }
        }
        5 => bump(&mut x, r, 1),
        6 => bump(&mut x, r, 9),
        7 => {
            let mut t = *r.pick(b"123456789");
            if r.chance(1, 2) {
                t = b'1';
            }
            x.i.insert(0, t);
        }
        8 => {
            // replace nine digits
            let u = format!("{:09}", unit(r));
            let v = if !x.i.is_empty() && r.chance(1, 2) { &mut x.i } else { &mut x.f };
            if v.len() >= 9 {
                let p = r.below(v.len() - 8);
                v[p..p + 9].copy_from_slice(u.as_bytes());
            }
        }
        9 => x.f.clear(),
        10 => {
            // complement: sum with x is a power of ten
            let mut all: Vec<u8> = x.i.iter().chain(&x.f).map(|c| b'9' - (*c - b'0')).collect();
            for c in all.iter_mut().rev() {
                if *c == b'9' {
                    *c = b'0'
                } else {
                    *c += 1;
                    break;
                }
            }
            let n = x.i.len();
            x.f = all.split_off(n);
            x.i = all;
        }
        11 => {
            for _ in 0..r.below(20) {
                x.f.push(b'0');
            }
        }
        _ => {
            let k = r.below(10);
            for _ in 0..k {
                x.f.insert(0, b'0');
            }
        }
    }
    x.fix()
}
fn all_digits(x: &Dec) -> Vec<u8> {
    x.i.iter().chain(&x.f).copied().collect()
}
/// plus or minus one in the last place, anywhere in the digits
fn step(v: &mut [u8], up: bool) {
    let (last, first) = if up { (b'9', b'0') } else { (b'0', b'9') };
    for c in v.iter_mut().rev() {
        if *c == last {
            *c = first;
        } else {
            *c = if up { *c + 1 } else { *c - 1 };
            return;
        }
    }
}
/// x becomes x / q cut off, or one last place above: a divisor that nearly divides
pub fn factor(r: &mut Rng, x: &mut Dec) {
    for _ in 0..[0, 0, 9, 20][r.below(4)] {
        x.f.push(b'0');
    }
    let q = match r.below(3) {
        0 => 2 + r.below(8) as u64,
        1 => 2 + r.below(1000) as u64,
        _ => unit(r).max(2) as u64,
    };
    let mut v = all_digits(x);
    let mut rem = 0u64;
    for c in v.iter_mut() {
        rem = rem * 10 + (*c - b'0') as u64;
        *c = b'0' + (rem / q) as u8;
        rem %= q;
    }
    if r.chance(2, 3) {
        step(&mut v, true);
    }
    let n = x.i.len();
    x.f = v.split_off(n);
    x.i = v;
}
/// x becomes x * q, or a few last places beside it: a dividend that is nearly divided
pub fn multiple(r: &mut Rng, x: &mut Dec) {
    let v = all_digits(x);
    let mut q = Vec::new();
    for _ in 0..1 + r.below(3) {
        q.extend_from_slice(format!("{:09}", unit(r)).as_bytes());
    }
    let keep = (64usize.saturating_sub(v.len())).min(q.len()).max(1);
    q.truncate(keep);
    let mut t = vec![0u32; v.len() + q.len()];
    for (i, a) in v.iter().enumerate() {
        for (j, b) in q.iter().enumerate() {
            t[i + j + 1] += (*a - b'0') as u32 * (*b - b'0') as u32;
        }
    }
    for k in (1..t.len()).rev() {
        t[k - 1] += t[k] / 10;
        t[k] %= 10;
    }
    let mut w: Vec<u8> = t.iter().map(|c| b'0' + *c as u8).collect();
    for _ in 0..[0, 1, 1, 2][r.below(4)] {
        step(&mut w, false);
    }
    if r.chance(1, 8) {
        step(&mut w, true);
    }
    // the factor may have had a point of its own
    let f = (x.f.len() + if r.chance(1, 4) { r.below(q.len() + 1) } else { 0 }).min(w.len());
    let cut = w.len() - f;
    x.f = w.split_off(cut);
    x.i = w;
}
fn bump(x: &mut Dec, r: &mut Rng, by: u8) {
    let n = x.i.len() + x.f.len();
    if n == 0 {
        return;
    }
    let p = if r.chance(1, 2) { n - 1 } else { r.below(n) };
    let ni = x.i.len();
    let c = if p < ni { &mut x.i[p] } else { &mut x.f[p - ni] };
    *c = b'0' + (*c - b'0' + by) % 10;
}
/// one of the spellings that denote the same value and scale
pub fn spell(r: &mut Rng, d: &Dec) -> Vec<u8> {
    let mut v = Vec::new();
    if d.neg {
        v.push(b'-');
    } else if r.chance(1, 6) {
        v.push(b'+');
    } else if d.is_zero() && r.chance(1, 3) {
        v.push(b'-');
    }
    let room = 65usize.saturating_sub(d.i.len().max(1) + d.f.len());
    match r.below(9) {
        8 if d.i.is_empty() && d.f.first() == Some(&b'0') => {
            // the significant digits and a negative exponent
            let z = d.f.iter().take_while(|c| **c == b'0').count().min(d.f.len() - 1);
            let s = &d.f[z..];
            let k = r.below(s.len());
            v.extend_from_slice(&s[..k]);
            if k > 0 && r.chance(1, 3) {
                v.push(b'.');
                v.extend_from_slice(&s[k..]);
                exp(r, &mut v, -((z + k) as i64));
            } else {
                v.extend_from_slice(&s[k..]);
                exp(r, &mut v, -(d.f.len() as i64));
            }
        }
        0 if room > 0 => {
            // leading zeros
            let k = 1 + r.below(room.min(12));
            v.resize(v.len() + k, b'0');
            v.extend_from_slice(&d.i);
            if d.i.is_empty() {
                v.push(b'0');
            }
            if !d.f.is_empty() {
                v.push(b'.');
                v.extend_from_slice(&d.f);
            }
        }
        1 if !d.f.is_empty() || !d.i.is_empty() => {
            // .5 or 5.
            v.extend_from_slice(&d.i);
            v.push(b'.');
            v.extend_from_slice(&d.f);
        }
        2 if d.i.len() + d.f.len() > 0 => {
            // the dot moves left, positive exponent
            let mut all = d.i.clone();
            all.extend_from_slice(&d.f);
            let k = 1 + r.below(d.i.len() + 3);
            if k > 65 || all.len() + k.saturating_sub(d.i.len()) + 1 > 65 {
                return d.text();
            }
            let pos = d.i.len() as isize - k as isize;
            if pos <= 0 {
                if r.chance(1, 2) {
                    v.push(b'0');
                }
                v.push(b'.');
                v.resize(v.len() + (-pos) as usize, b'0');
                v.extend_from_slice(&all);
            } else {
                v.extend_from_slice(&all[..pos as usize]);
                v.push(b'.');
                v.extend_from_slice(&all[pos as usize..]);
            }
            exp(r, &mut v, k as i64);
        }
        3 if !d.f.is_empty() => {
            // the dot moves right, negative exponent
            let k = 1 + r.below(d.f.len());
            v.extend_from_slice(&d.i);
            if d.i.is_empty() && r.chance(1, 2) {
                v.push(b'0');
            }
            v.extend_from_slice(&d.f[..k]);
            if k < d.f.len() {
                v.push(b'.');
                v.extend_from_slice(&d.f[k..]);
            }
            exp(r, &mut v, -(k as i64));
        }
        4 if d.f.is_empty() && d.i.ends_with(b"0") => {
            let z = d.i.iter().rev().take_while(|c| **c == b'0').count();
            let k = 1 + r.below(z);
            v.extend_from_slice(&d.i[..d.i.len() - k]);
            if d.i.len() == k {
                v.push(b'0');
            }
            exp(r, &mut v, k as i64);
        }
        5 => {
            v.extend_from_slice(&d.text()[d.neg as usize..]);
            exp(r, &mut v, 0);
        }
        _ => v.extend_from_slice(&d.text()[d.neg as usize..]),
    }
    v
}
fn exp(r: &mut Rng, v: &mut Vec<u8>, e: i64) {
    v.push(*r.pick(b"eE"));
    if e < 0 {
        v.push(b'-');
    } else if r.chance(1, 3) {
        v.push(b'+');
    }
    for _ in 0..[0, 0, 0, 1, 5][r.below(5)] {
        v.push(b'0');
    }
    v.extend_from_slice(e.abs().to_string().as_bytes());
}
/// a text that is probably not a number, or at a limit
pub fn odd(r: &mut Rng) -> Vec<u8> {
    match r.below(10) {
        0 => r.pick(&[&b""[..], b"-", b"+", b".", b"-.", b"e5", b".e5", b"1e", b"1e+", b"1e-", b"--1", b"+-1", b"1-", b"1..2", b"1.2.3", b" 1", b"1 ", b"0x10", b"1,000", b"1_000", b"NaN", b"inf", b"1e1.5", b"1e5e5", b"1e--5", b"1.e", b"\x00", b"1\x00", b"\xff", b"\xd9\xa1", b"1e/", b"1e:", b"/", b":", b"1/2", b"1e1/", b"1e0:"]).to_vec(),
        1 => {
            // length limits
            let n = *r.pick(&[64usize, 65, 66, 67, 127, 128, 129, 191, 192, 193, 255, 256, 257, 300, 320]);
            let mut v: Vec<u8> = Vec::new();
            if r.chance(1, 4) {
                v.push(*r.pick(b"-+"));
            }
            let z = if r.chance(1, 2) { r.below(n + 1) } else { 0 };
            for i in 0..n {
                v.push(if i < z { b'0' } else { *r.pick(b"0123456789") });
            }
            if r.chance(2, 3) {
                let p = r.below(v.len() + 1).max((v[0] < b'0') as usize);
                v.insert(p, b'.');
            }
            if r.chance(1, 3) {
                let e = r.range(-31, 66);
                exp(r, &mut v, e);
            }
            v
        }
        2 => {
            // exponent limits
            let mut v = Dec { neg: false, ..dec(r, 2, 5) }.text();
            let e = match r.below(4) {
                0 => r.range(60, 70),
                1 => r.range(-35, -25),
                2 => *r.pick(&[100, 128, 255, 256, 257, 999, 1000, 65536, 2147483647, 2147483648, 4294967296, 4294967297, 1 << 40, -100, -256, -257, -1000, -2147483648]),
                _ => r.range(-999, 999),
            };
            exp(r, &mut v, e);
            v
        }
        3 => {
            let mut v = b"1e".to_vec();
            for _ in 0..r.below(30) {
                v.push(*r.pick(b"0000159"));
            }
            v
        }
        4 => {
            // many fractional digits
            let mut v = Dec { neg: r.chance(1, 3), ..dec(r, 1, 0) }.text();
            v.push(b'.');
            for _ in 0..25 + r.below(45) {
                v.push(*r.pick(b"00123456789"));
            }
            if r.chance(1, 3) {
                let e = r.range(-30, 65);
                exp(r, &mut v, e);
            }
            v
        }
        5 => {
            let n = r.below(12);
            (0..n).map(|_| *r.pick(b"0123456789.eE+-")).collect()
        }
        _ => {
            let d = dec(r, 7, 30);
            let mut v = spell(r, &d);
            damage(r, &mut v);
            v
        }
    }
}
pub fn damage(r: &mut Rng, v: &mut Vec<u8>) {
    for _ in 0..1 + r.below(2) {
        if v.is_empty() {
            return;
        }
        let p = r.below(v.len());
        match r.below(7) {
            0 => v[p] ^= 1 << r.below(8),
            1 => {
                v.remove(p);
            }
            2 => v.insert(p, *r.pick(b"0159.eE+-\x00 /:,")),
            3 => v.truncate(p),
            4 => {
                let t = v[p..].to_vec();
                v.extend_from_slice(&t);
            }
            5 => {
                v.drain(..p);
            }
            _ => v[p] = *r.pick(b"0159.eE+-\x00 /:"),
        }
    }
}

/// the numbers one run is about: a few families of relatives
pub struct Pool {
    pub v: Vec<Dec>,
    maxu: usize,
    maxf: usize,
    /// one in how many initial values is extreme
    pub extreme: usize,
}
impl Pool {
    pub fn new(r: &mut Rng) -> Pool {
        let (maxu, maxf) = *r.pick(&[(7, 30), (7, 30), (2, 9), (1, 3), (3, 20), (7, 0), (0, 30)]);
        Pool { v: vec![], maxu, maxf, extreme: *r.pick(&[14, 14, 14, 14, 14, 14, 2]) }
    }
    pub fn get(&mut self, r: &mut Rng) -> Dec {
        let d = match r.below(4) {
            0 if !self.v.is_empty() => return r.pick(&self.v).clone(),
            1 | 2 if !self.v.is_empty() => {
                let b = r.pick(&self.v).clone();
                sibling(r, &b)
            }
            _ => dec(r, self.maxu, self.maxf),
        };
        if self.v.len() < 12 {
            self.v.push(d.clone());
        }
        d
    }
}

/// random kind weights of a run: a few kinds dominate
pub struct Mix {
    pub kinds: Vec<Kind>,
    w: Vec<u32>,
}
impl Mix {
    pub fn new(r: &mut Rng, kinds: &[Kind]) -> Mix {
        let mut w: Vec<u32> = kinds.iter().map(|_| *r.pick(&[0, 1, 1, 4])).collect();
        for _ in 0..1 + r.below(2) {
            let k = r.below(kinds.len());
            w[k] += 14;
        }
        Mix { kinds: kinds.to_vec(), w }
    }
    pub fn pick(&self, r: &mut Rng) -> Kind {
        self.kinds[r.weighted(&self.w)]
    }
}
/// arguments a narrow integer would not hold
fn far(r: &mut Rng) -> i64 {
    let b: i64 = *r.pick(&[81, 90, 127, 128, 255, 256, 260, 512, 1000, 32768, 65536, 1 << 31, 1 << 32, (1 << 32) + 4, 1 << 62, i64::MAX - 2]);
    let v = b + r.range(-2, 2);
    match r.below(8) {
        0 => i64::MIN + r.range(0, 2),
        1..=3 => -v,
        _ => v,
    }
}
pub fn scale_arg(r: &mut Rng, k: Kind) -> i64 {
    match k {
        Kind::Div if r.chance(1, 12) => match r.below(3) {
            0 => r.range(31, 90),
            _ => far(r),
        },
        Kind::Div => *r.pick(&[0, 1, 2, 4, 4, 4, 5, 8, 9, 10, 18, 30]),
        Kind::Round | Kind::RoundTo if r.chance(1, 16) => far(r),
        Kind::Round | Kind::RoundTo => match r.below(6) {
            0 => r.range(-90, 45),
            1 => *r.pick(&[-1, -8, -9, -10, -17, -18, -19, -27, 0, 8, 9, 10, 17, 18, 19, 27]),
            2 => r.range(-20, -1),
            _ => r.range(0, 30),
        },
        Kind::Str | Kind::Append => match r.below(4) {
            0 | 1 => -1,
            2 => r.range(0, 12),
            _ if r.chance(1, 6) => *r.pick(&[61, 63, 64, 65, 81, 82, 90, 100, 127, 128, 129, 200, 255, 256, 257, 300, -2, -9, -128, i64::MIN, i64::MIN + 1, -(1 << 32), -256]),
            _ => r.range(0, 60),
        },
        Kind::FromI64 | Kind::FromU64 => match r.below(6) {
            0 => *r.pick(&[0, 1, -1, i64::MAX, i64::MIN, 999_999_999, 1_000_000_000, -1_000_000_000, 999_999_999_999_999_999, 1_000_000_000_000_000_000, i64::MIN + 1]),
            1 => r.u64() as i64,
            2 => r.range(-1000, 1000),
            3 => unit(r) as i64 * 1_000_000_000 + unit(r) as i64,
            _ => (r.u64() >> r.below(64)) as i64,
        },
        _ => r.below(12) as i64,
    }
}
/// like scale_arg, but often at or beside a digit count of one of the run's own numbers
pub fn scale_near(r: &mut Rng, k: Kind, pool: &Pool) -> i64 {
    let own = matches!(k, Kind::Round | Kind::RoundTo | Kind::Str | Kind::Append);
    if !own || pool.v.is_empty() || !r.chance(2, 5) {
        return scale_arg(r, k);
    }
    let d = r.pick(&pool.v);
    let zi = d.f.iter().take_while(|c| **c == b'0').count() as i64;
    let rounding = matches!(k, Kind::Round | Kind::RoundTo);
    let n = match r.below(if rounding { 8 } else { 3 }) {
        0 => d.f.len() as i64,
        1 => zi,
        2 => 9 * (d.f.len() as i64 / 9),
        3 | 4 => -(d.i.len() as i64),
        5 => -9 * ((d.i.len() as i64 + 8) / 9),
        6 => -9 * (d.i.len() as i64 / 9),
        _ => -(r.below(d.i.len() + 1) as i64),
    };
    n + *r.pick(&[0, 0, 0, 1, -1])
}
/// A decimal near the i64 / u64 limits
pub fn near_int(r: &mut Rng) -> Dec {
    let b: i128 = *r.pick(&[i64::MAX as i128, i64::MIN as i128, u64::MAX as i128, 0, 1, 999_999_999_999_999_999, 1_000_000_000_000_000_000, 10_000_000_000_000_000_000, 20_000_000_000_000_000_000]);
    let v = b + r.range(-3, 3) as i128;
    let f = match r.below(4) {
        0 => vec![],
        1 => b"5".to_vec(),
        2 => b"4999999999".to_vec(),
        _ => b"500000000000000000001".to_vec(),
    };
    Dec { neg: v < 0, i: v.abs().to_string().into_bytes(), f }.fix()
}
pub fn parse_op(out: u8, t: Vec<u8>) -> Op {
    Op { out, text: Text::Lit(t), ..Op::new(Kind::Parse) }
}
/// one operation of kind k over the given operand and result locations
pub fn op(r: &mut Rng, k: Kind, pool: &mut Pool, operands: &[u8], outs: &[u8]) -> Op {
    let mut o = Op::new(k);
    if k.uses_a() {
        o.a = *r.pick(operands);
    }
    if k.uses_b() {
        o.b = if r.chance(1, 8) { o.a } else { *r.pick(operands) };
    }
    if k.writes() || k.in_place() {
        o.out = *r.pick(outs);
    }
    o.n = if k.is_parse() { 0 } else { scale_near(r, k, pool) };
    if !matches!(k, Kind::Div | Kind::Round | Kind::RoundTo | Kind::Str | Kind::Append | Kind::FromI64 | Kind::FromU64 | Kind::HashReenter | Kind::HashPanic | Kind::Clone) {
        o.n = 0;
    }
    if k.is_parse() {
        o.text = Text::Lit(if r.chance(1, 5) {
            odd(r)
        } else {
            let d = pool.get(r);
            spell(r, &d)
        });
    }
    let _ = NONE;
    o
}
