//! C12, C13: every outcome in the recorded history of a faulty multi-caller
//! run refines exact arithmetic on digit strings. C14: a hash index.
use crate::exec::*;
use crate::gen::*;
use crate::model;
use crate::props::*;
use crate::rng::{hash_bytes, mix, Rng};
use crate::rt;
use crate::scen::*;
use fxdshim::{FixedDecimal, Kind};
use std::cmp::Ordering;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};

// ------------------------------------------------- natural numbers, base 1e9
const B: u64 = 1_000_000_000;
type Nat = Vec<u32>;
fn norm(mut a: Nat) -> Nat {
    while a.last() == Some(&0) {
        a.pop();
    }
    a
}
fn nat(digits: &[u8]) -> Nat {
    norm(digits.rchunks(9).map(|c| c.iter().fold(0, |v, d| v * 10 + (*d - b'0') as u32)).collect())
}
fn cmp(a: &Nat, b: &Nat) -> Ordering {
    a.len().cmp(&b.len()).then_with(|| a.iter().rev().cmp(b.iter().rev()))
}
fn add(a: &Nat, b: &Nat) -> Nat {
    let mut r = Vec::new();
    let mut c = 0;
    for i in 0..a.len().max(b.len()) {
        let v = a.get(i).copied().unwrap_or(0) + b.get(i).copied().unwrap_or(0) + c;
        r.push(v % B as u32);
        c = v / B as u32;
    }
    r.push(c);
    norm(r)
}
/// a - b, a >= b
fn sub(a: &Nat, b: &Nat) -> Nat {
    let mut r = Vec::new();
    let mut c = 0i64;
    for i in 0..a.len() {
        let v = a[i] as i64 - b.get(i).copied().unwrap_or(0) as i64 - c;
        c = (v < 0) as i64;
        r.push((v + c * B as i64) as u32);
    }
    assert!(c == 0);
    norm(r)
}
fn mul(a: &Nat, b: &Nat) -> Nat {
    let mut r = vec![0u64; a.len() + b.len() + 1];
    for (i, x) in a.iter().enumerate() {
        let mut c = 0;
        for (j, y) in b.iter().enumerate() {
            let v = *x as u64 * *y as u64 + r[i + j] + c;
            r[i + j] = v % B;
            c = v / B;
        }
        let mut k = i + b.len();
        while c > 0 {
            let v = r[k] + c;
            r[k] = v % B;
            c = v / B;
            k += 1;
        }
    }
    norm(r.into_iter().map(|x| x as u32).collect())
}
fn mul1(a: &Nat, q: u32) -> Nat {
    mul(a, &vec![q])
}
/// one digit of the quotient at a time, each found by bisection
fn divmod(a: &Nat, b: &Nat) -> (Nat, Nat) {
    let (mut q, mut r) = (Vec::new(), Nat::new());
    for d in a.iter().rev() {
        r.insert(0, *d);
        r = norm(r);
        let (mut lo, mut hi) = (0u32, B as u32);
        if cmp(b, &r) == Ordering::Greater {
            hi = 1;
        }
        while hi - lo > 1 {
            let m = lo + (hi - lo) / 2;
            if cmp(&mul1(b, m), &r) == Ordering::Greater {
                hi = m
            } else {
                lo = m
            }
        }
        if lo > 0 {
            r = sub(&r, &mul1(b, lo));
        }
        q.push(lo);
    }
    q.reverse();
    (norm(q), r)
}
fn pow10(n: usize) -> Nat {
    let mut v = vec![0; n / 9];
    v.push(10u32.pow((n % 9) as u32));
    v
}
fn digits(a: &Nat) -> usize {
    a.last().map_or(0, |t| (a.len() - 1) * 9 + t.to_string().len())
}

/// a decimal as printed: m / 10^s
#[derive(Clone, Debug)]
pub struct X {
    neg: bool,
    m: Nat,
    s: usize,
}
impl X {
    fn of(t: &[u8]) -> Option<X> {
        let (neg, p) = match t.first() {
            Some(b'-') => (true, &t[1..]),
            _ => (false, t),
        };
        let k = p.iter().position(|c| *c == b'.').unwrap_or(p.len());
        let f: &[u8] = if k < p.len() { &p[k + 1..] } else { &[] };
        if k == 0 || (k < p.len() && f.is_empty()) || (k > 1 && p[0] == b'0') || !p[..k].iter().chain(f).all(|c| c.is_ascii_digit()) {
            return None;
        }
        let all: Vec<u8> = p[..k].iter().chain(f).copied().collect();
        Some(X { neg, m: nat(&all), s: f.len() })
    }
    fn zero(&self) -> bool {
        self.m.is_empty()
    }
    fn negzero(&self) -> bool {
        self.neg && self.zero()
    }
    /// m of the same number written with scale s
    fn at(&self, s: usize) -> Nat {
        mul(&self.m, &pow10(s - self.s))
    }
    /// integral digits, leading zeros excluded
    fn id(&self) -> usize {
        digits(&self.m).saturating_sub(self.s)
    }
    fn iu(&self) -> usize {
        self.id().div_ceil(9)
    }
    fn fu(&self) -> usize {
        self.s.div_ceil(9)
    }
    fn same(&self, o: &X) -> bool {
        cmp_x(self, o) == Ordering::Equal
    }
    fn text(&self) -> String {
        let mut t: String = self.m.iter().rev().map(|u| format!("{:09}", u)).collect();
        while t.len() <= self.s {
            t.insert(0, '0');
        }
        let i = t.len() - self.s;
        let r = format!("{}{}{}{}", if self.neg { "-" } else { "" }, match t[..i].trim_start_matches('0') {
            "" => "0",
            x => x,
        }, if self.s > 0 { "." } else { "" }, &t[i..]);
        r
    }
}
fn cmp_x(a: &X, b: &X) -> Ordering {
    let s = a.s.max(b.s);
    let c = cmp(&a.at(s), &b.at(s));
    match (a.neg && !a.zero(), b.neg && !b.zero()) {
        (false, false) => c,
        (true, true) => c.reverse(),
        (false, true) => Ordering::Greater,
        (true, false) => Ordering::Less,
    }
}
fn sum(a: &X, b: &X, minus: bool) -> X {
    let s = a.s.max(b.s);
    let (x, y) = (a.at(s), b.at(s));
    let bn = b.neg != minus;
    if a.neg == bn {
        X { neg: a.neg, m: add(&x, &y), s }
    } else if cmp(&x, &y) != Ordering::Less {
        X { neg: a.neg, m: sub(&x, &y), s }
    } else {
        X { neg: bn, m: sub(&y, &x), s }
    }
}
/// |a| / |b| cut off at scale s
fn quot(a: &X, b: &X, s: usize) -> Nat {
    // a.m/10^a.s / (b.m/10^b.s) * 10^s
    let (n, d) = (mul(&a.m, &pow10(b.s + s)), mul(&b.m, &pow10(a.s)));
    divmod(&n, &d).0
}
/// nearest multiple of 10^-n, ties away from zero (n < 0: integral digits)
pub fn rounded(a: &X, n: i64) -> X {
    if n >= a.s as i64 {
        return a.clone();
    }
    let k = (a.s as i64).saturating_sub(n) as usize;
    if k > digits(&a.m) + 1 {
        return X { neg: false, m: vec![], s: n.max(0) as usize };
    }
    let p = pow10(k);
    let (mut q, r) = divmod(&a.m, &p);
    if cmp(&add(&r, &r), &p) != Ordering::Less {
        q = add(&q, &vec![1]);
    }
    if n < 0 {
        q = mul(&q, &pow10(-n as usize));
    }
    X { neg: a.neg && !q.is_empty(), m: q, s: n.max(0) as usize }
}

// ------------------------------------------------------------- the judge
type Tx = Option<(Vec<u8>, bool, u8)>;
fn arith(k: Kind, r: &Rec, n: i64, a: &X, b: &X, out: &Tx) -> Result<(), String> {
    use Kind::*;
    let tag = if k.is_operator() && r.tag == T_PANIC { 255 } else { r.tag };
    let failed = tag != 0;
    let pan = |d: &str| Err(format!("{} ({} and {}): {}", d, a.text(), b.text(), tag_name(r.tag)));
    let n = if k == OpDiv { 4 } else { n };
    let (over, zdiv) = (matches!(tag, 3 | 255), matches!(tag, 2 | 255));
    if failed && !over && !zdiv {
        return pan("unexpected outcome");
    }
    // must it, may it fail?
    let mut p = X { neg: a.neg != b.neg, m: vec![], s: 0 };
    let mut frac_units = 9;
    match k {
        Add | Sub | OpAdd | OpSub => {
            p = sum(a, b, matches!(k, Sub | OpSub));
            let may = a.iu().max(b.iu()).max(p.iu()) + a.fu().max(b.fu()) > 9;
            if failed {
                return if over && may { Ok(()) } else { pan("the sum fits but was refused") };
            }
        }
        Mul | OpMul => {
            if !a.zero() && !b.zero() {
                p.m = mul(&a.m, &b.m);
                p.s = a.s + b.s;
            }
            if failed {
                return if over && a.id() + b.id() > 81 { Ok(()) } else { pan("the product fits but was refused") };
            }
            let iu = (a.id() + b.id()).div_ceil(9);
            frac_units = 9usize.saturating_sub(iu).min(4);
        }
        Div | OpDiv | Rem | OpRem => {
            if b.zero() {
                return if zdiv { Ok(()) } else { pan("division by zero not reported") };
            }
            if matches!(k, Rem | OpRem) {
                if failed {
                    return pan("a remainder always fits but was refused");
                }
                let q = X { neg: a.neg != b.neg, m: quot(a, b, 0), s: 0 };
                let t = X { neg: q.neg != b.neg, m: mul(&q.m, &b.m), s: b.s };
                p = sum(a, &t, true);
            } else {
                let q = X { neg: false, m: quot(a, b, 0), s: 0 };
                if failed {
                    return if over && q.iu() > 9 { Ok(()) } else { pan("the quotient fits but was refused") };
                }
                frac_units = 9usize.saturating_sub(q.iu());
            }
        }
        _ => return Ok(()),
    }
    let (t, neg, scale) = match out {
        Some(t) => t,
        None => return pan("the result cannot be printed"),
    };
    let v = match X::of(t) {
        Some(v) if v.s == *scale as usize => v,
        _ => return pan(&format!("the result prints as {} with scale {}", esc(t), scale)),
    };
    let bad = |want: String| -> Result<(), String> { Err(format!("{} and {}: result {} instead of {}", a.text(), b.text(), esc(t), want)) };
    if v.zero() && *neg && !a.negzero() && !b.negzero() {
        return bad("zero without a sign".into());
    }
    match k {
        Mul | OpMul => {
            let keep = p.s.min(9 * frac_units);
            if p.s <= 9 * frac_units {
                if !v.same(&p) {
                    return bad(p.text());
                }
            } else {
                // cut off: never larger, and less than 20 units of the last kept group smaller
                let s = p.s.max(v.s);
                let (x, y) = (v.at(s), p.at(s));
                let low = cmp(&x, &y) == Ordering::Greater || cmp(&sub(&y, &x), &mul(&vec![20], &pow10(s - 9 * frac_units))) != Ordering::Less;
                if low || (v.neg != p.neg && !v.zero()) {
                    return bad(format!("{} cut off after {} digits", p.text(), keep));
                }
            }
            if !p.zero() && v.s != keep {
                return bad(format!("scale {}", keep));
            }
        }
        Div | OpDiv => {
            if a.zero() {
                return if v.zero() { Ok(()) } else { bad("0".into()) };
            }
            p = X { neg: a.neg != b.neg, m: quot(a, b, v.s), s: v.s };
            if !v.same(&p) {
                return bad(p.text());
            }
            let want = (a.s + b.s).saturating_add(n as usize).min(36).min(9 * frac_units);
            if v.s < want {
                return bad(format!("at least {} fractional digits", want));
            }
        }
        _ => {
            if !v.same(&p) {
                return bad(p.text());
            }
            let clear = matches!(k, Rem | OpRem) && v.zero();
            if !a.zero() && !b.zero() && !clear && v.s != a.s.max(b.s) {
                return bad(format!("scale {}", a.s.max(b.s)));
            }
        }
    }
    Ok(())
}
fn rest(o: &Op, r: &Rec, a: Option<&X>, b: Option<&X>, pre: Option<&X>, out: &Tx, at: &Tx) -> Result<(), String> {
    use Kind::*;
    let bad = |want: String| -> Result<(), String> {
        Err(format!(
            "{}{}{}: {}, output {}, value {} instead of {}",
            a.map_or("".into(), |v| format!("a = {} ", v.text())),
            b.map_or("".into(), |v| format!("b = {} ", v.text())),
            pre.map_or("".into(), |v| format!("old = {}", v.text())),
            tag_name(r.tag),
            esc(r.aux()),
            tshow(out),
            want
        ))
    };
    let res = || out.as_ref().and_then(|t| X::of(&t.0).filter(|v| v.s == t.2 as usize));
    let value = |want: X, scale: &dyn Fn(usize) -> bool| -> Result<(), String> {
        match res() {
            Some(v) if r.tag == 0 && v.same(&want) && scale(v.s) => Ok(()),
            _ => bad(want.text()),
        }
    };
    let int = |v: i128| X { neg: v < 0, m: nat(v.unsigned_abs().to_string().as_bytes()), s: 0 };
    match o.kind {
        Round | RoundTo => {
            let v = match if o.kind == Round { pre } else { a } {
                Some(v) => v,
                None => return Ok(()),
            };
            let n = o.n;
            let want = rounded(v, n);
            if want.id() > 81 {
                return Ok(()); // no room for the carry
            }
            if r.tag == 0 && want.zero() && !v.zero() && out.as_ref().map_or(false, |t| t.1) {
                return bad("zero without a sign".into());
            }
            let wiu = want.iu();
            if n >= v.s as i64 {
                let room = 9 * (9usize.saturating_sub(v.iu()));
                let lo = (n as u64).min(room as u64) as usize;
                value(want, &|s| s >= v.s && s >= lo && s as i64 <= n.max(v.s as i64))
            } else {
                let n = n.max(0) as usize;
                value(want, &|s| s == n || (s < n && wiu + n.div_ceil(9) > 9))
            }
        }
        AsI64 | AsU64 => {
            let v = match a {
                Some(v) => v,
                None => return Ok(()),
            };
            let (lo, hi) = if o.kind == AsI64 { (i64::MIN as i128, i64::MAX as i128) } else { (0, u64::MAX as i128) };
            let w = rounded(v, 0);
            let fits = |x: &X| cmp_x(x, &int(lo)) != Ordering::Less && cmp_x(x, &int(hi)) != Ordering::Greater;
            if r.tag == 4 {
                return if fits(v) && !v.negzero() { bad(w.text()) } else { Ok(()) };
            }
            if r.tag != 0 || r.aux_len != 8 || !fits(v) || !fits(&w) {
                return bad(if fits(v) && fits(&w) { w.text() } else { "a range error".into() });
            }
            let by: [u8; 8] = r.aux()[..8].try_into().unwrap();
            let got = if o.kind == AsI64 { i64::from_le_bytes(by) as i128 } else { u64::from_le_bytes(by) as i128 };
            if !int(got).same(&w) {
                return Err(format!("{} converted to {} instead of {}", v.text(), got, w.text()));
            }
            Ok(())
        }
        FromI64 => value(int(o.n as i128), &|s| s == 0),
        FromU64 => value(int(o.n as u64 as i128), &|s| s == 0),
        SetZero | Zero => value(int(0), &|s| s == 0),
        SetOne | One => value(int(1), &|s| s == 0),
        Clone => match a {
            Some(v) => value(v.clone(), &|s| s == v.s),
            None => Ok(()),
        },
        SetNeg | SetPos => match pre {
            Some(v) => value(X { neg: o.kind == SetNeg, ..v.clone() }, &|s| s == v.s),
            None => Ok(()),
        },
        Str | Append => {
            let t = match at {
                Some(t) => t.0.clone(),
                None => return Ok(()),
            };
            let mut want = t.clone();
            if o.n >= 0 {
                let k = t.iter().position(|c| *c == b'.').unwrap_or(t.len());
                want.truncate(k);
                let f = if k < t.len() { &t[k + 1..] } else { &[] };
                if o.n > 0 {
                    want.push(b'.');
                    for i in 0..o.n as usize {
                        want.push(f.get(i).copied().unwrap_or(b'0'));
                    }
                }
            }
            want.truncate(r.aux.len());
            if r.tag != 0 || r.aux() != &want[..] {
                return bad(esc(&want));
            }
            Ok(())
        }
        Cmp | Eq => {
            let (a, b) = match (a, b) {
                (Some(a), Some(b)) => (a, b),
                _ => return Ok(()),
            };
            let c = cmp_x(a, b);
            let want = if o.kind == Cmp { b"<=>"[(c as i8 + 1) as usize] } else { b"!="[(c == Ordering::Equal) as usize] };
            if r.tag != 0 || r.aux() != &[want] {
                return bad((want as char).into());
            }
            Ok(())
        }
        Intro => {
            let (v, t) = match (a, at) {
                (Some(v), Some(t)) => (v, t),
                _ => return Ok(()),
            };
            let x = r.aux();
            let sign = t.0.first() == Some(&b'-');
            if r.tag != 0 || x.len() != 6 || (x[0] != 0) != sign || (x[1] != 0) != v.zero() || x[3] as usize != v.s || (x[4] as usize) < v.iu() || x[5] as usize != v.fu() || (x[2] as usize).div_ceil(9) != x[4] as usize {
                return bad(format!("sign {}, zero {}, scale {}, {} and {} groups", sign, v.zero(), v.s, v.iu(), v.fu()));
            }
            Ok(())
        }
        Parse | ParseAscii | FromStr => {
            let t = match &o.text {
                Text::Lit(t) => t,
                _ => return Ok(()),
            };
            match model::read(t) {
                None => {
                    if r.tag != 1 {
                        return bad("a syntax error".into());
                    }
                }
                Some(n) => {
                    let c = n.canonical();
                    if r.tag != 0 || out.as_ref().map_or(true, |x| x.0 != c || (x.1 && !c.starts_with(b"-")) || x.2 as usize != n.frac.len()) {
                        return bad(esc(&c));
                    }
                }
            }
            Ok(())
        }
        _ => Ok(()),
    }
}

const ARITH: &[Kind] = {
    use Kind::*;
    &[Add, Sub, Mul, Div, Rem, Add, Sub, Mul, Div, Rem, OpAdd, OpSub, OpMul, OpDiv, OpRem]
};
const OTHER: &[Kind] = {
    use Kind::*;
    &[Round, RoundTo, Round, RoundTo, AsI64, AsU64, FromI64, FromU64, Str, Append, Cmp, Eq, Intro, SetNeg, SetPos, SetZero, SetOne, Zero, One, Clone, Parse, ParseAscii, FromStr]
};
/// dividends and divisors that need the rare corrections of long division
fn hard(r: &mut Rng) -> (Dec, Dec) {
    if r.chance(2, 5) {
        // three and more groups in the divisor, and a dividend just below or at a multiple of it
        let mut v = dec(r, 4, 20);
        while v.i.len() + v.f.len() < 19 {
            v.i.extend_from_slice(format!("{:09}", unit(r)).as_bytes());
        }
        let mut u = v.clone();
        if r.chance(2, 3) {
            multiple(r, &mut u);
        } else {
            if r.chance(2, 3) {
                // just below a whole number of groups
                let (n, k) = (9 * (3 + r.below(4)), r.below(9));
                let f = *r.pick(&[0, 0, 9, 18]);
                u.i.truncate(k);
                u.i.resize(k + n - f, b'9');
                u.f = vec![b'9'; f];
                v = u.clone();
            }
            factor(r, &mut v);
        }
        return (u.fix(), v.fix());
    }
    let group = |r: &mut Rng| -> u32 { *r.pick(&[0, 0, 1, 999_999_999, 999_999_999, 999_999_998, 500_000_000, 499_999_999, 500_000_001, 333_333_333, 2]) };
    let nv = 2 + r.below(3);
    let nu = nv + r.below(4);
    let text = |r: &mut Rng, n: usize, first: u32| -> Vec<u8> {
        let mut t = Vec::new();
        for i in 0..n {
            let u = if i == 0 { first } else { group(r) };
            t.extend_from_slice(format!("{:09}", u).as_bytes());
        }
        t
    };
    let top = *r.pick(&[500_000_000u32, 500_000_000, 500_000_001, 999_999_999, 1, 2, 250_000_000, 333_333_333, 499_999_999, 99_999_999]);
    let v = text(r, nv, top);
    let utop = *r.pick(&[top, top, top / 2, top.saturating_mul(3).min(999_999_999), 1, 749_999_999, 999_999_999]);
    let u = if r.chance(1, 3) {
        // a multiple of the divisor, give or take one
        let q = nat(format!("{}", *r.pick(&[999_999_999u64, 1_000_000_000, 999_999_999_999_999_999, 1_000_000_001, 500_000_000, 333_333_333_333])).as_bytes());
        let mut m = mul(&nat(&v), &q);
        match r.below(4) {
            0 => m = add(&m, &vec![1]),
            1 => m = sub(&m, &vec![1]),
            2 => m = add(&m, &sub(&nat(&v), &vec![1])),
            _ => {}
        }
        X { neg: false, m, s: 0 }.text().into_bytes()
    } else {
        text(r, nu, utop)
    };
    let mk = |r: &mut Rng, t: Vec<u8>| {
        let f = *r.pick(&[0, 0, 0, 9, 18, 4, 27, 1]);
        let mut i = t;
        let f = f.min(i.len());
        let fr = i.split_off(i.len() - f);
        Dec { neg: r.chance(1, 4), i, f: fr }.fix()
    };
    (mk(r, u), mk(r, v))
}
/// values at which rounding and conversion change their mind
fn edge(r: &mut Rng) -> Dec {
    let n = r.below(40);
    let mut i: Vec<u8> = (0..n).map(|_| b'9').collect();
    if r.chance(1, 2) && n > 0 {
        let k = r.below(n);
        i[k] = *r.pick(b"01458");
    }
    let tail: &[u8] = *r.pick(&[&b"5"[..], b"4", b"49", b"50", b"499999999", b"500000000", b"4999999999", b"5000000001", b"9", b"0"]);
    let z = r.below(28);
    let mut f: Vec<u8> = (0..z).map(|_| *r.pick(b"99990")).collect();
    f.extend_from_slice(tail);
    if r.chance(1, 4) {
        f.clear();
        i.extend_from_slice(tail);
    }
    Dec { neg: r.chance(1, 3), i, f }.fix()
}

/// All nine groups full of nines, which takes adding to make: the next unit
/// above, or a round, carries out of the top. Gives its number of decimals.
fn brim(r: &mut Rng, sc: &mut Scen, at: u8, with: u8) -> i64 {
    let g = 5 + r.below(3);
    let mut i = vec![b'9'; 9 * g - if r.chance(1, 5) { r.below(3) } else { 0 }];
    let mut f = vec![b'9'; if r.chance(2, 3) { 9 * (9 - g) - r.below(9) } else { 1 + r.below(30) }];
    f.truncate(30);
    for v in [&mut i, &mut f] {
        if r.chance(1, 4) {
            let k = r.below(v.len());
            v[k] = *r.pick(b"0458");
        }
    }
    let n = f.len();
    if r.chance(1, 2) {
        f[n - 1] = *r.pick(b"45");
    }
    let neg = r.chance(1, 3);
    sc.push_init(parse_op(at, Dec { neg, i, f: vec![] }.fix().text()));
    sc.push_init(parse_op(with, Dec { neg, i: vec![], f }.fix().text()));
    sc.push_init(Op { out: at, a: at, b: with, ..Op::new(Kind::Add) });
    n as i64
}

pub fn gen(r: &mut Rng, sc: &mut Scen, arith: bool) {
    let nt = *r.pick(&[1, 1, 2, 2, 3]);
    let mut pool = Pool::new(r);
    let mut pairs = Vec::new();
    if arith && r.chance(2, 3) {
        for _ in 0..1 + r.below(2) {
            let (u, v) = hard(r);
            pool.v.push(u.clone());
            pool.v.push(v.clone());
            if r.chance(2, 3) {
                pairs.push((u, v));
            }
        }
    }
    if !arith {
        for _ in 0..r.below(4) {
            let d = if r.chance(1, 3) { near_int(r) } else { edge(r) };
            pool.v.push(d);
        }
    }
    let ns = 1 + r.below(5);
    let shared: Vec<u8> = (0..ns).map(sl).collect();
    pairs.truncate(ns / 2);
    for i in 0..ns {
        match pairs.get(i / 2) {
            Some(p) => {
                let t = spell(r, if i % 2 == 0 { &p.0 } else { &p.1 });
                sc.push_init(parse_op(sl(i), t));
            }
            None => init_value(r, sc, &mut pool, sl(i), &shared[..i]),
        }
    }
    for t in 0..nt {
        for k in 0..2 {
            init_value(r, sc, &mut pool, rl(t * 5 + k), &shared);
        }
    }
    let full = r.chance(1, if arith { 24 } else { 8 }).then(|| [brim(r, sc, sl(0), rl(0)), brim(r, sc, rl(0), rl(1))]);
    let mut kinds = EVERY.to_vec();
    for _ in 0..3 {
        kinds.extend(if arith { ARITH } else { OTHER });
    }
    let mixk = Mix::new(r, &kinds);
    let per = 2 + r.below(if nt == 1 { 20 } else { 8 });
    let mut list: Vec<Vec<Op>> = Vec::new();
    for t in 0..nt {
        let mine: Vec<u8> = (0..4).map(|k| rl(t * 5 + k)).collect();
        let mut opn = mine.clone();
        opn.extend(&shared);
        let mut v = Vec::new();
        for _ in 0..per {
            let k = mixk.pick(r);
            let mut o = op(r, k, &mut pool, &opn, &mine);
            o.thr = t as u8;
            if matches!(k, Kind::Div | Kind::Rem | Kind::OpDiv | Kind::OpRem) && !pairs.is_empty() && r.chance(1, 3) {
                // the two that were made for each other
                let p = r.below(pairs.len());
                (o.a, o.b) = (sl(2 * p), sl(2 * p + 1));
            }
            if let Some(f) = full {
                let n = |r: &mut Rng, k: usize| if r.chance(4, 5) { f[k] - 1 - r.below(10) as i64 } else { -(r.below(64) as i64) };
                if k == Kind::RoundTo && r.chance(1, 2) {
                    (o.a, o.n) = (sl(0), n(r, 0));
                }
                if k == Kind::Round && t == 0 && r.chance(1, 2) {
                    (o.out, o.n) = (rl(0), n(r, 1));
                }
            }
            if k == Kind::Div && r.chance(1, 8) {
                o.n = *r.pick(&[36, 37, 80, 81, 1000, i64::MAX]);
            }
            if matches!(k, Kind::Round | Kind::RoundTo) && r.chance(1, 20) {
                o.n = *r.pick(&[i64::MAX, i64::MIN, i64::MIN + 1, 127, 128, -127, -128, -129, 255, 256, -256, 81, 82, -81, -82]);
            }
            v.push(o);
        }
        list.push(v);
    }
    while list.iter().any(|v| !v.is_empty()) {
        let t = r.below(nt);
        if !list[t].is_empty() {
            let o = list[t].remove(0);
            sc.push_op(o);
        }
    }
    for (k, p) in [("cold", 4), ("dirty", 2), ("amb", 3)] {
        if r.chance(1, p) {
            let v = if k == "cold" { 1 } else { 1 + r.below(1 << 30) as i64 };
            sc.lines.push(Line::Cfg(k.into(), v));
        }
    }
    let ne = *r.pick(&[0, 1, 1, 2, 3, 6]);
    if ne == 0 || (nt == 1 && r.chance(1, 2)) {
        return;
    }
    let (inits, opts) = options(sc);
    let ops = cl(&sc.ops());
    let p = run(&inits, &ops, &[], &opts);
    let mut gone = HashSet::new();
    for _ in 0..ne {
        let i = r.below(ops.len());
        if p.recs[i].done == 0 {
            continue;
        }
        let pos = position(r, &p.recs[i]);
        if nt == 1 || r.chance(1, 3) {
            if gone.len() < 3 && gone.insert(i) {
                sc.lines.push(Line::Ev { op: ops[i].id, pos, fault: Fault::Abandon });
            }
        } else {
            let to = (ops[i].thr as usize + 1 + r.below(nt - 1)) % nt;
            sc.lines.push(Line::Ev { op: ops[i].id, pos, fault: Fault::Sw(to as u8) });
        }
    }
}
fn options(sc: &Scen) -> (Vec<Op>, Opts) {
    let (inits, mut opts) = begin(sc);
    opts.amb = sc.cfg("amb", 0) as u64;
    opts.dirty = sc.cfg("dirty", 0) as u64;
    (inits, opts)
}
pub fn check(sc: &Scen, env: &mut Env, arithmetic: bool) -> Check {
    let (inits, opts) = options(sc);
    let ops = cl(&sc.ops());
    if ops.is_empty() {
        return Ok(());
    }
    let o = run(&inits, &ops, &sc.evs(), &opts);
    env.take(&o);
    if opts.dirty != 0 {
        env.fire("recycled result values", ops.iter().filter(|x| x.kind.writes()).count() as u64);
    }
    if opts.amb != 0 {
        env.fire("other clock, random source, environment and memory layout", 1);
    }
    let mut raws = Vec::new();
    let mut at: HashMap<Raw, usize> = HashMap::new();
    let mut put = |r: &Raw, raws: &mut Vec<Raw>| -> usize {
        *at.entry(*r).or_insert_with(|| {
            raws.push(*r);
            raws.len() - 1
        })
    };
    let idx: Vec<[usize; 4]> = o.recs.iter().map(|r| [put(&r.a, &mut raws), put(&r.b, &mut raws), put(&r.out, &mut raws), put(&r.pre, &mut raws)]).collect();
    let tx = texts(&raws);
    let xs: Vec<Option<X>> = tx.iter().map(|t| t.as_ref().and_then(|t| X::of(&t.0))).collect();
    // what a cut-off call left in its result value is not a number
    let mut torn: HashSet<u8> = HashSet::new();
    for (i, x) in ops.iter().enumerate() {
        let r = &o.recs[i];
        let writes = x.kind.writes() || x.kind.in_place();
        let from_torn = (x.kind.uses_a() && torn.contains(&x.a)) || (x.kind.uses_b() && torn.contains(&x.b)) || (x.kind.in_place() && torn.contains(&x.out));
        if writes {
            // nor is what a failing call leaves there, unless it never saw the value;
            // a recycled value may be torn or half-written by another caller
            let untouched = matches!(x.kind, Kind::FromStr) || x.kind.is_operator();
            let recycled = opts.dirty != 0 && x.kind.writes();
            if (r.done == 0 && r.started != 0) || from_torn || x.kind == Kind::ParseKeep || (r.done != 0 && r.tag != 0 && (!untouched || recycled)) {
                torn.insert(x.out);
            } else if r.done != 0 && r.tag == 0 {
                torn.remove(&x.out);
            }
        }
        if r.done == 0 || from_torn {
            continue;
        }
        let [ia, ib, io, ip] = idx[i];
        let ar = x.kind.is_arith_to() || x.kind.is_operator();
        let (a, b) = (if x.kind.uses_a() { xs[ia].as_ref() } else { None }, if x.kind.uses_b() { xs[ib].as_ref() } else { None });
        if ar != arithmetic {
            continue;
        }
        let res = if ar {
            match (a, b) {
                (Some(a), Some(b)) => arith(x.kind, r, x.n, a, b, &tx[io]),
                _ => continue,
            }
        } else {
            let p = if x.kind.in_place() { xs[ip].as_ref() } else { None };
            rest(x, r, a, b, p, &tx[io], &tx[ia])
        };
        *env.probes.entry("outcomes compared with the exact model").or_default() += 1;
        if let Err(m) = res {
            return viol(if ar { "wrong-result" } else { "wrong-outcome" }, format!("{}: {}", show(x), m));
        }
    }
    if let Some((c, m)) = end_class(&o) {
        // a call that did not come back counts here only if it is one of the judged kinds
        if let Some(i) = (0..ops.len()).rev().find(|i| o.recs[*i].started != 0 && o.recs[*i].done == 0) {
            let ar = ops[i].kind.is_arith_to() || ops[i].kind.is_operator();
            if ar == arithmetic && !sc.evs().iter().any(|e| e.0 == ops[i].id && e.2 == Fault::Abandon) {
                return viol(c, format!("{}: {}", m, show(&ops[i])));
            }
        }
    }
    Ok(())
}

// --------------------------------------------------------- C14: hash index
pub fn gen_index(r: &mut Rng, sc: &mut Scen) {
    let mut pool = Pool::new(r);
    let nr = 3 + r.below(11);
    let regs: Vec<u8> = (0..nr).map(rl).collect();
    for i in 0..nr {
        match r.below(6) {
            0 | 1 if i > 0 => {
                // an earlier value again, by another spelling or route
                let j = r.below(i);
                let same = |sc: &Scen, j: usize| sc.inits().iter().rev().find(|o| o.out == rl(j) && o.kind == Kind::Parse).and_then(|o| match &o.text {
                    Text::Lit(t) => model::read(t),
                    _ => None,
                });
                match (r.below(4), same(sc, j)) {
                    (0, Some(n)) => {
                        let d = Dec { neg: n.neg, i: n.intg.clone(), f: n.frac.clone() }.fix();
                        let t = spell(r, &d);
                        sc.push_init(parse_op(rl(i), t));
                    }
                    (1, _) => {
                        sc.push_init(Op { out: rl(i), a: rl(j), ..Op::new(Kind::Clone) });
                    }
                    (2, _) => {
                        let b = rl(r.below(i));
                        sc.push_init(Op { out: rl(i), a: rl(j), b, ..Op::new(Kind::Add) });
                        sc.push_init(Op { out: rl(i), a: rl(i), b, ..Op::new(Kind::Sub) });
                    }
                    _ => {
                        let n = scale_near(r, Kind::RoundTo, &pool);
                        sc.push_init(Op { out: rl(i), a: rl(j), n, ..Op::new(Kind::RoundTo) });
                    }
                }
            }
            2 => {
                let n = scale_arg(r, Kind::FromI64);
                sc.push_init(Op { out: rl(i), n, ..Op::new(Kind::FromI64) });
            }
            _ => init_value(r, sc, &mut pool, rl(i), &regs[..i]),
        }
        if r.chance(1, 12) {
            sc.push_init(Op { out: rl(i), ..Op::new(*r.pick(&[Kind::SetNeg, Kind::SetZero, Kind::SetPos])) });
            if r.chance(1, 2) {
                sc.push_init(Op { out: rl(i), ..Op::new(Kind::SetNeg) });
            }
        }
    }
    let s = |x: u8| (x - 64).to_string().into_bytes();
    for _ in 0..3 + r.below(30) {
        let x = *r.pick(&regs);
        let l = match r.below(12) {
            0 | 1 => vec![b"del".to_vec(), s(x)],
            2..=4 => vec![b"get".to_vec(), s(x)],
            5 => vec![b"rebuild".to_vec(), (r.below(1000)).to_string().into_bytes()],
            6 => vec![b"shrink".to_vec()],
            7 => vec![b"count".to_vec()],
            8 => vec![b"panic".to_vec(), s(x), (1 + r.below(4)).to_string().into_bytes()],
            _ => vec![b"ins".to_vec(), s(x)],
        };
        sc.lines.push(Line::Act(l));
    }
    for x in &regs {
        sc.lines.push(Line::Act(vec![b"get".to_vec(), s(*x)]));
    }
    sc.lines.push(Line::Act(vec![b"count".to_vec()]));
}
/// keyed by nothing: the same hash in every process; the armed write panics
#[derive(Clone)]
struct Sip {
    h: u64,
    writes: u32,
}
thread_local!(static ARM: std::cell::Cell<u32> = const { std::cell::Cell::new(0) });
impl std::hash::Hasher for Sip {
    fn write(&mut self, b: &[u8]) {
        self.h = hash_bytes(self.h, b);
        self.writes += 1;
        if ARM.with(|a| a.get()) == self.writes {
            ARM.with(|a| a.set(0));
            std::panic::panic_any(0u8);
        }
    }
    fn finish(&self) -> u64 {
        ARM.with(|a| a.set(0));
        mix(self.h)
    }
}
impl Default for Sip {
    fn default() -> Sip {
        Sip { h: 1, writes: 0 }
    }
}
pub fn check_index(sc: &Scen, env: &mut Env) -> Check {
    let inits = cl(&sc.inits());
    let acts: Vec<Vec<Vec<u8>>> = sc.acts().into_iter().cloned().collect();
    let o = run(&inits, &[], &[], &Opts::default());
    if end_class(&o).is_some() {
        return Ok(());
    }
    let mut used: Vec<usize> = inits.iter().filter(|x| x.out != NONE && x.out >= 64).map(|x| x.out as usize - 64).collect();
    used.sort();
    used.dedup();
    used.truncate(32);
    let calls: Vec<Call> = used
        .iter()
        .flat_map(|g| {
            let a = o.regs[64 + g];
            [Call { kind: Kind::Str, a, b: a, out: None, n: -1, text: vec![] }, Call { kind: Kind::Intro, a, b: a, out: None, n: 0, text: vec![] }]
        })
        .collect();
    let res = batch(&calls);
    // one class of spellings per number: the first one decides the groups
    let mut val: BTreeMap<usize, (X, u8, u8)> = BTreeMap::new();
    for (g, p) in used.iter().zip(res.chunks(2)) {
        if let (Some(t), Some(i)) = (&p[0], &p[1]) {
            if t.tag == 0 && i.tag == 0 && i.aux.len() == 6 {
                if let Some(v) = X::of(&t.aux) {
                    let e = (v, i.aux[4], i.aux[5]);
                    if val.values().all(|w| !w.0.same(&e.0) || (w.1 == e.1 && w.2 == e.2)) {
                        val.insert(*g, e);
                    } else {
                        env.probe("equal key left out: other number of groups");
                    }
                }
            }
        }
    }
    let reg = |a: &Vec<Vec<u8>>, i: usize| a.get(i).map_or(0, |x| num(x)).max(0) as usize;
    shm().log_len = 0;
    let ret = in_child(60, || {
        let sh = shm();
        grow_old(&[Kind::Hash, Kind::Eq]);
        let mut log: Vec<u8> = Vec::with_capacity(LOG);
        let vals: BTreeMap<usize, FixedDecimal> = val.keys().map(|g| (*g, from_raw(&o.regs[64 + g]))).collect();
        let mut map: HashMap<FixedDecimal, usize, std::hash::BuildHasherDefault<Sip>> = Default::default();
        for a in &acts {
            let x = reg(a, 1);
            let mut res = 254u8;
            let r = catch_unwind(AssertUnwindSafe(|| {
                rt::begin_op(usize::MAX, 0);
                match (&a[0][..], vals.get(&x)) {
                    (b"ins", Some(v)) => res = map.insert(v.clone(), x).map_or(255, |i| i as u8),
                    (b"panic", Some(v)) => {
                        ARM.with(|c| c.set(reg(a, 2) as u32));
                        res = map.insert(v.clone(), x).map_or(255, |i| i as u8)
                    }
                    (b"del", Some(v)) => res = map.remove(v).map_or(255, |i| i as u8),
                    (b"get", Some(v)) => res = map.get(v).map_or(255, |i| *i as u8),
                    (b"count", _) => res = map.len() as u8,
                    (b"shrink", _) => map.shrink_to_fit(),
                    (b"rebuild", _) => {
                        let mut v: Vec<(FixedDecimal, usize)> = map.drain().collect();
                        v.sort_by_key(|p| p.1);
                        Rng::new(x as u64).shuffle(&mut v);
                        map = Default::default();
                        for (k, i) in v {
                            map.insert(k, i);
                        }
                    }
                    _ => {}
                }
            }));
            ARM.with(|c| c.set(0));
            rt::end_op();
            sh.steps += rt::CTX.with(|c| c.pos.get()) as u64;
            let t = match r {
                Ok(()) => 0,
                Err(e) => panic_tag(&e),
            };
            log.extend_from_slice(&[t, res]);
            sh.log[..log.len()].copy_from_slice(&log);
            sh.log_len = log.len() as u32;
        }
    });
    env.aged();
    let log = shm().log[..shm().log_len as usize].to_vec();
    env.digest = mix(env.digest ^ hash_bytes(1, &log));
    env.steps += shm().steps;
    env.calls += acts.len() as u64;
    env.nontrivial = acts.len() > 2;
    let mut map: Vec<(usize, usize)> = Vec::new(); // key register, payload
    for (j, a) in acts.iter().enumerate() {
        let x = reg(a, 1);
        let line = Line::Act(a.clone()).show();
        let vt = val.get(&x).map_or("?".into(), |v| v.0.text());
        if 2 * j + 1 >= log.len() {
            return viol(if ret == Ret::Ok { "unfinished" } else { "died" }, format!("{} did not finish", line));
        }
        let (tag, got) = (log[2 * j], log[2 * j + 1]);
        if tag == T_HASHER {
            env.fire("hasher panics during an insert", 1);
            continue;
        }
        if tag != 0 {
            return viol("panic", format!("{} ({}) panicked", line, vt));
        }
        let pos = val.get(&x).and_then(|v| map.iter().position(|p| val[&p.0].0.same(&v.0)));
        let was = pos.map_or(255, |p| map[p].1 as u8);
        let want = match (&a[0][..], val.contains_key(&x)) {
            (b"ins", true) | (b"panic", true) => {
                match pos {
                    Some(p) => {
                        env.probe("key replaced under another origin");
                        map[p].1 = x;
                    }
                    None => map.push((x, x)),
                }
                env.fire("insert", 1);
                was
            }
            (b"del", true) => {
                if let Some(p) = pos {
                    map.remove(p);
                }
                was
            }
            (b"get", true) => was,
            (b"count", _) => map.len() as u8,
            (b"rebuild", _) => {
                env.fire("index rebuilt", 1);
                254
            }
            _ => 254,
        };
        if got != want {
            let n = |i: u8| if i == 255 { "none".into() } else { format!("r{}", i) };
            return viol("index", format!("{} ({}): got {} want {}", line, vt, n(got), n(want)));
        }
    }
    Ok(())
}
