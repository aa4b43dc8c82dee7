//! Reference model: an exact signed fixed-point number (90 fractional and 99
//! integral digits) and an independent reader of the accepted text grammar.
use std::cmp::Ordering;

const F: usize = 10; // fractional limbs
const N: usize = 21; // limbs
const B: u32 = 1_000_000_000;

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct Big {
    neg: bool,
    m: [u32; N],
}
impl Big {
    pub fn zero() -> Big {
        Big { neg: false, m: [0; N] }
    }
    /// intg and frac are digit strings
    pub fn from_digits(neg: bool, intg: &[u8], frac: &[u8]) -> Option<Big> {
        let mut r = Big::zero();
        for (i, c) in intg.iter().rev().enumerate() {
            let (l, p) = (F + i / 9, i % 9);
            if *c == b'0' {
                continue;
            }
            if l >= N {
                return None;
            }
            r.m[l] += (*c - b'0') as u32 * 10u32.pow(p as u32);
        }
        for (i, c) in frac.iter().enumerate() {
            if *c == b'0' {
                continue;
            }
            if i / 9 >= F {
                return None;
            }
            r.m[F - 1 - i / 9] += (*c - b'0') as u32 * 10u32.pow(8 - (i % 9) as u32);
        }
        r.neg = neg && !r.is_zero();
        Some(r)
    }
    pub fn is_zero(&self) -> bool {
        self.m.iter().all(|x| *x == 0)
    }
    pub fn neg(&self) -> Big {
        let mut r = self.clone();
        r.neg = !r.neg && !r.is_zero();
        r
    }
    pub fn cmp_abs(&self, o: &Big) -> Ordering {
        for i in (0..N).rev() {
            match self.m[i].cmp(&o.m[i]) {
                Ordering::Equal => {}
                x => return x,
            }
        }
        Ordering::Equal
    }
    pub fn add(&self, o: &Big) -> Big {
        let mut r = Big::zero();
        if self.neg == o.neg {
            let mut c = 0;
            for i in 0..N {
                let v = self.m[i] + o.m[i] + c;
                r.m[i] = v % B;
                c = v / B;
            }
            assert!(c == 0, "model overflow");
            r.neg = self.neg;
        } else {
            let (x, y) = if self.cmp_abs(o) != Ordering::Less { (self, o) } else { (o, self) };
            let mut bw = 0i64;
            for i in 0..N {
                let mut v = x.m[i] as i64 - y.m[i] as i64 - bw;
                bw = 0;
                if v < 0 {
                    v += B as i64;
                    bw = 1;
                }
                r.m[i] = v as u32;
            }
            r.neg = x.neg;
        }
        r.neg &= !r.is_zero();
        r
    }
    pub fn sub(&self, o: &Big) -> Big {
        self.add(&o.neg())
    }
    /// number of significant 9-digit integral groups
    pub fn intg_units(&self) -> usize {
        let mut n = N;
        while n > F && self.m[n - 1] == 0 {
            n -= 1;
        }
        n - F
    }
    /// number of significant integral digits
    pub fn intg_digits(&self) -> usize {
        let n = self.intg_units();
        if n == 0 {
            return 0;
        }
        (n - 1) * 9 + self.m[F + n - 1].to_string().len()
    }
    pub fn from_i128(mut v: i128) -> Big {
        let mut r = Big::zero();
        r.neg = v < 0;
        v = v.abs();
        let mut i = F;
        while v > 0 {
            r.m[i] = (v % B as i128) as u32;
            v /= B as i128;
            i += 1;
        }
        r
    }
    /// shortest exact text
    pub fn text(&self) -> String {
        let mut s = String::new();
        if self.neg {
            s.push('-');
        }
        let n = self.intg_units();
        if n == 0 {
            s.push('0');
        }
        for i in (0..n).rev() {
            if i == n - 1 {
                s += &self.m[F + i].to_string();
            } else {
                s += &format!("{:09}", self.m[F + i]);
            }
        }
        let mut f = String::new();
        for i in (0..F).rev() {
            f += &format!("{:09}", self.m[i]);
        }
        let f = f.trim_end_matches('0');
        if !f.is_empty() {
            s.push('.');
            s += f;
        }
        s
    }
}
impl PartialOrd for Big {
    fn partial_cmp(&self, o: &Big) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Big {
    fn cmp(&self, o: &Big) -> Ordering {
        match (self.neg, o.neg) {
            (false, true) => Ordering::Greater,
            (true, false) => Ordering::Less,
            (false, false) => self.cmp_abs(o),
            (true, true) => o.cmp_abs(self),
        }
    }
}

/// A text of the accepted grammar, read exactly as it stands.
#[derive(Clone, Debug)]
pub struct Num {
    pub neg: bool,
    pub intg: Vec<u8>,
    pub frac: Vec<u8>,
}
impl Num {
    pub fn big(&self) -> Big {
        Big::from_digits(self.neg, &self.intg, &self.frac).expect("model range")
    }
    /// the full text the library must print for it
    pub fn canonical(&self) -> Vec<u8> {
        let mut v = Vec::new();
        let zero = self.intg.iter().chain(&self.frac).all(|c| *c == b'0');
        if self.neg && !zero {
            v.push(b'-');
        }
        let i = self.intg.iter().position(|c| *c != b'0').unwrap_or(self.intg.len());
        if i == self.intg.len() {
            v.push(b'0');
        } else {
            v.extend_from_slice(&self.intg[i..]);
        }
        if !self.frac.is_empty() {
            v.push(b'.');
            v.extend_from_slice(&self.frac);
        }
        v
    }
}

/// None: the text must be rejected.
pub fn read(bs: &[u8]) -> Option<Num> {
    let mut p = bs;
    let mut neg = false;
    if let Some(c) = p.first() {
        if *c == b'-' || *c == b'+' {
            neg = *c == b'-';
            p = &p[1..];
        }
    }
    let (mut ip, mut fp, mut dot) = (Vec::new(), Vec::new(), false);
    let mut k = 0;
    while k < p.len() {
        match p[k] {
            c @ b'0'..=b'9' => {
                if dot {
                    fp.push(c)
                } else {
                    ip.push(c)
                }
            }
            b'.' if !dot => dot = true,
            _ => break,
        }
        k += 1;
    }
    if ip.is_empty() && fp.is_empty() {
        return None;
    }
    let mut exp: i64 = 0;
    if k < p.len() {
        if p[k] != b'e' && p[k] != b'E' {
            return None;
        }
        let mut e = &p[k + 1..];
        let mut eneg = false;
        if let Some(c) = e.first() {
            if *c == b'-' || *c == b'+' {
                eneg = *c == b'-';
                e = &e[1..];
            }
        }
        if e.is_empty() || !e.iter().all(|c| c.is_ascii_digit()) {
            return None;
        }
        let z = e.iter().position(|c| *c != b'0').unwrap_or(e.len());
        let sig = &e[z..];
        if sig.len() > 3 {
            return None;
        }
        for c in sig {
            exp = exp * 10 + (*c - b'0') as i64;
        }
        if (!eneg && exp > 65) || (eneg && exp > 30) {
            return None;
        }
        if eneg {
            exp = -exp;
        }
    }
    // write the number out
    let mut all = ip.clone();
    all.extend_from_slice(&fp);
    let scale = fp.len() as i64 - exp;
    let (intg, frac);
    if scale <= 0 {
        all.resize(all.len() + (-scale) as usize, b'0');
        intg = all;
        frac = Vec::new();
    } else {
        let scale = scale as usize;
        if all.len() > scale {
            frac = all.split_off(all.len() - scale);
            intg = all;
        } else {
            let mut z = vec![b'0'; scale - all.len()];
            z.extend_from_slice(&all);
            intg = Vec::new();
            frac = z;
        }
    }
    let digits = intg.len() + frac.len();
    if digits > 65 {
        return None;
    }
    Some(Num { neg, intg, frac })
}

/// Value of a full text as printed by the library ("-12.50"), of any length.
pub fn value_of(text: &[u8]) -> Option<(Big, usize, usize)> {
    let (neg, p) = match text.first() {
        Some(b'-') => (true, &text[1..]),
        _ => (false, text),
    };
    let d = p.iter().position(|c| *c == b'.');
    let (i, f): (&[u8], &[u8]) = match d {
        Some(d) => (&p[..d], &p[d + 1..]),
        None => (p, &[]),
    };
    if i.is_empty() || (d.is_some() && f.is_empty()) || !i.iter().chain(f).all(|c| c.is_ascii_digit()) {
        return None;
    }
    Some((Big::from_digits(neg, i, f)?, i.len(), f.len()))
}
