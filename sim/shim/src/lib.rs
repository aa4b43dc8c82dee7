//! The only code that calls the library. It is compiled with the same
//! instrumentation as the library, so inlined and generic library code that
//! lands in this crate is also covered by scheduling points.
//! Nothing here allocates (results go to a fixed buffer), so the allocator
//! seam sees the library's own allocations only, except for the kinds whose
//! API returns a heap string.
use fxd::Error;
pub use fxd::FixedDecimal;
use std::hash::{Hash, Hasher};

macro_rules! kinds { ($($k:ident $s:literal),* $(,)?) => {
    #[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
    #[repr(u8)]
    pub enum Kind { $($k),* }
    pub const KINDS: &[Kind] = &[$(Kind::$k),*];
    impl Kind {
        pub fn name(self) -> &'static str { match self { $(Kind::$k => $s),* } }
        pub fn from_name(s: &str) -> Option<Kind> { match s { $($s => Some(Kind::$k),)* _ => None } }
    }
} }
kinds! {
    Parse "parse", ParseAscii "parse_ascii", FromStr "from_str", ParseKeep "parse_keep",
    Add "add", Sub "sub", Mul "mul", Div "div", Rem "rem",
    OpAdd "op_add", OpSub "op_sub", OpMul "op_mul", OpDiv "op_div", OpRem "op_rem",
    Round "round", RoundTo "round_to",
    Cmp "cmp", Eq "eq", Hash "hash", HashReenter "hash_reenter", HashSplit "hash_split", HashPanic "hash_panic",
    AsI64 "as_i64", AsU64 "as_u64", FromI64 "from_i64", FromU64 "from_u64",
    Str "str", Append "append",
    SetNeg "set_neg", SetPos "set_pos", SetZero "set_zero", SetOne "set_one",
    Zero "zero", One "one", Clone "clone", Intro "intro",
}

/// Which operands a kind uses.
impl Kind {
    pub fn uses_a(self) -> bool {
        use Kind::*;
        matches!(self, Add | Sub | Mul | Div | Rem | OpAdd | OpSub | OpMul | OpDiv | OpRem | RoundTo | Cmp | Eq | Hash
            | HashReenter | HashSplit | HashPanic | AsI64 | AsU64 | Str | Append | Clone | Intro)
    }
    pub fn uses_b(self) -> bool {
        use Kind::*;
        matches!(self, Add | Sub | Mul | Div | Rem | OpAdd | OpSub | OpMul | OpDiv | OpRem | Cmp | Eq | HashReenter | HashSplit)
    }
    /// Writes a fresh result into `out`.
    pub fn writes(self) -> bool {
        use Kind::*;
        matches!(self, Parse | ParseAscii | FromStr | ParseKeep | Add | Sub | Mul | Div | Rem | OpAdd | OpSub | OpMul | OpDiv
            | OpRem | RoundTo | FromI64 | FromU64 | SetZero | SetOne | Zero | One | Clone)
    }
    /// Modifies `out` in place: the old content of `out` is an operand.
    pub fn in_place(self) -> bool {
        use Kind::*;
        matches!(self, Round | SetNeg | SetPos)
    }
    pub fn is_parse(self) -> bool {
        matches!(self, Kind::Parse | Kind::ParseAscii | Kind::FromStr | Kind::ParseKeep)
    }
    pub fn is_operator(self) -> bool {
        matches!(self, Kind::OpAdd | Kind::OpSub | Kind::OpMul | Kind::OpDiv | Kind::OpRem)
    }
    pub fn is_arith_to(self) -> bool {
        matches!(self, Kind::Add | Kind::Sub | Kind::Mul | Kind::Div | Kind::Rem)
    }
}

pub const AUX: usize = 480;
/// Fixed-size output of a call that is not a decimal (text, bytes, ordering).
pub struct Aux {
    pub len: usize,
    pub bytes: [u8; AUX],
}
impl Aux {
    pub const fn new() -> Aux {
        Aux { len: 0, bytes: [0; AUX] }
    }
    pub fn put(&mut self, bs: &[u8]) {
        let mut i = 0;
        while i < bs.len() && self.len < AUX {
            self.bytes[self.len] = bs[i];
            self.len += 1;
            i += 1;
        }
    }
    pub fn get(&self) -> &[u8] {
        &self.bytes[..self.len]
    }
}

/// Result tags. 0 = Ok; 1.. = errors of the library.
pub fn err_code(e: &Error) -> u8 {
    match e {
        Error::ConversionSyntax => 1,
        Error::DivisionByZero => 2,
        Error::Overflow => 3,
        Error::ExceedsConversionTargetRange => 4,
        #[allow(unreachable_patterns)]
        _ => 5,
    }
}
fn code(r: Result<(), Error>) -> u8 {
    match r {
        Ok(()) => 0,
        Err(e) => err_code(&e),
    }
}

/// The caller-supplied hasher: records the bytes it is fed; can call back into
/// the library from inside `write`, or panic at the n-th write.
struct Rec<'a> {
    aux: &'a mut Aux,
    writes: u32,
    panic_at: u32,
    reenter: Option<(Kind, &'a FixedDecimal, &'a FixedDecimal, &'a mut FixedDecimal, &'a mut Aux)>,
}
impl<'a> Hasher for Rec<'a> {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, bytes: &[u8]) {
        self.aux.put(bytes);
        self.writes += 1;
        if self.panic_at != 0 && self.writes >= self.panic_at {
            std::panic::panic_any(0u8);
        }
        if self.writes == 2 {
            if let Some((k, a, b, t, x)) = self.reenter.take() {
                nested(k, a, b, t, x);
            }
        }
    }
}

/// Calls made from inside a hasher (or, for the oracle, next to it).
#[inline(never)]
pub fn nested(k: Kind, a: &FixedDecimal, b: &FixedDecimal, t: &mut FixedDecimal, x: &mut Aux) {
    let c = exec(k, a, b, t, 3, b"-12.50", x, None);
    x.put(&[b'#', c]);
    if c == 0 && k.writes() {
        let c = exec(Kind::Intro, t, t, &mut FixedDecimal::zero(), 0, b"", x, None);
        x.put(&[c]);
        let mut h = Rec { aux: x, writes: 0, panic_at: 0, reenter: None };
        t.hash(&mut h);
    }
}

/// Performs one call. Returns 0 or an error code; panics propagate.
/// `buf` is the caller's buffer for `Append`.
#[inline(never)]
pub fn exec(
    k: Kind,
    a: &FixedDecimal,
    b: &FixedDecimal,
    out: &mut FixedDecimal,
    n: i64,
    text: &[u8],
    aux: &mut Aux,
    buf: Option<&mut Vec<u8>>,
) -> u8 {
    match k {
        Kind::Parse => code(out.from_bytes_str(text, true)),
        Kind::ParseAscii => match std::str::from_utf8(text) {
            Ok(s) => code(out.from_ascii_str(s, true)),
            Err(_) => code(out.from_bytes_str(text, true)),
        },
        Kind::ParseKeep => code(out.from_bytes_str(text, false)),
        Kind::FromStr => match std::str::from_utf8(text) {
            Ok(s) => match s.parse::<FixedDecimal>() {
                Ok(v) => {
                    *out = v;
                    0
                }
                Err(e) => err_code(&e),
            },
            Err(_) => 1,
        },
        Kind::Add => code(FixedDecimal::add_to(a, b, out)),
        Kind::Sub => code(FixedDecimal::sub_to(a, b, out)),
        Kind::Mul => code(FixedDecimal::mul_to(a, b, out)),
        Kind::Div => code(FixedDecimal::div_to(a, b, out, n as usize)),
        Kind::Rem => code(FixedDecimal::rem_to(a, b, out)),
        Kind::OpAdd => {
            *out = a.clone() + b.clone();
            0
        }
        Kind::OpSub => {
            *out = a.clone() - b.clone();
            0
        }
        Kind::OpMul => {
            *out = a.clone() * b.clone();
            0
        }
        Kind::OpDiv => {
            *out = a.clone() / b.clone();
            0
        }
        Kind::OpRem => {
            *out = a.clone() % b.clone();
            0
        }
        Kind::Round => {
            out.round(n as isize);
            0
        }
        Kind::RoundTo => {
            a.round_to(out, n as isize);
            0
        }
        Kind::Cmp => {
            let c = a.cmp(b) as i8;
            aux.put(&[b"<=>"[(c + 1) as usize]]);
            // the operators must say the same
            if a.partial_cmp(b).map(|x| x as i8) != Some(c) || (a < b) != (c < 0) || (a >= b) != (c >= 0) {
                aux.put(b"?");
            }
            0
        }
        Kind::Eq => {
            let e = a == b;
            aux.put(&[if e { b'=' } else { b'!' }]);
            if (a != b) == e {
                aux.put(b"?");
            }
            0
        }
        Kind::Hash => {
            let mut h = Rec { aux, writes: 0, panic_at: 0, reenter: None };
            a.hash(&mut h);
            0
        }
        Kind::HashPanic => {
            let mut h = Rec { aux, writes: 0, panic_at: 1 + (n as u32 % 4), reenter: None };
            a.hash(&mut h);
            0
        }
        Kind::HashReenter => {
            let mut x = Aux::new();
            let mut h = Rec { aux, writes: 0, panic_at: 0, reenter: Some((nested_kind(n), a, b, out, &mut x)) };
            a.hash(&mut h);
            aux.put(x.get());
            0
        }
        Kind::HashSplit => {
            // what HashReenter must be equivalent to
            let mut x = Aux::new();
            let mut h = Rec { aux, writes: 0, panic_at: 0, reenter: None };
            a.hash(&mut h);
            nested(nested_kind(n), a, b, out, &mut x);
            aux.put(x.get());
            0
        }
        Kind::AsI64 => match a.as_i64() {
            Ok(v) => {
                aux.put(&v.to_le_bytes());
                0
            }
            Err(e) => err_code(&e),
        },
        Kind::AsU64 => match a.as_u64() {
            Ok(v) => {
                aux.put(&v.to_le_bytes());
                0
            }
            Err(e) => err_code(&e),
        },
        Kind::FromI64 => {
            *out = FixedDecimal::from(n);
            0
        }
        Kind::FromU64 => {
            *out = FixedDecimal::from(n as u64);
            0
        }
        Kind::Str => {
            aux.put(a.to_string(n as isize).as_bytes());
            0
        }
        Kind::Append => {
            if let Some(v) = buf {
                a.append_str_buf(v, n as isize);
                aux.put(v);
            }
            0
        }
        Kind::SetNeg => {
            out.set_neg();
            0
        }
        Kind::SetPos => {
            out.set_pos();
            0
        }
        Kind::SetZero => {
            out.set_zero();
            0
        }
        Kind::SetOne => {
            out.set_one();
            0
        }
        Kind::Zero => {
            *out = FixedDecimal::zero();
            0
        }
        Kind::One => {
            *out = FixedDecimal::one();
            0
        }
        Kind::Clone => {
            if n & 1 == 0 {
                *out = a.clone();
            } else {
                out.clone_from(a);
            }
            0
        }
        Kind::Intro => {
            aux.put(&[a.is_neg() as u8, a.is_zero() as u8, a.intg() as u8, a.frac() as u8, a.intg_units() as u8, a.frac_units() as u8]);
            0
        }
    }
}

pub fn nested_kind(n: i64) -> Kind {
    const N: [Kind; 10] = [
        Kind::Add, Kind::Sub, Kind::Mul, Kind::Div, Kind::Rem, Kind::Cmp, Kind::Parse, Kind::RoundTo, Kind::AsI64, Kind::Intro,
    ];
    N[(n.rem_euclid(N.len() as i64)) as usize]
}
