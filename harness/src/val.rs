//! Values of the recorded sessions: the registers, arguments and results of the
//! calls, and their JSON form (see spec/HValues.tla for what each form denotes).

use hmath::*;
use std::cmp::Ordering;
use std::fmt::Write;

#[derive(Clone)]
pub enum Val {
    U(UBigInt),
    I(BigInt),
    R(Ratio),
    F(F192),
    M(Matrix),
    P(Polynomial),
    C(Ratio, Ratio),
    B(bool),
    /// a machine number: sign and magnitude (floats by their bit pattern)
    N(bool, u128),
    S(Vec<u8>),
    L(Vec<Val>),
    O(i8),
    /// nothing (an unused or undefined register)
    X,
}

pub fn hex(out: &mut String, bytes: &[u8]) {
    out.push_str("\"#");
    for b in bytes {
        const D: &[u8; 16] = b"0123456789abcdef";
        out.push(D[(b >> 4) as usize] as char);
        out.push(D[(b & 15) as usize] as char);
    }
    out.push('"');
}

fn limbs(out: &mut String, v: &[u32]) {
    out.push_str("\"#");
    for l in v {
        for b in l.to_le_bytes() {
            const D: &[u8; 16] = b"0123456789abcdef";
            out.push(D[(b >> 4) as usize] as char);
            out.push(D[(b & 15) as usize] as char);
        }
    }
    out.push('"');
}

/// The two numbers inside an F192, from its Debug form.
pub fn f192_parts(f: &F192) -> (u128, u64) {
    let s = format!("{f:?}");
    let field = |name: &str| -> Option<u128> {
        let k = s.find(&format!("{name}:"))? + name.len() + 1;
        let t: String = s[k..].trim_start().chars().take_while(|c| c.is_ascii_digit()).collect();
        t.parse().ok()
    };
    if let (Some(d), Some(e)) = (field("digits"), field("exp")) {
        return (d, e as u64);
    }
    let body = &s[s.find('{').unwrap_or(0)..];
    let nums: Vec<u128> = body
        .split(|c: char| !c.is_ascii_digit())
        .filter(|t| !t.is_empty())
        .filter_map(|t| t.parse().ok())
        .collect();
    (nums[0], nums[1] as u64)
}

/// The number after `name` in a Debug form.
fn field(s: &str, name: &str) -> Option<u128> {
    let k = s.rfind(&format!("{name}:"))? + name.len() + 1;
    let t: String = s[k..].trim_start().chars().take_while(|c| c.is_ascii_digit()).collect();
    t.parse().ok()
}

/// rows, columns and entries, and whether the matrix equals one built from them
pub fn matrix_parts(m: &Matrix) -> (usize, usize, Vec<Vec<Ratio>>, bool) {
    let s = format!("{m:?}");
    let (cols, rows) = match (field(&s, "cols"), field(&s, "rows")) {
        (Some(c), Some(r)) => (c as usize, r as usize),
        _ => {
            let s = m.to_ratio_string();
            let body = &s[1..s.len() - 1];
            let rows = body.matches('[').count();
            let first = if rows == 0 { "" } else { &body[1..body.find(']').unwrap()] };
            (if first.is_empty() { 0 } else { first.matches(',').count() + 1 }, rows)
        }
    };
    let data: Vec<Vec<Ratio>> =
        (0..rows).map(|i| (0..cols).map(|j| m.get(i, j).clone()).collect()).collect();
    let ok = *m == Matrix::from_raw(data.clone(), cols, rows)
        && m.is_square() == (rows == cols);
    (rows, cols, data, ok)
}

impl Val {
    pub fn n<T: TryInto<i128>>(x: T) -> Val {
        let v: i128 = x.try_into().ok().unwrap();
        Val::N(v < 0, v.unsigned_abs())
    }

    pub fn lit(&self, out: &mut String) {
        match self {
            Val::U(u) => {
                out.push_str("[\"u\",");
                limbs(out, &u.clone().into_raw());
                out.push(']');
            }
            Val::I(i) => {
                let (v, n) = i.clone().into_raw();
                write!(out, "[\"i\",{},", n as u8).unwrap();
                limbs(out, &v);
                out.push(']');
            }
            Val::R(r) => {
                let (d, dn, n, nn) = r.clone().into_raw();
                write!(out, "[\"r\",{},", nn as u8).unwrap();
                limbs(out, &n);
                write!(out, ",{},", dn as u8).unwrap();
                limbs(out, &d);
                out.push(']');
            }
            Val::F(f) => {
                let (d, e) = f192_parts(f);
                out.push_str("[\"f\",");
                hex(out, &d.to_le_bytes());
                out.push(',');
                hex(out, &e.to_le_bytes());
                out.push(']');
            }
            Val::M(m) => {
                let (rows, cols, data, ok) = matrix_parts(m);
                write!(out, "[\"m\",{rows},{cols},{ok},[").unwrap();
                for (i, row) in data.iter().enumerate() {
                    if i > 0 { out.push(','); }
                    out.push('[');
                    for (j, x) in row.iter().enumerate() {
                        if j > 0 { out.push(','); }
                        Val::R(x.clone()).lit(out);
                    }
                    out.push(']');
                }
                out.push_str("]]");
            }
            Val::P(p) => {
                out.push_str("[\"p\",[");
                for (j, x) in p.to_vec().iter().enumerate() {
                    if j > 0 { out.push(','); }
                    Val::R(x.clone()).lit(out);
                }
                out.push_str("]]");
            }
            Val::C(a, b) => {
                out.push_str("[\"c\",");
                Val::R(a.clone()).lit(out);
                out.push(',');
                Val::R(b.clone()).lit(out);
                out.push(']');
            }
            Val::B(b) => write!(out, "[\"b\",{b}]").unwrap(),
            Val::N(neg, m) => {
                let mut n = 16;
                let b = m.to_le_bytes();
                while n > 0 && b[n - 1] == 0 { n -= 1; }
                write!(out, "[\"n\",{},", (*neg && *m != 0) as u8).unwrap();
                hex(out, &b[..n]);
                out.push(']');
            }
            Val::S(s) => {
                out.push_str("[\"s\",");
                hex(out, s);
                out.push(']');
            }
            Val::L(l) => {
                out.push_str("[\"l\",[");
                for (j, x) in l.iter().enumerate() {
                    if j > 0 { out.push(','); }
                    x.lit(out);
                }
                out.push_str("]]");
            }
            Val::O(o) => write!(out, "[\"o\",{o}]").unwrap(),
            Val::X => out.push_str("[\"x\"]"),
        }
    }

    pub fn u(&self) -> &UBigInt { if let Val::U(x) = self { x } else { panic!("recorder: not a U") } }
    pub fn i(&self) -> &BigInt { if let Val::I(x) = self { x } else { panic!("recorder: not an I") } }
    pub fn r(&self) -> &Ratio { if let Val::R(x) = self { x } else { panic!("recorder: not an R") } }
    pub fn f(&self) -> &F192 { if let Val::F(x) = self { x } else { panic!("recorder: not an F") } }
    pub fn m(&self) -> &Matrix { if let Val::M(x) = self { x } else { panic!("recorder: not an M") } }
    pub fn p(&self) -> &Polynomial { if let Val::P(x) = self { x } else { panic!("recorder: not a P") } }
    pub fn l(&self) -> &[Val] { if let Val::L(x) = self { x } else { panic!("recorder: not an L") } }
    pub fn c(&self) -> Complex {
        if let Val::C(a, b) = self { Complex::from_real_and_imag(a.clone(), b.clone()) } else { panic!("recorder: not a C") }
    }
    pub fn mag(&self) -> u128 { if let Val::N(_, m) = self { *m } else { panic!("recorder: not an N") } }
    pub fn int(&self) -> i128 {
        if let Val::N(neg, m) = self {
            if *neg { (*m as i128).wrapping_neg() } else { *m as i128 }
        } else {
            panic!("recorder: not an N")
        }
    }
    pub fn u32(&self) -> u32 { self.mag() as u32 }
    pub fn i32(&self) -> i32 { self.int() as i32 }
    pub fn us(&self) -> usize { self.mag() as usize }
    pub fn s(&self) -> &str {
        if let Val::S(x) = self { std::str::from_utf8(x).unwrap() } else { panic!("recorder: not an S") }
    }
    pub fn bytes(&self) -> &[u8] { if let Val::S(x) = self { x } else { panic!("recorder: not an S") } }
}

/// Result types of the library calls.
pub trait ToVal { fn v(self) -> Result<Val, String>; }
macro_rules! tv {
    ($($t:ty => $x:ident $e:expr),+ $(,)?) => ($(impl ToVal for $t { fn v(self) -> Result<Val, String> { let $x = self; Ok($e) } })+)
}
tv! {
    Val => x x,
    UBigInt => x Val::U(x),
    BigInt => x Val::I(x),
    Ratio => x Val::R(x),
    F192 => x Val::F(x),
    Matrix => x Val::M(x),
    Polynomial => x Val::P(x),
    Complex => x Val::C(x.real().clone(), x.imaginary().clone()),
    bool => x Val::B(x),
    Ordering => x Val::O(match x { Ordering::Less => -1, Ordering::Equal => 0, Ordering::Greater => 1 }),
    String => x Val::S(x.into_bytes()),
    u128 => x Val::N(false, x),
    i128 => x Val::n(x), u8 => x Val::n(x), u16 => x Val::n(x), u32 => x Val::n(x), u64 => x Val::n(x), usize => x Val::n(x as u64),
    i8 => x Val::n(x), i16 => x Val::n(x), i32 => x Val::n(x), i64 => x Val::n(x), isize => x Val::n(x as i64),
    f32 => x Val::N(false, x.to_bits() as u128),
    f64 => x Val::N(false, x.to_bits() as u128),
    () => _x Val::X,
}
impl<T: ToVal> ToVal for Option<T> {
    fn v(self) -> Result<Val, String> {
        match self { Some(x) => x.v(), None => Err("None".into()) }
    }
}
impl<T: ToVal, E: ErrName> ToVal for Result<T, E> {
    fn v(self) -> Result<Val, String> {
        match self { Ok(x) => x.v(), Err(e) => Err(e.name()) }
    }
}
impl<T: ToVal> ToVal for Vec<T> {
    fn v(self) -> Result<Val, String> {
        Ok(Val::L(self.into_iter().map(|x| x.v()).collect::<Result<Vec<_>, _>>()?))
    }
}
impl<A: ToVal, B: ToVal> ToVal for (A, B) {
    fn v(self) -> Result<Val, String> { Ok(Val::L(vec![self.0.v()?, self.1.v()?])) }
}
impl<A: ToVal, B: ToVal, C: ToVal> ToVal for (A, B, C) {
    fn v(self) -> Result<Val, String> { Ok(Val::L(vec![self.0.v()?, self.1.v()?, self.2.v()?])) }
}
pub trait ErrName { fn name(self) -> String; }
impl ErrName for ConversionError {
    fn name(self) -> String {
        match self {
            ConversionError::NoData => "NoData".into(),
            ConversionError::InvalidChar(_) => "InvalidChar".into(),
            ConversionError::NotInRange { .. } => "NotInRange".into(),
            ConversionError::UnexpectedEnd => "UnexpectedEnd".into(),
            ConversionError::Infinity => "Infinity".into(),
            ConversionError::NegInfinity => "NegInfinity".into(),
            ConversionError::NotANumber => "NotANumber".into(),
            ConversionError::TryFromIntError => "TryFromIntError".into(),
        }
    }
}
impl ErrName for MatrixError {
    fn name(self) -> String {
        match self {
            MatrixError::WrongDimension { expected, got } => format!("WrongDimension,{},{},{},{}", expected.0, expected.1, got.0, got.1),
            MatrixError::InconsistetRow => "InconsistentRow".into(),
            MatrixError::NotSquare(c, r) => format!("NotSquare,{c},{r}"),
            MatrixError::EmptyMatrix => "EmptyMatrix".into(),
            MatrixError::ZeroDeterminant => "ZeroDeterminant".into(),
        }
    }
}
impl ErrName for std::convert::Infallible { fn name(self) -> String { "Infallible".into() } }
impl ErrName for () { fn name(self) -> String { "Unit".into() } }
impl ErrName for usize { fn name(self) -> String { format!("E{self}") } }
impl ErrName for String { fn name(self) -> String { self } }

/// Reads the JSON form back (the TLC-generated sessions and replay files).
pub struct Parser<'a> { pub s: &'a [u8], pub p: usize }
#[derive(Debug, Clone)]
pub enum J { A(Vec<J>), S(String), N(i64), B(bool) }
impl<'a> Parser<'a> {
    pub fn parse(s: &'a str) -> J { let mut p = Parser { s: s.as_bytes(), p: 0 }; p.value() }
    fn ws(&mut self) { while self.p < self.s.len() && self.s[self.p] <= b' ' { self.p += 1; } }
    fn value(&mut self) -> J {
        self.ws();
        match self.s[self.p] {
            b'[' => {
                self.p += 1;
                let mut v = vec![];
                self.ws();
                if self.s[self.p] == b']' { self.p += 1; return J::A(v); }
                loop {
                    v.push(self.value());
                    self.ws();
                    let c = self.s[self.p];
                    self.p += 1;
                    if c == b']' { return J::A(v); }
                    assert!(c == b',', "bad json");
                }
            }
            b'"' => {
                let a = self.p + 1;
                let mut q = a;
                while self.s[q] != b'"' { q += 1; }
                self.p = q + 1;
                J::S(String::from_utf8(self.s[a..q].to_vec()).unwrap())
            }
            b't' => { self.p += 4; J::B(true) }
            b'f' => { self.p += 5; J::B(false) }
            _ => {
                let a = self.p;
                if self.s[self.p] == b'-' { self.p += 1; }
                while self.p < self.s.len() && self.s[self.p].is_ascii_digit() { self.p += 1; }
                J::N(std::str::from_utf8(&self.s[a..self.p]).unwrap().parse().unwrap())
            }
        }
    }
}
impl J {
    pub fn arr(&self) -> &[J] { if let J::A(x) = self { x } else { panic!("json: array expected, got {self:?}") } }
    pub fn str(&self) -> &str { if let J::S(x) = self { x } else { panic!("json: string expected, got {self:?}") } }
    pub fn num(&self) -> i64 { if let J::N(x) = self { *x } else { panic!("json: number expected, got {self:?}") } }
    pub fn hexbytes(&self) -> Vec<u8> {
        match self {
            J::S(s) => {
                let s = &s.as_bytes()[1..];
                s.chunks(2).map(|c| u8::from_str_radix(std::str::from_utf8(c).unwrap(), 16).unwrap()).collect()
            }
            J::A(v) => v.iter().map(|x| x.num() as u8).collect(),
            _ => panic!("json: bytes expected"),
        }
    }
    fn limbs(&self) -> Vec<u32> {
        self.hexbytes().chunks(4).map(|c| { let mut b = [0u8; 4]; b[..c.len()].copy_from_slice(c); u32::from_le_bytes(b) }).collect()
    }
    pub fn val(&self) -> Val {
        let a = self.arr();
        match a[0].str() {
            "u" => Val::U(UBigInt::from_raw(a[1].limbs())),
            "i" => Val::I(BigInt::from_raw(a[2].limbs(), a[1].num() == 1)),
            "r" => Val::R(Ratio::from_raw(a[4].limbs(), a[3].num() == 1, a[2].limbs(), a[1].num() == 1)),
            "f" => {
                let (mut d, mut e) = ([0u8; 16], [0u8; 8]);
                d.copy_from_slice(&a[1].hexbytes());
                e.copy_from_slice(&a[2].hexbytes());
                Val::F(crate::gen::f192(u128::from_le_bytes(d), u64::from_le_bytes(e)))
            }
            "m" => {
                let data: Vec<Vec<Ratio>> = a[4].arr().iter().map(|r| r.arr().iter().map(|x| x.val().r().clone()).collect()).collect();
                Val::M(Matrix::from_raw(data, a[2].num() as usize, a[1].num() as usize))
            }
            "p" => Val::P(Polynomial::from_vec_generic(a[1].arr().iter().map(|x| x.val().r().clone()).collect::<Vec<Ratio>>())),
            "c" => Val::C(a[1].val().r().clone(), a[2].val().r().clone()),
            "b" => Val::B(matches!(a[1], J::B(true))),
            "n" => {
                let mut m = 0u128;
                for b in a[2].hexbytes().iter().rev() { m = m << 8 | *b as u128; }
                Val::N(a[1].num() == 1, m)
            }
            "s" => Val::S(a[1].hexbytes()),
            "l" => Val::L(a[1].arr().iter().map(|x| x.val()).collect()),
            "o" => Val::O(a[1].num() as i8),
            _ => Val::X,
        }
    }
}
