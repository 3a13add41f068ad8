//! Deterministic random values, biased to the places where limb arithmetic is hard.

use hmath::*;

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Rng { let mut r = Rng(seed ^ 0x9e3779b97f4a7c15); r.next(); r.next(); r }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    /// 0 <= x < n
    pub fn below(&mut self, n: u64) -> u64 { if n == 0 { 0 } else { ((self.next() as u128 * n as u128) >> 64) as u64 } }
    pub fn us(&mut self, n: usize) -> usize { self.below(n as u64) as usize }
    /// lo <= x <= hi
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 { lo + self.below((hi - lo + 1) as u64) as i64 }
    pub fn chance(&mut self, num: u64, den: u64) -> bool { self.below(den) < num }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { let k = self.us(v.len()); &v[k] }
    pub fn bool(&mut self) -> bool { self.next() & 1 == 1 }
    pub fn u128(&mut self) -> u128 { (self.next() as u128) << 64 | self.next() as u128 }
}

pub const LIMBS: [u32; 16] = [
    0, 1, 2, 3, 0xffff_ffff, 0xffff_fffe, 0x8000_0000, 0x7fff_ffff, 0x8000_0001, 0x0001_0000, 0xffff, 0xffff_0000,
    0x5555_5555, 0xaaaa_aaaa, 10, 1_000_000_000,
];

pub fn limb(r: &mut Rng) -> u32 {
    match r.below(10) {
        0..=4 => *r.pick(&LIMBS),
        5 => 1u32 << r.below(32),
        6 => (1u32 << r.below(32)).wrapping_sub(1),
        7 => r.below(256) as u32,
        _ => r.next() as u32,
    }
}

/// exactly `n` limbs, the top one non-zero (except that n = 1 may be zero)
pub fn limbs(r: &mut Rng, n: usize) -> Vec<u32> {
    let n = n.max(1);
    let mut v = Vec::with_capacity(n);
    match r.below(10) {
        8 => v = bit_runs(r, n),
        9 => { let t = 1 + r.us(32 * n); v = prefix_fill(r, n, t); }
        0 => while v.len() < n { v.push(r.next() as u32) },
        1 => { // runs
            while v.len() < n {
                let x = *r.pick(&[0u32, 0xffff_ffff, 0xffff_ffff, 0, 1, 0x8000_0000, 0xffff_fffe]);
                for _ in 0..=r.below(n as u64) { if v.len() < n { v.push(x) } }
            }
        }
        2 => { // near a power of two
            let neg = r.bool();
            let d = r.below(3) as u32;
            v = vec![if neg { 0xffff_ffff } else { 0 }; n];
            v[0] = if neg { 0u32.wrapping_sub(d) } else { d };
            if d == 0 && neg { v[0] = 0; }
            if n > 1 { v[n - 1] = if neg { (1u64 << (1 + r.below(32))).wrapping_sub(1) as u32 } else { 1 << r.below(32) }; }
        }
        3 => { // sparse
            v = vec![0; n];
            for _ in 0..=r.below(3) { let k = r.us(n); v[k] = limb(r); }
        }
        4 => { // nearly all ones
            v = vec![0xffff_ffff; n];
            for _ in 0..r.below(3) { let k = r.us(n); v[k] = limb(r); }
        }
        _ => while v.len() < n { v.push(limb(r)) },
    }
    if n > 1 {
        while v[n - 1] == 0 { v[n - 1] = if r.bool() { 1 } else { limb(r) }; }
    }
    v
}

/// long runs of equal binary digits, not aligned to limbs
pub fn bit_runs(r: &mut Rng, n: usize) -> Vec<u32> {
    let mut v = vec![0u32; n];
    let max = 1 + r.below(32 * n as u64);
    let (mut k, mut one) = (0usize, r.bool());
    while k < 32 * n {
        let end = (k + 1 + r.us(max as usize)).min(32 * n);
        if one { for j in k..end { v[j / 32] |= 1 << (j % 32); } }
        k = end;
        one = !one;
    }
    v
}

/// n limbs of which the upper `t` binary digits (counted from the first 1) are arbitrary and the others all equal: a number next to a short one
pub fn prefix_fill(r: &mut Rng, n: usize, t: usize) -> Vec<u32> {
    let w = 1 + r.us(32);                 // digits of the top limb
    let bits = 32 * (n - 1) + w;
    let lim = bits.saturating_sub(t);
    let ones = r.bool();
    let mut v = vec![0u32; n];
    for j in 0..bits {
        let b = if j + 1 == bits { true } else if j < lim { ones } else { r.bool() };
        if b { v[j / 32] |= 1 << (j % 32); }
    }
    if lim > 0 && r.below(4) == 0 { v[0] ^= 1 << r.below(2); }
    v
}

pub fn len(r: &mut Rng, max: usize) -> usize {
    let m = match r.below(8) { 0..=2 => 2, 3 | 4 => 4, 5 => 8, 6 => 16, _ => 1000 };
    1 + r.us(m.min(max))
}

pub fn ubig(r: &mut Rng, max: usize) -> UBigInt {
    match r.below(12) {
        0 => UBigInt::from_raw(vec![r.below(20) as u32]),
        _ => { let n = len(r, max); UBigInt::from_raw(limbs(r, n)) }
    }
}
pub fn ubig_nz(r: &mut Rng, max: usize) -> UBigInt {
    loop { let x = ubig(r, max); let raw = x.clone().into_raw(); if raw.iter().any(|l| *l != 0) { return x; } }
}
pub fn big(r: &mut Rng, max: usize) -> BigInt {
    let u = ubig(r, max).into_raw();
    let neg = r.bool() && u.iter().any(|l| *l != 0);
    BigInt::from_raw(u, neg)
}
pub fn big_nz(r: &mut Rng, max: usize) -> BigInt {
    let u = ubig_nz(r, max).into_raw();
    let neg = r.bool();
    BigInt::from_raw(u, neg)
}

// Arithmetic of the generator's own, so that operands do not depend on the code under test.
pub fn gcd128(mut a: u128, mut b: u128) -> u128 { while b != 0 { let t = a % b; a = b; b = t; } a }
pub fn of128(mut x: u128) -> Vec<u32> {
    let mut v = vec![x as u32];
    x >>= 32;
    while x != 0 { v.push(x as u32); x >>= 32; }
    v
}
pub fn mulv(a: &[u32], b: &[u32]) -> Vec<u32> {
    let mut v = vec![0u32; a.len() + b.len()];
    for (i, x) in a.iter().enumerate() {
        let mut c = 0u64;
        for (j, y) in b.iter().enumerate() {
            let t = *x as u64 * *y as u64 + v[i + j] as u64 + c;
            v[i + j] = t as u32;
            c = t >> 32;
        }
        v[i + b.len()] = c as u32;
    }
    norm(v)
}
pub fn norm(mut v: Vec<u32>) -> Vec<u32> { while v.len() > 1 && v[v.len() - 1] == 0 { v.pop(); } v }
pub fn addv(a: &[u32], b: &[u32]) -> Vec<u32> {
    let mut v = vec![];
    let mut c = 0u64;
    for i in 0..a.len().max(b.len()) + 1 {
        c += *a.get(i).unwrap_or(&0) as u64 + *b.get(i).unwrap_or(&0) as u64;
        v.push(c as u32);
        c >>= 32;
    }
    norm(v)
}
/// a - b for a >= b
pub fn subv(a: &[u32], b: &[u32]) -> Vec<u32> {
    let mut v = vec![];
    let mut c = 0i64;
    for i in 0..a.len() {
        c += a[i] as i64 - *b.get(i).unwrap_or(&0) as i64;
        v.push(c as u32);
        c >>= 32;
    }
    norm(v)
}
pub fn cmpv(a: &[u32], b: &[u32]) -> std::cmp::Ordering {
    let (a, b) = (norm(a.to_vec()), norm(b.to_vec()));
    a.len().cmp(&b.len()).then_with(|| a.iter().rev().cmp(b.iter().rev()))
}
pub fn shrv(a: &[u32], k: usize) -> Vec<u32> {
    let (w, s) = (k / 32, k % 32);
    if w >= a.len() { return vec![0]; }
    let mut v = vec![];
    for i in w..a.len() {
        let lo = a[i] >> s;
        let hi = if s > 0 && i + 1 < a.len() { a[i + 1] << (32 - s) } else { 0 };
        v.push(lo | hi);
    }
    norm(v)
}
pub fn shlv(a: &[u32], k: usize) -> Vec<u32> {
    let (w, s) = (k / 32, k % 32);
    let mut v = vec![0; w];
    let mut c = 0u32;
    for x in a {
        v.push(if s == 0 { *x } else { x << s | c });
        c = if s == 0 { 0 } else { x >> (32 - s) };
    }
    v.push(c);
    norm(v)
}
pub fn is0(a: &[u32]) -> bool { a.iter().all(|x| *x == 0) }
pub fn gcdv(a: &[u32], b: &[u32]) -> Vec<u32> { // binary gcd
    let (mut a, mut b) = (norm(a.to_vec()), norm(b.to_vec()));
    if is0(&a) { return b; }
    if is0(&b) { return a; }
    let tz = |v: &[u32]| { let mut n = 0; for x in v { if *x == 0 { n += 32 } else { n += x.trailing_zeros() as usize; break; } } n };
    let s = tz(&a).min(tz(&b));
    a = shrv(&a, tz(&a));
    loop {
        b = shrv(&b, tz(&b));
        if cmpv(&a, &b).is_gt() { std::mem::swap(&mut a, &mut b); }
        b = subv(&b, &a);
        if is0(&b) { return shlv(&a, s); }
    }
}
/// floor(a / b) by shift and subtract
pub fn divv(a: &[u32], b: &[u32]) -> Vec<u32> {
    let bits = |v: &[u32]| { let v = norm(v.to_vec()); v.len() * 32 - v[v.len() - 1].leading_zeros() as usize };
    if cmpv(a, b).is_lt() { return vec![0]; }
    let mut rem = norm(a.to_vec());
    let n = bits(a) - bits(b);
    let mut q = vec![0u32; n / 32 + 1];
    for k in (0..=n).rev() {
        let t = shlv(b, k);
        if cmpv(&t, &rem).is_le() { rem = subv(&rem, &t); q[k / 32] |= 1 << (k % 32); }
    }
    norm(q)
}
/// num/den in lowest terms
pub fn ratio_of(neg: bool, num: &[u32], den: &[u32]) -> Ratio {
    if is0(num) { return Ratio::from_raw(vec![1], false, vec![0], false); }
    let g = gcdv(num, den);
    Ratio::from_raw(divv(den, &g), false, divv(num, &g), neg)
}
pub fn ratio(r: &mut Rng, max: usize) -> Ratio {
    let neg = r.bool();
    match r.below(12) {
        0 => ratio_of(neg, &[r.below(12) as u32], &[1 + r.below(12) as u32]),
        1 => { let n = ubig(r, max).into_raw(); ratio_of(neg, &n, &[1]) }
        2 => { let d = ubig_nz(r, max).into_raw(); ratio_of(neg, &[1], &d) }
        3 => { let n = ubig(r, max).into_raw(); let k = r.us(max * 32); ratio_of(neg, &n, &shlv(&[1], k)) }
        4 => { // d +- 1 over d
            let d = ubig_nz(r, max).into_raw();
            let n = if r.bool() { addv(&d, &[1]) } else { subv(&d, &[1]) };
            ratio_of(neg, &n, &d)
        }
        5 => { // near an integer or half-integer
            let d = ubig_nz(r, max).into_raw();
            let q = ubig(r, 2).into_raw();
            let e = r.below(3) as u32;
            let n = addv(&mulv(&d, &q), &[e]);
            let (n, d) = if r.bool() { (n, d) } else { (addv(&shlv(&n, 1), &d), shlv(&d, 1)) };
            ratio_of(neg, &n, &d)
        }
        6 => ratio_of(neg, &[r.next() as u32 >> r.below(32)], &[(r.next() as u32 >> r.below(32)).max(1)]),
        _ => { let n = ubig(r, max).into_raw(); let d = ubig_nz(r, max).into_raw(); ratio_of(neg, &n, &d) }
    }
}
pub fn ratio_nz(r: &mut Rng, max: usize) -> Ratio {
    loop { let x = ratio(r, max); if !is0(&x.clone().into_raw().2) { return x; } }
}
pub fn small_ratio(r: &mut Rng, num: i64, den: i64) -> Ratio {
    let n = r.range(-num, num);
    let d = r.range(1, den);
    ratio_of(n < 0, &of128(n.unsigned_abs() as u128), &of128(d as u128))
}

pub fn u32v(r: &mut Rng) -> u32 { limb(r) }
pub fn i32v(r: &mut Rng) -> i32 {
    match r.below(8) {
        0 => *r.pick(&[i32::MIN, i32::MAX, i32::MIN + 1, -1, 0, 1, -2, 2]),
        1 => r.range(-20, 20) as i32,
        2 => (1i64 << r.below(32)).wrapping_sub(r.below(3) as i64) as i32,
        3 => -((1i64 << r.below(32)).wrapping_sub(r.below(3) as i64)) as i32,
        _ => limb(r) as i32,
    }
}
/// machine integers of up to 128 bits, at type boundaries
pub fn m128(r: &mut Rng) -> u128 {
    match r.below(6) {
        0 => r.below(300) as u128,
        1 | 2 => { let k = *r.pick(&[7u32, 8, 15, 16, 31, 32, 33, 48, 63, 64, 65, 95, 96, 127]); (1u128 << k).wrapping_add(r.below(5) as u128).wrapping_sub(2) }
        3 => { let k = r.below(128) as u32; (1u128 << k).wrapping_add(r.below(5) as u128).wrapping_sub(2) }
        4 => r.u128() >> r.below(128),
        _ => { let n = 1 + r.us(4); let v = limbs(r, n); v.iter().rev().fold(0u128, |a, l| a << 32 | *l as u128) }
    }
}

/// ± (2^127 + digits mod 2^127) * 2^(exp - 2^48); the sign is bit 127 of digits.
/// Built in memory, so that operands do not depend on the arithmetic under test.
pub fn f192(digits: u128, exp: u64) -> F192 {
    static AT: std::sync::OnceLock<Option<(usize, usize)>> = std::sync::OnceLock::new();
    const N: usize = std::mem::size_of::<F192>();
    fn bytes(f: &F192) -> [u8; N] { unsafe { let mut b = [0u8; N]; std::ptr::copy_nonoverlapping(f as *const F192 as *const u8, b.as_mut_ptr(), N); b } }
    let at = AT.get_or_init(|| {
        let find = |big: &[u8], small: &[u8]| (0..=big.len() - small.len()).find(|k| &big[*k..*k + small.len()] == small);
        let mut got = None;
        for f in [F192::PI, F192::SQRT_10, F192::MIN_POSITIVE] {
            let (d, e) = crate::val::f192_parts(&f);
            let b = bytes(&f);
            let here = (find(&b, &d.to_le_bytes())?, find(&b, &e.to_le_bytes())?);
            if got.is_some() && got != Some(here) { return None; }
            got = Some(here);
        }
        got
    });
    match at {
        Some((d, e)) => {
            let mut f = F192::PI;
            unsafe {
                let p = &mut f as *mut F192 as *mut u8;
                std::ptr::copy_nonoverlapping(digits.to_le_bytes().as_ptr(), p.add(*d), 16);
                std::ptr::copy_nonoverlapping(exp.to_le_bytes().as_ptr(), p.add(*e), 8);
            }
            f
        }
        None => {
            if digits == 0 && exp == 0 { return F192::ZERO; }
            let m = F192::from(digits | 1 << 127);
            let (_, e0) = crate::val::f192_parts(&m);
            let m = if exp >= e0 { F192::shl(&m, exp - e0) } else { F192::shr(&m, e0 - exp) };
            if digits >> 127 == 1 { F192::neg(&m) } else { m }
        }
    }
}
/// the F192 of an integer, of at most 128 bits
pub fn fint(neg: bool, m: u128) -> F192 { fdy(neg, m, 0) }
/// m * 2^e
pub fn fdy(neg: bool, m: u128, e: i64) -> F192 {
    if m == 0 { return f192(0, 0); }
    let k = m.leading_zeros();
    f192((m << k) & !(1 << 127) | (neg as u128) << 127, (FEXP + e - k as i64) as u64)
}
pub const FEXP: i64 = 1 << 48;
/// an F192 with magnitude about 2^e (e within +-spread)
pub fn fp(r: &mut Rng, spread: i64) -> F192 {
    let sign = (r.below(2) as u128) << 127;
    match r.below(16) {
        0 => { let k = r.range(-20, 20); return fint(k < 0, k.unsigned_abs() as u128) }
        1 => return f192((r.next() as u128) << 63 >> 1 | sign, (FEXP - 127 + r.range(-spread, spread)) as u64),
        2 => if r.chance(1, 4) { return F192::ZERO; },
        _ => {}
    }
    let d: u128 = match r.below(6) {
        0 => 0,
        1 => (1 << 127) - 1 - r.below(3) as u128,
        2 => r.below(4) as u128,
        3 => { let k = r.below(127); (r.u128() >> 1) >> k << k }
        4 => (1u128 << r.below(127)).wrapping_sub(r.below(2) as u128) & !(1 << 127),
        _ => r.u128() >> 1,
    };
    let e = if r.bool() { r.range(-(spread.min(140)), spread.min(140)) } else { r.range(-spread, spread) };
    f192(d | sign, (FEXP - 127 + e) as u64)
}
