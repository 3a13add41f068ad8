//! Sessions for F192: C18 arithmetic, C19 conversions, C20 elementary functions.

use crate::gen::*;
use crate::plan::*;
use crate::plan_int::{bi, fp_edges};
use crate::plan_ratio::{decimal_text, e_too_big, float_bits, mutate, rat, rv};
use crate::sess::Ctx;
use crate::val::Val;
use hmath::*;

const TOP: u128 = 1 << 127;

fn fv(f: F192) -> Val { Val::F(f) }
/// mantissa patterns, without the leading digit
pub fn mant(r: &mut Rng) -> u128 {
    match r.below(8) {
        0 => 0,
        1 => TOP - 1 - r.below(3) as u128,
        2 => r.below(4) as u128,
        3 => { let k = r.below(127); (r.u128() >> 1) >> k << k }
        4 => (1u128 << r.below(127)).wrapping_sub(r.below(2) as u128) & (TOP - 1),
        5 => (TOP - (1u128 << r.below(127))) & (TOP - 1),
        6 => (r.next() as u128) << 63,
        _ => r.u128() >> 1,
    }
}
fn sgn(r: &mut Rng) -> u128 { if r.bool() { TOP } else { 0 } }
/// the number with this mantissa and 2^e <= |x| < 2^(e+1)
fn at(d: u128, e: i64) -> F192 { f192(d, (FEXP - 127 + e) as u64) }

fn arith(c: &mut Ctx, a: F192, b: F192) {
    let (a, b) = (c.ld(fv(a)), c.ld(fv(b)));
    for op in ["f.add", "f.sub", "f.mul", "f.div"] { c.op(op, &[a, b], &[]); }
    c.end();
}
fn small(c: &mut Ctx, a: F192, k: i32) {
    let a = c.ld(fv(a));
    c.op("f.mul_i32", &[a], &[ni(k as i64)]);
    c.op("f.div_i32", &[a], &[ni(k as i64)]);
    c.end();
}
fn moderate(f: &F192) -> bool { let (d, e) = crate::val::f192_parts(f); (d == 0 && e == 0) || (e as i64 - FEXP).abs() < 9000 }
fn unary(c: &mut Ctx, a: F192, k: u64) {
    let a = c.ld(fv(a));
    c.op("f.neg", &[a], &[]);
    c.op("f.abs", &[a], &[]);
    c.op("f.is_integer", &[a], &[]);
    c.op("f.step_epsilon", &[a], &[]);
    c.op("f.shl", &[a], &[Val::n(k)]);
    c.op("f.shr", &[a], &[Val::n(k)]);
    c.end();
}
fn rounding(c: &mut Ctx, a: F192) {
    let a = c.ld(fv(a));
    for op in ["f.floor", "f.ceil", "f.round", "f.truncate", "f.frac", "f.is_integer"] { c.op(op, &[a], &[]); }
    c.finish();
}
/// within a few units of a multiple of 1/2
fn near_half(r: &mut Rng) -> F192 {
    let bits = r.below(100) as u32;
    let h = if bits == 0 { 0 } else { (r.u128() >> 1) >> (127 - bits) };
    let sh = 120 - bits.min(119);
    let m = (h << sh).wrapping_add(*r.pick(&[0u128, 0, 1, 2, u128::MAX, u128::MAX - 1]));
    if m >> 127 == 1 { return fint(r.bool(), h); }
    fdy(r.bool(), m, -(sh as i64) - 1)
}

pub fn c18(c: &mut Ctx) {
    let edges: Vec<F192> = fp_edges().iter().map(|v| *v.f()).collect();
    for k in ["ZERO", "ONE", "MAX", "MIN", "MIN_POSITIVE", "PI", "PI_OVER_2", "PI_OVER_3", "PI_OVER_4", "PI_OVER_6", "E", "SQRT_2", "SQRT_3", "SQRT_10", "ONE_OVER_SQRT_2", "LN_2", "LN_3", "LN_10"] {
        if c.mine() { c.op(&format!("f.{k}"), &[], &[]); c.finish(); }
    }
    let usual: Vec<F192> = edges.iter().copied().filter(moderate).collect();
    for a in &usual { for b in &usual { if c.mine() { arith(c, *a, *b); } } }
    for a in &edges {
        for b in &edges {
            if !c.mine() { continue; }
            if moderate(a) && moderate(b) { continue; }
            arith(c, *a, *b);
        }
        for k in [0u64, 1, 2, 127, 128, 1 << 48, (1 << 48) - 1, (1 << 48) + 1, 1 << 63, u64::MAX] { if c.mine() { unary(c, *a, k); } }
    }
    for a in &usual { for k in [0, 1, -1, 2, -2, 3, -3, 5, 7, 10, -10, 65536, 1 << 30, i32::MAX, i32::MIN, i32::MIN + 1, 0x5555_5555, -0x5555_5556] { if c.mine() { small(c, *a, k); } } }
    // every difference of exponents
    for d in -140..=140i64 {
        for _ in 0..10 * c.scale {
            if !c.mine() { continue; }
            let e = c.rng.range(-60, 60);
            let (s, t) = (sgn(&mut c.rng), sgn(&mut c.rng));
            let a = at(mant(&mut c.rng) | s, e);
            let b = at(mant(&mut c.rng) | t, e + d);
            arith(c, a, b);
        }
    }
    // cancellation: nearly equal numbers
    for _ in 0..3000 * c.scale {
        if !c.mine() { continue; }
        let e = c.rng.range(-130, 130);
        let m = mant(&mut c.rng);
        let s = sgn(&mut c.rng);
        let a = at(m | s, e);
        let delta = match c.rng.below(3) { 0 => c.rng.below(4) as u128, 1 => 1u128 << c.rng.below(126), _ => c.rng.u128() >> (1 + c.rng.below(126)) };
        let t = sgn(&mut c.rng);
        let b = match c.rng.below(4) { 0 => at(TOP - 1 - delta.min(TOP - 1) | t, e - 1), _ => at(m.wrapping_add(delta) & (TOP - 1) | t, e) };
        arith(c, a, b);
    }
    // carries: sums, products and quotients around powers of two
    for _ in 0..3000 * c.scale {
        if !c.mine() { continue; }
        let e = c.rng.range(-20, 20);
        let m = mant(&mut c.rng);
        // b with a * b about a power of two
        let big = shlv(&[1], 255 + c.rng.us(2));
        let q = divv(&big, &of128(m | TOP));
        let q = q.iter().rev().fold(0u128, |x, l| x << 32 | *l as u128).wrapping_add(c.rng.below(5) as u128).wrapping_sub(2);
        let b = fdy(c.rng.bool(), q | 1, e);
        arith(c, at(m, e), b);
        // about 2^128: m + (2^128 - m) +- 1
        let s = (u128::MAX - (m | TOP)).wrapping_add(c.rng.below(5) as u128);
        let k = c.rng.range(-2, 2);
        arith(c, fdy(false, m | TOP, k), fdy(false, s, k));
        // divisible pairs
        let (x, y) = (c.rng.next() as u128, (c.rng.next() >> c.rng.below(60)).max(1) as u128);
        let k = c.rng.range(-90, 90);
        let (s, t) = (c.rng.bool(), c.rng.bool());
        arith(c, fdy(s, x * y, k), fdy(t, y, -k));
        // thirds and other quotients of i32
        let k = i32v(&mut c.rng);
        if k != 0 {
            let j = i32v(&mut c.rng);
            let a = c.ld(fv(fint(j < 0, j.unsigned_abs() as u128)));
            let b = c.op("f.div_i32", &[a], &[ni(k as i64)]);
            let d = c.op("f.mul_i32", &[b], &[ni(k as i64)]);
            c.op("f.sub", &[d, a], &[]);
            c.end();
        }
    }
    for _ in 0..6000 * c.scale {
        if !c.mine() { continue; }
        let w = if c.rng.chance(1, 50) { 3000 } else { 250 };
        let (a, b) = (fp(&mut c.rng, w), fp(&mut c.rng, w));
        arith(c, a, b);
        let k = i32v(&mut c.rng);
        small(c, a, k);
        let k = match c.rng.below(3) { 0 => c.rng.below(300), 1 => c.rng.next() >> c.rng.below(64), _ => (1 << 48) + c.rng.below(300) - 150 };
        unary(c, b, k);
    }
    // products and shifts at the ends of the range
    for _ in 0..2000 * c.scale {
        if !c.mine() { continue; }
        let far = |r: &mut Rng| { let s = sgn(r); let e = match r.below(4) { 0 => 1 + r.below(300), 1 => u64::MAX - r.below(300), 2 => (1 << r.below(64)) + 1, _ => (1u64 << 47) + r.below(600) - 300 }; f192(mant(r) | s, e) };
        let (a, b) = (far(&mut c.rng), far(&mut c.rng));
        let (x, y) = (c.ld(fv(a)), c.ld(fv(b)));
        for op in ["f.add", "f.sub", "f.mul", "f.div"] { c.op(op, &[x, y], &[]); }
        c.op("f.neg", &[x], &[]);
        c.op("f.abs", &[x], &[]);
        c.op("f.step_epsilon", &[x], &[]);
        let k = match c.rng.below(3) { 0 => c.rng.below(400), 1 => c.rng.next() >> c.rng.below(64), _ => 1 << c.rng.below(64) };
        c.op("f.shl", &[x], &[Val::n(k)]);
        c.op("f.shr", &[x], &[Val::n(k)]);
        c.op("f.is_integer", &[x], &[]);
        c.end();
    }
    // chains
    for _ in 0..1500 * c.scale {
        if !c.mine() { continue; }
        let mut v: Vec<usize> = vec![];
        for _ in 0..3 { let x = fp(&mut c.rng, 60); v.push(c.ld(fv(x))); }
        for _ in 0..8 {
            let (a, b) = (*c.rng.pick(&v), *c.rng.pick(&v));
            let k = i32v(&mut c.rng);
            let op = *c.rng.pick(&["f.add", "f.sub", "f.mul", "f.div", "f.mul_i32", "f.div_i32", "f.neg", "f.abs", "f.floor", "f.ceil", "f.round", "f.truncate", "f.frac", "f.max", "f.min"]);
            let t = match op {
                "f.add" | "f.sub" | "f.mul" | "f.div" | "f.max" | "f.min" => c.op(op, &[a, b], &[]),
                "f.mul_i32" | "f.div_i32" => c.op(op, &[a], &[ni(k as i64)]),
                _ => c.op(op, &[a], &[]),
            };
            if c.ok(t) && moderate(c.reg(t).f()) { v.push(t); }
        }
        c.end();
    }
}

// ------------------------------------------------------------------ C19

const MACHINE: [&str; 12] = ["u8", "u16", "u32", "u64", "usize", "u128", "i8", "i16", "i32", "i64", "isize", "i128"];

fn to_machine(c: &mut Ctx, a: F192) {
    let a = c.ld(fv(a));
    for t in MACHINE { c.op(&format!("f.as_{t}"), &[a], &[]); }
    c.finish();
}
fn to_others(c: &mut Ctx, a: F192) {
    let a = c.ld(fv(a));
    c.op("f.to_r", &[a], &[]);
    let r = c.op("f.to_r_own", &[a], &[]);
    c.op("f.of_r", &[r], &[]);
    c.op("f.to_f32", &[a], &[]);
    c.op("f.to_f64", &[a], &[]);
    c.end();
}
fn texts(c: &mut Ctx, a: F192) {
    let a = c.ld(fv(a));
    let s = c.op("f.approx", &[a], &[]);
    c.op("f.display", &[a], &[]);
    if let Val::S(b) = c.reg(s).clone() { if b.len() < 60 { c.op("f.from_str", &[], &[Val::S(b)]); } }
    c.finish();
}
/// exponents beyond those of rationals that fit in memory
fn far(c: &mut Ctx, count: u64) {
    for _ in 0..count * c.scale {
        if !c.mine() { continue; }
        let b = 14 + c.rng.below(46);
        let mut e = (1i64 << b) + match c.rng.below(3) { 0 => c.rng.range(-200, 200), _ => (c.rng.next() >> (64 - b)) as i64 };
        if e < (1 << 47) && c.rng.bool() { e = -e; }
        let m = mant(&mut c.rng) | sgn(&mut c.rng);
        let f = at(m, e);
        texts(c, f);
        let x = c.ld(fv(f));
        if e.unsigned_abs() > (1 << 32) + 300 { c.op("f.to_r", &[x], &[]); c.op("f.to_r_own", &[x], &[]); }
        for op in ["f.to_f32", "f.to_f64", "f.as_i128", "f.as_u64"] { c.op(op, &[x], &[]); }
        c.finish();
        // numerals; 10^(84732411018000) is about 2^(2^48)
        let l = c.rng.below(20);
        let t = if c.rng.bool() { format!("{}.{}", c.rng.below(9) + 1, c.rng.next() >> l) } else { format!("{}", c.rng.next() >> l) };
        let k = match c.rng.below(5) { 0 => 20000 + c.rng.below(1 << 30) as i64, 1 => c.rng.below(1 << 40) as i64 + 20000, 2 => 84732411018000 + c.rng.range(-200000, 200000), 3 => 84732411017800 + c.rng.range(-200, 200), _ => 10i64.pow(5 + c.rng.below(12) as u32) };
        let s = if c.rng.bool() { "-" } else { "" };
        let es = if c.rng.chance(2, 3) { "-" } else { "" };
        let s = format!("{s}{t}e{es}{k}");
        c.op("f.from_str", &[], &[sv(&s)]);
        c.finish();
    }
    for e in [15i64, 16, 31, 32, 33, 34, 38, 39, 40, 47, 48, 60] { for d in [-1i64, 0, 1, 127, 128] { for s in [1, -1] {
        if !c.mine() || (e >= 48 && s < 0) { continue; }
        let f = at(0, s * ((1 << e) + d));
        texts(c, f);
        let x = c.ld(fv(f));
        if e > 32 { c.op("f.to_r", &[x], &[]); }
        for op in ["f.to_f32", "f.to_f64"] { c.op(op, &[x], &[]); }
        c.finish();
    } } }
}
fn code(c: &mut Ctx, a: F192) {
    let a = c.ld(fv(a));
    let s = c.op("f.into_code13", &[a], &[]);
    if let Val::S(b) = c.reg(s).clone() {
        let f = c.op("f.from_code13", &[], &[Val::S(b)]);
        c.op("f.into_code13", &[f], &[]);
    }
    c.finish();
}
fn parse(c: &mut Ctx, s: &str) {
    if e_beyond(s) { return; }
    c.op("f.from_str", &[], &[sv(s)]);
    c.finish();
}
/// a positive exponent that would take the number out of range, or that would take too long
fn e_beyond(s: &str) -> bool {
    if e_too_big(s) { return true; }
    match s.to_ascii_lowercase().split_once('e') {
        None => false,
        Some((_, e)) => { let d: String = e.chars().filter(|c| c.is_ascii_digit()).collect(); let d = d.trim_start_matches('0'); !e.starts_with('-') && d.len() > 4 }
    }
}

pub fn c19(c: &mut Ctx) {
    far(c, 1500);
    let edges: Vec<F192> = fp_edges().iter().map(|v| *v.f()).collect();
    let usual: Vec<F192> = edges.iter().copied().filter(moderate).collect();
    for a in &edges { if c.mine() { to_machine(c, *a); code(c, *a); } }
    for a in &usual { if c.mine() { to_others(c, *a); texts(c, *a); } }
    // machine integers
    for k in 0..=128u32 { for d in -2..=2i32 { for neg in [false, true] {
        if !c.mine() { continue; }
        let m = if k == 128 { if d < 0 { 0u128.wrapping_sub((-d) as u128) } else { continue } } else { let b = 1u128 << k; if d < 0 { b.saturating_sub((-d) as u128) } else { b + d as u128 } };
        of_machine(c, neg, m);
        // the same number with a fraction, in both directions
        if m < TOP { to_machine(c, fint(neg, m)); }
        if m >> 120 == 0 && m > 0 { for f in [1u128, 64, 127] { to_machine(c, fdy(neg, m << 7 | f, -7)); } to_machine(c, fdy(neg, (m << 7) - 1, -7)); }
    } } }
    for _ in 0..6000 * c.scale {
        if !c.mine() { continue; }
        let (neg, m) = (c.rng.bool(), m128(&mut c.rng));
        of_machine(c, neg, m);
        let f = match c.rng.below(3) { 0 => fp(&mut c.rng, 140), 1 => near_half(&mut c.rng), _ => fint(neg, m) };
        to_machine(c, f);
    }
    // floats
    for wide in [false, true] {
        let (w, eb) = if wide { (52u32, 11u32) } else { (23, 8) };
        for e in 0..(1u64 << eb) { for f in [0u64, 1, (1 << w) - 1, 1 << (w - 1)] {
            if !c.mine() { continue; }
            if wide && !c.thorough && (e + f) % 3 != 0 && e > 8 && e < 2040 { continue; }
            let s = c.rng.below(2);
            of_float(c, s << (w + eb) | e << w | f, wide);
        } }
        for k in 0..w { for f in [1u64 << k, (1 << (k + 1)) - 1] { if c.mine() { of_float(c, f, wide); } } }
        for _ in 0..4000 * c.scale { if c.mine() { let b = float_bits(&mut c.rng, w, eb); of_float(c, b, wide); } }
    }
    // to floats: at, near and half-way between floats
    for _ in 0..8000 * c.scale {
        if !c.mine() { continue; }
        let wide = c.rng.bool();
        let (w, eb) = if wide { (52u32, 11u32) } else { (23, 8) };
        let bits = float_bits(&mut c.rng, w, eb);
        let e = (bits >> w & ((1 << eb) - 1)) as i64;
        if e == (1 << eb) - 1 { continue; }
        let f = (bits & ((1 << w) - 1)) | if e > 0 { 1 << w } else { 0 };
        let e2 = e.max(1) - ((1 << (eb - 1)) - 1) - w as i64;
        let g = *c.rng.pick(&[0i64, 1, 5, 40, 60]);
        let m = ((f as u128 * 2 + c.rng.below(2) as u128) << g).wrapping_add(c.rng.below(3) as u128);
        let m = if m > 4 && c.rng.bool() { m - c.rng.below(4) as u128 } else { m };
        let s = c.rng.bool();
        to_others(c, fdy(s, m, e2 - 1 - g));
    }
    for e in (-1090i64..-1060).chain(-160..-120).chain(120..135).chain(1015..1030) { for d in [0u128, 1, TOP - 1, TOP / 2, TOP - (1 << 74), TOP - (1 << 73), TOP - (1 << 103), TOP - (1 << 102), TOP - (1 << 102) - 1] {
        if c.mine() { let s = sgn(&mut c.rng); to_others(c, at(d | s, e)); }
    } }
    for _ in 0..4000 * c.scale {
        if !c.mine() { continue; }
        let f = fp(&mut c.rng, 1200);
        to_others(c, f);
        // rationals: any, and near 128-digit numbers and their midpoints
        let r = match c.rng.below(4) {
            0 => ratio(&mut c.rng, 10),
            1 => small_ratio(&mut c.rng, 1 << 30, 1 << 30),
            2 => {
                // just below a power of two, over any denominator
                let (q, k) = (ubig_nz(&mut c.rng, 4).into_raw(), c.rng.us(300));
                let t = if c.rng.bool() { vec![1 + c.rng.below(3) as u32] } else { shrv(&q, c.rng.us(9)) };
                let num = subv(&shlv(&q, 128), &if is0(&t) { vec![1] } else { t });
                let neg = c.rng.bool();
                if c.rng.bool() { ratio_of(neg, &shlv(&num, k), &q) } else { ratio_of(neg, &num, &shlv(&q, k)) }
            }
            _ => {
                let g = *c.rng.pick(&[0usize, 1, 3, 32, 100]);
                let m = mant(&mut c.rng) | TOP;
                let mut v = addv(&shlv(&of128(m), 1 + g), &shlv(&[c.rng.below(2) as u32], g));
                let d = c.rng.below(3) as u32;
                v = if c.rng.bool() { addv(&v, &[d]) } else { subv(&v, &[d]) };
                let k = c.rng.us(400);
                let neg = c.rng.bool();
                if c.rng.bool() { ratio_of(neg, &v, &shlv(&[1], k)) } else { let q = shlv(&[1], 64); ratio_of(neg, &mulv(&v, &addv(&q, &[1])), &shlv(&q, k)) }
            }
        };
        let r = c.ld(rat(r));
        c.op("f.of_r", &[r], &[]);
        c.op("f.of_r_own", &[r], &[]);
        c.end();
        // integers of any size
        let b = big(&mut c.rng, 12);
        let (v, neg) = b.into_raw();
        let r = c.ld(rv(neg, &v, &[1]));
        c.op("f.of_r", &[r], &[]);
        c.end();
    }
    // text: every short string over an alphabet that reaches every branch
    let alpha = [b'0', b'1', b'9', b'-', b'.', b'e', b'_', b'x', b'+', b'b'];
    for len in 0..=(if c.thorough { 6 } else { 5 }) {
        for k in 0..10u64.pow(len) {
            if !c.mine() { continue; }
            let mut t = k;
            let s: Vec<u8> = (0..len).map(|_| { let d = alpha[(t % 10) as usize]; t /= 10; d }).collect();
            let s = String::from_utf8(s).unwrap();
            if !e_beyond(&s) { c.op("f.from_str", &[], &[sv(&s)]); c.finish(); }
        }
    }
    for s in ["0e9223372036854775807", "0e-9223372036854775808", "0e9223372036854775808", "1e-9223372036854775808", "1e-9223372036854775809", "5e-9000000000000000000", "1e99999999999999999999999", "0.0e-99999999999999999999",
              "1e-20000", "1e2000", "-1e2000", "9.99e-3000", "0x", "0X10", "-0x0", "0b2", "0o8", "0xg", "0x_", "0x1_", "é", "1é", "٣", "1e٣", " 1", "1 ", "\n1", "+1", "++1", "--1", "-", "-.", ".", "inf", "nan", "1.2.3", "1e1.5", "1ee1"] {
        if c.mine() { parse(c, s); }
    }
    for zeros in 0..60usize { for d in ["1", "5", "123456789", "99999999999999999999999999999999999999999", "1000000000000000000000000000000000000000000"] {
        if !c.mine() { continue; }
        let z = "0".repeat(zeros);
        for s in [format!("0.{z}{d}"), format!("{d}{z}"), format!("{d}.{z}{d}"), format!("-0.{z}{d}e{zeros}"), format!("{d}{z}e-{zeros}"), format!("{d}.{z}"), format!("{d}{z}.{d}")] { parse(c, &s); }
    } }
    for e in -330..=330i64 { if c.mine() { let m = c.rng.below(1000); for s in [format!("1e{e}"), format!("-{m}e{e}"), format!("{m}.{m}E{e}"), format!("0.00{m}e{e}")] { parse(c, &s); } } }
    for _ in 0..8000 * c.scale {
        if !c.mine() { continue; }
        let s = decimal_text(&mut c.rng);
        parse(c, &s);
        let t = mutate(&mut c.rng, &s);
        parse(c, &t);
        let radix = *c.rng.pick(&[("0x", 16u64), ("0o", 8), ("0b", 2), ("0X", 16), ("0O", 8), ("0B", 2)]);
        let n = match c.rng.below(4) { 0 => 140, 1 => 40, _ => 12 };
        let k = 1 + c.rng.us(n);
        let mut s: String = if c.rng.chance(1, 4) { "-".into() } else { String::new() };
        s += radix.0;
        for _ in 0..k { if c.rng.chance(1, 12) { s.push('_'); } s.push(char::from_digit(c.rng.below(radix.1) as u32, radix.1 as u32).unwrap()); }
        parse(c, &s);
        if c.rng.chance(1, 3) { let t = mutate(&mut c.rng, &s); parse(c, &t); }
    }
    // printing
    for e in -400..=400i64 { for k in 0..3 {
        if !c.mine() { continue; }
        let _ = k;
        let m = mant(&mut c.rng) | sgn(&mut c.rng);
        texts(c, at(m, e));
    } }
    for e in -40..=60i32 {
        // next to powers of ten and to numbers of 19 digits
        for k in 0..6u32 {
            if !c.mine() { continue; }
            let t = 10u128.pow(e.unsigned_abs().min(38));
            let f = if e >= 0 && e <= 38 { fint(c.rng.bool(), t.wrapping_add(k as u128).wrapping_sub(2)) }
                else { let p = (0..e.unsigned_abs()).fold(vec![1u32], |v, _| mulv(&v, &[10])); near_ratio(c, &p, e < 0, k) };
            texts(c, f);
        }
    }
    for _ in 0..5000 * c.scale {
        if !c.mine() { continue; }
        let f = match c.rng.below(5) {
            0 => { let w = if c.rng.chance(1, 10) { 25000 } else { 3000 }; fp(&mut c.rng, w) } 1 => near_half(&mut c.rng), 2 => fp(&mut c.rng, 80),
            3 => { let m = m128(&mut c.rng); fint(c.rng.bool(), m) }
            _ => { // short decimals
                let (m, k) = (c.rng.next() >> c.rng.below(60), c.rng.below(30) as usize);
                let p = (0..k).fold(vec![1u32], |v, _| mulv(&v, &[10]));
                quotient(c.rng.bool(), &of128(m.max(1) as u128), &p)
            }
        };
        texts(c, f);
    }
    // the 13-character code
    for e in -2080..=2080i64 {
        if !c.mine() { continue; }
        let m = mant(&mut c.rng) | sgn(&mut c.rng);
        code(c, at(m, e));
        if e.abs() > 1840 { for d in [0u128, TOP - 1, 1 << 62, (1 << 62) - 1, TOP - (1 << 61), TOP - (1 << 61) - 1] { code(c, at(d, e)); code(c, at(d | TOP, e)); } }
    }
    // mantissas around the rounding and carry points of the code: CB * 2^k and 2 CB
    let cb = 839299365868340224u128 * 31;
    for d in -40..=40i128 { for sh in [0u32, 1, 2, 3, 20, 60] { for base in [cb, 2 * cb - 1, 2 * cb, cb + cb / 2] {
        if !c.mine() { continue; }
        let b = base.leading_zeros().min(sh);
        let m = ((base << b) as i128 + d) as u128;
        let e = c.rng.range(-300, 300);
        let s = c.rng.bool();
        code(c, fdy(s, m, e));
    } } }
    for _ in 0..5000 * c.scale {
        if !c.mine() { continue; }
        let f = fp(&mut c.rng, 300);
        code(c, f);
        let n = match c.rng.below(10) { 0 => c.rng.us(16), 1 => 12, _ => 13 };
        let mut s: Vec<u8> = (0..n).map(|_| *c.rng.pick(b"0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz")).collect();
        if c.rng.chance(1, 6) && n > 0 { let k = c.rng.us(n); s[k] = *c.rng.pick(b"/:@[`{-+ \0\xff0z"); }
        if c.rng.chance(1, 6) { for k in 1..s.len() { s[k] = b'0'; } }
        if c.rng.chance(1, 6) && n > 2 { s[0] = b'z'; if c.rng.bool() { s[1] = *c.rng.pick(b"yzx"); } }
        let f = c.op("f.from_code13", &[], &[Val::S(s)]);
        c.op("f.into_code13", &[f], &[]);
        c.finish();
    }
    for a in b'0'..=b'z' { for b in b'0'..=b'z' { if c.mine() { c.op("f.from_code13", &[], &[Val::S(vec![a, b])]); let mut s = vec![a, b, a]; s.resize(13, b'0'); c.op("f.from_code13", &[], &[Val::S(s)]); c.finish(); } } }
    let _ = bi;
}

fn of_machine(c: &mut Ctx, neg: bool, m: u128) {
    for (t, bits) in [("u8", 8u32), ("u16", 16), ("u32", 32), ("u64", 64), ("usize", 64), ("u128", 128)] {
        if !neg && (bits == 128 || m >> bits == 0) { c.op(&format!("f.of_{t}"), &[], &[Val::N(false, m)]); }
        let s = t.replace('u', "i").replace("isize", "isize");
        let lim = 1u128 << (bits - 1);
        if (neg && m <= lim) || (!neg && m < lim) { c.op(&format!("f.of_{s}"), &[], &[Val::N(neg && m > 0, m)]); }
    }
    c.finish();
}
fn of_float(c: &mut Ctx, bits: u64, wide: bool) {
    let t = if wide { "f64" } else { "f32" };
    let f = c.op(&format!("f.of_{t}"), &[], &[Val::N(false, bits as u128)]);
    c.op(&format!("f.to_{t}"), &[f], &[]);
    c.finish();
}
/// num/den to 128 digits, truncated
fn quotient(neg: bool, num: &[u32], den: &[u32]) -> F192 {
    let bits = |v: &[u32]| { let v = norm(v.to_vec()); v.len() as i64 * 32 - v[v.len() - 1].leading_zeros() as i64 };
    if is0(num) { return f192(0, 0); }
    let k = 129 + bits(den) - bits(num);
    let q = if k >= 0 { divv(&shlv(num, k as usize), den) } else { divv(num, &shlv(den, (-k) as usize)) };
    let b = bits(&q);
    let m = shrv(&q, (b - 128).max(0) as usize).iter().rev().fold(0u128, |x, l| x << 32 | *l as u128);
    fdy(neg, m, -k + (b - 128).max(0))
}
fn near_ratio(c: &mut Ctx, p: &[u32], inv: bool, k: u32) -> F192 {
    let f = if inv { quotient(c.rng.bool(), &[1], p) } else { quotient(c.rng.bool(), p, &[1]) };
    let (d, e) = crate::val::f192_parts(&f);
    let m = d & (TOP - 1);
    let m2 = match k { 0..=1 => m, 2 => m.wrapping_add(1), 3 => m.wrapping_sub(1), 4 => m.wrapping_add(1 << 60), _ => m.wrapping_sub(1 << 60) } & (TOP - 1);
    f192(m2 | d & TOP, e)
}

// ------------------------------------------------------------------ C20

fn logs(c: &mut Ctx, a: F192) {
    let a = c.ld(fv(a));
    for op in ["f.ilog2", "f.log2", "f.ln", "f.sqrt"] { c.op(op, &[a], &[]); }
    c.finish();
}
fn trig(c: &mut Ctx, a: F192) {
    let a = c.ld(fv(a));
    for op in ["f.sin", "f.cos", "f.tan"] { c.op(op, &[a], &[]); }
    c.finish();
}
fn atrig(c: &mut Ctx, a: F192) {
    let a = c.ld(fv(a));
    for op in ["f.asin", "f.acos", "f.atan"] { c.op(op, &[a], &[]); }
    c.finish();
}
/// k times the constant, off by a few units or by a small amount
fn near_const(c: &mut Ctx, base: F192, k: i64, den: i64) -> F192 {
    let (d, e) = crate::val::f192_parts(&base);
    let m = of128(d | TOP);
    if k == 0 { return fp(&mut c.rng, 100); }
    let f = quotient(k < 0, &mulv(&m, &of128(k.unsigned_abs() as u128)), &of128(den as u128));
    let (d, e1) = crate::val::f192_parts(&f);
    let off = match c.rng.below(5) { 0 => 0, 1 => c.rng.below(3) as u128, 2 => 0u128.wrapping_sub(c.rng.below(3) as u128), 3 => 1u128 << c.rng.below(120), _ => 0u128.wrapping_sub(1 << c.rng.below(120)) };
    f192((d & (TOP - 1)).wrapping_add(off) & (TOP - 1) | d & TOP, (e1 as i64 + e as i64 - FEXP) as u64)
}

pub fn c20(c: &mut Ctx) {
    let edges: Vec<F192> = fp_edges().iter().map(|v| *v.f()).collect();
    let usual: Vec<F192> = edges.iter().copied().filter(moderate).collect();
    for k in ["ZERO", "ONE", "MAX", "MIN", "MIN_POSITIVE", "PI", "PI_OVER_2", "PI_OVER_3", "PI_OVER_4", "PI_OVER_6", "E", "SQRT_2", "SQRT_3", "SQRT_10", "ONE_OVER_SQRT_2", "LN_2", "LN_3", "LN_10"] {
        if c.mine() { c.op(&format!("f.{k}"), &[], &[]); c.finish(); }
    }
    for a in &edges { if c.mine() { rounding(c, *a); } }
    // rounding
    for _ in 0..8000 * c.scale {
        if !c.mine() { continue; }
        let a = match c.rng.below(3) { 0 => fp(&mut c.rng, 200), _ => near_half(&mut c.rng) };
        rounding(c, a);
    }
    for e in -140..=140i64 { for d in [0u128, 1, TOP - 1, TOP / 2, TOP / 2 + 1, TOP / 2 - 1] { for s in [0, TOP] { if c.mine() { rounding(c, at(d | s, e)); } } } }
    for a in &usual { if c.mine() { logs(c, *a); } if c.mine() { trig(c, *a); } if c.mine() { atrig(c, *a); } }
    for k in -30..=30i64 { for den in [1i64, 2, 3, 4, 5, 7, 8] {
        if !c.mine() { continue; }
        let f = quotient(k < 0, &of128(k.unsigned_abs() as u128), &of128(den as u128));
        logs(c, f); trig(c, f); atrig(c, f);
        let x = c.ld(fv(f));
        c.op("f.pow2", &[x], &[]);
        for e in [0i64, 1, 2, 3, 5, 10, -1, -2, -3] { c.op("f.powi", &[x], &[ni(e)]); }
        c.finish();
    } }
    // logarithms, roots and exponentials
    for e in -300..=300i64 { for k in 0..2 {
        if !c.mine() { continue; }
        let m = if k == 0 { *c.rng.pick(&[0u128, 1, 2, TOP - 1, TOP - 2, TOP / 2, TOP / 2 + 1]) } else { mant(&mut c.rng) };
        let x = c.ld(fv(at(m, e)));
        for op in ["f.ilog2", "f.log2", "f.ln", "f.sqrt"] { c.op(op, &[x], &[]); }
        c.finish();
    } }
    for _ in 0..2500 * c.scale {
        if !c.mine() { continue; }
        let f = match c.rng.below(4) { 0 => fp(&mut c.rng, 4000), 1 => fp(&mut c.rng, 3), _ => { let m = m128(&mut c.rng); fint(c.rng.chance(1, 8), m) } };
        logs(c, f);
        // close to 1
        let k = c.rng.below(127);
        let d = if c.rng.bool() { c.rng.below(1 << 20) as u128 >> c.rng.below(20) } else { 1u128 << k };
        let f = if c.rng.bool() { at(d.min(TOP - 1), 0) } else { at(TOP - 1 - d.min(TOP - 1), -1) };
        logs(c, f);
    }
    // squares and their neighbours
    for _ in 0..1500 * c.scale {
        if !c.mine() { continue; }
        let r = (c.rng.next() >> c.rng.below(63)).max(1) as u128;
        let k = c.rng.range(-200, 200);
        let m = (r * r).wrapping_add(*c.rng.pick(&[0u128, 0, 1, u128::MAX]));
        let x = c.ld(fv(fdy(false, m, k)));
        c.op("f.sqrt", &[x], &[]);
        c.finish();
    }
    for a in &edges { if c.mine() { let x = c.ld(fv(*a)); c.op("f.sqrt", &[x], &[]); c.op("f.ilog2", &[x], &[]); for e in [0i64, 1, 2, -1] { c.op("f.powi", &[x], &[ni(e)]); } c.finish(); } }
    // powers of two
    for k in -400..=400i64 { if c.mine() { c.op("f.from_pow2", &[], &[ni(k)]); let x = c.ld(fv(fint(k < 0, k.unsigned_abs() as u128))); c.op("f.pow2", &[x], &[]); c.finish(); } }
    for k in [1i64 << 20, 1 << 31, 1 << 40, (1 << 47) - 1, -(1 << 47), 1 << 61, i64::MIN, i64::MIN + 1, -(1 << 50), -(1 << 62)] { if c.mine() { c.op("f.from_pow2", &[], &[ni(k)]); c.finish(); } }
    // down to the smallest exponent
    for d in -300..300i64 {
        if !c.mine() { continue; }
        let k = -(1i64 << 48) + d;
        c.op("f.from_pow2", &[], &[ni(k)]);
        let x = c.ld(fv(fdy(true, k.unsigned_abs() as u128, 0)));
        c.op("f.pow2", &[x], &[]);
        let m = mant(&mut c.rng) >> 90;
        let x = c.ld(fv(fdy(true, ((k.unsigned_abs() as u128) << 37) + m, -37)));
        c.op("f.pow2", &[x], &[]);
        c.finish();
    }
    for _ in 0..300 * c.scale {
        if !c.mine() { continue; }
        let e = c.rng.range(39, 200);
        let m = mant(&mut c.rng) | sgn(&mut c.rng);
        let e = if m & TOP == 0 && e < 64 { e.min(60) } else { e };
        let x = c.ld(fv(at(m, e)));
        c.op("f.pow2", &[x], &[]);
        c.finish();
    }
    for _ in 0..2500 * c.scale {
        if !c.mine() { continue; }
        let f = match c.rng.below(4) { 0 => fp(&mut c.rng, 3), 1 => { let s = c.rng.range(-120, 12); let m = mant(&mut c.rng) | sgn(&mut c.rng); at(m, s) } 2 => near_half(&mut c.rng), _ => { let e = c.rng.range(0, 39); let m = mant(&mut c.rng) | sgn(&mut c.rng); at(m, e) } };
        let (_, e) = crate::val::f192_parts(&f);
        if e as i64 - FEXP + 127 >= 40 { continue; }
        let x = c.ld(fv(f));
        c.op("f.pow2", &[x], &[]);
        c.finish();
    }
    // integer powers
    for _ in 0..2500 * c.scale {
        if !c.mine() { continue; }
        let f = match c.rng.below(3) { 0 => fp(&mut c.rng, 30), 1 => fint(c.rng.bool(), 2 + c.rng.below(100) as u128), _ => { let m = mant(&mut c.rng) | sgn(&mut c.rng); at(m, if c.rng.bool() { 0 } else { -1 }) } };
        let k = match c.rng.below(4) { 0 => c.rng.range(-300, 300), 1 => { let s = 1i64 << c.rng.below(8); s + c.rng.range(-1, 1) } _ => c.rng.range(-20, 20) };
        let x = c.ld(fv(f));
        c.op("f.powi", &[x], &[ni(k)]);
        c.finish();
    }
    for k in [i64::MIN, i64::MIN + 1, i64::MAX, i64::MAX - 1, -1, 0, 1, 1 << 40, -(1 << 40), (1 << 62) + 1] {
        for (s, e) in [(0u128, 0i64), (TOP, 0), (0, 1), (0, -1), (TOP, 1), (TOP, -3)] {
            if !c.mine() { continue; }
            if e != 0 && k.unsigned_abs() > 1 << 38 { continue; }
            let x = c.ld(fv(at(s, e)));
            c.op("f.powi", &[x], &[ni(k)]);
            c.finish();
        }
        if c.mine() { let x = c.ld(fv(f192(0, 0))); c.op("f.powi", &[x], &[ni(k)]); c.finish(); }
    }
    for _ in 0..1500 * c.scale {
        if !c.mine() { continue; }
        let mut x = match c.rng.below(3) { 0 => fp(&mut c.rng, 30), 1 => fint(false, 1 + c.rng.below(1000) as u128), _ => { let m = mant(&mut c.rng); at(m, 0) } };
        if c.rng.chance(19, 20) { let (d, e) = crate::val::f192_parts(&x); x = f192(d & (TOP - 1), e); }
        let y = match c.rng.below(3) { 0 => fp(&mut c.rng, 6), 1 => near_half(&mut c.rng), _ => quotient(c.rng.bool(), &[c.rng.below(60) as u32], &[1 + c.rng.below(12) as u32]) };
        let (_, e) = crate::val::f192_parts(&y);
        if e as i64 - FEXP + 127 > 7 { continue; }
        let (x, y) = (c.ld(fv(x)), c.ld(fv(y)));
        c.op("f.pow", &[x, y], &[]);
        c.finish();
    }
    // trigonometry: next to the multiples of pi/2, pi/3, pi/4 and pi/6, where the branches meet
    for k in -64..=64i64 { for den in [2i64, 3, 4, 6] { for _ in 0..2 {
        if !c.mine() { continue; }
        let f = near_const(c, F192::PI, k, den);
        trig(c, f);
    } } }
    for _ in 0..6500 * c.scale {
        if !c.mine() { continue; }
        let f = match c.rng.below(8) {
            5.. => { let t = c.rng.next() as u128 | 1; let low = c.rng.next() as u128 >> 16; fdy(c.rng.bool(), t << 48 | low, -110 - c.rng.range(0, 1)) } // even over 0..4
            0 => fp(&mut c.rng, 60), 1 => fp(&mut c.rng, 4), 2 => { let k = c.rng.range(-100000, 100000); near_const(c, F192::PI, k, 8) }
            3 => { let m = mant(&mut c.rng) | sgn(&mut c.rng); let e = c.rng.range(-6, 4); at(m, e) }
            _ => { let k = c.rng.range(-2000, 2000); quotient(k < 0, &of128(k.unsigned_abs() as u128), &[200]) }
        };
        trig(c, f);
    }
    // inverse functions: 0, 1/2, 1/sqrt(2), 1, 1.4, sqrt(2) ...
    for _ in 0..3000 * c.scale {
        if !c.mine() { continue; }
        let f = match c.rng.below(6) {
            0 => fp(&mut c.rng, 60),
            1 => { let b = *c.rng.pick(&[F192::ONE_OVER_SQRT_2, F192::ONE, F192::SQRT_2]); let k = if c.rng.bool() { 1 } else { -1 }; near_const(c, b, k, 1) }
            2 => { let k = c.rng.range(-2000, 2000); quotient(k < 0, &of128(k.unsigned_abs() as u128), &[1000]) }
            3 => { let m = mant(&mut c.rng) | sgn(&mut c.rng); let e = c.rng.range(-6, 4); at(m, e) }
            4 => { let m = mant(&mut c.rng) | sgn(&mut c.rng); at(m, -1) }
            _ => { let m = (TOP - 1) >> c.rng.below(40) << c.rng.below(8) & (TOP - 1); let s = sgn(&mut c.rng); at(m | s, if c.rng.bool() { -1 } else { 0 }) }
        };
        atrig(c, f);
    }
}
