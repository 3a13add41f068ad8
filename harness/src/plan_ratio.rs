//! Sessions for the rational properties: C08, C09, C12, C13, C14.

use crate::gen::*;
use crate::plan::*;
use crate::sess::Ctx;
use crate::val::Val;
use hmath::*;

pub fn rv(neg: bool, num: &[u32], den: &[u32]) -> Val { Val::R(ratio_of(neg, num, den)) }
pub fn rat(r: Ratio) -> Val { Val::R(r) }

/// Rationals at the boundaries.
pub fn ratio_edges() -> Vec<Val> {
    const M: u32 = u32::MAX;
    let ints: Vec<Vec<u32>> = vec![vec![0], vec![1], vec![2], vec![3], vec![7], vec![1 << 31], vec![M], vec![0, 1], vec![1, 1], vec![M, M], vec![0, 0, 1], vec![M - 1, 0, M]];
    let mut v = vec![];
    for n in &ints {
        for d in &ints {
            if is0(d) || gcdv(n, d) != vec![1] { continue; }
            v.push(rv(false, n, d));
            if !is0(n) { v.push(rv(true, n, d)); }
        }
    }
    v
}

pub fn pair(c: &mut Ctx, a: Val, b: Val, i: Val, k: i32) {
    let (a, b, i) = (c.ld(a), c.ld(b), c.ld(i));
    let k = ni(k as i64);
    for op in ["r.add", "r.sub", "r.mul", "r.div"] { c.op(op, &[a, b], &[]); }
    for op in ["r.add_mut", "r.sub_mut", "r.mul_mut", "r.div_mut"] { c.op_cp(op, &[a, b], &[]); }
    for op in ["r.add_bi", "r.sub_bi", "r.mul_bi", "r.div_bi"] { c.op(op, &[a, i], &[]); }
    for op in ["r.add_bi_mut", "r.sub_bi_mut", "r.mul_bi_mut", "r.div_bi_mut"] { c.op_cp(op, &[a, i], &[]); }
    for op in ["r.add_i32", "r.sub_i32", "r.mul_i32", "r.div_i32"] { c.op(op, &[a], std::slice::from_ref(&k)); }
    for op in ["r.add_i32_mut", "r.sub_i32_mut", "r.mul_i32_mut", "r.div_i32_mut"] { c.op_cp(op, &[a], std::slice::from_ref(&k)); }
    c.op("r.common_denom", &[a, b], &[]);
    c.end();
}

pub fn unary(c: &mut Ctx, a: Val, e: i32) {
    let a = c.ld(a);
    for op in ["r.neg", "r.abs", "r.reci", "r.is_zero", "r.is_one", "r.is_neg", "r.is_integer", "r.numer", "r.denom", "r.pair"] { c.op(op, &[a], &[]); }
    for op in ["r.neg_mut", "r.abs_mut", "r.reci_mut"] { c.op_cp(op, &[a], &[]); }
    c.op("r.pow_i32", &[a], &[ni(e as i64)]);
    c.op_cp("r.pow_i32_mut", &[a], &[ni(e as i64)]);
    c.end();
}

/// Ratio::shrink: operands of every pair of lengths, limits at and around them
pub fn shrinks(c: &mut Ctx, count: u64) {
    let one = |c: &mut Ctx, ln: usize, ld: usize, limit: u64| {
        let exact = |r: &mut Rng, k: usize| { let mut v = limbs(r, k); v.resize(k, 0); if v[k - 1] == 0 { v[k - 1] = if r.bool() { 1 } else { u32v(r).max(1) }; } v };
        let (a, b) = (exact(&mut c.rng, ln), exact(&mut c.rng, ld));
        let neg = c.rng.bool();
        let x = c.ld(rv(neg, &a, &b));
        c.op("r.shrink", &[x], &[Val::n(limit)]);
        c.finish();
    };
    for ln in 1..=9usize { for ld in 1..=9usize { for limit in 0..=9u64 { if c.mine() { one(c, ln, ld, limit); } } } }
    for _ in 0..count * c.scale {
        if !c.mine() { continue; }
        let (ln, ld) = (1 + c.rng.us(24), 1 + c.rng.us(24));
        let limit = match c.rng.below(4) { 0 => c.rng.below(30), 1 => (ln as u64 + c.rng.below(3)).saturating_sub(1), 2 => (ld as u64 + c.rng.below(3)).saturating_sub(1), _ => 3 + c.rng.below(4) };
        one(c, ln, ld, limit);
    }
    for _ in 0..100 * c.scale {
        if !c.mine() { continue; }
        let (ln, ld) = (20 + c.rng.us(180), 20 + c.rng.us(180));
        let limit = match c.rng.below(3) { 0 => c.rng.below(220), 1 => (ln as u64 + c.rng.below(3)) - 1, _ => (ld as u64 + c.rng.below(3)) - 1 };
        one(c, ln, ld, limit);
    }
}

pub fn c08(c: &mut Ctx) {
    for op in ["r.zero", "r.one", "r.default"] { if c.mine() { c.one(op, vec![], &[]); } }
    let s = ratio_edges();
    let ks = [0, 1, -1, 2, -2, 3, 10, i32::MAX, i32::MIN, i32::MIN + 1, 65536];
    for (i, a) in s.iter().enumerate() {
        for (j, b) in s.iter().enumerate() {
            if !c.mine() { continue; }
            if (i + j) % (if c.thorough { 1 } else { 3 }) != 0 { continue; }
            let t = big(&mut c.rng, 4);
            pair(c, a.clone(), b.clone(), Val::I(t), ks[(i + j) % ks.len()]);
        }
        for e in -5..=5 { if c.mine() { unary(c, a.clone(), e); } }
        for k in ks {
            if c.mine() { pair(c, a.clone(), a.clone(), Val::I(BigInt::from_raw(vec![0], false)), k); }
        }
        for t in [1i64, 2, -1, -2, 6, 1 << 31] {
            if !c.mine() { continue; }
            let b = BigInt::from_raw(of128(t.unsigned_abs() as u128), t < 0);
            pair(c, a.clone(), s[(i * 7 + 3) % s.len()].clone(), Val::I(b), t as i32);
        }
    }
    // powers of units and of zero, at every extreme exponent
    for k in [0, 1, -1, 2, 3, i32::MAX, i32::MIN, i32::MIN + 1, -3] {
        for (neg, n) in [(false, 1u32), (true, 1), (false, 0)] {
            if !c.mine() { continue; }
            let a = c.ld(rv(neg, &[n], &[1]));
            c.op("r.pow_i32", &[a], &[ni(k as i64)]);
            c.op_cp("r.pow_i32_mut", &[a], &[ni(k as i64)]);
            c.end();
        }
    }
    // from numerator and denominator: all signs, common factors, zeros
    for d in -13i64..=13 {
        for nn in -13i64..=13 {
            if !c.mine() { continue; }
            c.op("r.from_dn_i32", &[], &[ni(d), ni(nn)]);
            let (a, b) = (c.ld(iv(d)), c.ld(iv(nn)));
            c.op("r.from_dn", &[a, b], &[]);
            c.end();
            let r = c.ld(rv(nn < 0, &[nn.unsigned_abs() as u32], &[3]));
            let (x, y) = (d as f64 / 4.0, nn as f64 * 1.75);
            c.op("r.try_from_dn_f64", &[], &[Val::N(false, x.to_bits() as u128), Val::N(false, y.to_bits() as u128)]);
            for o in ["pair", "pair_own", "pair_r", "pair_bool"] { c.op(&format!("r.{o}"), &[r], &[]); }
            c.end();
        }
    }
    for x in [f64::NAN, f64::INFINITY, 1e300, -1e-300, 7.9] { for y in [f64::NEG_INFINITY, f64::NAN, 2.5, -1e20] {
        if c.mine() { c.op("r.try_from_dn_f64", &[], &[Val::N(false, x.to_bits() as u128), Val::N(false, y.to_bits() as u128)]); c.finish(); }
    } }
    shrinks(c, 2500);
    let ex = [i32::MIN, i32::MIN + 1, i32::MAX, -1, 0, 1, 2, -2, 1 << 30, -(1 << 30), 46341, 65536, 6];
    for d in ex { for nn in ex { if c.mine() { c.one("r.from_dn_i32", vec![], &[ni(d as i64), ni(nn as i64)]); } } }
    for _ in 0..6000 * c.scale {
        if !c.mine() { continue; }
        let (a, b, t) = (ratio(&mut c.rng, 10), ratio(&mut c.rng, 10), big(&mut c.rng, 8));
        let k = i32v(&mut c.rng);
        // sometimes an integer operand sharing factors with the rational
        let t = match c.rng.below(4) {
            0 => { let raw = a.clone().into_raw(); BigInt::from_raw(raw.0, c.rng.bool()) }
            1 => { let raw = a.clone().into_raw(); let neg = c.rng.bool() && !is0(&raw.2); BigInt::from_raw(raw.2, neg) }
            _ => t,
        };
        pair(c, rat(a), rat(b), Val::I(t), k);
    }
    for _ in 0..4000 * c.scale {
        if !c.mine() { continue; }
        let a = ratio(&mut c.rng, 4);
        let e = c.rng.range(-9, 9) as i32;
        unary(c, rat(a), e);
    }
    for _ in 0..3000 * c.scale {
        if !c.mine() { continue; }
        let (d, m) = (big(&mut c.rng, 10), big(&mut c.rng, 10));
        let g = big_nz(&mut c.rng, 4);
        // with a common factor
        let (dr, dn) = d.into_raw();
        let (mr, mn) = m.into_raw();
        let gr = g.into_raw().0;
        let (dr, mr) = if c.rng.bool() { (mulv(&dr, &gr), mulv(&mr, &gr)) } else { (dr, mr) };
        let (a, b) = (c.ld(Val::I(BigInt::from_raw(dr, dn))), c.ld(Val::I(BigInt::from_raw(mr, mn))));
        c.op("r.from_dn", &[a, b], &[]);
        let (x, y) = (i32v(&mut c.rng), i32v(&mut c.rng));
        c.op("r.from_dn_i32", &[], &[ni(x as i64), ni(y as i64)]);
        c.end();
    }
    // histories: field laws on chains of results
    for _ in 0..2500 * c.scale {
        if !c.mine() { continue; }
        let mut r: Vec<usize> = vec![];
        for _ in 0..3 { let v = ratio(&mut c.rng, 3); r.push(c.ld(rat(v))); }
        let b = big(&mut c.rng, 3);
        let b = c.ld(Val::I(b));
        for _ in 0..10 {
            let (x, y) = (*c.rng.pick(&r), *c.rng.pick(&r));
            let k = ni(i32v(&mut c.rng) as i64);
            let op = *c.rng.pick(&["r.add", "r.sub", "r.mul", "r.div", "r.add_mut", "r.sub_mut", "r.mul_mut", "r.div_mut", "r.add_i32", "r.mul_i32", "r.div_i32_mut", "r.sub_i32_mut",
                "r.add_bi", "r.mul_bi_mut", "r.div_bi", "r.sub_bi_mut", "r.neg", "r.abs", "r.reci", "r.reci_mut"]);
            let args: Vec<usize> = if op.contains("_bi") { vec![x, b] } else if op.contains("i32") || ["r.neg", "r.abs", "r.reci", "r.reci_mut"].contains(&op) { vec![x] } else { vec![x, y] };
            let cs: Vec<Val> = if op.contains("i32") { vec![k] } else { vec![] };
            let d = if op.ends_with("_mut") { c.op_cp(op, &args, &cs) } else { c.op(op, &args, &cs) };
            if c.ok(d) { r.push(d); }
        }
        c.end();
    }
    // pairs of integer numerals
    for d in ["0", "-0", "1", "-1", "6", "0x10", "-0b110", "00", "", "-", "1.5", "12345678901234567890123", "1_000"] {
        for m in ["0", "1", "-4", "0xff", "x", "", "98765432109876543210"] {
            if c.mine() { c.one("r.try_from_pair", vec![], &[sv(d), sv(m)]); }
        }
    }
    // complex numbers
    for _ in 0..800 * c.scale {
        if !c.mine() { continue; }
        let mut q = vec![];
        for _ in 0..4 { let v = ratio(&mut c.rng, 4); q.push(c.ld(rat(v))); }
        let x = c.op("c.make", &[q[0], q[1]], &[]);
        let y = c.op("c.make", &[q[2], q[3]], &[]);
        let k = ni(i32v(&mut c.rng) as i64);
        c.op("c.real", &[x], &[]);
        c.op("c.imaginary", &[x], &[]);
        let z = c.op("c.add", &[x, y], &[]);
        c.op_cp("c.add_mut", &[x, y], &[]);
        c.op("c.add", &[z, z], &[]);
        c.op("c.add_i32", &[x], &[k.clone()]);
        c.op_cp("c.add_i32_mut", &[y], &[k]);
        let (p, q) = (i32v(&mut c.rng) as i64, i32v(&mut c.rng) as i64);
        c.op("c.make_i32", &[], &[ni(p), ni(q)]);
        c.end();
    }
    for a in ["1.5", "-3", "1e-2", "x", "", "0x1f"] {
        for b in ["0", "2.25e3", "1..2", "-7"] { if c.mine() { c.one("c.try_make_str", vec![], &[sv(a), sv(b)]); } }
    }
}

pub fn rounding(c: &mut Ctx, a: Val) {
    let a = c.ld(a);
    for op in ["r.truncate", "r.truncate_bi", "r.frac", "r.truncate_and_frac", "r.floor", "r.floor_bi", "r.round", "r.round_bi", "r.is_integer", "i.of_r", "i.of_r_own", "u.of_r", "u.of_r_own",
        "r.as_i64", "r.as_u8"] { c.op(op, &[a], &[]); }
    for op in ["r.truncate_mut", "r.frac_mut"] { c.op_cp(op, &[a], &[]); }
    c.end();
}

pub fn c09(c: &mut Ctx) {
    // every small fraction
    let top = if c.thorough { 60 } else { 24 };
    for d in 1..=top {
        for nn in 0..=(3 * d + 1) { for neg in [false, true] { if c.mine() { rounding(c, rv(neg, &[nn], &[d])); } } }
    }
    for a in ratio_edges() { if c.mine() { rounding(c, a); } }
    // k + 1/2 and its neighbours, for k and the perturbation of every size
    for len in 0..12usize {
        for dl in 1..12usize {
            for e in 0..6 {
                for neg in [false, true] {
                    if !c.mine() { continue; }
                    let k = if len == 0 { vec![0] } else { limbs(&mut c.rng, len) };
                    let d = shlv(&limbs(&mut c.rng, dl), 1);
                    if is0(&d) { continue; }
                    let base = mulv(&k, &d);
                    let half = shrv(&d, 1);
                    let m = match e { 0 => addv(&base, &half), 1 => addv(&addv(&base, &half), &[1]), 2 => addv(&base, &subv(&half, &[1])), 3 => addv(&base, &[1]), 4 => addv(&base, &subv(&d, &[1])), _ => base };
                    rounding(c, rv(neg, &m, &d));
                }
            }
        }
    }
    for _ in 0..8000 * c.scale {
        if !c.mine() { continue; }
        let a = ratio(&mut c.rng, 20);
        rounding(c, rat(a));
    }
    // histories: x = truncate(x) + frac(x), floor(-x) = -ceil(x), round of results
    for _ in 0..2000 * c.scale {
        if !c.mine() { continue; }
        let a = ratio(&mut c.rng, 8);
        let a = c.ld(rat(a));
        let t = c.op("r.truncate", &[a], &[]);
        let f = c.op("r.frac", &[a], &[]);
        let s = c.op("r.add", &[t, f], &[]);
        c.op("r.op_eq", &[s, a], &[]);
        c.op("r.floor", &[t], &[]);
        c.op("r.round", &[t], &[]);
        c.op("r.truncate", &[f], &[]);
        c.op("r.floor", &[f], &[]);
        c.op("r.round", &[f], &[]);
        let ng = c.op("r.neg", &[a], &[]);
        c.op("r.floor", &[ng], &[]);
        c.op("r.round", &[ng], &[]);
        c.op_cp("r.frac_mut", &[ng], &[]);
        c.end();
    }
}

pub fn decimal_text(r: &mut Rng) -> String {
    let digs = |r: &mut Rng, n: usize| -> String {
        let kind = r.below(5);
        (0..n).map(|_| match kind { 0 => '0', 1 => '9', 2 => *r.pick(&['0', '5']), _ => (b'0' + r.below(10) as u8) as char }).collect()
    };
    let int = |r: &mut Rng| -> String {
        match r.below(5) {
            0 => "0".into(),
            _ => { let n = match r.below(6) { 0 => 40, 1 => 20, _ => 9 }; let k = 1 + r.us(n); let s = digs(r, k); let t = s.trim_start_matches('0'); if t.is_empty() { "1".into() } else { t.to_string() } }
        }
    };
    let mut s = String::new();
    if r.chance(1, 3) { s.push('-'); }
    s += &int(r);
    if r.chance(2, 3) { s.push('.'); let n = match r.below(8) { 0 => 0, 1 => 30, _ => 8 }; let k = if n == 0 { 0 } else { 1 + r.us(n) }; s += &digs(r, k); }
    if r.bool() {
        s.push(if r.chance(1, 4) { 'E' } else { 'e' });
        if r.bool() { s.push('-'); }
        s += &match r.below(8) { 0 => "0".to_string(), 1 => r.below(400).to_string(), 2 => (1 + r.below(60)).to_string(), _ => (1 + r.below(12)).to_string() };
    }
    s
}
pub fn mutate(r: &mut Rng, s: &str) -> String {
    let mut v: Vec<char> = s.chars().collect();
    for _ in 0..=r.below(2) {
        let ch = *r.pick(&['_', '_', '.', 'e', 'E', '-', '+', '0', '9', 'x', 'a', ' ', '/', 'é', '٣', 'b', 'o', 'X', 'f', ',', '\0', '１']);
        match r.below(4) {
            0 => { let k = r.us(v.len() + 1); v.insert(k, ch); }
            1 => if !v.is_empty() { let k = r.us(v.len()); v.remove(k); },
            2 => if !v.is_empty() { let k = r.us(v.len()); v[k] = ch; },
            _ => if v.len() > 1 { let k = r.us(v.len()); let j = r.us(v.len()); v.swap(k, j); },
        }
    }
    v.into_iter().collect()
}

pub fn rparse_all(c: &mut Ctx, s: &str) {
    for op in ["r.from_string", "r.from_str", "r.try_from_str", "r.try_from_string"] { c.op(op, &[], &[sv(s)]); }
    c.finish();
}

pub fn c12(c: &mut Ctx) {
    // all short strings over the characters that matter
    let al: Vec<char> = "01_.e-x".chars().collect();
    let top = if c.thorough { 6 } else { 5 };
    for len in 0..=top {
        for k in 0..al.len().pow(len) {
            if !c.mine() { continue; }
            let mut k = k;
            let mut s = String::new();
            for _ in 0..len { s.push(al[k % al.len()]); k /= al.len(); }
            if e_too_big(&s) { continue; }
            c.op("r.from_string", &[], &[sv(&s)]);
            c.finish();
        }
    }
    for s in ["", "-", "+1", "1e", "1e-", "1.e3", ".5", "-.5", "0.5", "00.5", "-0", "-0.0", "0e5", "0e-5", "-0e-3", "0.0e9", "1e0", "1e00", "1e-0", "1e5.5", "1.2.3", "1e2e3", "0x1e3", "0xe", "0x1.8", "0b1e1", "0b11", "0o17", "0o8",
        "1E5", "1_000.000_1", "1._5", "1_.5", "1.5_", "1e1_0", "_1", "1e_1", "1e-_1", " 1", "1 ", "١", "1.٣", "é", "1é", "1.é", "1eé", "1e2147483648", "1e-2147483649", "0e2147483648", "0e-2147483648", "0e-2147483649", "1e99999999999",
        "123456789.987654321", "-123456789.987654321e-3", "10.00", "100e-2", "25e-2", "1024e-10", "0.0009765625e10", "9999999999999999999999.9999999999999999999999", "0x", "-0x1f", "0Xff", "-0b_1", "inf", "nan", "1/2", "e", "E5", ".", "-.", "e-", "-e5", "0e", "0.e", "0.", "-0.",
        "1e0x5", "1e-0x5", "-1.5e3", "1.5e+3", "--1", "1--", "1-2", "1.-2", "1.5-e3", "0.1e1", "0.00", "5e1", "5e-1", "2e-1", "2e1", "4e-2", "1e10", "1.0e10"] {
        if c.mine() { rparse_all(c, s); }
    }
    for _ in 0..9000 * c.scale {
        if !c.mine() { continue; }
        let s = decimal_text(&mut c.rng);
        rparse_all(c, &s);
    }
    for _ in 0..9000 * c.scale {
        if !c.mine() { continue; }
        let s = decimal_text(&mut c.rng);
        let t = mutate(&mut c.rng, &s);
        if e_too_big(&t) { continue; }
        c.op("r.from_string", &[], &[sv(&t)]);
        c.op("r.from_str", &[], &[sv(&t)]);
        c.finish();
    }
    // powers of two and five in numerator and denominator against the exponent
    for a in 0..=14u32 {
        for b in 0..=6u32 {
            for e in -16i32..=16 {
                if !c.mine() { continue; }
                let m = 2u64.pow(a) * 5u64.pow(b);
                c.op("r.from_string", &[], &[sv(&format!("{m}e{e}"))]);
                c.op("r.from_string", &[], &[sv(&format!("-{}.{:03}e{e}", m / 1000, m % 1000))]);
                c.finish();
            }
        }
    }
    // exact printing, and back
    for a in ratio_edges() { if c.mine() { c.one("r.ratio_string", vec![a], &[]); } }
    for _ in 0..4000 * c.scale {
        if !c.mine() { continue; }
        let a = ratio(&mut c.rng, 12);
        c.one("r.ratio_string", vec![rat(a)], &[]);
    }
}

/// an exponent whose power of ten would be astronomically large
pub fn e_too_big(s: &str) -> bool {
    match s.to_ascii_lowercase().split_once('e') {
        None => false,
        Some((_, e)) => { let d: String = e.chars().filter(|c| c.is_ascii_digit()).collect(); d.len() > 4 && d.len() < 11 && d.parse::<u64>().map_or(false, |x| x > 9999 && x <= 1 << 31) }
    }
}

pub fn approx_case(c: &mut Ctx, a: Val, n1: u32, n2: u32) {
    let a = c.ld(a);
    c.op("r.approx", &[a], &[n(n1)]);
    c.op("r.to_string", &[a], &[]);
    c.op("r.display", &[a], &[]);
    c.op("r.sci", &[a], &[n(n2)]);
    c.end();
}

/// about 10^e with a perturbation
fn near_pow10(r: &mut Rng, e: i32) -> Ratio {
    let neg = r.bool();
    let mut p = vec![1u32];
    for _ in 0..e.unsigned_abs() { p = mulv(&p, &[10]); }
    let (num, den) = if e >= 0 { (p, vec![1]) } else { (vec![1], p) };
    match r.below(7) {
        6 => { // a short decimal with zeros inside: 1.023, 20.07, 9.0009 ...
            let k = *r.pick(&[10u32, 100, 1000, 10000, 100000, 1000000]);
            let m = (1 + r.below(9) as u32) * k + match r.below(3) { 0 => r.below(10), 1 => r.below(100), _ => r.below(k as u64) } as u32 % k;
            ratio_of(neg, &mulv(&num, &[m]), &mulv(&den, &[k]))
        }
        0 => ratio_of(neg, &num, &den),
        1 => { let big = shlv(&[1], 40); ratio_of(neg, &mulv(&num, &addv(&big, &[1])), &mulv(&den, &big)) }
        2 => { let big = shlv(&[1], 40); ratio_of(neg, &mulv(&num, &subv(&big, &[1])), &mulv(&den, &big)) }
        3 => { let k = 1 + r.below(99) as u32; ratio_of(neg, &mulv(&num, &[k]), &mulv(&den, &[10])) }
        4 => { let k = r.next() as u32; ratio_of(neg, &mulv(&num, &[k.max(1)]), &mulv(&den, &[1 << 31])) }
        _ => { let a = 1 + r.below(999) as u32; ratio_of(neg, &mulv(&num, &[a]), &mulv(&den, &[1 + r.below(999) as u32])) }
    }
}

pub fn c13(c: &mut Ctx) {
    if c.mine() { for k in [0, 1, 6, 12, 30] { approx_case(c, rv(false, &[0], &[1]), k, k); } }
    for (i, a) in ratio_edges().into_iter().enumerate() { if c.mine() { approx_case(c, a, (i % 30) as u32, (i % 20) as u32); } }
    for d in 1..40u32 { for m in 1..40u32 { if c.mine() { let k = c.rng.below(22) as u32; let l = c.rng.below(19) as u32; approx_case(c, rv(d % 2 == 0, &[m], &[d]), k, l); } } }
    // every power of ten around the changes of notation
    let reps = if c.thorough { 40 } else { 8 };
    for e in -70..=70 {
        for _ in 0..reps {
            if !c.mine() { continue; }
            let a = near_pow10(&mut c.rng, e);
            let (k, l) = (c.rng.below(40) as u32, c.rng.below(20) as u32);
            approx_case(c, rat(a), k, l);
        }
    }
    for e in [-10011, -10000, -9999, -9998, -9995, -9992, -9991, -9990, -9989, -9985, -3000, -1000, -308, -100, 100, 308, 1000, 3000, 9985, 9989, 9990, 9991, 9992, 9995, 9998, 9999, 10000, 10011] {
        for _ in 0..(if c.thorough { 40 } else { 8 }) {
            if !c.mine() { continue; }
            let a = near_pow10(&mut c.rng, e);
            let (k, l) = (c.rng.below(30) as u32, c.rng.below(20) as u32);
            approx_case(c, rat(a), k, l);
        }
    }
    for _ in 0..9000 * c.scale {
        if !c.mine() { continue; }
        let a = ratio(&mut c.rng, 12);
        let (k, l) = (c.rng.below(40) as u32, c.rng.below(20) as u32);
        approx_case(c, rat(a), k, l);
    }
    // integers in scientific notation
    for _ in 0..5000 * c.scale {
        if !c.mine() { continue; }
        let u = ubig(&mut c.rng, 40);
        let b = big(&mut c.rng, 40);
        let k = c.rng.below(13) as u32;
        let (u, b) = (c.ld(Val::U(u)), c.ld(Val::I(b)));
        c.op("u.sci", &[u], &[n(k)]);
        c.op("u.fmt_e", &[u], &[]);
        c.op("i.sci", &[b], &[n(k)]);
        c.op("i.fmt_e", &[b], &[]);
        c.end();
    }
    for e in 0..120u32 {
        for dlt in 0..3 {
            if !c.mine() { continue; }
            let mut p = vec![1u32];
            for _ in 0..e { p = mulv(&p, &[10]); }
            let p = match dlt { 0 => p, 1 => addv(&p, &[1]), _ => subv(&p, &[1]) };
            let u = c.ld(Val::U(UBigInt::from_raw(p)));
            for k in [0, 1, 2, 5, 9, 12] { c.op("u.sci", &[u], &[n(k)]); }
            c.finish();
        }
    }
}

pub fn float_bits(r: &mut Rng, w: u32, ebits: u32) -> u64 {
    let emax = (1u64 << ebits) - 1;
    let e = match r.below(10) { 0 => 0, 1 => 1, 2 => emax - 1, 3 => emax, 4 => r.below(4), 5 => (emax / 2) + r.below(60) - 30.min(emax / 2), _ => r.below(emax + 1) };
    let f = match r.below(8) { 0 => 0, 1 => (1u64 << w) - 1, 2 => 1, 3 => 1u64 << r.below(w as u64), 4 => (1u64 << r.below(w as u64)) - 1, 5 => r.below(8), _ => r.next() & ((1u64 << w) - 1) };
    (r.below(2) << (w + ebits)) | (e << w) | (f & ((1u64 << w) - 1))
}

fn float_case(c: &mut Ctx, bits: u64, wide: bool) {
    let k = Val::N(false, bits as u128);
    let t = |s: &str| s.replace("f32", if wide { "f64" } else { "f32" });
    c.op(&t("r.inspect_f32"), &[], &[k.clone()]);
    let r = c.op(&t("r.of_f32"), &[], &[k.clone()]);
    c.op(&t("r.from_ieee_f32"), &[], &[k.clone()]);
    c.op(&t("r.to_f32"), &[r], &[]);
    c.op(&t("r.own_f32"), &[r], &[]);
    let i = c.op(&t("i.of_f32"), &[], &[k.clone()]);
    if c.ok(i) && c.rng.chance(1, 4) { c.op(&t("i.own_f32"), &[i], &[]); }
    let f = *c.rng.pick(&["u.of_ref_f32", "i.of_ref_f32", "r.of_ref_f32"]);
    c.op(&t(f), &[], &[k.clone()]);
    c.op(&t("u.of_f32"), &[], &[k]);
    c.finish();
}

pub fn c14(c: &mut Ctx) {
    // every exponent with extreme fractions
    for wide in [false, true] {
        let (w, eb) = if wide { (52u32, 11u32) } else { (23, 8) };
        for e in 0..(1u64 << eb) {
            for (q, f) in [0u64, 1, (1 << w) - 1, 1 << (w - 1), (1 << w) - 2].into_iter().enumerate() {
                if !c.mine() { continue; }
                if wide && !c.thorough && q % 2 == 1 && e % 16 != 0 { continue; }
                let s = c.rng.below(2);
                float_case(c, s << (w + eb) | e << w | f, wide);
            }
        }
        // every single-bit and all-ones subnormal
        for k in 0..w { for f in [1u64 << k, (1 << (k + 1)) - 1, (1 << k) + 1] { if c.mine() { float_case(c, f, wide); float_case(c, f | 1 << (w + eb), wide); } } }
        for _ in 0..(if wide { 5000 } else { 8000 }) * c.scale {
            if !c.mine() { continue; }
            let b = float_bits(&mut c.rng, w, eb);
            float_case(c, b, wide);
        }
    }
    // rationals to floats: at, just below and just above floats and midpoints
    for _ in 0..12000 * c.scale {
        if !c.mine() { continue; }
        let wide = c.rng.bool();
        let (w, eb) = if wide { (52u32, 11u32) } else { (23, 8) };
        let bits = float_bits(&mut c.rng, w, eb);
        let e = (bits >> w & ((1 << eb) - 1)) as i64;
        if e == (1 << eb) - 1 { continue; }
        let f = (bits & ((1 << w) - 1)) | if e > 0 { 1 << w } else { 0 };
        let e2 = e.max(1) - ((1 << (eb - 1)) - 1) - w as i64; // value = f * 2^e2
        // 2f (+1 for the midpoint), times 2^g, plus or minus a little
        let g = *c.rng.pick(&[0usize, 1, 5, 40, 100]);
        let mut m = shlv(&of128(f as u128 * 2 + c.rng.below(2) as u128), g);
        let d = c.rng.below(3) as u32;
        if c.rng.bool() { m = addv(&m, &[d]); } else if !is0(&shrv(&m, 2)) { m = subv(&m, &[d]); }
        let e3 = e2 - 1 - g as i64;
        let (num, den) = if e3 >= 0 { (shlv(&m, e3 as usize), vec![1]) } else { (m, shlv(&[1], (-e3) as usize)) };
        let neg = c.rng.bool();
        // sometimes with an odd denominator close by
        let r = if c.rng.chance(1, 3) { let q = shlv(&[1], 150); ratio_of(neg, &mulv(&num, &addv(&q, &[1])), &mulv(&den, &q)) } else { ratio_of(neg, &num, &den) };
        let r = c.ld(rat(r));
        c.op("r.to_f32", &[r], &[]);
        c.op("r.to_f64", &[r], &[]);
        c.op("r.as_f32", &[r], &[]);
        c.op("r.as_f64", &[r], &[]);
        c.end();
    }
    // around the overflow and underflow thresholds
    for e in (-1085i64..-1060).chain(-160..-120).chain(120..135).chain(1015..1030) {
        for k in 0..40u32 {
            if !c.mine() { continue; }
            let m = match k { 0..=7 => vec![8 + k], 8..=15 => { let mut v = vec![u32::MAX; 2]; v[1] = u32::MAX << (k - 8); v } 16 => vec![u32::MAX; 4], _ => limbs(&mut c.rng, 3) };
            if is0(&m) { continue; }
            let top = m.len() as i64 * 32 - norm(m.clone()).last().unwrap().leading_zeros() as i64 - 32 * (m.len() as i64 - norm(m.clone()).len() as i64);
            let s = e + 1 - top;
            let (num, den) = if s >= 0 { (shlv(&m, s as usize), vec![1]) } else { (m, shlv(&[1], (-s) as usize)) };
            let neg = c.rng.bool();
            let r = c.ld(rv(neg, &num, &den));
            c.op("r.to_f32", &[r], &[]);
            c.op("r.to_f64", &[r], &[]);
            c.end();
        }
    }
    for _ in 0..6000 * c.scale {
        if !c.mine() { continue; }
        let a = ratio(&mut c.rng, 34);
        let a = c.ld(rat(a));
        c.op("r.to_f32", &[a], &[]);
        c.op("r.to_f64", &[a], &[]);
        let b = big(&mut c.rng, 34);
        let u = ubig(&mut c.rng, 34);
        let (b, u) = (c.ld(Val::I(b)), c.ld(Val::U(u)));
        for op in ["i.as_f32", "i.as_f64", "i.own_f32", "i.own_f64"] { c.op(op, &[b], &[]); }
        for op in ["u.as_f32", "u.as_f64"] { c.op(op, &[u], &[]); }
        c.end();
    }
}
