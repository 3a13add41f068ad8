//! Sessions for the series, matrix and polynomial properties: C17, C21, C22.

use crate::gen::*;
use crate::plan::*;
use crate::plan_ratio::{rat, rv};
use crate::sess::Ctx;
use crate::val::Val;
use hmath::*;

// ---------------------------------------------------------------- series

fn it(k: u64) -> Val { Val::n(k) }
fn q(p: i64, d: i64) -> Val {
    let neg = (p < 0) != (d < 0);
    rv(neg, &of128(p.unsigned_abs() as u128), &of128(d.unsigned_abs() as u128))
}
/// p / 10^k or p / 2^k and the like, away from the corners
fn arg(r: &mut Rng, lo: i64, hi: i64) -> Val {
    let den = match r.below(5) { 0 => 1, 1 => r.range(1, 12), 2 => 10i64.pow(r.below(7) as u32), 3 => 1i64 << r.below(24), _ => r.range(1, 100_000) };
    q(r.range(lo * den, hi * den), den)
}
/// 2^k times (1 + s 2^-j)
fn near_pow2(r: &mut Rng, kmax: i64) -> Val {
    let k = r.range(-kmax, kmax);
    let j = r.range(1, 40);
    let s = r.range(-3, 3);
    let num = shlv(&of128(((1i128 << j) + s as i128).max(1) as u128), k.max(0) as usize);
    let den = shlv(&of128(1u128 << j), (-k).max(0) as usize);
    rv(false, &num, &den)
}
/// a multiple of pi/24 to about 60 digits, and the like
fn near_pi(r: &mut Rng) -> Val {
    // 2^100 pi, truncated
    const PI100: u128 = 3982429455261240412571009249935;
    let k = r.range(-200, 200);
    let num = mulv(&of128(PI100), &of128(k.unsigned_abs() as u128));
    let b = r.below(95);
    let num = if r.bool() { num } else { shrv(&num, b as usize) };
    let cut = if num == mulv(&of128(PI100), &of128(k.unsigned_abs() as u128)) { 0 } else { b as usize };
    rv(k < 0, &num, &mulv(&shlv(&[1], 100 - cut), &of128(*r.pick(&[24u128, 12, 6, 4, 3, 2, 1]))))
}
/// a number of magnitude below k + 1 with a long denominator
fn wide(r: &mut Rng, k: i64) -> Val {
    let n = 2 + r.us(3);
    let den = match r.below(4) { 0 => shlv(&[1 + 2 * r.below(4) as u32], 31 + r.us(66)), 1 => { let mut v = limbs(r, n); v[0] = 0; v } 2 => { let mut v = limbs(r, n); v[0] = v[n - 1]; v } _ => limbs(r, n) };
    let den = norm(den);
    if is0(&den) { return q(1, 1 << 33); }
    let z = r.us(40);
    let t = { let v = norm(limbs(r, den.len())); if cmpv(&v, &den) == std::cmp::Ordering::Less { v } else { shrv(&den, 1 + z) } };
    let num = addv(&mulv(&den, &of128(r.range(0, k) as u128)), &t);
    rv(r.bool(), &num, &den)
}
fn call(c: &mut Ctx, op: &str, a: Vec<Val>, k: u64) {
    let r: Vec<usize> = a.into_iter().map(|v| c.ld(v)).collect();
    c.op(op, &r, &[it(k)]);
    c.end();
}

pub fn c17(c: &mut Ctx) {
    for op in ["r.pi_const", "r.e_const", "r.ln2_const"] { if c.mine() { c.one(op, vec![], &[]); } }
    for k in 0..255u64 { if c.mine() && (k < 40 || k % 10 == 4 || k > 250 || c.thorough) { c.one("r.pi_iter", vec![], &[it(k)]); } }
    for k in 0..200u64 { if c.mine() && (k < 40 || k % 10 == 4 || k > 196 || c.thorough) { c.one("r.ln2_iter", vec![], &[it(k)]); } }
    for k in 0..200u64 { if c.mine() { c.one("r.e_iter", vec![], &[it(k)]); } }
    let specials: Vec<Val> = vec![
        q(0, 1), q(1, 1), q(-1, 1), q(2, 1), q(-2, 1), q(1, 2), q(-1, 2), q(9, 10), q(-9, 10), q(89, 100), q(91, 100), q(99, 100), q(-99, 100),
        q(3, 1), q(10, 1), q(-10, 1), q(1, 3), q(-1, 3), q(4, 1), q(8, 1), q(27, 1), q(-27, 1), q(1, 1000), q(-1, 1000), q(1001, 1000), q(999, 1000),
        q(19, 10), q(-19, 10), q(355, 113), q(22, 7), q(11, 7), q(11, 14), q(100, 1), q(-100, 1), q(1, 1 << 40), q((1 << 40) + 1, 1 << 40), q(7, 4), q(3, 2), q(4, 3),
    ];
    for x in &specials {
        for k in [0u64, 1, 2, 3, 5, 8] {
            for op in ["r.sqrt_iter", "r.cbrt_iter", "r.exp_iter", "r.ln_iter", "r.sin_iter", "r.cos_iter", "r.tan_iter", "r.asin_iter", "r.acos_iter", "r.atan_iter"] {
                if !c.mine() { continue; }
                if op == "r.cbrt_iter" && k > 5 { continue; }
                call(c, op, vec![x.clone()], k);
            }
        }
        for y in [q(0, 1), q(1, 1), q(2, 1), q(-1, 1), q(1, 2), q(10, 1), q(1, 3), q(7, 2), q(-5, 3)] {
            for k in [0u64, 1, 3, 6, 9] {
                if !c.mine() { continue; }
                call(c, "r.log_iter", vec![x.clone(), y.clone()], k);
                call(c, "r.pow_iter", vec![x.clone(), y.clone()], k);
            }
        }
    }
    // every number of terms, on simple arguments
    for k in 9..=64u64 {
        for (j, op) in ["r.sqrt_iter", "r.exp_iter", "r.ln_iter", "r.sin_iter", "r.cos_iter", "r.asin_iter", "r.acos_iter", "r.atan_iter"].iter().enumerate() {
            if (3..=4).contains(&j) && k > 10 { continue; } // about k^4
            for (i, x) in [q(1, 2), q(-3, 4), q(5, 3), q(-7, 1)].iter().enumerate() {
                if !c.thorough && (i + j + k as usize) % 4 > 1 { continue; }
                if (*op == "r.exp_iter" || *op == "r.ln_iter") && i == 3 && k > 40 { continue; }
                if c.mine() { call(c, op, vec![x.clone()], k); }
            }
        }
        if k < 24 && c.mine() { call(c, "r.log_iter", vec![q(2, 1), q(7, 3)], k); call(c, "r.pow_iter", vec![q(3, 2), q(5, 3)], k); call(c, "r.pow_iter", vec![q(3, 2), q(-1, 2)], k); }
    }
    // large arguments
    for x in [50i64, 64, 100, 127, 128, 200, 256, 300] { for s in [1, -1] { for k in [1u64, 4, 9] {
        if !c.mine() { continue; }
        call(c, "r.exp_iter", vec![q(s * x, 1)], k);
        call(c, "r.exp_iter", vec![q(s * (3 * x + 1), 3)], k);
        call(c, "r.pow_iter", vec![q(2, 1), q(s * x * 2 + 1, 2)], k.min(6));
        call(c, "r.pow_iter", vec![q(1, 2), q(s * x * 2 + 1, 2)], k.min(6));
        call(c, "r.pow_iter", vec![q(3, 1), q(s * x, 1)], k);
        call(c, "r.log_iter", vec![q(x, 1), q(x + s, 1)], k);
        call(c, "r.atan_iter", vec![q(s * x, 1)], k);
        call(c, "r.atan_iter", vec![q(s * x * 1000 + 1, 7)], k);
    } } }
    // many terms
    for (op, x, k) in [("r.exp_iter", q(1, 2), 60), ("r.exp_iter", q(-7, 3), 40), ("r.ln_iter", q(3, 2), 60), ("r.ln_iter", q(1, 3), 60), ("r.atan_iter", q(1, 2), 60), ("r.atan_iter", q(5, 2), 60),
        ("r.atan_iter", q(1, 1), 300), ("r.asin_iter", q(1, 2), 60), ("r.asin_iter", q(1, 1), 300), ("r.asin_iter", q(-1, 1), 700), ("r.asin_iter", q(1, 2), 700), ("r.acos_iter", q(1, 3), 60),
        ("r.sin_iter", q(1, 2), 12), ("r.cos_iter", q(2, 1), 12), ("r.sqrt_iter", q(2, 1), 200), ("r.sqrt_iter", q(1, 3), 100), ("r.cbrt_iter", q(2, 1), 7), ("r.ln_iter", q(1 << 33, 3), 40)] {
        if c.mine() { call(c, op, vec![x], k); }
    }
    for _ in 0..400 * c.scale {
        if !c.mine() { continue; }
        let r = &mut c.rng;
        let lim = if r.chance(1, 4) { 14 } else { 7 };
        let k = r.below(lim);
        let x = match r.below(3) { 0 => arg(r, 0, 10), 1 => rat(ratio(r, 6)), _ => near_pow2(r, 200) };
        call(c, "r.sqrt_iter", vec![x.clone()], k);
        call(c, "r.cbrt_iter", vec![x], k.min(6));
    }
    for _ in 0..600 * c.scale {
        if !c.mine() { continue; }
        let r = &mut c.rng;
        let lim = if r.chance(1, 4) { 25 } else { 12 };
        let k = r.below(lim);
        let x = match r.below(4) { 0 => arg(r, -20, 20), 1 => { let k = r.range(-3, 3); { let t = *r.pick(&[900i64, 899, 901, 999, 1, 500]); q(k * 1000 + t, 1000) } } _ => arg(r, -2, 2) };
        call(c, "r.exp_iter", vec![x], k);
    }
    for _ in 0..800 * c.scale {
        if !c.mine() { continue; }
        let r = &mut c.rng;
        let lim = if r.chance(1, 4) { 25 } else { 12 };
        let k = r.below(lim);
        let x = match r.below(5) { 0 => arg(r, -1, 20), 1 => near_pow2(r, 130), 2 => rat(ratio(r, 3)), 3 => { let e = r.range(-34, 98); let n = shlv(&of128(r.range(2, 1 << 20) as u128), e.max(0) as usize); rv(false, &n, &shlv(&[1], (-e).max(0) as usize)) } _ => arg(r, 0, 3) };
        call(c, "r.ln_iter", vec![x], k);
    }
    for _ in 0..300 * c.scale {
        if !c.mine() { continue; }
        let r = &mut c.rng;
        let k = r.below(9);
        let (x, y) = (arg(r, 0, 12), arg(r, 0, 12));
        call(c, "r.log_iter", vec![x.clone(), y], k);
        let r = &mut c.rng;
        let (y, k) = (arg(r, -4, 4), r.below(7));
        call(c, "r.pow_iter", vec![x, y], k);
    }
    for _ in 0..500 * c.scale {
        if !c.mine() { continue; }
        let r = &mut c.rng;
        let lim = if r.chance(1, 8) { 9 } else { 5 };
        let k = r.below(lim);
        let x = match r.below(3) { 0 => arg(r, -10, 10), 1 => near_pi(r), _ => arg(r, -1000, 1000) };
        for op in ["r.sin_iter", "r.cos_iter", "r.tan_iter"] { call(c, op, vec![x.clone()], k); }
    }
    // many turns
    for _ in 0..80 * c.scale {
        if !c.mine() { continue; }
        let r = &mut c.rng;
        let k = 4 + r.below(4);
        let n = of128((r.next() >> (64 - 8 * k)) as u128 | 1);
        let d = of128(*r.pick(&[1u128, 1, 1, 3, 7, 100]));
        let x = rv(r.bool(), &n, &d);
        for op in ["r.sin_iter", "r.cos_iter", "r.tan_iter"] { call(c, op, vec![x.clone()], k); }
    }
    // long denominators
    for _ in 0..90 * c.scale {
        if !c.mine() { continue; }
        let r = &mut c.rng;
        let k = r.below(6);
        let (x, y, z, u, v) = (wide(r, 3), wide(r, 30), wide(r, 0), wide(r, 3), wide(r, 1));
        for op in ["r.exp_iter", "r.ln_iter", "r.sqrt_iter", "r.atan_iter"] { call(c, op, vec![x.clone()], k); }
        for op in ["r.sin_iter", "r.cos_iter", "r.tan_iter"] { call(c, op, vec![y.clone()], k.min(4)); }
        for op in ["r.asin_iter", "r.acos_iter", "r.atan_iter"] { call(c, op, vec![z.clone()], k); }
        call(c, "r.cbrt_iter", vec![u.clone()], k.min(5));
        call(c, "r.log_iter", vec![u.clone(), x.clone()], k.min(5));
        call(c, "r.pow_iter", vec![u, v], k.min(4));
    }
    // next to a square and a cube
    for _ in 0..150 * c.scale {
        if !c.mine() { continue; }
        let r = &mut c.rng;
        let (a, b) = (ubig_nz(r, 1).into_raw(), ubig_nz(r, 1).into_raw());
        let m = shlv(&[1 + r.below(9) as u32], r.us(260));
        let (neg, up, k) = (r.bool(), r.bool(), r.below(7));
        let near = |p: &[u32], q: &[u32]| {
            let n = mulv(p, &m);
            rv(neg, &if up { addv(&n, q) } else if cmpv(&n, q) == std::cmp::Ordering::Less { subv(q, &n) } else { subv(&n, q) }, &mulv(q, &m))
        };
        let (a2, b2) = (mulv(&a, &a), mulv(&b, &b));
        let (x, y) = (near(&a2, &b2), near(&mulv(&a2, &a), &mulv(&b2, &b)));
        call(c, "r.sqrt_iter", vec![x], k);
        call(c, "r.cbrt_iter", vec![y], k);
    }
    for _ in 0..700 * c.scale {
        if !c.mine() { continue; }
        let r = &mut c.rng;
        let lim = if r.chance(1, 4) { 25 } else { 10 };
        let k = r.below(lim);
        let x = match r.below(4) { 0 => near_pow2(r, 3), 1 => arg(r, -20, 20), _ => arg(r, -1, 1) };
        call(c, "r.atan_iter", vec![x], k);
        let r = &mut c.rng;
        let x = match r.below(4) { 0 => near_pow2(r, 1), 1 => arg(r, -2, 2), _ => arg(r, -1, 1) };
        call(c, "r.asin_iter", vec![x.clone()], k);
        call(c, "r.acos_iter", vec![x], k);
    }
}

// ---------------------------------------------------------------- matrices

pub fn entry(r: &mut Rng, kind: u64) -> Ratio {
    match kind {
        0 => small_ratio(r, 1, 1),
        1 => small_ratio(r, 9, 1),
        2 => small_ratio(r, 12, 12),
        3 => if r.chance(2, 3) { ratio_of(false, &[0], &[1]) } else { small_ratio(r, 5, 3) },
        4 => ratio(r, 3),
        _ => ratio(r, 1),
    }
}
fn mat(data: Vec<Vec<Ratio>>, cols: usize, rows: usize) -> Val { Val::M(Matrix::from_raw(data, cols, rows)) }
pub fn random_mat(r: &mut Rng, rows: usize, cols: usize) -> Vec<Vec<Ratio>> {
    let kind = r.below(6);
    (0..rows).map(|_| (0..cols).map(|_| entry(r, kind)).collect()).collect()
}
pub fn mk(d: Vec<Vec<Ratio>>) -> Val { let (r, c) = (d.len(), d[0].len()); mat(d, c, r) }
pub fn zero() -> Ratio { ratio_of(false, &[0], &[1]) }
pub fn unit(neg: bool) -> Ratio { ratio_of(neg, &[1], &[1]) }

/// A square matrix, often singular or with zeros in awkward places.
pub fn square(r: &mut Rng, n: usize) -> Val {
    let mut d = random_mat(r, n, n);
    match r.below(8) {
        0 => { let (i, j) = (r.us(n), r.us(n)); d[i] = d[j].clone(); }
        1 => { let j = r.us(n); for row in d.iter_mut() { row[j] = zero(); } }
        2 => { let i = r.us(n); for x in d[i].iter_mut() { *x = zero(); } }
        3 => for i in 0..n { for j in 0..n { if r.bool() { d[i][j] = zero(); } } },
        4 => { let up = r.bool(); for i in 0..n { for j in 0..n { if (i < j) == up && i != j { d[i][j] = zero(); } } } }
        5 => for i in 0..n { d[i][i] = zero(); },
        _ => {}
    }
    mk(d)
}
pub fn linear(c: &mut Ctx, v: Val) {
    let (rows, cols, _, _) = crate::val::matrix_parts(v.m());
    let x = c.ld(v);
    c.op("m.determinant", &[x], &[]);
    if rows == cols && (2..=4).contains(&rows) { c.op(["m.det2", "m.det3", "m.det4"][rows - 2], &[x], &[]); }
    let y = c.op("m.inverse", &[x], &[]);
    if c.ok(y) {
        let t = c.op("m.mul", &[x, y], &[]);
        c.op("m.is_square", &[t], &[]);
        if rows < 5 { c.op("m.inverse", &[y], &[]); c.op("m.determinant", &[y], &[]); }
    }
    let t = c.op("m.transpose", &[x], &[]);
    c.op_cp("m.transpose_mut", &[x], &[]);
    if rows < 6 { c.op("m.determinant", &[t], &[]); }
    c.end();
}
pub fn algebra(c: &mut Ctx, a: Val, b: Val, k: Val, w: i32, i: usize, j: usize) {
    let (x, y, z) = (c.ld(a), c.ld(b), c.ld(k));
    c.op("m.add", &[x, y], &[]);
    c.op_cp("m.add_mut", &[x, y], &[]);
    c.op("m.mul", &[x, y], &[]);
    c.op("m.mul_k", &[x, z], &[]);
    c.op_cp("m.mul_k_mut", &[x, z], &[]);
    c.op("m.mul_k_i32", &[y], &[ni(w as i64)]);
    c.op_cp("m.mul_k_i32_mut", &[y], &[ni(w as i64)]);
    c.op("m.transpose", &[x], &[]);
    c.op_cp("m.transpose_mut", &[x], &[]);
    c.op("m.is_square", &[x], &[]);
    c.op("m.eq", &[x, y], &[]);
    let t = c.cp(x);
    c.op("m.eq", &[x, t], &[]);
    c.op("m.ratio_string", &[y], &[]);
    c.op("m.get", &[x], &[it(i as u64), it(j as u64)]);
    c.op_cp("m.set_mut", &[x, z], &[it(i as u64), it(j as u64)]);
    c.end();
}
fn permutations(n: usize) -> Vec<Vec<usize>> {
    if n == 0 { return vec![vec![]]; }
    let mut v = vec![];
    for p in permutations(n - 1) { for k in 0..n { let mut q = p.clone(); q.insert(k, n - 1); v.push(q); } }
    v
}
fn rows_val(d: &[Vec<Ratio>]) -> Val { Val::L(d.iter().map(|r| Val::L(r.iter().map(|x| rat(x.clone())).collect())).collect()) }

pub fn c21(c: &mut Ctx) {
    if c.mine() { c.one("m.empty", vec![], &[]); }
    for k in 0..5u64 {
        if c.mine() { c.one("m.identity", vec![], &[it(k)]); }
        for l in 0..5u64 {
            if c.mine() { c.one("m.zeros", vec![], &[it(k), it(l)]); c.one("m.generate", vec![], &[it(k), it(l)]); }
            if c.mine() { // empty shapes
                let x = c.op("m.zeros", &[], &[it(k), it(l)]);
                let y = c.op("m.generate", &[], &[it(l), it(k)]);
                for op in ["m.determinant", "m.inverse", "m.transpose", "m.is_square", "m.ratio_string"] { c.op(op, &[x], &[]); c.op(op, &[y], &[]); }
                c.op_cp("m.transpose_mut", &[x], &[]);
                for op in ["m.add", "m.mul", "m.eq"] { c.op(op, &[x, y], &[]); c.op(op, &[x, x], &[]); c.op(op, &[y, x], &[]); }
                c.op_cp("m.add_mut", &[x, y], &[]);
                c.op("m.get", &[y], &[it(0), it(0)]);
                c.end();
            }
        }
    }
    // every sign pattern and every place: permutation matrices
    for n in 1..=5usize {
        for p in permutations(n) {
            if !c.mine() { continue; }
            let signs = c.rng.next();
            let d: Vec<Vec<Ratio>> = (0..n).map(|i| (0..n).map(|j| if p[i] == j { unit(signs >> i & 1 == 1) } else { zero() }).collect()).collect();
            linear(c, mk(d));
        }
    }
    // small matrices with every combination of a few entries
    for k in 0..81u32 { if c.mine() { let d = (0..2).map(|i| (0..2).map(|j| { let t = k / 3u32.pow(2 * i + j) % 3; ratio_of(t == 2, &[(t > 0) as u32], &[1]) }).collect()).collect(); linear(c, mk(d)); } }
    for k in 0..512u32 { if c.mine() { let d = (0..3).map(|i| (0..3).map(|j| ratio_of(false, &[k >> (3 * i + j) & 1], &[1])).collect()).collect(); linear(c, mk(d)); } }
    // one entry different from a unit matrix, at every place
    for n in 1..=6usize { for i in 0..n { for j in 0..n {
        if !c.mine() { continue; }
        let mut d: Vec<Vec<Ratio>> = (0..n).map(|i| (0..n).map(|j| if i == j { unit(false) } else { zero() }).collect()).collect();
        d[i][j] = small_ratio(&mut c.rng, 9, 4);
        linear(c, mk(d));
    } } }
    for n in 1..=6usize {
        for _ in 0..(match n { 6 => 24, 5 => 120, _ => 300 }) * c.scale {
            if !c.mine() { continue; }
            let m = square(&mut c.rng, n);
            linear(c, m);
        }
    }
    for _ in 0..4 * c.scale { if c.mine() { let m = square(&mut c.rng, 7); let x = c.ld(m); c.op("m.determinant", &[x], &[]); c.end(); } }
    for _ in 0..1500 * c.scale {
        if !c.mine() { continue; }
        let r = &mut c.rng;
        let (p, q) = (1 + r.us(5), 1 + r.us(5));
        let (s, t) = match r.below(4) { 0 => (p, q), 1 => (1 + r.us(5), 1 + r.us(5)), 2 => (p, 1 + r.us(5)), _ => (q, 1 + r.us(5)) };
        let (a, b) = (random_mat(r, p, q), random_mat(r, s, t));
        let kind = r.below(6);
        let k = entry(r, kind);
        let (w, i, j) = (i32v(r), r.us(p + 1), r.us(q + 1));
        algebra(c, mk(a), mk(b), rat(k), w, i, j);
        // nothing but multiples of an integer
        let r = &mut c.rng;
        let rows = random_mat(r, p, q);
        let mut ragged = rows.clone();
        if r.bool() { let i = r.us(p); if r.bool() { ragged[i].pop(); } else { ragged[i].push(zero()); } }
        c.one("m.from_vec", vec![], &[rows_val(&ragged)]);
        c.one("m.from_raw", vec![], &[rows_val(&rows)]);
        let r = &mut c.rng;
        let ints: Vec<Val> = (0..p).map(|i| Val::L((0..(if i + 1 == p && r.chance(1, 8) { q + 1 } else { q })).map(|_| ni(i32v(r) as i64)).collect())).collect();
        c.one("m.from_vec_generic", vec![], &[Val::L(ints)]);
    }
    // longer computations
    for _ in 0..120 * c.scale {
        if !c.mine() { continue; }
        let n = 1 + c.rng.us(4);
        let mut v: Vec<usize> = vec![];
        for _ in 0..3 { let kind = c.rng.below(4); let d = (0..n).map(|_| (0..n).map(|_| entry(&mut c.rng, kind)).collect()).collect(); v.push(c.ld(mk(d))); }
        for _ in 0..6 {
            let (a, b) = (v[c.rng.us(v.len())], v[c.rng.us(v.len())]);
            let t = match c.rng.below(7) {
                0 => c.op("m.add", &[a, b], &[]),
                1 => c.op("m.mul", &[a, b], &[]),
                2 => c.op("m.transpose", &[a], &[]),
                3 => c.op("m.inverse", &[a], &[]),
                4 => { c.op_cp("m.add_mut", &[a, b], &[]) }
                5 => { let k = c.rng.range(-3, 3); c.op_cp("m.mul_k_i32_mut", &[a], &[ni(k)]) }
                _ => { c.op("m.determinant", &[a], &[]); a }
            };
            if c.ok(t) && t != a { v.push(t); }
        }
        c.end();
    }
}

// ---------------------------------------------------------------- polynomials

fn coeffs(r: &mut Rng) -> Vec<Ratio> {
    let n = match r.below(6) { 0 => 1, 1 => 2, 2 => r.us(13), _ => 1 + r.us(6) };
    let kind = r.below(6);
    (0..n).map(|_| if r.chance(1, 4) { zero() } else if r.chance(1, 4) { unit(r.bool()) } else { entry(r, kind) }).collect()
}
pub fn list(v: &[Ratio]) -> Val { Val::L(v.iter().map(|x| rat(x.clone())).collect()) }
pub fn poly(v: Vec<Ratio>) -> Val { Val::P(Polynomial::from_vec(v)) }
pub fn points(v: &[(Ratio, Ratio)]) -> Val { Val::L(v.iter().map(|(x, y)| list(&[x.clone(), y.clone()])).collect()) }

pub fn poly_all(c: &mut Ctx, p: Val, x: Ratio, k: i32, lim: u64) {
    let (p, x) = (c.ld(p), c.ld(rat(x)));
    c.op("p.to_vec", &[p], &[]);
    for op in ["p.ratio_string", "p.to_vec_f32", "p.to_vec_f64"] { c.op(op, &[p], &[]); }
    c.op("p.approx", &[p], &[it(lim)]);
    let d = c.op("p.differentiate", &[p], &[]);
    c.op_cp("p.differentiate_mut", &[p], &[]);
    c.op("p.mul_k", &[p, x], &[]);
    c.op_cp("p.mul_k_mut", &[p, x], &[]);
    c.op("p.mul_k_i32", &[p], &[ni(k as i64)]);
    c.op_cp("p.mul_k_i32_mut", &[p], &[ni(k as i64)]);
    c.op("p.calc", &[p, x], &[]);
    c.op("p.newton", &[p, x], &[]);
    if c.ok(d) { c.op("p.newton_with", &[p, x, d], &[]); c.op("p.eq", &[p, d], &[]); c.op("p.differentiate", &[d], &[]); c.op("p.ratio_string", &[d], &[]); }
    let t = c.cp(p);
    c.op("p.eq", &[p, t], &[]);
    c.end();
}

pub fn c22(c: &mut Ctx) {
    // the text of every short polynomial with coefficients 0, 1, -1, 2, -1/2
    let few: Vec<Ratio> = vec![zero(), unit(false), unit(true), ratio_of(false, &[2], &[1]), ratio_of(true, &[1], &[2])];
    for len in 0..=3usize { for k in 0..5usize.pow(len as u32) {
        if !c.mine() { continue; }
        let v: Vec<Ratio> = (0..len).map(|i| few[k / 5usize.pow(i as u32) % 5].clone()).collect();
        let x = c.op("p.from_vec", &[], &[list(&v)]);
        for op in ["p.ratio_string", "p.differentiate", "p.to_vec", "p.to_vec_f32"] { c.op(op, &[x], &[]); }
        c.op("p.approx", &[x], &[it(8)]);
        c.op_cp("p.differentiate_mut", &[x], &[]);
        let y = c.ld(rat(few[k % 5].clone()));
        c.op("p.calc", &[x, y], &[]);
        c.op("p.newton", &[x, y], &[]);
        c.op("p.mul_k", &[x, y], &[]);
        c.op_cp("p.mul_k_mut", &[x, y], &[]);
        c.end();
    } }
    for _ in 0..1500 * c.scale {
        if !c.mine() { continue; }
        let r = &mut c.rng;
        let v = coeffs(r);
        let kind = r.below(6);
        let x = if r.chance(1, 8) { zero() } else { entry(r, kind) };
        let (k, lim) = (if r.chance(1, 8) { 0 } else { i32v(r) }, 5 + r.below(20));
        poly_all(c, poly(v.clone()), x, k, lim);
        let mut w = v.clone();
        for _ in 0..c.rng.below(3) { w.insert(0, zero()); }
        c.one("p.from_vec", vec![], &[list(&w)]);
        let r = &mut c.rng;
        let (n, z) = (r.us(6), r.us(3));
        let ints: Vec<Val> = (0..n).map(|i| if i < z { ni(0) } else { ni(i32v(r) as i64) }).collect();
        let p = c.op("p.from_vec_generic", &[], &[Val::L(ints)]);
        for op in ["p.ratio_string", "p.differentiate", "p.to_vec"] { c.op(op, &[p], &[]); }
        c.op_cp("p.differentiate_mut", &[p], &[]);
        c.end();
    }
    // Newton's method, step by step
    for _ in 0..150 * c.scale {
        if !c.mine() { continue; }
        let v = { let r = &mut c.rng; let n = 2 + r.us(4); (0..n).map(|_| small_ratio(r, 6, 2)).collect::<Vec<_>>() };
        let p = c.ld(poly(v));
        let d = c.op("p.differentiate", &[p], &[]);
        let x = small_ratio(&mut c.rng, 9, 3);
        let mut x = c.ld(rat(x));
        for k in 0..3 {
            if !c.ok(x) { break; }
            x = if k == 1 { c.op("p.newton_with", &[p, x, d], &[]) } else { c.op("p.newton", &[p, x], &[]) };
        }
        c.end();
    }
    // interpolation
    for _ in 0..900 * c.scale {
        if !c.mine() { continue; }
        let r = &mut c.rng;
        let n = match r.below(8) { 0 => 0, 1 => 5 + r.us(2), _ => 1 + r.us(4) };
        let kind = r.below(5);
        let mut pts: Vec<(Ratio, Ratio)> = vec![];
        for _ in 0..n {
            let x = entry(r, kind);
            if r.chance(7, 8) && pts.iter().any(|(t, _)| *t == x) { continue; }
            let y = if r.chance(1, 3) { zero() } else { entry(r, kind) };
            pts.push((x, y));
        }
        match r.below(5) { // on a line, on a parabola
            0 => { let (a, b) = (entry(r, 2), entry(r, 2)); for p in pts.iter_mut() { p.1 = a.mul(&p.0).add(&b); } }
            1 => for p in pts.iter_mut() { p.1 = p.0.mul(&p.0); },
            2 if !pts.is_empty() => { let y = pts[0].1.clone(); for p in pts.iter_mut() { p.1 = y.clone(); } }
            _ => {}
        }
        let p = c.op("p.from_points", &[], &[points(&pts)]);
        if c.ok(p) && !pts.is_empty() { let x = c.ld(rat(pts[0].0.clone())); c.op("p.calc", &[p, x], &[]); }
        c.end();
        let r = &mut c.rng;
        let n = 1 + r.us(4);
        let span = r.range(2, 1 << 20);
        let ints: Vec<Val> = (0..n).map(|_| Val::L(vec![ni(r.range(-span, span)), ni(r.range(-span, span))])).collect();
        c.one("p.from_points_generic", vec![], &[Val::L(ints)]);
        let r = &mut c.rng;
        let kind = r.below(5);
        let mut v: Vec<Ratio> = (0..6).map(|_| entry(r, kind)).collect();
        match r.below(6) { 0 => v[1] = v[0].clone(), 1 => { v[1] = v[0].clone(); v[2] = v[0].clone(); } 2 => v[2] = v[1].clone(), 3 => v[2] = v[0].clone(), 4 => { let t = r.us(6); v[t] = zero(); } _ => {} }
        c.one("p.linear", vec![], &[list(&v[..4])]);
        c.one("p.quadratic", vec![], &[list(&v)]);
        c.one("p.cubic", vec![], &[list(&v)]);
    }
}

/// The forms of the matrix and polynomial operations.
pub fn c05_more(c: &mut Ctx) {
    for _ in 0..150 * c.scale {
        if !c.mine() { continue; }
        let r = &mut c.rng;
        let (p, q) = (1 + r.us(3), 1 + r.us(3));
        let (a, b) = (random_mat(r, p, q), random_mat(r, p, q));
        let k = entry(r, 2);
        let (w, i, j) = (i32v(r), r.us(p), r.us(q));
        algebra(c, mk(a), mk(b), rat(k), w, i, j);
        let r = &mut c.rng;
        let v = coeffs(r);
        let (x, k) = (entry(r, 2), if r.chance(1, 6) { 0 } else { i32v(r) });
        poly_all(c, poly(v), x, k, 12);
        let r = &mut c.rng;
        let z: Vec<Ratio> = (0..4).map(|_| ratio(r, 2)).collect();
        let w = i32v(r);
        let (x, y) = (c.ld(Val::C(z[0].clone(), z[1].clone())), c.ld(Val::C(z[2].clone(), z[3].clone())));
        c.op("c.add", &[x, y], &[]);
        c.op_cp("c.add_mut", &[x, y], &[]);
        c.op("c.add_i32", &[x], &[ni(w as i64)]);
        c.op_cp("c.add_i32_mut", &[x], &[ni(w as i64)]);
        c.end();
    }
}
