//! What is recorded for each property.

use crate::gen::*;
use crate::sess::Ctx;
use crate::val::Val;
use hmath::*;

pub fn run(prop: &str, c: &mut Ctx) {
    crate::plan_long::run(prop, c);
    match prop {
        "C01" => c01(c),
        "C02" => c02(c),
        "C03" => c03(c),
        "C04" => crate::plan_int::c04(c),
        "C05" => crate::plan_int::c05(c),
        "C06" => crate::plan_int::c06(c),
        "C07" => crate::plan_int::c07(c),
        "C10" => crate::plan_int::c10(c),
        "C11" => crate::plan_int::c11(c),
        "C15" => crate::plan_int::c15(c),
        "C16" => crate::plan_int::c16(c),
        "C08" => crate::plan_ratio::c08(c),
        "C09" => crate::plan_ratio::c09(c),
        "C12" => crate::plan_ratio::c12(c),
        "C13" => crate::plan_ratio::c13(c),
        "C14" => crate::plan_ratio::c14(c),
        "C17" => crate::plan_more::c17(c),
        "C18" => crate::plan_fp::c18(c),
        "C19" => crate::plan_fp::c19(c),
        "C20" => crate::plan_fp::c20(c),
        "C21" => crate::plan_more::c21(c),
        "C22" => crate::plan_more::c22(c),
        _ => panic!("recorder: no plan for {prop}"),
    }
}

pub fn n(k: u32) -> Val { Val::n(k) }
pub fn ni(k: i64) -> Val { Val::n(k) }
pub fn sv(s: &str) -> Val { Val::S(s.as_bytes().to_vec()) }
pub fn iv(k: i64) -> Val { Val::I(BigInt::from_raw(of128(k.unsigned_abs() as u128), k < 0)) }
pub fn uv(v: Vec<u32>) -> Val { Val::U(UBigInt::from_raw(v)) }

/// Numbers at the limb boundaries, for exhaustive pairing.
pub fn edge_set() -> Vec<Vec<u32>> {
    const M: u32 = u32::MAX;
    let mut s: Vec<Vec<u32>> = vec![];
    for k in 0..6 { s.push(vec![k]); }
    s.extend([vec![9], vec![10], vec![255], vec![65535], vec![65536], vec![1 << 31], vec![(1 << 31) - 1], vec![M - 1], vec![M]]);
    for t in [1u32, 2, 1 << 31, M, M - 1, (1 << 31) - 1] {
        for l in [0u32, 1, 2, M, M - 1, 1 << 31] { s.push(vec![l, t]); }
    }
    for t in [1u32, 1 << 31, M] {
        for m in [0u32, 1, M] { for l in [0u32, 1, M] { s.push(vec![l, m, t]); } }
    }
    for t in [1u32, M] {
        for m in [0u32, M] { for q in [0u32, 1, M] { for l in [0u32, M] { s.push(vec![l, q, m, t]); } } }
    }
    for nn in [5usize, 8] {
        s.push(vec![M; nn]);
        let mut v = vec![0; nn]; v[nn - 1] = 1; s.push(v);
    }
    s
}

pub fn c01_pair(c: &mut Ctx, a: Val, b: Val, k: u32) {
    let a = c.ld(a);
    let b = c.ld(b);
    c.op("u.add", &[a, b], &[]);
    c.op("u.sub", &[a, b], &[]);
    c.op("u.sub", &[b, a], &[]);
    c.op("u.abs_diff", &[a, b], &[]);
    c.op_cp("u.add_mut", &[a, b], &[]);
    c.op_cp("u.sub_mut", &[a, b], &[]);
    c.op("u.add_u32", &[a], &[n(k)]);
    c.op("u.sub_u32", &[a], &[n(k)]);
    c.op("u.abs_diff_u32", &[a], &[n(k)]);
    c.op_cp("u.add_u32_mut", &[a], &[n(k)]);
    c.op_cp("u.sub_u32_mut", &[a], &[n(k)]);
    c.end();
}

fn c01(c: &mut Ctx) {
    let s = edge_set();
    for (i, a) in s.iter().enumerate() {
        for (j, b) in s.iter().enumerate() {
            if c.mine() { c01_pair(c, uv(a.clone()), uv(b.clone()), LIMBS[(i * 7 + j) % LIMBS.len()]); }
        }
        for k in LIMBS {
            if c.mine() {
                let r = c.ld(uv(a.clone()));
                for op in ["u.add_u32", "u.sub_u32", "u.abs_diff_u32"] { c.op(op, &[r], &[n(k)]); }
                for op in ["u.add_u32_mut", "u.sub_u32_mut"] { c.op_cp(op, &[r], &[n(k)]); }
                c.end();
            }
        }
    }
    // carry and borrow chains from every start to every end, and across the whole number
    let top = if c.thorough { 90 } else { 40 };
    for len in 1..=top {
        for from in 0..len {
            if !c.mine() { continue; }
            let mut ones = vec![0u32; len];
            for x in ones.iter_mut().skip(from) { *x = u32::MAX; }
            let mut unit = vec![0u32; from + 1];
            unit[from] = 1;
            let mut pow = vec![0u32; len + 1];
            pow[len] = 1;
            let (a, b, p) = (c.ld(uv(ones)), c.ld(uv(unit)), c.ld(uv(pow)));
            let s = c.op("u.add", &[a, b], &[]);
            c.op("u.add", &[b, a], &[]);
            c.op("u.sub", &[s, b], &[]);
            c.op("u.sub", &[p, b], &[]);
            c.op("u.sub", &[p, a], &[]);
            c.op("u.sub_u32", &[p], &[n(1)]);
            c.op("u.abs_diff", &[b, p], &[]);
            c.op_cp("u.sub_mut", &[p, b], &[]);
            c.op_cp("u.add_mut", &[b, a], &[]);
            let t = c.op("u.sub", &[p, a], &[]);
            c.op("u.sub", &[a, t], &[]);
            c.end();
        }
    }
    // every pair of lengths
    let top = if c.thorough { 110 } else { 48 };
    for la in 1..=top {
        for lb in 1..=top {
            for _ in 0..c.scale {
                if !c.mine() { continue; }
                let (a, b) = (limbs(&mut c.rng, la), limbs(&mut c.rng, lb));
                let k = u32v(&mut c.rng);
                c01_pair(c, uv(a), uv(b), k);
            }
        }
    }
    // operands that agree in their upper limbs
    for _ in 0..2500 * c.scale {
        if !c.mine() { continue; }
        let la = 1 + c.rng.us(12);
        let a = limbs(&mut c.rng, la);
        let mut b = a.clone();
        let k = c.rng.us(la);
        b[k] = limb(&mut c.rng);
        let b = norm(b);
        let k = u32v(&mut c.rng);
        c01_pair(c, uv(a), uv(b), k);
    }
    // histories
    for _ in 0..3000 * c.scale {
        if !c.mine() { continue; }
        let mut r: Vec<usize> = vec![];
        for _ in 0..3 { let v = ubig(&mut c.rng, 40); r.push(c.ld(Val::U(v))); }
        for _ in 0..14 {
            let (x, y) = (*c.rng.pick(&r), *c.rng.pick(&r));
            let k = n(u32v(&mut c.rng));
            let d = match c.rng.below(12) {
                0 | 1 => c.op("u.add", &[x, y], &[]),
                2 => c.op("u.abs_diff", &[x, y], &[]),
                3 => c.op("u.sub", &[x, y], &[]),
                4 => { let z = c.cp(y); c.op("u.add_mut", &[x, z], &[]) }
                5 => { let z = c.op("u.add", &[x, y], &[]); c.op("u.sub_mut", &[z, y], &[]) }
                6 => c.op("u.add_u32", &[x], &[k]),
                7 => c.op("u.sub_u32", &[x], &[k]),
                8 => c.op("u.abs_diff_u32", &[x], &[k]),
                9 => c.op_cp("u.add_u32_mut", &[x], &[k]),
                10 => c.op_cp("u.sub_u32_mut", &[x], &[k]),
                _ => { let k = c.rng.us(6); let v: Vec<usize> = (0..k).map(|_| *c.rng.pick(&r)).collect(); c.op("u.sum", &v, &[]) }
            };
            if c.ok(d) { r.push(d); }
            r.retain(|k| c.ok(*k));
            if r.is_empty() { break; }
        }
        c.end();
    }
}

fn c02_pair(c: &mut Ctx, a: Val, b: Val) {
    let a = c.ld(a);
    let b = c.ld(b);
    c.op("u.mul", &[a, b], &[]);
    c.op("u.mul", &[b, a], &[]);
    c.op_cp("u.mul_mut", &[a, b], &[]);
    c.finish();
}

fn c02(c: &mut Ctx) {
    let s = edge_set();
    for a in s.iter() {
        for b in s.iter() { if c.mine() { c02_pair(c, uv(a.clone()), uv(b.clone())); } }
        for k in LIMBS {
            if c.mine() {
                let r = c.ld(uv(a.clone()));
                c.op("u.mul_u32", &[r], &[n(k)]);
                c.op_cp("u.mul_u32_mut", &[r], &[n(k)]);
                c.end();
            }
        }
        // all shift counts, all slice lengths, small powers
        if c.mine() {
            let r = c.ld(uv(a.clone()));
            for k in 0..=(a.len() + 2) {
                let k = n(k as u32);
                for op in ["u.shift_right", "u.shift_left", "u.slice_right"] { c.op(op, &[r], &[k.clone()]); }
                for op in ["u.shift_right_mut", "u.shift_left_mut", "u.slice_right_mut"] { c.op_cp(op, &[r], &[k.clone()]); }
            }
            for k in 0..12 { c.op("u.pow_u32", &[r], &[n(k)]); c.op_cp("u.pow_u32_mut", &[r], &[n(k)]); }
            for k in 0..70 { c.op("u.mul_pow2", &[r], &[n(k)]); if k % 3 == 0 { c.op_cp("u.mul_pow2_mut", &[r], &[n(k)]); } }
            c.finish();
        }
    }
    for k in 0..(if c.thorough { 3000 } else { 700 }) {
        if c.mine() { c.op("u.pow2", &[], &[n(k)]); c.op("u.exp2", &[], &[n(k)]); c.finish(); }
    }
    // every pair of lengths up to past the second recursion of the fast algorithm
    let top = if c.thorough { 300 } else { 140 };
    let mut lens: Vec<usize> = (1..=top).collect();
    if c.thorough { lens.extend([383, 384, 385, 511, 512, 513, 520, 767, 1024]); } else { lens.extend([191, 192, 193, 255, 256, 257, 258, 259, 260, 300]); }
    for la in &lens {
        for lb in &lens {
            let near = |x: usize| x <= 5 || (60..=72).contains(&x) || (124..=140).contains(&x) || x > 250;
            let every = if near(*la) && near(*lb) { 1 } else if near(*la) || near(*lb) || la == lb { 2 } else { 5 };
            if lb > la { continue; }
            if !c.mine() { continue; }
            if c.rng.below(every) != 0 { continue; }
            let (a, b) = (limbs(&mut c.rng, *la), limbs(&mut c.rng, *lb));
            let (a, b) = if c.rng.bool() { (a, b) } else { (b, a) };
            let (a, b) = (c.ld(uv(a)), c.ld(uv(b)));
            c.op("u.mul", &[a, b], &[]);
            if c.rng.chance(1, 4) { c.op_cp("u.mul_mut", &[b, a], &[]); }
            c.finish();
        }
    }
    // long operands with structure: zero limbs at the split points, all ones, squares
    for _ in 0..400 * c.scale {
        if !c.mine() { continue; }
        let la = 60 + c.rng.us(90);
        let lb = if c.rng.bool() { la } else { 60 + c.rng.us(90) };
        let mk = |c: &mut Ctx, l: usize| {
            let mut v = limbs(&mut c.rng, l);
            let h = l / 2;
            match c.rng.below(5) {
                0 => for x in v.iter_mut().take(h) { *x = 0 },
                1 => for x in v.iter_mut().take(h) { *x = u32::MAX },
                2 => for x in v.iter_mut().skip(h) { *x = u32::MAX },
                3 => { let lo = c.rng.us(l); let hi = lo + c.rng.us(l - lo); for x in v.iter_mut().take(hi).skip(lo) { *x = 0 } }
                _ => {}
            }
            if v[l - 1] == 0 { v[l - 1] = 1; }
            v
        };
        let a = mk(c, la);
        let b = if c.rng.chance(1, 4) { a.clone() } else { mk(c, lb) };
        let (a, b) = (c.ld(uv(a)), c.ld(uv(b)));
        c.op("u.mul", &[a, b], &[]);
        c.op_cp("u.mul_mut", &[a, b], &[]);
        c.finish();
    }
    for _ in 0..3000 * c.scale {
        if !c.mine() { continue; }
        let a = ubig(&mut c.rng, 70);
        let b = ubig(&mut c.rng, 20);
        let (ra, rb) = (c.ld(Val::U(a)), c.ld(Val::U(b)));
        let k = u32v(&mut c.rng);
        c.op("u.mul", &[ra, rb], &[]);
        c.op("u.mul_u32", &[ra], &[n(k)]);
        c.op_cp("u.mul_u32_mut", &[ra], &[n(k)]);
        let top = if c.rng.chance(1, 8) { 3000 } else { 130 };
        let k = c.rng.below(top) as u32;
        c.op("u.mul_pow2", &[ra], &[n(k)]);
        c.op_cp("u.mul_pow2_mut", &[ra], &[n(k)]);
        let l = if let Val::U(u) = c.reg(ra) { u.clone().into_raw().len() } else { 1 };
        let k = c.rng.us(l + 2) as u32;
        let op = *c.rng.pick(&["u.shift_right", "u.shift_left", "u.slice_right"]);
        c.op(op, &[ra], &[n(k)]);
        let op = *c.rng.pick(&["u.shift_right_mut", "u.shift_left_mut", "u.slice_right_mut"]);
        c.op_cp(op, &[ra], &[n(k)]);
        c.end();
    }
    // powers
    for _ in 0..900 * c.scale {
        if !c.mine() { continue; }
        let l = 1 + c.rng.us(4);
        let a = uv(limbs(&mut c.rng, l));
        let e = if c.rng.bool() { c.rng.below(16) } else { c.rng.below((160 / l) as u64) } as u32;
        let r = c.ld(a);
        c.op("u.pow_u32", &[r], &[n(e)]);
        c.op_cp("u.pow_u32_mut", &[r], &[n(e)]);
        c.finish();
    }
    for base in 0..2u32 { for e in [u32::MAX, u32::MAX - 1, 1 << 31, (1 << 31) + 1, (1 << 31) - 1, 0xaaaa_aaaa] {
        if c.mine() { let r = c.ld(uv(vec![base])); c.op("u.pow_u32", &[r], &[n(e)]); c.op_cp("u.pow_u32_mut", &[r], &[n(e)]); c.finish(); }
    } }
    for base in 0..8u32 {
        for e in 0..260u32 { if c.mine() { let r = c.ld(uv(vec![base])); c.op("u.pow_u32", &[r], &[n(e)]); c.finish(); } }
    }
    // products over iterators
    for _ in 0..400 * c.scale {
        if !c.mine() { continue; }
        let k = c.rng.us(6);
        let mut v = vec![];
        for _ in 0..k { let x = ubig(&mut c.rng, 8); v.push(c.ld(Val::U(x))); }
        c.op("u.product", &v, &[]);
        c.end();
    }
}

pub fn c03_pair(c: &mut Ctx, a: Val, b: Val, k: u32) {
    let a = c.ld(a);
    let b = c.ld(b);
    c.op("u.div", &[a, b], &[]);
    c.op("u.rem", &[a, b], &[]);
    c.op_cp("u.div_mut", &[a, b], &[]);
    c.op_cp("u.rem_mut", &[a, b], &[]);
    c.op("u.div_u32", &[a], &[n(k)]);
    c.op("u.rem_u32", &[a], &[n(k)]);
    c.op_cp("u.div_u32_mut", &[a], &[n(k)]);
    c.op_cp("u.rem_u32_mut", &[a], &[n(k)]);
    c.end();
}

fn c03(c: &mut Ctx) {
    let s = edge_set();
    for (i, a) in s.iter().enumerate() {
        for (j, b) in s.iter().enumerate() {
            if c.mine() { c03_pair(c, uv(a.clone()), uv(b.clone()), LIMBS[(i * 5 + j) % LIMBS.len()]); }
        }
        for k in LIMBS {
            if c.mine() {
                let r = c.ld(uv(a.clone()));
                for op in ["u.div_u32", "u.rem_u32"] { c.op(op, &[r], &[n(k)]); }
                for op in ["u.div_u32_mut", "u.rem_u32_mut"] { c.op_cp(op, &[r], &[n(k)]); }
                if k.is_power_of_two() { c.op("u.rem_pow2", &[r], &[n(k)]); }
                c.end();
            }
        }
        if c.mine() {
            let r = c.ld(uv(a.clone()));
            for k in 0..32 { c.op("u.rem_pow2", &[r], &[n(1 << k)]); c.op("u.rem_u32", &[r], &[n(1 << k)]); c.op_cp("u.div_u32_mut", &[r], &[n(1 << k)]); }
            c.finish();
        }
    }
    // a = q*b + r for chosen q, b, r: exact multiples, remainder 0, 1, b-1, and one below a multiple
    let top = if c.thorough { 40 } else { 20 };
    for lq in 1..=top {
        for lb in 1..=top {
            for kind in 0..(3 * c.scale) {
                if !c.mine() { continue; }
                let (q, b) = (limbs(&mut c.rng, lq), limbs(&mut c.rng, lb));
                if is0(&b) { continue; }
                let qb = mulv(&q, &b);
                let a = match kind % 3 {
                    0 => qb,
                    1 => addv(&qb, &subv(&b, &[1])),
                    _ => { let t = limbs(&mut c.rng, lb); if cmpv(&t, &b).is_lt() { addv(&qb, &t) } else { addv(&qb, &[1]) } }
                };
                let k = u32v(&mut c.rng);
                c03_pair(c, uv(a), uv(b), k);
            }
        }
    }
    // divisors next to a short number, cut at every digit; exact multiples and their neighbours
    for t in 1..=200usize {
        for kind in 0..(12 * c.scale) {
            if !c.mine() { continue; }
            let lb = 1 + t.div_ceil(32) + c.rng.us(5);
            let b = prefix_fill(&mut c.rng, lb, t);
            let lq = 1 + c.rng.us(8);
            let q = limbs(&mut c.rng, lq);
            let a = mulv(&q, &b);
            let a = match kind % 3 { 0 => a, 1 if !is0(&a) => subv(&a, &[1]), _ => addv(&a, &subv(&b, &[1])) };
            let k = u32v(&mut c.rng);
            c03_pair(c, uv(norm(a)), uv(norm(b)), k);
        }
    }
    // every pair of lengths
    let top = if c.thorough { 90 } else { 40 };
    for la in 1..=top {
        for lb in 1..=top {
            for _ in 0..c.scale {
                if !c.mine() { continue; }
                let (a, b) = (limbs(&mut c.rng, la), limbs(&mut c.rng, lb));
                let k = u32v(&mut c.rng);
                c03_pair(c, uv(a), uv(b), k);
            }
        }
    }
    // leading limbs equal or off by one between dividend and divisor
    for _ in 0..8000 * c.scale {
        if !c.mine() { continue; }
        let lb = 1 + c.rng.us(9);
        let b = limbs(&mut c.rng, lb);
        let extra = c.rng.us(7);
        let mut a = limbs(&mut c.rng, extra + 1);
        a.truncate(extra);
        a.extend_from_slice(&b);
        let m = a.len();
        for _ in 0..c.rng.below(3) { let j = c.rng.us(m); a[j] = if c.rng.bool() { a[j].wrapping_sub(1) } else { a[j].wrapping_add(1) }; }
        let k = u32v(&mut c.rng);
        c03_pair(c, uv(norm(a)), uv(norm(b)), k);
    }
    // histories: a = (a / b) * b + a % b
    for _ in 0..3000 * c.scale {
        if !c.mine() { continue; }
        let a = ubig(&mut c.rng, 60);
        let b = ubig(&mut c.rng, 30);
        let (ra, rb) = (c.ld(Val::U(a)), c.ld(Val::U(b)));
        let q = c.op("u.div", &[ra, rb], &[]);
        let r = c.op("u.rem", &[ra, rb], &[]);
        let t = c.op("u.mul", &[q, rb], &[]);
        let t = c.op("u.add", &[t, r], &[]);
        let z = c.op("u.sub", &[ra, t], &[]);
        c.op("u.div", &[z, rb], &[]);
        c.op("u.div", &[ra, q], &[]);
        c.op("u.rem", &[ra, q], &[]);
        c.end();
    }
}
