//! Sessions for the integer properties: C04 to C07, C10, C11, C15, C16.

use crate::gen::*;
use crate::plan::*;
use crate::plan_ratio::{mutate, rat, ratio_edges, rv};
use crate::sess::Ctx;
use crate::val::Val;
use hmath::*;

pub fn bi(neg: bool, v: Vec<u32>) -> Val { let z = is0(&v); Val::I(BigInt::from_raw(v, neg && !z)) }

pub const IKS: [i32; 17] = [0, 1, -1, 2, -2, 3, -3, 10, i32::MAX, i32::MIN, i32::MIN + 1, i32::MAX - 1, 65536, -65536, 1 << 30, 46341, -10];

fn signed_edges() -> Vec<Val> {
    let mut v = vec![];
    for e in edge_set() {
        v.push(bi(false, e.clone()));
        if !is0(&e) { v.push(bi(true, e)); }
    }
    v
}

pub fn c06_pair(c: &mut Ctx, a: Val, b: Val, k: i32) {
    let (a, b) = (c.ld(a), c.ld(b));
    for op in ["i.add", "i.sub", "i.mul", "i.div", "i.rem"] { c.op(op, &[a, b], &[]); }
    for op in ["i.add_mut", "i.sub_mut", "i.mul_mut", "i.div_mut", "i.rem_mut"] { c.op_cp(op, &[a, b], &[]); }
    let k = ni(k as i64);
    for op in ["i.add_i32", "i.sub_i32", "i.mul_i32", "i.div_i32", "i.rem_i32"] { c.op(op, &[a], std::slice::from_ref(&k)); }
    for op in ["i.add_i32_mut", "i.sub_i32_mut", "i.mul_i32_mut", "i.div_i32_mut", "i.rem_i32_mut"] { c.op_cp(op, &[a], std::slice::from_ref(&k)); }
    c.end();
}

pub fn c06(c: &mut Ctx) {
    for op in ["i.zero", "i.one", "i.default"] { if c.mine() { c.one(op, vec![], &[]); } }
    let s = signed_edges();
    for (i, a) in s.iter().enumerate() {
        for (j, b) in s.iter().enumerate() {
            if !c.thorough && (i * 3 + j) % 5 != 0 && i != j && i ^ 1 != j { continue; }
            if c.mine() { c06_pair(c, a.clone(), b.clone(), IKS[(i * 7 + j) % IKS.len()]); }
        }
        for k in IKS { if c.mine() { let b = iv(k as i64); c06_pair(c, a.clone(), b, k); } }
        if c.mine() {
            let r = c.ld(a.clone());
            for op in ["i.neg", "i.abs", "i.is_zero", "i.is_one", "i.is_neg", "i.len"] { c.op(op, &[r], &[]); }
            for op in ["i.neg_mut", "i.abs_mut"] { c.op_cp(op, &[r], &[]); }
            for k in 0..10 { c.op("i.pow_u32", &[r], &[n(k)]); c.op_cp("i.pow_u32_mut", &[r], &[n(k)]); }
            for k in 0..68 { c.op("i.mul_pow2", &[r], &[n(k)]); if k % 5 == 0 { c.op_cp("i.mul_pow2_mut", &[r], &[n(k)]); } }
            for k in 0..=10 {
                for op in ["i.shift_right", "i.shift_left", "i.slice_right"] { c.op(op, &[r], &[n(k)]); }
                for op in ["i.shift_right_mut", "i.shift_left_mut", "i.slice_right_mut"] { c.op_cp(op, &[r], &[n(k)]); }
            }
            for k in 0..31 { c.op("i.rem_pow2", &[r], &[n(1 << k)]); }
            c.end();
        }
    }
    for b in -2..=2i64 { for e in [0u32, 1, 2, 3, u32::MAX, u32::MAX - 1, 1 << 31, (1 << 31) - 1] {
        if b.abs() == 2 && e > 3 { continue; }
        if c.mine() { let r = c.ld(iv(b)); c.op("i.pow_u32", &[r], &[n(e)]); c.op_cp("i.pow_u32_mut", &[r], &[n(e)]); c.end(); }
    } }
    for k in 0..300 { if c.mine() { c.op("i.pow2", &[], &[n(k)]); c.op("i.exp2", &[], &[n(k)]); c.finish(); } }
    let top = if c.thorough { 80 } else { 30 };
    for la in 1..=top { for lb in 1..=top { for _ in 0..2 * c.scale {
        if !c.mine() { continue; }
        let (a, b) = (limbs(&mut c.rng, la), limbs(&mut c.rng, lb));
        let (x, y, k) = (c.rng.bool(), c.rng.bool(), i32v(&mut c.rng));
        c06_pair(c, bi(x, a), bi(y, b), k);
    } } }
    for _ in 0..6000 * c.scale {
        if !c.mine() { continue; }
        let a = big(&mut c.rng, 70);
        // a second operand equal, opposite, or close in magnitude to the first
        let (raw, neg) = a.clone().into_raw();
        let b = match c.rng.below(6) {
            0 => bi(!neg, raw.clone()),
            1 => bi(neg, raw.clone()),
            2 => bi(c.rng.bool(), addv(&raw, &[1])),
            3 => bi(c.rng.bool(), if is0(&raw) { vec![1] } else { subv(&raw, &[1]) }),
            _ => Val::I(big(&mut c.rng, 30)),
        };
        // a machine operand equal or opposite to a short first one
        let k = if raw.len() == 1 && c.rng.chance(3, 4) { let m = raw[0] as i64 + c.rng.range(-1, 1); if c.rng.bool() { m as i32 } else { -m as i32 } } else { i32v(&mut c.rng) };
        c06_pair(c, Val::I(a), b, k);
    }
    // one-limb numbers against machine operands of every sign relation
    for _ in 0..6000 * c.scale {
        if !c.mine() { continue; }
        let l = limb(&mut c.rng);
        let k = match c.rng.below(4) { 0 => l as i32, 1 => (l as i32).wrapping_neg(), 2 => (l as i32).wrapping_add(c.rng.range(-2, 2) as i32), _ => i32v(&mut c.rng) };
        let neg = c.rng.bool();
        let b = i32v(&mut c.rng);
        c06_pair(c, bi(neg, vec![l]), iv(b as i64), k);
    }
    for _ in 0..2000 * c.scale {
        if !c.mine() { continue; }
        let a = big(&mut c.rng, 12);
        let r = c.ld(Val::I(a));
        let e = c.rng.below(9) as u32;
        c.op("i.pow_u32", &[r], &[n(e)]);
        c.op_cp("i.pow_u32_mut", &[r], &[n(e)]);
        let k = c.rng.below(300) as u32;
        c.op("i.mul_pow2", &[r], &[n(k)]);
        c.op_cp("i.mul_pow2_mut", &[r], &[n(k)]);
        let k = c.rng.below(14) as u32;
        for op in ["i.shift_right", "i.shift_left", "i.slice_right"] { c.op(op, &[r], &[n(k)]); }
        for op in ["i.shift_right_mut", "i.shift_left_mut", "i.slice_right_mut"] { c.op_cp(op, &[r], &[n(k)]); }
        let k = c.rng.below(31) as u32;
        c.op("i.rem_pow2", &[r], &[n(1 << k)]);
        c.op("i.neg", &[r], &[]);
        c.op_cp("i.neg_mut", &[r], &[]);
        c.op("i.abs", &[r], &[]);
        c.op_cp("i.abs_mut", &[r], &[]);
        c.end();
    }
    // histories
    for _ in 0..3000 * c.scale {
        if !c.mine() { continue; }
        let mut r: Vec<usize> = vec![];
        for _ in 0..3 { let v = big(&mut c.rng, 12); r.push(c.ld(Val::I(v))); }
        for _ in 0..14 {
            let op = *c.rng.pick(&["i.add", "i.sub", "i.mul", "i.div", "i.rem", "i.add_mut", "i.sub_mut", "i.mul_mut", "i.div_mut", "i.rem_mut", "i.neg", "i.abs", "i.neg_mut",
                "i.add_i32", "i.sub_i32", "i.mul_i32", "i.div_i32", "i.rem_i32", "i.add_i32_mut", "i.sub_i32_mut", "i.mul_i32_mut", "i.div_i32_mut", "i.rem_i32_mut"]);
            let (x, y) = (*c.rng.pick(&r), *c.rng.pick(&r));
            let one = op.contains("i32") || op.starts_with("i.neg") || op.starts_with("i.abs");
            let k = if op.contains("i32") { vec![ni(i32v(&mut c.rng) as i64)] } else { vec![] };
            let args = if one { vec![x] } else { vec![x, y] };
            let d = if op.ends_with("_mut") && (x == y || c.rng.bool()) { c.op_cp(op, &args, &k) } else { c.op(op, &args, &k) };
            if c.ok(d) { if let Val::I(v) = c.reg(d) { if v.clone().into_raw().0.len() < 60 { r.push(d); } } }
            r.retain(|k| c.ok(*k));
            if r.is_empty() { break; }
        }
        c.end();
    }
}

const CMPS: [&str; 16] = ["lt", "gt", "eq", "neq", "leq", "geq", "comp", "cmp", "partial_cmp", "op_lt", "op_le", "op_gt", "op_ge", "op_eq", "op_ne", "hash_eq"];

pub fn cmp_pair(c: &mut Ctx, fam: &str, a: Val, b: Val) {
    let (a, b) = (c.ld(a), c.ld(b));
    for op in CMPS {
        if fam == "f" && !(op.contains("cmp") || op.starts_with("op_") || op == "hash_eq") { continue; }
        c.op(&format!("{fam}.{op}"), &[a, b], &[]);
    }
    for op in ["max", "min"] { c.op(&format!("{fam}.{op}"), &[a, b], &[]); }
    c.finish();
}
fn cmp_small(c: &mut Ctx, fam: &str, a: Val, k: i64) {
    let a = c.ld(a);
    let t = if fam == "u" { "u32" } else { "i32" };
    for op in ["lt", "gt", "eq", "neq", "leq", "geq", "comp"] { c.op(&format!("{fam}.{op}_{t}"), &[a], &[ni(k)]); }
    if fam == "r" { c.op("r.lt_one", &[a], &[]); c.op("r.gt_one", &[a], &[]); }
    c.finish();
}
/// a number close to x: equal, off by one unit somewhere, or with another length
fn near(c: &mut Ctx, v: &[u32]) -> Vec<u32> {
    let mut w = v.to_vec();
    match c.rng.below(7) {
        0 => {}
        1 => w = addv(&w, &[1]),
        2 => if !is0(&w) { w = subv(&w, &[1]) },
        3 => { let k = c.rng.us(w.len()); w[k] = w[k].wrapping_add(1); }
        4 => { let k = c.rng.us(w.len()); w[k] = w[k].wrapping_sub(1); }
        5 => w.push(1),
        _ => { let k = c.rng.us(w.len()); w[k] = limb(&mut c.rng); }
    }
    norm(w)
}

pub fn fp_edges() -> Vec<Val> {
    let mut v = vec![Val::F(F192::ZERO)];
    let b = FEXP as u64 - 127;
    for e in [b, b + 1, b - 1, b + 127, b + 128, b - 127, b - 128, b + 64, b + 300, b - 300] {
        for d in [0u128, 1, 1 << 126, (1 << 127) - 1, 1 << 63] { for s in [0u128, 1 << 127] { v.push(Val::F(f192(d | s, e))); } }
    }
    for (d, e) in [(1u128, 1u64), (0, 1), ((1 << 127) - 1, 1), ((1 << 127) - 1, u64::MAX >> 15), (0, 1 << 49)] { for s in [0u128, 1 << 127] { v.push(Val::F(f192(d | s, e))); } }
    v
}

pub fn c07(c: &mut Ctx) {
    let u: Vec<Val> = edge_set().into_iter().map(uv).collect();
    let i = signed_edges();
    let r = ratio_edges();
    let f = fp_edges();
    for (fam, s) in [("u", &u), ("i", &i), ("r", &r), ("f", &f)] {
        let every = if c.thorough || s.len() < 140 { 1 } else { 3 };
        for (i, a) in s.iter().enumerate() { for (j, b) in s.iter().enumerate() {
            if (i + j) % every != 0 && i != j { continue; }
            if c.mine() { cmp_pair(c, fam, a.clone(), b.clone()); }
        } }
    }
    for a in &u { for k in LIMBS { if c.mine() { cmp_small(c, "u", a.clone(), k as i64); } } }
    for a in &i { for k in IKS { if c.mine() { cmp_small(c, "i", a.clone(), k as i64); } } }
    for a in &r { for k in IKS { if c.mine() { cmp_small(c, "r", a.clone(), k as i64); } } }
    // the operand itself, its neighbours, and rationals next to them
    for k in IKS { for d in -2..=2i64 { for den in [1u32, 2, 3, u32::MAX] {
        if !c.mine() { continue; }
        let m = k as i64 * den as i64 + d;
        cmp_small(c, "r", rv(m < 0, &of128(m.unsigned_abs() as u128), &[den]), k as i64);
        cmp_small(c, "i", iv(k as i64 + d), k as i64);
        if k as i64 + d >= 0 && k >= 0 { cmp_small(c, "u", uv(of128((k as i64 + d) as u128)), k as i64); }
    } } }
    for k in [0i64, 1, u32::MAX as i64, 1 << 31, (1 << 31) - 1] { for d in -2..=2i64 { if k + d >= 0 && c.mine() { cmp_small(c, "u", uv(of128((k + d) as u128)), k); } } }
    let top = if c.thorough { 60 } else { 24 };
    for la in 1..=top { for lb in 1..=top {
        if !c.mine() { continue; }
        let (a, b) = (limbs(&mut c.rng, la), limbs(&mut c.rng, lb));
        let (x, y) = (c.rng.bool(), c.rng.bool());
        cmp_pair(c, "u", uv(a.clone()), uv(b.clone()));
        cmp_pair(c, "i", bi(x, a), bi(y, b));
    } }
    // every limb position decides
    for l in 1..=(if c.thorough { 70 } else { 40 }) { for k in 0..l {
        if !c.mine() { continue; }
        let a = limbs(&mut c.rng, l);
        let mut b = a.clone();
        b[k] = if b[k] == u32::MAX { b[k] - 1 } else { b[k] + 1 };
        cmp_pair(c, "u", uv(a.clone()), uv(b.clone()));
        cmp_pair(c, "i", bi(true, a), bi(true, b));
    } }
    for _ in 0..5000 * c.scale {
        if !c.mine() { continue; }
        let a = ubig(&mut c.rng, 40).into_raw();
        let b = near(c, &a);
        let (x, y) = (c.rng.bool(), c.rng.bool());
        cmp_pair(c, "u", uv(a.clone()), uv(b.clone()));
        cmp_pair(c, "i", bi(x, a), bi(y, b));
        let a = ratio(&mut c.rng, 8);
        let (d, _, nn, ng) = a.clone().into_raw();
        let (d2, n2) = (near(c, &d), near(c, &nn));
        let g2 = if c.rng.chance(1, 4) { !ng } else { ng };
        let b = if is0(&d2) || c.rng.chance(1, 4) { ratio(&mut c.rng, 8) } else { ratio_of(g2, &n2, &d2) };
        cmp_pair(c, "r", rat(a.clone()), rat(b));
        let k = i32v(&mut c.rng);
        cmp_small(c, "r", rat(a), k as i64);
        let a = big(&mut c.rng, 3);
        cmp_small(c, "i", Val::I(a), k as i64);
        let l = limb(&mut c.rng);
        let s = c.rng.bool();
        cmp_small(c, "i", bi(s, vec![l]), k as i64);
        cmp_small(c, "u", uv(vec![l]), u32v(&mut c.rng.clone()) as i64);
        let (a, b) = (fp(&mut c.rng, 300), fp(&mut c.rng, 300));
        cmp_pair(c, "f", Val::F(a), Val::F(b));
        let (d, e) = crate::val::f192_parts(&a);
        if d != 0 || e != 0 {
            let (d2, e2) = match c.rng.below(4) { 0 => (d ^ 1, e), 1 => (d, e + 1), 2 => (d ^ 1 << 127, e), _ => (d ^ 1u128 << c.rng.below(127), e) };
            cmp_pair(c, "f", Val::F(a), Val::F(f192(d2, e2)));
        }
    }
    // sorting
    for _ in 0..700 * c.scale {
        if !c.mine() { continue; }
        let fam = *c.rng.pick(&["u", "i", "r", "f"]);
        let k = c.rng.us(9);
        let mut v: Vec<usize> = vec![];
        for _ in 0..k {
            let x = match fam { "u" => Val::U(ubig(&mut c.rng, 4)), "i" => Val::I(big(&mut c.rng, 4)), "r" => rat(small_ratio(&mut c.rng, 9, 6)), _ => Val::F(fp(&mut c.rng, 10)) };
            v.push(c.ld(x));
            if c.rng.chance(1, 4) { let t = *c.rng.pick(&v); let t = c.cp(t); v.push(t); }
        }
        c.op(&format!("{fam}.sort"), &v, &[]);
        c.finish();
    }
}

// ------------------------------------------------------------------ C04

/// (operation, register kinds, constant kinds)
/// constants: k any u32, i any i32, s 0..6, b shift 0..80, e exponent 0..5, x exponent -4..4,
/// 2 a power of two, 0/1 a bool, d digits
pub const TABLE: &[(&str, &str, &str)] = &[
    ("u.add", "uu", ""), ("u.sub", "uu", ""), ("u.mul", "uu", ""), ("u.div", "uu", ""), ("u.rem", "uu", ""), ("u.abs_diff", "uu", ""), ("u.gcd", "uu", ""),
    ("u.add_mut", "uu", ""), ("u.sub_mut", "uu", ""), ("u.mul_mut", "uu", ""), ("u.div_mut", "uu", ""), ("u.rem_mut", "uu", ""),
    ("u.add_u32", "u", "k"), ("u.sub_u32", "u", "k"), ("u.mul_u32", "u", "k"), ("u.div_u32", "u", "k"), ("u.rem_u32", "u", "k"), ("u.abs_diff_u32", "u", "k"),
    ("u.add_u32_mut", "u", "k"), ("u.sub_u32_mut", "u", "k"), ("u.mul_u32_mut", "u", "k"), ("u.div_u32_mut", "u", "k"), ("u.rem_u32_mut", "u", "k"),
    ("u.shift_right", "u", "s"), ("u.shift_left", "u", "s"), ("u.slice_right", "u", "s"), ("u.shift_right_mut", "u", "s"), ("u.shift_left_mut", "u", "s"), ("u.slice_right_mut", "u", "s"),
    ("u.mul_pow2", "u", "b"), ("u.mul_pow2_mut", "u", "b"), ("u.pow_u32", "u", "e"), ("u.pow_u32_mut", "u", "e"), ("u.rem_pow2", "u", "2"), ("u.sqrt", "u", ""), ("u.log2", "u", ""),
    ("u.zero", "", ""), ("u.one", "", ""), ("u.pow2", "", "b"), ("u.exp2", "", "b"), ("u.from_u32", "", "k"), ("u.factorial", "", "b"), ("u.fibonacci", "", "b"),
    ("u.max", "uu", ""), ("u.min", "uu", ""), ("u.sum", "uuu", ""), ("u.product", "uuu", ""), ("u.of_i", "i", ""), ("u.of_i_own", "i", ""), ("u.of_r", "r", ""), ("u.of_r_own", "r", ""),
    ("i.add", "ii", ""), ("i.sub", "ii", ""), ("i.mul", "ii", ""), ("i.div", "ii", ""), ("i.rem", "ii", ""), ("i.gcd", "ii", ""),
    ("i.add_mut", "ii", ""), ("i.sub_mut", "ii", ""), ("i.mul_mut", "ii", ""), ("i.div_mut", "ii", ""), ("i.rem_mut", "ii", ""),
    ("i.add_i32", "i", "i"), ("i.sub_i32", "i", "i"), ("i.mul_i32", "i", "i"), ("i.div_i32", "i", "i"), ("i.rem_i32", "i", "i"),
    ("i.add_i32_mut", "i", "i"), ("i.sub_i32_mut", "i", "i"), ("i.mul_i32_mut", "i", "i"), ("i.div_i32_mut", "i", "i"), ("i.rem_i32_mut", "i", "i"),
    ("i.shift_right", "i", "s"), ("i.shift_left", "i", "s"), ("i.slice_right", "i", "s"), ("i.shift_right_mut", "i", "s"), ("i.shift_left_mut", "i", "s"), ("i.slice_right_mut", "i", "s"),
    ("i.mul_pow2", "i", "b"), ("i.mul_pow2_mut", "i", "b"), ("i.pow_u32", "i", "e"), ("i.pow_u32_mut", "i", "e"), ("i.rem_pow2", "i", "3"), ("i.sqrt", "i", ""), ("i.log2", "i", ""),
    ("i.neg", "i", ""), ("i.abs", "i", ""), ("i.neg_mut", "i", ""), ("i.abs_mut", "i", ""), ("i.zero", "", ""), ("i.one", "", ""), ("i.from_i32", "", "i"), ("i.pow2", "", "b"),
    ("i.max", "ii", ""), ("i.min", "ii", ""), ("i.from_ubi", "u", "1"), ("i.to_ubi", "i", ""), ("i.of_u", "u", ""), ("i.of_r", "r", ""), ("i.of_r_own", "r", ""),
    ("r.add", "rr", ""), ("r.sub", "rr", ""), ("r.mul", "rr", ""), ("r.div", "rr", ""), ("r.add_mut", "rr", ""), ("r.sub_mut", "rr", ""), ("r.mul_mut", "rr", ""), ("r.div_mut", "rr", ""),
    ("r.add_bi", "ri", ""), ("r.sub_bi", "ri", ""), ("r.mul_bi", "ri", ""), ("r.div_bi", "ri", ""), ("r.add_bi_mut", "ri", ""), ("r.sub_bi_mut", "ri", ""), ("r.mul_bi_mut", "ri", ""), ("r.div_bi_mut", "ri", ""),
    ("r.add_i32", "r", "i"), ("r.sub_i32", "r", "i"), ("r.mul_i32", "r", "i"), ("r.div_i32", "r", "i"), ("r.add_i32_mut", "r", "i"), ("r.sub_i32_mut", "r", "i"), ("r.mul_i32_mut", "r", "i"), ("r.div_i32_mut", "r", "i"),
    ("r.pow_i32", "r", "x"), ("r.pow_i32_mut", "r", "x"), ("r.neg", "r", ""), ("r.abs", "r", ""), ("r.reci", "r", ""), ("r.neg_mut", "r", ""), ("r.abs_mut", "r", ""), ("r.reci_mut", "r", ""),
    ("r.truncate", "r", ""), ("r.truncate_mut", "r", ""), ("r.truncate_bi", "r", ""), ("r.frac", "r", ""), ("r.frac_mut", "r", ""), ("r.floor", "r", ""), ("r.floor_bi", "r", ""), ("r.round", "r", ""), ("r.round_bi", "r", ""),
    ("r.numer", "r", ""), ("r.denom", "r", ""), ("r.from_dn", "ii", ""), ("r.from_dn_i32", "", "ii"), ("r.from_bi", "i", ""), ("r.from_ubi", "u", ""), ("r.of_i", "i", ""), ("r.of_u", "u", ""),
    ("r.zero", "", ""), ("r.one", "", ""), ("r.max", "rr", ""), ("r.min", "rr", ""),
];

fn consts(c: &mut Ctx, kinds: &str) -> Vec<Val> {
    kinds.chars().map(|k| match k {
        'k' => n(u32v(&mut c.rng)),
        'i' => ni(i32v(&mut c.rng) as i64),
        's' => n(c.rng.below(7) as u32),
        'b' => n(c.rng.below(80) as u32),
        'e' => n(c.rng.below(6) as u32),
        'x' => ni(c.rng.range(-4, 4)),
        '2' => n(1 << c.rng.below(32)),
        '3' => n(1 << c.rng.below(31)),
        '1' => n(c.rng.below(2) as u32),
        _ => unreachable!(),
    }).collect()
}
fn kind(v: &Val) -> char { match v { Val::U(_) => 'u', Val::I(_) => 'i', Val::R(_) => 'r', _ => '?' } }
fn size(v: &Val) -> usize {
    match v {
        Val::U(u) => u.clone().into_raw().len(),
        Val::I(u) => u.clone().into_raw().0.len(),
        Val::R(u) => { let t = u.clone().into_raw(); t.0.len().max(t.2.len()) }
        _ => 0,
    }
}
fn pick_kind(c: &mut Ctx, r: &[usize], k: char) -> Option<usize> {
    let v: Vec<usize> = r.iter().copied().filter(|x| c.ok(*x) && kind(c.reg(*x)) == k).collect();
    if v.is_empty() { None } else { Some(*c.rng.pick(&v)) }
}

pub fn c04(c: &mut Ctx) {
    crate::plan_ratio::shrinks(c, 1000);
    // the shortest histories: every operation on every small value, including those that give zero
    let small: Vec<(char, Val)> = {
        let mut v = vec![];
        for x in [vec![0u32], vec![1], vec![2], vec![6], vec![u32::MAX], vec![0, 1], vec![u32::MAX, u32::MAX], vec![0, 0, 1]] { v.push(('u', uv(x.clone()))); v.push(('i', bi(false, x.clone()))); v.push(('i', bi(true, x))); }
        for (p, q) in [(0i64, 1u32), (1, 1), (-1, 1), (1, 2), (-1, 2), (3, 2), (-3, 2), (2, 3), (-6, 5), (5, 6), (1 << 33, 3), (-3, u32::MAX)] { v.push(('r', rv(p < 0, &of128(p.unsigned_abs() as u128), &[q]))); }
        v
    };
    for (op, args, cs) in TABLE {
        if args.len() > 2 { continue; }
        let ks: Vec<char> = args.chars().collect();
        let pool = |k: char| small.iter().filter(|x| x.0 == k).map(|x| x.1.clone()).collect::<Vec<_>>();
        let a0 = if ks.is_empty() { vec![Val::X] } else { pool(ks[0]) };
        let a1 = if ks.len() < 2 { vec![Val::X] } else { pool(ks[1]) };
        for x in &a0 { for y in &a1 { for _ in 0..(if cs.is_empty() { 1 } else { 6 }) {
            if !c.mine() { continue; }
            let mut r = vec![];
            if !ks.is_empty() { r.push(c.ld(x.clone())); }
            if ks.len() > 1 { r.push(c.ld(y.clone())); }
            let k = consts(c, cs);
            if op.contains("factorial") || op.contains("pow2") && ks.is_empty() { c.op(op, &r, &k); c.end(); continue; }
            c.op(op, &r, &k);
            c.end();
        } } }
    }
    // long mixed histories, seeing every intermediate value
    for t in 0..9000 * c.scale {
        if !c.mine() { continue; }
        let big_ok = t % 5 == 0;
        let m = if big_ok { 40 } else { 3 };
        let mut r: Vec<usize> = vec![];
        for _ in 0..2 {
            let v = ubig(&mut c.rng, m); r.push(c.ld(Val::U(v)));
            let v = big(&mut c.rng, m); r.push(c.ld(Val::I(v)));
            let v = ratio(&mut c.rng, m.min(6)); r.push(c.ld(rat(v)));
        }
        for _ in 0..22 {
            let (op, args, cs) = *c.rng.pick(TABLE);
            let mut a = vec![];
            for k in args.chars() { if let Some(x) = pick_kind(c, &r, k) { a.push(x) } }
            if a.len() != args.len() { continue; }
            let k = consts(c, cs);
            let d = if op.ends_with("_mut") && (a.len() > 1 && a[1..].contains(&a[0]) || c.rng.bool()) { c.op_cp(op, &a, &k) } else { c.op(op, &a, &k) };
            if c.ok(d) && size(c.reg(d)) <= 2 * m + 4 && kind(c.reg(d)) != '?' { if !r.contains(&d) { r.push(d); } } else { r.retain(|x| *x != d); }
            r.retain(|k| c.ok(*k));
        }
        // equal numbers, however they were made, compare, hash and print alike
        for fam in ["u", "i", "r"] {
            let k = fam.chars().next().unwrap();
            if let (Some(x), Some(y)) = (pick_kind(c, &r, k), pick_kind(c, &r, k)) {
                // y' = x + (y - x) is y, made by another route
                let d = if fam == "u" { let s = c.op("u.add", &[x, y], &[]); c.op("u.sub", &[s, x], &[]) } else { let s = c.op(&format!("{fam}.sub"), &[y, x], &[]); c.op(&format!("{fam}.add"), &[s, x], &[]) };
                for op in ["op_eq", "hash_eq", "cmp", "eq"] { c.op(&format!("{fam}.{op}"), &[d, y], &[]); c.op(&format!("{fam}.{op}"), &[x, y], &[]); }
                let p = if fam == "r" { "r.ratio_string" } else if fam == "u" { "u.display" } else { "i.display" };
                c.op(p, &[d], &[]);
                c.op(p, &[y], &[]);
            }
        }
        c.end();
    }
}

// ------------------------------------------------------------------ C05

pub fn c05_case(c: &mut Ctx, x: Vec<u32>, xn: bool, k: i32) {
    let xn = xn && !is0(&x);
    let kn = k < 0;
    let ka = of128(k.unsigned_abs() as u128);
    let kc = [ni(k as i64)];
    // signed, as BigInt and as an integral Ratio
    let (i, ik) = (c.ld(bi(xn, x.clone())), c.ld(bi(kn, ka.clone())));
    let (r, rk) = (c.ld(rv(xn, &x, &[1])), c.ld(rv(kn, &ka, &[1])));
    for o in ["add", "sub", "mul", "div", "rem"] {
        c.op(&format!("i.{o}"), &[i, ik], &[]);
        c.op_cp(&format!("i.{o}_mut"), &[i, ik], &[]);
        c.op(&format!("i.{o}_i32"), &[i], &kc);
        c.op_cp(&format!("i.{o}_i32_mut"), &[i], &kc);
        if o == "rem" { continue; }
        c.op(&format!("r.{o}"), &[r, rk], &[]);
        c.op_cp(&format!("r.{o}_mut"), &[r, rk], &[]);
        c.op(&format!("r.{o}_bi"), &[r, ik], &[]);
        c.op_cp(&format!("r.{o}_bi_mut"), &[r, ik], &[]);
        c.op(&format!("r.{o}_i32"), &[r], &kc);
        c.op_cp(&format!("r.{o}_i32_mut"), &[r], &kc);
    }
    for o in ["lt", "gt", "eq", "neq", "leq", "geq", "comp"] {
        for (f, a, b) in [("i", i, ik), ("r", r, rk)] { c.op(&format!("{f}.{o}"), &[a, b], &[]); c.op(&format!("{f}.{o}_i32"), &[a], &kc); }
    }
    for o in ["neg", "abs"] { for (f, a) in [("i", i), ("r", r)] { c.op(&format!("{f}.{o}"), &[a], &[]); c.op_cp(&format!("{f}.{o}_mut"), &[a], &[]); } }
    c.end();
    // unsigned
    let k = k as u32;
    let kc = [n(k)];
    let (u, uk) = (c.ld(uv(x.clone())), c.ld(uv(vec![k])));
    for o in ["add", "sub", "mul", "div", "rem"] {
        c.op(&format!("u.{o}"), &[u, uk], &[]);
        c.op_cp(&format!("u.{o}_mut"), &[u, uk], &[]);
        c.op(&format!("u.{o}_u32"), &[u], &kc);
        c.op_cp(&format!("u.{o}_u32_mut"), &[u], &kc);
    }
    c.op("u.abs_diff", &[u, uk], &[]);
    c.op("u.abs_diff_u32", &[u], &kc);
    if k.is_power_of_two() { c.op("u.rem_pow2", &[u], &kc); }
    for o in ["lt", "gt", "eq", "neq", "leq", "geq", "comp"] { c.op(&format!("u.{o}"), &[u, uk], &[]); c.op(&format!("u.{o}_u32"), &[u], &kc); }
    c.end();
}

pub fn c05(c: &mut Ctx) {
    for x in edge_set() {
        for k in IKS.iter().copied().chain(LIMBS.iter().map(|x| *x as i32)) {
            for s in [false, true] { if c.mine() { c05_case(c, x.clone(), s, k); } }
        }
    }
    for _ in 0..6000 * c.scale {
        if !c.mine() { continue; }
        let x = ubig(&mut c.rng, 30).into_raw();
        let k = if x.len() == 1 && c.rng.bool() { (x[0] as i32).wrapping_add(c.rng.range(-1, 1) as i32) } else { i32v(&mut c.rng) };
        let s = c.rng.bool();
        c05_case(c, x, s, k);
    }
    // non-integral rationals: all forms with the same integer operand
    for _ in 0..4000 * c.scale {
        if !c.mine() { continue; }
        let a = ratio(&mut c.rng, 5);
        let k = match c.rng.below(4) {
            0 => { let t = a.clone().into_raw().0; t[0] as i32 }
            1 => { let t = a.clone().into_raw().2; t[0] as i32 }
            _ => i32v(&mut c.rng),
        };
        let kc = [ni(k as i64)];
        let r = c.ld(rat(a));
        let (ik, rk) = (c.ld(iv(k as i64)), c.ld(rv(k < 0, &[k.unsigned_abs()], &[1])));
        for o in ["add", "sub", "mul", "div"] {
            c.op(&format!("r.{o}"), &[r, rk], &[]);
            c.op_cp(&format!("r.{o}_mut"), &[r, rk], &[]);
            c.op(&format!("r.{o}_bi"), &[r, ik], &[]);
            c.op_cp(&format!("r.{o}_bi_mut"), &[r, ik], &[]);
            c.op(&format!("r.{o}_i32"), &[r], &kc);
            c.op_cp(&format!("r.{o}_i32_mut"), &[r], &kc);
        }
        for o in ["lt", "gt", "eq", "neq", "leq", "geq", "comp"] { c.op(&format!("r.{o}"), &[r, rk], &[]); c.op(&format!("r.{o}_i32"), &[r], &kc); }
        for o in ["neg", "abs", "reci", "truncate", "frac"] { c.op(&format!("r.{o}"), &[r], &[]); c.op_cp(&format!("r.{o}_mut"), &[r], &[]); }
        for o in ["truncate_bi", "truncate_and_frac", "floor", "floor_bi", "round", "round_bi"] { c.op(&format!("r.{o}"), &[r], &[]); }
        let e = ni(c.rng.range(-4, 4));
        c.op("r.pow_i32", &[r], std::slice::from_ref(&e));
        c.op_cp("r.pow_i32_mut", &[r], std::slice::from_ref(&e));
        c.end();
    }
    // returning and in-place forms of everything in the table, on the same arguments, both ways round
    let pairs: Vec<(&str, String, &str, &str)> = TABLE.iter().filter(|t| t.0.ends_with("_mut")).map(|t| (t.0, t.0.trim_end_matches("_mut").to_string(), t.1, t.2)).collect();
    for t in 0..30 * c.scale {
        for (m, p, args, cs) in &pairs {
            if !c.mine() { continue; }
            let len = if t % 6 == 0 && !p.starts_with('r') { 80 } else { 8 };
            let mut a = vec![];
            for k in args.chars() {
                let v = match k { 'u' => Val::U(ubig(&mut c.rng, len)), 'i' => Val::I(big(&mut c.rng, len)), _ => rat(ratio(&mut c.rng, len)) };
                a.push(c.ld(v));
            }
            let k = consts(c, cs);
            c.op(p, &a, &k);
            c.op_cp(m, &a, &k);
            c.op(m, &a, &k);
            c.end();
        }
    }
    crate::plan_more::c05_more(c);
}

// ------------------------------------------------------------------ C10

const OWN: [&str; 12] = ["own_u8", "own_u16", "own_u32", "own_u64", "own_usize", "own_u128", "own_i8", "own_i16", "own_i32", "own_i64", "own_isize", "own_i128"];
const TOM: [&str; 12] = ["as_u8", "as_u16", "as_u32", "as_u64", "as_usize", "as_u128", "as_i8", "as_i16", "as_i32", "as_i64", "as_isize", "as_i128"];

pub fn to_machine(c: &mut Ctx, neg: bool, v: Vec<u32>) {
    let i = c.ld(bi(neg, v.clone()));
    for o in TOM { c.op(&format!("i.{o}"), &[i], &[]); }
    for o in OWN { if c.rng.chance(1, 2) { c.op(&format!("i.{o}"), &[i], &[]); } }
    for o in ["to_i32", "to_i64", "to_i128", "to_ubi", "as_bool", "own_bool"] { c.op(&format!("i.{o}"), &[i], &[]); }
    let r = c.op("r.of_i", &[i], &[]);
    for o in TOM { c.op(&format!("r.{o}"), &[r], &[]); }
    for o in OWN { if c.rng.chance(1, 2) { c.op(&format!("r.{o}"), &[r], &[]); } }
    for o in ["pair", "pair_own", "pair_r", "pair_bool"] { if c.rng.chance(1, 4) { c.op(&format!("r.{o}"), &[r], &[]); } }
    c.op("u.of_r_own", &[r], &[]);
    c.op("i.of_r_own", &[r], &[]);
    c.op("r.of_i_own", &[i], &[]);
    c.op("r.from_bi", &[i], &[]);
    c.op("u.of_i", &[i], &[]);
    c.op("u.of_i_own", &[i], &[]);
    c.op("i.of_r", &[r], &[]);
    c.op("u.of_r", &[r], &[]);
    c.end();
    if !neg {
        let u = c.ld(uv(v));
        for o in TOM { c.op(&format!("u.{o}"), &[u], &[]); }
        for o in OWN { if c.rng.chance(1, 2) { c.op(&format!("u.{o}"), &[u], &[]); } }
        for o in ["to_u32", "to_u64", "to_u128", "as_bool", "own_bool"] { c.op(&format!("u.{o}"), &[u], &[]); }
        for o in ["i.of_u", "i.of_u_own", "r.of_u", "r.of_u_own", "r.from_ubi"] { c.op(o, &[u], &[]); }
        c.op("i.from_ubi", &[u], &[n(0)]);
        c.op("i.from_ubi", &[u], &[n(1)]);
        c.end();
    }
}

/// the machine integer ± m into every type that has it, through every constructor
fn of_machine(c: &mut Ctx, neg: bool, m: u128) {
    let v = [Val::N(neg && m != 0, m)];
    let neg = neg && m != 0;
    let fits_u = |b: u32| !neg && (b == 128 || m >> b == 0);
    let fits_i = |b: u32| if neg { m <= 1u128 << (b - 1) } else { m < 1u128 << (b - 1) };
    let mut types: Vec<&str> = vec![];
    if fits_u(1) { types.push("bool"); }
    for (b, t, u) in [(8, "u8", ""), (16, "u16", ""), (32, "u32", ""), (64, "u64", "usize"), (128, "u128", "")] { if fits_u(b) { types.push(t); if u != "" { types.push(u); } } }
    for (b, t, u) in [(8, "i8", ""), (16, "i16", ""), (32, "i32", ""), (64, "i64", "isize"), (128, "i128", "")] { if fits_i(b) { types.push(t); if u != "" { types.push(u); } } }
    for t in &types { for f in ["u", "i", "r"] {
        c.op(&format!("{f}.of_{t}"), &[], &v);
        if c.rng.chance(1, 3) { c.op(&format!("{f}.of_ref_{t}"), &[], &v); }
    } }
    let mut ops: Vec<&str> = vec![];
    if fits_u(32) { ops.push("u.from_u32"); }
    if fits_u(64) { ops.push("u.from_u64"); }
    if fits_u(128) { ops.push("u.from_u128"); }
    if fits_i(32) { ops.extend(["i.from_i32", "r.from_i32"]); }
    if fits_i(64) { ops.extend(["i.from_i64", "r.from_i64"]); }
    if fits_i(128) { ops.extend(["i.from_i128", "r.from_i128"]); }
    for o in ops { c.op(o, &[], &v); }
    c.end();
}

pub fn c10(c: &mut Ctx) {
    // every value around every power of two up to 2^130
    for k in 0..=130usize { for d in -3i32..=3 { for neg in [false, true] {
        if !c.mine() { continue; }
        let p = shlv(&[1], k);
        let v = if d >= 0 { addv(&p, &[d as u32]) } else { if cmpv(&p, &[(-d) as u32]).is_lt() { continue; } subv(&p, &[(-d) as u32]) };
        to_machine(c, neg && !is0(&v), v.clone());
        if v.len() <= 4 { let m = v.iter().rev().fold(0u128, |a, l| a << 32 | *l as u128); of_machine(c, neg, m); }
    } } }
    for v in edge_set() { for neg in [false, true] { if c.mine() { to_machine(c, neg && !is0(&v), v.clone()); } } }
    for k in 0..600u128 { for neg in [false, true] { if c.mine() { of_machine(c, neg, k); to_machine(c, neg && k != 0, of128(k)); } } }
    for _ in 0..4000 * c.scale {
        if !c.mine() { continue; }
        let (neg, m) = (c.rng.bool(), m128(&mut c.rng));
        of_machine(c, neg, m);
        to_machine(c, neg && m != 0, of128(m));
        let v = ubig(&mut c.rng, 8).into_raw();
        to_machine(c, neg && !is0(&v), v);
        // a non-integral rational near the type's limits
        let k = *c.rng.pick(&[7usize, 8, 15, 16, 31, 32, 63, 64, 127, 128]);
        let den = 1 + c.rng.below(9) as u32;
        let num = mulv(&shlv(&[1], k), &[den]);
        let off = c.rng.below(3 * den as u64) as u32;
        let num = if c.rng.bool() { addv(&num, &[off]) } else if cmpv(&num, &[off]).is_lt() { num } else { subv(&num, &[off]) };
        let r = c.ld(rv(neg, &num, &[den]));
        for o in TOM { c.op(&format!("r.{o}"), &[r], &[]); }
        for o in OWN { if c.rng.chance(1, 3) { c.op(&format!("r.{o}"), &[r], &[]); } }
        for o in ["pair", "pair_own", "pair_r", "pair_bool"] { if c.rng.chance(1, 4) { c.op(&format!("r.{o}"), &[r], &[]); } }
        for o in ["i.of_r", "i.of_r_own", "u.of_r", "u.of_r_own"] { c.op(o, &[r], &[]); }
        c.end();
    }
}

// ------------------------------------------------------------------ C11

const PARSERS: [&str; 4] = ["from_string", "from_str", "try_from_str", "try_from_string"];
const PRINTERS: [&str; 14] = ["dec", "display", "hex", "hexp", "fmt_x", "fmt_xp", "oct", "octp", "fmt_o", "fmt_op", "bin", "binp", "fmt_b", "fmt_bp"];

pub fn parse_all(c: &mut Ctx, s: &str, all: bool) {
    let v = [sv(s)];
    for (j, p) in PARSERS.iter().enumerate() {
        if !all && j > 0 { continue; }
        c.op(&format!("u.{p}"), &[], &v);
        c.op(&format!("i.{p}"), &[], &v);
    }
    c.finish();
}
pub fn print_all(c: &mut Ctx, neg: bool, v: Vec<u32>) {
    let i = c.ld(bi(neg, v.clone()));
    for p in PRINTERS {
        let t = c.op(&format!("i.{p}"), &[i], &[]);
        // what was printed reads back as the value
        if ["dec", "hexp", "octp", "binp"].contains(&p) { if let Val::S(s) = c.reg(t) { let s = [Val::S(s.clone())]; c.op("i.from_string", &[], &s); } }
    }
    c.end();
    if !neg {
        let u = c.ld(uv(v));
        for p in PRINTERS {
            let t = c.op(&format!("u.{p}"), &[u], &[]);
            if ["dec", "hexp", "octp", "binp"].contains(&p) { if let Val::S(s) = c.reg(t) { let s = [Val::S(s.clone())]; c.op("u.from_string", &[], &s); } }
        }
        c.end();
    }
}
fn numeral(r: &mut Rng) -> String {
    let mut s = String::new();
    if r.chance(1, 3) { s.push('-'); }
    let (p, digs): (&str, &[u8]) = match r.below(8) {
        0 => ("0x", b"0123456789abcdefABCDEF"), 1 => ("0X", b"0123456789abcdefABCDEF"), 2 => ("0o", b"01234567"), 3 => ("0b", b"01"), 4 => ("0B", b"01"), _ => ("", b"0123456789"),
    };
    s.push_str(p);
    let top = if r.chance(1, 6) { 120 } else { 24 };
    let len = 1 + r.us(top);
    for k in 0..len {
        let z = r.chance(1, 4);
        let d = if p.is_empty() && k == 0 { *r.pick(&b"123456789"[..]) } else if z { b'0' } else { *r.pick(digs) };
        s.push(d as char);
        if r.chance(1, 7) { s.push('_'); }
    }
    s
}

pub fn c11(c: &mut Ctx) {
    // every string over the characters of the grammar
    let al: Vec<char> = "01279_-xXobaAFf.eE+ g".chars().collect();
    let mut level: Vec<String> = vec![String::new()];
    for l in 0..=(if c.thorough { 4 } else { 3 }) {
        for s in &level { if c.mine() { parse_all(c, s, l <= 2); } }
        if l == (if c.thorough { 4 } else { 3 }) { break; }
        level = level.iter().flat_map(|s| al.iter().map(move |ch| format!("{s}{ch}"))).collect();
    }
    // longer strings behind each prefix
    let al2: Vec<char> = "018_afFgb".chars().collect();
    for p in ["0x", "0X", "0o", "0O", "0b", "0B", "-0x", "-0b", "-0o", "1", "-1", "0", "-0", "--", "0_", "1_", "_"] {
        let mut level: Vec<String> = vec![p.to_string()];
        for _ in 0..(if c.thorough { 4 } else { 3 }) {
            level = level.iter().flat_map(|s| al2.iter().map(move |ch| format!("{s}{ch}"))).collect();
            for s in &level { if c.mine() { parse_all(c, s, false); } }
        }
    }
    for s in ["é", "1é", "٣", "1\u{0}", "0x\u{ff11}", "１２", "∞", "\n", "1\n", "\t1", "0xx1", "0x0x1", "1e5", "1.0", "+1", "0x-1", "0x+1", "-", "--1", "- 1", "NaN", "inf"] { if c.mine() { parse_all(c, s, true); } }
    for _ in 0..6000 * c.scale {
        if !c.mine() { continue; }
        let s = numeral(&mut c.rng);
        let all = c.rng.chance(1, 4);
        parse_all(c, &s, all);
        let m = mutate(&mut c.rng, &s);
        parse_all(c, &m, false);
    }
    // every length of decimal numeral: powers of ten and their neighbours, digit groups of zeros
    for k in 0..(if c.thorough { 420 } else { 130 }) {
        if !c.mine() { continue; }
        let mut p = vec![1u32];
        for _ in 0..k { p = mulv(&p, &[10]); }
        print_all(c, k % 2 == 1, p.clone());
        print_all(c, k % 3 == 1, addv(&p, &[k as u32 % 10]));
        let q = subv(&p, &[1]);
        print_all(c, k % 2 == 0 && !is0(&q), q);
        // d * 10^k + e * 10^j
        let j = c.rng.us(k + 1);
        let mut q = vec![1 + c.rng.below(9) as u32];
        for _ in 0..j { q = mulv(&q, &[10]); }
        let d = 1 + c.rng.below(9) as u32;
        print_all(c, false, addv(&mulv(&p, &[d]), &q));
    }
    // every length in bits, and each radix's group boundaries
    for k in 0..(if c.thorough { 1400 } else { 420 }) {
        if !c.mine() { continue; }
        let p = shlv(&[1], k);
        print_all(c, k % 2 == 0, p.clone());
        print_all(c, k % 2 == 1 && k > 0, if k == 0 { vec![0] } else { subv(&p, &[1]) });
    }
    for v in edge_set() { for neg in [false, true] { if c.mine() { print_all(c, neg && !is0(&v), v.clone()); } } }
    for k in 0..1300u32 { if c.mine() { print_all(c, false, vec![k]); } }
    for _ in 0..2500 * c.scale {
        if !c.mine() { continue; }
        let v = ubig(&mut c.rng, 40).into_raw();
        let neg = c.rng.bool() && !is0(&v);
        print_all(c, neg, v);
    }
}

// ------------------------------------------------------------------ C15

pub fn roots(c: &mut Ctx, v: Vec<u32>) {
    let u = c.ld(uv(v.clone()));
    for o in ["u.sqrt", "u.log2", "u.log2_accurate"] { c.op(o, &[u], &[]); }
    c.end();
    let (p, m) = (c.ld(bi(false, v.clone())), c.ld(bi(true, v)));
    for o in ["i.sqrt", "i.log2", "i.log2_accurate"] { c.op(o, &[p], &[]); }
    for o in ["i.sqrt", "i.log2", "i.log2_accurate"] { c.op(o, &[m], &[]); }
    c.end();
}
pub fn gcds(c: &mut Ctx, a: Vec<u32>, b: Vec<u32>) {
    let (x, y) = (c.ld(uv(a.clone())), c.ld(uv(b.clone())));
    c.op("u.gcd", &[x, y], &[]);
    c.op("u.gcd", &[y, x], &[]);
    let (s, t) = (c.rng.bool(), c.rng.bool());
    let (x, y) = (c.ld(bi(s, a)), c.ld(bi(t, b)));
    c.op("i.gcd", &[x, y], &[]);
    c.end();
}

pub fn c15(c: &mut Ctx) {
    for k in 0..(if c.thorough { 70_000u32 } else { 5000 }) { if c.mine() { roots(c, vec![k]); } }
    // around squares of every length, and around the perfect squares of the boundary values
    for v in edge_set() {
        if !c.mine() { continue; }
        let q = mulv(&v, &v);
        roots(c, q.clone());
        roots(c, addv(&q, &[1]));
        if !is0(&q) { roots(c, subv(&q, &[1])); }
        roots(c, addv(&q, &v));
        roots(c, addv(&addv(&q, &v), &v));
        roots(c, v);
    }
    for k in 0..(if c.thorough { 2200 } else { 700 }) {
        if !c.mine() { continue; }
        let p = shlv(&[1], k);
        roots(c, addv(&p, &[1]));
        if k > 0 { roots(c, subv(&p, &[1])); }
        roots(c, p);
    }
    for l in 1..=(if c.thorough { 80 } else { 36 }) { for kind in 0..8 * c.scale {
        if !c.mine() { continue; }
        let s = limbs(&mut c.rng, l);
        let q = mulv(&s, &s);
        let v = match kind % 8 {
            0 => q, 1 => if is0(&q) { q } else { subv(&q, &[1]) }, 2 => addv(&q, &[1]), 3 => addv(&addv(&q, &s), &s), 4 => addv(&addv(&addv(&q, &s), &s), &[1]),
            5 => addv(&q, &[limb(&mut c.rng)]), _ => { let n = 2 * l - c.rng.us(2); limbs(&mut c.rng, n) }
        };
        roots(c, v);
    } }
    for _ in 0..2500 * c.scale {
        if !c.mine() { continue; }
        let m = m128(&mut c.rng);
        roots(c, of128(m));
        let s = (m >> c.rng.range(64, 127)) as u64;
        let q = (s as u128 * s as u128).wrapping_add(c.rng.range(-2, 2) as u128);
        roots(c, of128(q));
    }
    // gcd: all small pairs, boundary pairs, constructed common factors, Fibonacci neighbours, one dividing the other
    for a in 0..(if c.thorough { 130u32 } else { 48 }) { for b in 0..=a { if c.mine() { gcds(c, vec![a], vec![b]); } } }
    let s = edge_set();
    for (i, a) in s.iter().enumerate() { for b in s.iter().skip(i) { if c.mine() { gcds(c, a.clone(), b.clone()); } } }
    let (mut f, mut g) = (vec![0u32], vec![1u32]);
    for _ in 0..(if c.thorough { 700 } else { 260 }) {
        if c.mine() { gcds(c, f.clone(), g.clone()); gcds(c, mulv(&f, &[6]), mulv(&g, &[10])); }
        let h = addv(&f, &g);
        f = g;
        g = h;
    }
    for _ in 0..5000 * c.scale {
        if !c.mine() { continue; }
        let (a, b, g) = (ubig(&mut c.rng, 8).into_raw(), ubig(&mut c.rng, 8).into_raw(), ubig_nz(&mut c.rng, 4).into_raw());
        match c.rng.below(5) {
            0 => gcds(c, a, b),
            1 => gcds(c, mulv(&a, &g), g),
            2 => { let k = c.rng.us(100); gcds(c, shlv(&a, k), b) }
            _ => gcds(c, mulv(&a, &g), mulv(&b, &g)),
        }
    }
    let ex = [i32::MIN, i32::MIN + 1, i32::MAX, -1, 0, 1, 2, -2, 1 << 30, -(1 << 30), 6, -6, 46341];
    for a in ex { for b in ex { if c.mine() { c.one("i.gcd_i32", vec![], &[ni(a as i64), ni(b as i64)]); } } }
    for _ in 0..4000 * c.scale {
        if !c.mine() { continue; }
        let g = 1 + c.rng.below(1000) as i32;
        let (a, b) = if c.rng.bool() { (i32v(&mut c.rng), i32v(&mut c.rng)) } else { (g.wrapping_mul(c.rng.range(-9999, 9999) as i32), g.wrapping_mul(c.rng.range(-9999, 9999) as i32)) };
        c.one("i.gcd_i32", vec![], &[ni(a as i64), ni(b as i64)]);
    }
    // exp2_accurate on what log2_accurate gives, and on its neighbours
    for k in 0..200u32 { if c.mine() { let r = c.ld(uv(norm(vec![0, k]))); c.op("u.exp2_accurate", &[r], &[]); c.end(); } }
    for _ in 0..2500 * c.scale {
        if !c.mine() { continue; }
        let v = ubig_nz(&mut c.rng, 10);
        let u = c.ld(Val::U(v));
        let l = c.op("u.log2_accurate", &[u], &[]);
        c.op("u.exp2_accurate", &[l], &[]);
        let hi = c.rng.below(*c.rng.clone().pick(&[4, 40, 70, 400])) as u32;
        let k = match c.rng.below(8) { 0 => hi, 1 => limb(&mut c.rng), 2 => (1u32 << c.rng.below(32)).wrapping_sub(c.rng.below(2) as u32), _ => c.rng.next() as u32 };
        let x = c.ld(uv(norm(vec![k, hi])));
        c.op("u.exp2_accurate", &[x], &[]);
        c.end();
    }
}

// ------------------------------------------------------------------ C16

fn primes(c: &mut Ctx, m: u128, neg: bool) { primes_of(c, of128(m), neg) }
fn primes_of(c: &mut Ctx, m: Vec<u32>, neg: bool) {
    let u = c.ld(uv(m.clone()));
    c.op("u.is_prime", &[u], &[]);
    c.op("u.prime_factorial", &[u], &[]);
    let i = c.ld(bi(neg, m));
    c.op("i.is_prime", &[i], &[]);
    c.op("i.prime_factorial", &[i], &[]);
    c.end();
}
fn is_prime64(n: u64) -> bool {
    if n < 2 { return false; }
    for p in [2u64, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37] { if n % p == 0 { return n == p; } }
    let (mut d, mut s) = (n - 1, 0);
    while d % 2 == 0 { d /= 2; s += 1; }
    'w: for a in [2u64, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37] {
        let (mut x, mut b, mut e) = (1u128, a as u128, d);
        while e > 0 { if e & 1 == 1 { x = x * b % n as u128; } b = b * b % n as u128; e >>= 1; }
        if x == 1 || x == n as u128 - 1 { continue; }
        for _ in 0..s - 1 { x = x * x % n as u128; if x == n as u128 - 1 { continue 'w; } }
        return false;
    }
    true
}
fn prime_below(mut n: u64) -> u64 { while !is_prime64(n) { n -= 1; } n }

pub fn c16(c: &mut Ctx) {
    for k in 0..(if c.thorough { 1500 } else { 420 }) {
        if c.mine() { for o in ["u.factorial", "i.factorial", "u.fibonacci", "i.fibonacci"] { c.op(o, &[], &[n(k)]); } c.finish(); }
    }
    for k in [1000u32, 1999, 3000, 4181] { if c.mine() { c.op("u.factorial", &[], &[n(k)]); c.op("u.fibonacci", &[], &[n(k)]); c.finish(); } }
    for k in 0..(if c.thorough { 60_000u128 } else { 9000 }) { if c.mine() { primes(c, k, k % 2 == 1); } }
    // around powers of two: 2^31, 2^32, 2^33 ... and squares and products of primes near the limb sizes
    for k in [16u32, 24, 30, 31, 32, 33, 34, 36, 40] { for d in -40i64..=40 {
        if !c.mine() { continue; }
        primes(c, ((1i64 << k) + d) as u128, false);
    } }
    let big = [prime_below(46341), prime_below(65535), prime_below(65536 + 50), prime_below(65536 * 2), prime_below(92681), prime_below(100_000)];
    let small = [2u64, 3, 5, 7, 11, 13, 97, 101, 251, 257, 997];
    for p in big { for q in big.iter().chain(&small) { if c.mine() { primes(c, p as u128 * *q as u128, true); } } for q in small { if c.mine() { primes(c, p as u128 * p as u128 * q as u128, false); } } }
    for p in small { for e in 1..40u32 { if c.mine() { if let Some(m) = (p as u128).checked_pow(e) { if m < 1 << 100 { primes(c, m, false); } } } } }
    // several limbs, all factors small or one cofactor of moderate size
    for _ in 0..500 * c.scale {
        if !c.mine() { continue; }
        let mut m = 1u128;
        for _ in 0..c.rng.below(9) { let p = *c.rng.pick(&small) as u128; if let Some(t) = m.checked_mul(p) { m = t; } }
        let t = c.rng.below(1 << c.rng.clone().range(2, 26)) + 2;
        let p = prime_below(t.max(2)) as u128;
        if let Some(t) = m.checked_mul(p) { m = t; }
        primes(c, m, c.rng.clone().bool());
        let k = c.rng.next() >> c.rng.range(20, 60);
        primes(c, k as u128, true);
    }
    // longer ones
    for j in 0..90 * c.scale {
        if !c.mine() { continue; }
        let mut m = vec![1u32];
        let bits = [100usize, 200, 320, 700, 1400][j as usize % 5] + c.rng.us(60);
        let few = 1 + c.rng.us(small.len());
        let mut ps: Vec<u64> = (0..few).map(|_| *c.rng.pick(&small)).collect();
        if c.rng.bool() { let t = 2 + c.rng.below(1 << 16); ps.push(prime_below(t.max(3))); }
        if c.rng.chance(2, 3) { ps.retain(|p| *p != 2); }
        if ps.is_empty() { ps.push(3); }
        while m.len() * 32 < bits { let p = *c.rng.pick(&ps); m = norm(mulv(&m, &of128(p as u128))); }
        let t = 2 + c.rng.below(1 << 20);
        if c.rng.bool() { m = norm(mulv(&m, &of128(prime_below(t.max(3)) as u128))); }
        let neg = c.rng.bool();
        primes_of(c, m, neg);
    }
    // primes just above 32 bits and past 2^40
    for b in [(1u64 << 32) + 1000, 1 << 36, 1 << 40, 1 << 42] { for _ in 0..3 { if c.mine() { let p = prime_below(b - c.rng.below(5000)); primes(c, p as u128, false); } } }
    if c.thorough { for b in [1u64 << 48, 1 << 52] { if c.mine() { let p = prime_below(b - c.rng.below(5000)); primes(c, p as u128, false); } } }
}
