//! Long operands: every family of calls once more on numbers, texts, polynomials and
//! matrices far beyond the sizes of the other sweeps.

use crate::gen::*;
use crate::plan::*;
use crate::plan_int::*;
use crate::plan_more::{algebra, entry, linear, list, mk, poly, poly_all, points, random_mat, square, unit, zero};
use crate::plan_ratio::{approx_case, pair, rat, rounding, rparse_all, rv, unary};
use crate::sess::Ctx;
use crate::val::Val;

/// a length between lo and hi, small ones more often
fn llen(r: &mut Rng, lo: usize, hi: usize) -> usize {
    let span = (hi / lo).ilog2() as u64 + 1;
    (lo + r.us(lo) + (r.us(lo) << r.below(span))).min(hi)
}
fn long(r: &mut Rng, lo: usize, hi: usize) -> Vec<u32> { let n = llen(r, lo, hi); let mut v = limbs(r, n); v.resize(n, 0); if v[n - 1] == 0 { v[n - 1] = limb(r).max(1); } v }
/// the same number, or one that differs from it little
fn close(r: &mut Rng, v: &[u32]) -> Vec<u32> {
    let mut w = v.to_vec();
    match r.below(4) { 0 => {} 1 => { let k = r.us(w.len()); w[k] ^= 1 << r.below(32); } 2 => return addv(&w, &[1]), _ => if !is0(&w) { return subv(&w, &[1]); } }
    norm(w)
}
fn digits(r: &mut Rng, n: usize, base: u64) -> String {
    let alphabet = b"0123456789abcdef";
    let mode = r.below(4);
    (0..n).map(|k| { let d = match mode { 0 => r.below(base), 1 => base - 1, 2 => if r.chance(1, 60) { r.below(base) } else { 0 }, _ => if k % 7 == 0 { 0 } else { r.below(base) } }; alphabet[d as usize] as char }).collect()
}

/// the calls with one big operand and a count, for a family
fn counted(c: &mut Ctx, fam: &str, x: usize, len: usize) {
    let both = |c: &mut Ctx, o: &str, k: u32| { let op = format!("{fam}.{o}"); c.op(&op, &[x], &[n(k)]); c.op_cp(&format!("{op}_mut"), &[x], &[n(k)]); };
    for _ in 0..2 {
        let k = *c.rng.pick(&[0u32, 1, 31, 32, 33, 63, 64, 95, 96, 127, 128, 1000, 4096]) + c.rng.below(3) as u32;
        both(c, "mul_pow2", k);
        let k = (len as i64 + c.rng.range(-2, 1)).max(0) as u32;
        let k = if c.rng.bool() { k } else { c.rng.us(len + 1) as u32 };
        for o in ["shift_right", "shift_left", "slice_right"] { both(c, o, k); }
        let k = 1u32 << c.rng.below(31);
        c.op(&format!("{fam}.rem_pow2"), &[x], &[n(k)]);
    }
    let e = if len > 40 { 2 } else { 2 + c.rng.below(40 / len as u64 + 2) as u32 };
    both(c, "pow_u32", e);
}
/// a few numbers that differ little, for sorting
fn cluster(c: &mut Ctx, m: usize) -> Vec<Vec<u32>> {
    let a = long(&mut c.rng, 4, 60);
    (0..m).map(|_| if c.rng.chance(1, 6) { long(&mut c.rng, 4, 60) } else { close(&mut c.rng, &a) }).collect()
}

pub fn run(prop: &str, c: &mut Ctx) {
    let scale = c.scale;
    match prop {
        "C01" => for _ in 0..160 * scale {
            if !c.mine() { continue; }
            let a = long(&mut c.rng, 48, 1300);
            let b = if c.rng.bool() { long(&mut c.rng, 48, 1300) } else { close(&mut c.rng, &a) };
            let k = u32v(&mut c.rng);
            c01_pair(c, uv(a), uv(b), k);
            let m = 5 + c.rng.us(290);
            let v: Vec<usize> = (0..m).map(|_| { let x = ubig(&mut c.rng, 3); c.ld(Val::U(x)) }).collect();
            c.op("u.sum", &v, &[]);
            let m = 2 + c.rng.us(9);
            let v: Vec<usize> = (0..m).map(|_| { let x = long(&mut c.rng, 4, 200); c.ld(uv(x)) }).collect();
            c.op("u.sum", &v, &[]);
            c.finish();
        },
        "C02" => {
            for _ in 0..60 * scale {
                if !c.mine() { continue; }
                let a = long(&mut c.rng, 130, 1100);
                let b = if c.rng.chance(1, 4) { limbs(&mut c.rng, 3) } else { long(&mut c.rng, 40, 700) };
                let (x, y) = (c.ld(uv(a.clone())), c.ld(uv(b)));
                c.op("u.mul", &[x, y], &[]);
                let k = n(u32v(&mut c.rng));
                c.op("u.mul_u32", &[x], &[k.clone()]);
                c.op_cp("u.mul_u32_mut", &[x], &[k]);
                let k = n(c.rng.below(9000) as u32);
                c.op("u.mul_pow2", &[x], &[k.clone()]);
                c.op_cp("u.mul_pow2_mut", &[x], &[k]);
                let k = n(c.rng.us(a.len() + 2) as u32);
                for op in ["u.shift_right", "u.shift_left", "u.slice_right"] { c.op(op, &[x], &[k.clone()]); c.op_cp(&format!("{op}_mut"), &[x], &[k.clone()]); }
                c.finish();
            }
            for _ in 0..150 * scale {
                if !c.mine() { continue; }
                let a = long(&mut c.rng, 5, 150);
                let x = c.ld(uv(a.clone()));
                counted(c, "u", x, a.len());
                let m = 2 + c.rng.us(6);
                let v: Vec<usize> = (0..m).map(|_| { let x = long(&mut c.rng, 3, 40); c.ld(uv(x)) }).collect();
                c.op("u.product", &v, &[]);
                c.end();
            }
            for k in [800u32, 1023, 1024, 4095, 8192, 20000, 32767, 65535, 65536, 70000] { if c.mine() { c.op("u.pow2", &[], &[n(k)]); c.op("u.exp2", &[], &[n(k)]); c.finish(); } }
            for (b, e) in [(3u32, 1000u32), (2, 4097), (10, 700), (7, 513), (65536, 300), (u32::MAX, 129), (3, 2049), (5, 257)] { if c.mine() { let r = c.ld(uv(vec![b])); c.op("u.pow_u32", &[r], &[n(e)]); c.op_cp("u.pow_u32_mut", &[r], &[n(e)]); c.finish(); } }
            for _ in 0..20 * scale { if c.mine() { let m = 8 + c.rng.us(280); let v: Vec<usize> = (0..m).map(|_| { let x = ubig_nz(&mut c.rng, 2); c.ld(Val::U(x)) }).collect(); c.op("u.product", &v, &[]); c.finish(); } }
        }
        "C03" => for _ in 0..120 * scale {
            if !c.mine() { continue; }
            let b = long(&mut c.rng, 20, 280);
            let a = match c.rng.below(3) { 0 => long(&mut c.rng, 48, 600), 1 => { let q = long(&mut c.rng, 10, 200); mulv(&q, &b) } _ => { let q = long(&mut c.rng, 10, 200); addv(&mulv(&q, &b), &subv(&b, &[1])) } };
            let k = u32v(&mut c.rng);
            c03_pair(c, uv(a), uv(b), k);
        },
        "C04" => for _ in 0..40 * scale {
            if !c.mine() { continue; }
            let a = long(&mut c.rng, 48, 400);
            let b = close(&mut c.rng, &a);
            let (x, y) = (c.ld(bi(false, a.clone())), c.ld(bi(false, b)));
            let d = c.op("i.sub", &[x, y], &[]);
            c.op("i.div", &[x, y], &[]);
            c.op("i.rem", &[x, y], &[]);
            let k = n(c.rng.us(a.len() + 1) as u32);
            for op in ["i.shift_right", "i.slice_right", "i.shift_right_mut", "i.slice_right_mut"] { if op.ends_with("mut") { c.op_cp(op, &[x], &[k.clone()]); } else { c.op(op, &[x], &[k.clone()]); } }
            let r = c.op("r.from_dn", &[y, x], &[]);
            c.op("r.mul", &[r, r], &[]);
            c.op("r.sub", &[r, r], &[]);
            let _ = d;
            c.end();
        },
        "C05" | "C06" => for _ in 0..100 * scale {
            if !c.mine() { continue; }
            let a = long(&mut c.rng, 40, 500);
            let b = match c.rng.below(3) { 0 => close(&mut c.rng, &a), 1 => long(&mut c.rng, 20, 300), _ => limbs(&mut c.rng, 3) };
            let (s, t, k) = (c.rng.bool(), c.rng.bool(), i32v(&mut c.rng));
            if prop == "C05" { c05_case(c, a, s, k); continue; }
            c06_pair(c, bi(s, a), bi(t, b), k);
            let a = long(&mut c.rng, 5, 150);
            let x = c.ld(bi(s, a.clone()));
            for op in ["i.neg", "i.abs", "i.is_zero", "i.is_one", "i.is_neg", "i.len"] { c.op(op, &[x], &[]); }
            for op in ["i.neg_mut", "i.abs_mut"] { c.op_cp(op, &[x], &[]); }
            counted(c, "i", x, a.len());
            c.end();
        },
        "C07" => for _ in 0..150 * scale {
            if !c.mine() { continue; }
            let a = long(&mut c.rng, 40, 600);
            let b = close(&mut c.rng, &a);
            cmp_pair(c, "u", uv(a.clone()), uv(b.clone()));
            let (s, t) = (c.rng.bool(), c.rng.bool());
            cmp_pair(c, "i", bi(s, a.clone()), bi(t, b.clone()));
            let d = long(&mut c.rng, 30, 120);
            let t = if c.rng.chance(3, 4) { s } else { t };
            cmp_pair(c, "r", rv(s, &a, &d), rv(t, &b, &d));
            let m = 3 + c.rng.us(9);
            let v: Vec<usize> = cluster(c, m).into_iter().map(|x| c.ld(uv(x))).collect();
            c.op("u.sort", &v, &[]);
            c.end();
            let v: Vec<usize> = cluster(c, m).into_iter().map(|x| { let s = c.rng.bool(); c.ld(bi(s, x)) }).collect();
            c.op("i.sort", &v, &[]);
            c.end();
            let d = cluster(c, 2);
            let v: Vec<usize> = cluster(c, m).into_iter().map(|x| { let s = c.rng.chance(1, 3); let k = c.rng.us(2); c.ld(rv(s, &x, &d[k])) }).collect();
            c.op("r.sort", &v, &[]);
            c.end();
        },
        "C08" => {
            for _ in 0..100 * scale {
                if !c.mine() { continue; }
                let (p, q, r, s) = (long(&mut c.rng, 12, 90), long(&mut c.rng, 12, 90), long(&mut c.rng, 4, 60), long(&mut c.rng, 12, 90));
                let q2 = if c.rng.chance(1, 3) { q.clone() } else { s.clone() };
                let (x, y, z, k) = (c.rng.bool(), c.rng.bool(), c.rng.bool(), i32v(&mut c.rng));
                pair(c, rv(x, &p, &q), rv(y, &r, &q2), bi(z, s), k);
            }
            for _ in 0..200 * scale {
                if !c.mine() { continue; }
                let (p, q) = (long(&mut c.rng, 2, 40), long(&mut c.rng, 2, 40));
                let g = long(&mut c.rng, 1, 10);
                let (s, t) = (c.rng.bool(), c.rng.bool());
                let e = (60 / p.len().max(q.len()) as i64).min(9);
                let e = c.rng.range(-e - 1, e + 1) as i32;
                unary(c, rv(s, &p, &q), e);
                let (x, y) = (c.ld(bi(s, mulv(&q, &g))), c.ld(bi(t, mulv(&p, &g))));
                let r = c.op("r.from_dn", &[x, y], &[]);
                for o in ["pair", "pair_own", "pair_r", "pair_bool"] { c.op(&format!("r.{o}"), &[r], &[]); }
                let z = c.op("c.make", &[r, r], &[]);
                c.op("c.add", &[z, z], &[]);
                let k = ni(i32v(&mut c.rng) as i64);
                c.op("c.add_i32", &[z], &[k.clone()]);
                c.op_cp("c.add_i32_mut", &[z], &[k]);
                c.end();
            }
            for _ in 0..60 * scale { if c.mine() { let v = small_ratio(&mut c.rng, 12, 9); let e = c.rng.range(-300, 300) as i32; unary(c, rat(v), e); } }
        }
        "C09" => for _ in 0..150 * scale {
            if !c.mine() { continue; }
            let d = long(&mut c.rng, 20, 150);
            let h = long(&mut c.rng, 1, 120);
            let v = mulv(&h, &d);
            let neg = c.rng.bool();
            match c.rng.below(4) { 0 => rounding(c, rv(neg, &v, &shlv(&d, 1))), 1 => rounding(c, rv(neg, &addv(&v, &[1]), &shlv(&d, 1))), 2 => rounding(c, rv(neg, &subv(&v, &[1]), &shlv(&d, 1))), _ => { let p = long(&mut c.rng, 20, 200); rounding(c, rv(neg, &p, &d)) } }
        },
        "C10" => for _ in 0..60 * scale { if c.mine() { let (s, v) = (c.rng.bool(), long(&mut c.rng, 9, 300)); to_machine(c, s, v); } },
        "C11" => for _ in 0..50 * scale {
            if !c.mine() { continue; }
            let (s, v) = (c.rng.bool(), long(&mut c.rng, 40, 260));
            print_all(c, s, v);
            for (p, b) in [("", 10), ("0x", 16), ("0o", 8), ("0b", 2)] {
                let l = 130 + c.rng.us(1500);
                let mut t = digits(&mut c.rng, l, b);
                if b == 10 { t.insert(0, '1'); }
                if c.rng.chance(1, 4) { let k = 1 + c.rng.us(l - 1); t.insert(k, *c.rng.pick(&['_', ' ', 'g', '-', '.'])); }
                let sign = if c.rng.chance(1, 3) { "-" } else { "" };
                parse_all(c, &format!("{sign}{p}{t}"), false);
            }
        },
        "C12" => for _ in 0..120 * scale {
            if !c.mine() { continue; }
            let (l, f) = (1 + c.rng.us(700), 1 + c.rng.us(700));
            let (mut i, f) = (digits(&mut c.rng, l, 10), digits(&mut c.rng, f, 10));
            if i.starts_with('0') { i.insert(0, '7'); }
            let e = match c.rng.below(3) { 0 => String::new(), 1 => format!("e{}", c.rng.below(3000)), _ => format!("e-{}", c.rng.below(3000)) };
            let sign = if c.rng.bool() { "-" } else { "" };
            rparse_all(c, &format!("{sign}{i}.{f}{e}"));
            let (s, p, q) = (c.rng.bool(), long(&mut c.rng, 12, 100), long(&mut c.rng, 12, 100));
            let x = c.ld(rv(s, &p, &q));
            c.op("r.ratio_string", &[x], &[]);
            c.finish();
        },
        "C13" => for _ in 0..60 * scale {
            if !c.mine() { continue; }
            let (s, p, q) = (c.rng.bool(), long(&mut c.rng, 12, 200), long(&mut c.rng, 12, 200));
            let (k, l) = (c.rng.below(400) as u32, c.rng.below(18) as u32);
            approx_case(c, rv(s, &p, &q), k, l);
        },
        "C14" => for _ in 0..120 * scale {
            if !c.mine() { continue; }
            let (s, p) = (c.rng.bool(), long(&mut c.rng, 36, 200));
            let ln = p.len();
            let l = (ln as i64 + c.rng.range(-36, 36)).max(1) as usize;
            let mut q = limbs(&mut c.rng, l);
            if is0(&q) { q = vec![3]; }
            let x = c.ld(rv(s, &p, &q));
            for op in ["r.to_f32", "r.to_f64", "r.as_f32", "r.own_f64"] { c.op(op, &[x], &[]); }
            c.end();
        },
        "C15" => for _ in 0..60 * scale {
            if !c.mine() { continue; }
            let s = long(&mut c.rng, 20, 150);
            let q = mulv(&s, &s);
            let v = match c.rng.below(4) { 0 => q, 1 => subv(&q, &[1]), 2 => addv(&addv(&q, &s), &s), _ => long(&mut c.rng, 40, 300) };
            roots(c, v);
            let (a, b, g) = (long(&mut c.rng, 8, 60), long(&mut c.rng, 8, 60), long(&mut c.rng, 4, 30));
            gcds(c, mulv(&a, &g), mulv(&b, &g));
        },
        "C21" => {
            for n in [7usize, 7, 7, 8, 8] { for _ in 0..scale { if c.mine() { let m = square(&mut c.rng, n); let x = c.ld(m); c.op("m.determinant", &[x], &[]); c.end(); } } }
            for k in 0..2 * scale { if c.mine() { // a scaled permutation with a few more entries: quick to invert
                let n = 7;
                let mut d: Vec<Vec<_>> = (0..n).map(|i| (0..n).map(|j| if (i * 3 + k as usize) % n == j { unit(i % 2 == 0) } else { zero() }).collect()).collect();
                for _ in 0..4 { let (i, j) = (c.rng.us(n), c.rng.us(n)); d[i][j] = small_ratio(&mut c.rng, 5, 3); }
                linear(c, mk(d));
            } }
            for (p, q, t) in [(1usize, 40usize, 1usize), (40, 1, 30), (17, 9, 13), (9, 17, 9), (33, 2, 33), (2, 70, 3), (130, 2, 1), (2, 260, 2), (6, 7, 8), (12, 12, 12), (300, 1, 2)] {
                if !c.mine() { continue; }
                let (a, b) = (random_mat(&mut c.rng, p, q), random_mat(&mut c.rng, q, t));
                let (w, i, j) = (i32v(&mut c.rng), c.rng.us(p), c.rng.us(q));
                algebra(c, mk(a), mk(b), rat(unit(true)), w, i, j);
            }
        }
        "C22" => {
            for k in 0..40 * scale {
                if !c.mine() { continue; }
                let deg = match k % 4 { 0 => 120 + c.rng.us(20), 1 => 250 + c.rng.us(12), 2 => 13 + c.rng.us(30), _ => 30 + c.rng.us(300) };
                let v: Vec<_> = (0..=deg).map(|i| if i > 0 && c.rng.chance(2, 3) { zero() } else { small_ratio(&mut c.rng, 40, 7) }).collect();
                let mut v = v;
                if v[0] == zero() { v[0] = unit(false); }
                let x = *c.rng.pick(&[0i64, 1, -1, 2, -3]);
                let x = ratio_of(x < 0, &[x.unsigned_abs() as u32], &[1 + (c.rng.below(2) as u32)]);
                let w = i32v(&mut c.rng);
                poly_all(c, poly(v), x, w, 9);
            }
            for n in [7usize, 7] { for _ in 0..scale { if c.mine() {
                let pts: Vec<_> = (0..n).map(|i| (ratio_of(i % 2 == 0, &[1 + i as u32], &[1]), entry(&mut c.rng, 2))).collect();
                c.one("p.from_points", vec![], &[points(&pts)]);
                let _ = list(&[]);
            } } }
        }
        _ => {}
    }
}
