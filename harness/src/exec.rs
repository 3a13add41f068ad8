//! One entry per public operation of hmath: `exec(op, registers, constants)`.
//! An operation ending in `_mut` is applied to a copy of its first register and
//! returns that copy, which the caller stores back.

use crate::val::*;
use hmath::*;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::str::FromStr;

fn h<T: Hash>(x: &T) -> u64 {
    let mut s = DefaultHasher::new();
    x.hash(&mut s);
    s.finish()
}

fn ratios(v: &Val) -> Vec<Ratio> { v.l().iter().map(|x| x.r().clone()).collect() }

pub fn exec(op: &str, a: &[&Val], c: &[Val]) -> Result<Val, String> {
    macro_rules! m { // in-place: copy, apply, return the copy
        ($x:expr, |$y:ident| $e:expr) => {{ let mut $y = $x.clone(); $e; $y.v() }};
    }
    macro_rules! tryfrom { ($t:ty, $x:expr) => { <$t>::try_from($x).v() }; }
    let (fam, name) = op.split_at(op.find('.').unwrap());
    let name = &name[1..];
    match fam {
        "u" => {
            let x = || a[0].u();
            let y = || a[1].u();
            let k = || c[0].u32();
            let n = || c[0].us();
            match name {
                "zero" => UBigInt::zero().v(), "one" => UBigInt::one().v(), "default" => UBigInt::default().v(),
                "is_zero" => x().is_zero().v(), "is_one" => x().is_one().v(), "len" => x().len().v(),
                "add" => x().add(y()).v(), "add_mut" => m!(x(), |t| t.add_mut(y())),
                "add_u32" => x().add_u32(k()).v(), "add_u32_mut" => m!(x(), |t| t.add_u32_mut(k())),
                "sub" => x().sub(y()).v(), "sub_mut" => m!(x(), |t| t.sub_mut(y())),
                "sub_u32" => x().sub_u32(k()).v(), "sub_u32_mut" => m!(x(), |t| t.sub_u32_mut(k())),
                "abs_diff" => x().abs_diff(y()).v(), "abs_diff_u32" => x().abs_diff_u32(k()).v(),
                "mul" => x().mul(y()).v(), "mul_mut" => m!(x(), |t| t.mul_mut(y())),
                "mul_u32" => x().mul_u32(k()).v(), "mul_u32_mut" => m!(x(), |t| t.mul_u32_mut(k())),
                "mul_pow2" => x().mul_pow2(k()).v(), "mul_pow2_mut" => m!(x(), |t| t.mul_pow2_mut(k())),
                "div" => x().div(y()).v(), "div_mut" => m!(x(), |t| t.div_mut(y())),
                "div_u32" => x().div_u32(k()).v(), "div_u32_mut" => m!(x(), |t| t.div_u32_mut(k())),
                "rem" => x().rem(y()).v(), "rem_mut" => m!(x(), |t| t.rem_mut(y())),
                "rem_u32" => x().rem_u32(k()).v(), "rem_u32_mut" => m!(x(), |t| t.rem_u32_mut(k())),
                "rem_pow2" => x().rem_pow2(k()).v(),
                "pow_u32" => x().pow_u32(k()).v(), "pow_u32_mut" => m!(x(), |t| t.pow_u32_mut(k())),
                "pow2" => UBigInt::pow2(k()).v(), "exp2" => UBigInt::exp2(c[0].mag() as u64).v(),
                "sum" => a.iter().map(|v| v.u().clone()).sum::<UBigInt>().v(),
                "product" => a.iter().map(|v| v.u().clone()).product::<UBigInt>().v(),
                "shift_right" => x().shift_right(n()).v(), "shift_right_mut" => m!(x(), |t| t.shift_right_mut(n())),
                "shift_left" => x().shift_left(n()).v(), "shift_left_mut" => m!(x(), |t| t.shift_left_mut(n())),
                "slice_right" => x().slice_right(n()).v(), "slice_right_mut" => m!(x(), |t| t.slice_right_mut(n())),
                "lt" => x().lt(y()).v(), "gt" => x().gt(y()).v(), "eq" => UBigInt::eq(x(), y()).v(), "neq" => x().neq(y()).v(),
                "leq" => x().leq(y()).v(), "geq" => x().geq(y()).v(), "comp" => x().comp(y()).v(),
                "cmp" => Ord::cmp(x(), y()).v(), "partial_cmp" => PartialOrd::partial_cmp(x(), y()).v(),
                "op_lt" => (*x() < *y()).v(), "op_le" => (*x() <= *y()).v(), "op_gt" => (*x() > *y()).v(), "op_ge" => (*x() >= *y()).v(),
                "op_eq" => (*x() == *y()).v(), "op_ne" => (*x() != *y()).v(), "hash_eq" => (h(x()) == h(y())).v(),
                "max" => Ord::max(x().clone(), y().clone()).v(), "min" => Ord::min(x().clone(), y().clone()).v(),
                "sort" => { let mut v: Vec<UBigInt> = a.iter().map(|v| v.u().clone()).collect(); v.sort(); v.v() }
                "lt_u32" => x().lt_u32(k()).v(), "gt_u32" => x().gt_u32(k()).v(), "eq_u32" => x().eq_u32(k()).v(), "neq_u32" => x().neq_u32(k()).v(),
                "leq_u32" => x().leq_u32(k()).v(), "geq_u32" => x().geq_u32(k()).v(), "comp_u32" => x().comp_u32(k()).v(),
                "sqrt" => x().sqrt().v(), "log2" => x().log2().v(), "log2_accurate" => x().log2_accurate().v(),
                "exp2_accurate" => UBigInt::exp2_accurate(x()).v(), "gcd" => gcd_ubi(x(), y()).v(),
                "factorial" => UBigInt::factorial(k()).v(), "fibonacci" => UBigInt::fibonacci(k()).v(),
                "is_prime" => x().is_prime().v(), "prime_factorial" => x().prime_factorial().v(),
                "from_string" => UBigInt::from_string(c[0].s()).v(), "from_str" => UBigInt::from_str(c[0].s()).v(),
                "try_from_str" => UBigInt::try_from(c[0].s()).v(), "try_from_string" => UBigInt::try_from(c[0].s().to_string()).v(),
                "dec" => x().to_string_dec().v(), "display" => format!("{}", x()).v(),
                "hex" => x().to_string_hex(false).v(), "hexp" => x().to_string_hex(true).v(), "fmt_x" => format!("{:x}", x()).v(), "fmt_xp" => format!("{:#x}", x()).v(),
                "oct" => x().to_string_oct(false).v(), "octp" => x().to_string_oct(true).v(), "fmt_o" => format!("{:o}", x()).v(), "fmt_op" => format!("{:#o}", x()).v(),
                "bin" => x().to_string_bin(false).v(), "binp" => x().to_string_bin(true).v(), "fmt_b" => format!("{:b}", x()).v(), "fmt_bp" => format!("{:#b}", x()).v(),
                "sci" => x().to_scientific_notation(n()).v(), "fmt_e" => format!("{:e}", x()).v(),
                "from_u32" => UBigInt::from_u32(k()).v(), "from_u64" => UBigInt::from_u64(c[0].mag() as u64).v(), "from_u128" => UBigInt::from_u128(c[0].mag()).v(),
                "to_u32" => x().to_u32().v(), "to_u64" => x().to_u64().v(), "to_u128" => x().to_u128().v(),
                "of_u8" => UBigInt::from(c[0].mag() as u8).v(), "of_u16" => UBigInt::from(c[0].mag() as u16).v(), "of_u32" => UBigInt::from(c[0].mag() as u32).v(),
                "of_u64" => UBigInt::from(c[0].mag() as u64).v(), "of_u128" => UBigInt::from(c[0].mag()).v(), "of_usize" => UBigInt::from(c[0].mag() as usize).v(),
                "of_bool" => UBigInt::from(c[0].mag() == 1).v(),
                "of_i8" => UBigInt::try_from(c[0].int() as i8).v(), "of_i16" => UBigInt::try_from(c[0].int() as i16).v(), "of_i32" => UBigInt::try_from(c[0].int() as i32).v(),
                "of_i64" => UBigInt::try_from(c[0].int() as i64).v(), "of_i128" => UBigInt::try_from(c[0].int()).v(), "of_isize" => UBigInt::try_from(c[0].int() as isize).v(),
                
                "of_f32" => UBigInt::try_from(f32::from_bits(c[0].mag() as u32)).v(), "of_f64" => UBigInt::try_from(f64::from_bits(c[0].mag() as u64)).v(),
                "of_i" => UBigInt::try_from(a[0].i()).v(), "of_i_own" => UBigInt::try_from(a[0].i().clone()).v(),
                "of_r" => UBigInt::try_from(a[0].r()).v(), "of_r_own" => UBigInt::try_from(a[0].r().clone()).v(),
                "as_u8" => tryfrom!(u8, x()), "as_u16" => tryfrom!(u16, x()), "as_u32" => tryfrom!(u32, x()), "as_u64" => tryfrom!(u64, x()),
                "as_usize" => tryfrom!(usize, x()), "as_u128" => tryfrom!(u128, x()), "as_i8" => tryfrom!(i8, x()), "as_i16" => tryfrom!(i16, x()),
                "as_i32" => tryfrom!(i32, x()), "as_i64" => tryfrom!(i64, x()), "as_isize" => tryfrom!(isize, x()), "as_i128" => tryfrom!(i128, x()),
                "own_u8" => tryfrom!(u8, x().clone()), "own_u16" => tryfrom!(u16, x().clone()), "own_u32" => tryfrom!(u32, x().clone()), "own_u64" => tryfrom!(u64, x().clone()), "own_usize" => tryfrom!(usize, x().clone()), "own_u128" => tryfrom!(u128, x().clone()),
                "own_i8" => tryfrom!(i8, x().clone()), "own_i16" => tryfrom!(i16, x().clone()), "own_i32" => tryfrom!(i32, x().clone()), "own_i64" => tryfrom!(i64, x().clone()), "own_isize" => tryfrom!(isize, x().clone()), "own_i128" => tryfrom!(i128, x().clone()),
                "of_ref_u8" => UBigInt::from(&(c[0].mag() as u8)).v(), "of_ref_u16" => UBigInt::from(&(c[0].mag() as u16)).v(), "of_ref_u32" => UBigInt::from(&(c[0].mag() as u32)).v(),
                "of_ref_u64" => UBigInt::from(&(c[0].mag() as u64)).v(), "of_ref_usize" => UBigInt::from(&(c[0].mag() as usize)).v(), "of_ref_u128" => UBigInt::from(&(c[0].mag() as u128)).v(),
                "of_ref_i8" => UBigInt::try_from(&(c[0].int() as i8)).v(), "of_ref_i16" => UBigInt::try_from(&(c[0].int() as i16)).v(), "of_ref_i32" => UBigInt::try_from(&(c[0].int() as i32)).v(),
                "of_ref_i64" => UBigInt::try_from(&(c[0].int() as i64)).v(), "of_ref_isize" => UBigInt::try_from(&(c[0].int() as isize)).v(), "of_ref_i128" => UBigInt::try_from(&(c[0].int() as i128)).v(),
                "of_ref_bool" => UBigInt::from(&(c[0].mag() == 1)).v(), "of_ref_f32" => UBigInt::try_from(&f32::from_bits(c[0].mag() as u32)).v(), "of_ref_f64" => UBigInt::try_from(&f64::from_bits(c[0].mag() as u64)).v(),
                "own_bool" => bool::from(x().clone()).v(),
                "as_bool" => bool::from(x()).v(),
                "as_f32" => tryfrom!(f32, x()), "as_f64" => tryfrom!(f64, x()),
                _ => panic!("recorder: unknown op {op}"),
            }
        }
        "i" => {
            let x = || a[0].i();
            let y = || a[1].i();
            let k = || c[0].i32();
            let n = || c[0].us();
            match name {
                "zero" => BigInt::zero().v(), "one" => BigInt::one().v(), "default" => BigInt::default().v(),
                "is_zero" => x().is_zero().v(), "is_one" => x().is_one().v(), "is_neg" => x().is_neg().v(), "len" => x().len().v(),
                "add" => x().add(y()).v(), "add_mut" => m!(x(), |t| t.add_mut(y())),
                "add_i32" => x().add_i32(k()).v(), "add_i32_mut" => m!(x(), |t| t.add_i32_mut(k())),
                "sub" => x().sub(y()).v(), "sub_mut" => m!(x(), |t| t.sub_mut(y())),
                "sub_i32" => x().sub_i32(k()).v(), "sub_i32_mut" => m!(x(), |t| t.sub_i32_mut(k())),
                "mul" => x().mul(y()).v(), "mul_mut" => m!(x(), |t| t.mul_mut(y())),
                "mul_i32" => x().mul_i32(k()).v(), "mul_i32_mut" => m!(x(), |t| t.mul_i32_mut(k())),
                "mul_pow2" => x().mul_pow2(c[0].u32()).v(), "mul_pow2_mut" => m!(x(), |t| t.mul_pow2_mut(c[0].u32())),
                "div" => x().div(y()).v(), "div_mut" => m!(x(), |t| t.div_mut(y())),
                "div_i32" => x().div_i32(k()).v(), "div_i32_mut" => m!(x(), |t| t.div_i32_mut(k())),
                "rem" => x().rem(y()).v(), "rem_mut" => m!(x(), |t| t.rem_mut(y())),
                "rem_i32" => x().rem_i32(k()).v(), "rem_i32_mut" => m!(x(), |t| t.rem_i32_mut(k())),
                "rem_pow2" => x().rem_pow2(k()).v(),
                "pow_u32" => x().pow_u32(c[0].u32()).v(), "pow_u32_mut" => m!(x(), |t| t.pow_u32_mut(c[0].u32())),
                "pow2" => BigInt::pow2(c[0].u32()).v(), "exp2" => BigInt::exp2(c[0].mag() as u64).v(),
                "neg" => x().neg().v(), "neg_mut" => m!(x(), |t| t.neg_mut()), "abs" => x().abs().v(), "abs_mut" => m!(x(), |t| t.abs_mut()),
                "shift_right" => x().shift_right(n()).v(), "shift_right_mut" => m!(x(), |t| t.shift_right_mut(n())),
                "shift_left" => x().shift_left(n()).v(), "shift_left_mut" => m!(x(), |t| t.shift_left_mut(n())),
                "slice_right" => x().slice_right(n()).v(), "slice_right_mut" => m!(x(), |t| t.slice_right_mut(n())),
                "lt" => x().lt(y()).v(), "gt" => x().gt(y()).v(), "eq" => BigInt::eq(x(), y()).v(), "neq" => x().neq(y()).v(),
                "leq" => x().leq(y()).v(), "geq" => x().geq(y()).v(), "comp" => x().comp(y()).v(),
                "cmp" => Ord::cmp(x(), y()).v(), "partial_cmp" => PartialOrd::partial_cmp(x(), y()).v(),
                "op_lt" => (*x() < *y()).v(), "op_le" => (*x() <= *y()).v(), "op_gt" => (*x() > *y()).v(), "op_ge" => (*x() >= *y()).v(),
                "op_eq" => (*x() == *y()).v(), "op_ne" => (*x() != *y()).v(), "hash_eq" => (h(x()) == h(y())).v(),
                "max" => Ord::max(x().clone(), y().clone()).v(), "min" => Ord::min(x().clone(), y().clone()).v(),
                "sort" => { let mut v: Vec<BigInt> = a.iter().map(|v| v.i().clone()).collect(); v.sort(); v.v() }
                "lt_i32" => x().lt_i32(k()).v(), "gt_i32" => x().gt_i32(k()).v(), "eq_i32" => x().eq_i32(k()).v(), "neq_i32" => x().neq_i32(k()).v(),
                "leq_i32" => x().leq_i32(k()).v(), "geq_i32" => x().geq_i32(k()).v(), "comp_i32" => x().comp_i32(k()).v(),
                "sqrt" => x().sqrt().v(), "log2" => x().log2().v(), "log2_accurate" => x().log2_accurate().v(), "gcd" => gcd_bi(x(), y()).v(),
                "gcd_i32" => hmath::utils::gcd_i32(c[0].i32(), c[1].i32()).v(),
                "factorial" => BigInt::factorial(c[0].u32()).v(), "fibonacci" => BigInt::fibonacci(c[0].u32()).v(),
                "is_prime" => x().is_prime().v(), "prime_factorial" => x().prime_factorial().v(),
                "from_string" => BigInt::from_string(c[0].s()).v(), "from_str" => BigInt::from_str(c[0].s()).v(),
                "try_from_str" => BigInt::try_from(c[0].s()).v(), "try_from_string" => BigInt::try_from(c[0].s().to_string()).v(),
                "dec" => x().to_string_dec().v(), "display" => format!("{}", x()).v(),
                "hex" => x().to_string_hex(false).v(), "hexp" => x().to_string_hex(true).v(), "fmt_x" => format!("{:x}", x()).v(), "fmt_xp" => format!("{:#x}", x()).v(),
                "oct" => x().to_string_oct(false).v(), "octp" => x().to_string_oct(true).v(), "fmt_o" => format!("{:o}", x()).v(), "fmt_op" => format!("{:#o}", x()).v(),
                "bin" => x().to_string_bin(false).v(), "binp" => x().to_string_bin(true).v(), "fmt_b" => format!("{:b}", x()).v(), "fmt_bp" => format!("{:#b}", x()).v(),
                "sci" => x().to_scientific_notation(n()).v(), "fmt_e" => format!("{:e}", x()).v(),
                "from_i32" => BigInt::from_i32(k()).v(), "from_i64" => BigInt::from_i64(c[0].int() as i64).v(), "from_i128" => BigInt::from_i128(c[0].int()).v(),
                "from_ubi" => BigInt::from_ubi(a[0].u().clone(), c[0].mag() == 1).v(), "to_ubi" => x().to_ubi().v(),
                "of_u" => BigInt::from(a[0].u()).v(), "of_u_own" => BigInt::from(a[0].u().clone()).v(),
                "of_r" => BigInt::from(a[0].r()).v(), "of_r_own" => BigInt::from(a[0].r().clone()).v(),
                "to_i32" => x().to_i32().v(), "to_i64" => x().to_i64().v(), "to_i128" => x().to_i128().v(),
                "of_u8" => BigInt::from(c[0].mag() as u8).v(), "of_u16" => BigInt::from(c[0].mag() as u16).v(), "of_u32" => BigInt::from(c[0].mag() as u32).v(),
                "of_u64" => BigInt::from(c[0].mag() as u64).v(), "of_u128" => BigInt::from(c[0].mag()).v(), "of_usize" => BigInt::from(c[0].mag() as usize).v(),
                "of_bool" => BigInt::from(c[0].mag() == 1).v(),
                "of_i8" => BigInt::from(c[0].int() as i8).v(), "of_i16" => BigInt::from(c[0].int() as i16).v(), "of_i32" => BigInt::from(c[0].int() as i32).v(),
                "of_i64" => BigInt::from(c[0].int() as i64).v(), "of_i128" => BigInt::from(c[0].int()).v(), "of_isize" => BigInt::from(c[0].int() as isize).v(),
                
                "of_f32" => BigInt::try_from(f32::from_bits(c[0].mag() as u32)).v(), "of_f64" => BigInt::try_from(f64::from_bits(c[0].mag() as u64)).v(),
                "as_u8" => tryfrom!(u8, x()), "as_u16" => tryfrom!(u16, x()), "as_u32" => tryfrom!(u32, x()), "as_u64" => tryfrom!(u64, x()),
                "as_usize" => tryfrom!(usize, x()), "as_u128" => tryfrom!(u128, x()), "as_i8" => tryfrom!(i8, x()), "as_i16" => tryfrom!(i16, x()),
                "as_i32" => tryfrom!(i32, x()), "as_i64" => tryfrom!(i64, x()), "as_isize" => tryfrom!(isize, x()), "as_i128" => tryfrom!(i128, x()),
                "own_u8" => tryfrom!(u8, x().clone()), "own_u16" => tryfrom!(u16, x().clone()), "own_u32" => tryfrom!(u32, x().clone()), "own_u64" => tryfrom!(u64, x().clone()), "own_usize" => tryfrom!(usize, x().clone()), "own_u128" => tryfrom!(u128, x().clone()),
                "own_i8" => tryfrom!(i8, x().clone()), "own_i16" => tryfrom!(i16, x().clone()), "own_i32" => tryfrom!(i32, x().clone()), "own_i64" => tryfrom!(i64, x().clone()), "own_isize" => tryfrom!(isize, x().clone()), "own_i128" => tryfrom!(i128, x().clone()),
                "of_ref_u8" => BigInt::from(&(c[0].mag() as u8)).v(), "of_ref_u16" => BigInt::from(&(c[0].mag() as u16)).v(), "of_ref_u32" => BigInt::from(&(c[0].mag() as u32)).v(),
                "of_ref_u64" => BigInt::from(&(c[0].mag() as u64)).v(), "of_ref_usize" => BigInt::from(&(c[0].mag() as usize)).v(), "of_ref_u128" => BigInt::from(&(c[0].mag() as u128)).v(),
                "of_ref_i8" => BigInt::from(&(c[0].int() as i8)).v(), "of_ref_i16" => BigInt::from(&(c[0].int() as i16)).v(), "of_ref_i32" => BigInt::from(&(c[0].int() as i32)).v(),
                "of_ref_i64" => BigInt::from(&(c[0].int() as i64)).v(), "of_ref_isize" => BigInt::from(&(c[0].int() as isize)).v(), "of_ref_i128" => BigInt::from(&(c[0].int() as i128)).v(),
                "of_ref_bool" => BigInt::from(&(c[0].mag() == 1)).v(), "of_ref_f32" => BigInt::try_from(&f32::from_bits(c[0].mag() as u32)).v(), "of_ref_f64" => BigInt::try_from(&f64::from_bits(c[0].mag() as u64)).v(),
                "own_bool" => bool::from(x().clone()).v(), "own_f32" => tryfrom!(f32, x().clone()), "own_f64" => tryfrom!(f64, x().clone()),
                "as_bool" => bool::from(x()).v(),
                "as_f32" => tryfrom!(f32, x()), "as_f64" => tryfrom!(f64, x()),
                _ => panic!("recorder: unknown op {op}"),
            }
        }
        "r" => {
            let x = || a[0].r();
            let y = || a[1].r();
            let b = || a[1].i();
            let k = || c[0].i32();
            let n = || c[0].us();
            match name {
                "zero" => Ratio::zero().v(), "one" => Ratio::one().v(), "default" => Ratio::default().v(),
                "is_zero" => x().is_zero().v(), "is_one" => x().is_one().v(), "is_neg" => x().is_neg().v(), "is_integer" => x().is_integer().v(),
                "numer" => x().get_numer().v(), "denom" => x().get_denom().v(),
                "pair_own" => { let (d, n): (BigInt, BigInt) = x().clone().into(); (d, n).v() }
                "pair_r" => { let (d, n): (Ratio, Ratio) = x().into(); (d, n).v() }
                "pair_bool" => { let (d, n): (bool, bool) = x().clone().into(); Ok(Val::L(vec![Val::B(d), Val::B(n)])) }
                "pair" => { let (d, n): (BigInt, BigInt) = x().into(); (d, n).v() }
                "add" => x().add(y()).v(), "add_mut" => m!(x(), |t| t.add_mut(y())), "add_bi" => x().add_bi(b()).v(), "add_bi_mut" => m!(x(), |t| t.add_bi_mut(b())),
                "add_i32" => x().add_i32(k()).v(), "add_i32_mut" => m!(x(), |t| t.add_i32_mut(k())),
                "sub" => x().sub(y()).v(), "sub_mut" => m!(x(), |t| t.sub_mut(y())), "sub_bi" => x().sub_bi(b()).v(), "sub_bi_mut" => m!(x(), |t| t.sub_bi_mut(b())),
                "sub_i32" => x().sub_i32(k()).v(), "sub_i32_mut" => m!(x(), |t| t.sub_i32_mut(k())),
                "mul" => x().mul(y()).v(), "mul_mut" => m!(x(), |t| t.mul_mut(y())), "mul_bi" => x().mul_bi(b()).v(), "mul_bi_mut" => m!(x(), |t| t.mul_bi_mut(b())),
                "mul_i32" => x().mul_i32(k()).v(), "mul_i32_mut" => m!(x(), |t| t.mul_i32_mut(k())),
                "div" => x().div(y()).v(), "div_mut" => m!(x(), |t| t.div_mut(y())), "div_bi" => x().div_bi(b()).v(), "div_bi_mut" => m!(x(), |t| t.div_bi_mut(b())),
                "div_i32" => x().div_i32(k()).v(), "div_i32_mut" => m!(x(), |t| t.div_i32_mut(k())),
                "pow_i32" => x().pow_i32(k()).v(), "pow_i32_mut" => m!(x(), |t| t.pow_i32_mut(k())),
                "neg" => x().neg().v(), "neg_mut" => m!(x(), |t| t.neg_mut()), "abs" => x().abs().v(), "abs_mut" => m!(x(), |t| t.abs_mut()),
                "reci" => x().reci().v(), "reci_mut" => m!(x(), |t| t.reci_mut()),
                "truncate" => x().truncate().v(), "truncate_mut" => m!(x(), |t| t.truncate_mut()), "truncate_bi" => x().truncate_bi().v(),
                "frac" => x().frac().v(), "frac_mut" => m!(x(), |t| t.frac_mut()), "truncate_and_frac" => x().truncate_and_frac().v(),
                "floor" => x().floor().v(), "floor_bi" => x().floor_bi().v(), "round" => x().round().v(), "round_bi" => x().round_bi().v(),
                "common_denom" => common_denom(x(), y()).v(),
                "shrink" => { let mut t = x().clone(); let r = t.shrink(n()); let (ok, k) = match r { Ok(k) => (true, k), Err(k) => (false, k) }; Ok(Val::L(vec![Val::R(t), Val::B(ok), Val::n(k as u64)])) }
                "lt" => x().lt(y()).v(), "gt" => x().gt(y()).v(), "eq" => Ratio::eq(x(), y()).v(), "neq" => x().neq(y()).v(),
                "leq" => x().leq(y()).v(), "geq" => x().geq(y()).v(), "comp" => x().comp(y()).v(),
                "cmp" => Ord::cmp(x(), y()).v(), "partial_cmp" => PartialOrd::partial_cmp(x(), y()).v(),
                "op_lt" => (*x() < *y()).v(), "op_le" => (*x() <= *y()).v(), "op_gt" => (*x() > *y()).v(), "op_ge" => (*x() >= *y()).v(),
                "op_eq" => (*x() == *y()).v(), "op_ne" => (*x() != *y()).v(), "hash_eq" => (h(x()) == h(y())).v(),
                "max" => Ord::max(x().clone(), y().clone()).v(), "min" => Ord::min(x().clone(), y().clone()).v(),
                "sort" => { let mut v: Vec<Ratio> = a.iter().map(|v| v.r().clone()).collect(); v.sort(); v.v() }
                "lt_one" => x().lt_one().v(), "gt_one" => x().gt_one().v(),
                "lt_i32" => x().lt_i32(k()).v(), "gt_i32" => x().gt_i32(k()).v(), "eq_i32" => x().eq_i32(k()).v(), "neq_i32" => x().neq_i32(k()).v(),
                "leq_i32" => x().leq_i32(k()).v(), "geq_i32" => x().geq_i32(k()).v(), "comp_i32" => x().comp_i32(k()).v(),
                "from_dn" => Ratio::from_denom_and_numer(a[0].i().clone(), a[1].i().clone()).v(),
                "from_dn_i32" => Ratio::from_denom_and_numer_i32(c[0].i32(), c[1].i32()).v(),
                "try_from_dn_f64" => Ratio::try_from((f64::from_bits(c[0].mag() as u64), f64::from_bits(c[1].mag() as u64))).v(),
                "try_from_pair" => Ratio::try_from((c[0].s(), c[1].s())).v(),
                "from_bi" => Ratio::from_bi(a[0].i().clone()).v(), "from_ubi" => Ratio::from_ubi(a[0].u().clone()).v(),
                "of_i" => Ratio::from(a[0].i()).v(), "of_i_own" => Ratio::from(a[0].i().clone()).v(), "of_u" => Ratio::from(a[0].u()).v(), "of_u_own" => Ratio::from(a[0].u().clone()).v(),
                "from_i32" => Ratio::from_i32(k()).v(), "from_i64" => Ratio::from_i64(c[0].int() as i64).v(), "from_i128" => Ratio::from_i128(c[0].int()).v(),
                "of_u8" => Ratio::from(c[0].mag() as u8).v(), "of_u16" => Ratio::from(c[0].mag() as u16).v(), "of_u32" => Ratio::from(c[0].mag() as u32).v(),
                "of_u64" => Ratio::from(c[0].mag() as u64).v(), "of_u128" => Ratio::from(c[0].mag()).v(), "of_usize" => Ratio::from(c[0].mag() as usize).v(),
                "of_bool" => Ratio::from(c[0].mag() == 1).v(),
                "of_i8" => Ratio::from(c[0].int() as i8).v(), "of_i16" => Ratio::from(c[0].int() as i16).v(), "of_i32" => Ratio::from(c[0].int() as i32).v(),
                "of_i64" => Ratio::from(c[0].int() as i64).v(), "of_i128" => Ratio::from(c[0].int()).v(), "of_isize" => Ratio::from(c[0].int() as isize).v(),
                "as_u8" => tryfrom!(u8, x()), "as_u16" => tryfrom!(u16, x()), "as_u32" => tryfrom!(u32, x()), "as_u64" => tryfrom!(u64, x()),
                "as_usize" => tryfrom!(usize, x()), "as_u128" => tryfrom!(u128, x()), "as_i8" => tryfrom!(i8, x()), "as_i16" => tryfrom!(i16, x()),
                "as_i32" => tryfrom!(i32, x()), "as_i64" => tryfrom!(i64, x()), "as_isize" => tryfrom!(isize, x()), "as_i128" => tryfrom!(i128, x()),
                "own_u8" => tryfrom!(u8, x().clone()), "own_u16" => tryfrom!(u16, x().clone()), "own_u32" => tryfrom!(u32, x().clone()), "own_u64" => tryfrom!(u64, x().clone()), "own_usize" => tryfrom!(usize, x().clone()), "own_u128" => tryfrom!(u128, x().clone()),
                "own_i8" => tryfrom!(i8, x().clone()), "own_i16" => tryfrom!(i16, x().clone()), "own_i32" => tryfrom!(i32, x().clone()), "own_i64" => tryfrom!(i64, x().clone()), "own_isize" => tryfrom!(isize, x().clone()), "own_i128" => tryfrom!(i128, x().clone()),
                "of_ref_u8" => Ratio::from(&(c[0].mag() as u8)).v(), "of_ref_u16" => Ratio::from(&(c[0].mag() as u16)).v(), "of_ref_u32" => Ratio::from(&(c[0].mag() as u32)).v(),
                "of_ref_u64" => Ratio::from(&(c[0].mag() as u64)).v(), "of_ref_usize" => Ratio::from(&(c[0].mag() as usize)).v(), "of_ref_u128" => Ratio::from(&(c[0].mag() as u128)).v(),
                "of_ref_i8" => Ratio::from(&(c[0].int() as i8)).v(), "of_ref_i16" => Ratio::from(&(c[0].int() as i16)).v(), "of_ref_i32" => Ratio::from(&(c[0].int() as i32)).v(),
                "of_ref_i64" => Ratio::from(&(c[0].int() as i64)).v(), "of_ref_isize" => Ratio::from(&(c[0].int() as isize)).v(), "of_ref_i128" => Ratio::from(&(c[0].int() as i128)).v(),
                "of_ref_bool" => Ratio::from(&(c[0].mag() == 1)).v(), "of_ref_f32" => Ratio::try_from(&f32::from_bits(c[0].mag() as u32)).v(), "of_ref_f64" => Ratio::try_from(&f64::from_bits(c[0].mag() as u64)).v(),
                "of_f32" => Ratio::try_from(f32::from_bits(c[0].mag() as u32)).v(), "of_f64" => Ratio::try_from(f64::from_bits(c[0].mag() as u64)).v(),
                "from_ieee_f32" => Ratio::from_ieee754_f32(f32::from_bits(c[0].mag() as u32)).v(), "from_ieee_f64" => Ratio::from_ieee754_f64(f64::from_bits(c[0].mag() as u64)).v(),
                "to_f32" => x().to_ieee754_f32().v(), "to_f64" => x().to_ieee754_f64().v(), "as_f32" => tryfrom!(f32, x()), "as_f64" => tryfrom!(f64, x()),
                "own_f32" => tryfrom!(f32, x().clone()), "own_f64" => tryfrom!(f64, x().clone()),
                "inspect_f32" => inspect_ieee754_f32(f32::from_bits(c[0].mag() as u32)).v(), "inspect_f64" => inspect_ieee754_f64(f64::from_bits(c[0].mag() as u64)).v(),
                "from_string" => Ratio::from_string(c[0].s()).v(), "from_str" => Ratio::from_str(c[0].s()).v(),
                "try_from_str" => Ratio::try_from(c[0].s()).v(), "try_from_string" => Ratio::try_from(c[0].s().to_string()).v(),
                "ratio_string" => x().to_ratio_string().v(), "approx" => x().to_approx_string(n()).v(), "sci" => x().to_scientific_notation(n()).v(),
                "to_string" => x().to_string().v(), "display" => format!("{}", x()).v(),
                "sqrt_iter" => sqrt_iter(x(), n()).v(), "cbrt_iter" => cbrt_iter(x(), n()).v(), "exp_iter" => exp_iter(x(), n()).v(), "ln_iter" => ln_iter(x(), n()).v(),
                "log_iter" => log_iter(x(), y(), n()).v(), "pow_iter" => pow_iter(x(), y(), n()).v(), "sin_iter" => sin_iter(x(), n()).v(), "cos_iter" => cos_iter(x(), n()).v(),
                "tan_iter" => tan_iter(x(), n()).v(), "asin_iter" => asin_iter(x(), n()).v(), "acos_iter" => acos_iter(x(), n()).v(), "atan_iter" => atan_iter(x(), n()).v(),
                "e_iter" => e_iter(n()).v(), "ln2_iter" => ln2_iter(n()).v(), "pi_iter" => pi_iter(n()).v(),
                "pi_const" => pi_const().v(), "e_const" => e_const().v(), "ln2_const" => ln2_const().v(),
                _ => panic!("recorder: unknown op {op}"),
            }
        }
        "c" => match name {
            "make" => Complex::from_real_and_imag(a[0].r().clone(), a[1].r().clone()).v(),
            "make_i32" => Complex::from_real_and_imag(c[0].i32(), c[1].i32()).v(),
            "try_make_str" => Complex::try_from_real_and_imag(c[0].s(), c[1].s()).v(),
            "real" => a[0].c().real().clone().v(), "imaginary" => a[0].c().imaginary().clone().v(),
            "add" => a[0].c().add(&a[1].c()).v(), "add_mut" => { let mut t = a[0].c(); t.add_mut(&a[1].c()); t.v() }
            "add_i32" => a[0].c().add_i32(c[0].i32()).v(), "add_i32_mut" => { let mut t = a[0].c(); t.add_i32_mut(c[0].i32()); t.v() }
            _ => panic!("recorder: unknown op {op}"),
        },
        "f" => {
            let x = || a[0].f();
            let y = || a[1].f();
            let k = || c[0].i32();
            match name {
                "ZERO" => F192::ZERO.v(), "ONE" => F192::ONE.v(), "MAX" => F192::MAX.v(), "MIN" => F192::MIN.v(), "MIN_POSITIVE" => F192::MIN_POSITIVE.v(), "PI" => F192::PI.v(), "PI_OVER_2" => F192::PI_OVER_2.v(), "PI_OVER_3" => F192::PI_OVER_3.v(), "PI_OVER_4" => F192::PI_OVER_4.v(), "PI_OVER_6" => F192::PI_OVER_6.v(), "E" => F192::E.v(), "SQRT_2" => F192::SQRT_2.v(), "SQRT_3" => F192::SQRT_3.v(), "SQRT_10" => F192::SQRT_10.v(), "ONE_OVER_SQRT_2" => F192::ONE_OVER_SQRT_2.v(), "LN_2" => F192::LN_2.v(), "LN_3" => F192::LN_3.v(), "LN_10" => F192::LN_10.v(),
                "is_integer" => x().is_integer().v(), "abs" => x().abs().v(), "neg" => F192::neg(x()).v(),
                "shl" => F192::shl(x(), c[0].mag() as u64).v(), "shr" => F192::shr(x(), c[0].mag() as u64).v(), "step_epsilon" => x().step_epsilon().v(),
                "add" => F192::add(x(), y()).v(), "sub" => F192::sub(x(), y()).v(), "mul" => F192::mul(x(), y()).v(), "div" => F192::div(x(), y()).v(),
                "mul_i32" => x().mul_i32(k()).v(), "div_i32" => x().div_i32(k()).v(),
                "cmp" => Ord::cmp(x(), y()).v(), "partial_cmp" => PartialOrd::partial_cmp(x(), y()).v(),
                "op_lt" => (*x() < *y()).v(), "op_le" => (*x() <= *y()).v(), "op_gt" => (*x() > *y()).v(), "op_ge" => (*x() >= *y()).v(),
                "op_eq" => (*x() == *y()).v(), "op_ne" => (*x() != *y()).v(), "hash_eq" => (h(x()) == h(y())).v(),
                "max" => Ord::max(*x(), *y()).v(), "min" => Ord::min(*x(), *y()).v(),
                "sort" => { let mut v: Vec<F192> = a.iter().map(|v| *v.f()).collect(); v.sort(); v.v() }
                "floor" => x().floor().v(), "ceil" => x().ceil().v(), "round" => x().round().v(), "truncate" => x().truncate().v(), "frac" => x().frac().v(),
                "ilog2" => x().ilog2().v(), "log2" => x().log2().v(), "ln" => x().ln().v(), "pow2" => x().pow2().v(), "powi" => x().powi(c[0].int() as i64).v(),
                "pow" => x().pow(y()).v(), "from_pow2" => F192::from_pow2(c[0].int() as i64).v(), "sqrt" => x().sqrt().v(),
                "sin" => x().sin().v(), "cos" => x().cos().v(), "tan" => x().tan().v(), "asin" => x().asin().v(), "acos" => x().acos().v(), "atan" => x().atan().v(),
                "of_u8" => F192::from(c[0].mag() as u8).v(), "of_u16" => F192::from(c[0].mag() as u16).v(), "of_u32" => F192::from(c[0].mag() as u32).v(),
                "of_u64" => F192::from(c[0].mag() as u64).v(), "of_usize" => F192::from(c[0].mag() as usize).v(), "of_u128" => F192::from(c[0].mag()).v(),
                "of_i8" => F192::from(c[0].int() as i8).v(), "of_i16" => F192::from(c[0].int() as i16).v(), "of_i32" => F192::from(c[0].int() as i32).v(),
                "of_i64" => F192::from(c[0].int() as i64).v(), "of_isize" => F192::from(c[0].int() as isize).v(), "of_i128" => F192::from(c[0].int()).v(),
                "of_f32" => F192::try_from(f32::from_bits(c[0].mag() as u32)).v(), "of_f64" => F192::try_from(f64::from_bits(c[0].mag() as u64)).v(),
                "of_r" => F192::from(a[0].r()).v(), "of_r_own" => F192::from(a[0].r().clone()).v(),
                "to_r" => Ratio::from(x()).v(), "to_r_own" => Ratio::from(*x()).v(),
                "to_f32" => f32::from(*x()).v(), "to_f64" => f64::from(*x()).v(),
                "as_u8" => tryfrom!(u8, *x()), "as_u16" => tryfrom!(u16, *x()), "as_u32" => tryfrom!(u32, *x()), "as_u64" => tryfrom!(u64, *x()),
                "as_usize" => tryfrom!(usize, *x()), "as_u128" => tryfrom!(u128, *x()), "as_i8" => tryfrom!(i8, *x()), "as_i16" => tryfrom!(i16, *x()),
                "as_i32" => tryfrom!(i32, *x()), "as_i64" => tryfrom!(i64, *x()), "as_isize" => tryfrom!(isize, *x()), "as_i128" => tryfrom!(i128, *x()),
                "from_str" => F192::from_str(c[0].s()).v(), "approx" => x().to_approx_string().v(), "display" => format!("{}", x()).v(),
                "into_code13" => match x().into_code13() { Ok(b) => Ok(Val::S(b)), Err(e) => Err(e.name()) },
                "from_code13" => F192::from_code13(c[0].bytes()).v(),
                _ => panic!("recorder: unknown op {op}"),
            }
        }
        "m" => {
            let x = || a[0].m();
            let y = || a[1].m();
            match name {
                "from_vec" => Matrix::from_vec(c[0].l().iter().map(ratios).collect()).v(),
                "from_vec_generic" => Matrix::from_vec_generic(c[0].l().iter().map(|r| r.l().iter().map(|x| x.i32()).collect()).collect::<Vec<Vec<i32>>>()).v(),
                "empty" => Matrix::empty().v(), "zeros" => Matrix::zeros(c[0].us(), c[1].us()).v(), "identity" => Matrix::identity(c[0].us()).v(),
                "generate" => Matrix::generate(c[0].us(), c[1].us(), |i, j| Ratio::from_i32(1000 * i as i32 + j as i32)).v(),
                "from_raw" => { let data: Vec<Vec<Ratio>> = c[0].l().iter().map(ratios).collect(); let (rows, cols) = (data.len(), data[0].len()); Matrix::from_raw(data, cols, rows).v() }
                "mul_k_i32_mut" => m!(x(), |t| t.mul_k_mut(c[0].i32())), "mul_k_bi" => x().mul_k(a[1].i().clone()).v(),
                "is_square" => x().is_square().v(), "get" => x().get(c[0].us(), c[1].us()).clone().v(),
                "set_mut" => m!(x(), |t| *t.get_mut(c[0].us(), c[1].us()) = a[1].r().clone()),
                "add" => x().add(y()).v(), "add_mut" => { let mut t = x().clone(); match t.add_mut(y()) { Ok(()) => t.v(), Err(e) => Err(if t == *x() { e.name() } else { "operand changed".into() }) } }
                "mul_k" => x().mul_k(a[1].r().clone()).v(), "mul_k_mut" => m!(x(), |t| t.mul_k_mut(a[1].r().clone())),
                "mul_k_i32" => x().mul_k(c[0].i32()).v(),
                "mul" => x().mul(y()).v(), "transpose" => x().transpose().v(), "transpose_mut" => m!(x(), |t| t.transpose_mut()),
                "determinant" => x().determinant().v(), "inverse" => x().inverse().v(),
                "ratio_string" => x().to_ratio_string().v(), "eq" => (x() == y()).v(),
                "det2" => x().determinant_2_by_2().v(), "det3" => x().determinant_3_by_3().v(), "det4" => x().determinant_4_by_4().v(),
                _ => panic!("recorder: unknown op {op}"),
            }
        }
        "p" => {
            let x = || a[0].p();
            match name {
                "from_vec" => Polynomial::from_vec(ratios(&c[0])).v(),
                "from_vec_generic" => Polynomial::from_vec_generic(c[0].l().iter().map(|x| x.i32()).collect::<Vec<i32>>()).v(),
                "to_vec" => x().to_vec().clone().v(), "to_vec_f32" => x().to_vec_f32().v(), "to_vec_f64" => x().to_vec_f64().v(),
                "mul_k" => x().mul_k(a[1].r().clone()).v(), "mul_k_mut" => m!(x(), |t| t.mul_k_mut(a[1].r().clone())), "mul_k_i32" => x().mul_k(c[0].i32()).v(), "mul_k_i32_mut" => m!(x(), |t| t.mul_k_mut(c[0].i32())),
                "differentiate" => x().differentiate().v(), "differentiate_mut" => m!(x(), |t| t.differentiate_mut()),
                "calc" => x().calc(a[1].r()).v(), "newton" => x().newton_method(a[1].r(), &None).v(), "newton_with" => x().newton_method(a[1].r(), &Some(a[2].p().clone())).v(),
                "ratio_string" => x().to_ratio_string().v(), "approx" => x().to_approx_string(c[0].us()).v(), "eq" => (x() == a[1].p()).v(),
                "from_points" => from_points(c[0].l().iter().map(|q| (q.l()[0].r().clone(), q.l()[1].r().clone())).collect()).v(),
                "from_points_generic" => from_points_generic(c[0].l().iter().map(|q| (q.l()[0].i32(), q.l()[1].i32())).collect()).v(),
                "cubic" => { let r = ratios(&c[0]); cubic_2_points(&r[0], &r[1], &r[2], &r[3], &r[4], &r[5]).v() }
                "quadratic" => { let r = ratios(&c[0]); quadratic_3_points(&r[0], &r[1], &r[2], &r[3], &r[4], &r[5]).v() }
                "linear" => { let r = ratios(&c[0]); linear_2_points(&r[0], &r[1], &r[2], &r[3]).v() }
                _ => panic!("recorder: unknown op {op}"),
            }
        }
        _ => panic!("recorder: unknown op {op}"),
    }
}
