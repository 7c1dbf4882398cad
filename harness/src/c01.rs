//! C01 scalar modular arithmetic, C02 vector operations.
use crate::fw::*;
use crate::gn::*;
use crate::{check, check_eq};
use fhe_math::zq::{Modulus, primes};

pub fn kinds() -> Vec<Kind> {
    vec![
        Kind { prop: "C01", name: "zq.scalar", quick: 150_000, thorough: 6_000_000, f: scalar },
        Kind { prop: "C01", name: "zq.reduce", quick: 150_000, thorough: 6_000_000, f: reduce },
        Kind { prop: "C01", name: "zq.new", quick: 20_000, thorough: 400_000, f: new },
        Kind { prop: "C01", name: "zq.small_exhaustive", quick: 66, thorough: 256, f: small },
        Kind { prop: "C02", name: "zq.vec", quick: 30_000, thorough: 1_000_000, f: vecs },
    ]
}

fn opt_spec(p: u64) -> bool {
    // 3l·ceil form used by the library: 2^(3l) (2^l+1)... checked through the
    // observable: every reduction of the optimised kind must be exact.
    primes::supports_opt(p)
}

fn scalar(cx: &mut Cx) -> R {
    let p = modulus(cx);
    let (a, b) = (cx.residue(p), cx.residue(p));
    cx.note(format!("p={p} a={a} b={b}"));
    let m = Modulus::new(p).map_err(|e| format!("Modulus::new({p}) = {e}"))?;
    check_eq!(*m, p, "deref");
    check_eq!(m.add(a, b), addmod(a, b, p), "add");
    check_eq!(unsafe { m.add_vt(a, b) }, addmod(a, b, p), "add_vt");
    check_eq!(m.sub(a, b), submod(a, b, p), "sub");
    check_eq!(m.neg(a), (p - a) % p, "neg");
    check_eq!(m.mul(a, b), mulmod(a, b, p), "mul");
    let bs = m.shoup(b);
    check_eq!(bs, (((b as u128) << 64) / p as u128) as u64, "shoup");
    let w = cx.word();
    cx.note(format!("w={w}"));
    check_eq!(m.mul_shoup(a, b, bs), mulmod(a, b, p), "mul_shoup");
    check_eq!(m.mul_shoup(w, b, bs), mulmod(w % p, b, p), "mul_shoup of a word");
    let l = m.lazy_mul_shoup(w, b, bs);
    check!(l < 2 * p && l % p == mulmod(w % p, b, p), "lazy_mul_shoup({w},{b}) = {l}");
    if opt_spec(p) {
        check_eq!(m.mul_opt(a, b), mulmod(a, b, p), "mul_opt");
    }
    let e = cx.residue(p);
    check_eq!(m.pow(a, e), if p == 1 { 0 } else { powmod(a, e, p) }, "pow {a}^{e}");
    let prime = is_prime_u64(p);
    match m.inv(a) {
        Some(i) => check!(prime && a != 0 && i < p && mulmod(i, a, p) == 1 % p, "inv({a}) = Some({i}), prime={prime}"),
        None => check!(!prime || a == 0, "inv({a}) = None"),
    }
    let c = m.center(a) as i128;
    let h = (p >> 1) as i128;
    let exp = if a as i128 >= h { a as i128 - p as i128 } else { a as i128 };
    check_eq!(c, exp, "center({a})");
    Ok(())
}

fn reduce(cx: &mut Cx) -> R {
    let p = modulus(cx);
    let hi = cx.word();
    let lo = cx.word();
    let x = match cx.below(6) {
        0 => (hi as u128 % p as u128) * p as u128 + lo as u128 % 3,
        1 => (p as u128).wrapping_mul(hi as u128).wrapping_sub(1),
        _ => ((hi as u128) << 64) | lo as u128,
    };
    cx.note(format!("p={p} x={x} lo={lo}"));
    let m = Modulus::new(p).map_err(|e| e.to_string())?;
    check_eq!(m.reduce_u128(x) as u128, x % p as u128, "reduce_u128");
    check_eq!(unsafe { m.reduce_u128_vt(x) } as u128, x % p as u128, "reduce_u128_vt");
    let l = m.lazy_reduce_u128(x);
    check!(l < 2 * p && l as u128 % p as u128 == x % p as u128, "lazy_reduce_u128 = {l}");
    check_eq!(m.reduce(lo), lo % p, "reduce");
    check_eq!(unsafe { m.reduce_vt(lo) }, lo % p, "reduce_vt");
    let l = m.lazy_reduce(lo);
    check!(l < 2 * p && l % p == lo % p, "lazy_reduce = {l}");
    check_eq!(m.reduce_vec_i64(&[lo as i64])[0] as i128, (lo as i64 as i128).rem_euclid(p as i128), "reduce_i64");
    check_eq!(unsafe { m.reduce_vec_i64_vt(&[lo as i64]) }[0] as i128, (lo as i64 as i128).rem_euclid(p as i128), "reduce_i64_vt");
    if opt_spec(p) {
        let y = x % (p as u128 * p as u128);
        check_eq!(m.reduce_opt_u128(y) as u128, y % p as u128, "reduce_opt_u128({y})");
        let l = m.lazy_reduce_opt_u128(y);
        check!(l < 2 * p && l as u128 % p as u128 == y % p as u128, "lazy_reduce_opt_u128({y}) = {l}");
        check_eq!(m.reduce_opt(lo), lo % p, "reduce_opt");
        check_eq!(unsafe { m.reduce_opt_vt(lo) }, lo % p, "reduce_opt_vt");
    }
    Ok(())
}

fn new(cx: &mut Cx) -> R {
    let p = match cx.below(5) {
        0 => cx.below(4),
        1 => (1u64 << 62) + cx.below(5) - 2,
        2 => u64::MAX - cx.below(3),
        3 => 1u64 << cx.below(64),
        _ => cx.word(),
    };
    cx.note(p);
    let ok = (2..1u64 << 62).contains(&p);
    match Modulus::new(p) {
        Ok(m) => { check!(ok, "Modulus::new({p}) accepted"); check_eq!(*m, p, "value"); check!(m == m.clone(), "eq") }
        Err(_) => check!(!ok, "Modulus::new({p}) rejected"),
    }
    Ok(())
}

/// Every pair of operands for one small modulus.
fn small(cx: &mut Cx) -> R {
    let p = 2 + cx.idx;
    cx.note(format!("all pairs modulo {p}"));
    let m = Modulus::new(p).map_err(|e| e.to_string())?;
    for a in 0..p {
        check_eq!(m.neg(a), (p - a) % p, "neg({a})");
        let x = m.center(a);
        check!(x as i128 == if a >= p >> 1 { a as i128 - p as i128 } else { a as i128 }, "center({a})={x}");
        for b in 0..p {
            check_eq!(m.add(a, b), (a + b) % p, "add({a},{b})");
            check_eq!(m.sub(a, b), (a + p - b) % p, "sub({a},{b})");
            check_eq!(m.mul(a, b), a * b % p, "mul({a},{b})");
            check_eq!(m.mul_shoup(a, b, m.shoup(b)), a * b % p, "mul_shoup({a},{b})");
            check_eq!(m.pow(a, b), powmod(a, b, p), "pow({a},{b})");
        }
    }
    Ok(())
}

fn vecs(cx: &mut Cx) -> R {
    let p = modulus(cx);
    let n = match cx.below(4) {
        0 => cx.below(5) as usize,
        1 => (16 * cx.range(0, 4) + cx.below(3)) as usize,
        _ => cx.below(70) as usize,
    };
    let m = Modulus::new(p).map_err(|e| e.to_string())?;
    let a = cx.residues(p, n);
    let b = cx.residues(p, n);
    let w: Vec<u64> = (0..n).map(|_| cx.word()).collect();
    let s = cx.residue(p);
    cx.note(format!("p={p} n={n} a={:?} b={:?} s={s}", &a[..n.min(4)], &b[..n.min(4)]));
    if n == 0 { cx.trivial = true; }
    let b0 = b.clone();
    let z = |f: &dyn Fn(u64, u64) -> u64| -> Vec<u64> { a.iter().zip(&b).map(|(x, y)| f(*x, *y)).collect() };
    macro_rules! inplace { ($name:expr, $call:expr, $src:expr, $exp:expr) => {{
        let mut v = $src.clone();
        #[allow(clippy::redundant_closure_call)]
        ($call)(&mut v);
        check_eq!(v, $exp, $name);
        check!(b == b0, "{}: second operand changed", $name);
    }}; }
    let add = z(&|x, y| addmod(x, y, p));
    let sub = z(&|x, y| submod(x, y, p));
    let mul = z(&|x, y| mulmod(x, y, p));
    let smul: Vec<u64> = a.iter().map(|x| mulmod(*x, s, p)).collect();
    let neg: Vec<u64> = a.iter().map(|x| (p - x) % p).collect();
    let red: Vec<u64> = w.iter().map(|x| x % p).collect();
    inplace!("add_vec", |v: &mut Vec<u64>| m.add_vec(v, &b), a, add);
    inplace!("add_vec_vt", |v: &mut Vec<u64>| unsafe { m.add_vec_vt(v, &b) }, a, add);
    inplace!("sub_vec", |v: &mut Vec<u64>| m.sub_vec(v, &b), a, sub);
    inplace!("sub_vec_vt", |v: &mut Vec<u64>| unsafe { m.sub_vec_vt(v, &b) }, a, sub);
    inplace!("mul_vec", |v: &mut Vec<u64>| m.mul_vec(v, &b), a, mul);
    inplace!("mul_vec_vt", |v: &mut Vec<u64>| unsafe { m.mul_vec_vt(v, &b) }, a, mul);
    inplace!("scalar_mul_vec", |v: &mut Vec<u64>| m.scalar_mul_vec(v, s), a, smul);
    inplace!("scalar_mul_vec_vt", |v: &mut Vec<u64>| unsafe { m.scalar_mul_vec_vt(v, s) }, a, smul);
    inplace!("neg_vec", |v: &mut Vec<u64>| m.neg_vec(v), a, neg);
    inplace!("neg_vec_vt", |v: &mut Vec<u64>| unsafe { m.neg_vec_vt(v) }, a, neg);
    inplace!("reduce_vec", |v: &mut Vec<u64>| m.reduce_vec(v), w, red);
    inplace!("reduce_vec_vt", |v: &mut Vec<u64>| unsafe { m.reduce_vec_vt(v) }, w, red);
    check_eq!(m.reduce_vec_new(&w), red, "reduce_vec_new");
    check_eq!(unsafe { m.reduce_vec_new_vt(&w) }, red, "reduce_vec_new_vt");
    let mut v = w.clone();
    m.lazy_reduce_vec(&mut v);
    for (x, y) in v.iter().zip(&w) { check!(*x < 2 * p && x % p == y % p, "lazy_reduce_vec({y}) = {x}"); }
    let sh = m.shoup_vec(&b);
    check_eq!(sh, b.iter().map(|x| (((*x as u128) << 64) / p as u128) as u64).collect::<Vec<_>>(), "shoup_vec");
    inplace!("mul_shoup_vec", |v: &mut Vec<u64>| m.mul_shoup_vec(v, &b, &sh), a, mul);
    inplace!("mul_shoup_vec_vt", |v: &mut Vec<u64>| unsafe { m.mul_shoup_vec_vt(v, &b, &sh) }, a, mul);
    let i: Vec<i64> = w.iter().map(|x| *x as i64).collect();
    let ri: Vec<u64> = i.iter().map(|x| (*x as i128).rem_euclid(p as i128) as u64).collect();
    check_eq!(m.reduce_vec_i64(&i), ri, "reduce_vec_i64");
    check_eq!(unsafe { m.reduce_vec_i64_vt(&i) }, ri, "reduce_vec_i64_vt");
    let h = p >> 1;
    let c: Vec<i64> = a.iter().map(|x| if *x >= h { (*x as i128 - p as i128) as i64 } else { *x as i64 }).collect();
    check_eq!(m.center_vec(&a), c, "center_vec");
    let mut rng = cx.fork();
    let r = m.random_vec(n, &mut rng);
    check!(r.len() == n && r.iter().all(|x| *x < p), "random_vec");
    Ok(())
}
