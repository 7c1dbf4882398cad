//! C04 number-theoretic transform.
use crate::fw::*;
use crate::gn::*;
use crate::{check, check_eq};
use fhe_math::ntt::NttOperator;
use fhe_math::rq::{Context, Ntt, Poly};
use fhe_math::zq::Modulus;
use fhe_traits::{PublicData, VariableTime};
use std::sync::Arc;

pub fn kinds() -> Vec<Kind> {
    vec![
        Kind { prop: "C04", name: "ntt.new", quick: 4_000, thorough: 200_000, f: new },
        Kind { prop: "C04", name: "ntt.points", quick: 500, thorough: 30_000, f: points },
        Kind { prop: "C04", name: "ntt.values", quick: 4_000, thorough: 300_000, f: values },
        Kind { prop: "C04", name: "ntt.lazy", quick: 2_000, thorough: 100_000, f: lazy },
        Kind { prop: "C04", name: "ntt.product", quick: 600, thorough: 30_000, f: product },
    ]
}
pub fn vt() -> VariableTime { VariableTime::new(PublicData::assert_public()) }
/// an NTT-friendly prime for size n, any size up to 62 bits
pub fn prime_for(cx: &mut Cx, n: u64) -> u64 {
    let lg = 64 - n.leading_zeros() as u64;
    loop {
        let p = match cx.below(6) {
            0 => prev_prime(1 << 62, 2 * n),
            1 => { let mut c = 2 * n + 1; while !is_prime_u64(c) { c += 2 * n; } Some(c) }
            2 => prev_prime((1u64 << 62) - cx.below(1 << 50), 2 * n),
            3 => { let b = cx.range(lg + 3, 62); prev_prime(1 << b, 2 * n) }
            _ => { let b = cx.range(lg + 3, 62); prev_prime((1u64 << (b - 1)) + cx.below(1 << (b - 1)), 2 * n) }
        };
        if let Some(p) = p { return p; }
    }
}
fn size(cx: &mut Cx, max: u64) -> usize { 1usize << cx.range(3, max) }
fn new(cx: &mut Cx) -> R {
    if cx.below(8) == 0 { // sizes no modulus (or not this one) supports are refused
        let n = 1u64 << cx.range(13, 63);
        let p = modulus(cx);
        if p as u128 % (2 * n as u128) == 1 { return Ok(()); }
        cx.note(format!("p={p} n={n}"));
        check!(NttOperator::new(&Modulus::new(p).map_err(|e| e.to_string())?, n as usize).is_none(), "unsupported size accepted");
        check!(Context::new(&[p], n as usize).is_err(), "context of unsupported size accepted");
        return Ok(());
    }
    let n = size(cx, 12) as u64;
    let p = match cx.below(6) {
        0 => prime_for(cx, n),
        1 => prime_for(cx, n / 2),
        2 => { let p = prime_for(cx, 2 * n); p.saturating_sub(2 * n) }
        3 => modulus(cx),
        4 => { let k = cx.below((1 << 61) / (2 * n)); k * 2 * n + 1 }
        _ => { // composite, 1 mod 2n
            let a = 2 * n * cx.range(1, 1 << 10) + 1; let b = 2 * n * cx.range(1, 1 << 10) + 1; a * b }
    };
    if !(2..1 << 62).contains(&p) { return Ok(()); }
    cx.note(format!("p={p} n={n}"));
    let m = Modulus::new(p).map_err(|e| e.to_string())?;
    let exp = is_prime_u64(p) && p % (2 * n) == 1;
    let op = NttOperator::new(&m, n as usize);
    check_eq!(op.is_some(), exp, "NttOperator::new succeeds");
    Ok(())
}
fn setup(cx: &mut Cx, max: u64) -> Result<(u64, usize, NttOperator), String> {
    let n = size(cx, max);
    let p = prime_for(cx, n as u64);
    cx.note(format!("p={p} n={n}"));
    let m = Modulus::new(p).map_err(|e| e.to_string())?;
    let op = NttOperator::new(&m, n).ok_or("supported prime refused")?;
    Ok((p, n, op))
}
fn vector(cx: &mut Cx, p: u64, n: usize) -> Vec<u64> {
    match cx.below(6) {
        0 => vec![p - 1; n],
        1 => { let mut v = vec![0; n]; v[cx.below(n as u64) as usize] = p - 1; v }
        2 => (0..n).map(|i| if i % 2 == 0 { p - 1 } else { 0 }).collect(),
        3 => (0..n).map(|i| if i < n / 2 { 0 } else { p - 1 }).collect(),
        _ => (0..n).map(|_| cx.residue(p)).collect(),
    }
}
/// evaluation points, from the transform of X
fn roots(op: &NttOperator, p: u64, n: usize) -> Result<Vec<u64>, String> {
    let mut x = vec![0u64; n];
    x[1] = 1;
    op.forward(&mut x);
    let mut s = x.clone();
    s.sort();
    s.dedup();
    check!(s.len() == n && x.iter().all(|r| *r < p && powmod(*r, n as u64, p) == p - 1), "the transform of X is not the list of the {n} primitive 2n-th roots: {}", short(&x));
    Ok(x)
}
fn points(cx: &mut Cx) -> R {
    let (p, n, op) = setup(cx, if cx.thorough { 12 } else { 8 })?;
    let r = roots(&op, p, n)?;
    for k in 0..3 {
        let a = vector(cx, p, n);
        if k == 0 { cx.note(format!("a={}", short(&a))); }
        let mut f = a.clone();
        op.forward(&mut f);
        for i in 0..n {
            let e = a.iter().rev().fold(0, |s, c| addmod(mulmod(s, r[i], p), *c, p));
            check_eq!(f[i], e, "forward[{i}] = evaluation at {}", r[i]);
        }
    }
    Ok(())
}
fn values(cx: &mut Cx) -> R {
    let (p, n, op) = setup(cx, 10)?;
    let a = vector(cx, p, n);
    cx.note(format!("a={}", short(&a)));
    let run = |f: &dyn Fn(&mut [u64])| { let mut v = a.clone(); f(&mut v); v };
    let f = run(&|v| op.forward(v));
    let b = run(&|v| op.backward(v));
    check!(f.iter().chain(&b).all(|x| *x < p), "canonical output");
    check_eq!(run(&|v| unsafe { op.forward_vt(v.as_mut_ptr()) }), f, "forward_vt");
    check_eq!(run(&|v| unsafe { op.backward_vt(v.as_mut_ptr()) }), b, "backward_vt");
    check_eq!(run(&|v| { op.forward(v); op.backward(v) }), a, "backward(forward(a))");
    check_eq!(run(&|v| { op.backward(v); op.forward(v) }), a, "forward(backward(a))");
    Ok(())
}
fn lazy(cx: &mut Cx) -> R {
    let n = size(cx, 9);
    let p = prime_for(cx, n as u64);
    let ctx = Arc::new(Context::new(&[p], n).map_err(|e| e.to_string())?);
    let op = NttOperator::new(&Modulus::new(p).unwrap(), n).ok_or("refused")?;
    let a: Vec<u64> = match cx.below(4) { 0 => vec![u64::MAX; n], 1 => vector(cx, p, n), 2 => (0..n).map(|_| cx.word()).collect(), _ => (0..n).map(|_| cx.residue(p) + if p < 1 << 61 { p } else { 0 }).collect() };
    cx.note(format!("p={p} n={n} a={}", short(&a)));
    let q = Poly::<Ntt>::create_constant_ntt_polynomial_with_lazy_coefficients_and_variable_time(&a, &ctx, vt());
    let mut f: Vec<u64> = a.iter().map(|x| x % p).collect();
    op.forward(&mut f);
    for (i, x) in q.coefficients().iter().enumerate() {
        check!(*x as u128 <= 4 * p as u128 && x % p == f[i], "lazy[{i}] = {x}, forward = {}", f[i]);
    }
    Ok(())
}
fn product(cx: &mut Cx) -> R {
    let (p, n, op) = setup(cx, 7)?;
    let (a, b) = (vector(cx, p, n), vector(cx, p, n));
    cx.note(format!("a={} b={}", short(&a), short(&b)));
    let mut c = vec![0u64; n];
    for i in 0..n { for j in 0..n {
        let m = mulmod(a[i], b[j], p);
        if i + j < n { c[i + j] = addmod(c[i + j], m, p) } else { c[i + j - n] = submod(c[i + j - n], m, p) }
    } }
    let (mut fa, mut fb) = (a.clone(), b.clone());
    op.forward(&mut fa);
    op.forward(&mut fb);
    let mut h: Vec<u64> = fa.iter().zip(&fb).map(|(x, y)| mulmod(*x, *y, p)).collect();
    op.backward(&mut h);
    check_eq!(h, c, "product modulo X^{n}+1");
    Ok(())
}
