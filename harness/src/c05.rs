//! C05 CRT, C06 RNS scaling.
use crate::fw::*;
use crate::gn::*;
use crate::ring::*;
use crate::{check, check_eq};
use fhe_math::rns::{RnsContext, RnsScaler, ScalingFactor};
use ndarray::{Array1, ArrayView1};
use num_bigint::{BigInt, BigUint};
use num_traits::{One, Signed, Zero};
use std::sync::Arc;

pub fn kinds() -> Vec<Kind> {
    vec![
        Kind { prop: "C05", name: "rns.new", quick: 30_000, thorough: 2_000_000, f: new },
        Kind { prop: "C05", name: "rns.lift", quick: 20_000, thorough: 1_500_000, f: lift },
        Kind { prop: "C06", name: "scale.generic", quick: 30_000, thorough: 2_000_000, f: generic },
        Kind { prop: "C06", name: "scale.ties", quick: 20_000, thorough: 1_000_000, f: ties },
        Kind { prop: "C06", name: "scale.wide", quick: 1_500, thorough: 60_000, f: wide },
    ]
}
pub fn gcd(a: u64, b: u64) -> u64 { if b == 0 { a } else { gcd(b, a % b) } }
/// pairwise coprime moduli (not necessarily prime)
pub fn coprime(cx: &mut Cx, k: usize) -> Vec<u64> {
    let mut v: Vec<u64> = vec![];
    let style = cx.below(3);
    while v.len() < k {
        let m = match style {
            0 => { let b = cx.range(2, 62); prev_prime((1u64 << (b - 1)) + cx.below(1 << (b - 1)) + 1, 1).unwrap_or(2) }
            1 => prev_prime((1 << 62) - cx.below(1 << 20), 2).unwrap(),
            _ => modulus(cx),
        };
        if v.iter().all(|x| gcd(*x, m) == 1) && m > 1 { v.push(m); }
    }
    v
}
fn new(cx: &mut Cx) -> R {
    let k = cx.below(6) as usize;
    let mut v = coprime(cx, k);
    for _ in 0..cx.below(3) {
        if v.is_empty() { break; }
        let i = cx.below(v.len() as u64) as usize;
        let j = cx.below(v.len() as u64) as usize;
        match cx.below(7) {
            0 => v[i] = v[j],
            1 => v[i] = 1,
            2 => v[i] = 0,
            3 => v[i] = (1 << 62) - 1 + cx.below(4),
            4 => v[i] = v[i].wrapping_mul(1 + cx.below(20)),
            5 => v[i] = cx.word(),
            _ => v.push(6),
        }
    }
    cx.note(format!("moduli={v:?}"));
    let ok = !v.is_empty() && v.iter().all(|x| (2..1 << 62).contains(x))
        && (0..v.len()).all(|i| (0..i).all(|j| gcd(v[i], v[j]) == 1));
    let r = RnsContext::new(&v);
    check_eq!(r.is_ok(), ok, "RnsContext::new succeeds");
    if let Ok(r) = r {
        check_eq!(*r.modulus(), prod(&v), "product");
        for i in 0..v.len() {
            let g = r.get_garner(i).ok_or("no Garner coefficient")?;
            for j in 0..v.len() {
                check_eq!(modb(g, v[j]), u64::from(i == j), "garner[{i}] mod {}", v[j]);
            }
            check!(*g < prod(&v), "garner[{i}] is not reduced");
        }
        check!(r.get_garner(v.len()).is_none(), "garner out of range");
    }
    Ok(())
}
fn number(cx: &mut Cx, q: &BigUint) -> BigUint {
    let rnd = |cx: &mut Cx, q: &BigUint| -> BigUint {
        let d: Vec<u32> = (0..q.bits() / 32 + 3).map(|_| cx.u64() as u32).collect();
        BigUint::new(d) % q
    };
    match cx.below(8) {
        0 => BigUint::zero(),
        1 => BigUint::one() % q,
        2 => q - 1u32,
        3 => q >> 1,
        4 => (q >> 1) + cx.below(3),
        5 => BigUint::from(cx.word()) % q,
        6 => q - (BigUint::from(cx.word()) % q) - 1u32,
        _ => rnd(cx, q),
    }
}
fn lift(cx: &mut Cx) -> R {
    let k = cx.range(1, 8) as usize;
    let v = coprime(cx, k);
    let q = prod(&v);
    let r = RnsContext::new(&v).map_err(|e| e.to_string())?;
    let mut a = number(cx, &q);
    if cx.below(4) == 0 { a = &a * cx.word() + number(cx, &q); }
    cx.note(format!("moduli={v:?} a={a}"));
    let p = r.project(&a);
    let e: Vec<u64> = v.iter().map(|m| modb(&a, *m)).collect();
    check_eq!(p, e, "project");
    check_eq!(r.lift(ArrayView1::from(&p)), &a % &q, "lift(project(a))");
    let rests: Vec<u64> = v.iter().map(|m| cx.residue(*m)).collect();
    cx.note(format!("rests={rests:?}"));
    let l = r.lift(ArrayView1::from(&rests));
    check!(l < q, "lift is not reduced");
    check_eq!(l, crt(&v, &rests), "lift");
    check_eq!(r.project(&l), rests, "project(lift(rests))");
    // a non-contiguous view
    let m = ndarray::Array2::from_shape_fn((k, 2), |(i, j)| if j == 1 { rests[i] } else { 0 });
    check_eq!(r.lift(m.column(1)), l, "lift of a strided view");
    Ok(())
}

/// y rounded to nearest by den; both neighbours when y/den is within 2^-48 of a half.
fn roundings(y: &BigInt, den: &BigInt) -> Vec<BigInt> {
    let f = round_div(y, den);
    let e: BigInt = y - &f * den; // in [-den/2, den/2)
    let mut v = vec![f.clone()];
    let two: BigInt = &e * 2;
    let slack: BigInt = two.abs() - den;
    if slack.abs() << 48 <= *den && -two != *den {
        v.push(if e.is_negative() { &f - 1 } else { &f + 1 });
    }
    v
}
/// x's centered representatives; both signs when within 2^-48 of half the modulus.
pub fn signed(x: &BigUint, q: &BigUint) -> Vec<BigInt> {
    let (xi, qi) = (BigInt::from(x.clone()), BigInt::from(q.clone()));
    let d: BigInt = &xi * 2 - &qi;
    if d.abs() << 48 <= qi { vec![xi.clone(), &xi - &qi] } else if d.is_positive() { vec![&xi - &qi] } else { vec![xi] }
}
/// every acceptable value of round(x * num / den)
pub fn accepted(x: &BigUint, q: &BigUint, num: &BigUint, den: &BigUint) -> Vec<BigInt> {
    let (n, d) = (BigInt::from(num.clone()), BigInt::from(den.clone()));
    signed(x, q).iter().flat_map(|s| roundings(&(s * &n), &d)).collect()
}
struct Case { f: Vec<u64>, t: Vec<u64>, num: BigUint, den: BigUint }
fn run(cx: &mut Cx, c: &Case, rests: &[u64]) -> R {
    let q = prod(&c.f);
    let from = Arc::new(RnsContext::new(&c.f).map_err(|e| e.to_string())?);
    let to = Arc::new(RnsContext::new(&c.t).map_err(|e| e.to_string())?);
    let sf = if c.num == c.den && cx.flip() { ScalingFactor::one() } else { ScalingFactor::new(&c.num, &c.den) };
    let s = RnsScaler::new(&from, &to, sf);
    let x = crt(&c.f, rests);
    cx.note(format!("from={:?} to={:?} factor={}/{} rests={rests:?}", c.f, c.t, c.num, c.den));
    let cand = accepted(&x, &q, &c.num, &c.den);
    let all = s.scale_new(ArrayView1::from(rests), c.t.len());
    let matches = |o: &[u64], st: usize| cand.iter().any(|r| o.iter().enumerate().all(|(i, y)| *y == bmod(r, c.t[st + i])));
    check!(matches(&all, 0), "scaled to {all:?}, expected {:?}", cand.iter().map(|r| c.t.iter().map(|p| bmod(r, *p)).collect::<Vec<_>>()).collect::<Vec<_>>());
    // every window gives the same values
    let st = cx.below(c.t.len() as u64) as usize;
    let len = cx.range(1, (c.t.len() - st) as u64) as usize;
    let mut out = Array1::from_elem(len, 7u64);
    s.scale(ArrayView1::from(rests), out.view_mut(), st);
    check_eq!(out.to_vec(), all[st..st + len].to_vec(), "window {st}..{}", st + len);
    let short = s.scale_new(ArrayView1::from(rests), len);
    check_eq!(short, all[..len].to_vec(), "scale_new to {len}");
    Ok(())
}
fn case(cx: &mut Cx, kmax: u64) -> Case {
    let k = cx.range(1, kmax) as usize;
    let f = coprime(cx, k);
    let l = cx.range(1, kmax) as usize;
    let t = match cx.below(4) {
        0 => f.clone(),
        1 => { let mut t = f.clone(); let more = coprime(cx, l); for m in more { if t.iter().all(|x| gcd(*x, m) == 1) { t.push(m); } } t }
        2 if k > 1 => f[..cx.range(1, k as u64 - 1) as usize].to_vec(),
        _ => coprime(cx, l),
    };
    let (qf, qt) = (prod(&f), prod(&t));
    let small = |cx: &mut Cx| BigUint::from(cx.range(1, 40));
    let (num, den) = match cx.below(9) {
        0 => (BigUint::one(), BigUint::one()),
        1 => (BigUint::from(cx.range(2, 1 << 20)), qf.clone()),
        2 => (qt, qf),
        3 => (small(cx), small(cx)),
        4 => { let d = BigUint::from(cx.word() | 1); (d.clone(), d) }
        5 => (BigUint::from(cx.word()), BigUint::from(cx.word().max(1))),
        6 => (BigUint::zero(), small(cx)),
        7 => (BigUint::from(cx.word()), BigUint::from(2u32) << cx.below(70)),
        _ => (number(cx, &qf), number(cx, &qf) + 1u32),
    };
    Case { f, t, num, den }
}
fn generic(cx: &mut Cx) -> R {
    let c = case(cx, 5);
    let rests: Vec<u64> = if cx.flip() { c.f.iter().map(|m| cx.residue(*m)).collect() } else {
        let q = prod(&c.f);
        let x = number(cx, &q);
        c.f.iter().map(|m| modb(&x, *m)).collect()
    };
    run(cx, &c, &rests)
}
/// x chosen so that x*num is close to a half multiple of den
fn ties(cx: &mut Cx) -> R {
    let c = case(cx, 4);
    if c.num.is_zero() { cx.trivial = true; return Ok(()); }
    let q = prod(&c.f);
    let h = BigUint::from(cx.u64()) * number(cx, &q) % (&q * &c.num / &c.den + 1u32);
    // x ~ (h + 1/2) den / num
    let x = ((h * 2u32 + 1u32) * &c.den) / (&c.num * 2u32);
    let x = (x + cx.below(3)) % &q;
    let rests: Vec<u64> = c.f.iter().map(|m| modb(&x, *m)).collect();
    run(cx, &c, &rests)
}
/// many wide moduli; residues chosen so that the fractional corrections add up
fn wide(cx: &mut Cx) -> R {
    let k = cx.range(6, if cx.thorough { 48 } else { 36 }) as usize;
    let mut f = vec![];
    let mut ub = 1u64 << 62;
    while f.len() < k { let p = prev_prime(ub, 2).unwrap(); f.push(p); ub = p - cx.below(1 << 30); }
    let t = vec![f[0], prev_prime(1 << 40, 2).unwrap(), prev_prime(1 << 62, 1 << 20).unwrap()];
    let t = if gcd(t[0], t[2]) == 1 { t } else { t[..2].to_vec() };
    let q = prod(&f);
    let (num, den) = match cx.below(3) {
        0 => (BigUint::from(cx.range(2, 1 << 30)), q.clone()),
        1 => (BigUint::from(cx.word()), BigUint::from(cx.word().max(3))),
        _ => (number(cx, &q), q.clone()),
    };
    let mode = cx.below(4);
    let rests: Vec<u64> = f.iter().map(|m| {
        // fractional part of garner_i * num / den, in [-1/2, 1/2)
        let qs = &q / m;
        let g = &qs * inv_mod(modb(&qs, *m), *m).unwrap();
        let y = BigInt::from(g * &num);
        let d = BigInt::from(den.clone());
        let e: BigInt = &y - round_div(&y, &d) * &d;
        match mode { 0 => if e.is_positive() { m - 1 } else { 0 }, 1 => if e.is_negative() { m - 1 } else { 0 }, 2 => m - 1, _ => cx.residue(*m) }
    }).collect();
    run(cx, &Case { f, t, num, den }, &rests)
}
