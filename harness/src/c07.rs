//! C07 polynomial ring operations, C08 modulus switching, C09 substitutions, C10 dot products
//! (polynomials), C20 (polynomial layer).
use crate::fw::*;
use crate::gn::*;
use crate::ring::*;
use crate::{check, check_eq};
use fhe_math::rq::scaler::Scaler;
use fhe_math::rq::switcher::Switcher;
use fhe_math::rq::traits::TryConvertFrom;
use fhe_math::rq::{dot_product, Context, Ntt, NttShoup, Poly, PowerBasis, RepresentationTag, SubstitutionExponent};
use fhe_math::rns::ScalingFactor;
use fhe_traits::{PublicData, VariableTime};
use num_bigint::BigUint;
use num_traits::{One, Zero};
use rand::SeedableRng;
use rand_chacha::ChaCha8Rng;
use std::sync::Arc;

pub fn kinds() -> Vec<Kind> {
    vec![
        Kind { prop: "C07", name: "rq.ops", quick: 40_000, thorough: 300_000, f: ops },
        Kind { prop: "C07", name: "rq.repr", quick: 30_000, thorough: 200_000, f: repr },
        Kind { prop: "C07", name: "rq.convert", quick: 30_000, thorough: 200_000, f: convert },
        Kind { prop: "C07", name: "rq.lazy", quick: 15_000, thorough: 100_000, f: lazy },
        Kind { prop: "C07", name: "rq.context", quick: 15_000, thorough: 100_000, f: context },
        Kind { prop: "C06", name: "scale.poly", quick: 20_000, thorough: 100_000, f: scale_poly },
        Kind { prop: "C08", name: "rq.switch_down", quick: 40_000, thorough: 300_000, f: switch_down },
        Kind { prop: "C08", name: "rq.levels", quick: 5_000, thorough: 80_000, f: levels },
        Kind { prop: "C09", name: "rq.substitute", quick: 40_000, thorough: 300_000, f: substitute },
        Kind { prop: "C09", name: "rq.shift", quick: 30_000, thorough: 300_000, f: shift },
        Kind { prop: "C10", name: "rq.dot", quick: 30_000, thorough: 150_000, f: dot },
        Kind { prop: "C10", name: "rq.dot_errors", quick: 2_000, thorough: 50_000, f: dot_errors },
        Kind { prop: "C20", name: "vt.rq", quick: 30_000, thorough: 400_000, f: vt },
        Kind { prop: "C19", name: "mix.rq", quick: 10_000, thorough: 100_000, f: mix_rq },
    ]
}
pub fn vtok() -> VariableTime { VariableTime::new(PublicData::assert_public()) }
pub fn lo_bits(n: usize) -> u64 { (64 - (2 * n as u64).leading_zeros() as u64 + 3).max(7) }
pub fn ctx_of(cx: &mut Cx, maxk: u64) -> (usize, Vec<u64>, Arc<Context>) {
    let hi = if cx.below(6) == 0 { 6 } else { 4 };
    let n = 1usize << cx.range(3, hi);
    let k = cx.range(1, maxk) as usize;
    let lo = if cx.below(3) == 0 { 58 } else { lo_bits(n) };
    let q = moduli(cx, n, k, lo, 62);
    let ctx = Context::new_arc(&q, n).expect("context");
    (n, q, ctx)
}
fn set_vt<T: RepresentationTag>(p: &mut Poly<T>, vt: bool) {
    if vt { p.allow_variable_time_computations(vtok()) } else { p.disallow_variable_time_computations() }
}
fn scalar(cx: &mut Cx, q: &[u64]) -> BigUint {
    let m = prod(q);
    match cx.below(6) {
        0 => BigUint::zero(),
        1 => BigUint::one(),
        2 => m - 1u32,
        3 => m + cx.below(5),
        4 => BigUint::from(cx.word()),
        _ => (BigUint::from(cx.u64()) * BigUint::from(cx.u64()) << (cx.below(64) as usize)) + cx.u64(),
    }
}
fn ops(cx: &mut Cx) -> R {
    let (n, q, ctx) = ctx_of(cx, 3);
    let (a, b) = (Rp::random(cx, &q, n), Rp::random(cx, &q, n));
    let (va, vb) = (cx.flip(), cx.flip());
    let s = scalar(cx, &q);
    cx.note(format!("n={n} vt={va},{vb} s={s} a={a:?} b={b:?}"));
    let (sum, dif, neg, mul, sc) = (a.add(&b), a.sub(&b), a.neg(), a.mul(&b), a.scale(&s));
    {
        let (mut x, mut y) = (a.pb(&ctx), b.pb(&ctx));
        set_vt(&mut x, va); set_vt(&mut y, vb);
        let mut z = x.clone(); z += &y;
        check_eq!(Rp::of_pb(&z)?, sum, "PowerBasis +=");
        check_eq!(Rp::of_pb(&(&x + &y))?, sum, "&PowerBasis + &PowerBasis");
        check_eq!(Rp::of_pb(&(x.clone() + y.clone()))?, sum, "PowerBasis + PowerBasis");
        let mut z = x.clone(); z -= &y;
        check_eq!(Rp::of_pb(&z)?, dif, "PowerBasis -=");
        check_eq!(Rp::of_pb(&(&x - &y))?, dif, "&PowerBasis - &PowerBasis");
        check_eq!(Rp::of_pb(&-&x)?, neg, "-&PowerBasis");
        check_eq!(Rp::of_pb(&-x.clone())?, neg, "-PowerBasis");
        let mut z = x.clone(); z *= &s;
        check_eq!(Rp::of_pb(&z)?, sc, "PowerBasis *= scalar");
        check_eq!(Rp::of_pb(&(&x * &s))?, sc, "&PowerBasis * scalar");
        check_eq!(Rp::of_pb(&(&s * &x))?, sc, "scalar * &PowerBasis");
        check_eq!(Rp::of_pb(&x)?, a, "left operand changed");
        check_eq!(Rp::of_pb(&y)?, b, "right operand changed");
    }
    {
        let (mut x, mut y) = (a.ntt(&ctx), b.ntt(&ctx));
        set_vt(&mut x, va); set_vt(&mut y, vb);
        let mut z = x.clone(); z += &y;
        check_eq!(Rp::of_ntt(&z)?, sum, "Ntt +=");
        check_eq!(Rp::of_ntt(&(&x + &y))?, sum, "&Ntt + &Ntt");
        check_eq!(Rp::of_ntt(&(x.clone() + y.clone()))?, sum, "Ntt + Ntt");
        let mut z = x.clone(); z -= &y;
        check_eq!(Rp::of_ntt(&z)?, dif, "Ntt -=");
        check_eq!(Rp::of_ntt(&(&x - &y))?, dif, "&Ntt - &Ntt");
        check_eq!(Rp::of_ntt(&-&x)?, neg, "-&Ntt");
        check_eq!(Rp::of_ntt(&-x.clone())?, neg, "-Ntt");
        let mut z = x.clone(); z *= &y;
        check_eq!(Rp::of_ntt(&z)?, mul, "Ntt *= Ntt");
        check_eq!(Rp::of_ntt(&(&x * &y))?, mul, "&Ntt * &Ntt");
        let mut z = x.clone(); z *= &s;
        check_eq!(Rp::of_ntt(&z)?, sc, "Ntt *= scalar");
        check_eq!(Rp::of_ntt(&(&x * &s))?, sc, "&Ntt * scalar");
        check_eq!(Rp::of_ntt(&(&s * &x))?, sc, "scalar * &Ntt");
        let mut ys = b.shoup(&ctx);
        set_vt(&mut ys, vb);
        let mut z = x.clone(); z *= &ys;
        check_eq!(Rp::of_ntt(&z)?, mul, "Ntt *= NttShoup");
        check_eq!(Rp::of_ntt(&(&x * &ys))?, mul, "&Ntt * &NttShoup");
        check_eq!(Rp::of_ntt(&x)?, a, "left operand changed");
        check_eq!(Rp::of_ntt(&y)?, b, "right operand changed");
        check_eq!(Rp::of_shoup(&ys)?, b, "Shoup operand changed");
    }
    Ok(())
}
enum Any { P(Poly<PowerBasis>), N(Poly<Ntt>), S(Poly<NttShoup>) }
impl Any {
    fn rp(&self) -> Result<Rp, String> { match self { Any::P(p) => Rp::of_pb(p), Any::N(p) => Rp::of_ntt(p), Any::S(p) => Rp::of_shoup(p) } }
    fn vt(&self) -> bool { match self { Any::P(p) => p.allows_variable_time_computations(), Any::N(p) => p.allows_variable_time_computations(), Any::S(p) => p.allows_variable_time_computations() } }
}
fn repr(cx: &mut Cx) -> R {
    let (n, q, ctx) = ctx_of(cx, 3);
    let a = Rp::random(cx, &q, n);
    let vt = cx.flip();
    let mut p = a.pb(&ctx);
    set_vt(&mut p, vt);
    let steps: Vec<u64> = (0..cx.range(2, 7)).map(|_| cx.below(4)).collect();
    cx.note(format!("n={n} vt={vt} steps={steps:?} a={a:?}"));
    let w = a.shoup(&ctx); // reference Shoup form, for its internal table
    let reference = &a.ntt(&ctx) * &w;
    let mut x = Any::P(p);
    for s in steps {
        x = match (x, s) {
            (Any::P(p), 0) => Any::P(p.to_power_basis()),
            (Any::P(p), 1) => Any::N(p.into_ntt()),
            (Any::P(p), _) => Any::S(p.into_ntt_shoup()),
            (Any::N(p), 0) => Any::P(p.to_power_basis()),
            (Any::N(p), 1) => Any::P(p.into_power_basis()),
            (Any::N(p), _) => Any::S(p.into_ntt_shoup()),
            (Any::S(p), 0) => Any::P(p.to_power_basis()),
            (Any::S(p), 1) => Any::P(p.into_power_basis()),
            (Any::S(p), _) => Any::N(p.into_ntt()),
        };
        check_eq!(x.rp()?, a, "polynomial after a representation change");
        check_eq!(x.vt(), vt, "variable-time flag after a representation change");
        match &x {
            Any::S(s) => {
                check_eq!(Rp::of_ntt(&(&a.ntt(&ctx) * s))?, Rp::of_ntt(&reference)?, "product with a converted Shoup polynomial");
                check!(*s == w, "Shoup form reached by conversions differs from the direct one");
            }
            Any::N(p) => check!(*p == a.ntt(&ctx), "NTT form reached by conversions differs from the direct one"),
            Any::P(p) => check!(*p == a.pb(&ctx), "coefficient form reached by conversions differs"),
        }
    }
    Ok(())
}
fn convert(cx: &mut Cx) -> R {
    let (n, q, ctx) = ctx_of(cx, 4);
    let vt = cx.flip();
    let m = prod(&q);
    match cx.below(6) {
        0 => {
            let l = match cx.below(3) { 0 => n, 1 => cx.below(n as u64 + 1) as usize, _ => cx.below(3) as usize };
            let v: Vec<i64> = (0..l).map(|_| match cx.below(6) { 0 => i64::MIN, 1 => i64::MAX, 2 => -1, 3 => -(cx.residue(q[0]) as i64), _ => cx.word() as i64 }).collect();
            cx.note(format!("n={n} q={q:?} i64 {v:?}"));
            let e = Rp::from_i64(&q, n, &v);
            check_eq!(Rp::of_pb(&Poly::<PowerBasis>::try_convert_from(v.as_slice(), &ctx, vt).map_err(|e| e.to_string())?)?, e, "from &[i64]");
            check_eq!(Rp::of_pb(&Poly::<PowerBasis>::try_convert_from(&v, &ctx, vt).map_err(|e| e.to_string())?)?, e, "from &Vec<i64>");
            let big: Vec<i64> = vec![1; n + 1 + cx.below(3) as usize];
            check!(Poly::<PowerBasis>::try_convert_from(big.as_slice(), &ctx, vt).is_err(), "more coefficients than the degree accepted");
        }
        1 => {
            let l = match cx.below(3) { 0 => n, 1 => cx.below(n as u64 + 1) as usize, _ => cx.below(3) as usize };
            if l == q.len() * n { cx.trivial = true; return Ok(()); }
            let v: Vec<u64> = (0..l).map(|_| if cx.flip() { let r = cx.residue(q[0]); r.saturating_add(cx.below(3) * q[0]) } else { cx.word() }).collect();
            cx.note(format!("n={n} q={q:?} u64 {v:?}"));
            let e = Rp::from_big(&q, n, &v.iter().map(|x| BigUint::from(*x)).collect::<Vec<_>>());
            check_eq!(Rp::of_pb(&Poly::<PowerBasis>::try_convert_from(v.clone(), &ctx, vt).map_err(|e| e.to_string())?)?, e, "from Vec<u64>");
            check_eq!(Rp::of_pb(&Poly::<PowerBasis>::try_convert_from(v.as_slice(), &ctx, vt).map_err(|e| e.to_string())?)?, e, "from &[u64]");
            check_eq!(Rp::of_pb(&Poly::<PowerBasis>::try_convert_from(&v, &ctx, vt).map_err(|e| e.to_string())?)?, e, "from &Vec<u64>");
            let p = Poly::<PowerBasis>::try_convert_from_public(v.as_slice(), &ctx, vtok()).map_err(|e| e.to_string())?;
            check_eq!(Rp::of_pb(&p)?, e, "try_convert_from_public");
            let bad = cx.range(n as u64 + 1, (q.len() * n) as u64 + 3) as usize;
            if bad != q.len() * n {
                check!(Poly::<PowerBasis>::try_convert_from(vec![0u64; bad], &ctx, vt).is_err(), "{bad} coefficients accepted");
                check!(Poly::<Ntt>::try_convert_from(vec![0u64; bad], &ctx, vt).is_err(), "{bad} NTT coefficients accepted");
                check!(Poly::<NttShoup>::try_convert_from(vec![0u64; bad], &ctx, vt).is_err(), "{bad} Shoup coefficients accepted");
            }
        }
        2 => {
            let l = cx.below(n as u64 + 1) as usize;
            let v: Vec<BigUint> = (0..l).map(|_| match cx.below(5) { 0 => &m - 1u32, 1 => m.clone(), 2 => &m * 3u32 + 1u32, _ => { let r = Rp::random(cx, &q, 1); r.lift()[0].clone() } }).collect();
            cx.note(format!("n={n} q={q:?} big {v:?}"));
            let e = Rp::from_big(&q, n, &v);
            check_eq!(Rp::of_pb(&Poly::<PowerBasis>::try_convert_from(v.as_slice(), &ctx, vt).map_err(|e| e.to_string())?)?, e, "PowerBasis from &[BigUint]");
            check_eq!(Rp::of_ntt(&Poly::<Ntt>::try_convert_from(v.as_slice(), &ctx, vt).map_err(|e| e.to_string())?)?, e, "Ntt from &[BigUint]");
            check_eq!(Rp::of_shoup(&Poly::<NttShoup>::try_convert_from(v.as_slice(), &ctx, vt).map_err(|e| e.to_string())?)?, e, "NttShoup from &[BigUint]");
            check!(Poly::<PowerBasis>::try_convert_from(vec![BigUint::zero(); n + 1].as_slice(), &ctx, vt).is_err(), "too many coefficients accepted");
        }
        3 => {
            let a = Rp::random(cx, &q, n);
            cx.note(format!("a={a:?}"));
            check_eq!(Vec::<BigUint>::from(&a.pb(&ctx)), a.lift(), "Vec<BigUint> from PowerBasis");
            check_eq!(Vec::<u64>::try_from(&a.pb(&ctx)).map_err(|e| e.to_string())?, a.r.concat(), "Vec<u64> from PowerBasis");
            let x = Poly::<Ntt>::try_convert_from(a.array(), &ctx, vt).map_err(|e| e.to_string())?;
            let y = Poly::<Ntt>::try_convert_from(a.r.concat(), &ctx, vt).map_err(|e| e.to_string())?;
            check!(x == y, "Ntt from Array2 and from Vec differ");
            check_eq!(Vec::<u64>::try_from(&x).map_err(|e| e.to_string())?, a.r.concat(), "Ntt coefficients");
            let x = Poly::<NttShoup>::try_convert_from(a.array(), &ctx, vt).map_err(|e| e.to_string())?;
            let y = Poly::<NttShoup>::try_convert_from(a.r.concat(), &ctx, vt).map_err(|e| e.to_string())?;
            check!(x == y, "NttShoup from Array2 and from Vec differ");
            let b = Rp::random(cx, &q, n);
            let z = Rp::of_ntt(&(&b.ntt(&ctx) * &x))?;
            check_eq!(z, b.mul(&Rp::of_ntt(&x.into_ntt())?), "product with a Shoup polynomial built from its coefficients");
            let w = a.array();
            let w = w.slice(ndarray::s![.., ..n - 1]).to_owned();
            check!(Poly::<PowerBasis>::try_convert_from(w.clone(), &ctx, vt).is_err() && Poly::<Ntt>::try_convert_from(w.clone(), &ctx, vt).is_err() && Poly::<NttShoup>::try_convert_from(w, &ctx, vt).is_err(), "wrong shape accepted");
        }
        4 => {
            let mut seed = [0u8; 32];
            for b in seed.iter_mut() { *b = cx.u64() as u8; }
            cx.note(format!("n={n} q={q:?} seed={seed:?}"));
            let x = Poly::<Ntt>::random_from_seed(&ctx, seed);
            check!(x == Poly::<Ntt>::random_from_seed(&ctx, seed), "random_from_seed is not deterministic");
            Rp::of_ntt(&x)?;
            let s = Poly::<NttShoup>::random_from_seed(&ctx, seed);
            let b = Rp::random(cx, &q, n);
            check_eq!(Rp::of_ntt(&(&b.ntt(&ctx) * &s))?, b.mul(&Rp::of_ntt(&x)?), "Shoup random_from_seed");
            let mut seed2 = seed; seed2[cx.below(32) as usize] ^= 1 << cx.below(8);
            check!(x != Poly::<Ntt>::random_from_seed(&ctx, seed2), "two seeds give the same polynomial");
            let mut rng = ChaCha8Rng::from_seed(seed);
            Rp::of_pb(&Poly::<PowerBasis>::random(&ctx, &mut rng))?;
            Rp::of_ntt(&Poly::<Ntt>::random(&ctx, &mut rng))?;
            let s = Poly::<NttShoup>::random(&ctx, &mut rng);
            check_eq!(Rp::of_ntt(&(&b.ntt(&ctx) * &s))?, b.mul(&Rp::of_shoup(&s)?), "Shoup random");
        }
        _ => {
            cx.note(format!("n={n} q={q:?} zero"));
            let z = Rp::zero(&q, n);
            let a = Rp::random(cx, &q, n);
            check_eq!(Rp::of_pb(&Poly::<PowerBasis>::zero(&ctx))?, z, "zero");
            check_eq!(Rp::of_ntt(&Poly::<Ntt>::zero(&ctx))?, z, "zero");
            check_eq!(Rp::of_ntt(&(&a.ntt(&ctx) * &Poly::<NttShoup>::zero(&ctx)))?, z, "a * 0");
        }
    }
    Ok(())
}
fn lazy(cx: &mut Cx) -> R {
    let (n, q, ctx) = ctx_of(cx, 3);
    let v: Vec<u64> = (0..n).map(|_| cx.word()).collect();
    let b = Rp::random(cx, &q, n);
    let vb = cx.flip();
    cx.note(format!("n={n} q={q:?} v={v:?} b={b:?}"));
    let x = Poly::<Ntt>::create_constant_ntt_polynomial_with_lazy_coefficients_and_variable_time(&v, &ctx, vtok());
    let mut s = b.shoup(&ctx);
    set_vt(&mut s, vb);
    let e = Rp::from_big(&q, n, &v.iter().map(|x| BigUint::from(*x)).collect::<Vec<_>>()).mul(&b);
    let y = &x * &s;
    check_eq!(Rp::of_ntt(&y)?, e, "lazy polynomial times Shoup polynomial");
    check_eq!(y.allows_variable_time_computations(), vb, "flag of a lazy product");
    let mut z = y.clone();
    z += &y; // no longer lazy: every operation allowed
    check_eq!(Rp::of_ntt(&z)?, e.add(&e), "sum of lazy products");
    Ok(())
}
/// Context::new accepts exactly powers of two >= 8 with NTT-friendly distinct prime moduli
fn context(cx: &mut Cx) -> R {
    let n = match cx.below(8) { 0 => cx.below(20) as usize, 1 => 1 << cx.below(3), 2 => 24, _ => 1 << cx.range(3, 6) };
    let nn = n.next_power_of_two().max(8);
    let k = cx.range(1, 3) as usize;
    let mut q = moduli(cx, nn, k, lo_bits(nn), 62);
    let i = cx.below(q.len() as u64) as usize;
    match cx.below(8) {
        0 => { let j = cx.below(q.len() as u64) as usize; q[i] = q[j]; }
        1 => q[i] = q[i].wrapping_add(2 * nn as u64),
        2 => q[i] = prev_prime(1 << cx.range(6, 62), 2).unwrap_or(3),
        3 => q[i] = 1 + 2 * nn as u64 * cx.below(50),
        4 => q.clear(),
        _ => {}
    }
    cx.note(format!("n={n} q={q:?}"));
    let ok = n >= 8 && n.is_power_of_two() && !q.is_empty()
        && q.iter().all(|x| *x < 1 << 62 && is_prime_u64(*x) && x % (2 * n as u64) == 1)
        && (0..q.len()).all(|i| (0..i).all(|j| q[i] != q[j]));
    let c = Context::new(&q, n);
    check_eq!(c.is_ok(), ok, "Context::new succeeds");
    if let Ok(c) = c {
        check_eq!(c.moduli(), &q[..], "moduli");
        check_eq!(*c.modulus(), prod(&q), "modulus");
        check_eq!(c.moduli_operators().iter().map(|m| **m).collect::<Vec<u64>>(), q, "operators");
    }
    Ok(())
}
fn scale_poly(cx: &mut Cx) -> R {
    let n = 1usize << cx.range(3, 4);
    let kf = cx.range(1, 4) as usize;
    let kt = cx.range(1, 4) as usize;
    let lo = if cx.below(3) == 0 { 55 } else { lo_bits(n) };
    let all = moduli(cx, n, kf + kt, lo, 62);
    let from: Vec<u64> = all[..kf].to_vec();
    let shared = if cx.flip() { cx.below(kf.min(kt) as u64 + 1) as usize } else { 0 };
    let mut to: Vec<u64> = from[..shared].to_vec();
    to.extend(&all[kf..kf + kt - shared]);
    let (cf, ct) = (Context::new_arc(&from, n).expect("context"), Context::new_arc(&to, n).expect("context"));
    let (fm, tm) = (prod(&from), prod(&to));
    let (num, den) = match cx.below(4) { 0 => (BigUint::one(), BigUint::one()), 1 => (tm.clone(), fm.clone()), 2 => (BigUint::from(cx.range(1, 1 << 20)), fm.clone()), _ => (BigUint::from(cx.range(1, 1 << 20)), BigUint::from(cx.range(1, 1 << 20))) };
    let a = Rp::random(cx, &from, n);
    let vt = cx.flip();
    cx.note(format!("n={n} to={to:?} factor={num}/{den} vt={vt} a={a:?}"));
    let switcher = num == tm && den == fm && cx.flip();
    let sc = Scaler::new(&cf, &ct, ScalingFactor::new(&num, &den)).map_err(|e| e.to_string())?;
    let sw = Switcher::new(&cf, &ct).map_err(|e| e.to_string())?;
    let mut p = a.pb(&cf);
    set_vt(&mut p, vt);
    let pn = p.clone().into_ntt();
    let (x, y) = if switcher { (p.switch(&sw), pn.switch(&sw)) } else { (p.scale(&sc), pn.scale(&sc)) };
    let (x, y) = (x.map_err(|e| e.to_string())?, y.map_err(|e| e.to_string())?);
    check_eq!(x.allows_variable_time_computations(), vt, "flag of a scaled polynomial");
    check_eq!(y.allows_variable_time_computations(), vt, "flag of a scaled NTT polynomial");
    let got = Rp::of_pb(&x)?;
    check!(got == Rp::of_ntt(&y)?, "scaling in NTT form disagrees with coefficient form");
    check_eq!(Rp::of_pb(&p)?, a, "scaled operand changed");
    for (i, l) in a.lift().iter().enumerate() {
        let col: Vec<u64> = got.r.iter().map(|r| r[i]).collect();
        if !crate::c05::accepted(l, &fm, &num, &den).iter().any(|r| col.iter().zip(&to).all(|(y, p)| *y == bmod(r, *p))) {
            return Err(format!("coefficient {i}: x={l} scaled by {num}/{den} gives {col:?}"));
        }
    }
    if num == den {
        for j in 0..shared { check_eq!(got.r[j], a.r[j], "shared modulus {j}, factor one"); }
    }
    let other = Context::new_arc(&from, 2 * n);
    if let Ok(o) = other { check!(Scaler::new(&o, &ct, ScalingFactor::one()).is_err(), "scaler between different degrees"); }
    if from != to {
        let w = Rp::random(cx, &to, n);
        check!(w.pb(&ct).scale(&sc).is_err() && w.ntt(&ct).scale(&sc).is_err(), "scaler applied to a polynomial of another context");
    }
    Ok(())
}
/// rounding of x*Q'/Q modulo Q' as implemented: (x + floor(q/2)) / q rounded down, i.e. to nearest
fn drop_last(a: &Rp) -> Rp {
    let k = a.q.len() - 1;
    let ql = BigUint::from(a.q[k]);
    let h = BigUint::from(a.q[k] / 2);
    let v: Vec<BigUint> = a.lift().iter().map(|x| (x + &h) / &ql).collect();
    Rp::from_big(&a.q[..k], a.n, &v)
}
/// values near the rounding boundaries of the division by the last modulus
fn boundary(cx: &mut Cx, q: &[u64], n: usize) -> Rp {
    let m = prod(q);
    let ql = *q.last().unwrap();
    let v: Vec<BigUint> = (0..n).map(|_| {
        let base = match cx.below(4) { 0 => BigUint::zero(), 1 => (&m / ql) - 1u32, _ => { let r = Rp::random(cx, q, 1).lift()[0].clone(); r / ql } };
        let off = match cx.below(5) { 0 => ql / 2, 1 => ql / 2 + 1, 2 => ql - 1, 3 => 0, _ => cx.residue(ql) };
        (base * ql + off) % &m
    }).collect();
    Rp::from_big(q, n, &v)
}
fn switch_down(cx: &mut Cx) -> R {
    let (n, q, ctx) = ctx_of(cx, 5);
    let a = if cx.flip() { boundary(cx, &q, n) } else { Rp::random(cx, &q, n) };
    let vt = cx.flip();
    cx.note(format!("n={n} vt={vt} a={a:?}"));
    let mut p = a.pb(&ctx);
    set_vt(&mut p, vt);
    if q.len() == 1 {
        check!(p.switch_down().is_err(), "switch_down on the last context");
        check_eq!(Rp::of_pb(&p)?, a, "refused switch_down changed the polynomial");
        check!(p.switch_down_to(&ctx).is_ok(), "switch_down_to the own context");
        check_eq!(Rp::of_pb(&p)?, a, "switch_down_to the own context changed the polynomial");
        return Ok(());
    }
    let mut e = a.clone();
    let steps = cx.range(1, q.len() as u64 - 1) as usize;
    let mut w = p.clone();
    for i in 0..steps {
        e = drop_last(&e);
        p.switch_down().map_err(|e| e.to_string())?;
        check_eq!(Rp::of_pb(&p)?, e, "switch_down step {i}");
        check_eq!(p.ctx().moduli(), &q[..q.len() - 1 - i], "moduli after switch_down");
        check_eq!(p.allows_variable_time_computations(), vt, "flag after switch_down");
    }
    let target = ctx.context_at_level(steps).map_err(|e| e.to_string())?;
    w.switch_down_to(&target).map_err(|e| e.to_string())?;
    check_eq!(Rp::of_pb(&w)?, e, "switch_down_to {steps} levels");
    check!(**w.ctx() == *target, "context after switch_down_to");
    // NTT form survives the round trip at the new level
    check_eq!(Rp::of_ntt(&w.into_ntt())?, e, "NTT at the lower level");
    Ok(())
}
fn levels(cx: &mut Cx) -> R {
    let (n, q, ctx) = ctx_of(cx, 5);
    cx.note(format!("n={n} q={q:?}"));
    for l in 0..q.len() + 2 {
        let c = ctx.context_at_level(l);
        check_eq!(c.is_ok(), l < q.len(), "context_at_level({l}) exists");
        if let Ok(c) = c {
            check_eq!(c.moduli(), &q[..q.len() - l], "moduli at level {l}");
            check_eq!(ctx.niterations_to(&c).ok(), Some(l), "niterations_to level {l}");
            let fresh = Context::new_arc(&q[..q.len() - l], n).unwrap();
            check!(*c == *fresh, "context at level {l} differs from a fresh one");
            check_eq!(ctx.niterations_to(&fresh).ok(), Some(l), "niterations_to a fresh context at level {l}");
            for k in 0..l {
                let d = ctx.context_at_level(k).unwrap();
                check_eq!(d.niterations_to(&c).ok(), Some(l - k), "niterations_to from level {k} to {l}");
                check!(c.niterations_to(&d).is_err(), "niterations_to going up");
                let mut p = Rp::random(cx, &q[..q.len() - l], n).pb(&c);
                let before = p.clone();
                check!(p.switch_down_to(&d).is_err(), "switch_down_to a larger context");
                check!(p == before, "refused switch_down_to changed the polynomial");
            }
        }
    }
    if q.len() > 1 {
        let other = Context::new_arc(&q[1..], n).unwrap();
        check!(ctx.niterations_to(&other).is_err(), "unrelated context reachable");
        let a = Rp::random(cx, &q, n);
        let mut p = a.pb(&ctx);
        check!(p.switch_down_to(&other).is_err(), "switch_down_to an unrelated context");
        check_eq!(Rp::of_pb(&p)?, a, "refused switch_down_to changed the polynomial");
    }
    Ok(())
}
fn substitute(cx: &mut Cx) -> R {
    let (n, q, ctx) = ctx_of(cx, 2);
    let a = Rp::random(cx, &q, n);
    let vt = cx.flip();
    let big = |cx: &mut Cx| -> usize { match cx.below(5) { 0 => 2 * n - 1, 1 => n + 1, 2 => cx.below(200 * n as u64) as usize, 3 => 1, _ => cx.below(2 * n as u64) as usize } };
    let (e, f) = (big(cx), big(cx) | 1);
    cx.note(format!("n={n} vt={vt} e={e} f={f} a={a:?}"));
    let s = SubstitutionExponent::new(&ctx, e);
    check_eq!(s.is_ok(), e % 2 == 1, "exponent {e} accepted");
    let Ok(s) = s else { return Ok(()) };
    check_eq!(s.exponent, e % (2 * n), "stored exponent");
    let want = a.subst(e);
    let mut p = a.pb(&ctx);
    set_vt(&mut p, vt);
    let pn = p.clone().into_ntt();
    let ps = p.clone().into_ntt_shoup();
    let x = p.substitute(&s).map_err(|e| e.to_string())?;
    let y = pn.substitute(&s).map_err(|e| e.to_string())?;
    let z = ps.substitute(&s).map_err(|e| e.to_string())?;
    check_eq!(Rp::of_pb(&x)?, want, "substitution in coefficient form");
    check_eq!(Rp::of_ntt(&y)?, want, "substitution in NTT form");
    check_eq!(Rp::of_shoup(&z)?, want, "substitution in Shoup form");
    let b = Rp::random(cx, &q, n);
    check_eq!(Rp::of_ntt(&(&b.ntt(&ctx) * &z))?, b.mul(&want), "product with a substituted Shoup polynomial");
    check!(x.allows_variable_time_computations() == vt && y.allows_variable_time_computations() == vt && z.allows_variable_time_computations() == vt, "flag after substitution");
    check_eq!(Rp::of_pb(&p)?, a, "substituted operand changed");
    let t = SubstitutionExponent::new(&ctx, f).map_err(|e| e.to_string())?;
    let c = SubstitutionExponent::new(&ctx, e % (2 * n) * (f % (2 * n))).map_err(|e| e.to_string())?;
    check!(y.substitute(&t).unwrap() == pn.substitute(&c).unwrap(), "substitutions compose");
    check!(x.substitute(&t).unwrap() == p.substitute(&c).unwrap(), "substitutions compose");
    Ok(())
}
fn shift(cx: &mut Cx) -> R {
    let (n, q, ctx) = ctx_of(cx, 3);
    let a = Rp::random(cx, &q, n);
    let k = match cx.below(8) { 0 => 0, 1 => n, 2 => 2 * n, 3 => 2 * n - 1, 4 => 2 * n + cx.below(5 * n as u64) as usize, 5 => cx.word() as usize, _ => cx.below(2 * n as u64) as usize };
    let vt = cx.flip();
    cx.note(format!("n={n} k={k} a={a:?}"));
    let mut p = a.pb(&ctx);
    set_vt(&mut p, vt);
    p.multiply_inverse_power_of_x(k).map_err(|e| e.to_string())?;
    check_eq!(Rp::of_pb(&p)?, a.mulx(2 * n - k % (2 * n)), "multiplication by X^-{k}");
    check_eq!(p.allows_variable_time_computations(), vt, "flag after a shift");
    check_eq!(Rp::of_ntt(&p.into_ntt())?, a.mulx(2 * n - k % (2 * n)), "NTT of a shifted polynomial");
    Ok(())
}
fn dot(cx: &mut Cx) -> R {
    let n = 8usize;
    let k = cx.range(1, 3) as usize;
    let lo = if cx.below(4) < 3 { 57 } else { lo_bits(n) };
    let q = moduli(cx, n, k, lo, 62);
    let ctx = Context::new_arc(&q, n).expect("context");
    let m = match cx.below(5) { 0 => cx.range(1, 4), 1 => 15 + cx.below(4), 2 => 16 * cx.range(1, 5) + cx.below(3), 3 => cx.range(60, 70), _ => cx.range(1, 40) } as usize;
    let top = cx.below(3) == 0;
    let a: Vec<Poly<Ntt>> = (0..m).map(|_| {
        let r = if top { Rp { q: q.clone(), n, r: q.iter().map(|p| vec![p - 1; n]).collect() } } else { Rp::random(cx, &q, n) };
        Poly::<Ntt>::try_convert_from(r.array(), &ctx, false).unwrap()
    }).collect();
    let mut a = a;
    let mut b: Vec<Poly<Ntt>> = if top { a.clone() } else { (0..m).map(|_| Poly::<Ntt>::try_convert_from(Rp::random(cx, &q, n).array(), &ctx, false).unwrap()).collect() };
    let allvt = cx.flip();
    for p in a.iter_mut().chain(b.iter_mut()) { set_vt(p, allvt); }
    let mut exp_vt = allvt;
    if allvt && cx.below(3) == 0 { let i = cx.below(m as u64) as usize; if cx.flip() { set_vt(&mut a[i], false) } else { set_vt(&mut b[i], false) }; exp_vt = false; }
    cx.note(format!("n={n} q={q:?} terms={m} top={top} vt={allvt}/{exp_vt}"));
    let r = dot_product(a.iter(), b.iter()).map_err(|e| e.to_string())?;
    let got = Vec::<u64>::try_from(&r).map_err(|e| e.to_string())?;
    let mut want = vec![0u64; q.len() * n];
    for (x, y) in a.iter().zip(&b) {
        let (x, y) = (Vec::<u64>::try_from(x).unwrap(), Vec::<u64>::try_from(y).unwrap());
        for j in 0..want.len() { let p = q[j / n]; want[j] = addmod(want[j], mulmod(x[j], y[j], p), p); }
    }
    check_eq!(got, want, "dot product of {m} terms");
    check_eq!(r.allows_variable_time_computations(), exp_vt, "flag of a dot product");
    Ok(())
}
fn dot_errors(cx: &mut Cx) -> R {
    let (n, q, ctx) = ctx_of(cx, 2);
    let (la, lb) = (cx.below(4) as usize, cx.below(4) as usize);
    let mk = |cx: &mut Cx, l: usize| -> Vec<Poly<Ntt>> { (0..l).map(|_| Rp::random(cx, &q, n).ntt(&ctx)).collect() };
    let (mut a, mut b) = (mk(cx, la), mk(cx, lb));
    let other = Context::new_arc(&moduli(cx, n, q.len() + 1, lo_bits(n), 62), n).unwrap();
    let mut bad = false;
    if cx.flip() && la > 0 { let i = cx.below(la as u64) as usize; a[i] = Poly::<Ntt>::zero(&other); bad = true; }
    if cx.flip() && lb > 0 { let i = cx.below(lb as u64) as usize; b[i] = Poly::<Ntt>::zero(&other); bad = true; }
    let all_other = a.iter().chain(&b).all(|p| **p.ctx() == *other);
    cx.note(format!("lengths {la},{lb} mixed={bad}"));
    let ok = la > 0 && la == lb && (!bad || all_other);
    check_eq!(dot_product(a.iter(), b.iter()).is_ok(), ok, "dot product accepted");
    Ok(())
}
/// every polynomial operation: the result permits variable time iff every operand did
fn vt(cx: &mut Cx) -> R {
    let (n, q, ctx) = ctx_of(cx, 2);
    let (va, vb) = (cx.flip(), cx.flip());
    let (a, b) = (Rp::random(cx, &q, n), Rp::random(cx, &q, n));
    let s = scalar(cx, &q);
    cx.note(format!("n={n} q={q:?} vt={va},{vb}"));
    let both = va && vb;
    macro_rules! fl { ($p:expr, $e:expr, $w:expr) => {{ let p = $p; check_eq!(p.allows_variable_time_computations(), $e, "permission after {}", $w); }}; }
    let (mut x, mut y) = (a.pb(&ctx), b.pb(&ctx));
    fl!(&x, false, "building a polynomial");
    set_vt(&mut x, va); set_vt(&mut y, vb);
    fl!(x.clone(), va, "clone");
    fl!(&x + &y, both, "&a + &b"); fl!(x.clone() + y.clone(), both, "a + b"); fl!(&x - &y, both, "&a - &b");
    let mut z = x.clone(); z += &y; fl!(&z, both, "+=");
    let mut z = x.clone(); z -= &y; fl!(&z, both, "-=");
    fl!(-&x, va, "-&a"); fl!(-x.clone(), va, "-a"); fl!(&x * &s, va, "scalar"); fl!(&s * &x, va, "scalar");
    let mut z = x.clone(); z *= &s; fl!(&z, va, "*= scalar");
    let (xn, yn) = (x.clone().into_ntt(), y.clone().into_ntt());
    let (xs, ys) = (x.clone().into_ntt_shoup(), y.clone().into_ntt_shoup());
    fl!(&xn, va, "into_ntt"); fl!(&xs, va, "into_ntt_shoup"); fl!(xs.clone().into_ntt(), va, "shoup into_ntt");
    fl!(xs.to_power_basis(), va, "shoup to_power_basis"); fl!(xn.to_power_basis(), va, "ntt to_power_basis"); fl!(xn.clone().into_ntt_shoup(), va, "ntt into shoup");
    fl!(x.to_power_basis(), va, "to_power_basis");
    fl!(&xn + &yn, both, "ntt +"); fl!(xn.clone() + yn.clone(), both, "ntt a + b"); fl!(&xn - &yn, both, "ntt -"); fl!(&xn * &yn, both, "ntt *"); fl!(&xn * &ys, both, "ntt * shoup");
    let mut z = xn.clone(); z += &yn; fl!(&z, both, "ntt +="); 
    let mut z = xn.clone(); z -= &yn; fl!(&z, both, "ntt -=");
    let mut z = xn.clone(); z *= &yn; fl!(&z, both, "ntt *=");
    let mut z = xn.clone(); z *= &ys; fl!(&z, both, "ntt *= shoup");
    fl!(-&xn, va, "ntt neg"); fl!(-xn.clone(), va, "ntt neg"); fl!(&xn * &s, va, "ntt scalar"); fl!(&s * &xn, va, "ntt scalar");
    let mut z = xn.clone(); z *= &s; fl!(&z, va, "ntt *= scalar");
    fl!(dot_product([&xn, &yn].into_iter(), [&yn, &yn].into_iter()).unwrap(), both, "dot product");
    fl!(dot_product([&yn, &yn].into_iter(), [&yn, &xn].into_iter()).unwrap(), both, "dot product");
    let e = SubstitutionExponent::new(&ctx, 2 * cx.below(n as u64) as usize + 1).unwrap();
    fl!(x.substitute(&e).unwrap(), va, "substitute"); fl!(xn.substitute(&e).unwrap(), va, "ntt substitute"); fl!(xs.substitute(&e).unwrap(), va, "shoup substitute");
    let mut z = x.clone(); z.multiply_inverse_power_of_x(cx.below(2 * n as u64) as usize).unwrap(); fl!(&z, va, "shift");
    if q.len() > 1 { let mut z = x.clone(); z.switch_down().unwrap(); fl!(&z, va, "switch_down"); let t = ctx.context_at_level(1).unwrap(); let mut z = x.clone(); z.switch_down_to(&t).unwrap(); fl!(&z, va, "switch_down_to"); }
    let sw = Switcher::new(&ctx, &ctx).unwrap();
    fl!(x.switch(&sw).unwrap(), va, "switch"); fl!(xn.switch(&sw).unwrap(), va, "switch ntt");
    // sources
    let mut rng = cx.fork();
    fl!(Poly::<PowerBasis>::random(&ctx, &mut rng), false, "random"); fl!(Poly::<Ntt>::random(&ctx, &mut rng), false, "random"); fl!(Poly::<NttShoup>::random(&ctx, &mut rng), false, "random");
    fl!(Poly::<Ntt>::random_from_seed(&ctx, [7; 32]), false, "random_from_seed");
    fl!(Poly::<PowerBasis>::small(&ctx, 10, &mut rng).unwrap(), false, "small"); fl!(Poly::<Ntt>::small(&ctx, 10, &mut rng).unwrap(), false, "small"); fl!(Poly::<NttShoup>::small(&ctx, 10, &mut rng).unwrap(), false, "small");
    fl!(Poly::<PowerBasis>::zero(&ctx), false, "zero"); fl!(Poly::<NttShoup>::zero(&ctx), false, "zero");
    let v: Vec<u64> = a.r[0].clone();
    let vi: Vec<i64> = v.iter().map(|x| (*x % 1000) as i64 - 500).collect();
    let vb2: Vec<BigUint> = v.iter().map(|x| BigUint::from(*x)).collect();
    let va2 = a.r.concat();
    for f in [false, true] {
        fl!(Poly::<PowerBasis>::try_convert_from(v.as_slice(), &ctx, f).unwrap(), f, "from &[u64]");
        fl!(Poly::<PowerBasis>::try_convert_from(&v[..3], &ctx, f).unwrap(), f, "from a short &[u64]");
        fl!(Poly::<PowerBasis>::try_convert_from(vi.as_slice(), &ctx, f).unwrap(), f, "from &[i64]");
        fl!(Poly::<PowerBasis>::try_convert_from(&vi, &ctx, f).unwrap(), f, "from &Vec<i64>");
        fl!(Poly::<PowerBasis>::try_convert_from(vb2.as_slice(), &ctx, f).unwrap(), f, "from &[BigUint]");
        fl!(Poly::<Ntt>::try_convert_from(vb2.as_slice(), &ctx, f).unwrap(), f, "ntt from &[BigUint]");
        fl!(Poly::<NttShoup>::try_convert_from(vb2.as_slice(), &ctx, f).unwrap(), f, "shoup from &[BigUint]");
        fl!(Poly::<PowerBasis>::try_convert_from(a.array(), &ctx, f).unwrap(), f, "from Array2");
        fl!(Poly::<Ntt>::try_convert_from(a.array(), &ctx, f).unwrap(), f, "ntt from Array2");
        fl!(Poly::<NttShoup>::try_convert_from(a.array(), &ctx, f).unwrap(), f, "shoup from Array2");
        fl!(Poly::<PowerBasis>::try_convert_from(va2.clone(), &ctx, f).unwrap(), f, "from Vec");
        fl!(Poly::<Ntt>::try_convert_from(va2.clone(), &ctx, f).unwrap(), f, "ntt from Vec");
        fl!(Poly::<NttShoup>::try_convert_from(va2.clone(), &ctx, f).unwrap(), f, "shoup from Vec");
    }
    fl!(Poly::<PowerBasis>::try_convert_from_public(v.as_slice(), &ctx, vtok()).unwrap(), true, "try_convert_from_public");
    fl!(Poly::<Ntt>::try_convert_from_public(va2, &ctx, vtok()).unwrap(), true, "try_convert_from_public");
    // serialisation never grants it
    use fhe_traits::{DeserializeWithContext, Serialize};
    fl!(Poly::<PowerBasis>::from_bytes(&x.to_bytes(), &ctx).unwrap(), false, "deserialisation");
    fl!(Poly::<Ntt>::from_bytes(&xn.to_bytes(), &ctx).unwrap(), false, "deserialisation");
    fl!(Poly::<NttShoup>::from_bytes(&xs.to_bytes(), &ctx).unwrap(), false, "deserialisation");
    for mut b in [x.to_bytes()] { b.extend([32, 1]); fl!(Poly::<PowerBasis>::from_bytes(&b, &ctx).unwrap(), false, "deserialisation of bytes that ask for it"); }
    // removal is always effective
    let mut z = xn.clone(); z.disallow_variable_time_computations(); fl!(&z, false, "disallow");
    let mut z = x.clone(); z.disallow_variable_time_computations(); fl!(z.into_ntt_shoup().into_power_basis(), false, "disallow then conversions");
    // the permission is not part of the value
    let mut z = x.clone(); set_vt(&mut z, !va); check!(z == x, "equality depends on the permission");
    Ok(())
}
/// polynomials of different contexts are never combined
fn mix_rq(cx: &mut Cx) -> R {
    let (n, q, ctx) = ctx_of(cx, 3);
    let (m, r) = match cx.below(4) {
        0 => (n, moduli(cx, n, q.len(), lo_bits(n), 62)),
        1 if q.len() > 1 => (n, q[..q.len() - 1].to_vec()),
        2 => { let mut r = q.clone(); r.reverse(); (n, r) }
        _ => (2 * n, moduli(cx, 2 * n, q.len(), lo_bits(2 * n), 62)),
    };
    let octx = Context::new_arc(&r, m).expect("context");
    let same = n == m && q == r;
    cx.note(format!("n={n} q={q:?} / n={m} q={r:?}"));
    let (va, vb) = (cx.flip(), cx.flip());
    let mut a = Rp::random(cx, &q, n).pb(&ctx);
    let mut b = Rp::random(cx, &r, m).pb(&octx);
    set_vt(&mut a, va); set_vt(&mut b, vb);
    let (an, bn, bs) = (a.clone().into_ntt(), b.clone().into_ntt(), b.clone().into_ntt_shoup());
    macro_rules! refuses { ($w:expr, $e:expr) => {{ let ok = guarded(|| { let _ = $e; }).is_ok(); check_eq!(ok, same, "combining polynomials of {} contexts with {} is accepted", if same { "equal" } else { "different" }, $w); }}; }
    refuses!("+", &a + &b); refuses!("-", &a - &b); refuses!("owned +", a.clone() + b.clone());
    refuses!("ntt +", &an + &bn); refuses!("ntt -", &an - &bn); refuses!("ntt *", &an * &bn); refuses!("ntt * shoup", &an * &bs); refuses!("ntt owned +", an.clone() + bn.clone());
    let d = dot_product([&an].into_iter(), [&bn].into_iter());
    check_eq!(d.is_ok(), same, "dot product across contexts");
    if !same { check!(a != b && an != bn, "polynomials of different contexts are equal"); }
    Ok(())
}
