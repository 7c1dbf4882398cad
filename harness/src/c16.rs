//! C16 homomorphic multiplication and relinearisation.
use crate::bx::*;
use crate::c15::*;
use crate::fw::*;
use crate::gn::*;
use crate::ring::*;
use crate::{check, check_eq};
use fhe::bfv::*;
use fhe_math::rns::ScalingFactor;
use fhe_traits::*;
use num_bigint::{BigInt, BigUint};
use num_traits::{One, Signed, Zero};

pub fn kinds() -> Vec<Kind> {
    vec![
        Kind { prop: "C16", name: "mul.exact", quick: 700, thorough: 15_000, f: exact },
        Kind { prop: "C16", name: "mul.multiplicator", quick: 700, thorough: 15_000, f: multiplicator },
        Kind { prop: "C16", name: "relin.phase", quick: 700, thorough: 15_000, f: relin },
        Kind { prop: "C16", name: "mul.decrypt", quick: 700, thorough: 15_000, f: decrypts },
    ]
}
/// integer negacyclic product
pub fn nega(a: &[BigInt], b: &[BigInt]) -> Vec<BigInt> {
    let n = a.len();
    let mut c = vec![BigInt::zero(); n];
    for i in 0..n {
        if a[i].is_zero() { continue; }
        for j in 0..n {
            let p = &a[i] * &b[j];
            if i + j < n { c[i + j] += p } else { c[i + j - n] -= p }
        }
    }
    c
}
/// got ≡ round(num * x / den) modulo Q, up to the documented tolerance of the fixed-point rounding
fn near(got: &BigUint, x: &BigInt, num: &BigInt, den: &BigInt, q: &BigInt) -> bool {
    let y = x * num;
    let r = round_div(&y, den);
    let d = BigInt::from(got.clone()) - &r;
    let d = { let m = bmod_big(&d, &q.to_biguint().unwrap()); centered(&m, &q.to_biguint().unwrap()) };
    if d.abs() > BigInt::one() { return false; }
    let e: BigInt = (&r + &d) * den - &y;
    e.abs() * 2u32 <= den + (den >> 40usize)
}
/// scaled tensor product against the oracle
fn check_tensor(s: &Set, level: usize, a: &[Rp], b: &[Rp], got: &[Rp], what: &str) -> R {
    let q = BigInt::from(prod(s.ql(level)));
    let t = BigInt::from(s.t);
    let ac: Vec<_> = a.iter().map(|x| x.centered()).collect();
    let bc: Vec<_> = b.iter().map(|x| x.centered()).collect();
    check_eq!(got.len(), a.len() + b.len() - 1, "{what}: parts");
    for k in 0..got.len() {
        let mut acc = vec![BigInt::zero(); s.n];
        for i in 0..a.len() { for j in 0..b.len() { if i + j == k {
            for (x, y) in acc.iter_mut().zip(nega(&ac[i], &bc[j])) { *x += y; }
        } } }
        for (c, (x, g)) in acc.iter().zip(got[k].lift()).enumerate() {
            check!(near(&g, x, &t, &q, &q), "{what}: part {k} coefficient {c} is {g}, not the rounding of {t} * {x} / {q}");
        }
    }
    Ok(())
}
/// random parts whose coefficients are not within 2^-40 of Q/2 (either sign is allowed there)
fn clear_parts(cx: &mut Cx, s: &Set, level: usize, parts: usize) -> Vec<Rp> {
    let q = s.ql(level).to_vec();
    let big = prod(&q);
    (0..parts).map(|_| {
        let r = Rp::random(cx, &q, s.n);
        let v: Vec<BigUint> = r.lift().into_iter().map(|x| {
            let d = BigInt::from(&x * 2u32) - BigInt::from(big.clone());
            if d.abs() <= BigInt::from((&big >> 38usize) + 4u32) { &x / 2u32 } else { x }
        }).collect();
        Rp::from_big(&q, s.n, &v)
    }).collect()
}
fn level_ok(cx: &mut Cx, s: &Set) -> usize {
    let mut l = cx.below(s.q.len() as u64) as usize;
    while prod(s.ql(l)) <= BigUint::from(s.t) { l -= 1; }
    l
}
pub fn ct_of(s: &Set, level: usize, r: &[Rp]) -> Ciphertext {
    let ctx = s.par.context_at_level(level).unwrap();
    Ciphertext::new(r.iter().map(|x| x.ntt(ctx)).collect(), &s.par).unwrap()
}
fn exact(cx: &mut Cx) -> R {
    let s = small_params(cx, 1, 4);
    let level = level_ok(cx, &s);
    let (pa, pb) = (cx.range(2, 3) as usize, cx.range(2, 4) as usize);
    let a = clear_parts(cx, &s, level, pa);
    let b = clear_parts(cx, &s, level, pb);
    cx.note(format!("{} level={level} parts={pa},{pb}", s.describe()));
    let (ca, cb) = (ct_of(&s, level, &a), ct_of(&s, level, &b));
    let c = &ca * &cb;
    check_tensor(&s, level, &a, &b, &parts_of(&c)?, "product")?;
    let c = &ca * &ca;
    check_tensor(&s, level, &a, &a, &parts_of(&c)?, "square")?;
    // same polynomials, but not recognised as a square: parts in another order are a different ciphertext
    let mut a2 = a.clone();
    a2.reverse();
    let c = &ca * &ct_of(&s, level, &a2);
    check_tensor(&s, level, &a, &a2, &parts_of(&c)?, "product with the reversed parts")?;
    let ctx = s.par.context_at_level(level).unwrap();
    for p in c.iter() { check!(p.ctx() == ctx, "context of the product"); }
    let _ = &c - &c; // the recorded level must agree with the context
    let pt = s.encode(&vec![1 % s.t; s.n], level);
    let _ = &c + &pt;
    // the zero ciphertext absorbs
    let z = Ciphertext::zero(&s.par);
    check!((&z * &ca).is_empty(), "0 * a is not the zero ciphertext");
    check!((&ca * &z).is_empty(), "a * 0 is not the zero ciphertext");
    check!((&z * &z).is_empty(), "0 * 0 is not the zero ciphertext");
    Ok(())
}
fn up(r: &Rp, q: &[u64], num: &BigInt, den: &BigInt) -> Rp {
    let v: Vec<BigInt> = r.centered().iter().map(|x| round_div(&(x * num), den)).collect();
    Rp::from_bigint(q, r.n, &v)
}
fn multiplicator(cx: &mut Cx) -> R {
    let s = small_params(cx, 1, 3);
    let level = level_ok(cx, &s);
    let q = s.ql(level).to_vec();
    let qb = prod(&q);
    let a = clear_parts(cx, &s, level, 2);
    let b = clear_parts(cx, &s, level, 2);
    let (ca, cb) = (ct_of(&s, level, &a), ct_of(&s, level, &b));
    // extended basis: the moduli of the level, then enough 62-bit primes
    let mut pool = ntt_primes(62, s.n as u64, 14);
    pool.retain(|p| !s.q.contains(p));
    let bits = qb.bits() as usize;
    let second = cx.flip();
    let need = (bits + 70).div_ceil(61) + cx.below(2) as usize;
    let mut ext = q.clone();
    ext.extend(&pool[..need]);
    let one = ScalingFactor::one;
    let p_only = prod(&pool[..need]);
    let mut m = if second {
        // scale the right operand to the auxiliary modulus
        Multiplicator::new_leveled(one(), ScalingFactor::new(&p_only, &qb), &ext, ScalingFactor::new(&BigUint::from(s.t), &p_only), level, &s.par)
    } else {
        Multiplicator::new_leveled(one(), one(), &ext, ScalingFactor::new(&BigUint::from(s.t), &qb), level, &s.par)
    }.map_err(|e| format!("multiplicator refused: {e}"))?;
    cx.note(format!("{} level={level} second={second} ext={ext:?}", s.describe()));
    let c = es(m.multiply(&ca, &cb), "multiply")?;
    let got = parts_of(&c)?;
    if !second {
        check_tensor(&s, level, &a, &b, &got, "multiplicator product")?;
    } else {
        let (pi, qi, ti) = (BigInt::from(p_only.clone()), BigInt::from(qb.clone()), BigInt::from(s.t));
        let b2: Vec<Vec<BigInt>> = b.iter().map(|x| x.centered().iter().map(|v| round_div(&(v * &pi), &qi)).collect()).collect();
        let ac: Vec<_> = a.iter().map(|x| x.centered()).collect();
        check_eq!(got.len(), 3, "parts");
        for k in 0..3 {
            let mut acc = vec![BigInt::zero(); s.n];
            for i in 0..2 { for j in 0..2 { if i + j == k { for (x, y) in acc.iter_mut().zip(nega(&ac[i], &b2[j])) { *x += y; } } } }
            for (x, g) in acc.iter().zip(got[k].lift()) {
                check!(near(&g, x, &ti, &pi, &qi), "second strategy: part {k} is {g}, not the rounding of {ti} * {x} / {pi}");
            }
        }
        let _ = up;
    }
    // with mod switching the result is the switched product
    let can = level < s.par.max_level();
    check_eq!(m.enable_mod_switching().is_ok(), can, "enable_mod_switching accepted at level {level}");
    let c2 = es(m.multiply(&ca, &cb), "multiply")?;
    let mut w = c.clone();
    if can { w.switch_down().map_err(|e| e.to_string())?; }
    check!(c2 == w, "the mod-switched product is not the switched product");
    // relinearisation inside the multiplicator
    let (sk, sv) = s.sk(cx);
    let mut rng = cx.fork();
    let kl = cx.below(level as u64 + 1) as usize;
    let rk = RelinearizationKey::new_leveled(&sk, level, kl, &mut rng);
    check_eq!(rk.is_ok(), s.ql(kl).len() > 1, "relinearisation key for ciphertext level {level}, key level {kl}");
    let Ok(rk) = rk else { return Ok(()); };
    let mut m2 = if second {
        Multiplicator::new_leveled(one(), ScalingFactor::new(&p_only, &qb), &ext, ScalingFactor::new(&BigUint::from(s.t), &p_only), level, &s.par)
    } else if cx.flip() {
        Multiplicator::new_leveled(one(), one(), &ext, ScalingFactor::new(&BigUint::from(s.t), &qb), level, &s.par)
    } else { Multiplicator::default(&rk) }.map_err(|e| format!("multiplicator refused: {e}"))?;
    m2.enable_relinearization(&rk).map_err(|e| format!("relinearisation refused: {e}"))?;
    let cr = es(m2.multiply(&ca, &cb), "multiply")?;
    check_eq!(cr.len(), 2, "parts of the relinearised product");
    let d = s.phase(&sv, &cr)?.sub(&s.phase(&sv, &c)?).centered();
    let bound = BigInt::from(ks_bound(&s, &sv, level, kl)) + if second { BigInt::zero() } else { BigInt::from(3 + 3 * (s.n as u64 * smax(&sv)).pow(2)) };
    check!(d.iter().all(|x| x.abs() <= bound), "relinearisation changed the phase by more than {bound}: {d:?}");
    if can {
        m2.enable_mod_switching().map_err(|e| e.to_string())?;
        let c3 = es(m2.multiply(&ca, &cb), "multiply")?;
        let mut w = cr.clone();
        w.switch_down().map_err(|e| e.to_string())?;
        check!(c3 == w, "the relinearised and mod-switched product is not the switched product");
    }
    Ok(())
}
/// bound on the phase error added by one key switch from ciphertext level `cl` with keys at level `kl`
pub fn ks_bound(s: &Set, sv: &[i64], cl: usize, kl: usize) -> BigUint {
    let q = s.ql(cl);
    let p = prod(&s.ql(kl)[q.len()..]);
    let (terms, digit) = if s.ql(kl).len() == 1 {
        let lg = 64 - s.ql(kl)[0].leading_zeros() as u64;
        let base = lg / 2;
        (lg.div_ceil(base), 1u64 << base)
    } else { (q.len() as u64, *q.iter().max().unwrap()) };
    BigUint::from(digit) * (s.n as u64 * terms * 2 * s.v as u64) / p + (cl - kl + 1) as u64 * (1 + s.n as u64 * smax(sv)) + 2u32
}
fn relin(cx: &mut Cx) -> R {
    let s = small_params(cx, 1, 4);
    let level = cx.below(s.q.len() as u64) as usize;
    let kl = cx.below(level as u64 + 1) as usize;
    let (sk, sv) = s.sk(cx);
    let mut rng = cx.fork();
    cx.note(format!("{} level={level} key level={kl} s={sv:?}", s.describe()));
    let rk = RelinearizationKey::new_leveled(&sk, level, kl, &mut rng);
    check_eq!(rk.is_ok(), s.ql(kl).len() > 1, "relinearisation key for ciphertext level {level}, key level {kl}");
    let Ok(rk) = rk else { return Ok(()); };
    let q = s.ql(level).to_vec();
    let parts: Vec<Rp> = (0..3).map(|_| Rp::random(cx, &q, s.n)).collect();
    let ct = ct_of(&s, level, &parts);
    let mut r = ct.clone();
    es(rk.relinearizes(&mut r), "relinearisation")?;
    check_eq!(r.len(), 2, "parts after relinearisation");
    let ctx = s.par.context_at_level(level).unwrap();
    for p in r.iter() { check!(p.ctx() == ctx, "context after relinearisation"); }
    let d = s.phase(&sv, &r)?.sub(&s.phase(&sv, &ct)?).centered();
    let bound = BigInt::from(ks_bound(&s, &sv, level, kl));
    check!(d.iter().all(|x| x.abs() <= bound), "relinearisation changed the phase by more than {bound}: {d:?}");
    // refusals leave the ciphertext alone
    let mut two = r.clone();
    check!(rk.relinearizes(&mut two).is_err(), "two-part ciphertext accepted");
    check!(two == r, "a refused relinearisation changed the ciphertext");
    let four = ct_of(&s, level, &[parts.clone(), vec![parts[0].clone()]].concat());
    check!(rk.relinearizes(&mut four.clone()).is_err(), "four-part ciphertext accepted");
    for l in 0..s.q.len() {
        if l == level { continue; }
        let p: Vec<Rp> = (0..3).map(|_| Rp::random(cx, s.ql(l), s.n)).collect();
        check!(rk.relinearizes(&mut ct_of(&s, l, &p)).is_err(), "ciphertext at level {l} accepted by a key for level {level}");
    }
    Ok(())
}
fn decrypts(cx: &mut Cx) -> R {
    let s = small_params(cx, 1, 4);
    let (sk, sv) = s.sk(cx);
    let (n, sm) = (s.n as u64, smax(&sv));
    let e0 = BigUint::from(2 * s.v as u64 + 1);
    let mulb = |e1: &BigUint, e2: &BigUint| (e1 + e2) * (n * s.t) * (1 + n * sm + 4) + 2u32 + n * sm + n * n * sm * sm;
    let Some(max) = fit_level(&s, &|_| mulb(&e0, &e0)) else { cx.trivial = true; return Ok(()); };
    let level = cx.below(max as u64 + 1) as usize;
    let (ma, mb) = (s.values(cx), s.values(cx));
    cx.note(format!("{} level={level} s={sv:?} a={ma:?} b={mb:?}", s.describe()));
    let mut rng = cx.fork();
    let ca = enc(&sk, &s.encode(&ma, level), &mut rng)?;
    let cb = enc(&sk, &s.encode(&mb, level), &mut rng)?;
    let want = s.mulp(&ma, &mb);
    let c = &ca * &cb;
    check_eq!(dec(&es(sk.try_decrypt(&c), "decryption")?)?, want, "decrypted product");
    let sq = &ca * &ca;
    check_eq!(dec(&es(sk.try_decrypt(&sq), "decryption")?)?, s.mulp(&ma, &ma), "decrypted square");
    let e1 = mulb(&e0, &e0);
    for kl in 0..=level {
        let Ok(rk) = RelinearizationKey::new_leveled(&sk, level, kl, &mut rng) else { continue };
        let e2 = &e1 + ks_bound(&s, &sv, level, kl);
        if !s.fits(level, &e2) { continue; }
        let mut r = c.clone();
        es(rk.relinearizes(&mut r), "relinearisation")?;
        check_eq!(dec(&es(sk.try_decrypt(&r), "decryption")?)?, want, "decrypted relinearised product (key level {kl})");
        let mut m = es(Multiplicator::default(&rk), "multiplicator")?;
        let r = es(m.multiply(&ca, &cb), "multiply")?;
        check_eq!(r.len(), 2, "parts of the multiplicator product");
        check_eq!(dec(&es(sk.try_decrypt(&r), "decryption")?)?, want, "decrypted multiplicator product (key level {kl})");
        // a second multiplication
        let e3 = mulb(&e2, &e0);
        if s.fits(level, &e3) {
            let r2 = &r * &cb;
            check_eq!(dec(&es(sk.try_decrypt(&r2), "decryption")?)?, s.mulp(&want, &mb), "decrypted second product");
        }
        if level < s.par.max_level() {
            es(m.enable_mod_switching(), "mod switching")?;
            let r = es(m.multiply(&ca, &cb), "multiply")?;
            let last = *s.ql(level).last().unwrap();
            if s.fits(level + 1, &(&e2 / last + 3u32 + n * sm + n)) {
                let d = es(sk.try_decrypt(&r), "decryption")?;
                check_eq!(d.level(), level + 1, "level after modulus switching");
                check_eq!(dec(&d)?, want, "decrypted mod-switched product (key level {kl})");
            }
        }
    }
    Ok(())
}
