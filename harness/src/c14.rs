//! C14 plaintext encoding, C10 dot products of ciphertexts with plaintexts.
use crate::bx::*;
use crate::fw::*;
use crate::gn::*;
use crate::ring::*;
use crate::{check, check_eq};
use fhe::bfv::*;
use fhe_math::rq::{Poly, PowerBasis, traits::TryConvertFrom};
use fhe_traits::*;
use num_bigint::{BigInt, BigUint, Sign};
use num_traits::{One, ToPrimitive, Zero};

pub fn kinds() -> Vec<Kind> {
    vec![
        Kind { prop: "C14", name: "enc.u64", quick: 8_000, thorough: 80_000, f: enc_u64 },
        Kind { prop: "C14", name: "enc.simd", quick: 5_000, thorough: 60_000, f: enc_simd },
        Kind { prop: "C14", name: "enc.big", quick: 3_000, thorough: 30_000, f: enc_big },
        Kind { prop: "C14", name: "enc.errors", quick: 2_000, thorough: 20_000, f: enc_errors },
        Kind { prop: "C10", name: "ct.dot", quick: 2_500, thorough: 30_000, f: ct_dot },
        Kind { prop: "C10", name: "ct.dot_errors", quick: 800, thorough: 10_000, f: ct_dot_errors },
    ]
}
/// the polynomial of a plaintext as integers in [0, Q_level)
pub fn poly_of(pt: &Plaintext, s: &Set, level: usize) -> Result<Vec<BigUint>, String> {
    let ctx = s.par.context_at_level(level).map_err(|e| e.to_string())?;
    let p = Poly::<PowerBasis>::try_convert_from(pt, ctx, false).map_err(|e| e.to_string())?;
    Ok(Rp::of_pb(&p)?.lift())
}
fn count(cx: &mut Cx, n: usize) -> usize {
    match cx.below(6) { 0 => 0, 1 => 1, 2 => n - 1, 3 => n / 2 + 1, _ => n }
}
/// the library's centering (pinned by its tests): values from floor(t/2) up are read as negative
fn center(x: u64, t: u64) -> i64 { if x >= t / 2 { x as i64 - t as i64 } else { x as i64 } }
/// level such that Q_level > t
fn level_for(cx: &mut Cx, s: &Set) -> usize {
    let mut l = cx.below(s.q.len() as u64) as usize;
    while prod(s.ql(l)) <= BigUint::from(s.t) { l -= 1; }
    l
}
/// values, half of the time all below the plaintext modulus
fn values(cx: &mut Cx, m: usize, t: u64) -> Vec<u64> {
    let any = cx.flip();
    (0..m).map(|_| if any { match cx.below(6) { 0 => u64::MAX - cx.below(3), 1 => cx.word(), 2 => t + cx.below(3), 3 => 2 * t - 1 + cx.below(3), 4 => 4 * t + cx.residue(t), _ => cx.residue(t) } } else { cx.residue(t) }).collect()
}
fn enc_u64(cx: &mut Cx) -> R {
    let s = params(cx, 1, 3, 9, false);
    let level = level_for(cx, &s);
    let m = count(cx, s.n);
    let v: Vec<u64> = values(cx, m, s.t);
    cx.note(format!("{} level={level} v={v:?}", s.describe()));
    let mut want: Vec<u64> = v.iter().map(|x| x % s.t).collect();
    want.resize(s.n, 0);
    let en = Encoding::poly_at_level(level);
    let pt = Plaintext::try_encode(&v, en.clone(), &s.par).map_err(|e| format!("encode refused: {e}"))?;
    check_eq!(pt.level(), level, "level of the plaintext");
    check_eq!(poly_of(&pt, &s, level)?, want.iter().map(|x| BigUint::from(*x)).collect::<Vec<_>>(), "polynomial of the plaintext");
    let d = Vec::<u64>::try_decode(&pt, en.clone()).map_err(|e| e.to_string())?;
    check_eq!(d, want, "u64 decode");
    check_eq!(Vec::<u64>::try_decode(&pt, None).map_err(|e| e.to_string())?, want, "u64 decode with the stored encoding");
    let di = Vec::<i64>::try_decode(&pt, en.clone()).map_err(|e| e.to_string())?;
    check_eq!(di, want.iter().map(|x| center(*x, s.t)).collect::<Vec<_>>(), "i64 decode");
    let db = Vec::<BigUint>::try_decode(&pt, en.clone()).map_err(|e| e.to_string())?;
    check_eq!(db, want.iter().map(|x| BigUint::from(*x)).collect::<Vec<_>>(), "BigUint decode");
    let pv = Plaintext::try_encode_vt(v.as_slice(), en.clone(), &s.par, crate::c07::vtok()).map_err(|e| e.to_string())?;
    check_eq!(Vec::<u64>::try_decode(&pv, en.clone()).map_err(|e| e.to_string())?, want, "u64 decode of the variable-time encoding");
    // signed values, also outside the centered range
    let w: Vec<i64> = (0..m).map(|_| match cx.below(6) {
        0 => i64::MIN + cx.below(3) as i64, 1 => i64::MAX - cx.below(3) as i64,
        2 => cx.word() as i64, 3 => -(cx.residue(s.t) as i64), 4 => -1, _ => center(cx.residue(s.t), s.t) }).collect();
    cx.note(format!("w={w:?}"));
    let pt = Plaintext::try_encode(&w, en.clone(), &s.par).map_err(|e| e.to_string())?;
    let mut wantw: Vec<u64> = w.iter().map(|x| (*x as i128).rem_euclid(s.t as i128) as u64).collect();
    wantw.resize(s.n, 0);
    check_eq!(Vec::<u64>::try_decode(&pt, en.clone()).map_err(|e| e.to_string())?, wantw, "u64 decode of i64 values");
    check_eq!(Vec::<i64>::try_decode(&pt, en.clone()).map_err(|e| e.to_string())?, wantw.iter().map(|x| center(*x, s.t)).collect::<Vec<_>>(), "i64 decode of i64 values");
    // vectors of several plaintexts
    let len = cx.below(3 * s.n as u64 + 1) as usize;
    let v: Vec<u64> = values(cx, len, s.t);
    let pv = PlaintextVec::try_encode(v.as_slice(), en.clone(), &s.par).map_err(|e| e.to_string())?;
    check_eq!(pv.len(), len.div_ceil(s.n).max(1), "number of plaintexts for {len} values");
    let mut got = vec![];
    for p in pv.iter() { got.extend(Vec::<u64>::try_decode(p, en.clone()).map_err(|e| e.to_string())?); }
    let mut want: Vec<u64> = v.iter().map(|x| x % s.t).collect();
    want.resize(pv.len() * s.n, 0);
    check_eq!(got, want, "values of the plaintext vector");
    // zero
    let z = Plaintext::zero(en.clone(), &s.par).map_err(|e| e.to_string())?;
    check_eq!(Vec::<u64>::try_decode(&z, en).map_err(|e| e.to_string())?, vec![0; s.n], "zero plaintext");
    Ok(())
}
fn eval(c: &[u64], x: u64, t: u64) -> u64 { c.iter().rev().fold(0, |a, ci| addmod(mulmod(a, x, t), ci % t, t)) }
fn enc_simd(cx: &mut Cx) -> R {
    let s = params(cx, 1, 3, 13, true);
    check!(s.simd, "harness: parameters are not SIMD");
    let level = level_for(cx, &s);
    let m = count(cx, s.n);
    let v: Vec<u64> = values(cx, m, s.t);
    cx.note(format!("{} level={level} v={v:?}", s.describe()));
    let en = Encoding::simd_at_level(level);
    let mut want: Vec<u64> = v.iter().map(|x| x % s.t).collect();
    want.resize(s.n, 0);
    let pt = Plaintext::try_encode(&v, en.clone(), &s.par).map_err(|e| format!("encode refused: {e}"))?;
    check_eq!(Vec::<u64>::try_decode(&pt, en.clone()).map_err(|e| e.to_string())?, want, "u64 decode");
    check_eq!(Vec::<u64>::try_decode(&pt, None).map_err(|e| e.to_string())?, want, "u64 decode with the stored encoding");
    check_eq!(Vec::<i64>::try_decode(&pt, en.clone()).map_err(|e| e.to_string())?, want.iter().map(|x| center(*x, s.t)).collect::<Vec<_>>(), "i64 decode");
    check_eq!(Vec::<BigUint>::try_decode(&pt, en.clone()).map_err(|e| e.to_string())?, want.iter().map(|x| BigUint::from(*x)).collect::<Vec<_>>(), "BigUint decode");
    let pv = Plaintext::try_encode_vt(v.as_slice(), en.clone(), &s.par, crate::c07::vtok()).map_err(|e| e.to_string())?;
    check_eq!(Vec::<u64>::try_decode(&pv, en.clone()).map_err(|e| e.to_string())?, want, "u64 decode of the variable-time encoding");
    check_eq!(poly_of(&pv, &s, level)?, poly_of(&pt, &s, level)?, "variable-time encoding");
    let vb: Vec<BigUint> = v.iter().map(|x| BigUint::from(*x)).collect();
    let pb = Plaintext::try_encode(&vb, en.clone(), &s.par).map_err(|e| e.to_string())?;
    check_eq!(poly_of(&pb, &s, level)?, poly_of(&pt, &s, level)?, "BigUint encoding");
    // the slots are the values of the polynomial at zeta^(3^i) and zeta^(-3^i)
    let c: Vec<u64> = poly_of(&pt, &s, level)?.iter().map(|x| modb(x, s.t)).collect();
    check!(poly_of(&pt, &s, level)?.iter().all(|x| *x < BigUint::from(s.t)), "coefficients not below t");
    let mut xp = vec![0u64; s.n]; xp[1] = 1;
    let px = Plaintext::try_encode(&xp, Encoding::poly_at_level(level), &s.par).map_err(|e| e.to_string())?;
    // read X's slots through a decryption-like plaintext: encode X, then compare with the SIMD plaintext of its slots
    let z0 = root_of(&s);
    let zs: Vec<u64> = slots_of(z0, s.n, s.t);
    // find which primitive root is used: the SIMD encoding of the slots of X must be X for it
    let mut found = None;
    for k in (1..2 * s.n as u64).step_by(2) {
        let z = powmod(z0, k, s.t);
        let pts = slots_of(z, s.n, s.t);
        let e = Plaintext::try_encode(&pts, en.clone(), &s.par).map_err(|e| e.to_string())?;
        if poly_of(&e, &s, level)? == poly_of(&px, &s, level)? { found = Some(z); break; }
    }
    let z = found.ok_or_else(|| format!("no primitive root makes the slots of X equal to its values (e.g. {zs:?})"))?;
    let pts = slots_of(z, s.n, s.t);
    for i in 0..s.n { check_eq!(eval(&c, pts[i], s.t), want[i], "value of the polynomial at the point of slot {i}"); }
    Ok(())
}
/// some primitive 2n-th root of unity modulo t
fn root_of(s: &Set) -> u64 {
    let t = s.t; let n2 = 2 * s.n as u64;
    for g in 2..t { let z = powmod(g, (t - 1) / n2, t); if powmod(z, s.n as u64, t) == t - 1 { return z; } }
    unreachable!()
}
fn slots_of(z: u64, n: usize, t: u64) -> Vec<u64> {
    let n2 = 2 * n as u64;
    let mut v = vec![0; n];
    let mut e = 1u64;
    for i in 0..n / 2 { v[i] = powmod(z, e, t); v[n / 2 + i] = powmod(z, n2 - e, t); e = e * 3 % n2; }
    v
}
fn enc_big(cx: &mut Cx) -> R {
    // plaintext moduli beyond 64 bits, and multi-word values for small ones
    let n = 1usize << cx.range(3, 4);
    let k = cx.range(3, 4) as usize;
    let q = moduli(cx, n, k, 40, 62);
    let big = cx.flip();
    let t = if big {
        let b = cx.range(65, 90);
        (BigUint::one() << b as usize) - BigUint::from(cx.below(1000)) * 2u32 - 1u32
    } else { BigUint::from(cx.range(2, 1 << 30)) };
    if q.iter().any(|x| modb(&t, *x) == 0) { cx.trivial = true; return Ok(()); }
    let mut b = BfvParametersBuilder::new();
    b.set_degree(n).set_plaintext_modulus_biguint(t.clone()).set_moduli(&q);
    let par = b.build_arc().map_err(|e| format!("valid parameters refused: t={t} q={q:?}: {e}"))?;
    let mut level = cx.below(k as u64) as usize;
    while prod(&q[..k - level]) <= t { level -= 1; }
    let m = count(cx, n);
    let v: Vec<BigUint> = (0..m).map(|_| match cx.below(4) {
        0 => &t - 1u32, 1 => &t / 2u32 + cx.below(2), 2 => BigUint::from(cx.u64()) % &t,
        _ => (BigUint::from(cx.u64()) << 40usize) * cx.u64() % &t }).collect();
    // values above the plaintext modulus (or above every modulus) are reduced
    let over = cx.flip();
    let raw: Vec<BigUint> = v.iter().map(|x| if over && cx.flip() { x + &t * (cx.u64() >> cx.below(64)) * if cx.flip() { 1u64 << cx.below(64) } else { 1 } } else { x.clone() }).collect();
    cx.note(format!("n={n} t={t} q={q:?} level={level} v={raw:?}"));
    let en = Encoding::poly_at_level(level);
    let pt = Plaintext::try_encode(&raw, en.clone(), &par).map_err(|e| format!("encode refused: {e}"))?;
    let mut want = v.clone();
    want.resize(n, BigUint::zero());
    check_eq!(Vec::<BigUint>::try_decode(&pt, en.clone()).map_err(|e| e.to_string())?, want, "BigUint decode");
    let fits = want.iter().all(|x| x.to_u64().is_some());
    match Vec::<u64>::try_decode(&pt, en.clone()) {
        Ok(d) => { check!(fits, "u64 decode of a value above 2^64 succeeded"); check_eq!(d, want.iter().map(|x| x.to_u64().unwrap()).collect::<Vec<_>>(), "u64 decode"); }
        Err(e) => check!(!fits, "u64 decode refused: {e}"),
    }
    let ti = BigInt::from(t.clone());
    let cent: Vec<BigInt> = want.iter().map(|x| if *x >= &t / 2u32 { BigInt::from(x.clone()) - &ti } else { BigInt::from(x.clone()) }).collect();
    let ifits = cent.iter().all(|x| x.to_i64().is_some());
    match guarded(|| Vec::<i64>::try_decode(&pt, en.clone())) {
        Err(p) => return Err(format!("i64 decode panicked: {p}")),
        Ok(Ok(d)) => {
            check!(ifits, "i64 decode of a value outside i64 succeeded");
            check_eq!(d.iter().map(|x| BigInt::from(*x)).collect::<Vec<_>>(), cent, "i64 decode");
        }
        Ok(Err(e)) => check!(!ifits, "i64 decode refused: {e}"),
    }
    let w: Vec<i64> = (0..m).map(|_| match cx.below(4) { 0 => i64::MIN, 1 => i64::MAX, 2 => -1, _ => cx.u64() as i64 }).collect();
    cx.note(format!("w={w:?}"));
    let pt = Plaintext::try_encode(&w, en.clone(), &par).map_err(|e| e.to_string())?;
    let mut wantw: Vec<BigUint> = w.iter().map(|x| { let r = BigInt::from(*x) % &ti; let r = if r.sign() == Sign::Minus { r + &ti } else { r }; r.to_biguint().unwrap() }).collect();
    wantw.resize(n, BigUint::zero());
    check_eq!(Vec::<BigUint>::try_decode(&pt, en.clone()).map_err(|e| e.to_string())?, wantw, "BigUint decode of i64 values");
    if big && m > 0 {
        let mut ww = w.clone(); ww.resize(n, 0);
        check_eq!(Vec::<i64>::try_decode(&pt, en).map_err(|e| e.to_string())?, ww, "i64 decode of i64 values");
    }
    Ok(())
}
fn enc_errors(cx: &mut Cx) -> R {
    let s = params(cx, 1, 3, 12, false);
    let level = level_for(cx, &s);
    cx.note(format!("{} level={level}", s.describe()));
    let en = Encoding::poly_at_level(level);
    let big = vec![0u64; s.n + 1 + cx.below(s.n as u64) as usize];
    check!(Plaintext::try_encode(&big, en.clone(), &s.par).is_err(), "too many u64 values accepted");
    check!(Plaintext::try_encode_vt(big.as_slice(), en.clone(), &s.par, crate::c07::vtok()).is_err(), "too many values accepted (variable time)");
    check!(Plaintext::try_encode(&vec![0i64; big.len()], en.clone(), &s.par).is_err(), "too many i64 values accepted");
    check!(Plaintext::try_encode(&vec![BigUint::zero(); big.len()], en.clone(), &s.par).is_err(), "too many BigUint values accepted");
    let bad = s.q.len() + cx.below(3) as usize;
    check!(Plaintext::try_encode(&[1u64], Encoding::poly_at_level(bad), &s.par).is_err(), "encoding at level {bad} accepted");
    check!(Plaintext::zero(Encoding::poly_at_level(bad), &s.par).is_err(), "zero at level {bad} accepted");
    let simd = Plaintext::try_encode(&[1u64], Encoding::simd_at_level(level), &s.par);
    check_eq!(simd.is_ok(), s.simd, "SIMD encoding accepted");
    let simd = PlaintextVec::try_encode([1u64].as_slice(), Encoding::simd_at_level(level), &s.par);
    check_eq!(simd.is_ok(), s.simd, "SIMD vector encoding accepted");
    let pt = Plaintext::try_encode(&[1u64], en.clone(), &s.par).map_err(|e| e.to_string())?;
    check!(Vec::<u64>::try_decode(&pt, Encoding::simd_at_level(level)).is_err(), "decoding with another encoding accepted");
    check!(Vec::<i64>::try_decode(&pt, Encoding::simd_at_level(level)).is_err(), "i64 decoding with another encoding accepted");
    check!(Vec::<BigUint>::try_decode(&pt, Encoding::poly_at_level(level + 1)).is_err(), "decoding with another level accepted");
    // a decrypted plaintext has no encoding
    let (sk, _) = s.sk(cx);
    let mut rng = cx.fork();
    let ct = enc(&sk, &pt, &mut rng)?;
    let d = sk.try_decrypt(&ct).map_err(|e| e.to_string())?;
    check!(Vec::<u64>::try_decode(&d, None).is_err(), "decoding without any encoding accepted");
    check!(Vec::<i64>::try_decode(&d, None).is_err(), "i64 decoding without any encoding accepted");
    if !s.simd { check!(Vec::<u64>::try_decode(&d, Encoding::simd_at_level(level)).is_err(), "SIMD decoding accepted without SIMD support"); }
    Ok(())
}
fn ct_dot(cx: &mut Cx) -> R {
    let n = 1usize << cx.range(3, 4);
    let k = cx.range(1, 2) as usize;
    let lo = if cx.flip() { 61 } else { 20 };
    let s = params_at(cx, n, k, lo, false);
    let level = cx.below(k as u64) as usize;
    let parts = cx.range(2, 4) as usize;
    let top = if prod(s.ql(level)).bits() > 58 && cx.flip() { 70 } else { 20 };
    let cnt = cx.range(1, top) as usize;
    let ctx = s.par.context_at_level(level).unwrap().clone();
    let q = s.ql(level).to_vec();
    let style = cx.below(3);
    cx.note(format!("{} level={level} parts={parts} count={cnt} style={style}", s.describe()));
    let mut cts = vec![]; let mut pts = vec![];
    let mut want: Vec<Rp> = (0..parts).map(|_| Rp::zero(&q, n)).collect();
    for i in 0..cnt {
        // extreme NTT values: build the rows in the NTT domain through the boundary generator
        let mut ps = vec![];
        for j in 0..parts {
            let r = if style == 0 { Rp { q: q.clone(), n, r: q.iter().map(|p| vec![p - 1; n]).collect() } } else { Rp::random(cx, &q, n) };
            let p = fhe_math::rq::Poly::<fhe_math::rq::Ntt>::try_convert_from(r.array(), &ctx, cx.flip()).map_err(|e| e.to_string())?;
            want[j].r.iter_mut().for_each(|_| ());
            ps.push((p, r));
        }
        let v = if style == 0 { let mut v = vec![0; n]; v[0] = s.t - 1; v } else { s.values(cx) };
        let en = Encoding::poly_at_level(level);
        let pt = if i % 2 == 0 { Plaintext::try_encode(&v, en, &s.par) } else { Plaintext::try_encode_vt(v.as_slice(), en, &s.par, crate::c07::vtok()) }.map_err(|e| e.to_string())?;
        let ctp = Ciphertext::new(ps.iter().map(|x| x.0.clone()).collect(), &s.par).map_err(|e| e.to_string())?;
        let m = Rp::from_i64(&q, n, &v.iter().map(|x| *x as i64).collect::<Vec<_>>());
        for j in 0..parts { want[j] = want[j].add(&Rp::of_ntt(&ctp[j])?.mul(&m)); }
        cts.push(ctp); pts.push(pt);
    }
    let d = dot_product_scalar(cts.iter(), pts.iter()).map_err(|e| format!("refused: {e}"))?;
    check_eq!(d.len(), parts, "parts of the dot product");
    for j in 0..parts { check_eq!(Rp::of_ntt(&d[j])?, want[j], "part {j} of the dot product"); }
    let mut acc = &cts[0] * &pts[0];
    for i in 1..cnt { acc += &(&cts[i] * &pts[i]); }
    check_eq!(d, acc, "dot product against the sum of the products");
    // permission: only when every operand carries it
    Ok(())
}
fn ct_dot_errors(cx: &mut Cx) -> R {
    let s = params(cx, 2, 3, 20, false);
    let (sk, _) = s.sk(cx);
    let mut rng = cx.fork();
    cx.note(s.describe());
    let e = |l: usize| s.encode(&vec![1; s.n], l);
    let (p0, p1) = (e(0), e(1));
    let c0 = enc(&sk, &p0, &mut rng)?;
    let c1 = enc(&sk, &p1, &mut rng)?;
    let c3 = &c0 * &c0;
    let no: Vec<Ciphertext> = vec![]; let nop: Vec<Plaintext> = vec![];
    check!(dot_product_scalar(no.iter(), nop.iter()).is_err(), "empty dot product accepted");
    check!(dot_product_scalar([c0.clone()].iter(), nop.iter()).is_err(), "dot product without plaintexts accepted");
    check!(dot_product_scalar(no.iter(), [p0.clone()].iter()).is_err(), "dot product without ciphertexts accepted");
    check!(dot_product_scalar([c0.clone(), c0.clone()].iter(), [p0.clone()].iter()).is_err(), "more ciphertexts accepted");
    check!(dot_product_scalar([c0.clone()].iter(), [p0.clone(), p0.clone()].iter()).is_err(), "more plaintexts accepted");
    check!(dot_product_scalar([c0.clone(), c1.clone()].iter(), [p0.clone(), p0.clone()].iter()).is_err(), "mixed ciphertext levels accepted");
    check!(dot_product_scalar([c0.clone(), c0.clone()].iter(), [p0.clone(), p1.clone()].iter()).is_err(), "mixed plaintext levels accepted");
    check!(dot_product_scalar([c1.clone(), c1.clone()].iter(), [p0.clone(), p1.clone()].iter()).is_err(), "plaintext above the ciphertext accepted");
    check!(dot_product_scalar([c0.clone(), c3.clone()].iter(), [p0.clone(), p0.clone()].iter()).is_err(), "mixed part counts accepted");
    check!(dot_product_scalar([c3.clone(), c0.clone()].iter(), [p0.clone(), p0.clone()].iter()).is_err(), "mixed part counts accepted");
    let o = params_at_new(cx, s.n, s.q.len(), 20, false);
    let op = o.encode(&vec![1; s.n], 0);
    check!(dot_product_scalar([c0.clone(), c0.clone()].iter(), [p0.clone(), op.clone()].iter()).is_err(), "plaintext of other parameters accepted");
    check!(dot_product_scalar([c0.clone()].iter(), [p0.clone()].iter()).is_ok(), "single term refused");
    check!(dot_product_scalar([c3.clone(), c3].iter(), [p0.clone(), p0].iter()).is_ok(), "three-part ciphertexts refused");
    Ok(())
}
