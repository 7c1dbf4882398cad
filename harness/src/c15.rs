//! C15 encryption, decryption and linear operations of BFV ciphertexts.
use crate::bx::*;
use crate::fw::*;
use crate::gn::*;
use crate::ring::*;
use crate::{check, check_eq};
use fhe::bfv::*;
use fhe_math::rq::{Ntt, Poly, PowerBasis, traits::TryConvertFrom};
use fhe_traits::*;
use num_bigint::{BigInt, BigUint};
use num_traits::{One, Signed, Zero};

pub fn kinds() -> Vec<Kind> {
    vec![
        Kind { prop: "C15", name: "enc.fresh", quick: 2_500, thorough: 40_000, f: fresh },
        Kind { prop: "C15", name: "dec.noise", quick: 2_500, thorough: 40_000, f: dec_noise },
        Kind { prop: "C15", name: "dec.big", quick: 400, thorough: 6_000, f: dec_big },
        Kind { prop: "C15", name: "lin.exact", quick: 2_500, thorough: 40_000, f: linear },
        Kind { prop: "C15", name: "lin.circuit", quick: 1_500, thorough: 25_000, f: circuit },
        Kind { prop: "C15", name: "level.switch", quick: 1_500, thorough: 25_000, f: switching },
    ]
}
pub fn smax(s: &[i64]) -> u64 { s.iter().map(|x| x.unsigned_abs()).max().unwrap_or(0) }
/// bound on |phase - floor(Q m / t)| of a fresh public-key encryption at `level`
pub fn pk_bound(s: &Set, sv: &[i64], level: usize) -> BigUint {
    let (n, e, sm) = (s.n as u64, 2 * s.v as u64, smax(sv));
    let bpk = BigUint::from(e) + BigUint::from(level as u64) * (1 + n * sm);
    bpk * (n * e) + e + n * e * sm + 2u32
}
pub fn parts_of(c: &[Poly<Ntt>]) -> Result<Vec<Rp>, String> { c.iter().map(Rp::of_ntt).collect() }
/// floor(Q m / t) as a polynomial of the level
pub fn scaled(s: &Set, level: usize, m: &[u64]) -> Rp {
    let q = s.ql(level);
    let big = prod(q);
    let v: Vec<BigUint> = m.iter().map(|x| &big * *x / s.t).collect();
    Rp::from_big(q, s.n, &v)
}
pub fn plain_rp(s: &Set, level: usize, m: &[u64]) -> Rp {
    let v: Vec<BigUint> = m.iter().map(|x| BigUint::from(*x)).collect();
    Rp::from_big(s.ql(level), s.n, &v)
}
pub fn small_params(cx: &mut Cx, minq: usize, maxq: usize) -> Set {
    let lo = *cx.pick(&[10u64, 14, 20, 30, 45, 61]);
    params(cx, minq, maxq, lo, false)
}
/// deepest level at which `bound` fits the noise budget
pub fn fit_level(s: &Set, bound: &dyn Fn(usize) -> BigUint) -> Option<usize> {
    (0..s.q.len()).rev().find(|l| s.fits(*l, &bound(*l)))
}
fn fresh(cx: &mut Cx) -> R {
    let s = small_params(cx, 1, 4);
    let level = cx.below(s.q.len() as u64) as usize;
    if BigUint::from(s.t) >= prod(s.ql(level)) { cx.trivial = true; return Ok(()); }
    let (sk, sv) = s.sk(cx);
    let m = s.values(cx);
    cx.note(format!("{} level={level} s={sv:?} m={m:?}", s.describe()));
    let pt = s.encode(&m, level);
    let mut rng = cx.fork();
    let ct = enc(&sk, &pt, &mut rng)?;
    check_eq!(ct.len(), 2, "parts of a fresh ciphertext");
    for c in ct.iter() { check!(c.ctx() == s.par.context_at_level(level).unwrap(), "context of a fresh ciphertext"); }
    let er = s.phase(&sv, &ct)?.sub(&scaled(&s, level, &m)).centered();
    let b = BigInt::from(2 * s.v as u64);
    check!(er.iter().all(|x| x.abs() <= b), "error of a secret-key encryption exceeds 2*variance={b}: {er:?}");
    if s.fits(level, &BigUint::from(2 * s.v as u64 + 2)) {
        let d = es(sk.try_decrypt(&ct), "decryption")?;
        check_eq!(d.level(), level, "level of the decrypted plaintext");
        check_eq!(dec(&d)?, m, "decryption of a secret-key encryption");
        check!(d == pt, "the decrypted plaintext differs from the encrypted one");
    }
    let ct2 = enc(&sk, &pt, &mut rng)?;
    check!(ct2[1] != ct[1], "two encryptions share their mask");
    let pk = PublicKey::new(&sk, &mut rng);
    let cp = enc_pk(&pk, &pt, &mut rng)?;
    check_eq!(cp.len(), 2, "parts of a public-key ciphertext");
    let er = s.phase(&sv, &cp)?.sub(&scaled(&s, level, &m)).centered();
    let b = pk_bound(&s, &sv, level);
    let bi = BigInt::from(b.clone());
    check!(er.iter().all(|x| x.abs() <= bi), "error of a public-key encryption exceeds {bi}: {er:?}");
    if s.fits(level, &b) {
        let d = es(sk.try_decrypt(&cp), "decryption")?;
        check_eq!(dec(&d)?, m, "decryption of a public-key encryption");
    }
    let cp2 = enc_pk(&pk, &pt, &mut rng)?;
    check!(cp2[1] != cp[1] && cp2[0] != cp[0], "two public-key encryptions coincide");
    Ok(())
}
/// a ciphertext with the given phase under s, its other parts random
pub fn craft(cx: &mut Cx, s: &Set, sv: &[i64], level: usize, parts: usize, phase: &Rp) -> Ciphertext {
    let q = s.ql(level).to_vec();
    let ctx = s.par.context_at_level(level).unwrap();
    let sp = Rp::from_i64(&q, s.n, sv);
    let mut pw = sp.clone();
    let mut c0 = phase.clone();
    let mut c = vec![];
    for _ in 1..parts {
        let ci = Rp::random(cx, &q, s.n);
        c0 = c0.sub(&ci.mul(&pw));
        pw = pw.mul(&sp);
        c.push(ci.ntt(ctx));
    }
    c.insert(0, c0.ntt(ctx));
    Ciphertext::new(c, &s.par).expect("ciphertext")
}
fn dec_noise(cx: &mut Cx) -> R {
    let s = small_params(cx, 1, 4);
    let level = cx.below(s.q.len() as u64) as usize;
    let big = prod(s.ql(level));
    let qi = BigInt::from(big.clone());
    let half = &big / (2 * s.t);
    if half < BigUint::from(8u32) { cx.trivial = true; return Ok(()); }
    let (sk, sv) = s.sk(cx);
    let m = s.values(cx);
    let parts = cx.range(2, 5) as usize;
    // |noise| up to Q/(2t) minus a margin far above the fixed-point tolerance
    let margin: BigUint = (&half >> 30usize) + 3u32;
    let top = BigInt::from(&half - margin);
    let e: Vec<BigInt> = (0..s.n).map(|_| match cx.below(5) {
        0 => top.clone(), 1 => -top.clone(), 2 => BigInt::zero(),
        _ => { let x = BigInt::from(cx.u64()) * &top >> 64usize; if cx.flip() { x } else { -x } }
    }).collect();
    let ph: Vec<BigInt> = m.iter().zip(&e).map(|(mi, ei)| round_div(&(&qi * BigInt::from(*mi)), &BigInt::from(s.t)) + ei).collect();
    let ct = craft(cx, &s, &sv, level, parts, &Rp::from_bigint(s.ql(level), s.n, &ph));
    cx.note(format!("{} level={level} parts={parts} s={sv:?} m={m:?}", s.describe()));
    let d = es(sk.try_decrypt(&ct), "decryption")?;
    check_eq!(d.level(), level, "level of the decrypted plaintext");
    check_eq!(dec(&d)?, m, "decryption with noise inside the budget");
    // the plaintext polynomial itself is canonical, so it can be used in further operations
    check_eq!(crate::c14::poly_of(&d, &s, level)?, m.iter().map(|x| BigUint::from(*x)).collect::<Vec<_>>(), "polynomial of the decrypted plaintext");
    let fl = scaled(&s, level, &m);
    let want = Rp::from_bigint(s.ql(level), s.n, &ph).sub(&fl).centered().iter().map(|x| x.abs().bits()).max().unwrap();
    let got = unsafe { sk.measure_noise(&ct) }.map_err(|e| e.to_string())?;
    check_eq!(got as u64, want, "measured noise (bits)");
    Ok(())
}
fn dec_big(cx: &mut Cx) -> R {
    let n = 8usize;
    let wide = cx.idx == 3 || (cx.thorough && cx.below(200) == 0);
    let (q, tb) = if wide {
        // many moduli just above a power of two: their sizes overstate their product
        let b = cx.range(20, 40);
        let mut v = vec![]; let mut p = 1u64 << (b - 1);
        while v.len() < 66 { p = p / 16 * 16 + 17; while !is_prime_u64(p) { p += 16; } v.push(p); }
        (v, 62 * b - 60)
    } else {
        let lo = *cx.pick(&[20u64, 40, 55]);
        let k = cx.range(3, 6) as usize;
        let q = moduli(cx, n, k, lo, 62);
        let bits = prod(&q).bits();
        let tb = cx.range(10, bits - 25);
        (q, tb)
    };
    let t = (BigUint::one() << (tb as usize)) - 1u32 - BigUint::from(cx.below(500));
    if q.iter().any(|x| modb(&t, *x) == 0) { cx.trivial = true; return Ok(()); }
    if t.bits() <= 64 && t >= BigUint::from(1u64 << 62) { cx.trivial = true; return Ok(()); }
    let mut b = BfvParametersBuilder::new();
    b.set_degree(n).set_plaintext_modulus_biguint(t.clone()).set_moduli(&q).set_variance(1);
    let par = b.build_arc().map_err(|e| format!("valid parameters refused: t={t} q={q:?}: {e}"))?;
    let mut level = if wide { cx.below(3) } else { cx.below(q.len() as u64) } as usize;
    while prod(&q[..q.len() - level]) <= &t << 12usize { if level == 0 { cx.trivial = true; return Ok(()); } level -= 1; }
    let big = prod(&q[..q.len() - level]);
    let rb = |cx: &mut Cx, m: &BigUint| { let mut x = BigUint::zero(); for _ in 0..m.bits() / 64 + 2 { x = (x << 64usize) + cx.u64(); } x % m };
    let m: Vec<BigUint> = (0..n).map(|_| match cx.below(5) { 0 => &t - 1u32, 1 => &t / 2u32, 2 => BigUint::from(cx.below(3)), _ => rb(cx, &t) }).collect();
    cx.note(format!("n={n} t={t} q={q:?} level={level} m={m:?}"));
    let sv: Vec<i64> = (0..n).map(|_| cx.below(3) as i64 - 1).collect();
    let sk = SecretKey::from_bytes(&prost::Message::encode_to_vec(&SkProto { coeffs: sv.clone() }), &par).map_err(|e| e.to_string())?;
    let mut rng = cx.fork();
    let pt = Plaintext::try_encode(&m, Encoding::poly_at_level(level), &par).map_err(|e| e.to_string())?;
    let ct = enc(&sk, &pt, &mut rng)?;
    let ph = { let qq = ct[0].ctx().moduli().to_vec(); Rp::of_ntt(&ct[0])?.add(&Rp::of_ntt(&ct[1])?.mul(&Rp::from_i64(&qq, n, &sv))) };
    let fl: Vec<BigUint> = m.iter().map(|x| &big * x / &t).collect();
    let er = ph.sub(&Rp::from_big(&q[..q.len() - level], n, &fl)).centered();
    check!(er.iter().all(|x| x.abs() <= BigInt::from(2)), "error of a secret-key encryption: {er:?}");
    let d = es(sk.try_decrypt(&ct), "decryption")?;
    let got = Vec::<BigUint>::try_decode(&d, Encoding::poly_at_level(level)).map_err(|e| e.to_string())?;
    check_eq!(got, m, "decryption with a large plaintext modulus");
    let pk = PublicKey::new(&sk, &mut rng);
    let cp = enc_pk(&pk, &pt, &mut rng)?;
    let d = es(sk.try_decrypt(&cp), "decryption")?;
    let got = Vec::<BigUint>::try_decode(&d, Encoding::poly_at_level(level)).map_err(|e| e.to_string())?;
    check_eq!(got, m, "public-key decryption with a large plaintext modulus");
    // linear operations
    let m2: Vec<BigUint> = (0..n).map(|_| rb(cx, &t)).collect();
    let p2 = Plaintext::try_encode(&m2, Encoding::poly_at_level(level), &par).map_err(|e| e.to_string())?;
    let r = &(&ct + &p2) - &cp;
    let r = r + &ct;
    let d = es(sk.try_decrypt(&r), "decryption")?;
    let got = Vec::<BigUint>::try_decode(&d, Encoding::poly_at_level(level)).map_err(|e| e.to_string())?;
    check_eq!(got, m.iter().zip(&m2).map(|(a, b)| (a + b) % &t).collect::<Vec<_>>(), "linear operations with a large plaintext modulus");
    Ok(())
}
fn linear(cx: &mut Cx) -> R {
    let s = small_params(cx, 1, 4);
    let mut level = cx.below(s.q.len() as u64) as usize;
    while prod(s.ql(level)) <= BigUint::from(s.t) { level -= 1; }
    let q = s.ql(level).to_vec();
    let ctx = s.par.context_at_level(level).unwrap().clone();
    let parts = cx.range(2, 4) as usize;
    let mk = |cx: &mut Cx| -> (Ciphertext, Vec<Rp>) {
        let r: Vec<Rp> = (0..parts).map(|_| Rp::random(cx, &q, s.n)).collect();
        (Ciphertext::new(r.iter().map(|x| x.ntt(&ctx)).collect(), &s.par).unwrap(), r)
    };
    let (a, ra) = mk(cx);
    let (b, rb) = mk(cx);
    let m = s.values(cx);
    let pt = if cx.flip() { s.encode(&m, level) } else { Plaintext::try_encode_vt(m.as_slice(), Encoding::poly_at_level(level), &s.par, crate::c07::vtok()).map_err(|e| e.to_string())? };
    cx.note(format!("{} level={level} parts={parts} m={m:?}", s.describe()));
    let is = |c: Ciphertext, want: &[Rp], what: &str| -> R {
        check_eq!(c.len(), want.len(), "{what}: parts");
        for i in 0..want.len() {
            check!(c[i].ctx() == &ctx, "{what}: context of part {i}");
            check_eq!(Rp::of_ntt(&c[i])?, want[i], "{what}: part {i}");
        }
        // the level field agrees with the context: the result must still be usable
        let z = &c - &c;
        check!(z.iter().all(|p| *p == Poly::<Ntt>::zero(&ctx)), "{what}: c - c is not zero");
        Ok(())
    };
    let add: Vec<Rp> = ra.iter().zip(&rb).map(|(x, y)| x.add(y)).collect();
    let sub: Vec<Rp> = ra.iter().zip(&rb).map(|(x, y)| x.sub(y)).collect();
    let neg: Vec<Rp> = ra.iter().map(|x| x.neg()).collect();
    let sc = scaled(&s, level, &m);
    let first = |f: &dyn Fn(&Rp) -> Rp| -> Vec<Rp> { let mut v = ra.clone(); v[0] = f(&v[0]); v };
    let addp = first(&|x| x.add(&sc));
    let subp = first(&|x| x.sub(&sc));
    let psub: Vec<Rp> = subp.iter().map(|x| x.neg()).collect();
    let pr = plain_rp(&s, level, &m);
    let mul: Vec<Rp> = ra.iter().map(|x| x.mul(&pr)).collect();
    is(&a + &b, &add, "&a + &b")?;
    is(a.clone() + &b, &add, "a + &b")?;
    is({ let mut x = a.clone(); x += &b; x }, &add, "a += &b")?;
    is(&a - &b, &sub, "&a - &b")?;
    is(a.clone() - &b, &sub, "a - &b")?;
    is({ let mut x = a.clone(); x -= &b; x }, &sub, "a -= &b")?;
    is(-&a, &neg, "-&a")?;
    is(-a.clone(), &neg, "-a")?;
    is(&a + &pt, &addp, "&a + &p")?;
    is(&pt + &a, &addp, "&p + &a")?;
    is(a.clone() + &pt, &addp, "a + &p")?;
    is({ let mut x = a.clone(); x += &pt; x }, &addp, "a += &p")?;
    is(&a - &pt, &subp, "&a - &p")?;
    is(&pt - &a, &psub, "&p - &a")?;
    is(a.clone() - &pt, &subp, "a - &p")?;
    is({ let mut x = a.clone(); x -= &pt; x }, &subp, "a -= &p")?;
    is(&a * &pt, &mul, "&a * &p")?;
    is(a.clone() * &pt, &mul, "a * &p")?;
    is({ let mut x = a.clone(); x *= &pt; x }, &mul, "a *= &p")?;
    // the neutral element
    let z = Ciphertext::zero(&s.par);
    is(&a + &z, &ra, "a + 0")?;
    is(&z + &a, &ra, "0 + a")?;
    is({ let mut x = z.clone(); x += &a; x }, &ra, "0 += a")?;
    is({ let mut x = a.clone(); x += &z; x }, &ra, "a += 0")?;
    is(&a - &z, &ra, "a - 0")?;
    is(&z - &a, &neg, "0 - a")?;
    is({ let mut x = z.clone(); x -= &a; x }, &neg, "0 -= a")?;
    is({ let mut x = a.clone(); x -= &z; x }, &ra, "a -= 0")?;
    // the operands are unchanged
    is(a.clone(), &ra, "a afterwards")?;
    is(b.clone(), &rb, "b afterwards")?;
    Ok(())
}
/// A random circuit of linear operations whose noise stays in the budget.
fn circuit(cx: &mut Cx) -> R {
    let s = small_params(cx, 1, 4);
    let (sk, sv) = s.sk(cx);
    let Some(maxl) = fit_level(&s, &|l| pk_bound(&s, &sv, l)) else { cx.trivial = true; return Ok(()); };
    let level = cx.below(maxl as u64 + 1) as usize;
    let mut rng = cx.fork();
    let pk = PublicKey::new(&sk, &mut rng);
    cx.note(format!("{} level={level} s={sv:?}", s.describe()));
    let fresh = |cx: &mut Cx, rng: &mut rand_chacha::ChaCha8Rng, level: usize| -> Result<(Ciphertext, Vec<u64>, BigUint), String> {
        let m = s.values(cx);
        let pt = s.encode(&m, level);
        if cx.flip() { Ok((enc(&sk, &pt, rng)?, m, BigUint::from(2 * s.v as u64 + 1))) }
        else { Ok((enc_pk(&pk, &pt, rng)?, m, pk_bound(&s, &sv, level))) }
    };
    let (mut c, mut m, mut b) = fresh(cx, &mut rng, level)?;
    let mut level = level;
    let mut log = String::new();
    for _ in 0..cx.range(1, 8) {
        let (oc, om, ob) = fresh(cx, &mut rng, level)?;
        let pm = s.values(cx);
        let pt = s.encode(&pm, level);
        // bound of the result, checked before the operation is done
        let op = cx.below(8);
        let nb = match op {
            0 | 1 => &b + &ob + 1u32,
            2 => b.clone(),
            3 | 4 | 5 => &b + 1u32,
            // phase error: b * sum|p| plus the wrap of the message: t multiples of Q/t rounding
            6 => (&b + 1u32) * pm.iter().sum::<u64>() + s.n as u64 * s.t,
            _ => if level < s.par.max_level() { let q = *s.ql(level).last().unwrap(); &b / q + 3u32 + s.n as u64 * smax(&sv) } else { continue },
        } + 2u32;
        let nl = if op == 7 { level + 1 } else { level };
        if !s.fits(nl, &nb) { continue; }
        b = nb;
        log.push_str(&format!("{op} "));
        match op {
            0 => { c = &c + &oc; m = s.addp(&m, &om); }
            1 => { c -= &oc; m = s.subp(&m, &om); }
            2 => { c = -c; m = s.negp(&m); }
            3 => { c = c + &pt; m = s.addp(&m, &pm); }
            4 => { c -= &pt; m = s.subp(&m, &pm); }
            5 => { c = &pt - &c; m = s.subp(&pm, &m); }
            6 => { c *= &pt; m = s.mulp(&m, &pm); }
            _ => { c.switch_down().map_err(|e| e.to_string())?; level += 1; }
        }
    }
    cx.note(format!("ops={log}"));
    let d = es(sk.try_decrypt(&c), "decryption")?;
    check_eq!(d.level(), level, "level after the circuit");
    check_eq!(dec(&d)?, m, "decryption after the circuit (ops {log})");
    Ok(())
}
fn switching(cx: &mut Cx) -> R {
    let s = small_params(cx, 2, 5);
    let level = cx.below(s.q.len() as u64) as usize;
    let parts = cx.range(2, 4) as usize;
    let q = s.ql(level).to_vec();
    let ctx = s.par.context_at_level(level).unwrap().clone();
    let r: Vec<Rp> = (0..parts).map(|_| Rp::random(cx, &q, s.n)).collect();
    let a = Ciphertext::new(r.iter().map(|x| x.ntt(&ctx)).collect(), &s.par).unwrap();
    let max = s.par.max_level();
    check_eq!(max, s.q.len() - 1, "max level");
    check_eq!(a.max_switchable_level(), max, "max switchable level");
    let target = cx.below(max as u64 + 2) as usize;
    cx.note(format!("{} level={level} target={target} parts={parts}", s.describe()));
    // oracle: one level at a time, each dropping the last modulus with rounding to nearest
    let mut want = r.clone();
    let mut b = a.clone();
    let res = b.switch_to_level(target);
    if target < level || target > max {
        check!(res.is_err(), "switching from level {level} to level {target} accepted");
        check!(b == a, "a refused switch changed the ciphertext");
    } else {
        check!(res.is_ok(), "switching from level {level} to {target} refused: {res:?}");
        for _ in level..target {
            want = want.iter().map(|x| {
                let qq = BigInt::from(*x.q.last().unwrap());
                let v: Vec<BigInt> = x.lift().iter().map(|c| round_div(&BigInt::from(c.clone()), &qq)).collect();
                Rp::from_bigint(&x.q[..x.q.len() - 1], s.n, &v)
            }).collect();
        }
        let tctx = s.par.context_at_level(target).unwrap();
        check_eq!(b.len(), parts, "parts after switching");
        for i in 0..parts {
            check!(b[i].ctx() == tctx, "context of part {i} after switching");
            check_eq!(Rp::of_ntt(&b[i])?, want[i], "part {i} after switching");
        }
        // the recorded level follows
        let m = vec![1 % s.t; s.n];
        if prod(s.ql(target)) > BigUint::from(s.t) { let _ = &b + &s.encode(&m, target); }
    }
    let mut c = a.clone();
    let one = c.switch_down();
    check_eq!(one.is_ok(), level < max, "switch_down accepted");
    if level == max { check!(c == a, "a refused switch_down changed the ciphertext"); }
    for l in 0..=max + 1 { check_eq!(s.par.context_at_level(l).is_ok(), l <= max, "context at level {l}"); }
    for l in 0..=max { check_eq!(s.par.context_at_level(l).unwrap().moduli(), s.ql(l), "moduli at level {l}"); check_eq!(s.par.level_of_context(s.par.context_at_level(l).unwrap()).ok(), Some(l), "level of the context at level {l}"); }
    let _ = Poly::<PowerBasis>::try_convert_from(&[0u64][..], &ctx, false);
    Ok(())
}
