//! C19 incompatible operands are refused, compatible ones never are (fhe level; polynomials: mix.rq).
use crate::bx::*;
use crate::c15::*;
use crate::c16::*;
use crate::fw::*;
use crate::ring::*;
use crate::{check, check_eq};
use fhe::bfv::*;
use fhe_math::rns::ScalingFactor;
use fhe_math::rq::{Ntt, Poly};
use fhe_traits::*;
use num_bigint::BigUint;
use std::sync::Arc;

pub fn kinds() -> Vec<Kind> {
    vec![
        Kind { prop: "C19", name: "mix.ctct", quick: 4_000, thorough: 60_000, f: ctct },
        Kind { prop: "C19", name: "mix.ctpt", quick: 4_000, thorough: 60_000, f: ctpt },
        Kind { prop: "C19", name: "mix.keys", quick: 600, thorough: 10_000, f: keys },
        Kind { prop: "C19", name: "mix.levels", quick: 1_500, thorough: 30_000, f: levels },
        Kind { prop: "C19", name: "mix.new", quick: 1_500, thorough: 30_000, f: ct_new },
    ]
}
/// Parameters that differ from `s` in one respect only (the polynomial contexts may be equal).
pub fn sibling(cx: &mut Cx, s: &Set) -> (Set, &'static str) {
    let (mut q, mut t, mut v, mut n) = (s.q.clone(), s.t, s.v, s.n);
    let what;
    match cx.below(5) {
        0 => { what = "another plaintext modulus"; loop { let x = cx.range(2, 1 << 10); if x != s.t && s.q.iter().all(|m| m % x != 0 && x % m != 0) && BigUint::from(x) < prod(&s.q) { t = x; break; } } }
        1 => { what = "another variance"; v = if s.v == 10 { 11 } else { 10 }; }
        2 if q.len() > 1 => { what = "fewer moduli"; q.pop(); if prod(&q) <= BigUint::from(t) { t = 2; } }
        3 => { what = "other moduli"; let pool = moduli(cx, n, 1 + q.len(), 40, 50); q = pool.into_iter().filter(|p| !s.q.contains(p)).take(s.q.len()).collect(); if prod(&q) <= BigUint::from(t) || q.iter().any(|m| t % m == 0) { t = 2; } }
        _ => { what = "another degree"; n = 2 * s.n; q = moduli(cx, n, s.q.len(), 40, 50); if prod(&q) <= BigUint::from(t) || q.iter().any(|m| t % m == 0) { t = 2; } }
    }
    let mut b = BfvParametersBuilder::new();
    b.set_degree(n).set_plaintext_modulus(t).set_moduli(&q).set_variance(v);
    let par = b.build_arc().expect("sibling parameters");
    (Set { par, n, q, t, v, simd: false }, what)
}
fn rand_ct(cx: &mut Cx, s: &Set, level: usize, parts: usize) -> Ciphertext {
    let r: Vec<Rp> = (0..parts).map(|_| Rp::random(cx, s.ql(level), s.n)).collect();
    ct_of(s, level, &r)
}
/// +1 for a result, 0 for a refusal
macro_rules! yields { ($e:expr) => { guarded(|| { let _ = $e; }).is_ok() }; }

fn ctct(cx: &mut Cx) -> R {
    let s = small_params(cx, 1, 4);
    let (o, how) = sibling(cx, &s);
    let level = cx.below(s.q.len() as u64) as usize;
    let parts = cx.range(2, 4) as usize;
    let a = rand_ct(cx, &s, level, parts);
    let (b, ok, what) = match cx.below(6) {
        0 | 1 => { let l = level.min(o.q.len() - 1); (rand_ct(cx, &o, l, parts), false, how) }
        2 if s.q.len() > 1 => { let mut l = cx.below(s.q.len() as u64 - 1) as usize; if l >= level { l += 1; } (rand_ct(cx, &s, l, parts), false, "another level") }
        3 => { let p = if parts == 2 { 3 } else { parts - 1 }; (rand_ct(cx, &s, level, p), false, "another part count") }
        4 => (Ciphertext::zero(&s.par), true, "the empty ciphertext"),
        _ => (rand_ct(cx, &s, level, parts), true, "an equal shape"),
    };
    let swap = cx.flip();
    let (x, y) = if swap { (&b, &a) } else { (&a, &b) };
    cx.note(format!("{} level={level} parts={parts}: {what}, swapped={swap}; other: {}", s.describe(), o.describe()));
    macro_rules! is { ($w:expr, $ok:expr, $e:expr) => {{ let g = yields!($e); check_eq!(g, $ok, "ciphertext {} with {what} gives a result", $w); }}; }
    is!("+", ok, x + y);
    is!("owned +", ok, x.clone() + y);
    is!("+=", ok, { let mut z = x.clone(); z += y; z });
    is!("-", ok, x - y);
    is!("owned -", ok, x.clone() - y);
    is!("-=", ok, { let mut z = x.clone(); z -= y; z });
    // a product may have operands of different sizes
    let mul_ok = ok || what == "another part count";
    if s.n <= 16 && parts <= 3 && b.len() <= 3 { is!("*", mul_ok, x * y); }
    if b.is_empty() {
        check!(&a + &b == a && &b + &a == a && &a - &b == a && &b - &a == -&a, "the empty ciphertext is not neutral");
        let mut z = b.clone(); z += &a; check!(z == a, "0 += a"); let mut z = b.clone(); z -= &a; check!(z == -&a, "0 -= a");
        let e = Ciphertext::zero(&o.par);
        for (p, q) in [(&a, &e), (&e, &a), (&b, &e), (&e, &b)] {
            check!(!yields!(p + q) && !yields!(p - q) && !yields!(p * q), "the empty ciphertext of other parameters ({how}) is combined");
            check!(!yields!({ let mut z = p.clone(); z += q; z }) && !yields!({ let mut z = p.clone(); z -= q; z }), "the empty ciphertext of other parameters ({how}) is combined in place");
        }
    }
    Ok(())
}
fn level_with(cx: &mut Cx, s: &Set) -> usize { let mut l = cx.below(s.q.len() as u64) as usize; while prod(s.ql(l)) <= BigUint::from(s.t) { l -= 1; } l }
fn ctpt(cx: &mut Cx) -> R {
    let s = small_params(cx, 1, 4);
    let (o, how) = sibling(cx, &s);
    let level = level_with(cx, &s);
    let parts = cx.range(2, 3) as usize;
    let m = s.values(cx);
    let pt = s.encode(&m, level);
    let ol = level_with(cx, &o);
    let om = o.values(cx);
    let opt = o.encode(&om, ol.min(level));
    let (ct, p, ok, what) = match cx.below(4) {
        0 => (rand_ct(cx, &s, level, parts), opt, false, how),
        1 => { let l = cx.below(s.q.len() as u64) as usize; (rand_ct(cx, &s, l, parts), pt, l == level, "a plaintext of some level") }
        2 => (Ciphertext::zero(&s.par), pt, false, "the empty ciphertext"),
        _ => (rand_ct(cx, &s, level, parts), pt, true, "an equal level"),
    };
    cx.note(format!("{} level={level} parts={parts}: {what}; other: {}", s.describe(), o.describe()));
    macro_rules! is { ($w:expr, $ok:expr, $e:expr) => {{ let g = yields!($e); check_eq!(g, $ok, "{} for a plaintext and a ciphertext with {what} gives a result", $w); }}; }
    is!("ct + pt", ok, &ct + &p);
    is!("owned ct + pt", ok, ct.clone() + &p);
    is!("pt + ct", ok, &p + &ct);
    is!("ct += pt", ok, { let mut z = ct.clone(); z += &p; z });
    is!("ct - pt", ok, &ct - &p);
    is!("owned ct - pt", ok, ct.clone() - &p);
    is!("pt - ct", ok, &p - &ct);
    is!("ct -= pt", ok, { let mut z = ct.clone(); z -= &p; z });
    let mok = ok || ct.is_empty();
    is!("ct * pt", mok, &ct * &p);
    is!("owned ct * pt", mok, ct.clone() * &p);
    is!("ct *= pt", mok, { let mut z = ct.clone(); z *= &p; z });
    // dot products and the keys
    let one = rand_ct(cx, &s, level, 2);
    let q1 = s.encode(&m, level);
    let r = dot_product_scalar([&one, &ct].into_iter(), [&q1, &p].into_iter());
    check_eq!(r.is_ok(), ok && ct.len() == 2, "dot product with {what} ({} parts) gives a result", ct.len());
    let r = dot_product_scalar([&ct].into_iter(), [&p].into_iter());
    check_eq!(r.is_ok(), ok, "dot product of one term with {what} gives a result");
    let (sk, _) = s.sk(cx);
    let mut rng = cx.fork();
    let mine = what != how;
    let e: Result<Ciphertext, fhe::Error> = sk.try_encrypt(&p, &mut rng);
    check_eq!(e.is_ok(), mine, "secret-key encryption of a plaintext ({what}) gives a result");
    let pk = PublicKey::new(&sk, &mut rng);
    let e: Result<Ciphertext, fhe::Error> = pk.try_encrypt(&p, &mut rng);
    check_eq!(e.is_ok(), mine, "public-key encryption of a plaintext ({what}) gives a result");
    if cx.below(4) == 0 {
        let e: Result<RGSWCiphertext, fhe::Error> = sk.try_encrypt(&p, &mut rng);
        check_eq!(e.is_ok(), mine, "RGSW encryption of a plaintext ({what}) gives a result");
    }
    let (osk, _) = o.sk(cx);
    check!(osk.try_decrypt(&one).is_err(), "decryption of a ciphertext of other parameters ({how})");
    check!(sk.try_decrypt(&one).is_ok(), "decryption of a compatible ciphertext refused");
    check!(sk.try_decrypt(&Ciphertext::zero(&s.par)).is_err(), "decryption of the empty ciphertext");
    Ok(())
}
fn keys(cx: &mut Cx) -> R {
    let s = small_params(cx, 2, 4);
    let (o, how) = sibling(cx, &s);
    let level = level_with(cx, &s).min(s.q.len() - 1);
    let kl = cx.below(level as u64 + 1) as usize;
    let (sk, _) = s.sk(cx);
    let mut rng = cx.fork();
    cx.note(format!("{} level={level} key level={kl} other ({how}): {}", s.describe(), o.describe()));
    let mut cands: Vec<(Ciphertext, bool, usize, String)> = vec![];
    for l in 0..s.q.len() { for p in 2..=4usize { cands.push((rand_ct(cx, &s, l, p), l == level, p, format!("level {l}, {p} parts"))); } }
    for p in 2..=3usize { let l = level.min(o.q.len() - 1); cands.push((rand_ct(cx, &o, l, p), false, p, format!("{how}, {p} parts"))); }
    cands.push((Ciphertext::zero(&s.par), false, 0, "no part".into()));
    if s.ql(kl).len() > 1 {
        let rk = es(RelinearizationKey::new_leveled(&sk, level, kl, &mut rng), "relinearisation key")?;
        for (c, here, p, w) in &cands {
            let mut z = c.clone();
            let r = guarded(|| rk.relinearizes(&mut z)).map_err(|e| format!("relinearisation of a ciphertext with {w} panics: {e}"))?;
            check_eq!(r.is_ok(), *here && *p == 3, "relinearisation (key for level {level}) of a ciphertext with {w} gives a result");
            if r.is_err() { check!(z == *c, "a refused relinearisation changed the ciphertext with {w}"); }
        }
        // multiplicators
        let mut m = es(Multiplicator::default(&rk), "multiplicator")?;
        check!(m.enable_relinearization(&rk).is_ok(), "the multiplicator refuses its own key");
        let (osk, _) = o.sk(cx);
        for ol in 0..o.q.len() {
            if let Ok(ork) = RelinearizationKey::new_leveled(&osk, ol, 0, &mut rng) { check!(m.enable_relinearization(&ork).is_err(), "a multiplicator accepts a relinearisation key with {how} (level {ol})"); }
        }
        for l in 0..s.q.len() { if l != level {
            if let Ok(k2) = RelinearizationKey::new_leveled(&sk, l, 0, &mut rng) { check!(m.enable_relinearization(&k2).is_err(), "a multiplicator of level {level} accepts a key of level {l}"); }
        } }
        let two = rand_ct(cx, &s, level, 2);
        for (c, here, p, w) in &cands {
            for (x, y) in [(&two, c), (c, &two)] {
                let r = guarded(|| m.multiply(x, y)).map_err(|e| format!("multiplication by a ciphertext with {w} panics: {e}"))?;
                check_eq!(r.is_ok(), *here && *p == 2, "the multiplicator of level {level} gives a result for a ciphertext with {w}");
            }
        }
    }
    // evaluation key
    let mut b = es(EvaluationKeyBuilder::new_leveled(&sk, level, kl), "builder")?;
    es(b.enable_row_rotation().map(|_| ()), "row")?;
    es(b.enable_column_rotation(1).map(|_| ()), "column")?;
    es(b.enable_expansion(1).map(|_| ()), "expansion")?;
    let ek = es(b.build(&mut rng), "evaluation key")?;
    let m0 = s.values(cx);
    let g: RGSWCiphertext = es(sk.try_encrypt(&s.encode(&m0, level), &mut rng), "RGSW encryption")?;
    for (c, here, p, w) in &cands {
        let ok = *here && *p == 2;
        macro_rules! is { ($n:expr, $e:expr) => {{ let r = guarded(|| $e).map_err(|e| format!("{} of a ciphertext with {w} panics: {e}", $n))?; check_eq!(r.is_ok(), ok, "{} (key for level {level}) of a ciphertext with {w} gives a result", $n); }}; }
        is!("row rotation", ek.rotates_rows(c));
        is!("column rotation", ek.rotates_columns_by(c, 1));
        is!("expansion", ek.expands(c, 2));
        is!("expansion to one", ek.expands(c, 1));
        check_eq!(yields!(c * &g), ok, "external product (level {level}) with a ciphertext with {w} gives a result");
        check_eq!(yields!(&g * c), ok, "external product (level {level}) with a ciphertext with {w} gives a result");
    }
    Ok(())
}
fn levels(cx: &mut Cx) -> R {
    let s = small_params(cx, 1, 4);
    let max = s.q.len() - 1;
    let level = cx.below(max as u64 + 1) as usize;
    let ct = { let p = cx.range(2, 3) as usize; rand_ct(cx, &s, level, p) };
    cx.note(format!("{} level={level}", s.describe()));
    check_eq!(s.par.max_level(), max, "max_level");
    for t in 0..max + 3 {
        let mut z = ct.clone();
        let r = z.switch_to_level(t);
        check_eq!(r.is_ok(), t >= level && t <= max, "switching from level {level} to {t} (last level {max})");
        if r.is_err() { check!(z == ct, "a refused switch to level {t} changed the ciphertext"); }
        else {
            let c = s.par.context_at_level(t).unwrap();
            check!(z.iter().all(|p| p.ctx() == c), "the switched ciphertext is not at level {t}");
            let other = rand_ct(cx, &s, t, z.len());
            check!(yields!(&z + &other), "the switched ciphertext does not combine with one of level {t}");
        }
        check_eq!(s.par.context_at_level(t).is_ok(), t <= max, "context at level {t}");
        check_eq!(s.par.context_level_at(t).is_ok(), t <= max, "context level {t}");
        let e = guarded(|| Plaintext::try_encode(&[0u64, 1][..], Encoding::poly_at_level(t), &s.par)).map_err(|e| format!("encoding at level {t} panics: {e}"))?;
        check_eq!(e.is_ok(), t <= max, "encoding at level {t}");
        let e = guarded(|| Plaintext::zero(Encoding::poly_at_level(t), &s.par)).map_err(|e| format!("the zero plaintext at level {t} panics: {e}"))?;
        check_eq!(e.is_ok(), t <= max, "zero plaintext at level {t}");
    }
    let mut z = ct.clone();
    let r = z.switch_down();
    check_eq!(r.is_ok(), level < max, "switching down from level {level} of {max}");
    if r.is_err() { check!(z == ct, "a refused switch changed the ciphertext"); }
    check!(ct.clone().switch_to_level(usize::MAX).is_err(), "switching to level usize::MAX");
    // keys at levels
    let (sk, _) = s.sk(cx);
    let mut rng = cx.fork();
    if s.n <= 16 {
        for (a, b) in [(max + 1, 0), (level, max + 1), (usize::MAX, 0), (level, level + 1), (level, 0)] {
            let k = guarded(|| RelinearizationKey::new_leveled(&sk, a, b, &mut rng)).map_err(|e| format!("relinearisation key for levels {a},{b} panics: {e}"))?;
            if a <= max && b <= max && b > a {
                // a key below its ciphertexts, if it is built at all, never gives a result
                if let Ok(k) = k {
                    let mut z = rand_ct(cx, &s, a, 3);
                    check!(k.relinearizes(&mut z).is_err(), "a relinearisation key of level {b} serves a ciphertext of level {a}");
                }
            } else { check_eq!(k.is_ok(), a <= max && b <= a && s.q.len() - b > 1, "relinearisation key for ciphertext level {a}, key level {b}"); }
            let r = guarded(|| EvaluationKeyBuilder::new_leveled(&sk, a, b).is_ok()).map_err(|e| format!("evaluation key builder for levels {a},{b} panics: {e}"))?;
            check_eq!(r, a <= max && b <= a, "evaluation key builder for ciphertext level {a}, key level {b}");
        }
    }
    let one = ScalingFactor::one;
    let m = guarded(|| Multiplicator::new_leveled(one(), one(), &s.q, one(), max + 1, &s.par).is_err()).map_err(|e| format!("multiplicator beyond the last level panics: {e}"))?;
    check!(m, "multiplicator beyond the last level");
    Ok(())
}
fn ct_new(cx: &mut Cx) -> R {
    let s = small_params(cx, 1, 4);
    let (o, how) = sibling(cx, &s);
    let k = cx.below(5) as usize;
    let l0 = cx.below(s.q.len() as u64) as usize;
    let mut ok = k >= 2;
    let mut c: Vec<Poly<Ntt>> = vec![];
    let mut shape = vec![];
    for i in 0..k {
        let (ctx, q, n, w): (Arc<fhe_math::rq::Context>, Vec<u64>, usize, String) = match cx.below(if i == 0 { 8 } else { 6 }) {
            0 => { let l = cx.below(s.q.len() as u64) as usize; if l != l0 { ok = false; } (s.par.context_at_level(l).unwrap().clone(), s.ql(l).to_vec(), s.n, format!("level {l}")) }
            1 => { let l = l0.min(o.q.len() - 1); let c = o.par.context_at_level(l).unwrap().clone(); if &c != s.par.context_at_level(l0).unwrap() { ok = false; } (c, o.ql(l).to_vec(), o.n, how.to_string()) }
            _ => (s.par.context_at_level(l0).unwrap().clone(), s.ql(l0).to_vec(), s.n, "same".into()),
        };
        shape.push(w);
        c.push(Rp::random(cx, &q, n).ntt(&ctx));
    }
    // a ciphertext all of whose parts live at another level of the same chain is fine
    if k >= 2 && c.iter().all(|p| p.ctx() == c[0].ctx()) { ok = (0..s.q.len()).any(|l| s.par.context_at_level(l).unwrap() == c[0].ctx()); }
    cx.note(format!("{} level={l0} parts {shape:?}; other: {}", s.describe(), o.describe()));
    let r = guarded(|| Ciphertext::new(c.clone(), &s.par)).map_err(|e| format!("Ciphertext::new panics on {shape:?}: {e}"))?;
    check_eq!(r.is_ok(), ok, "Ciphertext::new of {shape:?} gives a result");
    if let Ok(ct) = r {
        let l = (0..s.q.len()).find(|l| s.par.context_at_level(*l).unwrap() == c[0].ctx()).unwrap();
        check_eq!(ct.len(), k, "parts");
        check!(ct.iter().zip(&c).all(|(a, b)| a == b), "Ciphertext::new changed its polynomials");
        let z = rand_ct(cx, &s, l, k);
        check!(yields!(&ct + &z), "the new ciphertext does not combine with one of its level {l}");
        for m in 0..s.q.len() { if m != l { let z = rand_ct(cx, &s, m, k); check!(!yields!(&ct + &z), "the new ciphertext of level {l} combines with one of level {m}"); } }
    }
    Ok(())
}
