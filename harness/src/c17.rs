//! C17 rotations, inner sums, expansion (evaluation keys) and RGSW external products.
use crate::bx::*;
use crate::c14::poly_of;
use crate::c15::*;
use crate::c16::*;
use crate::fw::*;
use crate::gn::*;
use crate::ring::*;
use crate::{check, check_eq};
use fhe::bfv::*;
use fhe_traits::*;
use num_bigint::{BigInt, BigUint};
use num_traits::Signed;
use std::collections::HashSet;

pub fn kinds() -> Vec<Kind> {
    vec![
        Kind { prop: "C17", name: "rot.phase", quick: 500, thorough: 12_000, f: rotations },
        Kind { prop: "C17", name: "rot.slots", quick: 300, thorough: 8_000, f: slots },
        Kind { prop: "C17", name: "expand.phase", quick: 400, thorough: 10_000, f: expansion },
        Kind { prop: "C17", name: "expand.decrypt", quick: 250, thorough: 6_000, f: expand_decrypt },
        Kind { prop: "C17", name: "ek.unsupported", quick: 300, thorough: 8_000, f: unsupported },
        Kind { prop: "C17", name: "rgsw.phase", quick: 500, thorough: 12_000, f: rgsw },
    ]
}
fn bounded(got: &Rp, want: &Rp, bound: &BigUint, what: &str) -> R {
    let b = BigInt::from(bound.clone());
    for (i, d) in got.sub(want).centered().iter().enumerate() {
        check!(d.abs() <= b, "{what}: phase coefficient {i} is off by {d}, allowed {b}");
    }
    Ok(())
}
/// ciphertext level and key level
fn levels(cx: &mut Cx, s: &Set) -> (usize, usize) {
    let l = cx.below(s.q.len() as u64) as usize;
    (l, cx.below(l as u64 + 1) as usize)
}
fn random_ct(cx: &mut Cx, s: &Set, level: usize, parts: usize) -> Ciphertext {
    let q = s.ql(level).to_vec();
    let r: Vec<Rp> = (0..parts).map(|_| Rp::random(cx, &q, s.n)).collect();
    ct_of(s, level, &r)
}
fn pow3(i: usize, n: usize) -> usize { powmod(3, i as u64, 2 * n as u64) as usize }

fn rotations(cx: &mut Cx) -> R {
    let s = small_params(cx, 1, 4);
    let (level, kl) = levels(cx, &s);
    let (sk, sv) = s.sk(cx);
    let mut rng = cx.fork();
    let h = s.n / 2;
    let i = match cx.below(4) { 0 => 1, 1 => h - 1, 2 => 1 << cx.below(h.ilog2() as u64), _ => cx.range(1, h as u64 - 1) as usize };
    cx.note(format!("{} level={level} key level={kl} rotation by {i} s={}", s.describe(), short(&sv)));
    let mut b = es(EvaluationKeyBuilder::new_leveled(&sk, level, kl), "builder")?;
    es(b.enable_column_rotation(i).map(|_| ()), "column rotation")?;
    es(b.enable_row_rotation().map(|_| ()), "row rotation")?;
    let inner = cx.flip();
    if inner { es(b.enable_inner_sum().map(|_| ()), "inner sum")?; }
    let ek = es(b.build(&mut rng), "build")?;
    check!(ek.supports_column_rotation_by(i) && ek.supports_row_rotation(), "enabled rotations are not supported");
    let ct = random_ct(cx, &s, level, 2);
    let ph = s.phase(&sv, &ct)?;
    let e = ks_bound(&s, &sv, level, kl);
    let ctx = s.par.context_at_level(level).unwrap();
    let rot = es(ek.rotates_columns_by(&ct, i), "column rotation")?;
    check_eq!(rot.len(), 2, "parts");
    for p in rot.iter() { check!(p.ctx() == ctx, "context of the rotated ciphertext"); }
    bounded(&s.phase(&sv, &rot)?, &ph.subst(pow3(i, s.n)), &e, &format!("rotation of the columns by {i}"))?;
    let row = es(ek.rotates_rows(&ct), "row rotation")?;
    bounded(&s.phase(&sv, &row)?, &ph.subst(2 * s.n - 1), &e, "row rotation")?;
    // the level recorded in the result is the one of its polynomials
    let _ = &rot + &ct;
    let _ = &row - &ct;
    if inner {
        check!(ek.supports_inner_sum(), "inner sum enabled but not supported");
        let sum = es(ek.computes_inner_sum(&ct), "inner sum")?;
        let mut w = ph.clone();
        let mut k = 1;
        while k < h { w = w.add(&w.subst(pow3(k, s.n))); k *= 2; }
        w = w.add(&w.subst(2 * s.n - 1));
        bounded(&s.phase(&sv, &sum)?, &w, &(&e * (2 * s.n as u64)), "inner sum")?;
        let _ = &sum + &ct;
    }
    Ok(())
}
fn slots(cx: &mut Cx) -> R {
    let lo = *cx.pick(&[30u64, 45, 61]);
    let s = params(cx, 2, 4, lo, true);
    let (sk, sv) = s.sk(cx);
    let mut rng = cx.fork();
    let h = s.n / 2;
    let fresh = |_l: usize| BigUint::from(2 * s.v as u64 + 2);
    let mut best = None;
    for l in (0..s.q.len()).rev() { for kl in (0..=l).rev() {
        if s.fits(l, &((fresh(l) + ks_bound(&s, &sv, l, kl)) * (2 * s.n as u64))) { best = Some((l, kl)); break; }
    } if best.is_some() { break; } }
    let Some((l0, _)) = best else { return Ok(()); };
    let level = cx.below(l0 as u64 + 1) as usize;
    let Some(kl) = (0..=level).rev().find(|kl| s.fits(level, &((fresh(level) + ks_bound(&s, &sv, level, *kl)) * (2 * s.n as u64)))) else { return Ok(()); };
    let i = cx.range(1, h as u64 - 1) as usize;
    cx.note(format!("{} level={level} key level={kl} i={i}", s.describe()));
    let m = s.values(cx);
    let pt = es(Plaintext::try_encode(&m, Encoding::simd_at_level(level), &s.par), "simd encoding")?;
    let ct = enc(&sk, &pt, &mut rng)?;
    let mut b = es(EvaluationKeyBuilder::new_leveled(&sk, level, kl), "builder")?;
    es(b.enable_column_rotation(i).map(|_| ()), "column rotation")?;
    es(b.enable_inner_sum().map(|_| ()), "inner sum")?;
    let ek = es(b.build(&mut rng), "build")?;
    let open = |c: &Ciphertext| -> Result<Vec<u64>, String> {
        let p = es(sk.try_decrypt(c), "decryption")?;
        es(Vec::<u64>::try_decode(&p, Encoding::simd_at_level(level)), "decode")
    };
    let want: Vec<u64> = (0..s.n).map(|j| { let (r, c) = (j / h, j % h); m[r * h + (c + i) % h] }).collect();
    check_eq!(open(&es(ek.rotates_columns_by(&ct, i), "rotation")?)?, want, "columns rotated by {i} of {m:?}");
    let want: Vec<u64> = (0..s.n).map(|j| m[(j + h) % s.n]).collect();
    check_eq!(open(&es(ek.rotates_rows(&ct), "rotation")?)?, want, "rows swapped of {m:?}");
    let t = m.iter().fold(0, |a, x| addmod(a, *x, s.t));
    check_eq!(open(&es(ek.computes_inner_sum(&ct), "inner sum")?)?, vec![t; s.n], "inner sum of {m:?}");
    Ok(())
}
fn sizes(cx: &mut Cx, n: usize) -> usize {
    match cx.below(5) { 0 => n, 1 => n - 1, 2 => 1 << cx.below(n.ilog2() as u64 + 1), 3 => 3, _ => cx.range(1, n as u64) as usize }
}
fn expansion(cx: &mut Cx) -> R {
    let s = small_params(cx, 1, 3);
    let (level, kl) = levels(cx, &s);
    let (sk, sv) = s.sk(cx);
    let mut rng = cx.fork();
    let size = sizes(cx, s.n);
    let lg = size.next_power_of_two().ilog2() as usize;
    cx.note(format!("{} level={level} key level={kl} size={size} s={}", s.describe(), short(&sv)));
    let mut b = es(EvaluationKeyBuilder::new_leveled(&sk, level, kl), "builder")?;
    es(b.enable_expansion(lg).map(|_| ()), "expansion")?;
    let ek = es(b.build(&mut rng), "build")?;
    check!(ek.supports_expansion(lg), "enabled expansion not supported");
    let ct = random_ct(cx, &s, level, 2);
    let ph = s.phase(&sv, &ct)?;
    let out = es(ek.expands(&ct, size), "expansion")?;
    check_eq!(out.len(), size, "number of expanded ciphertexts");
    let bound = ks_bound(&s, &sv, level, kl) * (1u64 << (lg + 1));
    for j in 0..size {
        // 2^lg sum over i = j mod 2^lg of p_i X^(i-j)
        let mut w = Rp::zero(&ph.q, s.n);
        let mut i = j;
        while i < s.n { for k in 0..ph.q.len() { w.r[k][i - j] = ph.r[k][i]; } i += 1 << lg; }
        let w = w.scale(&BigUint::from(1u64 << lg));
        bounded(&s.phase(&sv, &out[j])?, &w, &bound, &format!("expanded ciphertext {j} of {size}"))?;
        let _ = &out[j] + &ct;
    }
    Ok(())
}
fn expand_decrypt(cx: &mut Cx) -> R {
    let lo = *cx.pick(&[30u64, 45, 61]);
    let s = params(cx, 2, 3, lo, false);
    let (sk, sv) = s.sk(cx);
    let mut rng = cx.fork();
    let size = sizes(cx, s.n);
    let lg = size.next_power_of_two().ilog2() as usize;
    let (level, kl) = levels(cx, &s);
    let bound = (BigUint::from(2 * s.v as u64 + 2) + ks_bound(&s, &sv, level, kl)) * (1u64 << (lg + 1)) + s.t;
    if !s.fits(level, &bound) { return Ok(()); }
    cx.note(format!("{} level={level} key level={kl} size={size}", s.describe()));
    let m: Vec<u64> = s.values(cx).into_iter().enumerate().map(|(i, x)| if i < size { x } else { 0 }).collect();
    let ct = enc(&sk, &s.encode(&m, level), &mut rng)?;
    let mut b = es(EvaluationKeyBuilder::new_leveled(&sk, level, kl), "builder")?;
    es(b.enable_expansion(lg).map(|_| ()), "expansion")?;
    let ek = es(b.build(&mut rng), "build")?;
    let out = es(ek.expands(&ct, size), "expansion")?;
    for (j, c) in out.iter().enumerate() {
        let p = es(sk.try_decrypt(c), "decryption")?;
        let mut want = vec![0; s.n];
        want[0] = mulmod(m[j], 1 << lg, s.t);
        check_eq!(dec(&p)?, want, "expanded ciphertext {j} of {size}");
    }
    Ok(())
}
fn unsupported(cx: &mut Cx) -> R {
    let s = small_params(cx, 1, 3);
    let (level, kl) = levels(cx, &s);
    let (sk, _) = s.sk(cx);
    let mut rng = cx.fork();
    let (n, h) = (s.n, s.n / 2);
    let lmax = n.ilog2() as usize;
    let cols: HashSet<usize> = (0..cx.below(4)).map(|_| cx.range(1, h as u64 - 1) as usize).collect();
    let (row, inner) = (cx.below(3) == 0, cx.below(3) == 0);
    let ex = if cx.flip() { 0 } else { cx.below(lmax as u64 + 1) as usize };
    let mut sorted: Vec<_> = cols.iter().copied().collect();
    sorted.sort();
    cx.note(format!("{} level={level} key level={kl} cols={sorted:?} row={row} inner={inner} expansion={ex}", s.describe()));
    let mut b = es(EvaluationKeyBuilder::new_leveled(&sk, level, kl), "builder")?;
    for c in &sorted { es(b.enable_column_rotation(*c).map(|_| ()), "column rotation")?; }
    if row { es(b.enable_row_rotation().map(|_| ()), "row rotation")?; }
    if inner { es(b.enable_inner_sum().map(|_| ()), "inner sum")?; }
    es(b.enable_expansion(ex).map(|_| ()), "expansion")?;
    for bad in [0, h, h + 1, 2 * n, usize::MAX] { check!(b.enable_column_rotation(bad).is_err(), "column rotation by {bad} enabled"); }
    check!(b.enable_expansion(lmax + 1).is_err(), "expansion beyond the degree enabled");
    let ek = es(b.build(&mut rng), "build")?;
    // the Galois exponents that the key holds
    let mut exps: HashSet<usize> = cols.iter().map(|c| pow3(*c, n)).collect();
    if row || inner { exps.insert(2 * n - 1); }
    if inner { let mut i = 1; while i < h { exps.insert(pow3(i, n)); i *= 2; } }
    for l in 0..ex { exps.insert((n >> l) + 1); }
    let has = |e: usize| exps.contains(&e);
    let ct = random_ct(cx, &s, level, 2);
    for i in 0..h + 2 {
        let ok = i >= 1 && i < h && has(pow3(i, n));
        check_eq!(ek.supports_column_rotation_by(i), ok, "supports column rotation by {i}");
        if !ok || i < 3 { check_eq!(ek.rotates_columns_by(&ct, i).is_ok(), ok, "column rotation by {i} carried out"); }
    }
    check_eq!(ek.supports_row_rotation(), has(2 * n - 1), "supports row rotation");
    check_eq!(ek.rotates_rows(&ct).is_ok(), has(2 * n - 1), "row rotation carried out");
    let inn = has(2 * n - 1) && (0..h.ilog2()).all(|k| has(pow3(1 << k, n)));
    check_eq!(ek.supports_inner_sum(), inn, "supports inner sum");
    check_eq!(ek.computes_inner_sum(&ct).is_ok(), inn, "inner sum carried out");
    for l in 0..lmax + 2 {
        let ok = l <= lmax && (0..l).all(|k| has((n >> k) + 1));
        if l <= lmax + 1 && l > lmax { check!(!ek.supports_expansion(l), "supports expansion level {l}"); continue; }
        check_eq!(ek.supports_expansion(l), ok, "supports expansion level {l}");
        let size = if l == 0 { 1 } else { (1 << (l - 1)) + 1 + cx.below(1 << (l - 1)) as usize };
        if l < 3 || !ok { check_eq!(ek.expands(&ct, size).is_ok(), ok, "expansion to {size} carried out"); }
    }
    check!(ek.expands(&ct, 0).is_err(), "expansion to no ciphertext");
    check!(ek.expands(&ct, n + 1).is_err(), "expansion beyond the degree");
    check!(ek.expands(&ct, usize::MAX).is_err(), "expansion to usize::MAX");
    // wrong operands
    let three = random_ct(cx, &s, level, 3);
    let mut wrong = vec![("three parts", three)];
    for l in 0..s.q.len() { if l != level { wrong.push(("another level", random_ct(cx, &s, l, 2))); } }
    wrong.push(("no part", Ciphertext::zero(&s.par)));
    let o = params_at_new(cx, s.n, s.q.len(), 20, false);
    if level < o.q.len() && o.par != s.par { wrong.push(("other parameters", random_ct(cx, &o, level, 2))); }
    for (what, c) in wrong {
        check!(ek.rotates_rows(&c).is_err(), "row rotation of a ciphertext with {what}");
        check!(ek.computes_inner_sum(&c).is_err(), "inner sum of a ciphertext with {what}");
        check!(ek.expands(&c, 1).is_err(), "expansion of a ciphertext with {what}");
        check!(ek.expands(&c, 2).is_err(), "expansion of a ciphertext with {what}");
        for i in sorted.iter().chain([1usize].iter()) { check!(ek.rotates_columns_by(&c, *i).is_err(), "column rotation of a ciphertext with {what}"); }
    }
    check!(EvaluationKeyBuilder::new_leveled(&sk, s.q.len(), 0).is_err(), "ciphertext level beyond the last");
    if level + 1 < s.q.len() { check!(EvaluationKeyBuilder::new_leveled(&sk, level, level + 1).is_err(), "key level above the ciphertext level"); }
    Ok(())
}
fn rgsw(cx: &mut Cx) -> R {
    let s = small_params(cx, 1, 4);
    let level = { let mut l = cx.below(s.q.len() as u64) as usize; while prod(s.ql(l)) <= BigUint::from(s.t) { l -= 1; } l };
    let (sk, sv) = s.sk(cx);
    let mut rng = cx.fork();
    let m = if cx.flip() { s.values(cx) } else { let mut v = vec![0; s.n]; v[cx.below(s.n as u64) as usize] = 1; v };
    cx.note(format!("{} level={level} m={m:?} s={}", s.describe(), short(&sv)));
    let pt = s.encode(&m, level);
    let mp = Rp::from_big(s.ql(level), s.n, &poly_of(&pt, &s, level)?);
    let g: RGSWCiphertext = es(sk.try_encrypt(&pt, &mut rng), "RGSW encryption")?;
    let ct = random_ct(cx, &s, level, 2);
    let ph = s.phase(&sv, &ct)?;
    let bound = ks_bound(&s, &sv, level, level) * 2u32;
    let ctx = s.par.context_at_level(level).unwrap();
    for (what, c) in [("ct * rgsw", &ct * &g), ("rgsw * ct", &g * &ct)] {
        check_eq!(c.len(), 2, "parts of {what}");
        for p in c.iter() { check!(p.ctx() == ctx, "context of {what}"); }
        bounded(&s.phase(&sv, &c)?, &ph.mul(&mp), &bound, what)?;
        let _ = &c + &ct;
    }
    // decryption of the product
    let m2 = s.values(cx);
    let fresh = BigUint::from(2 * s.v as u64 + 2) * (s.n as u64 * s.t) + bound + 2u32;
    if s.fits(level, &fresh) {
        let c = &enc(&sk, &s.encode(&m2, level), &mut rng)? * &g;
        let p = es(sk.try_decrypt(&c), "decryption")?;
        check_eq!(dec(&p)?, s.mulp(&m, &m2), "external product of {m:?} and {m2:?}");
    }
    // wrong operands are refused
    let three = random_ct(cx, &s, level, 3);
    check!(guarded(|| &three * &g).is_err(), "external product with three parts");
    for l in 0..s.q.len() { if l != level {
        let c = random_ct(cx, &s, l, 2);
        check!(guarded(|| &c * &g).is_err(), "external product across levels {l} and {level}");
    } }
    let o = params_at_new(cx, s.n, s.q.len(), 20, false);
    if o.par != s.par {
        let c = random_ct(cx, &o, level.min(o.q.len() - 1), 2);
        check!(guarded(|| &c * &g).is_err(), "external product across parameters");
        let r: Result<RGSWCiphertext, fhe::Error> = o.sk(cx).0.try_encrypt(&pt, &mut rng);
        check!(r.is_err(), "RGSW encryption of a plaintext of other parameters");
    }
    Ok(())
}
