//! C20 the variable-time permission through the scheme: a result carries it only if every
//! polynomial that enters it did.
use crate::bx::*;
use crate::c07::vtok;
use crate::c15::*;
use crate::c16::*;
use crate::fw::*;
use crate::ring::*;
use crate::{check, check_eq};
use fhe::bfv::*;
use fhe_traits::*;
use num_bigint::BigUint;

pub fn kinds() -> Vec<Kind> {
    vec![
        Kind { prop: "C20", name: "vt.bfv", quick: 2_500, thorough: 40_000, f: linear },
        Kind { prop: "C20", name: "vt.keys", quick: 500, thorough: 8_000, f: keys },
    ]
}
fn flags(c: &Ciphertext) -> Vec<bool> { c.iter().map(|p| p.allows_variable_time_computations()).collect() }
fn with_flags(cx: &mut Cx, s: &Set, level: usize, parts: usize) -> (Ciphertext, Vec<bool>) {
    let r: Vec<Rp> = (0..parts).map(|_| Rp::random(cx, s.ql(level), s.n)).collect();
    let mut c = ct_of(s, level, &r);
    let all = cx.flip();
    for p in c.iter_mut() {
        if all || cx.flip() { p.allow_variable_time_computations(vtok()); } else { p.disallow_variable_time_computations(); }
    }
    let f = flags(&c);
    (c, f)
}
/// got[i] may be set only when may[i] is
fn within(got: &Ciphertext, may: &[bool], what: &str) -> R {
    let g = flags(got);
    check_eq!(g.len(), may.len(), "parts of {what}");
    for i in 0..g.len() { check!(!g[i] || may[i], "{what}: part {i} carries the variable-time permission although an input did not (parts {g:?}, allowed {may:?})"); }
    Ok(())
}
fn and(a: &[bool], b: &[bool]) -> Vec<bool> { a.iter().zip(b).map(|(x, y)| *x && *y).collect() }
fn tensor(a: &[bool], b: &[bool]) -> Vec<bool> {
    let mut r = vec![true; a.len() + b.len() - 1];
    for i in 0..a.len() { for j in 0..b.len() { r[i + j] &= a[i] && b[j]; } }
    r
}
fn level_with(cx: &mut Cx, s: &Set) -> usize { let mut l = cx.below(s.q.len() as u64) as usize; while prod(s.ql(l)) <= BigUint::from(s.t) { l -= 1; } l }
fn linear(cx: &mut Cx) -> R {
    let s = small_params(cx, 1, 3);
    let level = level_with(cx, &s);
    let parts = cx.range(2, 3) as usize;
    let (a, fa) = with_flags(cx, &s, level, parts);
    let (b, fb) = with_flags(cx, &s, level, parts);
    let m = s.values(cx);
    let vt = cx.flip();
    let pt = if vt { es(Plaintext::try_encode_vt(&m[..], Encoding::poly_at_level(level), &s.par, vtok()), "encode")? } else { s.encode(&m, level) };
    cx.note(format!("{} level={level} flags {fa:?} {fb:?} plaintext {vt}", s.describe()));
    let ab = and(&fa, &fb);
    within(&(&a + &b), &ab, "ct + ct")?;
    within(&(a.clone() + &b), &ab, "owned ct + ct")?;
    { let mut z = a.clone(); z += &b; within(&z, &ab, "ct += ct")?; }
    within(&(&a - &b), &ab, "ct - ct")?;
    within(&(a.clone() - &b), &ab, "owned ct - ct")?;
    { let mut z = a.clone(); z -= &b; within(&z, &ab, "ct -= ct")?; }
    within(&-&a, &fa, "-ct")?;
    within(&-a.clone(), &fa, "owned -ct")?;
    within(&a.clone(), &fa, "clone")?;
    // the plaintext enters part 0 of a sum and every part of a product
    let mut p0 = fa.clone(); p0[0] &= vt;
    within(&(&a + &pt), &p0, "ct + pt")?;
    within(&(&pt + &a), &p0, "pt + ct")?;
    within(&(&a - &pt), &p0, "ct - pt")?;
    within(&(&pt - &a), &p0, "pt - ct")?;
    { let mut z = a.clone(); z += &pt; within(&z, &p0, "ct += pt")?; }
    { let mut z = a.clone(); z -= &pt; within(&z, &p0, "ct -= pt")?; }
    let pm: Vec<bool> = fa.iter().map(|x| *x && vt).collect();
    within(&(&a * &pt), &pm, "ct * pt")?;
    { let mut z = a.clone(); z *= &pt; within(&z, &pm, "ct *= pt")?; }
    let d = es(dot_product_scalar([&a, &b].into_iter(), [&pt, &pt].into_iter()), "dot product")?;
    within(&d, &ab.iter().map(|x| *x && vt).collect::<Vec<_>>(), "dot product")?;
    // one plain and one public plaintext
    let pub_pt = es(Plaintext::try_encode_vt(&m[..], Encoding::poly_at_level(level), &s.par, vtok()), "encode")?;
    let d = es(dot_product_scalar([&a, &a].into_iter(), [&pub_pt, &pt].into_iter()), "dot product")?;
    within(&d, &pm, "dot product with a plain plaintext last")?;
    if s.n <= 16 {
        within(&(&a * &b), &tensor(&fa, &fb), "ct * ct")?;
        within(&(&a * &a), &tensor(&fa, &fa), "ct * ct (square)")?;
    }
    if level < s.par.max_level() {
        let mut z = a.clone();
        es(z.switch_down(), "switch_down")?;
        within(&z, &fa, "switch_down")?;
        let mut z = a.clone();
        es(z.switch_to_level(s.par.max_level()), "switch_to_level")?;
        within(&z, &fa, "switch_to_level")?;
    }
    // the plaintext that decryption returns never carries it, whatever the ciphertext allowed
    let (sk, _) = s.sk(cx);
    let dp = es(sk.try_decrypt(&a), "decryption")?;
    let (all, _) = { let (mut c, f) = with_flags(cx, &s, level, 2); c.iter_mut().for_each(|p| p.allow_variable_time_computations(vtok())); (c, f) };
    within(&(&all * &dp), &[false, false], "ct * decrypted plaintext")?;
    // an encoded plaintext carries it only when asked for
    within(&(&all * &s.encode(&m, level)), &[false, false], "ct * encoded plaintext")?;
    check_eq!(flags(&(&all * &pub_pt)), vec![true; 2], "parts of a public ciphertext times a plaintext encoded as public");
    // removal is effective, and serialisation grants nothing on top
    let mut z = a.clone();
    z.iter_mut().for_each(|p| p.disallow_variable_time_computations());
    within(&z, &vec![false; parts], "disallow")?;
    within(&(&z + &a), &vec![false; parts], "sum after disallow")?;
    Ok(())
}
fn keys(cx: &mut Cx) -> R {
    let s = small_params(cx, 1, 3);
    let level = level_with(cx, &s);
    let kl = cx.below(level as u64 + 1) as usize;
    let (sk, _) = s.sk(cx);
    let mut rng = cx.fork();
    cx.note(format!("{} level={level} key level={kl}", s.describe()));
    let (a, fa) = with_flags(cx, &s, level, 2);
    let (b, fb) = with_flags(cx, &s, level, 2);
    // Galois: part 1 is key-switched into both parts
    let mut bld = es(EvaluationKeyBuilder::new_leveled(&sk, level, kl), "builder")?;
    es(bld.enable_row_rotation().map(|_| ()), "row")?;
    es(bld.enable_column_rotation(1).map(|_| ()), "column")?;
    es(bld.enable_inner_sum().map(|_| ()), "inner")?;
    es(bld.enable_expansion(1).map(|_| ()), "expansion")?;
    let ek = es(bld.build(&mut rng), "evaluation key")?;
    let g = [fa[0] && fa[1], fa[1]];
    within(&es(ek.rotates_rows(&a), "rows")?, &g, "row rotation")?;
    within(&es(ek.rotates_columns_by(&a, 1), "columns")?, &g, "column rotation")?;
    within(&es(ek.computes_inner_sum(&a), "inner sum")?, &g, "inner sum")?;
    for c in es(ek.expands(&a, 2), "expansion")? { within(&c, &g, "expansion")?; }
    // external product: both parts are decomposed into both
    let m = s.values(cx);
    let r: RGSWCiphertext = es(sk.try_encrypt(&s.encode(&m, level), &mut rng), "RGSW")?;
    let both = fa[0] && fa[1];
    within(&(&a * &r), &[both, both], "external product")?;
    if s.ql(kl).len() > 1 {
        let rk = es(RelinearizationKey::new_leveled(&sk, level, kl, &mut rng), "relinearisation key")?;
        let (mut t, ft) = with_flags(cx, &s, level, 3);
        es(rk.relinearizes(&mut t), "relinearisation")?;
        within(&t, &[ft[0] && ft[2], ft[1] && ft[2]], "relinearisation")?;
        let mp = es(Multiplicator::default(&rk), "multiplicator")?;
        let p = es(mp.multiply(&a, &b), "multiply")?;
        let f = tensor(&fa, &fb);
        within(&p, &[f[0] && f[2], f[1] && f[2]], "multiplicator with relinearisation")?;
    }
    // keys read back from bytes hold no flag that a fresh key lacks: same results
    let pk = PublicKey::new(&sk, &mut rng);
    let ct = enc_pk(&pk, &s.encode(&m, level), &mut rng)?;
    let dp = es(sk.try_decrypt(&ct), "decryption")?;
    within(&(&ct * &dp), &[false, false], "ct * decrypted plaintext")?;
    Ok(())
}
