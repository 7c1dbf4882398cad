//! C13 serialisation round trips of every object, over the histories that produce it.
use crate::bx::*;
use crate::c16::ct_of;
use crate::fw::*;
use crate::ring::*;
use crate::{check, check_eq};
use fhe::bfv::*;
use fhe::mbfv::*;
use fhe_math::rq::{Context, Ntt, NttShoup, Poly, PowerBasis};
use fhe_traits::*;
use num_bigint::BigUint;
use std::sync::Arc;

pub fn kinds() -> Vec<Kind> {
    vec![
        Kind { prop: "C13", name: "rt.params", quick: 500, thorough: 8_000, f: params_rt },
        Kind { prop: "C13", name: "rt.poly", quick: 3_000, thorough: 60_000, f: poly_rt },
        Kind { prop: "C13", name: "rt.ciphertext", quick: 2_500, thorough: 50_000, f: ciphertext_rt },
        Kind { prop: "C13", name: "rt.keys", quick: 700, thorough: 15_000, f: keys_rt },
        Kind { prop: "C13", name: "rt.shared", quick: 200, thorough: 5_000, f: shared_rt },
    ]
}
/// `x` survives the trip, and the second serialisation gives the same object again.
pub fn trip<T: Serialize + DeserializeParametrized + PartialEq>(x: &T, par: &Arc<T::Parameters>, what: &str) -> Result<T, String>
where T::Error: std::fmt::Display {
    let b = x.to_bytes();
    let y = T::from_bytes(&b, par).map_err(|e| format!("{what}: own serialisation refused: {e}"))?;
    check!(y == *x, "{what}: the deserialised object differs");
    let z = T::from_bytes(&y.to_bytes(), par).map_err(|e| format!("{what}: second serialisation refused: {e}"))?;
    check!(z == *x, "{what}: the object differs after the second round trip");
    Ok(y)
}
fn params_rt(cx: &mut Cx) -> R {
    let (p, d) = if cx.flip() {
        let lo = *cx.pick(&[10u64, 20, 45, 61]);
        let s = params(cx, 1, 5, lo, cx.idx % 2 == 0);
        (s.par.clone(), s.describe())
    } else {
        let n = 1usize << cx.range(3, 6);
        let k = cx.range(2, 5) as usize;
        let q = moduli(cx, n, k, 40, 62);
        // a plaintext modulus above 64 bits
        let bits = cx.range(65, prod(&q).bits() - 2);
        let mut t = (BigUint::from(1u32) << bits) + 1u32;
        while q.iter().any(|x| modb(&t, *x) == 0) { t += 2u32; }
        let v = cx.range(1, 32) as usize;
        let mut b = BfvParametersBuilder::new();
        b.set_degree(n).set_plaintext_modulus_biguint(t.clone()).set_moduli(&q).set_variance(v);
        (es(b.build_arc(), "parameters")?, format!("n={n} t={t} q={q:?} var={v}"))
    };
    cx.note(&d);
    let b = p.to_bytes();
    let r = BfvParameters::try_deserialize(&b).map_err(|e| format!("own parameters refused: {e}"))?;
    check!(r == *p, "deserialised parameters differ");
    check_eq!(r.moduli(), p.moduli(), "moduli");
    check_eq!(r.degree(), p.degree(), "degree");
    check_eq!(r.to_bytes(), b, "second serialisation");
    Ok(())
}
/// any set of moduli and degree a context accepts
pub fn any_ctx(cx: &mut Cx) -> (Arc<Context>, usize) {
    let n = 1usize << cx.range(3, 7);
    let lo = *cx.pick(&[10u64, 12, 20, 31, 45, 61]);
    let k = cx.range(1, 4) as usize;
    let q = moduli(cx, n, k, lo, 62);
    (Arc::new(Context::new(&q, n).expect("context")), n)
}
fn poly_rt(cx: &mut Cx) -> R {
    let (ctx, n) = any_ctx(cx);
    let q = ctx.moduli().to_vec();
    let rp = if cx.below(4) == 0 { Rp { q: q.clone(), n, r: q.iter().map(|p| vec![p - 1; n]).collect() } } else { Rp::random(cx, &q, n) };
    let mut p = rp.ntt(&ctx).into_power_basis();
    let hist = cx.below(4);
    if hist == 1 { p = -&p; }
    if hist == 2 { let r = p.clone(); p += &r; }
    if cx.flip() { p.allow_variable_time_computations(VariableTime::new(PublicData::assert_public())); }
    cx.note(format!("n={n} q={q:?} history={hist} {}", short(&rp.r)));
    fn t<R>(p: &Poly<R>, ctx: &Arc<Context>, what: &str) -> Result<(), String>
    where R: fhe_math::rq::RepresentationTag, Poly<R>: Serialize + DeserializeWithContext<Context = Context>, <Poly<R> as DeserializeWithContext>::Error: std::fmt::Display {
        let b = p.to_bytes();
        let y = Poly::<R>::from_bytes(&b, ctx).map_err(|e| format!("{what}: refused: {e}"))?;
        check!(y == *p, "{what}: the deserialised polynomial differs");
        check!(!y.allows_variable_time_computations(), "{what}: permission acquired from bytes");
        Ok(())
    }
    t::<PowerBasis>(&p, &ctx, "power basis")?;
    t::<Ntt>(&p.clone().into_ntt(), &ctx, "ntt")?;
    t::<NttShoup>(&p.clone().into_ntt_shoup(), &ctx, "ntt shoup")?;
    check!(Poly::<Ntt>::from_bytes(&p.to_bytes(), &ctx).is_err(), "a power basis polynomial read as ntt");
    check!(Poly::<PowerBasis>::from_bytes(&p.clone().into_ntt().to_bytes(), &ctx).is_err(), "an ntt polynomial read as power basis");
    Ok(())
}
fn ciphertext_rt(cx: &mut Cx) -> R {
    let lo = *cx.pick(&[10u64, 20, 45, 61]);
    let s = params(cx, 1, 4, lo, false);
    let (sk, _) = s.sk(cx);
    let mut rng = cx.fork();
    let mut level = cx.below(s.q.len() as u64) as usize;
    while prod(s.ql(level)) <= BigUint::from(s.t) { level -= 1; }
    let m = s.values(cx);
    let pt = s.encode(&m, level);
    let q = s.ql(level).to_vec();
    let start = cx.below(4);
    let mut hist = vec![];
    let mut ct = match start {
        0 | 1 => { hist.push("secret-key encryption"); enc(&sk, &pt, &mut rng)? }
        2 => { hist.push("public-key encryption"); enc_pk(&PublicKey::new(&sk, &mut rng), &pt, &mut rng)? }
        _ => { hist.push("from parts"); let k = cx.range(2, 6) as usize; let r: Vec<Rp> = (0..k).map(|_| Rp::random(cx, &q, s.n)).collect(); ct_of(&s, level, &r) }
    };
    for _ in 0..cx.below(4) {
        let _ = trip(&ct, &s.par, &format!("ciphertext after {hist:?}"))?;
        let k = cx.below(16);
        match k {
            0 => { hist.push("negate"); ct = -&ct; }
            1 => { hist.push("add"); let o = ct.clone(); ct += &o; }
            2 => { hist.push("sub"); let o = ct.clone(); ct -= &o; }
            3 if ct[0].ctx() == s.par.context_at_level(level).unwrap() => { hist.push("add plaintext"); ct += &pt; }
            4 if ct[0].ctx() == s.par.context_at_level(level).unwrap() => { hist.push("sub plaintext"); ct -= &pt; }
            5 if ct[0].ctx() == s.par.context_at_level(level).unwrap() => { hist.push("mul plaintext"); ct *= &pt; }
            6 => { hist.push("switch down"); if ct.switch_down().is_err() { continue; } }
            7 => { hist.push("switch to last level"); es(ct.switch_to_level(s.par.max_level()), "switch")?; }
            8 => { hist.push("last part negated in place"); let i = ct.len() - 1; ct[i] = -&ct[i]; }
            9 => { hist.push("first part changed in place"); ct[0] = -&ct[0]; }
            10 => { hist.push("iter_mut"); let z = ct[0].clone(); for p in ct.iter_mut() { *p += &z; } }
            11 => { hist.push("reverse"); ct.reverse(); }
            12 => { hist.push("round trip"); ct = trip(&ct, &s.par, "ciphertext")?; }
            13 if ct.len() <= 3 => { hist.push("square"); ct = &ct * &ct; }
            14 => { hist.push("clone"); ct = ct.clone(); }
            15 if ct.len() == 3 && s.q.len() > 1 => {
                if let Ok(l) = s.par.level_of_context(ct[0].ctx()) {
                    if s.q.len() - l > 1 || l > 0 {
                        hist.push("relinearise");
                        let rk = es(RelinearizationKey::new_leveled(&sk, l, 0, &mut rng), "relinearisation key")?;
                        es(rk.relinearizes(&mut ct), "relinearisation")?;
                    }
                }
            }
            _ => { hist.push("swap"); let j = cx.below(ct.len() as u64) as usize; ct.swap(0, j); }
        }
    }
    cx.note(format!("{} level={level} {hist:?}", s.describe()));
    let y = trip(&ct, &s.par, &format!("ciphertext after {hist:?}"))?;
    check_eq!(y.len(), ct.len(), "parts");
    for (a, b) in y.iter().zip(ct.iter()) { check!(a == b, "a part differs after {hist:?}"); }
    let _ = &y + &ct;
    // explicit and seeded last part, more than two parts: the seed must never outlive its part
    if start <= 1 && s.q.len() > 1 && ct.len() == 2 && level == 0 && cx.flip() {
        use prost::Message;
        let f = enc(&sk, &s.encode(&m, 0), &mut rng)?;
        let mut pr = fhe::proto::bfv::Ciphertext::decode(&f.to_bytes()[..]).map_err(|e| e.to_string())?;
        let extra = pr.c[0].clone();
        pr.c.push(extra);
        let mut three = es(Ciphertext::from_bytes(&pr.encode_to_vec(), &s.par), "three parts with a seed")?;
        check_eq!(three.len(), 3, "parts");
        let _ = trip(&three, &s.par, "three parts with a seed")?;
        let rk = es(RelinearizationKey::new(&sk, &mut rng), "relinearisation key")?;
        es(rk.relinearizes(&mut three), "relinearisation")?;
        let _ = trip(&three, &s.par, "relinearised ciphertext that had a seed")?;
    }
    Ok(())
}
fn keys_rt(cx: &mut Cx) -> R {
    let lo = *cx.pick(&[10u64, 20, 45, 61]);
    let s = params(cx, 1, 4, lo, false);
    let (sk, sv) = s.sk(cx);
    let mut rng = cx.fork();
    let level = cx.below(s.q.len() as u64) as usize;
    let kl = cx.below(level as u64 + 1) as usize;
    cx.note(format!("{} level={level} key level={kl} s={}", s.describe(), short(&sv)));
    let sk2 = trip(&sk, &s.par, "secret key")?;
    let wide: Vec<i64> = (0..s.n).map(|_| cx.word() as i64).collect();
    let w = s.sk_of(&wide);
    let _ = trip(&w, &s.par, "secret key with large coefficients")?;
    let pk = PublicKey::new(&sk, &mut rng);
    let pk2 = trip(&pk, &s.par, "public key")?;
    let m = s.values(cx);
    if s.fits(0, &crate::c15::pk_bound(&s, &sv, 0)) {
        let c = enc_pk(&pk2, &s.encode(&m, 0), &mut rng)?;
        check_eq!(dec(&es(sk2.try_decrypt(&c), "decryption")?)?, m, "deserialised key pair");
    }
    if s.q.len() - kl > 1 {
        let rk = es(RelinearizationKey::new_leveled(&sk, level, kl, &mut rng), "relinearisation key")?;
        let _ = trip(&rk, &s.par, "relinearisation key")?;
    }
    let mut b = es(EvaluationKeyBuilder::new_leveled(&sk, level, kl), "builder")?;
    let ex = cx.below(s.n.ilog2() as u64 + 1) as usize;
    let cols: Vec<usize> = (0..cx.below(3)).map(|_| cx.range(1, s.n as u64 / 2 - 1) as usize).collect();
    let (row, inner) = (cx.flip(), cx.flip());
    if row { es(b.enable_row_rotation().map(|_| ()), "row rotation")?; }
    if inner { es(b.enable_inner_sum().map(|_| ()), "inner sum")?; }
    for c in &cols { es(b.enable_column_rotation(*c).map(|_| ()), "column rotation")?; }
    es(b.enable_expansion(ex).map(|_| ()), "expansion")?;
    let ek = es(b.build(&mut rng), "build")?;
    let e2 = trip(&ek, &s.par, "evaluation key")?;
    let q = s.ql(level).to_vec();
    let r: Vec<Rp> = (0..2).map(|_| Rp::random(cx, &q, s.n)).collect();
    let ct = ct_of(&s, level, &r);
    let same = |a: Result<Ciphertext, fhe::Error>, b: Result<Ciphertext, fhe::Error>, what: &str| -> R {
        check!(a == b, "{what} with the deserialised evaluation key differs");
        Ok(())
    };
    same(ek.rotates_rows(&ct), e2.rotates_rows(&ct), "row rotation")?;
    for c in &cols { same(ek.rotates_columns_by(&ct, *c), e2.rotates_columns_by(&ct, *c), "column rotation")?; }
    check!(ek.expands(&ct, 1 << ex) == e2.expands(&ct, 1 << ex), "expansion with the deserialised evaluation key differs");
    same(ek.computes_inner_sum(&ct), e2.computes_inner_sum(&ct), "inner sum")?;
    if prod(s.ql(level)) > BigUint::from(s.t) {
        let g: RGSWCiphertext = es(sk.try_encrypt(&s.encode(&m, level), &mut rng), "RGSW encryption")?;
        let g2 = trip(&g, &s.par, "RGSW ciphertext")?;
        check!(&ct * &g == &ct * &g2, "external product with the deserialised RGSW ciphertext differs");
    }
    Ok(())
}
fn shared_rt(cx: &mut Cx) -> R {
    let lo = *cx.pick(&[20u64, 45, 61]);
    let s = params(cx, 2, 3, lo, false);
    let mut rng = cx.fork();
    let k = cx.range(1, 3) as usize;
    cx.note(format!("{} parties={k}", s.describe()));
    let sks: Vec<SecretKey> = (0..k).map(|_| s.sk(cx).0).collect();
    let crp = es(CommonRandomPoly::new(&s.par, &mut rng), "crp")?;
    let sh: Vec<PublicKeyShare> = sks.iter().map(|x| es(PublicKeyShare::new(x, crp.clone(), &mut rng), "share")).collect::<Result<_, _>>()?;
    let pk: PublicKey = es(PublicKey::from_shares(sh), "aggregate")?;
    let _ = trip(&pk, &s.par, "aggregated public key")?;
    let crps = es(CommonRandomPoly::new_vec(&s.par, &mut rng), "crps")?;
    let gens: Vec<RelinKeyGenerator> = sks.iter().map(|p| es(RelinKeyGenerator::new(p, &crps, &mut rng), "generator")).collect::<Result<_, _>>()?;
    let s1: Vec<_> = gens.iter().map(|g| es(g.round_1(&mut rng), "round 1")).collect::<Result<_, _>>()?;
    let a: RelinKeyShare<round::R1Aggregated> = es(RelinKeyShare::from_shares(s1), "round 1 aggregate")?;
    let a = Arc::new(a);
    let s2: Vec<_> = gens.iter().map(|g| es(g.round_2(&a, &mut rng), "round 2")).collect::<Result<_, _>>()?;
    let rk: RelinearizationKey = es(RelinearizationKey::from_shares(s2), "round 2 aggregate")?;
    let rk2 = trip(&rk, &s.par, "aggregated relinearisation key")?;
    let parts: Vec<Rp> = (0..3).map(|_| Rp::random(cx, &s.q, s.n)).collect();
    let mut x = ct_of(&s, 0, &parts);
    let mut y = x.clone();
    es(rk.relinearizes(&mut x), "relinearisation")?;
    es(rk2.relinearizes(&mut y), "relinearisation")?;
    check!(x == y, "relinearisation with the deserialised key differs");
    Ok(())
}
