//! C18 multiparty protocols against the single key that is the sum of the parties' keys.
use crate::bx::*;
use crate::c15::*;
use crate::c16::*;
use crate::fw::*;
use crate::ring::*;
use crate::{check, check_eq};
use fhe::bfv::*;
use fhe::mbfv::*;
use fhe_traits::*;
use num_bigint::{BigInt, BigUint};
use num_traits::Signed;
use rand::SeedableRng;
use rand_chacha::ChaCha8Rng;
use std::sync::Arc;

pub fn kinds() -> Vec<Kind> {
    vec![
        Kind { prop: "C18", name: "mp.publickey", quick: 500, thorough: 12_000, f: public_key },
        Kind { prop: "C18", name: "mp.relin", quick: 400, thorough: 10_000, f: relin },
        Kind { prop: "C18", name: "mp.decrypt", quick: 700, thorough: 15_000, f: decryption },
        Kind { prop: "C18", name: "mp.switch", quick: 600, thorough: 15_000, f: switching },
        Kind { prop: "C18", name: "mp.refused", quick: 300, thorough: 8_000, f: refused },
    ]
}
struct Party { sk: SecretKey }
fn parties(cx: &mut Cx, s: &Set) -> (Vec<Party>, Vec<i64>) {
    let k = match cx.below(6) { 0 => 1, 1 => 2, 2 => cx.range(5, 9), _ => cx.range(2, 4) } as usize;
    let mut sum = vec![0i64; s.n];
    let ps = (0..k).map(|_| { let (sk, v) = s.sk(cx); for (a, b) in sum.iter_mut().zip(v) { *a += b; } Party { sk } }).collect();
    (ps, sum)
}
/// a permutation of 0..k
fn order(cx: &mut Cx, k: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..k).collect();
    for i in (1..k).rev() { v.swap(i, cx.below(i as u64 + 1) as usize); }
    v
}
fn seeds(cx: &mut Cx, k: usize) -> Vec<u64> { (0..k).map(|_| cx.u64()).collect() }
fn rng(x: u64) -> ChaCha8Rng { ChaCha8Rng::seed_from_u64(x) }
fn bounded(got: &Rp, want: &Rp, bound: &BigUint, what: &str) -> R {
    let b = BigInt::from(bound.clone());
    for (i, d) in got.sub(want).centered().iter().enumerate() { check!(d.abs() <= b, "{what}: phase coefficient {i} is off by {d}, allowed {b}"); }
    Ok(())
}
fn public_key(cx: &mut Cx) -> R {
    let s = small_params(cx, 1, 4);
    let (ps, sum) = parties(cx, &s);
    let k = ps.len();
    let mut r0 = cx.fork();
    cx.note(format!("{} parties={k} sum={}", s.describe(), short(&sum)));
    let crp = es(CommonRandomPoly::new(&s.par, &mut r0), "crp")?;
    let sd = seeds(cx, k);
    let sh: Vec<PublicKeyShare> = ps.iter().zip(&sd).map(|(p, x)| es(PublicKeyShare::new(&p.sk, crp.clone(), &mut rng(*x)), "share")).collect::<Result<_, _>>()?;
    let pk: PublicKey = es(PublicKey::from_shares(sh.clone()), "aggregate")?;
    let o = order(cx, k);
    let pk2: PublicKey = es(o.iter().map(|i| sh[*i].clone()).aggregate(), "aggregate")?;
    check!(pk == pk2, "the aggregated public key depends on the order {o:?}");
    let (n, e, sm) = (s.n as u64, 2 * s.v as u64, smax(&sum));
    let bnd = |l: usize| (BigUint::from(e * k as u64) + BigUint::from(l as u64) * (1 + n * sm)) * (n * e) + e + n * e * sm + 2u32;
    let Some(deep) = fit_level(&s, &bnd) else { return Ok(()); };
    let level = cx.below(deep as u64 + 1) as usize;
    if !s.fits(level, &bnd(level)) { return Ok(()); }
    let m = s.values(cx);
    let ct = enc_pk(&pk, &s.encode(&m, level), &mut r0)?;
    let b = BigInt::from(bnd(level));
    for d in s.error_of(&sum, &ct, &m)? { check!(d.abs() <= b, "noise {d} under the summed key, allowed {b}"); }
    let p = es(s.sk_of(&sum).try_decrypt(&ct), "decryption")?;
    check_eq!(dec(&p)?, m, "decryption under the summed key");
    Ok(())
}
fn relin(cx: &mut Cx) -> R {
    let s = small_params(cx, 2, 4);
    let (ps, sum) = parties(cx, &s);
    let k = ps.len();
    let mut r0 = cx.fork();
    cx.note(format!("{} parties={k} sum={}", s.describe(), short(&sum)));
    let crp = es(CommonRandomPoly::new_vec(&s.par, &mut r0), "crps")?;
    check_eq!(crp.len(), s.q.len(), "common random polynomials");
    let gens: Vec<RelinKeyGenerator> = ps.iter().map(|p| es(RelinKeyGenerator::new(&p.sk, &crp, &mut r0), "generator")).collect::<Result<_, _>>()?;
    let s1: Vec<_> = gens.iter().map(|g| es(g.round_1(&mut r0), "round 1")).collect::<Result<_, _>>()?;
    let (o1, o2) = (order(cx, k), order(cx, k));
    let a: RelinKeyShare<round::R1Aggregated> = es(RelinKeyShare::from_shares(s1.clone()), "round 1 aggregate")?;
    let b: RelinKeyShare<round::R1Aggregated> = es(RelinKeyShare::from_shares(o1.iter().map(|i| s1[*i].clone())), "round 1 aggregate")?;
    check!(a == b, "the round 1 aggregate depends on the order {o1:?}");
    let a = Arc::new(a);
    let s2: Vec<_> = gens.iter().map(|g| es(g.round_2(&a, &mut r0), "round 2")).collect::<Result<_, _>>()?;
    let rk: RelinearizationKey = es(RelinearizationKey::from_shares(s2.clone()), "round 2 aggregate")?;
    let rk2: RelinearizationKey = es(RelinearizationKey::from_shares(o2.iter().map(|i| s2[*i].clone())), "round 2 aggregate")?;
    check!(rk == rk2, "the relinearisation key depends on the order {o2:?}");
    let parts: Vec<Rp> = (0..3).map(|_| Rp::random(cx, &s.q, s.n)).collect();
    let ct = ct_of(&s, 0, &parts);
    let mut r = ct.clone();
    es(rk.relinearizes(&mut r), "relinearisation")?;
    check_eq!(r.len(), 2, "parts");
    let (n, e, kk) = (s.n as u64, BigUint::from(2 * s.v as u64), k as u64);
    let kerr = &e * (n * smax(&sum) * kk) + &e * &e * (n * kk * kk) + &e * (2 * kk);
    let bound = kerr * (n * s.q.len() as u64) * *s.q.iter().max().unwrap();
    bounded(&s.phase(&sum, &r)?, &s.phase(&sum, &ct)?, &bound, "relinearisation with the aggregated key")
}
fn decryption(cx: &mut Cx) -> R {
    let s = small_params(cx, 1, 4);
    let (ps, sum) = parties(cx, &s);
    let k = ps.len();
    cx.note(format!("{} parties={k} sum={}", s.describe(), short(&sum)));
    let e = 2 * s.v as u64;
    let bnd = |_: usize| BigUint::from(e * (k as u64 + 1) + 2);
    let Some(deep) = fit_level(&s, &bnd) else { return Ok(()); };
    let level = cx.below(deep as u64 + 1) as usize;
    let m = s.values(cx);
    let mut r0 = cx.fork();
    let ct = Arc::new(enc(&s.sk_of(&sum), &s.encode(&m, level), &mut r0)?);
    let sd = seeds(cx, k);
    let share = |i: usize| DecryptionShare::new(&ps[i].sk, &ct, &mut rng(sd[i]));
    let a: Plaintext = es(Plaintext::from_shares((0..k).map(share)), "aggregate")?;
    check_eq!(a.level(), level, "level of the plaintext");
    check_eq!(dec(&a)?, m, "decryption of the aggregated shares at level {level}");
    let o = order(cx, k);
    let b: Plaintext = es(o.iter().map(|i| share(*i)).aggregate(), "aggregate")?;
    check_eq!(dec(&b)?, m, "decryption of the shares in the order {o:?}");
    if k > 1 {
        // a missing share: the remaining mask must not vanish
        let c: Plaintext = es(Plaintext::from_shares((1..k).map(share)), "aggregate")?;
        check_eq!(c.level(), level, "level of the plaintext");
    }
    Ok(())
}
fn switching(cx: &mut Cx) -> R {
    let s = small_params(cx, 1, 4);
    let (ps, sum) = parties(cx, &s);
    let (os, osum) = loop { let (a, b) = parties(cx, &s); if a.len() >= ps.len() { break (a, b); } };
    // as many output parties as input parties
    let os: Vec<Party> = os.into_iter().take(ps.len()).collect();
    let _ = osum;
    let k = ps.len();
    let level = cx.below(s.q.len() as u64) as usize;
    cx.note(format!("{} parties={k} level={level} sum={}", s.describe(), short(&sum)));
    let q = s.ql(level).to_vec();
    let parts: Vec<Rp> = (0..2).map(|_| Rp::random(cx, &q, s.n)).collect();
    let ct = Arc::new(ct_of(&s, level, &parts));
    let ph = s.phase(&sum, &ct)?;
    let (n, e) = (s.n as u64, 2 * s.v as u64);
    // secret output shares
    let mut out = vec![0i64; s.n];
    for p in &os { for (a, b) in out.iter_mut().zip(sk_coeffs(&p.sk)?) { *a += b; } }
    let sd = seeds(cx, k);
    let share = |i: usize| SecretKeySwitchShare::new(&ps[i].sk, &os[i].sk, ct.clone(), &mut rng(sd[i]));
    let a: Ciphertext = es(Ciphertext::from_shares((0..k).map(share)), "aggregate")?;
    let o = order(cx, k);
    let b: Ciphertext = es(o.iter().map(|i| share(*i)).aggregate(), "aggregate")?;
    check!(a == b, "the switched ciphertext depends on the order {o:?}");
    check_eq!(a.len(), 2, "parts");
    bounded(&s.phase(&out, &a)?, &ph, &BigUint::from(e * k as u64), "key switching to the summed output key")?;
    let _ = &a + ct.as_ref();
    // public output key
    let (osk, ov) = s.sk(cx);
    let pk = PublicKey::new(&osk, &mut rng(cx.u64()));
    let pshare = |i: usize| PublicKeySwitchShare::new(&ps[i].sk, &pk, &ct, &mut rng(sd[i]));
    let a: Ciphertext = es(Ciphertext::from_shares((0..k).map(pshare)), "aggregate")?;
    let b: Ciphertext = es(o.iter().map(|i| pshare(*i)).aggregate(), "aggregate")?;
    check!(a == b, "the switched ciphertext depends on the order {o:?}");
    let sm = smax(&ov);
    let bpk = BigUint::from(e) + BigUint::from(level as u64) * (1 + n * sm);
    let bound = (bpk * (n * e) + e + n * e * sm) * (k as u64);
    bounded(&s.phase(&ov, &a)?, &ph, &bound, "key switching to the public key")?;
    let _ = &a + ct.as_ref();
    Ok(())
}
pub fn sk_coeffs(sk: &SecretKey) -> Result<Vec<i64>, String> {
    use prost::Message;
    SkProto::decode(sk.to_bytes().as_slice()).map(|p| p.coeffs).map_err(|e| e.to_string())
}
/// no share at all, wrong sizes, levels or parameters
fn refused(cx: &mut Cx) -> R {
    let s = small_params(cx, 2, 4);
    let (sk, _) = s.sk(cx);
    let mut r0 = cx.fork();
    let o = params_at_new(cx, s.n, s.q.len(), 20, false);
    cx.note(format!("{} / {}", s.describe(), o.describe()));
    if o.par == s.par { return Ok(()); }
    let (osk, _) = o.sk(cx);
    check!(PublicKey::from_shares(Vec::<PublicKeyShare>::new()).is_err(), "public key of no party");
    check!(Ciphertext::from_shares(Vec::<SecretKeySwitchShare>::new()).is_err(), "ciphertext of no party");
    check!(Ciphertext::from_shares(Vec::<PublicKeySwitchShare>::new()).is_err(), "ciphertext of no party");
    check!(Plaintext::from_shares(Vec::<DecryptionShare>::new()).is_err(), "plaintext of no party");
    check!(RelinearizationKey::from_shares(Vec::<RelinKeyShare<round::R2>>::new()).is_err(), "relinearisation key of no party");
    let level = cx.below(s.q.len() as u64) as usize;
    let mk = |cx: &mut Cx, s: &Set, l: usize, k: usize| { let q = s.ql(l).to_vec(); let r: Vec<Rp> = (0..k).map(|_| Rp::random(cx, &q, s.n)).collect(); Arc::new(ct_of(s, l, &r)) };
    let pk = PublicKey::new(&sk, &mut r0);
    let opk = PublicKey::new(&osk, &mut r0);
    let two = mk(cx, &s, level, 2);
    for c in [mk(cx, &s, level, 3), Arc::new(Ciphertext::zero(&s.par))] {
        check!(guarded(|| DecryptionShare::new(&sk, &c, &mut rng(1)).is_err()) == Ok(true), "decryption share for {} parts", c.len());
        check!(guarded(|| SecretKeySwitchShare::new(&sk, &sk, c.clone(), &mut rng(1)).is_err()) == Ok(true), "key switch share for {} parts", c.len());
        check!(guarded(|| PublicKeySwitchShare::new(&sk, &pk, &c, &mut rng(1)).is_err()) == Ok(true), "public key switch share for {} parts", c.len());
    }
    let oc = mk(cx, &o, 0, 2);
    check!(DecryptionShare::new(&sk, &oc, &mut rng(1)).is_err(), "decryption share across parameters");
    check!(SecretKeySwitchShare::new(&sk, &osk, two.clone(), &mut rng(1)).is_err(), "key switch share across parameters");
    check!(PublicKeySwitchShare::new(&sk, &opk, &two, &mut rng(1)).is_err(), "public key switch share across parameters");
    check!(PublicKeySwitchShare::new(&osk, &pk, &two, &mut rng(1)).is_err(), "public key switch share across parameters");
    check!(PublicKeySwitchShare::new(&sk, &pk, &oc, &mut rng(1)).is_err(), "public key switch share across parameters");
    // shares at different levels are not combined
    for l in 0..s.q.len() { if l != level {
        let c = mk(cx, &s, l, 2);
        let r = guarded(|| Plaintext::from_shares([DecryptionShare::new(&sk, &two, &mut rng(1)), DecryptionShare::new(&sk, &c, &mut rng(2))]).is_ok());
        check!(r != Ok(true), "decryption shares of levels {level} and {l} combined");
        let r = guarded(|| Ciphertext::from_shares([SecretKeySwitchShare::new(&sk, &sk, two.clone(), &mut rng(1)), SecretKeySwitchShare::new(&sk, &sk, c.clone(), &mut rng(2))]).is_ok());
        check!(r != Ok(true), "key switch shares of levels {level} and {l} combined");
        let r = guarded(|| Ciphertext::from_shares([PublicKeySwitchShare::new(&sk, &pk, &two, &mut rng(1)), PublicKeySwitchShare::new(&sk, &pk, &c, &mut rng(2))]).is_ok());
        check!(r != Ok(true), "public key switch shares of levels {level} and {l} combined");
    } }
    // common random polynomials: one per modulus, at the right level
    let crp = es(CommonRandomPoly::new_vec(&s.par, &mut r0), "crps")?;
    let k = s.q.len();
    check!(RelinKeyGenerator::new(&sk, &crp[..k - 1], &mut rng(1)).is_err(), "too few common random polynomials");
    let mut more = crp.clone();
    more.push(crp[0].clone());
    check!(RelinKeyGenerator::new(&sk, &more, &mut rng(1)).is_err(), "too many common random polynomials");
    check!(CommonRandomPoly::new_leveled(&s.par, k, &mut r0).is_err(), "common random polynomial beyond the last level");
    let low = es(CommonRandomPoly::new_leveled(&s.par, k - 1, &mut r0), "crp")?;
    check!(guarded(|| PublicKeyShare::new(&sk, low.clone(), &mut rng(1)).is_ok()) != Ok(true), "public key share from a polynomial of another level");
    let one = params_at(cx, s.n, 1, 30, false);
    let (sk1, _) = one.sk(cx);
    let c1 = es(CommonRandomPoly::new_vec(&one.par, &mut r0), "crps")?;
    check!(RelinKeyGenerator::new(&sk1, &c1, &mut rng(1)).is_err(), "relinearisation key for one modulus");
    Ok(())
}
