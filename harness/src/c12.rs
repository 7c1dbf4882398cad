//! C12 malformed or hostile bytes: an error, or an object that is safe to use.
use crate::bx::*;
use crate::c13::any_ctx;
use crate::c16::ct_of;
use crate::check;
use crate::fw::*;
use crate::gn::*;
use crate::ring::*;
use fhe::bfv::*;
use fhe::proto::bfv as pb;
use fhe_math::rq::{Ntt, NttShoup, Poly, PowerBasis};
use fhe_traits::*;
use num_bigint::BigUint;
use prost::Message;

pub fn kinds() -> Vec<Kind> {
    vec![
        Kind { prop: "C12", name: "hb.params", quick: 2_500, thorough: 40_000, f: params_hb },
        Kind { prop: "C12", name: "hb.poly", quick: 6_000, thorough: 150_000, f: poly_hb },
        Kind { prop: "C12", name: "hb.ciphertext", quick: 4_000, thorough: 80_000, f: ciphertext_hb },
        Kind { prop: "C12", name: "hb.publickey", quick: 2_000, thorough: 40_000, f: publickey_hb },
        Kind { prop: "C12", name: "hb.secretkey", quick: 1_500, thorough: 30_000, f: secretkey_hb },
        Kind { prop: "C12", name: "hb.relin", quick: 2_500, thorough: 50_000, f: relin_hb },
        Kind { prop: "C12", name: "hb.evalkey", quick: 2_000, thorough: 40_000, f: evalkey_hb },
        Kind { prop: "C12", name: "hb.rgsw", quick: 1_500, thorough: 30_000, f: rgsw_hb },
    ]
}
#[derive(Clone, PartialEq, Message)]
pub struct RqProto {
    #[prost(int32, tag = "1")] pub representation: i32,
    #[prost(uint32, tag = "2")] pub degree: u32,
    #[prost(bytes = "vec", tag = "3")] pub coefficients: Vec<u8>,
    #[prost(bool, tag = "4")] pub allow_variable_time: bool,
}
fn junk(cx: &mut Cx) -> Vec<u8> { let k = cx.below(80); (0..k).map(|_| cx.u64() as u8).collect() }
/// byte-level damage
fn damage(cx: &mut Cx, b: &[u8]) -> (Vec<u8>, &'static str) {
    let mut v = b.to_vec();
    let n = v.len() as u64;
    if n == 0 { return (junk(cx), "junk"); }
    let w = match cx.below(8) {
        0 => { let i = cx.below(n) as usize; v[i] ^= 1 << cx.below(8); "bit flip" }
        1 => { let k = cx.below(n); v.truncate(k as usize); "truncated" }
        2 => { for _ in 0..cx.range(1, 6) { let i = cx.below(n) as usize; v[i] = cx.u64() as u8; } "bytes overwritten" }
        3 => { let i = cx.below(n) as usize; v.insert(i, cx.u64() as u8); "byte inserted" }
        4 => { let i = cx.below(n) as usize; v.remove(i); "byte removed" }
        5 => { let j = junk(cx); v.extend(j); "junk appended" }
        6 => { let i = cx.below(n.min(24)) as usize; v[i] = *cx.pick(&[0, 1, 0x7f, 0x80, 0xff, v[i].wrapping_add(1)]); "header byte changed" }
        _ => { v = junk(cx); "junk" }
    };
    (v, w)
}
fn num(cx: &mut Cx, x: u32) -> u32 {
    match cx.below(10) {
        0 => 0, 1 => 1, 2 => x.wrapping_add(1), 3 => x.wrapping_sub(1), 4 => u32::MAX, 5 => 1 << cx.below(32),
        6 => cx.range(60, 70) as u32, 7 => x.wrapping_mul(2), 8 => cx.range(2, 70) as u32, _ => cx.u64() as u32,
    }
}
/// the packing of one residue row at its modulus
fn pack(q: u64, v: &[u64]) -> Vec<u8> { fhe_util::transcode_to_bytes(v, 64 - (q - 1).leading_zeros() as usize) }
/// damage to a serialised polynomial of moduli q, degree n
fn damage_poly(cx: &mut Cx, b: &[u8], q: &[u64], n: usize) -> (Vec<u8>, &'static str) {
    let Ok(mut r) = RqProto::decode(b) else { return damage(cx, b); };
    let w = match cx.below(10) {
        0 => { r.representation = *cx.pick(&[0, 1, 2, 3, 4, -1, i32::MAX]); "representation" }
        1 => { r.degree = num(cx, r.degree); "degree" }
        2 | 3 | 4 => {
            // residues at or above the modulus that the packing has room for
            let mut c = vec![];
            for p in q {
                let bits = 64 - (p - 1).leading_zeros() as usize;
                let top = if bits == 64 { u64::MAX } else { (1 << bits) - 1 };
                let v: Vec<u64> = (0..n).map(|_| if cx.below(n as u64) < 2 && top >= *p { if cx.flip() { top } else { p + cx.below(top - p + 1) } } else { cx.residue(*p) }).collect();
                c.extend(pack(*p, &v));
            }
            r.coefficients = c;
            "residues above the modulus"
        }
        5 => { r.coefficients = vec![0xff; r.coefficients.len()]; "all ones" }
        6 => { let k = cx.below(r.coefficients.len() as u64 + 1) as usize; r.coefficients.truncate(k); "coefficients truncated" }
        7 => { let j = junk(cx); r.coefficients.extend(j); "coefficients extended" }
        8 => { // a consistent polynomial of another degree
            let d = *cx.pick(&[8usize, 16, 24, n / 2, 2 * n, 3 * n]);
            let mut c = vec![];
            for p in q { let v: Vec<u64> = (0..d).map(|_| cx.residue(*p)).collect(); if d % 8 == 0 { c.extend(pack(*p, &v)); } }
            r.degree = d as u32;
            r.coefficients = c;
            "polynomial of another degree"
        }
        _ => { r.allow_variable_time = true; if cx.flip() { return damage(cx, b); } "variable-time flag" }
    };
    (r.encode_to_vec(), w)
}
fn ok_poly(p: &Poly<Ntt>, ctx: &std::sync::Arc<fhe_math::rq::Context>, what: &str) -> R {
    check!(p.ctx() == ctx, "{what}: accepted with a polynomial of another context");
    let rows = Rp::of_ntt(p).map_err(|e| format!("{what}: accepted with an invalid polynomial: {e}"))?;
    let v: Vec<u64> = p.coefficients().iter().copied().collect();
    let n = rows.n;
    for (i, q) in ctx.moduli().iter().enumerate() { check!(v[i * n..(i + 1) * n].iter().all(|x| x < q), "{what}: accepted with residues above the modulus {q}"); }
    Ok(())
}
fn poly_hb(cx: &mut Cx) -> R {
    let (ctx, n) = any_ctx(cx);
    let q = ctx.moduli().to_vec();
    let r = Rp::random(cx, &q, n);
    let b = match cx.below(3) { 0 => r.pb(&ctx).to_bytes(), 1 => r.ntt(&ctx).to_bytes(), _ => r.shoup(&ctx).to_bytes() };
    let (b, w) = if cx.below(3) == 0 { damage(cx, &b) } else { damage_poly(cx, &b, &q, n) };
    cx.note(format!("n={n} q={q:?} {w} {} bytes {}", b.len(), short(&b)));
    let deep = |rows: Vec<u64>, what: &str| -> R {
        for (i, p) in q.iter().enumerate() { check!(rows[i * n..(i + 1) * n].iter().all(|x| x < p), "{what}: accepted with a residue that is not below {p} ({w})"); }
        Ok(())
    };
    if let Ok(p) = guarded(|| Poly::<PowerBasis>::from_bytes(&b, &ctx)).map_err(|e| format!("power basis, {w}: panic: {e}"))? {
        deep(p.coefficients().iter().copied().collect(), "power basis")?;
        check!(!p.allows_variable_time_computations(), "permission acquired from bytes");
        guarded(|| { let _ = &p + &p; let x = p.clone().into_ntt(); let _ = &x * &x; let mut y = p.clone(); let _ = y.switch_down(); }).map_err(|e| format!("using the accepted polynomial ({w}): panic: {e}"))?;
    }
    if let Ok(p) = guarded(|| Poly::<Ntt>::from_bytes(&b, &ctx)).map_err(|e| format!("ntt, {w}: panic: {e}"))? {
        deep(p.coefficients().iter().copied().collect(), "ntt")?;
        check!(!p.allows_variable_time_computations(), "permission acquired from bytes");
        guarded(|| { let _ = &p * &p; let _ = p.clone().into_power_basis(); }).map_err(|e| format!("using the accepted polynomial ({w}): panic: {e}"))?;
    }
    if let Ok(p) = guarded(|| Poly::<NttShoup>::from_bytes(&b, &ctx)).map_err(|e| format!("shoup, {w}: panic: {e}"))? {
        deep(p.coefficients().iter().copied().collect(), "shoup")?;
        check!(!p.allows_variable_time_computations(), "permission acquired from bytes");
        let x = r.ntt(&ctx);
        guarded(|| { let _ = &x * &p; let _ = p.clone().into_power_basis(); }).map_err(|e| format!("using the accepted polynomial ({w}): panic: {e}"))?;
    }
    Ok(())
}
fn params_hb(cx: &mut Cx) -> R {
    let s = params(cx, 1, 3, 20, false);
    let base = s.par.to_bytes();
    let mut w = "fields";
    let b = if cx.flip() { let (b, x) = damage(cx, &base); w = x; b } else {
        let mut p = pb::Parameters::decode(&base[..]).map_err(|e| e.to_string())?;
        use pb::parameters::PlaintextModulus as T;
        for _ in 0..cx.range(1, 2) {
            match cx.below(7) {
                0 => p.degree = *cx.pick(&[0, 1, 4, 7, 8, 24, 1 << 17, 1 << 31, u32::MAX, p.degree.wrapping_mul(2)]),
                1 => p.variance = *cx.pick(&[0, 1, 32, 33, u32::MAX]),
                2 if !p.moduli.is_empty() => { let i = cx.below(p.moduli.len() as u64) as usize; p.moduli[i] = *cx.pick(&[0, 1, 2, 3, u64::MAX, 1 << 62, (1 << 62) - 1, p.moduli[i].wrapping_add(2), p.moduli[0]]); }
                3 => p.moduli.clear(),
                4 if !p.moduli.is_empty() => { let m = p.moduli[0]; p.moduli.push(m); }
                5 => p.plaintext_modulus = match cx.below(8) { 0 => None, 1 => Some(T::Plaintext(0)), 2 => Some(T::Plaintext(1)), 3 => Some(T::Plaintext(u64::MAX)), 4 => Some(T::PlaintextBig(vec![])), 5 => Some(T::PlaintextBig(vec![0; 40])), 6 => Some(T::PlaintextBig(vec![0xff; 40])), _ => Some(T::Plaintext(p.moduli.first().copied().unwrap_or(3))) },
                _ => { let k = cx.below(4); p.moduli = (0..k).map(|_| modulus(cx)).collect(); }
            }
        }
        p.encode_to_vec()
    };
    cx.note(format!("{} {w} {}", s.describe(), short(&b)));
    let Ok(p) = guarded(|| BfvParameters::try_deserialize(&b)).map_err(|e| format!("{w}: panic: {e}"))? else { return Ok(()); };
    let (n, q) = (p.degree(), p.moduli().to_vec());
    check!(n.is_power_of_two() && (8..=65536).contains(&n), "accepted degree {n}");
    check!(!q.is_empty() && q.iter().all(|x| *x < 1 << 62 && is_prime_u64(*x) && x % (2 * n as u64) == 1), "accepted moduli {q:?}");
    for i in 0..q.len() { check!(!q[i + 1..].contains(&q[i]), "accepted duplicate moduli {q:?}"); }
    if n > 256 { return Ok(()); }
    let par = std::sync::Arc::new(p);
    let mut rng = cx.fork();
    guarded(|| -> R {
        let sk = SecretKey::random(&par, &mut rng);
        let pt = es(Plaintext::try_encode(&[1u64, 0, 1][..], Encoding::poly(), &par), "encode")?;
        let ct = enc(&sk, &pt, &mut rng)?;
        let _ = sk.try_decrypt(&ct);
        let _ = PublicKey::new(&sk, &mut rng);
        let _ = &ct + &ct;
        Ok(())
    }).map_err(|e| format!("using the accepted parameters ({w}): panic: {e}"))?
}
struct World { s: Set, sk: SecretKey, level: usize }
fn world(cx: &mut Cx, minq: usize) -> World {
    let lo = *cx.pick(&[10u64, 20, 45, 61]);
    let s = params(cx, minq, 3, lo, false);
    let mut level = cx.below(s.q.len() as u64) as usize;
    while prod(s.ql(level)) <= BigUint::from(s.t) { level -= 1; }
    let (sk, _) = s.sk(cx);
    World { s, sk, level }
}
fn edit_ct(cx: &mut Cx, c: &mut pb::Ciphertext, s: &Set, level: usize) -> &'static str {
    match cx.below(9) {
        0 => { c.level = num(cx, c.level); "level" }
        1 => { c.level = cx.below(s.q.len() as u64 + 1) as u32; "level" }
        2 => { c.seed = vec![7; *cx.pick(&[0usize, 1, 31, 32, 33, 64])]; "seed" }
        3 => { c.c.clear(); "no part" }
        4 => { let k = cx.below(5) as usize; let p = c.c.first().cloned().unwrap_or_default(); for _ in 0..k { c.c.push(p.clone()); } "more parts" }
        5 => { c.c.pop(); "one part less" }
        6 => { c.c.push(vec![]); "empty part" }
        _ => {
            if c.c.is_empty() { return "nothing"; }
            let i = cx.below(c.c.len() as u64) as usize;
            let (b, w) = damage_poly(cx, &c.c[i].clone(), s.ql(level), s.n);
            c.c[i] = b;
            w
        }
    }
}
fn use_ct(w: &World, ct: &Ciphertext, cx: &mut Cx, what: &str) -> R {
    let s = &w.s;
    let l = s.par.level_of_context(ct[0].ctx()).map_err(|e| format!("{what}: accepted with a context outside the chain: {e}"))?;
    let ctx = s.par.context_at_level(l).unwrap().clone();
    check!(ct.len() >= 2, "{what}: accepted with {} parts", ct.len());
    for p in ct.iter() { ok_poly(p, &ctx, what)?; }
    let mut rng = cx.fork();
    let big = ct.len() <= 4;
    guarded(|| -> R {
        let _ = ct + ct;
        let _ = -ct;
        let _ = ct - ct;
        // the level recorded agrees with the polynomials
        let mut z = ct.clone();
        es(z.switch_to_level(s.par.max_level()), "switching an accepted ciphertext down")?;
        let _ = w.sk.try_decrypt(ct);
        if prod(s.ql(l)) > BigUint::from(s.t) {
            let pt = s.encode(&s.values(&mut Cx::new("pt", 0, 0, false)), l);
            let _ = ct + &pt;
            let _ = ct * &pt;
        }
        if big { let _ = ct * ct; }
        if ct.len() == 3 && s.q.len() > 1 {
            let rk = es(RelinearizationKey::new_leveled(&w.sk, l, 0, &mut rng), "key")?;
            let mut r = ct.clone();
            es(rk.relinearizes(&mut r), "relinearising an accepted ciphertext")?;
        }
        let back = es(Ciphertext::from_bytes(&ct.to_bytes(), &s.par), "round trip of an accepted ciphertext")?;
        check!(&back == ct, "round trip of an accepted ciphertext");
        Ok(())
    }).map_err(|e| format!("using the accepted ciphertext ({what}): panic: {e}"))?
}
fn ciphertext_hb(cx: &mut Cx) -> R {
    let w = world(cx, 1);
    let mut rng = cx.fork();
    let s = &w.s;
    let m = s.values(cx);
    let ct = if cx.flip() { enc(&w.sk, &s.encode(&m, w.level), &mut rng)? } else {
        let k = cx.range(2, 4) as usize;
        let q = s.ql(w.level).to_vec();
        let r: Vec<Rp> = (0..k).map(|_| Rp::random(cx, &q, s.n)).collect();
        ct_of(s, w.level, &r)
    };
    let b = ct.to_bytes();
    let (b, what) = if cx.below(3) == 0 { damage(cx, &b) } else {
        let mut p = pb::Ciphertext::decode(&b[..]).map_err(|e| e.to_string())?;
        let mut x = edit_ct(cx, &mut p, s, w.level);
        if cx.below(3) == 0 { x = edit_ct(cx, &mut p, s, w.level); }
        (p.encode_to_vec(), x)
    };
    cx.note(format!("{} level={} {what} {} bytes {}", s.describe(), w.level, b.len(), short(&b)));
    match guarded(|| Ciphertext::from_bytes(&b, &s.par)).map_err(|e| format!("{what}: panic: {e}"))? {
        Ok(c) => use_ct(&w, &c, cx, what),
        Err(_) => Ok(()),
    }
}
fn publickey_hb(cx: &mut Cx) -> R {
    let w = world(cx, 1);
    let mut rng = cx.fork();
    let s = &w.s;
    let pk = PublicKey::new(&w.sk, &mut rng);
    let b = pk.to_bytes();
    let (b, what) = if cx.below(3) == 0 { damage(cx, &b) } else {
        let mut p = pb::PublicKey::decode(&b[..]).map_err(|e| e.to_string())?;
        let x = if cx.below(10) == 0 { p.c = None; "no ciphertext" } else { let mut c = p.c.take().unwrap(); let x = edit_ct(cx, &mut c, s, 0); p.c = Some(c); x };
        (p.encode_to_vec(), x)
    };
    cx.note(format!("{} {what} {}", s.describe(), short(&b)));
    let Ok(pk) = guarded(|| PublicKey::from_bytes(&b, &s.par)).map_err(|e| format!("{what}: panic: {e}"))? else { return Ok(()); };
    let level = w.level;
    let pt = s.encode(&s.values(cx), level);
    let ct = guarded(|| enc_pk(&pk, &pt, &mut rng)).map_err(|e| format!("encrypting with the accepted public key ({what}): panic: {e}"))??;
    check!(ct.len() == 2, "the accepted public key gives {} parts", ct.len());
    use_ct(&w, &ct, cx, what)?;
    let back = guarded(|| PublicKey::from_bytes(&pk.to_bytes(), &s.par)).map_err(|e| format!("panic: {e}"))?;
    check!(es(back, "round trip of an accepted public key")? == pk, "round trip of an accepted public key");
    // parts of the key itself
    let p = pb::PublicKey::decode(&pk.to_bytes()[..]).map_err(|e| e.to_string())?.c.ok_or("no ciphertext")?;
    let inner = es(Ciphertext::from_bytes(&p.encode_to_vec(), &s.par), "ciphertext of the accepted key")?;
    check!(inner.len() == 2, "accepted a public key with {} parts", inner.len());
    use_ct(&w, &inner, cx, what)
}
fn secretkey_hb(cx: &mut Cx) -> R {
    let w = world(cx, 2);
    let mut rng = cx.fork();
    let s = &w.s;
    let b = w.sk.to_bytes();
    let (b, what) = if cx.flip() { damage(cx, &b) } else {
        let k = *cx.pick(&[0, 1, s.n - 1, s.n, s.n, s.n, s.n + 1, 2 * s.n]);
        let c: Vec<i64> = (0..k).map(|_| *cx.pick(&[i64::MIN, i64::MAX, 0, -1, 1, i64::MIN + 1, s.q[0] as i64, -(s.q[0] as i64)])).collect();
        (SkProto { coeffs: c }.encode_to_vec(), "coefficients")
    };
    cx.note(format!("{} {what} {}", s.describe(), short(&b)));
    let Ok(sk) = guarded(|| SecretKey::from_bytes(&b, &s.par)).map_err(|e| format!("{what}: panic: {e}"))? else { return Ok(()); };
    let level = w.level;
    let pt = s.encode(&s.values(cx), level);
    guarded(|| -> R {
        let ct = enc(&sk, &pt, &mut rng)?;
        let _ = sk.try_decrypt(&ct);
        let _ = es(RelinearizationKey::new(&sk, &mut rng), "relinearisation key")?;
        let _ = PublicKey::new(&sk, &mut rng);
        let _ = EvaluationKeyBuilder::new(&sk).and_then(|mut b| b.enable_inner_sum().and_then(|b| b.build(&mut rng)));
        let back = es(SecretKey::from_bytes(&sk.to_bytes(), &s.par), "round trip")?;
        check!(back == sk, "round trip of an accepted secret key");
        Ok(())
    }).map_err(|e| format!("using the accepted secret key ({what}): panic: {e}"))?
}
fn edit_ksk(cx: &mut Cx, k: &mut pb::KeySwitchingKey, s: &Set, kl: usize) -> &'static str {
    match cx.below(13) {
        0 => { k.ciphertext_level = if cx.flip() { cx.below(s.q.len() as u64 + 1) as u32 } else { num(cx, k.ciphertext_level) }; "ciphertext level" }
        1 => { k.ksk_level = if cx.flip() { cx.below(s.q.len() as u64 + 1) as u32 } else { num(cx, k.ksk_level) }; "key level" }
        2 => { k.log_base = num(cx, k.log_base); "log base" }
        3 => { // a decomposition base together with the number of parts it asks for, at the last level
            let m = s.q.len() as u32 - 1;
            (k.ciphertext_level, k.ksk_level) = (m, m);
            k.log_base = if cx.flip() { cx.range(1, 70) as u32 } else { 1 << cx.range(6, 31) };
            let lm = s.q[0].next_power_of_two().ilog2();
            let parts = lm.div_ceil(k.log_base) as usize;
            let ctx = s.par.context_at_level(m as usize).unwrap();
            let p = Rp::random(cx, &s.q[..1], s.n).shoup(ctx).to_bytes();
            k.c0 = vec![p.clone(); parts];
            if !k.c1.is_empty() { k.c1 = vec![p; parts]; }
            "log base with matching parts"
        }
        4 => { k.seed = vec![5; *cx.pick(&[0usize, 1, 31, 32, 33])]; "seed" }
        5 => { k.c0.pop(); "one c0 less" }
        6 => { let p = k.c0.first().cloned().unwrap_or_default(); k.c0.push(p); "one c0 more" }
        7 => { k.c1 = k.c0.clone(); k.seed.clear(); "explicit c1" }
        8 => { k.seed.clear(); k.c1 = k.c0.clone(); k.c1.pop(); "too few c1" }
        9 => { k.c0.clear(); "no c0" }
        _ => {
            if k.c0.is_empty() { return "nothing"; }
            let i = cx.below(k.c0.len() as u64) as usize;
            let (b, w) = damage_poly(cx, &k.c0[i].clone(), s.ql(kl), s.n);
            k.c0[i] = b;
            w
        }
    }
}
fn relin_hb(cx: &mut Cx) -> R {
    let w = world(cx, 2);
    let mut rng = cx.fork();
    let s = &w.s;
    let kl = cx.below(s.q.len() as u64 - 1) as usize;
    let cl = cx.range(kl as u64, s.q.len() as u64 - 1) as usize;
    let rk = es(RelinearizationKey::new_leveled(&w.sk, cl, kl, &mut rng), "relinearisation key")?;
    let b = rk.to_bytes();
    let (b, what) = if cx.below(3) == 0 { damage(cx, &b) } else {
        let mut p = pb::RelinearizationKey::decode(&b[..]).map_err(|e| e.to_string())?;
        let mut x = "no key";
        if cx.below(12) == 0 { p.ksk = None; } else { let mut k = p.ksk.take().unwrap(); x = edit_ksk(cx, &mut k, s, kl); if cx.below(4) == 0 { x = edit_ksk(cx, &mut k, s, kl); } p.ksk = Some(k); }
        (p.encode_to_vec(), x)
    };
    cx.note(format!("{} levels={cl},{kl} {what} {} bytes {}", s.describe(), b.len(), short(&b)));
    let Ok(rk) = guarded(|| RelinearizationKey::from_bytes(&b, &s.par)).map_err(|e| format!("{what}: panic: {e}"))? else { return Ok(()); };
    for l in 0..s.q.len() {
        let q = s.ql(l).to_vec();
        let r: Vec<Rp> = (0..3).map(|_| Rp::random(cx, &q, s.n)).collect();
        let mut c = ct_of(s, l, &r);
        let r = guarded(|| { let r = rk.relinearizes(&mut c); (r, c) }).map_err(|e| format!("relinearising at level {l} with the accepted key ({what}): panic: {e}"))?;
        if r.0.is_ok() { use_ct(&w, &r.1, cx, what)?; }
    }
    guarded(|| { let _ = Multiplicator::default(&rk); }).map_err(|e| format!("multiplicator with the accepted key ({what}): panic: {e}"))?;
    let back = guarded(|| RelinearizationKey::from_bytes(&rk.to_bytes(), &s.par)).map_err(|e| format!("panic: {e}"))?;
    check!(es(back, "round trip of an accepted key")? == rk, "round trip of an accepted relinearisation key ({what})");
    Ok(())
}
fn evalkey_hb(cx: &mut Cx) -> R {
    let w = world(cx, 1);
    let mut rng = cx.fork();
    let s = &w.s;
    let cl = cx.below(s.q.len() as u64) as usize;
    let kl = cx.below(cl as u64 + 1) as usize;
    let mut bd = es(EvaluationKeyBuilder::new_leveled(&w.sk, cl, kl), "builder")?;
    if cx.flip() { es(bd.enable_inner_sum().map(|_| ()), "inner sum")?; } else { es(bd.enable_column_rotation(1).and_then(|b| b.enable_row_rotation()).map(|_| ()), "rotations")?; }
    if cx.flip() { es(bd.enable_expansion(2).map(|_| ()), "expansion")?; }
    let ek = es(bd.build(&mut rng), "build")?;
    let b = ek.to_bytes();
    let (b, what) = if cx.below(3) == 0 { damage(cx, &b) } else {
        let mut p = pb::EvaluationKey::decode(&b[..]).map_err(|e| e.to_string())?;
        // the order of the keys is that of a hash map: make the case reproducible
        p.gk.sort_by_key(|g| g.exponent);
        let x = match cx.below(8) {
            0 => { p.ciphertext_level = num(cx, p.ciphertext_level); "ciphertext level" }
            1 => { p.evaluation_key_level = num(cx, p.evaluation_key_level); "key level" }
            2 => { p.gk.clear(); p.ciphertext_level = num(cx, p.ciphertext_level); "no key" }
            3 => { for g in p.gk.iter_mut() { g.exponent = num(cx, g.exponent); } "exponents" }
            4 => { p.gk[0].ksk = None; "missing key" }
            5 => { p.evaluation_key_level = cx.below(s.q.len() as u64 + 1) as u32; for g in p.gk.iter_mut() { g.ksk.as_mut().unwrap().ksk_level = p.evaluation_key_level; } "all key levels" }
            _ => { let i = cx.below(p.gk.len() as u64) as usize; edit_ksk(cx, p.gk[i].ksk.as_mut().unwrap(), s, kl) }
        };
        (p.encode_to_vec(), x)
    };
    cx.note(format!("{} levels={cl},{kl} {what} {} bytes", s.describe(), b.len()));
    let Ok(ek) = guarded(|| EvaluationKey::from_bytes(&b, &s.par)).map_err(|e| format!("{what}: panic: {e}"))? else { return Ok(()); };
    for l in 0..s.q.len() {
        let q = s.ql(l).to_vec();
        let r: Vec<Rp> = (0..2).map(|_| Rp::random(cx, &q, s.n)).collect();
        let c = ct_of(s, l, &r);
        let outs = guarded(|| {
            let mut o: Vec<Ciphertext> = vec![];
            let _ = (ek.supports_inner_sum(), ek.supports_row_rotation());
            o.extend(ek.rotates_rows(&c));
            for i in [0, 1, 2, s.n / 2 - 1, s.n] { let _ = ek.supports_column_rotation_by(i); o.extend(ek.rotates_columns_by(&c, i)); }
            o.extend(ek.computes_inner_sum(&c));
            for k in [1, 2, 3, s.n] { let _ = ek.supports_expansion(k); o.extend(ek.expands(&c, k).unwrap_or_default()); }
            o
        }).map_err(|e| format!("using the accepted evaluation key at level {l} ({what}): panic: {e}"))?;
        if let Some(c) = outs.first() { use_ct(&w, c, cx, what)?; }
    }
    let back = guarded(|| EvaluationKey::from_bytes(&ek.to_bytes(), &s.par)).map_err(|e| format!("panic: {e}"))?;
    check!(es(back, "round trip of an accepted key")? == ek, "round trip of an accepted evaluation key ({what})");
    Ok(())
}
fn rgsw_hb(cx: &mut Cx) -> R {
    let w = world(cx, 1);
    let mut rng = cx.fork();
    let s = &w.s;
    let g: RGSWCiphertext = es(w.sk.try_encrypt(&s.encode(&s.values(cx), w.level), &mut rng), "RGSW encryption")?;
    let b = g.to_bytes();
    let (b, what) = if cx.below(3) == 0 { damage(cx, &b) } else {
        let mut p = pb::RgswCiphertext::decode(&b[..]).map_err(|e| e.to_string())?;
        let x = match cx.below(6) {
            0 => { p.ksk0 = None; "no first key" }
            1 => { p.ksk1 = None; "no second key" }
            2 => { let l = cx.below(s.q.len() as u64 + 1) as u32; for k in [&mut p.ksk0, &mut p.ksk1] { let k = k.as_mut().unwrap(); (k.ciphertext_level, k.ksk_level) = (l, l); } "all levels" }
            3 => edit_ksk(cx, p.ksk0.as_mut().unwrap(), s, w.level),
            4 => edit_ksk(cx, p.ksk1.as_mut().unwrap(), s, w.level),
            _ => { let x = edit_ksk(cx, p.ksk0.as_mut().unwrap(), s, w.level); p.ksk1 = p.ksk0.clone(); x }
        };
        (p.encode_to_vec(), x)
    };
    cx.note(format!("{} level={} {what} {} bytes", s.describe(), w.level, b.len()));
    let Ok(g) = guarded(|| RGSWCiphertext::from_bytes(&b, &s.par)).map_err(|e| format!("{what}: panic: {e}"))? else { return Ok(()); };
    let mut used = 0;
    for l in 0..s.q.len() {
        let q = s.ql(l).to_vec();
        let r: Vec<Rp> = (0..2).map(|_| Rp::random(cx, &q, s.n)).collect();
        let c = ct_of(s, l, &r);
        match guarded(|| &c * &g) {
            Ok(o) => { used += 1; use_ct(&w, &o, cx, what)?; }
            // another level is refused by the documented assertion; anything else is a panic because of the bytes
            Err(e) => check!(e.contains("must have the same level"), "external product with the accepted RGSW ciphertext at level {l} ({what}): panic: {e}"),
        }
    }
    check!(used == 1, "the accepted RGSW ciphertext works at {used} levels ({what})");
    let back = guarded(|| RGSWCiphertext::from_bytes(&g.to_bytes(), &s.par)).map_err(|e| format!("panic: {e}"))?;
    check!(es(back, "round trip of an accepted RGSW ciphertext")? == g, "round trip of an accepted RGSW ciphertext ({what})");
    Ok(())
}
