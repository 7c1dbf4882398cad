//! C21 the parameter builder against an independent validity oracle.
use crate::bx::*;
use crate::fw::*;
use crate::gn::*;
use crate::ring::*;
use crate::{check, check_eq};
use fhe::bfv::*;
use fhe_traits::*;
use num_bigint::BigUint;
use num_traits::Zero;
use prost::Message;
use std::sync::Arc;

pub fn kinds() -> Vec<Kind> {
    vec![
        Kind { prop: "C21", name: "par.moduli", quick: 1_200, thorough: 20_000, f: by_moduli },
        Kind { prop: "C21", name: "par.sizes", quick: 700, thorough: 12_000, f: by_sizes },
        Kind { prop: "C21", name: "par.shape", quick: 1_500, thorough: 20_000, f: shape },
        Kind { prop: "C21", name: "par.default", quick: 6, thorough: 40, f: defaults },
    ]
}
fn bad_number(cx: &mut Cx) -> u64 { *cx.pick(&[0u64, 1, 2, 3, 4, (1 << 62) - 1, 1 << 62, (1 << 62) + 1, 1 << 63, u64::MAX, 1 << 32]) }
fn good_t(cx: &mut Cx, q: &[u64]) -> BigUint {
    let p = prod(q);
    for _ in 0..50 {
        let t = match cx.below(6) {
            0 => BigUint::from(2u32), 1 => BigUint::from(1u64 << cx.range(1, 30)), 2 => BigUint::from(cx.range(2, 1 << 20)),
            3 => &p - BigUint::from(cx.range(1, 4)), 4 => BigUint::from(1153u32),
            _ => { let b = cx.range(2, p.bits().max(3) - 1); BigUint::from(cx.u64() | 1) * (BigUint::from(1u32) << b) >> 64u32 }
        };
        if t_ok(&t, q) { return t; }
    }
    BigUint::from(2u32)
}
fn t_ok(t: &BigUint, q: &[u64]) -> bool {
    t >= &BigUint::from(2u32) && (t.bits() > 64 || t < &(BigUint::from(1u32) << 62u32)) && t < &prod(q)
        && q.iter().all(|m| !(t % *m).is_zero())
}
fn n_ok(n: usize) -> bool { [8usize, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536].contains(&n) }
fn q_ok(q: &[u64], n: usize) -> bool {
    !q.is_empty() && q.iter().enumerate().all(|(i, m)| *m < 1 << 62 && *m > 2 && m % (2 * n as u64) == 1 && is_prime_u64(*m) && !q[i + 1..].contains(m))
}
#[derive(Clone, PartialEq, Message)]
struct ParProto { #[prost(uint32, tag = "1")] degree: u32, #[prost(uint64, repeated, tag = "2")] moduli: Vec<u64>, #[prost(uint32, tag = "4")] variance: u32 }
/// everything the built parameters promise
fn consistent(cx: &mut Cx, par: &Arc<BfvParameters>, n: usize, q: &[u64], t: &BigUint, v: usize) -> R {
    check_eq!(par.degree(), n, "degree");
    check_eq!(par.moduli(), q, "moduli");
    check_eq!(par.moduli_sizes(), &q.iter().map(|m| 64 - m.leading_zeros() as usize).collect::<Vec<_>>()[..], "moduli sizes");
    check_eq!(par.plaintext_big(), t, "plaintext modulus");
    if t.bits() <= 62 { check_eq!(BigUint::from(par.plaintext()), *t, "plaintext modulus"); }
    let k = q.len();
    check_eq!(par.max_level(), k - 1, "last level");
    check_eq!(par.context_levels().len(), k, "levels");
    let pp = ParProto::decode(&par.to_bytes()[..]).map_err(|e| e.to_string())?;
    check_eq!((pp.degree as usize, pp.variance as usize), (n, v), "serialised degree and variance");
    for l in 0..k {
        let c = par.context_at_level(l).map_err(|e| format!("level {l}: {e}"))?;
        check_eq!(c.moduli(), &q[..k - l], "moduli at level {l}");
        check_eq!(c.modulus(), &prod(&q[..k - l]), "modulus at level {l}");
        check_eq!(par.level_of_context(c).ok(), Some(l), "level of the context at level {l}");
        let cl = &par.context_levels()[l];
        check_eq!((cl.level(), cl.can_switch_down(), cl.max_level()), (l, l + 1 < k, k - 1), "context level {l}");
        check!(&cl.poly_context == c && par.context_level_at(l).map(|x| x == cl).unwrap_or(false), "context level {l}");
        let top = par.context_at_level(0).unwrap();
        check_eq!(top.niterations_to(c).ok(), Some(l), "steps from level 0 to level {l}");
    }
    check!(par.context_at_level(k).is_err() && par.context_level_at(k).is_err() && par.context_at_level(usize::MAX).is_err(), "a level beyond the last");
    if n > 64 { return Ok(()); }
    // the scaling constants, by an encryption at every level where it can be decrypted
    let sk = { let c: Vec<i64> = (0..n).map(|_| cx.below(3) as i64 - 1).collect(); es(SecretKey::from_bytes(&SkProto { coeffs: c }.encode_to_vec(), par), "secret key")? };
    let mut rng = cx.fork();
    if t.bits() <= 62 {
        let t64 = par.plaintext();
        let m: Vec<u64> = (0..n).map(|_| cx.residue(t64)).collect();
        for l in 0..k {
            if BigUint::from(2 * v as u64 + 2) * t * 2u32 >= prod(&q[..k - l]) { continue; }
            let pt = es(Plaintext::try_encode(&m[..], Encoding::poly_at_level(l), par), "encode")?;
            let ct = enc(&sk, &pt, &mut rng)?;
            check_eq!(dec(&es(sk.try_decrypt(&ct), "decryption")?)?, m, "decryption at level {l}");
        }
        // the slot permutation exists exactly for NTT-friendly plaintext moduli
        let simd = is_prime_u64(t64) && t64 % (2 * n as u64) == 1;
        let e = guarded(|| Plaintext::try_encode(&m[..], Encoding::simd(), par)).map_err(|e| format!("SIMD encoding panics: {e}"))?;
        check_eq!(e.is_ok(), simd, "SIMD encoding available");
        if let Ok(p) = e {
            check_eq!(es(Vec::<u64>::try_decode(&p, Encoding::simd()), "decode")?, m, "SIMD decoding");
            let c = es(Vec::<u64>::try_decode(&Plaintext::try_encode(&vec![3u64 % t64; n][..], Encoding::simd(), par).unwrap(), Encoding::simd()), "decode")?;
            check_eq!(c, vec![3 % t64; n], "SIMD decoding");
        }
    }
    Ok(())
}
fn builder(n: usize, t: &BigUint, v: usize) -> BfvParametersBuilder {
    let mut b = BfvParametersBuilder::new();
    b.set_degree(n).set_plaintext_modulus_biguint(t.clone()).set_variance(v);
    b
}
fn build(b: &BfvParametersBuilder) -> Result<Result<BfvParameters, fhe::Error>, String> { guarded(|| b.build()).map_err(|e| format!("build panics: {e}")) }
fn by_moduli(cx: &mut Cx) -> R {
    let n = 1usize << cx.range(3, 6);
    let k = cx.range(1, 5) as usize;
    let lo = *cx.pick(&[11u64, 20, 40, 61]);
    let mut q = moduli(cx, n, k, lo, 62);
    let mut t = good_t(cx, &q);
    let mut v = cx.range(1, 32) as usize;
    // at most two departures from a valid configuration
    let mut how = vec![];
    for _ in 0..cx.below(3) {
        match cx.below(10) {
            0 => { let i = cx.below(q.len() as u64) as usize; q[i] = bad_number(cx); how.push("modulus"); }
            1 => { let i = cx.below(q.len() as u64) as usize; q[i] = q[i].wrapping_add(2 * n as u64); how.push("next candidate"); }
            2 => { let i = cx.below(q.len() as u64) as usize; let x = q[i]; let j = cx.below(q.len() as u64 + 1) as usize; q.insert(j, x); how.push("duplicate"); }
            3 => { // a composite with the right residue
                let a = prev_prime(1 << 20, 2 * n as u64).unwrap(); let b = prev_prime(a, 2 * n as u64).unwrap();
                let i = cx.below(q.len() as u64) as usize; q[i] = a * b; if cx.flip() { q.push(a); } how.push("composite"); }
            4 => { // a prime for a smaller degree only
                if let Some(p) = prev_prime(1 << 30, n as u64) { let mut p = p; while p % (2 * n as u64) == 1 { p = prev_prime(p, n as u64).unwrap(); } let i = cx.below(q.len() as u64) as usize; q[i] = p; how.push("not friendly"); } }
            5 => { let i = cx.below(q.len() as u64) as usize; t = BigUint::from(q[i]) * (1 + cx.below(3)); how.push("multiple of a modulus"); }
            6 => { t = prod(&q) + cx.below(3) as u32; how.push("t at the product"); }
            7 => { t = BigUint::from(bad_number(cx)); how.push("t"); }
            8 => { t = (BigUint::from(1u32) << 64u32) + cx.below(5); how.push("t above the word"); }
            _ => { v = *cx.pick(&[0usize, 33, 64, usize::MAX, 32, 1]); how.push("variance"); }
        }
    }
    let ok = n_ok(n) && (1..=32).contains(&v) && q_ok(&q, n) && t_ok(&t, &q);
    cx.note(format!("n={n} q={q:?} t={t} v={v} {how:?}"));
    let mut b = builder(n, &t, v);
    b.set_moduli(&q);
    if t.bits() <= 64 && cx.flip() { b.set_plaintext_modulus(t.iter_u64_digits().next().unwrap_or(0)); }
    let r = build(&b)?;
    if r.is_ok() != ok { return Err(format!("build gives {} for {} parameters", if ok { "an error" } else { "parameters" }, if ok { "valid" } else { "invalid" }) + &r.err().map(|e| format!(": {e}")).unwrap_or_default()); }
    if let Ok(p) = r { consistent(cx, &Arc::new(p), n, &q, &t, v)?; } else { cx.trivial = how.is_empty(); }
    Ok(())
}
/// number of primes of exactly `size` bits that are 1 modulo 2n, up to `cap`
fn available(size: usize, n: usize, cap: usize) -> usize {
    let mut ub = 1u64 << size;
    let mut c = 0;
    while c < cap { match prev_prime(ub, 2 * n as u64) { Some(p) if p >> (size - 1) == 1 => { c += 1; ub = p; } _ => break } }
    c
}
fn by_sizes(cx: &mut Cx) -> R {
    let n = 1usize << cx.range(3, 8);
    let k = cx.range(1, 6) as usize;
    let mut z: Vec<usize> = if cx.flip() { vec![cx.range(10, 62) as usize; k] } else { (0..k).map(|_| cx.range(10, 62) as usize).collect() };
    if cx.below(3) == 0 { let i = cx.below(k as u64) as usize; z[i] = *cx.pick(&[0usize, 1, 8, 9, 10, 11, 62, 63, 64, 100, usize::MAX]); }
    let v = cx.range(1, 32) as usize;
    let valid = z.iter().all(|s| (10..=62).contains(s) && available(*s, n, k) >= z.iter().filter(|x| *x == s).count());
    let t = BigUint::from(*cx.pick(&[2u64, 3, 64, 1009, 1153]));
    cx.note(format!("n={n} sizes={z:?} t={t} v={v}"));
    let mut b = builder(n, &t, v);
    b.set_moduli_sizes(&z);
    let r = build(&b)?;
    if let Ok(p) = r {
        check!(valid, "parameters built although the sizes {z:?} cannot be met");
        let q = p.moduli().to_vec();
        check_eq!(q.len(), k, "number of moduli");
        for (m, s) in q.iter().zip(&z) { check_eq!(64 - m.leading_zeros() as usize, *s, "bit length of the modulus {m}"); }
        check!(q_ok(&q, n), "invalid moduli {q:?}");
        check!(t_ok(&t, &q), "plaintext modulus {t} with moduli {q:?}");
        consistent(cx, &Arc::new(p), n, &q, &t, v)?;
    } else if valid {
        // the only legitimate reason left is the plaintext modulus
        let mut used: Vec<u64> = vec![];
        for s in &z { let mut ub = 1u64 << s; loop { let p = prev_prime(ub, 2 * n as u64).unwrap(); if used.contains(&p) { ub = p; } else { used.push(p); break; } } }
        check!(!t_ok(&t, &used), "sizes {z:?} refused: {}", r.err().unwrap());
    }
    Ok(())
}
fn shape(cx: &mut Cx) -> R {
    let n = if cx.flip() { 1usize << cx.range(3, 6) } else {
        match cx.below(3) { 0 => *cx.pick(&[0usize, 1, 2, 4, 6, 7, 9, 12, 24, 48, 1 << 17, 1 << 20, 1 << 32, 1 << 62, 1 << 63, usize::MAX]), 1 => cx.below(70) as usize, _ => 3 << cx.range(2, 10) }
    };
    let v = if cx.flip() { cx.range(1, 32) as usize } else { *cx.pick(&[0usize, 1, 32, 33, 64, 1 << 32, usize::MAX]) };
    let t = BigUint::from(*cx.pick(&[0u64, 1, 2, 3, 1153, 1 << 16, 1 << 62]));
    let with_q = cx.below(4) != 0;
    let with_z = cx.below(4) == 0 || (!with_q && cx.flip());
    let qn = if n_ok(n) { n } else { 64 };
    let q = if with_q { let k = cx.range(1, 3) as usize; moduli(cx, qn, k, 20, 62) } else { vec![] };
    let z = if with_z { vec![30usize; cx.range(1, 2) as usize] } else { vec![] };
    cx.note(format!("n={n} v={v} t={t} q={q:?} sizes={z:?}"));
    let mut b = builder(n, &t, v);
    b.set_moduli(&q).set_moduli_sizes(&z);
    let q2 = if q.is_empty() { vec![u64::MAX >> 2; z.len().max(1)] } else { q.clone() };
    let ok = n_ok(n) && (1..=32).contains(&v) && (with_q ^ with_z) && t_ok(&t, &q2);
    let r = build(&b)?;
    check_eq!(r.is_ok(), ok, "build succeeds");
    check_eq!(guarded(|| b.build_arc().is_ok()).map_err(|e| format!("build_arc panics: {e}"))?, ok, "build_arc succeeds");
    // a builder can be corrected and used again, and the default variance is 10
    let mut b2 = BfvParametersBuilder::new();
    check!(build(&b2)?.is_err(), "an empty builder builds");
    let q3 = moduli(cx, 8, 2, 30, 62);
    b2.set_degree(8).set_plaintext_modulus(2).set_moduli(&q3);
    let p = build(&b2)?.map_err(|e| format!("valid parameters refused: {e}"))?;
    consistent(cx, &Arc::new(p), 8, &q3, &BigUint::from(2u32), 10)
}
fn defaults(cx: &mut Cx) -> R {
    let bits = *cx.pick(&[0usize, 1, 9, 10, 15, 17, 20, 40, 62, 63]);
    let bits = if cx.thorough { cx.below(64) as usize } else { bits };
    cx.note(format!("default_parameters_128({bits})"));
    let Ok(ps) = guarded(|| BfvParameters::default_parameters_128(bits).map(|i| i.collect::<Vec<_>>())).map_err(|e| format!("panics: {e}"))? else { return Ok(()); };
    check!(!ps.is_empty(), "no parameters, and no error");
    check!((10..=62).contains(&bits), "default parameters for {bits} bits");
    let mut last = 0;
    for p in ps {
        let (n, q) = (p.degree(), p.moduli().to_vec());
        check!(n > last, "degrees out of order");
        last = n;
        check!(n_ok(n) && q_ok(&q, n), "degree {n}, moduli {q:?}");
        let t = p.plaintext();
        check!(t_ok(&BigUint::from(t), &q), "plaintext modulus {t}");
        check!(64 - t.leading_zeros() as usize == bits && is_prime_u64(t) && t % (2 * n as u64) == 1, "plaintext modulus {t} for {bits} bits");
        consistent(cx, &p, n, &q, &BigUint::from(t), 10)?;
    }
    Ok(())
}
