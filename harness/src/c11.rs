//! C11 error sampling.
use crate::bx::*;
use crate::fw::*;
use crate::ring::*;
use crate::{check, check_eq};
use fhe::bfv::*;
use fhe_math::rq::{Context, Ntt, NttShoup, Poly, PowerBasis};
use fhe_traits::*;
use fhe_util::sample_vec_cbd;
use num_bigint::BigInt;
use num_traits::ToPrimitive;
use rand::{TryCryptoRng, TryRng};
use std::convert::Infallible;

pub fn kinds() -> Vec<Kind> {
    vec![
        Kind { prop: "C11", name: "cbd.bits", quick: 32 * 8, thorough: 32 * 200, f: bits },
        Kind { prop: "C11", name: "cbd.range", quick: 4000, thorough: 100_000, f: range },
        Kind { prop: "C11", name: "cbd.small", quick: 1500, thorough: 40_000, f: small },
        Kind { prop: "C11", name: "cbd.pk", quick: 150, thorough: 4000, f: pk_noise },
        Kind { prop: "C11", name: "cbd.keys", quick: 250, thorough: 5_000, f: keys },
    ]
}

/// A generator that plays back bytes and counts them (zeros once exhausted).
#[derive(Clone)]
pub struct Tape { pub b: Vec<u8>, pub at: usize }
impl Tape {
    fn take(&mut self, dst: &mut [u8]) { for d in dst { *d = self.b.get(self.at).copied().unwrap_or(0); self.at += 1; } }
}
impl TryRng for Tape {
    type Error = Infallible;
    fn try_next_u32(&mut self) -> Result<u32, Infallible> { let mut w = [0; 4]; self.take(&mut w); Ok(u32::from_le_bytes(w)) }
    fn try_next_u64(&mut self) -> Result<u64, Infallible> { let mut w = [0; 8]; self.take(&mut w); Ok(u64::from_le_bytes(w)) }
    fn try_fill_bytes(&mut self, dst: &mut [u8]) -> Result<(), Infallible> { self.take(dst); Ok(()) }
}
impl TryCryptoRng for Tape {}

/// Flip every bit of the stream: each sample must be moved by exactly 2v bits up
/// and 2v bits down, by one, no bit moving two samples.
fn bits(cx: &mut Cx) -> R {
    let v = 1 + (cx.idx % 32) as usize;
    let n = 1 + cx.below(20) as usize;
    cx.note(format!("variance={v} n={n} case={}", cx.idx));
    let mut probe = Tape { b: vec![], at: 0 };
    let z = sample_vec_cbd(n, v, &mut probe)?;
    let used = probe.at;
    check_eq!(z.len(), n, "number of samples");
    check!(used * 8 >= n * 4 * v, "only {used} random bytes for {n} samples of {} bits", 4 * v);
    let mut rng = cx.fork();
    use rand::Rng;
    let mut base = vec![0u8; used];
    if cx.idx >= 32 { rng.fill_bytes(&mut base); }
    let run = |b: &[u8]| sample_vec_cbd(n, v, &mut Tape { b: b.to_vec(), at: 0 });
    let o = run(&base)?;
    let mut up = vec![0usize; n];
    let mut down = vec![0usize; n];
    let mut sum = vec![0i64; n];
    for i in 0..8 * used {
        let mut b = base.clone();
        b[i / 8] ^= 1 << (i % 8);
        let set = b[i / 8] >> (i % 8) & 1 == 1;
        let x = run(&b)?;
        let d: Vec<(usize, i64)> = (0..n).filter(|&j| x[j] != o[j]).map(|j| (j, x[j] - o[j])).collect();
        check!(d.len() <= 1, "random bit {i} changes samples {d:?}");
        if let Some(&(j, e)) = d.first() {
            let e = if set { e } else { -e };
            check!(e == 1 || e == -1, "random bit {i} changes sample {j} by {e}");
            if e == 1 { up[j] += 1 } else { down[j] += 1 }
            if !set { sum[j] += e; }
        }
    }
    for j in 0..n {
        check!(up[j] == 2 * v && down[j] == 2 * v, "sample {j} depends on {} + {} random bits, expected {} + {}", up[j], down[j], 2 * v, 2 * v);
        check_eq!(o[j], sum[j], "sample {j}");
    }
    Ok(())
}
fn range(cx: &mut Cx) -> R {
    let v = match cx.below(6) { 0 => 0, 1 => 33 + cx.below(100) as usize, 2 => cx.u64() as usize | 64, _ => cx.range(1, 32) as usize };
    let n = match cx.below(3) { 0 => cx.below(4) as usize, _ => cx.below(300) as usize };
    let id = cx.u64();
    cx.note(format!("variance={v} n={n} {id}"));
    let r = match cx.below(4) {
        0 => { let mut t = Tape { b: vec![0xff; 1 << 14], at: 0 }; sample_vec_cbd(n, v, &mut t) }
        _ => { let mut g = cx.fork(); sample_vec_cbd(n, v, &mut g) }
    };
    match r {
        Ok(x) => {
            check!((1..=32).contains(&v), "variance {v} accepted");
            check_eq!(x.len(), n, "number of samples");
            for s in x { check!(s.unsigned_abs() as usize <= 2 * v, "sample {s} out of range for variance {v}"); }
        }
        Err(_) => check!(!(1..=32).contains(&v), "variance {v} refused"),
    }
    Ok(())
}
fn small(cx: &mut Cx) -> R {
    let n = 8usize << cx.below(6);
    let k = cx.range(1, 4) as usize;
    let q = moduli(cx, n, k, 10, 62);
    let v = match cx.below(8) { 0 => 0, 1 => 33, _ => cx.range(1, 32) as usize };
    cx.note(format!("n={n} q={q:?} variance={v}"));
    let ctx = Context::new_arc(&q, n).map_err(|e| e.to_string())?;
    let mut g = cx.fork();
    let mut g2 = g.clone();
    let rep = cx.below(3);
    let p = match rep {
        0 => Poly::<PowerBasis>::small(&ctx, v, &mut g),
        1 => Poly::<Ntt>::small(&ctx, v, &mut g).map(|p| p.into_power_basis()),
        _ => Poly::<NttShoup>::small(&ctx, v, &mut g).map(|p| p.into_power_basis()),
    };
    let p = match p {
        Ok(p) => { check!((1..=32).contains(&v), "variance {v} accepted"); p }
        Err(_) => { check!(!(1..=32).contains(&v), "variance {v} refused"); return Ok(()); }
    };
    check!(!p.allows_variable_time_computations(), "a secret small polynomial allows variable time");
    let r = Rp::of_pb(&p)?;
    let b = 2 * v as i128;
    let first: Vec<i128> = (0..n).map(|i| { let x = r.r[0][i] as i128; if x > q[0] as i128 / 2 { x - q[0] as i128 } else { x } }).collect();
    for i in 0..n {
        check!(first[i].abs() <= b, "coefficient {} = {} for variance {v}", i, first[i]);
        for j in 0..k { check_eq!(r.r[j][i] as i128, first[i].rem_euclid(q[j] as i128), "residue {j} of coefficient {i}"); }
    }
    let direct = sample_vec_cbd(n, v, &mut g2)?;
    let _ = direct;
    Ok(())
}
/// Keys and fresh encryptions carry an error of the parameters' variance.
fn keys(cx: &mut Cx) -> R {
    let s = params(cx, 1, 3, 30, false);
    cx.note(s.describe());
    let mut g = cx.fork();
    let sk = SecretKey::random(&s.par, &mut g);
    use prost::Message;
    let sv = SkProto::decode(&sk.to_bytes()[..]).map_err(|e| e.to_string())?.coeffs;
    check_eq!(sv.len(), s.n, "secret key length");
    for x in &sv { check!(x.unsigned_abs() as usize <= 2 * s.v, "secret key coefficient {x} for variance {}", s.v); }
    let level = cx.below(s.q.len() as u64) as usize;
    let m = s.values(cx);
    let bound = BigInt::from(2 * s.v);
    let mut sq = 0f64;
    let mut cnt = 0usize;
    let reps = 2 + 3000 / (s.n * 10);
    for i in 0..reps {
        let (ct, mm) = if i % 2 == 0 {
            let pt = s.encode(&m, level);
            let c: Ciphertext = sk.try_encrypt(&pt, &mut g).map_err(|e: fhe::Error| e.to_string())?;
            (c.to_vec(), m.clone())
        } else {
            // a public key is an encryption of zero under the same error
            let pk = PublicKey::new(&sk, &mut g);
            let z = vec![0u64; s.n];
            let pt = PkC::decode(&pk.to_bytes()[..]).map_err(|e| e.to_string())?.c.unwrap_or_default();
            let c = Ciphertext::from_bytes(&pt.encode_to_vec(), &s.par).map_err(|e| e.to_string())?;
            (c.to_vec(), z)
        };
        for e in s.error_of(&sv, &ct, &mm)? {
            // Delta*m is allowed one unit of rounding
            check!(BigInt::from(-1) - &bound <= e && e <= &bound + 1, "error {e} for variance {}", s.v);
            let f = e.to_f64().unwrap();
            sq += f * f;
            cnt += 1;
        }
    }
    let var = sq / cnt as f64;
    // loose: eight standard errors plus the rounding of Delta*m
    let se = s.v as f64 * (2.0 / cnt as f64).sqrt();
    check!((var - s.v as f64).abs() <= 9.0 * se + 1.5, "empirical variance {var} of {cnt} errors, expected {}", s.v);
    Ok(())
}
/// Public-key encryption under the crafted key (2^20, 0): c0 = 2^20 u + e1 + Delta m, c1 = e2.
fn pk_noise(cx: &mut Cx) -> R {
    let s = params(cx, 1, 3, 40, false);
    cx.note(s.describe());
    let level = cx.below(s.q.len() as u64) as usize;
    let ctx = s.par.context_at_level(0).map_err(|e| e.to_string())?;
    let mut k = Rp::zero(&s.q, s.n);
    for i in 0..s.q.len() { k.r[i][0] = 1 << 20; }
    let c = CtP { c: vec![k.ntt(ctx).to_bytes(), Rp::zero(&s.q, s.n).ntt(ctx).to_bytes()], seed: vec![], level: 0 };
    use prost::Message;
    let pk = PublicKey::from_bytes(&PkC { c: Some(c) }.encode_to_vec(), &s.par).map_err(|e| e.to_string())?;
    let level = if level > 0 { 0 } else { level };
    let zero = s.encode(&vec![0; s.n], level);
    let mut g = cx.fork();
    let b = 2 * s.v as i64;
    let mut st = [(0f64, 0usize); 3];
    let mut cross = [0f64; 3];
    for _ in 0..2 + 1500 / s.n {
        let ct: Ciphertext = pk.try_encrypt(&zero, &mut g).map_err(|e: fhe::Error| e.to_string())?;
        let c0: Vec<i64> = Rp::of_ntt(&ct[0])?.centered().iter().map(|x| x.to_i64().unwrap_or(i64::MAX)).collect();
        let c1: Vec<i64> = Rp::of_ntt(&ct[1])?.centered().iter().map(|x| x.to_i64().unwrap_or(i64::MAX)).collect();
        for i in 0..s.n {
            let e1 = (c0[i] + (1 << 19)).rem_euclid(1 << 20) - (1 << 19);
            let u = (c0[i] - e1) >> 20;
            let e2 = c1[i];
            for (j, x) in [u, e1, e2].into_iter().enumerate() {
                check!(x.abs() <= b, "{} coefficient {x} for variance {}", ["u", "e1", "e2"][j], s.v);
                st[j].0 += (x * x) as f64;
                st[j].1 += 1;
            }
            cross[0] += (u * e1) as f64; cross[1] += (u * e2) as f64; cross[2] += (e1 * e2) as f64;
        }
    }
    for (j, (sq, cnt)) in st.into_iter().enumerate() {
        let var = sq / cnt as f64;
        let se = s.v as f64 * (2.0 / cnt as f64).sqrt();
        check!((var - s.v as f64).abs() <= 9.0 * se, "{}: empirical variance {var} of {cnt}, expected {}", ["u", "e1", "e2"][j], s.v);
        let cor = cross[j] / cnt as f64;
        check!(cor.abs() <= 9.0 * s.v as f64 / (cnt as f64).sqrt(), "correlated samples: {cor}");
    }
    Ok(())
}
#[derive(Clone, PartialEq, prost::Message)]
pub struct CtP {
    #[prost(bytes = "vec", repeated, tag = "1")] pub c: Vec<Vec<u8>>,
    #[prost(bytes = "vec", tag = "2")] pub seed: Vec<u8>,
    #[prost(uint32, tag = "3")] pub level: u32,
}
#[derive(Clone, PartialEq, prost::Message)]
pub struct PkC { #[prost(message, optional, tag = "1")] pub c: Option<CtP> }
