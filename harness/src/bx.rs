//! BFV helpers: parameter generator, independent secret key and decryption oracle.
use crate::fw::*;
use crate::gn::*;
use crate::ring::*;
use fhe::bfv::*;
use fhe_math::rq::{Ntt, Poly};
use fhe_traits::*;
use num_bigint::{BigInt, BigUint};
use num_traits::{Signed, Zero};
use prost::Message;
use std::sync::Arc;

#[derive(Clone, PartialEq, Message)]
pub struct SkProto { #[prost(sint64, repeated, tag = "1")] pub coeffs: Vec<i64> }

#[derive(Clone)]
pub struct Set { pub par: Arc<BfvParameters>, pub n: usize, pub q: Vec<u64>, pub t: u64, pub v: usize, pub simd: bool }

/// A valid parameter set: small degree, 1..=maxq moduli. `lo` = smallest modulus size.
pub fn params(cx: &mut Cx, minq: usize, maxq: usize, lo: u64, simd: bool) -> Set {
    let hi = if cx.below(8) == 0 { 6 } else { 5 };
    let n = 1usize << cx.range(3, hi);
    let k = cx.range(minq as u64, maxq as u64) as usize;
    params_at(cx, n, k, lo, simd)
}
/// Parameter sets come from a pool (building one is slow): the case picks an entry, the entry is
/// generated from its own stream. Two calls may return the same `Arc`; see `params_at_new`.
pub fn params_at(cx: &mut Cx, n: usize, k: usize, lo: u64, simd: bool) -> Set {
    use std::collections::HashMap;
    use std::sync::{LazyLock, Mutex};
    static POOL: LazyLock<Mutex<HashMap<String, Set>>> = LazyLock::new(|| Mutex::new(HashMap::new()));
    let e = cx.below(if cx.thorough { 2000 } else { 24 });
    let key = format!("{n} {k} {lo} {simd}");
    let full = format!("{key} {e}");
    if let Some(s) = POOL.lock().unwrap_or_else(|e| e.into_inner()).get(&full) { return s.clone(); }
    let mut c = Cx::new(&key, e, 7, cx.thorough);
    let s = params_at_new(&mut c, n, k, lo, simd);
    POOL.lock().unwrap_or_else(|e| e.into_inner()).insert(full, s.clone());
    s
}
pub fn params_at_new(cx: &mut Cx, n: usize, k: usize, lo: u64, simd: bool) -> Set {
    let v = if cx.flip() { 10 } else { cx.range(1, 32) as usize };
    loop {
        let q = moduli(cx, n, k, lo, 62);
        let t = if simd || cx.flip() {
            let b = cx.range(8, 17.min(lo - 4).max(9));
            match prev_prime(1 << b, 2 * n as u64) { Some(t) => t, None => continue }
        } else {
            match cx.below(4) { 0 => 2, 1 => 1 << cx.range(1, 10), 2 => cx.range(2, 40), _ => cx.range(2, 1 << 16) }
        };
        if q.iter().any(|x| x % t == 0 || t % x == 0) || BigUint::from(t) >= prod(&q) { continue; }
        let mut b = BfvParametersBuilder::new();
        b.set_degree(n).set_plaintext_modulus(t).set_moduli(&q).set_variance(v);
        match b.build_arc() {
            Ok(par) => { let s = t % (2 * n as u64) == 1 && is_prime_u64(t); return Set { par, n, q, t, v, simd: s } }
            Err(e) => panic!("valid parameters refused: n={n} t={t} q={q:?}: {e}"),
        }
    }
}
impl Set {
    pub fn describe(&self) -> String { format!("n={} t={} q={:?} var={}", self.n, self.t, self.q, self.v) }
    pub fn ql(&self, level: usize) -> &[u64] { &self.q[..self.q.len() - level] }
    pub fn sk(&self, cx: &mut Cx) -> (SecretKey, Vec<i64>) {
        let b = 2 * self.v as i64;
        let s: Vec<i64> = match cx.below(4) {
            0 => (0..self.n).map(|_| if cx.flip() { b.min(3) } else { -b.min(3) }).collect(),
            _ => (0..self.n).map(|_| cx.below(3) as i64 - 1).collect(),
        };
        (self.sk_of(&s), s)
    }
    pub fn sk_of(&self, s: &[i64]) -> SecretKey {
        SecretKey::from_bytes(&SkProto { coeffs: s.to_vec() }.encode_to_vec(), &self.par).expect("secret key")
    }
    pub fn values(&self, cx: &mut Cx) -> Vec<u64> {
        match cx.below(8) {
            0 => vec![self.t - 1; self.n],
            1 => { let mut v = vec![0; self.n]; let i = cx.below(self.n as u64) as usize; v[i] = 1 % self.t; v }
            _ => (0..self.n).map(|_| cx.residue(self.t)).collect(),
        }
    }
    pub fn encode(&self, m: &[u64], level: usize) -> Plaintext {
        Plaintext::try_encode(m, Encoding::poly_at_level(level), &self.par).expect("encode")
    }
    /// The message polynomial modulo t
    pub fn mulp(&self, a: &[u64], b: &[u64]) -> Vec<u64> {
        let n = self.n;
        let t = self.t;
        let mut c = vec![0u64; 2 * n];
        for i in 0..n { for j in 0..n { c[i + j] = addmod(c[i + j], mulmod(a[i] % t, b[j] % t, t), t); } }
        (0..n).map(|i| submod(c[i], c[i + n], t)).collect()
    }
    pub fn addp(&self, a: &[u64], b: &[u64]) -> Vec<u64> { a.iter().zip(b).map(|(x, y)| addmod(*x, *y, self.t)).collect() }
    pub fn subp(&self, a: &[u64], b: &[u64]) -> Vec<u64> { a.iter().zip(b).map(|(x, y)| submod(*x, *y, self.t)).collect() }
    pub fn negp(&self, a: &[u64]) -> Vec<u64> { a.iter().map(|x| submod(0, *x, self.t)).collect() }
    /// slot permutation of the SIMD encoding, from its definition: slot i of row 0 is the
    /// evaluation at zeta^(3^i), of row 1 at zeta^(-3^i)
    pub fn phase(&self, s: &[i64], c: &[Poly<Ntt>]) -> Result<Rp, String> {
        let q = c[0].ctx().moduli().to_vec();
        let sp = Rp::from_i64(&q, self.n, s);
        let mut pw = sp.clone();
        let mut acc = Rp::of_ntt(&c[0])?;
        for ci in &c[1..] {
            acc = acc.add(&Rp::of_ntt(ci)?.mul(&pw));
            pw = pw.mul(&sp);
        }
        Ok(acc)
    }
    /// (message, |noise| relative to Q/t) of a ciphertext under s
    pub fn open(&self, s: &[i64], c: &[Poly<Ntt>]) -> Result<(Vec<u64>, f64), String> {
        let ph = self.phase(s, c)?;
        let q = BigInt::from(prod(&ph.q));
        let t = BigInt::from(self.t);
        let mut m = vec![];
        let mut worst = 0f64;
        for x in ph.lift() {
            let y = BigInt::from(x) * &t;
            let r = round_div(&y, &q);
            let e = (&y - &r * &q).abs();
            let f = ratio(&e, &q);
            if f > worst { worst = f; }
            m.push(bmod(&r, self.t));
        }
        Ok((m, worst))
    }
    /// largest |phase - round(Q m / t)| coefficient
    pub fn error_of(&self, s: &[i64], c: &[Poly<Ntt>], m: &[u64]) -> Result<Vec<BigInt>, String> {
        let ph = self.phase(s, c)?;
        let q = prod(&ph.q);
        let qi = BigInt::from(q.clone());
        Ok(ph.lift().iter().zip(m).map(|(x, mi)| {
            let exp = round_div(&(&qi * BigInt::from(*mi)), &BigInt::from(self.t));
            let d = bmod_big(&(BigInt::from(x.clone()) - exp), &q);
            centered(&d, &q)
        }).collect())
    }
    /// noise budget check: t * bound < Q/2 at this level
    pub fn fits(&self, level: usize, bound: &BigUint) -> bool { bound * self.t * 2u32 < prod(self.ql(level)) }
}
pub fn ratio(a: &BigInt, b: &BigInt) -> f64 {
    if a.is_zero() { return 0.0; }
    let s = (b.bits() as i64 - 60).max(0) as usize;
    let x: BigInt = a >> s;
    let y: BigInt = b >> s;
    use num_traits::ToPrimitive;
    x.to_f64().unwrap() / y.to_f64().unwrap()
}
pub fn dec(pt: &Plaintext) -> Result<Vec<u64>, String> {
    Vec::<u64>::try_decode(pt, Encoding::poly_at_level(pt.level())).map_err(|e| format!("decode: {e}"))
}
pub fn es<T, E: std::fmt::Display>(r: Result<T, E>, what: &str) -> Result<T, String> { r.map_err(|e| format!("{what}: {e}")) }
pub fn enc(sk: &SecretKey, pt: &Plaintext, rng: &mut rand_chacha::ChaCha8Rng) -> Result<Ciphertext, String> {
    let r: Result<Ciphertext, fhe::Error> = sk.try_encrypt(pt, rng);
    es(r, "encryption refused")
}
pub fn enc_pk(pk: &PublicKey, pt: &Plaintext, rng: &mut rand_chacha::ChaCha8Rng) -> Result<Ciphertext, String> {
    let r: Result<Ciphertext, fhe::Error> = pk.try_encrypt(pt, rng);
    es(r, "public-key encryption refused")
}
