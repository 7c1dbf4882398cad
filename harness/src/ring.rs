//! Oracle for Z_Q[X]/(X^n+1): residue rows, schoolbook arithmetic, CRT with BigUint.
use crate::gn::*;
use crate::fw::Cx;
use fhe_math::rq::{Context, Ntt, NttShoup, Poly, PowerBasis, traits::TryConvertFrom};
use ndarray::Array2;
use num_bigint::{BigInt, BigUint};
use num_traits::{One, Zero, ToPrimitive};
use std::sync::Arc;

#[derive(Clone, PartialEq, Eq)]
pub struct Rp { pub q: Vec<u64>, pub n: usize, pub r: Vec<Vec<u64>> }
impl std::fmt::Debug for Rp {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "q={:?} {:?}", self.q, self.r) }
}
pub fn prod(q: &[u64]) -> BigUint { q.iter().map(|x| BigUint::from(*x)).product() }
pub fn inv_mod(a: u64, p: u64) -> Option<u64> {
    // extended Euclid on i128
    let (mut r0, mut r1, mut s0, mut s1) = (p as i128, (a % p) as i128, 0i128, 1i128);
    while r1 != 0 { let t = r0 / r1; (r0, r1) = (r1, r0 - t * r1); (s0, s1) = (s1, s0 - t * s1); }
    if r0 != 1 { None } else { Some(s0.rem_euclid(p as i128) as u64) }
}
pub fn modb(x: &BigUint, p: u64) -> u64 { (x % p).to_u64().unwrap() }
/// CRT lift of one residue vector (Garner).
pub fn crt(q: &[u64], r: &[u64]) -> BigUint {
    let mut x = BigUint::zero();
    let mut m = BigUint::one();
    for (qi, ri) in q.iter().zip(r) {
        let xi = modb(&x, *qi);
        let d = submod(*ri, xi, *qi);
        let k = mulmod(d, inv_mod(modb(&m, *qi), *qi).expect("coprime"), *qi);
        x += &m * k;
        m *= *qi;
    }
    x
}
/// Centered representative of x mod m in (-m/2, m/2].
pub fn centered(x: &BigUint, m: &BigUint) -> BigInt {
    if x * 2u32 > *m { BigInt::from(x.clone()) - BigInt::from(m.clone()) } else { BigInt::from(x.clone()) }
}
pub fn round_div(x: &BigInt, d: &BigInt) -> BigInt { floor_div(&(x * 2 + d), &(d * 2)) }
pub fn floor_div(x: &BigInt, d: &BigInt) -> BigInt {
    let (q, r) = (x / d, x % d);
    if r != BigInt::zero() && ((r < BigInt::zero()) != (*d < BigInt::zero())) { q - 1 } else { q }
}
pub fn bmod(x: &BigInt, p: u64) -> u64 {
    let r = x % BigInt::from(p);
    let r = if r < BigInt::zero() { r + BigInt::from(p) } else { r };
    r.to_u64().unwrap()
}
pub fn bmod_big(x: &BigInt, p: &BigUint) -> BigUint {
    let pi = BigInt::from(p.clone());
    let r = x % &pi;
    let r = if r < BigInt::zero() { r + pi } else { r };
    r.to_biguint().unwrap()
}
impl Rp {
    pub fn zero(q: &[u64], n: usize) -> Self { Rp { q: q.to_vec(), n, r: q.iter().map(|_| vec![0; n]).collect() } }
    pub fn from_i64(q: &[u64], n: usize, v: &[i64]) -> Self {
        Rp { q: q.to_vec(), n, r: q.iter().map(|p| (0..n).map(|i| v.get(i).map(|x| (*x as i128).rem_euclid(*p as i128) as u64).unwrap_or(0)).collect()).collect() }
    }
    pub fn from_bigint(q: &[u64], n: usize, v: &[BigInt]) -> Self {
        Rp { q: q.to_vec(), n, r: q.iter().map(|p| (0..n).map(|i| v.get(i).map(|x| bmod(x, *p)).unwrap_or(0)).collect()).collect() }
    }
    pub fn from_big(q: &[u64], n: usize, v: &[BigUint]) -> Self {
        Rp { q: q.to_vec(), n, r: q.iter().map(|p| (0..n).map(|i| v.get(i).map(|x| modb(x, *p)).unwrap_or(0)).collect()).collect() }
    }
    pub fn random(cx: &mut Cx, q: &[u64], n: usize) -> Self {
        Rp { q: q.to_vec(), n, r: q.iter().map(|p| cx.residues(*p, n)).collect() }
    }
    fn zip(&self, o: &Rp, f: impl Fn(u64, u64, u64) -> u64) -> Rp {
        assert_eq!((&self.q, self.n), (&o.q, o.n));
        Rp { q: self.q.clone(), n: self.n, r: (0..self.q.len()).map(|k| (0..self.n).map(|i| f(self.r[k][i], o.r[k][i], self.q[k])).collect()).collect() }
    }
    pub fn add(&self, o: &Rp) -> Rp { self.zip(o, addmod) }
    pub fn sub(&self, o: &Rp) -> Rp { self.zip(o, submod) }
    pub fn neg(&self) -> Rp { Rp::zero(&self.q, self.n).sub(self) }
    pub fn scale(&self, s: &BigUint) -> Rp {
        Rp { q: self.q.clone(), n: self.n, r: (0..self.q.len()).map(|k| { let t = modb(s, self.q[k]); self.r[k].iter().map(|x| mulmod(*x, t, self.q[k])).collect() }).collect() }
    }
    pub fn mul(&self, o: &Rp) -> Rp {
        assert_eq!((&self.q, self.n), (&o.q, o.n));
        let n = self.n;
        let mut z = Rp::zero(&self.q, n);
        for k in 0..self.q.len() {
            let p = self.q[k];
            let mut c = vec![0u64; 2 * n];
            for i in 0..n {
                if self.r[k][i] == 0 { continue; }
                for j in 0..n { c[i + j] = addmod(c[i + j], mulmod(self.r[k][i], o.r[k][j], p), p); }
            }
            for i in 0..n { z.r[k][i] = submod(c[i], c[i + n], p); }
        }
        z
    }
    /// X -> X^e
    pub fn subst(&self, e: usize) -> Rp {
        let mut z = Rp::zero(&self.q, self.n);
        for k in 0..self.q.len() {
            for i in 0..self.n {
                let d = (i as u128 * e as u128 % (2 * self.n as u128)) as usize;
                let v = self.r[k][i];
                if d < self.n { z.r[k][d] = addmod(z.r[k][d], v, self.q[k]) } else { z.r[k][d - self.n] = submod(z.r[k][d - self.n], v, self.q[k]) }
            }
        }
        z
    }
    /// multiplication by X^k
    pub fn mulx(&self, k: usize) -> Rp {
        let mut z = Rp::zero(&self.q, self.n);
        for j in 0..self.q.len() {
            for i in 0..self.n {
                let d = (i + k % (2 * self.n)) % (2 * self.n);
                let v = self.r[j][i];
                if d < self.n { z.r[j][d] = v } else { z.r[j][d - self.n] = submod(0, v, self.q[j]) }
            }
        }
        z
    }
    pub fn lift(&self) -> Vec<BigUint> {
        (0..self.n).map(|i| crt(&self.q, &self.r.iter().map(|r| r[i]).collect::<Vec<_>>())).collect()
    }
    pub fn centered(&self) -> Vec<BigInt> { let m = prod(&self.q); self.lift().iter().map(|x| centered(x, &m)).collect() }
    pub fn array(&self) -> Array2<u64> {
        Array2::from_shape_vec((self.q.len(), self.n), self.r.concat()).unwrap()
    }
    pub fn pb(&self, ctx: &Arc<Context>) -> Poly<PowerBasis> { Poly::<PowerBasis>::try_convert_from(self.array(), ctx, false).expect("poly") }
    pub fn ntt(&self, ctx: &Arc<Context>) -> Poly<Ntt> { self.pb(ctx).into_ntt() }
    pub fn shoup(&self, ctx: &Arc<Context>) -> Poly<NttShoup> { self.pb(ctx).into_ntt_shoup() }
    /// Read back a coefficient-form polynomial; Err when a residue is not canonical.
    pub fn of_pb(p: &Poly<PowerBasis>) -> Result<Rp, String> {
        let q = p.ctx().moduli().to_vec();
        let v = Vec::<u64>::try_from(p).map_err(|e| e.to_string())?;
        let n = v.len() / q.len();
        let r: Vec<Vec<u64>> = v.chunks(n).map(|c| c.to_vec()).collect();
        for k in 0..q.len() { if let Some(x) = r[k].iter().find(|x| **x >= q[k]) { return Err(format!("non-canonical residue {x} modulo {}", q[k])); } }
        Ok(Rp { q, n, r })
    }
    pub fn of_ntt(p: &Poly<Ntt>) -> Result<Rp, String> {
        let v = Vec::<u64>::try_from(p).map_err(|e| e.to_string())?;
        canonical(p.ctx().moduli(), &v)?;
        Self::of_pb(&p.clone().into_power_basis())
    }
    pub fn of_shoup(p: &Poly<NttShoup>) -> Result<Rp, String> {
        let v = Vec::<u64>::try_from(p).map_err(|e| e.to_string())?;
        canonical(p.ctx().moduli(), &v)?;
        Self::of_pb(&p.clone().into_power_basis())
    }
}
pub fn canonical(q: &[u64], v: &[u64]) -> Result<(), String> {
    let n = v.len() / q.len();
    for k in 0..q.len() { if let Some(x) = v[k * n..(k + 1) * n].iter().find(|x| **x >= q[k]) { return Err(format!("non-canonical residue {x} modulo {}", q[k])); } }
    Ok(())
}
/// k distinct NTT-friendly moduli for degree n, sizes mixed in [lo, hi] bits.
pub fn moduli(cx: &mut Cx, n: usize, k: usize, lo: u64, hi: u64) -> Vec<u64> {
    let mut v: Vec<u64> = vec![];
    let style = cx.below(4);
    let b0 = cx.range(lo, hi);
    let mut tries = 0;
    while v.len() < k {
        let b = if style < 2 { b0 } else { cx.range(lo, hi) };
        let b = if tries > 20 { hi } else { b };
        tries += 1;
        let top = (1u64 << (b - 1)) - 1 + (1u64 << (b - 1));
        let ub = if style == 0 { top } else { top - cx.below((1 << (b - 1)).min(top)) / 2 };
        let mut ub = ub;
        loop {
            match prev_prime(ub, 2 * n as u64) {
                Some(p) if !v.contains(&p) => { v.push(p); break; }
                Some(p) => ub = p,
                None => break,
            }
        }
    }
    v
}
