//! Input generators and arithmetic oracles shared by the case modules.
use crate::fw::Cx;

/// Deterministic Miller-Rabin, exact below 2^64.
pub fn is_prime_u64(n: u64) -> bool {
    if n < 2 { return false; }
    for p in [2u64, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37] {
        if n % p == 0 { return n == p; }
    }
    let (mut d, mut s) = (n - 1, 0);
    while d % 2 == 0 { d /= 2; s += 1; }
    'w: for a in [2u64, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37] {
        let mut x = powmod(a, d, n);
        if x == 1 || x == n - 1 { continue; }
        for _ in 1..s {
            x = mulmod(x, x, n);
            if x == n - 1 { continue 'w; }
        }
        return false;
    }
    true
}
pub fn mulmod(a: u64, b: u64, p: u64) -> u64 { (a as u128 * b as u128 % p as u128) as u64 }
pub fn addmod(a: u64, b: u64, p: u64) -> u64 { ((a as u128 + b as u128) % p as u128) as u64 }
pub fn submod(a: u64, b: u64, p: u64) -> u64 { addmod(a % p, p - b % p, p) }
pub fn powmod(a: u64, mut e: u64, p: u64) -> u64 {
    let mut r = 1 % p;
    let mut b = a % p;
    while e > 0 {
        if e & 1 == 1 { r = mulmod(r, b, p); }
        b = mulmod(b, b, p);
        e >>= 1;
    }
    r
}
/// Largest prime below `ub` that is 1 mod `m` (by direct search).
pub fn prev_prime(ub: u64, m: u64) -> Option<u64> {
    if ub < 3 { return None; }
    let mut c = (ub - 1) - (ub - 2) % m;
    loop {
        if c < 2 { return None; }
        if is_prime_u64(c) { return Some(c); }
        if c < m { return None; }
        c -= m;
    }
}
/// A modulus in [2, 2^62), boundary biased.
pub fn modulus(cx: &mut Cx) -> u64 {
    let p = match cx.below(10) {
        0 => 2 + cx.below(20),
        1 => (1u64 << cx.range(1, 61)) + cx.below(3),
        2 => (1u64 << cx.range(2, 62)) - 1 - cx.below(3),
        3 => prev_prime(1u64 << cx.range(3, 62), 1).unwrap_or(3),
        4 => { let b = cx.range(10, 62); prev_prime(1u64 << b, 1 << cx.range(1, (b / 2).min(17))).unwrap_or(3) }
        5 => { let b = cx.range(10, 62); let ub = (1u64 << (b - 1)) + cx.below(1 << (b - 1)); prev_prime(ub.max(10), 2).unwrap_or(3) }
        6 => (1u64 << 62) - 1 - cx.below(1000),
        _ => cx.u64() >> cx.range(2, 62),
    };
    p.clamp(2, (1 << 62) - 1)
}
/// The largest NTT-friendly primes of `bits` bits for degree n (1 mod 2n), starting at the k-th.
pub fn ntt_primes(bits: u64, n: u64, k: usize) -> Vec<u64> {
    let mut v = vec![];
    let mut ub = 1u64 << bits;
    while v.len() < k {
        match prev_prime(ub, 2 * n) {
            Some(p) if p >= 1 << (bits - 1) => { v.push(p); ub = p; }
            _ => break,
        }
    }
    v
}
