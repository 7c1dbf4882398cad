//! C22 primes and inverses.
use crate::fw::*;
use crate::gn::*;
use crate::ring::inv_mod;
use crate::check_eq;
use fhe_math::zq::primes::generate_prime;
use fhe_util::{inverse, is_prime};

pub fn kinds() -> Vec<Kind> {
    vec![
        Kind { prop: "C22", name: "prime.test", quick: 60_000, thorough: 2_000_000, f: test },
        Kind { prop: "C22", name: "prime.small", quick: 64, thorough: 2000, f: small },
        Kind { prop: "C22", name: "prime.generate", quick: 6000, thorough: 200_000, f: generate },
        Kind { prop: "C22", name: "prime.chain", quick: 53 * 4, thorough: 53 * 12, f: chain },
        Kind { prop: "C22", name: "inverse", quick: 60_000, thorough: 2_000_000, f: inv },
    ]
}
/// strong pseudoprimes and Lucas pseudoprimes
const PSP: &[u64] = &[2047, 3277, 4033, 4681, 8321, 15841, 29341, 42799, 49141, 52633, 65281, 74665, 80581, 85489, 88357, 90751, 1373653, 25326001,
    3215031751, 2152302898747, 3474749660383, 341550071728321, 3825123056546413051, 5459, 5777, 10877, 16109, 18971, 22499, 24569, 25199, 40309, 58519, 75077, 97439,
    989, 3239, 5459, 5777, 10877, 27971, 29681, 30739, 31631, 39059, 72389, 73919, 75077, 561, 1105, 1729, 2465, 2821, 6601, 8911, 4611686018427387903,
    18446744073709551615, 18446744073709551557, 18446744073709551533, 18446744065119617025, 9223372036854775783];
fn test(cx: &mut Cx) -> R {
    let p = match cx.below(8) {
        0 => *cx.pick(PSP),
        1 => { let a = prev_prime(1 << cx.range(4, 32), 1).unwrap_or(3); let b = prev_prime(1 << cx.range(4, 32), 1).unwrap_or(5); a * b }
        2 => { let a = prev_prime((cx.u64() >> cx.range(32, 58)).max(5), 1).unwrap_or(3); a.wrapping_mul(a) }
        3 => prev_prime(cx.word().max(10), 1).unwrap_or(2),
        // (k+1)(2k+1) is the classic strong pseudoprime shape
        4 => { let k = cx.u64() >> cx.range(33, 60); (k + 1).wrapping_mul(2 * k + 1) }
        5 => cx.below(70000),
        _ => cx.word(),
    };
    cx.note(p);
    check_eq!(is_prime(p), is_prime_u64(p), "is_prime({p})");
    Ok(())
}
fn small(cx: &mut Cx) -> R {
    let lo = cx.idx * 2048;
    cx.note(format!("{lo}..{}", lo + 2048));
    for p in lo..lo + 2048 {
        let exp = p >= 2 && (2..).take_while(|d| d * d <= p).all(|d| p % d != 0);
        check_eq!(is_prime(p), exp, "is_prime({p})");
    }
    Ok(())
}
fn expected(bits: usize, m: u64, ub: u64) -> Option<u64> {
    if ub < 3 { return None; }
    let lo = 1u64 << (bits - 1);
    // largest c < ub with c % m == 1
    let mut c = (ub - 1) - (ub - 2) % m;
    while c >= lo {
        if is_prime_u64(c) { return Some(c); }
        if c < m { return None; }
        c -= m;
    }
    None
}
fn gen_check(bits: usize, m: u64, ub: u64) -> R {
    let r = generate_prime(bits, m, ub);
    check_eq!(r, expected(bits, m, ub), "generate_prime({bits}, {m}, {ub})");
    Ok(())
}
fn generate(cx: &mut Cx) -> R {
    let bits = cx.range(10, 62) as usize;
    let m = match cx.below(5) {
        0 => 2 + cx.below(200),
        1 => (1u64 << cx.range(1, (bits as u64 - 1).min(20))) + cx.below(3),
        2 => { let b = cx.range(1, (bits as u64 - 1).min(16)); (1u64 << b) + cx.below(1 << b) }
        _ => 1u64 << cx.range(1, 18),
    };
    let m = m.max(2);
    let ub = match cx.below(5) {
        0 => 1u64 << bits,
        1 => (1u64 << (bits - 1)) + cx.below(5000.min(1 << (bits - 1))),
        2 => cx.below(1 << bits),
        3 => cx.below(3),
        _ => (1u64 << bits) - cx.below(1 << (bits - 1)),
    };
    cx.note(format!("bits={bits} modulo={m} bound={ub}"));
    gen_check(bits, m, ub)?;
    let nb = match cx.below(3) { 0 => cx.below(10), 1 => 63 + cx.below(3), _ => 200 } as usize;
    check_eq!(generate_prime(nb, m, ub), None, "generate_prime({nb}, ..)");
    Ok(())
}
fn chain(cx: &mut Cx) -> R {
    let bits = 10 + (cx.idx % 53) as usize;
    let m = [16u64, 64, 2048, 32768, 2, 8, 65536, 131072, 4096, 6, 10, 1024][(cx.idx / 53) as usize % 12];
    cx.note(format!("bits={bits} modulo={m}"));
    let mut ub = 1u64 << bits;
    for _ in 0..12 {
        gen_check(bits, m, ub)?;
        match generate_prime(bits, m, ub) { Some(p) => ub = p, None => break }
    }
    Ok(())
}
fn inv(cx: &mut Cx) -> R {
    let p = match cx.below(4) { 0 => 2 + cx.below(60), 1 => cx.word().max(2), 2 => prev_prime(cx.word().max(10), 1).unwrap_or(2), _ => (1u64 << cx.range(1, 63)) - cx.below(2) };
    let p = p.max(2);
    let a = match cx.below(3) { 0 => cx.word(), 1 => cx.residue(p), _ => (cx.below(1000) + 1).wrapping_mul(cx.below(100)) };
    cx.note(format!("a={a} p={p}"));
    check_eq!(inverse(a, p), inv_mod(a, p), "inverse({a}, {p})");
    Ok(())
}
