//! C03 bit packing.
use crate::fw::*;
use crate::gn::*;
use crate::{check, check_eq};
use fhe_math::zq::Modulus;
use fhe_util::{transcode_bidirectional, transcode_from_bytes, transcode_to_bytes};

pub fn kinds() -> Vec<Kind> {
    vec![
        Kind { prop: "C03", name: "pack.bytes", quick: 60_000, thorough: 3_000_000, f: bytes },
        Kind { prop: "C03", name: "pack.widths", quick: 64 * 64, thorough: 64 * 64 * 200, f: widths },
        Kind { prop: "C03", name: "pack.zq", quick: 20_000, thorough: 1_000_000, f: zq },
    ]
}

struct Bits(Vec<bool>);
impl Bits {
    fn push(&mut self, v: u64, n: usize) { for i in 0..n { self.0.push(v >> i & 1 == 1); } }
    fn words(&self, n: usize) -> Vec<u64> {
        self.0.chunks(n).map(|c| c.iter().enumerate().fold(0u64, |a, (i, b)| a | (*b as u64) << i)).collect()
    }
}
fn len(cx: &mut Cx) -> usize {
    let l = match cx.below(4) { 0 => cx.below(5), 1 => cx.below(70), 2 => 8 * cx.below(6), _ => cx.below(24) };
    l as usize
}
fn values(cx: &mut Cx, n: usize, l: usize) -> Vec<u64> {
    let m = if n == 64 { u64::MAX } else { (1 << n) - 1 };
    match cx.below(5) {
        0 => vec![m; l],
        1 => { let mut v = vec![0; l]; if l > 0 { v[l - 1] = m; } v }
        _ => (0..l).map(|_| if cx.below(4) == 0 { m } else { cx.word() & m }).collect(),
    }
}
fn bytes(cx: &mut Cx) -> R {
    let n = cx.range(1, 64) as usize;
    let l = len(cx);
    let a = values(cx, n, l);
    cx.note(format!("n={n} a={a:?}"));
    let mut s = Bits(vec![]);
    for x in &a { s.push(*x, n); }
    let exp: Vec<u8> = s.words(8).iter().map(|x| *x as u8).collect();
    let b = transcode_to_bytes(&a, n);
    check_eq!(b.len(), (l * n).div_ceil(8), "packed length");
    check_eq!(b, exp, "little-endian bit stream");
    let c = transcode_from_bytes(&b, n);
    check!(c.len() >= l && c[..l] == a[..] && c[l..].iter().all(|x| *x == 0), "round trip: {}", short(&c));
    // arbitrary bytes
    let k = len(cx);
    let raw: Vec<u8> = (0..k).map(|_| if cx.below(3) == 0 { 0xff } else { cx.u64() as u8 }).collect();
    cx.note(format!("raw={raw:?}"));
    let mut s = Bits(vec![]);
    for x in &raw { s.push(*x as u64, 8); }
    check_eq!(transcode_from_bytes(&raw, n), s.words(n), "unpack");
    Ok(())
}
fn widths(cx: &mut Cx) -> R {
    let (n, m) = (1 + (cx.idx % 64) as usize, 1 + (cx.idx / 64 % 64) as usize);
    for _ in 0..6 {
        let l = len(cx);
        let a = values(cx, n, l);
        cx.note(format!("{n}->{m} a={a:?}"));
        let mut s = Bits(vec![]);
        for x in &a { s.push(*x, n); }
        let r = transcode_bidirectional(&a, n, m);
        check_eq!(r, s.words(m), "{n} -> {m} bits");
        let back = transcode_bidirectional(&r, m, n);
        check!(back.len() >= l && back[..l] == a[..] && back[l..].iter().all(|x| *x == 0), "{n} -> {m} -> {n}: {}", short(&back));
    }
    Ok(())
}
fn zq(cx: &mut Cx) -> R {
    let p = modulus(cx);
    let l = len(cx);
    let a = cx.residues(p, l);
    cx.note(format!("p={p} a={a:?}"));
    let m = Modulus::new(p).map_err(|e| e.to_string())?;
    let bl = 64 - (p - 1).leading_zeros() as usize;
    let b = m.serialize_vec(&a);
    let mut s = Bits(vec![]);
    for x in &a { s.push(*x, bl); }
    check_eq!(b, s.words(8).iter().map(|x| *x as u8).collect::<Vec<_>>(), "serialize_vec");
    let c = m.deserialize_vec(&b);
    check!(c.len() >= l && c[..l] == a[..] && c[l..].iter().all(|x| *x == 0), "deserialize_vec: {}", short(&c));
    if l % 8 == 0 {
        check_eq!(m.serialization_length(l), b.len(), "serialization_length");
        check_eq!(c, a, "exact round trip for a multiple of 8");
    }
    Ok(())
}
