//@ import polysub
//@ import sem
// ---------------------------------------------------------------------------
// The substitution X -> X^e is the ring automorphism, in both forms
// ---------------------------------------------------------------------------
use vstd::arithmetic::div_mod::*;
use vstd::arithmetic::mul::*;
use vstd::arithmetic::power::*;
use vstd::arithmetic::power2::{pow2, lemma_pow2_unfold, lemma2_to64};
use std::sync::Arc;

/// image under X -> X^e of the first m terms of a, modulo X^d + 1
pub open spec fn gpart(a: Seq<int>, e: int, m: nat) -> Seq<int>
    decreases m,
{
    let d = a.len() as int;
    if m == 0 { Seq::new(a.len(), |k: int| 0int) } else {
        let j = m - 1;
        gpart(a, e, (m - 1) as nat).update(tgt(e, d, j), if flip(e, d, j) { -a[j] } else { a[j] })
    }
}
/// a(X^e) modulo X^d + 1
pub open spec fn galois(a: Seq<int>, e: int) -> Seq<int> { gpart(a, e, a.len()) }

proof fn lemma_gpart(a: Seq<int>, e: int, m: nat)
    requires m <= a.len(), a.len() >= 2, is_pow2(a.len() as int), e % 2 == 1,
    ensures gpart(a, e, m).len() == a.len(),
        forall|j: int| 0 <= j < m ==> gpart(a, e, m)[#[trigger] tgt(e, a.len() as int, j)] == (if flip(e, a.len() as int, j) { -a[j] } else { a[j] }),
        forall|j: int| m <= j < a.len() ==> gpart(a, e, m)[#[trigger] tgt(e, a.len() as int, j)] == 0,
    decreases m,
{
    let d = a.len() as int;
    assert forall|j: int| 0 <= j < d implies 0 <= #[trigger] tgt(e, d, j) < d by { lemma_mod_bound(j * e, d); }
    if m > 0 {
        let q = (m - 1) as nat;
        lemma_gpart(a, e, q);
        assert forall|j: int| 0 <= j < d && j != q implies #[trigger] tgt(e, d, j) != tgt(e, d, q as int) by { if tgt(e, d, j) == tgt(e, d, q as int) { lemma_tgt_inj(e, d, j, q as int); } }
        assert(tgt(e, d, q as int) < d);
    }
}
/// coefficient j goes to j e mod d with the sign of (-1)^(j e / d), and nothing else is there
pub proof fn lemma_galois(a: Seq<int>, e: int)
    requires a.len() >= 2, is_pow2(a.len() as int), e % 2 == 1,
    ensures galois(a, e).len() == a.len(),
        forall|j: int| 0 <= j < a.len() ==> galois(a, e)[#[trigger] tgt(e, a.len() as int, j)] == (if flip(e, a.len() as int, j) { -a[j] } else { a[j] }),
{ lemma_gpart(a, e, a.len()); }

proof fn lemma_rem_upd(s: Seq<int>, i: int, v: int, c: int, t: nat)
    requires 0 <= i < s.len(), t <= s.len(),
    ensures rem(s.update(i, v), 1, c, 0, t) == rem(s, 1, c, 0, t) + (if i < t { (v - s[i]) * pow(c, i as nat) } else { 0 }),
    decreases t,
{
    if t > 0 {
        let q = (t - 1) as nat;
        lemma_rem_upd(s, i, v, c, q);
        assert(0 + (t - 1) * 1 == q);
        let x = pow(c, q);
        if i == q {
            let (r, o) = (rem(s, 1, c, 0, q), s[i]);
            assert(r + v * x == (r + o * x) + (v - o) * x) by (nonlinear_arith);
        }
    }
}
proof fn lemma_rem_zeros(s: Seq<int>, c: int, t: nat)
    requires t <= s.len(), forall|m: int| 0 <= m < s.len() ==> #[trigger] s[m] == 0,
    ensures rem(s, 1, c, 0, t) == 0,
    decreases t,
{ if t > 0 { lemma_rem_zeros(s, c, (t - 1) as nat); assert(0 + (t - 1) * 1 == t - 1); assert(0 * pow(c, (t - 1) as nat) == 0); } }
/// x^k with x^d == -1
proof fn lemma_wrap(x: int, d: int, k: nat, p: int)
    requires p > 0, d > 0, eqm(pow(x, d as nat), -1, p),
    ensures eqm(pow(x, k), (if k as int % (2 * d) >= d { -1int } else { 1int }) * pow(x, (k as int % d) as nat), p),
    decreases k,
{
    let (ki, o) = (k as int, 2 * d);
    if k < d {
        lemma_small_mod(k, d as nat); lemma_small_mod(k, o as nat);
        assert(1 * pow(x, k) == pow(x, k));
        eqm_refl(pow(x, k), p);
    } else {
        let h = (k - d) as nat;
        lemma_wrap(x, d, h, p);
        lemma_pow_adds(x, d as nat, h);
        lemma_mod_add_multiples_vanish(ki - d, d);
        lemma_mod_bound(ki - d, o);
        lemma_fundamental_div_mod(ki - d, o);
        let (u, r) = ((ki - d) / o, (ki - d) % o);
        if r < d {
            assert(ki == u * o + (r + d)) by (nonlinear_arith) requires ki - d == o * u + r;
            lemma_fundamental_div_mod_converse(ki, o, u, r + d);
        } else {
            assert(ki == (u + 1) * o + (r - d)) by (nonlinear_arith) requires ki - d == o * u + r, o == 2 * d;
            lemma_fundamental_div_mod_converse(ki, o, u + 1, r - d);
        }
        let sg: int = if h as int % o >= d { -1 } else { 1 };
        let y = pow(x, (h as int % d) as nat);
        eqm_mul(pow(x, d as nat), -1, pow(x, h), sg * y, p);
        assert(-1 * (sg * y) == (-sg) * y) by (nonlinear_arith);
    }
}
proof fn lemma_gpart_eval(a: Seq<int>, e: int, m: nat, x: int, y: int, p: int)
    requires m <= a.len(), a.len() >= 2, is_pow2(a.len() as int), e % 2 == 1, e > 0, p > 0, eqm(pow(x, a.len()), -1, p), eqm(y, pow(x, e as nat), p),
    ensures eqm(eval(gpart(a, e, m), x), rem(a, 1, y, 0, m), p),
    decreases m,
{
    let d = a.len() as int;
    if m == 0 {
        lemma_rem_zeros(gpart(a, e, 0), x, a.len());
        eqm_refl(0, p);
    } else {
        let q = (m - 1) as nat;
        let j = q as int;
        lemma_gpart_eval(a, e, q, x, y, p);
        lemma_gpart(a, e, q);
        let g = gpart(a, e, q);
        let sg: int = if flip(e, d, j) { -1 } else { 1 };
        let v = if flip(e, d, j) { -a[j] } else { a[j] };
        let i = tgt(e, d, j);
        lemma_mod_bound(j * e, d);
        assert(g[i] == 0);
        lemma_rem_upd(g, i, v, x, a.len());
        assert(j * e >= 0) by (nonlinear_arith) requires j >= 0, e > 0;
        let k = (j * e) as nat;
        lemma_wrap(x, d, k, p);
        // y^j == x^(e j)
        eqm_pow(y, pow(x, e as nat), q, p);
        lemma_pow_multiplies(x, e as nat, q);
        assert((e as nat) * q == k) by (nonlinear_arith) requires k == j * e, j == q;
        let (t, yj, xk) = (pow(x, i as nat), pow(y, q), pow(x, k));
        eqm_trans(yj, xk, sg * t, p);
        eqm_mulc(yj, sg * t, a[j], p);
        assert(v * t == (sg * t) * a[j]) by (nonlinear_arith) requires v == sg * a[j];
        eqm_sym(yj * a[j], (sg * t) * a[j], p);
        eqm_add(eval(g, x), rem(a, 1, y, 0, q), v * t, yj * a[j], p);
        assert(0 + (m - 1) * 1 == q);
        assert(yj * a[j] == a[j] * yj) by (nonlinear_arith);
        assert(rem(a, 1, y, 0, m) == rem(a, 1, y, 0, q) + a[j] * yj);
        assert((v - g[i]) * t == v * t);
    }
}
/// a(X^e) evaluated at x is a evaluated at x^e, whenever x^d == -1
pub proof fn lemma_galois_eval(a: Seq<int>, e: int, x: int, y: int, p: int)
    requires a.len() >= 2, is_pow2(a.len() as int), e % 2 == 1, e > 0, p > 0, eqm(pow(x, a.len()), -1, p), eqm(y, pow(x, e as nat), p),
    ensures eqm(eval(galois(a, e), x), eval(a, y), p),
{ lemma_gpart_eval(a, e, a.len(), x, y, p); }

/// evaluation point i is w^(2 brev(i) + 1)
pub proof fn lemma_point(op: NttOperator, w: int, i: int)
    requires op.wfx(), hroot(w, op.omegas@, op.size as int, op.p.p as int), prime(op.p.p as int), 0 <= i < op.size, 8 <= op.size,
        op.size == pow2(lgc(op.size as int)),
    ensures eqm(op.point(i), pow(w, (2 * brev(i, lgc(op.size as int)) + 1) as nat), op.p.p as int), 0 <= brev(i, lgc(op.size as int)) < op.size,
{
    let n = op.size as int; let lg = lgc(n); let p = op.p.p as int; let om = op.omegas@;
    lemma2_to64();
    lemma_brev_invol(i, lg);
    assert(lg >= 1) by { if lg == 0 { } }
    let s = (lg - 1) as nat;
    lemma_pow2_unfold(lg);
    let h = i / 2;
    let k = pow2(s) + h;
    lemma_brev_invol(h, s);
    lemma_brev_hi(h, 1, lg);
    let b = brev(h, s);
    assert(brev(i, lg) == (i % 2) * pow2(s) + b);
    assert((n + i) / 2 == k && (n + i) % 2 == i % 2);
    assert(1 * pow2(s) + h == k);
    assert(brev(k, lg) == 2 * b + 1);
    assert(eqm(om[k] as int, pow(w, brev(k, lg) as nat), p));
    if i % 2 == 0 {
        assert(op.point(i) == om[k] as int);
        assert(0 * pow2(s) == 0);
    } else {
        assert(1 * pow2(s) == pow2(s));
        assert(op.point(i) == -(om[k] as int));
        lemma_minus_one(w, n as nat, p);
        let x = pow(w, (2 * b + 1) as nat);
        lemma_pow_adds(w, n as nat, (2 * b + 1) as nat);
        assert(2 * brev(i, lg) + 1 == n + (2 * b + 1));
        let wn = pow(w, n as nat);
        eqm_sym(om[k] as int, x, p); eqm_mul(wn, -1, x, om[k] as int, p);
        assert(-1 * (om[k] as int) == -(om[k] as int));
        eqm_sym(wn * x, -(om[k] as int), p);
    }
}
/// x = w^(2j+1), y = w^(2u+1), u = pw(j) mod n: then x^n = -1 and y = x^e
proof fn lemma_points(w: int, x: int, y: int, e: int, j: int, u: int, n: int, p: int)
    requires p > 0, n > 0, e > 0, e % 2 == 1, j >= 0, u == pw(e, j) % n, 0 <= u < n, eqm(pow(w, n as nat), -1, p),
        eqm(x, pow(w, (2 * j + 1) as nat), p), eqm(y, pow(w, (2 * u + 1) as nat), p),
    ensures eqm(pow(x, n as nat), -1, p), eqm(y, pow(x, e as nat), p),
{
    let (m, k) = ((2 * j + 1) as nat, (2 * u + 1) as nat);
    // x^n == (w^n)^m == -1
    eqm_pow(x, pow(w, m), n as nat, p);
    lemma_pow_multiplies(w, m, n as nat);
    lemma_pow_multiplies(w, n as nat, m);
    assert(m * (n as nat) == (n as nat) * m) by (nonlinear_arith);
    eqm_pow(pow(w, n as nat), -1, m, p);
    lemma_odd_minus(m);
    eqm_trans(pow(x, n as nat), pow(pow(w, n as nat), m), -1, p);
    // x^e == w^(m e) == w^k
    eqm_pow(x, pow(w, m), e as nat, p);
    lemma_pow_multiplies(w, m, e as nat);
    assert(m * (e as nat) >= 0);
    let me = m * (e as nat);
    lemma_exp(e, j, n);
    assert(me as int == e * (2 * j + 1)) by (nonlinear_arith) requires me as int == m as int * e, m as int == 2 * j + 1;
    lemma_wrap(w, n, me, p);
    lemma_wrap(w, n, k, p);
    eqm_sym(pow(w, k), (if k as int % (2 * n) >= n { -1int } else { 1int }) * pow(w, (k as int % n) as nat), p);
    assert(me as int % n == k as int % n) by { lemma_mod_mod2(me as int, n); lemma_mod_mod2(k as int, n); }
    eqm_trans(pow(w, me), (if k as int % (2 * n) >= n { -1int } else { 1int }) * pow(w, (k as int % n) as nat), pow(w, k), p);
    eqm_trans(pow(x, e as nat), pow(w, me), pow(w, k), p);
    eqm_sym(y, pow(w, k), p); eqm_sym(pow(x, e as nat), pow(w, k), p);
    eqm_trans(y, pow(w, k), pow(x, e as nat), p);
}
/// the substitution of the values is the transform of the substituted polynomial
pub proof fn lemma_sub_fwd(op: NttOperator, b: Seq<u64>, r: Seq<u64>, a: Seq<int>, e: int)
    requires op.wfx(), op.rooted(), prime(op.p.p as int), 8 <= op.size, op.size == pow2(lgc(op.size as int)),
        op.is_fwd(b, a), r.len() == op.size, sub_ntt(r, b, e, op.size as int), e % 2 == 1, 0 < e < 2 * op.size,
    ensures op.is_fwd(r, galois(a, e)),
{
    let n = op.size as int; let lg = lgc(n); let p = op.p.p as int;
    reveal(isrooted);
    let w = choose|w: int| #[trigger] hroot(w, op.omegas@, n, p);
    lemma_galois(a, e);
    assert(is_pow2(n));
    lemma_minus_one(w, n as nat, p);
    assert forall|i: int| 0 <= i < n implies eqm(#[trigger] r[i] as int, eval(galois(a, e), op.point(i)), p) by {
        lemma_point(op, w, i);
        lemma_brev_invol(i, lg);
        let j = brev(i, lg);
        assert(brev(j, lg) == i);
        let u = pw(e, j) % n;
        lemma_mod_bound(pw(e, j), n);
        lemma_brev_invol(u, lg);
        let z = brev(u, lg);
        assert(brev(z, lg) == u);
        assert(r[brev(j, lg)] == b[z]);
        assert(eqm(b[z] as int, eval(a, op.point(z)), p));
        lemma_point(op, w, z);
        let (x, y) = (op.point(i), op.point(z));
        lemma_points(w, x, y, e, j, u, n, p);
        lemma_galois_eval(a, e, x, y, p);
        eqm_sym(eval(galois(a, e), x), eval(a, y), p);
        eqm_trans(b[z] as int, eval(a, y), eval(galois(a, e), x), p);
    }
}
proof fn lemma_odd_minus(m: nat)
    requires m % 2 == 1,
    ensures pow(-1, m) == -1,
    decreases m,
{
    if m == 1 { lemma_pow1(-1); } else {
        lemma_odd_minus((m - 2) as nat);
        lemma_pow_adds(-1, 2, (m - 2) as nat);
        lemma_pow1(-1); lemma_pow_adds(-1, 1, 1);
    }
}
proof fn lemma_mod_mod2(x: int, n: int)
    requires n > 0,
    ensures x % n == (x % (2 * n)) % n,
{
    lemma_fundamental_div_mod(x, 2 * n);
    let q = x / (2 * n);
    assert(x == n * (2 * q) + x % (2 * n)) by (nonlinear_arith) requires x == (2 * n) * q + x % (2 * n);
    lemma_mod_multiples_vanish(2 * q, x % (2 * n), n);
}
/// e (2j + 1) == 2 (pw mod n) + 1 modulo 2n
proof fn lemma_exp(e: int, j: int, n: int)
    requires e % 2 == 1, n > 0,
    ensures (e * (2 * j + 1)) % (2 * n) == (2 * (pw(e, j) % n) + 1) % (2 * n),
{
    let u = pw(e, j);
    lemma_fundamental_div_mod(u, n);
    let q = u / n;
    let h = (e - 1) / 2;
    assert(e == 2 * h + 1);
    assert(e * (2 * j + 1) == (2 * n) * q + (2 * (u % n) + 1)) by (nonlinear_arith) requires e == 2 * h + 1, u == h + j * e, u == n * q + u % n;
    lemma_mod_multiples_vanish(q, 2 * (u % n) + 1, 2 * n);
}
/// substitution in NTT form is the automorphism on the polynomial it represents
pub proof fn lemma_isx_sub<R: RepresentationTag>(a: Poly<R>, r: Poly<R>, s: SubstitutionExponent, x: Seq<int>)
    requires a.wf(), r.wf(), s.wf(), r.ctx == a.ctx, s.ctx.degree == a.ctx.degree, a.isx(x),
        forall|i: int| 0 <= i < a.n() ==> sub_ntt((#[trigger] r.rows()[i])@, a.rows()[i]@, s.exponent as int, a.d()),
    ensures r.isx(galois(x, s.exponent as int)),
{
    lemma_deg(&*a.ctx);
    lemma_galois(x, s.exponent as int);
    assert forall|i: int| 0 <= i < r.n() implies r.ctx.ops@[i].is_fwd((#[trigger] r.rows()[i])@, galois(x, s.exponent as int)) by {
        assert(a.ctx.wf_i(i));
        assert(a.ctx.ops@[i].is_fwd(a.rows()[i]@, x));
        assert(canon(r.rows()[i]@, r.p(i)));
        lemma_sub_fwd(a.ctx.ops@[i], a.rows()[i]@, r.rows()[i]@, x, s.exponent as int);
    }
}
/// ... and so it is in coefficient form
pub proof fn lemma_coefs_sub(a: Poly<PowerBasis>, r: Poly<PowerBasis>, s: SubstitutionExponent, x: Seq<int>)
    requires a.wf(), r.wf(), s.wf(), r.ctx == a.ctx, s.ctx.degree == a.ctx.degree, a.coefs(x),
        forall|i: int| 0 <= i < a.n() ==> sub_pb((#[trigger] r.rows()[i])@, a.rows()[i]@, s.exponent as int, a.d(), a.p(i)),
    ensures r.coefs(galois(x, s.exponent as int)),
{
    let e = s.exponent as int; let d = a.d();
    lemma_deg(&*a.ctx);
    lemma_galois(x, e);
    let g = galois(x, e);
    assert forall|k: int| 0 <= k < d implies r.is_int(k, #[trigger] g[k]) by {
        lemma_oinv_mul(k, e, d);
        let j = (k * oinv(e, d)) % d;
        lemma_mod_bound(k * oinv(e, d), d);
        assert(tgt(e, d, j) == k);
        assert(a.is_int(j, x[j]));
        assert forall|i: int| 0 <= i < r.n() implies (#[trigger] r.rows()[i])@[k] as int == g[k] % r.p(i) by {
            assert(a.ctx.wf_i(i));
            let p = a.p(i);
            assert(sub_pb(r.rows()[i]@, a.rows()[i]@, e, d, p));
            let v = a.rows()[i]@[j] as int;
            assert(v == x[j] % p);
            assert(r.rows()[i]@[tgt(e, d, j)] == sgv(v, flip(e, d, j), p));
            lemma_sub_mod_noop_right(0, x[j], p);
        }
    }
}
/// substitutions compose by multiplying exponents modulo 2d
pub proof fn lemma_galois_comp(a: Seq<int>, e: int, f: int)
    requires a.len() >= 2, is_pow2(a.len() as int), e % 2 == 1, f % 2 == 1,
    ensures galois(galois(a, e), f) == galois(a, (e * f) % (2 * a.len() as int)),
{
    let d = a.len() as int;
    let g = (e * f) % (2 * d);
    assert((e * f) % 2 == 1) by { lemma_mul_mod_noop(e, f, 2); }
    assert(g % 2 == 1) by {
        lemma_fundamental_div_mod(e * f, 2 * d);
        let q = (e * f) / (2 * d);
        assert(e * f == 2 * (d * q) + g) by (nonlinear_arith) requires e * f == (2 * d) * q + g;
    }
    lemma_galois(a, e); lemma_galois(galois(a, e), f); lemma_galois(a, g);
    let (l, r) = (galois(galois(a, e), f), galois(a, g));
    assert forall|k: int| 0 <= k < d implies #[trigger] l[k] == r[k] by {
        lemma_oinv_mul(k, g, d);
        let j = (k * oinv(g, d)) % d;
        lemma_mod_bound(k * oinv(g, d), d);
        assert(tgt(g, d, j) == k);
        let t = tgt(e, d, j);
        lemma_mod_bound(j * e, d);
        // tgt(f, t) == k and the signs multiply
        let (je, o) = (j * e, 2 * d);
        lemma_fundamental_div_mod(je, d);
        let u = je / d;
        assert(je == d * u + t);
        // j g == je f mod 2d
        lemma_mul_mod_noop_right(j, e * f, o);
        assert(j * (e * f) == je * f) by (nonlinear_arith) requires je == j * e;
        assert((j * g) % o == (je * f) % o);
        assert(je * f == t * f + d * (u * f)) by (nonlinear_arith) requires je == d * u + t;
        lemma_flip(t * f, d, u * f);
        lemma_flip(t, d, u);
        assert((u * f) % 2 == u % 2) by { lemma_mul_mod_noop_right(u, f, 2); assert(u * 1 == u); }
        lemma_mod_mod2(j * g, d); lemma_mod_mod2(je * f, d);
        assert(t + d * u == je);
        assert(0 <= t < d);
        lemma_small_mod(t as nat, o as nat);
        assert(tgt(f, d, t) == k);
        assert(l[tgt(f, d, t)] == (if flip(f, d, t) { -galois(a, e)[t] } else { galois(a, e)[t] }));
        assert(galois(a, e)[tgt(e, d, j)] == (if flip(e, d, j) { -a[j] } else { a[j] }));
        assert(r[tgt(g, d, j)] == (if flip(g, d, j) { -a[j] } else { a[j] }));
    }
    assert(l =~= r);
}
/// adding d u: same residue, sign changes with the parity of u
proof fn lemma_flip(x: int, d: int, u: int)
    requires d > 0,
    ensures (x + d * u) % d == x % d, ((x + d * u) % (2 * d) >= d) <==> ((x % (2 * d) >= d) != (u % 2 == 1)),
{
    lemma_mod_multiples_vanish(u, x, d);
    assert(d * u + x == x + d * u);
    let o = 2 * d;
    lemma_fundamental_div_mod(x, o);
    let (q, r) = (x / o, x % o);
    lemma_mod_bound(x, o);
    let h = u / 2;
    if u % 2 == 0 {
        assert(x + d * u == (q + h) * o + r) by (nonlinear_arith) requires x == o * q + r, u == 2 * h, o == 2 * d;
        lemma_fundamental_div_mod_converse(x + d * u, o, q + h, r);
    } else if r < d {
        assert(x + d * u == (q + h) * o + (r + d)) by (nonlinear_arith) requires x == o * q + r, u == 2 * h + 1, o == 2 * d;
        lemma_fundamental_div_mod_converse(x + d * u, o, q + h, r + d);
    } else {
        assert(x + d * u == (q + h + 1) * o + (r - d)) by (nonlinear_arith) requires x == o * q + r, u == 2 * h + 1, o == 2 * d;
        lemma_fundamental_div_mod_converse(x + d * u, o, q + h + 1, r - d);
    }
}
