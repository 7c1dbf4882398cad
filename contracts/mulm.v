//@ import relin
// ---------------------------------------------------------------------------
// What the scaled-down tensor product of two ciphertexts encrypts
// (no code; over the contracts of Poly::scale and the polynomial operators)
// ---------------------------------------------------------------------------
use vstd::arithmetic::div_mod::*;
use vstd::arithmetic::mul::*;
use vstd::arithmetic::power::*;
use vstd::arithmetic::power2::pow2;
use std::sync::Arc;
use crate::modk::*;
use crate::nttm::*;
use crate::nttm::at;
use crate::ntt::*;
use crate::ringmul::*;
use crate::rns::*;
broadcast use group_poly;
// ---- a transform determines the polynomial modulo p
spec fn eqlvl(a: Seq<int>, b: Seq<int>, om: Seq<u64>, n: int, len: int, p: int) -> bool { forall|x: int| 0 <= x < n ==> eqm(len * #[trigger] at(a, om, n, x, len), len * at(b, om, n, x, len), p) }
proof fn lemma_eqlvl(a: Seq<int>, c: Seq<int>, om: Seq<u64>, z: Seq<u64>, n: int, k: int, m: int, l: int, p: int)
    requires 0 < p, 0 < l, 0 < m, n == m * (2 * l), tree_ok(om, n, p), inv_lvl(z, om, k, m, p), eqlvl(a, c, om, n, l, p),
    ensures eqlvl(a, c, om, n, 2 * l, p),
{
    assert forall|x: int| 0 <= x < n implies eqm((2 * l) * #[trigger] at(a, om, n, x, 2 * l), (2 * l) * at(c, om, n, x, 2 * l), p) by {
        let b = x / (2 * l); let r = x % (2 * l);
        lemma_fundamental_div_mod(x, 2 * l); lemma_mod_bound(x, 2 * l);
        assert(0 <= b < m) by (nonlinear_arith) requires x == (2 * l) * b + r, 0 <= r < 2 * l, 0 <= x < m * (2 * l), l > 0;
        let j = if r < l { r } else { r - l };
        let y = b * (2 * l) + j;
        assert(b * (2 * l) == (2 * l) * b) by (nonlinear_arith);
        lemma_divs(n, m, l, b, j);
        assert(eqm(z[k + b] * om[m + b], 1, p));
        let (u, v) = (l * at(a, om, n, y, l), l * at(a, om, n, y + l, l));
        eqm_refl(u, p); eqm_refl(v, p);
        let w = z[k + b] as int;
        lemma_bwd_step(a, om, n, m, l, b, j, w, u, v, p);
        lemma_bwd_step(c, om, n, m, l, b, j, w, u, v, p);
        let (f, g) = ((2 * l) * at(a, om, n, y, 2 * l), (2 * l) * at(c, om, n, y, 2 * l));
        let (h, i) = ((2 * l) * at(a, om, n, y + l, 2 * l), (2 * l) * at(c, om, n, y + l, 2 * l));
        eqm_sym(u + v, f, p); eqm_trans(f, u + v, g, p);
        eqm_sym((u - v) * w, h, p); eqm_trans(h, (u - v) * w, i, p);
    }
}
pub proof fn lemma_fwd_inj(op: &NttOperator, b: Seq<u64>, x: Seq<int>, y: Seq<int>)
    requires op.wfx(), op.is_fwd(b, x), op.is_fwd(b, y),
    ensures forall|j: int| 0 <= j < x.len() ==> #[trigger] eqm(x[j], y[j], op.p.p as int),
{
    let (p, n, om, z, lg) = (op.p.p as int, op.size as int, op.omegas@, op.zetas_inv@, lgc(op.size as int));
    lemma_inj_up(op, b, x, y, lg);
    lemma_lv(lg, 0);
    assert(eqlvl(x, y, om, n, n, p));
    assert forall|j: int| 0 <= j < x.len() implies #[trigger] eqm(x[j], y[j], p) by {
        lemma_at_start(x, om, n, j); lemma_at_start(y, om, n, j);
        assert(eqm(n * at(x, om, n, j, n), n * at(y, om, n, j, n), p));
        let f = op.size_inv as int;
        eqm_mulc(n * x[j], n * y[j], f, p);
        eqm_mulc(n * f, 1, x[j], p); eqm_mulc(n * f, 1, y[j], p);
        assert((n * x[j]) * f == x[j] * (n * f) && (n * y[j]) * f == y[j] * (n * f)) by (nonlinear_arith);
        assert(f * (n * x[j]) == (n * x[j]) * f && f * (n * y[j]) == (n * y[j]) * f && x[j] * (n * f) == (n * f) * x[j] && y[j] * (n * f) == (n * f) * y[j]) by (nonlinear_arith);
        eqm_sym(x[j] * (n * f), x[j] * 1, p);
        eqm_trans(x[j], x[j] * (n * f), y[j] * (n * f), p);
        eqm_trans(x[j], y[j] * (n * f), y[j], p);
    }
}
proof fn lemma_inj_up(op: &NttOperator, b: Seq<u64>, x: Seq<int>, y: Seq<int>, e: nat)
    requires op.wfx(), op.is_fwd(b, x), op.is_fwd(b, y), e <= lgc(op.size as int),
    ensures eqlvl(x, y, op.omegas@, op.size as int, pow2(e) as int, op.p.p as int),
    decreases e,
{
    let (p, n, om, z, lg) = (op.p.p as int, op.size as int, op.omegas@, op.zetas_inv@, lgc(op.size as int));
    if e == 0 {
        lemma_lv(lg, lg); lemma_lv(lg, 0);
        assert forall|i: int| 0 <= i < n implies eqm(1 * #[trigger] at(x, om, n, i, 1), 1 * at(y, om, n, i, 1), p) by {
            lemma_at_end(x, om, n, i); lemma_at_end(y, om, n, i);
            assert(eqm(b[i] as int, eval(x, op.point(i)), p)); assert(eqm(b[i] as int, eval(y, op.point(i)), p));
            eqm_sym(b[i] as int, eval(x, op.point(i)), p);
            eqm_trans(eval(x, op.point(i)), b[i] as int, eval(y, op.point(i)), p);
        }
    } else {
        let d = (e - 1) as nat;
        lemma_inj_up(op, b, x, y, d);
        let f = (lg - e) as nat;
        lemma_lv(lg, f);
        assert(lg - f == e && lg - f - 1 == d);
        let (m, l) = (pow2(f) as int, pow2(d) as int);
        assert(zlvl(z, om, n, f, p));
        lemma_eqlvl(x, y, om, z, n, n - 2 * m, m, l, p);
    }
}
/// the integers a polynomial stands for are determined modulo q
pub proof fn lemma_isx_inj(a: &Poly<Ntt>, x: Seq<int>, y: Seq<int>) -> (k: Seq<int>)
    requires a.wf(), a.isx(x), a.isx(y),
    ensures x.len() == y.len() == k.len() == a.d(), forall|j: int| 0 <= j < x.len() ==> #[trigger] y[j] == x[j] + k[j] * a.ctx.rns.q(),
{
    let q = a.ctx.rns.q();
    lemma_q_pos(&*a.ctx);
    assert(a.ctx.wf_i(0)); assert(a.ctx.ops@[0].is_fwd(a.rows()[0]@, x)); assert(a.ctx.ops@[0].is_fwd(a.rows()[0]@, y));
    let k = Seq::new(x.len(), |j: int| (y[j] - x[j]) / q);
    assert forall|j: int| 0 <= j < x.len() implies #[trigger] y[j] == x[j] + k[j] * q by {
        let (u, v) = (x[j] % q, y[j] % q);
        lemma_mod_bound(x[j], q); lemma_mod_bound(y[j], q);
        let c = &a.ctx.rns;
        assert forall|i: int| 0 <= i < c.n() implies u % #[trigger] c.m(i) == v % c.m(i) by {
            assert(a.ctx.wf_i(i));
            let p = a.p(i);
            assert(c.m(i) == p && c.moduli_u64@[i] == p);
            assert(a.ctx.ops@[i].is_fwd(a.rows()[i]@, x)); assert(a.ctx.ops@[i].is_fwd(a.rows()[i]@, y));
            lemma_fwd_inj(&a.ctx.ops@[i], a.rows()[i]@, x, y);
            assert(eqm(x[j], y[j], p)); reveal(eqm);
            lemma_div_prodm(c.moduli_u64@, i);
            lemma_mod_of_mod(x[j], q, p); lemma_mod_of_mod(y[j], q, p);
        }
        lemma_crt_unique(c, u, v);
        lemma_fundamental_div_mod(x[j], q); lemma_fundamental_div_mod(y[j], q);
        let (s, t) = (x[j] / q, y[j] / q);
        assert(y[j] - x[j] == q * (t - s)) by (nonlinear_arith) requires x[j] == q * s + u, y[j] == q * t + v, u == v;
        assert(q * (t - s) == (t - s) * q) by (nonlinear_arith);
        lemma_div_multiples_vanish(t - s, q);
    }
    k
}
// ---- products of integer polynomials
pub proof fn lemma_psum_rlin(a: Seq<int>, f: int, b: Seq<int>, g: int, c: Seq<int>, k: nat)
    requires a.len() == b.len() == c.len(), k <= a.len(),
    ensures psum(a, comb(f, b, g, c), k) =~= comb(f, psum(a, b, k), g, psum(a, c, k)),
    decreases k,
{
    if k == 0 { assert(f * 0 + g * 0 == 0) by (nonlinear_arith); }
    else {
        let d = (k - 1) as nat;
        lemma_psum_rlin(a, f, b, g, c, d);
        assert forall|j: int| 0 <= j < a.len() implies psum(a, comb(f, b, g, c), k)[j] == comb(f, psum(a, b, k), g, psum(a, c, k))[j] by {
            let (x, u, v, s, t) = (mono(a, d as int)[j], psum(a, b, d)[j], psum(a, c, d)[j], b[d as int], c[d as int]);
            assert((f * u + g * v) + (f * s + g * t) * x == f * (u + s * x) + g * (v + t * x)) by (nonlinear_arith);
        }
    }
}
/// x c = f (a c) + g (b c) when x = f a + g b
pub proof fn lemma_lin(x: Seq<int>, f: int, a: Seq<int>, g: int, b: Seq<int>, c: Seq<int>)
    requires x =~= comb(f, a, g, b), a.len() == b.len() == c.len(),
    ensures negamul(x, c) =~= comb(f, negamul(a, c), g, negamul(b, c)), negamul(a, c).len() == a.len(), negamul(b, c).len() == a.len(),
{ lemma_psum_lin(f, a, g, b, c, a.len()); lemma_negamul_len(a, c); lemma_negamul_len(b, c); }
pub proof fn lemma_rlin(c: Seq<int>, x: Seq<int>, f: int, a: Seq<int>, g: int, b: Seq<int>)
    requires x =~= comb(f, a, g, b), a.len() == b.len() == c.len(),
    ensures negamul(c, x) =~= comb(f, negamul(c, a), g, negamul(c, b)), negamul(c, a).len() == a.len(), negamul(c, b).len() == a.len(),
{ lemma_psum_rlin(c, f, a, g, b, c.len()); lemma_negamul_len(c, a); lemma_negamul_len(c, b); }
pub open spec fn bnd(a: Seq<int>, b: int) -> bool { forall|j: int| 0 <= j < a.len() ==> -b <= #[trigger] a[j] <= b }
/// x0 + x1 s
pub open spec fn lin2(x0: Seq<int>, x1: Seq<int>, s: Seq<int>) -> Seq<int> { xadd(x0, negamul(x1, s)) }
/// d0 + d1 s + d2 s^2
pub open spec fn lin3(d0: Seq<int>, d1: Seq<int>, d2: Seq<int>, s: Seq<int>) -> Seq<int> { xadd(xadd(d0, negamul(d1, s)), negamul(d2, negamul(s, s))) }
pub proof fn lemma_bnd3(d0: Seq<int>, d1: Seq<int>, d2: Seq<int>, s: Seq<int>, x: int, y: int, z: int, bs: int)
    requires d0.len() == d1.len() == d2.len() == s.len(), bnd(d0, x), bnd(d1, y), bnd(d2, z), bnd(s, bs), 0 <= x, 0 <= y, 0 <= z, 0 <= bs,
    ensures bnd(lin3(d0, d1, d2, s), x + s.len() * (y * bs) + s.len() * (z * (s.len() * (bs * bs)))), lin3(d0, d1, d2, s).len() == s.len(),
{
    let n = s.len();
    lemma_negamul_bound(s, s, bs, bs); let ss = negamul(s, s);
    assert(n * (bs * bs) >= 0) by (nonlinear_arith) requires n >= 0, bs >= 0;
    lemma_negamul_bound(d1, s, y, bs); lemma_negamul_bound(d2, ss, z, n * (bs * bs));
    let r = lin3(d0, d1, d2, s);
    assert forall|j: int| 0 <= j < r.len() implies -(x + n * (y * bs) + n * (z * (n * (bs * bs)))) <= #[trigger] r[j] <= x + n * (y * bs) + n * (z * (n * (bs * bs))) by {
        let (a, b, c) = (d0[j], negamul(d1, s)[j], negamul(d2, ss)[j]);
        assert(r[j] == 1 * (1 * a + 1 * b) + 1 * c);
    }
}
// ---- scaling
/// b is a, scaled by num / den to another context
pub open spec fn scaled(a: &Poly<Ntt>, b: &Poly<Ntt>, num: int, den: int) -> bool {
    &&& a.wf() && b.wf() && a.d() == b.d() && exists|x: Seq<int>| #[trigger] a.isx(x)
    &&& forall|x: Seq<int>| #[trigger] a.isx(x) ==> exists|y: Seq<int>| #[trigger] b.isx(y) && resc(x, a.ctx.rns.q(), num, den, y)
}
/// extension: a centered representative, the same in both contexts
pub proof fn lemma_ext(a: &Poly<Ntt>, b: &Poly<Ntt>) -> (y: Seq<int>)
    requires scaled(a, b, 1, 1),
    ensures a.isx(y), b.isx(y), bnd(y, a.ctx.rns.q()), y.len() == a.d(),
{
    let q = a.ctx.rns.q();
    lemma_q_pos(&*a.ctx);
    let x = choose|x: Seq<int>| #[trigger] a.isx(x);
    let y = choose|y: Seq<int>| #[trigger] b.isx(y) && resc(x, q, 1, 1, y);
    assert forall|j: int| 0 <= j < y.len() implies -q <= #[trigger] y[j] <= q && exists|k: int| y[j] == x[j] + #[trigger] (k * q) by {
        assert(rounds(x[j], q, 1, 1, y[j]));
        let k = choose|k: int| cent(#[trigger] (x[j] + k * q), q) && near(1 * (x[j] + k * q), 1, y[j]);
        assert(y[j] == x[j] + k * q);
    }
    assert forall|i: int, j: int| 0 <= i < a.n() && 0 <= j < x.len() implies #[trigger] eqm(x[j], y[j], a.p(i)) by {
        let _ = y[j];
        let k = choose|k: int| y[j] == x[j] + #[trigger] (k * q);
        assert(a.ctx.wf_i(i)); let p = a.p(i);
        assert(a.ctx.rns.moduli_u64@[i] == p);
        lemma_div_prodm(a.ctx.rns.moduli_u64@, i);
        lemma_mul_mod_noop_right(k, q, p); assert(k * 0 == 0); lemma_small_mod(0, p as nat);
        assert((k * q) % p == 0);
        lemma_add_mod_noop(x[j], k * q, p); lemma_mod_twice(x[j], p);
        assert((x[j] % p + 0) % p == x[j] % p);
        reveal(eqm);
    }
    lemma_isx_cong(a, x, y);
    y
}
/// scaling down a value whose centered representative is known
pub proof fn lemma_down(a: &Poly<Ntt>, b: &Poly<Ntt>, d: Seq<int>, t: int, q: int) -> (r: Seq<int>)
    requires scaled(a, b, t, q), a.isx(d), q > 0, forall|j: int| 0 <= j < d.len() ==> -(a.ctx.rns.q()) <= 4 * (#[trigger] d[j]) <= a.ctx.rns.q(),
    ensures b.isx(r), r.len() == d.len(), bnd(comb(q, r, -t, d), q),
{
    let m = a.ctx.rns.q();
    lemma_q_pos(&*a.ctx);
    let r = choose|r: Seq<int>| #[trigger] b.isx(r) && resc(d, m, t, q, r);
    let e = comb(q, r, -t, d);
    assert forall|j: int| 0 <= j < e.len() implies -q <= #[trigger] e[j] <= q by {
        assert(rounds(d[j], m, t, q, r[j]));
        let k = choose|k: int| cent(#[trigger] (d[j] + k * m), m) && near(t * (d[j] + k * m), q, r[j]);
        let c = d[j];
        assert(-m <= 4 * c <= m);
        assert(k == 0) by (nonlinear_arith) requires -m <= 4 * c <= m, m > 0, -(m * 0x1000000000002) <= (c + k * m) * 0x2000000000000 <= m * 0x1000000000002;
        assert(0 * m == 0);
        assert((-t) * c == -(t * c)) by (nonlinear_arith);
    }
    r
}
/// the tensor product has, as a polynomial in s, the product of the two values
pub proof fn lemma_tensor(e0: &Poly<Ntt>, e1: &Poly<Ntt>, f0: &Poly<Ntt>, f1: &Poly<Ntt>, x0: Seq<int>, x1: Seq<int>, y0: Seq<int>, y1: Seq<int>, s: Seq<int>, q: int, bs: int)
    requires e0.like(e1), e0.like(f0), e0.like(f1), e0.isx(x0), e1.isx(x1), f0.isx(y0), f1.isx(y1), s.len() == e0.d(), bnd(x0, q), bnd(x1, q), bnd(y0, q), bnd(y1, q), bnd(s, bs), 0 <= q, 0 <= bs,
        8 * (s.len() * ((q * (1 + s.len() * bs)) * (q * (1 + s.len() * bs)))) <= e0.ctx.rns.q(),
    ensures negamul(lin2(x0, x1, s), lin2(y0, y1, s)) =~= lin3(negamul(x0, y0), xadd(negamul(x0, y1), negamul(x1, y0)), negamul(x1, y1), s),
        bnd(negamul(x0, y0), s.len() * (q * q)), bnd(xadd(negamul(x0, y1), negamul(x1, y0)), 2 * (s.len() * (q * q))), bnd(negamul(x1, y1), s.len() * (q * q)),
        negamul(x0, y0).len() == s.len(), xadd(negamul(x0, y1), negamul(x1, y0)).len() == s.len(), negamul(x1, y1).len() == s.len(),
        bnd(lin2(x0, x1, s), q * (1 + s.len() * bs)), bnd(lin2(y0, y1, s), q * (1 + s.len() * bs)), lin2(x0, x1, s).len() == s.len(), lin2(y0, y1, s).len() == s.len(),
{
    let n = s.len(); let M = e0.ctx.rns.q();
    lemma_like(e0, e1); lemma_like(e0, f0); lemma_like(e0, f1);
    let (za, zb) = (lin2(x0, x1, s), lin2(y0, y1, s));
    let (d0, d1, d2) = (negamul(x0, y0), xadd(negamul(x0, y1), negamul(x1, y0)), negamul(x1, y1));
    // bounds
    lemma_negamul_bound(x0, y0, q, q); lemma_negamul_bound(x0, y1, q, q); lemma_negamul_bound(x1, y0, q, q); lemma_negamul_bound(x1, y1, q, q); lemma_negamul_bound(x1, s, q, bs); lemma_negamul_bound(y1, s, q, bs);
    let w = n * (q * q);
    assert(w >= 0) by (nonlinear_arith) requires n >= 0, q >= 0, w == n * (q * q);
    assert forall|j: int| 0 <= j < d1.len() implies -(2 * w) <= #[trigger] d1[j] <= 2 * w by { assert(d1[j] == 1 * negamul(x0, y1)[j] + 1 * negamul(x1, y0)[j]); }
    let A = q * (1 + n * bs);
    assert(A == q + n * (q * bs)) by (nonlinear_arith) requires A == q * (1 + n * bs);
    assert forall|j: int| 0 <= j < za.len() implies -A <= #[trigger] za[j] <= A by { assert(za[j] == 1 * x0[j] + 1 * negamul(x1, s)[j]); }
    assert forall|j: int| 0 <= j < zb.len() implies -A <= #[trigger] zb[j] <= A by { assert(zb[j] == 1 * y0[j] + 1 * negamul(y1, s)[j]); }
    assert(A >= 0) by (nonlinear_arith) requires A == q + n * (q * bs), q >= 0, n >= 0, bs >= 0;
    lemma_negamul_bound(za, zb, A, A);
    lemma_bnd3(d0, d1, d2, s, w, 2 * w, w, bs);
    let B = n * (A * A);
    let v = n * bs;
    assert(A * A == (q * q) * (1 + 2 * v + v * v)) by (nonlinear_arith) requires A == q * (1 + v);
    assert(B == w * (1 + 2 * v + v * v)) by (nonlinear_arith) requires B == n * (A * A), A * A == (q * q) * (1 + 2 * v + v * v), w == n * (q * q);
    assert(w + n * ((2 * w) * bs) + n * (w * (n * (bs * bs))) == B) by (nonlinear_arith) requires B == w * (1 + 2 * v + v * v), v == n * bs;
    // equal modulo M
    let S = ntt_form(e0.ctx, s); axiom_ntt_form(e0.ctx, s);
    assert(e0.like(&S) && e1.like(&S) && f1.like(&S) && S.like(&S) && e1.like(f0) && e1.like(f1));
    let (es, fs) = (pmul(*e1, S), pmul(*f1, S));
    assert(e0.like(&es) && f0.like(&fs));
    let (E, F) = (padd(*e0, es), padd(*f0, fs));
    assert(E.like(&F));
    let L = pmul(E, F);
    lemma_isx_mul(*e1, S, x1, s); lemma_isx_mul(*f1, S, y1, s); lemma_isx_add(*e0, es, x0, negamul(x1, s)); lemma_isx_add(*f0, fs, y0, negamul(y1, s)); lemma_isx_mul(E, F, za, zb);
    let (g00, g01, g10, g11, ss) = (pmul(*e0, *f0), pmul(*e0, *f1), pmul(*e1, *f0), pmul(*e1, *f1), pmul(S, S));
    assert(g01.like(&g10));
    let g1 = padd(g01, g10);
    assert(g1.like(&S) && g11.like(&ss));
    let (h1, h2) = (pmul(g1, S), pmul(g11, ss));
    assert(g00.like(&h1));
    let u = padd(g00, h1);
    assert(u.like(&h2));
    let R = padd(u, h2);
    lemma_isx_mul(*e0, *f0, x0, y0); lemma_isx_mul(*e0, *f1, x0, y1); lemma_isx_mul(*e1, *f0, x1, y0); lemma_isx_mul(*e1, *f1, x1, y1); lemma_isx_mul(S, S, s, s);
    lemma_isx_add(g01, g10, negamul(x0, y1), negamul(x1, y0)); lemma_isx_mul(g1, S, d1, s); lemma_isx_mul(g11, ss, d2, negamul(s, s)); lemma_isx_add(g00, h1, d0, negamul(d1, s)); lemma_isx_add(u, h2, xadd(d0, negamul(d1, s)), negamul(d2, negamul(s, s)));
    let r = lin3(d0, d1, d2, s);
    assert(R.isx(r));
    assert(L.like(&R));
    lemma_like(e0, &L); lemma_like(&L, &R);
    assert forall|i: int, j: int| 0 <= i < R.n() && 0 <= j < R.d() implies #[trigger] ent(&R, i, j) == ent(&L, i, j) by { lemma_tensor_at(e0, e1, f0, f1, &S, i, j); }
    lemma_veq_isx(&R, &L, r);
    let l = negamul(za, zb);
    let k = lemma_isx_inj(&L, l, r);
    lemma_same_q(&*L.ctx, &*e0.ctx);
    assert forall|j: int| 0 <= j < l.len() implies l[j] == r[j] by {
        assert(r[j] == l[j] + k[j] * M);
        assert(-B <= l[j] <= B && -B <= r[j] <= B);
        let (a, b, c) = (l[j], r[j], k[j]);
        assert(B >= 0);
        if M == 0 { assert(c * M == 0) by (nonlinear_arith) requires M == 0; } else {
            assert(c == 0) by (nonlinear_arith) requires b == a + c * M, -B <= a <= B, -B <= b <= B, 8 * B <= M, B >= 0, M > 0;
        }
    }
}
proof fn lemma_tensor_at(e0: &Poly<Ntt>, e1: &Poly<Ntt>, f0: &Poly<Ntt>, f1: &Poly<Ntt>, S: &Poly<Ntt>, i: int, j: int)
    requires e0.like(e1), e0.like(f0), e0.like(f1), e0.like(S), 0 <= i < e0.n(), 0 <= j < e0.d(),
    ensures ent(&padd(padd(pmul(*e0, *f0), pmul(padd(pmul(*e0, *f1), pmul(*e1, *f0)), *S)), pmul(pmul(*e1, *f1), pmul(*S, *S))), i, j) == ent(&pmul(padd(*e0, pmul(*e1, *S)), padd(*f0, pmul(*f1, *S))), i, j),
{
    lemma_like(e0, e1); lemma_like(e0, f0); lemma_like(e0, f1); lemma_like(e0, S);
    assert(e1.like(S) && f1.like(S) && S.like(S) && e1.like(f0) && e1.like(f1));
    at_self(e0, i, j); at_self(e1, i, j); at_self(f0, i, j); at_self(f1, i, j); at_self(S, i, j);
    let (a, b, c, d, s) = (ent(e0, i, j), ent(e1, i, j), ent(f0, i, j), ent(f1, i, j), ent(S, i, j));
    at_mul(e1, S, i, j, b, s); at_mul(f1, S, i, j, d, s);
    let (es, fs) = (pmul(*e1, *S), pmul(*f1, *S));
    at_add(e0, &es, i, j, a, b * s); at_add(f0, &fs, i, j, c, d * s);
    let (E, F) = (padd(*e0, es), padd(*f0, fs));
    at_mul(&E, &F, i, j, a + b * s, c + d * s);
    let L = pmul(E, F);
    at_mul(e0, f0, i, j, a, c); at_mul(e0, f1, i, j, a, d); at_mul(e1, f0, i, j, b, c); at_mul(e1, f1, i, j, b, d); at_mul(S, S, i, j, s, s);
    let (g00, g01, g10, g11, ss) = (pmul(*e0, *f0), pmul(*e0, *f1), pmul(*e1, *f0), pmul(*e1, *f1), pmul(*S, *S));
    at_add(&g01, &g10, i, j, a * d, b * c);
    let g1 = padd(g01, g10);
    at_mul(&g1, S, i, j, a * d + b * c, s); at_mul(&g11, &ss, i, j, b * d, s * s);
    let (h1, h2) = (pmul(g1, *S), pmul(g11, ss));
    at_add(&g00, &h1, i, j, a * c, (a * d + b * c) * s);
    let u = padd(g00, h1);
    at_add(&u, &h2, i, j, a * c + (a * d + b * c) * s, (b * d) * (s * s));
    let R = padd(u, h2);
    lemma_square(a, b, c, d, s);
    at_eq(&R, &L, i, j, (a + b * s) * (c + d * s));
}

proof fn lemma_square(a: int, b: int, c: int, d: int, s: int)
    ensures a * c + (a * d + b * c) * s + (b * d) * (s * s) == (a + b * s) * (c + d * s),
{
    let (u, v) = (b * s, d * s);
    assert((a + u) * (c + v) == a * c + a * v + u * c + u * v) by (nonlinear_arith);
    assert(a * (d * s) == (a * d) * s) by (nonlinear_arith);
    assert((b * s) * c == (b * c) * s) by (nonlinear_arith);
    assert((b * s) * (d * s) == (b * d) * (s * s)) by (nonlinear_arith);
    assert((a * d + b * c) * s == (a * d) * s + (b * c) * s) by (nonlinear_arith);
}
