//@ import mulm
// ---------------------------------------------------------------------------
// What the scaled-down tensor product of two ciphertexts encrypts, and its noise
// (no code; over the contracts of Poly::scale and the polynomial operators)
// ---------------------------------------------------------------------------
use vstd::arithmetic::div_mod::*;
use vstd::arithmetic::mul::*;
use vstd::arithmetic::power::*;
use vstd::arithmetic::power2::pow2;
use std::sync::Arc;
use crate::modk::*;
use crate::nttm::*;
use crate::nttm::at;
use crate::ntt::*;
use crate::ringmul::*;
use crate::rns::*;
broadcast use group_poly;
/// how large the (rational) message can be
pub open spec fn amp(v: int, t: int, q: int, b: int) -> int { t * v + b / q }
pub open spec fn num_noise(n: int, v: int, u: int, t: int, q: int, ba: int, bb: int) -> int { n * (amp(v, t, q, ba) * bb) + n * (ba * amp(v, t, q, bb)) + t * u + (n * (ba * bb)) / q }
/// the noise of a product of two ciphertexts (times t)
pub open spec fn mul_noise(n: int, bs: int, t: int, q: int, ba: int, bb: int) -> int { num_noise(n, 1 + n * bs, 1 + n * bs + n * (n * (bs * bs)), t, q, ba, bb) }
/// the multiplication basis M has room for the tensor product
pub open spec fn mul_room(n: int, bs: int, q: int, m: int) -> bool { 8 * (n * ((q * (1 + n * bs)) * (q * (1 + n * bs)))) <= m }
pub proof fn lemma_amp(z: Seq<int>, w: Seq<int>, t: int, q: int, v: int, b: int)
    requires z.len() == w.len(), bnd(comb(t, z, -q, w), b), bnd(z, q * v), 0 <= t, 1 <= q, 0 <= v, 0 <= b,
    ensures bnd(w, amp(v, t, q, b)), 0 <= amp(v, t, q, b),
{
    let e = comb(t, z, -q, w); let m = t * v;
    assert(b / q >= 0) by { lemma_div_pos_is_pos(b, q); }
    assert(m >= 0) by (nonlinear_arith) requires t >= 0, v >= 0, m == t * v;
    assert forall|j: int| 0 <= j < w.len() implies -amp(v, t, q, b) <= #[trigger] w[j] <= amp(v, t, q, b) by {
        let (x, y, c) = (w[j], z[j], e[j]);
        assert(-b <= e[j] <= b); assert(-(q * v) <= z[j] <= q * v);
        assert((-q) * x == -(q * x)) by (nonlinear_arith);
        assert(q * x == t * y - c);
        assert(-(q * m) <= t * y <= q * m) by (nonlinear_arith) requires -(q * v) <= y <= q * v, t >= 0, m == t * v;
        lemma_bound_div(q, x, m, b);
        assert(q * (-x) == -(q * x)) by (nonlinear_arith);
        lemma_bound_div(q, -x, m, b);
    }
}
pub proof fn lemma_mul_num(za: Seq<int>, zb: Seq<int>, wa: Seq<int>, wb: Seq<int>, zo: Seq<int>, t: int, q: int, v: int, u: int, ba: int, bb: int)
    requires za.len() == zb.len() == wa.len() == wb.len() == zo.len(), bnd(comb(t, za, -q, wa), ba), bnd(comb(t, zb, -q, wb), bb), bnd(comb(q, zo, -t, negamul(za, zb)), q * u), bnd(za, q * v), bnd(zb, q * v),
        0 <= t, 1 <= q, 0 <= v, 0 <= u, 0 <= ba, 0 <= bb,
    ensures bnd(comb(t, zo, -q, negamul(wa, wb)), num_noise(za.len() as int, v, u, t, q, ba, bb)),
{
    let n = za.len();
    let (ea, eb) = (comb(t, za, -q, wa), comb(t, zb, -q, wb));
    let (xa, xb) = (comb(t, za, 0, za), comb(t, zb, 0, zb));
    lemma_amp(za, wa, t, q, v, ba); lemma_amp(zb, wb, t, q, v, bb);
    let (A, B) = (amp(v, t, q, ba), amp(v, t, q, bb));
    assert forall|j: int| 0 <= j < n implies #[trigger] xa[j] == comb(q, wa, 1, ea)[j] by { let x = wa[j]; let z = za[j]; assert((-q) * x == -(q * x)) by (nonlinear_arith); assert(0 * z == 0); }
    assert forall|j: int| 0 <= j < n implies #[trigger] xb[j] == comb(q, wb, 1, eb)[j] by { let x = wb[j]; let z = zb[j]; assert((-q) * x == -(q * x)) by (nonlinear_arith); assert(0 * z == 0); }
    assert(xa =~= comb(q, wa, 1, ea) && xb =~= comb(q, wb, 1, eb));
    lemma_lin(xa, t, za, 0, za, xb); lemma_rlin(za, xb, t, zb, 0, zb);
    lemma_lin(xa, q, wa, 1, ea, xb); lemma_rlin(wa, xb, q, wb, 1, eb); lemma_rlin(ea, xb, q, wb, 1, eb);
    let (Z, WW, We, eW, ee) = (negamul(za, zb), negamul(wa, wb), negamul(wa, eb), negamul(ea, wb), negamul(ea, eb));
    lemma_negamul_bound(wa, eb, A, bb); lemma_negamul_bound(ea, wb, ba, B); lemma_negamul_bound(ea, eb, ba, bb);
    let eps = comb(q, zo, -t, Z); let r = comb(t, zo, -q, WW);
    let m = n * (A * bb) + n * (ba * B) + t * u; let w = n * (ba * bb);
    assert(w >= 0) by (nonlinear_arith) requires w == n * (ba * bb), n >= 0, ba >= 0, bb >= 0;
    let N = num_noise(n as int, v, u, t, q, ba, bb);
    assert forall|j: int| 0 <= j < r.len() implies -N <= #[trigger] r[j] <= N by {
        let (z, ww, x, y, d, o, e) = (Z[j], WW[j], We[j], eW[j], ee[j], zo[j], eps[j]);
        let P = negamul(xa, xb)[j];
        let (zx, wx, ex) = (negamul(za, xb)[j], negamul(wa, xb)[j], negamul(ea, xb)[j]);
        assert(zx == t * z) by { assert(zx == t * z + 0 * z); assert(0 * z == 0); }
        assert(P == t * zx) by { assert(P == t * zx + 0 * zx); assert(0 * zx == 0); }
        assert(wx == q * ww + x); assert(ex == q * y + d);
        assert(P == q * wx + ex);
        assert((-t) * z == -(t * z) && (-q) * ww == -(q * ww)) by (nonlinear_arith);
        assert(e == q * o - t * z);
        let rj = t * o - q * ww;
        assert(r[j] == rj);
        assert(-(q * u) <= eps[j] <= q * u);
        assert(-(n * (A * bb)) <= We[j] <= n * (A * bb)); assert(-(n * (ba * B)) <= eW[j] <= n * (ba * B)); assert(-w <= ee[j] <= w);
        lemma_mul_at(z, ww, x, y, d, o, e, t, q);
        let te = t * e; let tu = t * u;
        assert(-(q * tu) <= te <= q * tu) by (nonlinear_arith) requires -(q * u) <= e <= q * u, te == t * e, tu == t * u, t >= 0;
        let (a, b) = (n * (A * bb), n * (ba * B));
        let xy = x + y;
        assert(-(q * (a + b)) <= q * xy <= q * (a + b)) by (nonlinear_arith) requires -(a + b) <= xy <= a + b, q >= 1;
        assert(q * m == q * (a + b) + q * tu) by (nonlinear_arith) requires m == a + b + tu;
        assert(q * xy == q * x + q * y) by (nonlinear_arith) requires xy == x + y;
        lemma_bound_div(q, rj, m, w);
        assert(q * (-rj) == -(q * rj)) by (nonlinear_arith);
        lemma_bound_div(q, -rj, m, w);
    }
}
proof fn lemma_mul_at(z: int, ww: int, x: int, y: int, d: int, o: int, e: int, t: int, q: int)
    requires t * (t * z) == q * (q * ww + x) + (q * y + d), e == q * o - t * z,
    ensures q * (t * o - q * ww) == q * x + q * y + d + t * e,
{
    assert(q * (t * o - q * ww) == q * (t * o) - q * (q * ww)) by (nonlinear_arith);
    assert(q * (q * ww + x) == q * (q * ww) + q * x) by (nonlinear_arith);
    assert(t * e == t * (q * o) - t * (t * z)) by (nonlinear_arith) requires e == q * o - t * z;
    assert(q * (t * o) == t * (q * o)) by (nonlinear_arith);
}
/// adding a multiple of t to the message changes nothing
pub proof fn noisy_shift(p: &Poly<Ntt>, t: int, w: Seq<int>, b: int, k: Seq<int>, v: Seq<int>)
    requires p.wf(), noisy(p, t, v, b), k.len() == w.len(), v =~= comb(1, w, t, k),
    ensures noisy(p, t, w, b),
{
    let z = noisy_get(p, t, v, b); let q = p.ctx.rns.q();
    let y = comb(1, z, -q, k);
    assert forall|i: int, j: int| 0 <= i < p.n() && 0 <= j < z.len() implies #[trigger] eqm(z[j], y[j], p.p(i)) by {
        assert(p.ctx.wf_i(i)); let m = p.p(i); let c = -k[j]; let kj = k[j];
        assert((-q) * kj == c * q) by (nonlinear_arith) requires c == -kj;
        assert(p.ctx.rns.moduli_u64@[i] == m);
        lemma_div_prodm(p.ctx.rns.moduli_u64@, i);
        lemma_mul_mod_noop_right(c, q, m); assert(c * 0 == 0); lemma_small_mod(0, m as nat);
        assert((c * q) % m == 0);
        lemma_add_mod_noop(z[j], c * q, m); lemma_mod_twice(z[j], m);
        assert((z[j] % m + 0) % m == z[j] % m);
        reveal(eqm);
    }
    lemma_isx_cong(p, z, y);
    assert forall|j: int| 0 <= j < y.len() implies -b <= #[trigger] (t * y[j]) - q * w[j] <= b by {
        assert(-b <= t * z[j] - q * v[j] <= b);
        let (a, c, d) = (z[j], k[j], w[j]);
        assert((-q) * c == -(q * c)) by (nonlinear_arith);
        assert(t * (a - q * c) == t * a - t * (q * c)) by (nonlinear_arith);
        assert(q * (d + t * c) == q * d + q * (t * c)) by (nonlinear_arith);
        assert(t * (q * c) == q * (t * c)) by (nonlinear_arith);
    }
    noisy_of(p, t, w, b, y);
}
/// the phase of a three-part ciphertext
pub proof fn lemma_phase3(c: Seq<Poly<Ntt>>, s: &Poly<Ntt>)
    requires c.len() == 3, c[0].like(&c[1]), c[1].like(&c[2]), c[2].like(s),
    ensures is_phase(&padd(padd(c[0], pmul(c[1], *s)), pmul(c[2], pmul(*s, *s))), c, s), c[0].like(s), c[1].like(s), s.like(s), pmul(*s, *s).like(s), c[2].like(&pmul(*s, *s)), pmul(c[1], *s).like(s), c[0].like(&pmul(c[1], *s)), padd(c[0], pmul(c[1], *s)).like(&pmul(c[2], pmul(*s, *s))),
{
    let (c0, c1, c2) = (c[0], c[1], c[2]);
    assert(c0.like(s) && c1.like(s) && c2.like(s) && s.like(s));
    let m1 = pmul(c1, *s); let s2 = pmul(*s, *s); let m2 = pmul(c2, s2);
    lemma_like(&c0, s); lemma_like(&c1, s); lemma_like(&c2, s);
    assert(c2.like(&s2)); assert(c0.like(&m1));
    let p12 = padd(c0, m1); assert(p12.like(&m2)); let q = padd(p12, m2);
    assert(q.like(s)); lemma_like(&q, s);
    assert forall|i: int, j: int| 0 <= i < q.n() && 0 <= j < q.d() implies eqm(#[trigger] ent(&q, i, j), hsum(c, ent(s, i, j), i, j, 3), q.p(i)) by {
        let t = ent(s, i, j);
        lemma_h3(c, t, i, j);
        at_self(&c0, i, j); at_self(&c1, i, j); at_self(&c2, i, j); at_self(s, i, j);
        let (x0, x1, x2) = (ent(&c0, i, j), ent(&c1, i, j), ent(&c2, i, j));
        at_mul(&c1, s, i, j, x1, t); at_mul(s, s, i, j, t, t); at_mul(&c2, &s2, i, j, x2, t * t);
        at_add(&c0, &m1, i, j, x0, x1 * t); at_add(&p12, &m2, i, j, x0 + x1 * t, x2 * (t * t));
    }
    assert forall|l: int| 0 <= l < c.len() implies (#[trigger] c[l]).like(&q) by { if l != 0 && l != 1 { assert(l == 2); } }
    reveal(is_phase);
}
/// the phase of a two-part ciphertext in terms of its parts
pub proof fn lemma_lift2(ct: &Ciphertext, s: Seq<int>, w: Seq<int>, b: int, x0: Seq<int>, x1: Seq<int>) -> (k: Seq<int>)
    requires ct.c@.len() == 2, ct.c@[0].like(&ct.c@[1]), ct.enc(s, w, b), ct.c@[0].isx(x0), ct.c@[1].isx(x1), s.len() == ct.c@[0].d(),
    ensures k.len() == w.len() == s.len(), bnd(comb(ct.par.t(), lin2(x0, x1, s), -ct.c@[0].ctx.rns.q(), comb(1, w, ct.par.t(), k)), b),
{
    let c = ct.c@; let t = ct.par.t();
    let p = choose|p: Poly<Ntt>| #[trigger] ct.hides(s, p) && noisy(&p, t, w, b);
    let kp = choose|kp: Poly<Ntt>| #[trigger] kp.isx(s) && is_phase(&p, c, &kp);
    let z = noisy_get(&p, t, w, b);
    assert(c[0].like(&p) && c[1].like(&p) && p.like(&kp)) by { reveal(is_phase); let _ = c[0]; let _ = c[1]; }
    assert(c[1].like(&kp));
    lemma_phase2(c, &kp);
    let m = pmul(c[1], kp);
    assert(c[0].like(&m));
    let r = padd(c[0], m);
    lemma_one_phase(&r, &p, c, &kp, &kp, s);
    lemma_isx_mul(c[1], kp, x1, s); lemma_isx_add(c[0], m, x0, negamul(x1, s));
    let l = lin2(x0, x1, s);
    lemma_veq_isx(&r, &p, l);
    let k = lemma_isx_inj(&p, z, l);
    lemma_same_q(&*p.ctx, &*c[0].ctx); lemma_like(&c[0], &p);
    let q = p.ctx.rns.q();
    let v = comb(1, w, t, k); let e = comb(t, l, -q, v);
    assert forall|j: int| 0 <= j < e.len() implies -b <= #[trigger] e[j] <= b by {
        assert(-b <= t * z[j] - q * w[j] <= b);
        let (a, c, d) = (z[j], k[j], w[j]);
        assert(l[j] == a + c * q);
        assert(t * (a + c * q) == t * a + t * (c * q)) by (nonlinear_arith);
        assert((-q) * (1 * d + t * c) == -(q * d) - q * (t * c)) by (nonlinear_arith);
        assert(t * (c * q) == q * (t * c)) by (nonlinear_arith);
    }
    k
}
/// r is d scaled by t / q, where d is known in the multiplication basis
pub proof fn lemma_scaled_as(g: &Poly<Ntt>, d: &Poly<Ntt>, r: &Poly<Ntt>, x: Seq<int>, t: int, q: int) -> (y: Seq<int>)
    requires d.like(g), veq(d, g), g.isx(x), scaled(d, r, t, q), q > 0, bnd(x, d.ctx.rns.q() / 4), x.len() == d.d(),
    ensures r.isx(y), y.len() == x.len(), bnd(comb(q, y, -t, x), q),
{
    lemma_like(d, g);
    assert(veq(g, d));
    lemma_veq_isx(g, d, x);
    let m = d.ctx.rns.q(); lemma_q_pos(&*d.ctx);
    lemma_fundamental_div_mod(m, 4); lemma_mod_bound(m, 4);
    assert forall|j: int| 0 <= j < x.len() implies -(d.ctx.rns.q()) <= 4 * (#[trigger] x[j]) <= d.ctx.rns.q() by { assert(-(m / 4) <= x[j] <= m / 4); }
    lemma_down(d, r, x, t, q)
}
/// q (r0 + r1 s + r2 s^2) against t (d0 + d1 s + d2 s^2)
pub proof fn lemma_lin3_comb(r0: Seq<int>, r1: Seq<int>, r2: Seq<int>, d0: Seq<int>, d1: Seq<int>, d2: Seq<int>, s: Seq<int>, t: int, q: int, bs: int)
    requires r0.len() == r1.len() == r2.len() == d0.len() == d1.len() == d2.len() == s.len(), bnd(comb(q, r0, -t, d0), q), bnd(comb(q, r1, -t, d1), q), bnd(comb(q, r2, -t, d2), q), bnd(s, bs), 0 <= q, 0 <= bs,
    ensures bnd(comb(q, lin3(r0, r1, r2, s), -t, lin3(d0, d1, d2, s)), q * (1 + s.len() * bs + s.len() * (s.len() * (bs * bs)))), lin3(r0, r1, r2, s).len() == s.len(), lin3(d0, d1, d2, s).len() == s.len(),
{
    let n = s.len(); let ss = negamul(s, s); lemma_negamul_len(s, s);
    let (e0, e1, e2) = (comb(q, r0, -t, d0), comb(q, r1, -t, d1), comb(q, r2, -t, d2));
    lemma_bnd3(e0, e1, e2, s, q, q, q, bs);
    lemma_lin(e1, q, r1, -t, d1, s); lemma_lin(e2, q, r2, -t, d2, ss);
    let (R, D, E) = (lin3(r0, r1, r2, s), lin3(d0, d1, d2, s), lin3(e0, e1, e2, s));
    let c = comb(q, R, -t, D);
    let u = 1 + n * bs + n * (n * (bs * bs));
    assert(q + n * (q * bs) + n * (q * (n * (bs * bs))) == q * u) by {
        assert(n * (q * bs) == q * (n * bs)) by (nonlinear_arith);
        let x = n * (bs * bs);
        assert(n * (q * x) == q * (n * x)) by (nonlinear_arith);
        let (a, b) = (n * bs, n * x);
        assert(q * (1 + a + b) == q + q * a + q * b) by (nonlinear_arith);
    }
    assert forall|j: int| 0 <= j < c.len() implies -(q * u) <= #[trigger] c[j] <= q * u by {
        assert(-(q * u) <= E[j] <= q * u);
        let (x0, x1, x2) = (r0[j], negamul(r1, s)[j], negamul(r2, ss)[j]);
        let (y0, y1, y2) = (d0[j], negamul(d1, s)[j], negamul(d2, ss)[j]);
        assert(negamul(e1, s)[j] == q * x1 + (-t) * y1);
        assert(negamul(e2, ss)[j] == q * x2 + (-t) * y2);
        assert(R[j] == x0 + x1 + x2 && D[j] == y0 + y1 + y2);
        assert(E[j] == (q * x0 + (-t) * y0) + (q * x1 + (-t) * y1) + (q * x2 + (-t) * y2));
        assert(q * (x0 + x1 + x2) == q * x0 + q * x1 + q * x2) by (nonlinear_arith);
        assert((-t) * (y0 + y1 + y2) == (-t) * y0 + (-t) * y1 + (-t) * y2) by (nonlinear_arith);
        assert(c[j] == E[j]);
    }
}
/// messages that differ by multiples of t multiply to messages that do
pub proof fn lemma_shift_mul(wa: Seq<int>, wb: Seq<int>, ka: Seq<int>, kb: Seq<int>, t: int) -> (k: Seq<int>)
    requires wa.len() == wb.len() == ka.len() == kb.len(),
    ensures k.len() == wa.len(), negamul(comb(1, wa, t, ka), comb(1, wb, t, kb)) =~= comb(1, negamul(wa, wb), t, k), negamul(wa, wb).len() == wa.len(),
{
    let (a, b) = (comb(1, wa, t, ka), comb(1, wb, t, kb));
    lemma_lin(a, 1, wa, t, ka, b); lemma_rlin(wa, b, 1, wb, t, kb);
    let (x, y) = (negamul(wa, kb), negamul(ka, b));
    lemma_negamul_len(wa, wb);
    let k = xadd(x, y);
    assert forall|j: int| 0 <= j < wa.len() implies #[trigger] negamul(a, b)[j] == comb(1, negamul(wa, wb), t, k)[j] by {
        let (u, v, z) = (negamul(wa, wb)[j], x[j], y[j]);
        assert(negamul(wa, b)[j] == 1 * u + t * v);
        assert(negamul(a, b)[j] == 1 * negamul(wa, b)[j] + t * z);
        assert(t * (1 * v + 1 * z) == t * v + t * z) by (nonlinear_arith);
    }
    k
}
/// the extended and multiplied parts
pub open spec fn tensored(e0: &Poly<Ntt>, e1: &Poly<Ntt>, f0: &Poly<Ntt>, f1: &Poly<Ntt>, d0: &Poly<Ntt>, d1: &Poly<Ntt>, d2: &Poly<Ntt>) -> bool {
    &&& e0.like(e1) && e0.like(f0) && e0.like(f1) && d0.like(e0) && d1.like(e0) && d2.like(e0)
    &&& veq(d0, &pmul(*e0, *f0)) && veq(d1, &padd(pmul(*e0, *f1), pmul(*e1, *f0))) && veq(d2, &pmul(*e1, *f1))
}
pub proof fn lemma_mul_enc(a: &Ciphertext, b: &Ciphertext, out: &Ciphertext, e0: &Poly<Ntt>, e1: &Poly<Ntt>, f0: &Poly<Ntt>, f1: &Poly<Ntt>, d0: &Poly<Ntt>, d1: &Poly<Ntt>, d2: &Poly<Ntt>, s: Seq<int>, bs: int, wa: Seq<int>, wb: Seq<int>, ba: int, bb: int)
    requires a.wf(), b.wf(), out.wf(), a.par == b.par, out.par == a.par, a.level == b.level, out.level == a.level, a.c@.len() == 2, b.c@.len() == 2, out.c@.len() == 3,
        scaled(&a.c@[0], e0, 1, 1), scaled(&a.c@[1], e1, 1, 1), scaled(&b.c@[0], f0, 1, 1), scaled(&b.c@[1], f1, 1, 1), tensored(e0, e1, f0, f1, d0, d1, d2),
        scaled(d0, &out.c@[0], a.par.t(), a.par.ctx(a.level as int).rns.q()), scaled(d1, &out.c@[1], a.par.t(), a.par.ctx(a.level as int).rns.q()), scaled(d2, &out.c@[2], a.par.t(), a.par.ctx(a.level as int).rns.q()),
        a.enc(s, wa, ba), b.enc(s, wb, bb), smallx(s, bs), s.len() == a.par.deg(), 0 <= bs, 0 <= ba, 0 <= bb,
        mul_room(s.len() as int, bs, a.par.ctx(a.level as int).rns.q(), e0.ctx.rns.q()),
    ensures out.enc(s, negamul(wa, wb), mul_noise(s.len() as int, bs, a.par.t(), a.par.ctx(a.level as int).rns.q(), ba, bb)),
{
    let n = s.len(); let t = a.par.t(); let l = a.level as int; let q = a.par.ctx(l).rns.q();
    assert(a.par.wf_l(l)); lemma_q_pos(&a.par.ctx(l));
    assert(t >= 0) by { reveal(BfvParameters::wf_pt); }
    assert(a.c@[0].wf() && a.c@[1].wf() && b.c@[0].wf() && b.c@[1].wf() && out.c@[0].wf() && out.c@[1].wf() && out.c@[2].wf());
    assert(a.c@[0].like(&a.c@[1]) && b.c@[0].like(&b.c@[1]) && a.c@[0].like(&b.c@[0]) && out.c@[0].like(&out.c@[1]) && out.c@[1].like(&out.c@[2]));
    lemma_same_q(&*a.c@[0].ctx, &a.par.ctx(l)); lemma_same_q(&*a.c@[1].ctx, &a.par.ctx(l)); lemma_same_q(&*b.c@[0].ctx, &a.par.ctx(l)); lemma_same_q(&*b.c@[1].ctx, &a.par.ctx(l)); lemma_same_q(&*out.c@[0].ctx, &a.par.ctx(l));
    let (x0, x1, y0, y1) = (lemma_ext(&a.c@[0], e0), lemma_ext(&a.c@[1], e1), lemma_ext(&b.c@[0], f0), lemma_ext(&b.c@[1], f1));
    let ka = lemma_lift2(a, s, wa, ba, x0, x1); let kb = lemma_lift2(b, s, wb, bb, y0, y1);
    let M = e0.ctx.rns.q(); let v = 1 + n * bs; let u = 1 + n * bs + n * (n * (bs * bs));
    assert(n * bs >= 0) by (nonlinear_arith) requires n >= 0, bs >= 0;
    assert(n * (n * (bs * bs)) >= 0) by (nonlinear_arith) requires n >= 0, bs >= 0;
    lemma_tensor(e0, e1, f0, f1, x0, x1, y0, y1, s, q, bs);
    let (za, zb) = (lin2(x0, x1, s), lin2(y0, y1, s));
    let (c0, c1, c2) = (negamul(x0, y0), xadd(negamul(x0, y1), negamul(x1, y0)), negamul(x1, y1));
    // the tensor product stays far from wrapping around M
    let w = n * (q * q); let A = q * v;
    assert(8 * w <= M) by {
        assert(A * A >= q * q) by (nonlinear_arith) requires A == q * v, v >= 1, q >= 1;
        let (aa, qq) = (A * A, q * q);
        assert(n * aa >= n * qq) by (nonlinear_arith) requires aa >= qq, n >= 0;
    }
    lemma_same_q(&*d0.ctx, &*e0.ctx); lemma_same_q(&*d1.ctx, &*e0.ctx); lemma_same_q(&*d2.ctx, &*e0.ctx);
    lemma_fundamental_div_mod(M, 4); lemma_mod_bound(M, 4);
    assert(w >= 0) by (nonlinear_arith) requires n >= 0, q >= 1, w == n * (q * q);
    assert(2 * w <= M / 4);
    assert forall|j: int| 0 <= j < c0.len() implies -(M / 4) <= #[trigger] c0[j] <= M / 4 by { assert(-w <= c0[j] <= w); }
    assert forall|j: int| 0 <= j < c1.len() implies -(M / 4) <= #[trigger] c1[j] <= M / 4 by { assert(-(2 * w) <= c1[j] <= 2 * w); }
    assert forall|j: int| 0 <= j < c2.len() implies -(M / 4) <= #[trigger] c2[j] <= M / 4 by { assert(-w <= c2[j] <= w); }
    assert(e1.like(f0) && e1.like(f1));
    let (g00, g01, g10, g11) = (pmul(*e0, *f0), pmul(*e0, *f1), pmul(*e1, *f0), pmul(*e1, *f1));
    assert(g01.like(&g10)); let g1 = padd(g01, g10);
    lemma_isx_mul(*e0, *f0, x0, y0); lemma_isx_mul(*e0, *f1, x0, y1); lemma_isx_mul(*e1, *f0, x1, y0); lemma_isx_mul(*e1, *f1, x1, y1);
    lemma_isx_add(g01, g10, negamul(x0, y1), negamul(x1, y0));
    assert(d0.like(&g00) && d1.like(&g1) && d2.like(&g11));
    lemma_like(d0, e0); lemma_like(d1, e0); lemma_like(d2, e0); 
    let (r0, r1, r2) = (lemma_scaled_as(&g00, d0, &out.c@[0], c0, t, q), lemma_scaled_as(&g1, d1, &out.c@[1], c1, t, q), lemma_scaled_as(&g11, d2, &out.c@[2], c2, t, q));
    lemma_lin3_comb(r0, r1, r2, c0, c1, c2, s, t, q, bs);
    let zo = lin3(r0, r1, r2, s);
    let (va, vb) = (comb(1, wa, t, ka), comb(1, wb, t, kb));
    lemma_mul_num(za, zb, va, vb, zo, t, q, v, u, ba, bb);
    let N = mul_noise(n as int, bs, t, q, ba, bb);
    let k = lemma_shift_mul(wa, wb, ka, kb, t);
    // the phase
    let kp = ntt_form(out.c@[0].ctx, s); axiom_ntt_form(out.c@[0].ctx, s);
    assert(out.c@[2].like(&kp));
    lemma_phase3(out.c@, &kp);
    let (o0, o1, o2) = (out.c@[0], out.c@[1], out.c@[2]);
    let (m1, s2) = (pmul(o1, kp), pmul(kp, kp)); let m2 = pmul(o2, s2); let p12 = padd(o0, m1); let ph = padd(p12, m2);
    lemma_isx_mul(o1, kp, r1, s); lemma_isx_mul(kp, kp, s, s); lemma_isx_mul(o2, s2, r2, negamul(s, s)); lemma_isx_add(o0, m1, r0, negamul(r1, s)); lemma_isx_add(p12, m2, xadd(r0, negamul(r1, s)), negamul(r2, negamul(s, s)));
    assert(ph.isx(zo));
    assert(out.hides(s, ph));
    assert(ph.ctx.rns.q() == q);
    let W = negamul(va, vb); let c = comb(t, zo, -q, W);
    lemma_negamul_len(va, vb);
    assert forall|j: int| 0 <= j < zo.len() implies -N <= #[trigger] (t * zo[j]) - q * W[j] <= N by { assert(-N <= c[j] <= N); let x = W[j]; assert((-q) * x == -(q * x)) by (nonlinear_arith); }
    noisy_of(&ph, t, W, N, zo);
    noisy_shift(&ph, t, negamul(wa, wb), N, k, W);
}
