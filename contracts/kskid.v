//@ import kskgen
// ---------------------------------------------------------------------------
// What key switching computes (no code; over the contracts of ksk.v and kskgen.v):
// a0 + a1 s == x f + a small error, when (a0, a1) are the products of the digits of x with a key for f
// ---------------------------------------------------------------------------
use vstd::arithmetic::div_mod::*;
use vstd::arithmetic::mul::*;
use vstd::arithmetic::power::*;
use vstd::arithmetic::power2::*;
use std::sync::Arc;
use crate::modk::*;
use crate::nttm::*;
use crate::ringmul::*;
use crate::rns::*;
broadcast use group_poly;
pub open spec fn zseq(n: nat) -> Seq<int> { Seq::new(n, |j: int| 0int) }
/// sum of g_l e_l (as polynomials)
pub open spec fn esum(g: Seq<Seq<int>>, e: Seq<Seq<int>>, n: nat, k: nat) -> Seq<int>
    decreases k,
{ if k == 0 { zseq(n) } else { comb(1, esum(g, e, n, (k - 1) as nat), 1, negamul(g[k - 1], e[k - 1])) } }
/// sum of w_l g_l (w_l: integers)
pub open spec fn gsum(w: Seq<int>, g: Seq<Seq<int>>, n: nat, k: nat) -> Seq<int>
    decreases k,
{ if k == 0 { zseq(n) } else { comb(1, gsum(w, g, n, (k - 1) as nat), w[k - 1], g[k - 1]) } }
pub proof fn lemma_esum_bound(g: Seq<Seq<int>>, e: Seq<Seq<int>>, n: nat, k: nat, x: int, y: int)
    requires k <= g.len(), k <= e.len(), 0 <= x, 0 <= y, forall|l: int| 0 <= l < k ==> (#[trigger] g[l]).len() == n && e[l].len() == n,
        forall|l: int, j: int| 0 <= l < k && 0 <= j < n ==> -x <= #[trigger] g[l][j] <= x, forall|l: int, j: int| 0 <= l < k && 0 <= j < n ==> -y <= #[trigger] e[l][j] <= y,
    ensures esum(g, e, n, k).len() == n, forall|j: int| 0 <= j < n ==> -(k * (n * (x * y))) <= #[trigger] esum(g, e, n, k)[j] <= k * (n * (x * y)),
    decreases k,
{
    if k > 0 {
        let d = (k - 1) as nat;
        lemma_esum_bound(g, e, n, d, x, y);
        let _ = g[d as int];
        lemma_negamul_bound(g[d as int], e[d as int], x, y);
        let m = n * (x * y);
        assert(k * m == d * m + m) by (nonlinear_arith) requires k == d + 1;
        assert forall|j: int| 0 <= j < n implies -(k * m) <= #[trigger] esum(g, e, n, k)[j] <= k * m by { let _ = esum(g, e, n, d)[j]; let _ = negamul(g[d as int], e[d as int])[j]; }
    }
}
pub proof fn lemma_gsum_len(w: Seq<int>, g: Seq<Seq<int>>, n: nat, k: nat)
    requires k <= g.len(), forall|l: int| 0 <= l < k ==> (#[trigger] g[l]).len() == n,
    ensures gsum(w, g, n, k).len() == n,
    decreases k,
{ if k > 0 { lemma_gsum_len(w, g, n, (k - 1) as nat); } }
proof fn lemma_zeval(n: nat, c: int, t: nat)
    requires t <= n,
    ensures rem(zseq(n), 1, c, 0, t) == 0,
    decreases t,
{
    if t > 0 { let d = (t - 1) as nat; lemma_zeval(n, c, d); assert(0 + (t - 1) * 1 == d); assert(zseq(n)[d as int] == 0); assert(0 * pow(c, d) == 0) by (nonlinear_arith); }
}
/// one more digit
proof fn lemma_dig_step(x0: int, x1: int, s: int, d: int, k0: int, k1: int, ee: int, eg: int, ef: int, w: int, oe: int, og: int, m: int, v: int, p: int)
    requires p > 1, eqm(x0 + x1 * s, oe + og * ef, p), eqm(k0 + k1 * s, 1 * ee + w * ef, p), eqm(d, eg, p), eqm(m, eg * ee, p), v == 1 * oe + 1 * m,
    ensures eqm((x0 + d * k0) + (x1 + d * k1) * s, v + (1 * og + w * eg) * ef, p),
{
    let y = k0 + k1 * s; let z = 1 * ee + w * ef;
    eqm_mul(d, eg, y, z, p);
    eqm_sym(m, eg * ee, p);
    let r = w * (eg * ef);
    eqm_refl(r, p); eqm_add(eg * ee, m, r, r, p);
    assert(eg * z == eg * ee + r) by (nonlinear_arith) requires z == 1 * ee + w * ef, r == w * (eg * ef);
    eqm_trans(d * y, eg * z, m + r, p);
    eqm_add(x0 + x1 * s, oe + og * ef, d * y, m + r, p);
    assert((x0 + x1 * s) + d * y == (x0 + d * k0) + (x1 + d * k1) * s) by (nonlinear_arith) requires y == k0 + k1 * s;
    assert((oe + og * ef) + (m + r) == v + (1 * og + w * eg) * ef) by (nonlinear_arith) requires r == w * (eg * ef), v == 1 * oe + 1 * m;
}
/// the errors of the rows
pub open spec fn errs_ok(k0: Seq<Poly<NttShoup>>, k1: Seq<Poly<NttShoup>>, s: Seq<int>, w: Seq<int>, f: Seq<int>, b: int, e: Seq<Seq<int>>) -> bool {
    e.len() == k0.len() && forall|l: int| 0 <= l < k0.len() ==> smallx(#[trigger] e[l], b) && e[l].len() == f.len() && keyed(&k0[l], &k1[l], s, comb(1, e[l], w[l], f))
}
pub proof fn lemma_errs(k0: Seq<Poly<NttShoup>>, k1: Seq<Poly<NttShoup>>, s: Seq<int>, w: Seq<int>, f: Seq<int>, b: int) -> (e: Seq<Seq<int>>)
    requires keys_for(k0, k1, s, w, f, b),
    ensures errs_ok(k0, k1, s, w, f, b, e),
{
    let pick = |l: int| choose|e: Seq<int>| smallx(e, b) && e.len() == f.len() && #[trigger] keyed(&k0[l], &k1[l], s, comb(1, e, w[l], f));
    let e = Seq::new(k0.len(), pick);
    assert forall|l: int| 0 <= l < k0.len() implies smallx(#[trigger] e[l], b) && e[l].len() == f.len() && keyed(&k0[l], &k1[l], s, comb(1, e[l], w[l], f)) by {
        assert(row_key(&k0[l], &k1[l], s, w[l], f, b));
        assert(e[l] == pick(l));
    }
    e
}
/// equal contexts have equal points
pub proof fn lemma_same_pt(a: &Context, b: &Context, z: Seq<int>, i: int, j: int)
    requires a.wf(), b.wf(), same(a, b), 0 <= i < a.n(), 0 <= j < a.d(), z.len() == a.d(),
    ensures eqm(eval(z, pt(a, i, j)), eval(z, pt(b, i, j)), a.p(i)),
{
    let p = a.p(i); assert(a.wf_i(i) && b.wf_i(i)); assert(p > 1 && b.p(i) == p);
    let w = Seq::new(z.len(), |k: int| (eval(z, pt(b, i, k)) % p) as u64);
    assert forall|k: int| 0 <= k < z.len() implies eqm(#[trigger] w[k] as int, eval(z, pt(b, i, k)), p) by {
        let v = eval(z, pt(b, i, k)); lemma_mod_bound(v, p); eqm_self(v, p); assert(w[k] as int == v % p);
    }
    assert(b.ops@[i].is_fwd(w, z));
    lemma_same_ops(a, b, i, w, z);
    let (u, v, x) = (eval(z, pt(a, i, j)), eval(z, pt(b, i, j)), w[j] as int);
    assert(eqm(x, u, p)); assert(eqm(x, v, p));
    eqm_sym(x, u, p); eqm_trans(u, x, v, p);
}
/// a key row, at the points of an equal context
proof fn lemma_keyed_at(k0: &Poly<NttShoup>, k1: &Poly<NttShoup>, s: Seq<int>, z: Seq<int>, c: &Context, i: int, j: int)
    requires c.wf(), keyed(k0, k1, s, z), same(&*k0.ctx, c), 0 <= i < c.n(), 0 <= j < c.d(),
    ensures eqm(ent(k0, i, j) + ent(k1, i, j) * eval(s, pt(c, i, j)), eval(z, pt(c, i, j)), c.p(i)),
{
    reveal(keyed);
    let p = c.p(i); assert(c.wf_i(i)); assert(p > 1); let (x, y) = (ent(k0, i, j), ent(k1, i, j));
    let (s0, z0) = (eval(s, pt(&*k0.ctx, i, j)), eval(z, pt(&*k0.ctx, i, j)));
    let (s1, z1) = (eval(s, pt(c, i, j)), eval(z, pt(c, i, j)));
    assert(eqm(x + y * s0, z0, p));
    lemma_same_pt(c, &*k0.ctx, s, i, j); lemma_same_pt(&*k0.ctx, c, z, i, j);
    eqm_mulc(s1, s0, y, p); assert(s1 * y == y * s1 && s0 * y == y * s0) by (nonlinear_arith);
    eqm_refl(x, p); eqm_add(x, x, y * s1, y * s0, p);
    eqm_trans(x + y * s1, x + y * s0, z0, p); eqm_trans(x + y * s1, z0, z1, p);
}
/// the first k digits at one entry
proof fn lemma_switch_at(d: Seq<Poly<Ntt>>, g: Seq<Seq<int>>, k0: Seq<Poly<NttShoup>>, k1: Seq<Poly<NttShoup>>, c: &Context, s: Seq<int>, w: Seq<int>, f: Seq<int>, b: int, e: Seq<Seq<int>>, i: int, j: int, k: nat)
    requires c.wf(), lifted(d, g, c), errs_ok(k0, k1, s, w, f, b, e), halves_ok(k0, c), halves_ok(k1, c), k0.len() == k1.len(), k <= d.len(), k <= k0.len(), 0 <= i < c.n(), 0 <= j < c.d(), f.len() == c.d(),
    ensures eqm(dots(d, k0, i, j, k) + dots(d, k1, i, j, k) * eval(s, pt(c, i, j)), eval(esum(g, e, c.d() as nat, k), pt(c, i, j)) + eval(gsum(w, g, c.d() as nat, k), pt(c, i, j)) * eval(f, pt(c, i, j)), c.p(i)),
        esum(g, e, c.d() as nat, k).len() == c.d(), gsum(w, g, c.d() as nat, k).len() == c.d(),
    decreases k,
{
    let n = c.d() as nat; let p = c.p(i); let q = pt(c, i, j);
    assert(c.wf_i(i)); assert(p > 1);
    if k == 0 {
        lemma_zeval(n, q, n); let ef = eval(f, q); let es = eval(s, q);
        assert(0 * ef == 0 && 0 * es == 0) by (nonlinear_arith);
        eqm_refl(0, p);
    } else {
        let l = k - 1; let m = l as nat;
        lemma_switch_at(d, g, k0, k1, c, s, w, f, b, e, i, j, m);
        let (x, y0, y1) = (d[l], k0[l], k1[l]);
        assert(x.isx(g[l]) && same(&*x.ctx, c)); assert(x.ctx.ops@[i].is_fwd(x.rows()[i]@, g[l]));
        lemma_same_ops(c, &*x.ctx, i, x.rows()[i]@, g[l]);
        assert(eqm(ent(&x, i, j), eval(g[l], q), p));
        let el = e[l]; let z = comb(1, el, w[l], f);
        assert(el.len() == n && keyed(&y0, &y1, s, z)); assert(same(&*y0.ctx, c));
        lemma_keyed_at(&y0, &y1, s, z, c, i, j);
        lemma_rem_comb(el, f, 1, w[l], q, n);
        c.ops@[i].lemma_point(j);
        lemma_negamul_len(g[l], el);
        let nm = negamul(g[l], el);
        lemma_negamul_eval(g[l], el, q, p);
        let (oe, og) = (esum(g, e, n, m), gsum(w, g, n, m));
        lemma_rem_comb(oe, nm, 1, 1, q, n);
        lemma_rem_comb(og, g[l], 1, w[l], q, n);
        lemma_dig_step(dots(d, k0, i, j, m), dots(d, k1, i, j, m), eval(s, q), ent(&x, i, j), ent(&y0, i, j), ent(&y1, i, j), eval(el, q), eval(g[l], q), eval(f, q), w[l], eval(oe, q), eval(og, q), eval(nm, q), eval(esum(g, e, n, k), q), p);
    }
}
/// the digits g, weighted by w, stand for x where f is not zero
pub open spec fn stands(w: Seq<int>, g: Seq<Seq<int>>, x: Seq<int>, f: Seq<int>, c: &Context) -> bool {
    forall|i: int| 0 <= i < c.n() ==> (forall|m: int| 0 <= m < c.d() ==> eqm(#[trigger] gsum(w, g, c.d() as nat, g.len())[m], x[m], #[trigger] c.p(i))) || (forall|m: int| 0 <= m < c.d() ==> eqm(#[trigger] f[m], 0, c.p(i)))
}
proof fn lemma_switch_arith(r: int, a0: int, a1: int, m: int, sp: int, d0: int, d1: int, es: int, ee: int, gf: int, xf: int, en: int, p: int)
    requires p > 1, eqm(r, 1 * a0 + 1 * m, p), eqm(m, sp * a1, p), eqm(a0, d0, p), eqm(a1, d1, p), eqm(sp, es, p), eqm(d0 + d1 * es, ee + gf, p), eqm(gf, xf, p), eqm(en, xf, p),
    ensures eqm(r, 1 * en + 1 * ee, p),
{
    assert(sp * a1 == a1 * sp) by (nonlinear_arith); eqm_mul(a1, d1, sp, es, p); eqm_trans(m, a1 * sp, d1 * es, p);
    eqm_add(a0, d0, m, d1 * es, p); assert(1 * a0 + 1 * m == a0 + m && 1 * en + 1 * ee == en + ee);
    eqm_trans(r, a0 + m, d0 + d1 * es, p); eqm_trans(r, d0 + d1 * es, ee + gf, p);
    eqm_sym(en, xf, p); eqm_trans(gf, xf, en, p);
    eqm_refl(ee, p); eqm_add(ee, ee, gf, en, p);
    assert(en + ee == ee + en);
    eqm_trans(r, ee + gf, ee + en, p);
}
/// a key-switched pair
pub proof fn lemma_switch(a0: &Poly<Ntt>, a1: &Poly<Ntt>, sp: &Poly<Ntt>, k: &KeySwitchingKey, g: Seq<Seq<int>>, s: Seq<int>, w: Seq<int>, x: Seq<int>, f: Seq<int>, b: int, u: int) -> (err: Seq<int>)
    requires a0.wf(), a1.wf(), a0.ctx == k.ctx_ksk, a1.ctx == k.ctx_ksk, sp.like(a1), sp.isx(s), k.wf(), switched(a0, a1, k, g), keys_for(k.c0@, k.c1@, s, w, f, b), 0 <= b, 0 <= u,
        g.len() == k.c0@.len(), x.len() == a0.d(), f.len() == a0.d(), stands(w, g, x, f, &*k.ctx_ksk), forall|l: int, m: int| 0 <= l < g.len() && 0 <= m < a0.d() ==> -u <= #[trigger] g[l][m] <= u,
    ensures padd(*a0, pmul(*a1, *sp)).isx(xadd(negamul(x, f), err)), err.len() == a0.d(),
        forall|j: int| 0 <= j < a0.d() ==> -(g.len() * (a0.d() * (u * b))) <= #[trigger] err[j] <= g.len() * (a0.d() * (u * b)),
{
    let c = &*k.ctx_ksk; let n = c.d() as nat; let L = g.len();
    let e = lemma_errs(k.c0@, k.c1@, s, w, f, b);
    reveal(switched);
    let d = choose|d: Seq<Poly<Ntt>>| #[trigger] lifted(d, g, c) && is_dots(a0, d, k.c0@, L) && is_dots(a1, d, k.c1@, L);
    let err = esum(g, e, n, L);
    assert forall|l: int| 0 <= l < L implies (#[trigger] g[l]).len() == n && e[l].len() == n by { assert(d[l].isx(g[l]) && same(&*d[l].ctx, c)); }
    assert forall|l: int, j: int| 0 <= l < L && 0 <= j < n implies -b <= #[trigger] e[l][j] <= b by { assert(smallx(e[l], b)); }
    lemma_esum_bound(g, e, n, L, u, b);
    lemma_gsum_len(w, g, n, L);
    lemma_negamul_len(x, f);
    let v = xadd(negamul(x, f), err);
    let mp = pmul(*a1, *sp); let r = padd(*a0, mp);
    assert(a1.like(sp)); assert(a0.like(&mp));
    lemma_like(a1, sp); lemma_like(a0, &mp);
    assert forall|i: int| 0 <= i < r.n() implies r.ctx.ops@[i].is_fwd((#[trigger] r.rows()[i])@, v) by {
        let p = c.p(i); assert(c.wf_i(i)); assert(p > 1);
        assert forall|j: int| 0 <= j < n implies eqm(#[trigger] r.rows()[i]@[j] as int, eval(v, pt(c, i, j)), p) by {
            let q = pt(c, i, j);
            lemma_switch_at(d, g, k.c0@, k.c1@, c, s, w, f, b, e, i, j, L);
            let (es, ef, ex, eg, ee) = (eval(s, q), eval(f, q), eval(x, q), eval(gsum(w, g, n, L), q), eval(err, q));
            let (d0, d1) = (dots(d, k.c0@, i, j, L), dots(d, k.c1@, i, j, L));
            reveal(is_dots);
            assert(eqm(ent(a0, i, j), d0, p) && eqm(ent(a1, i, j), d1, p));
            assert(sp.ctx.ops@[i].is_fwd(sp.rows()[i]@, s));
            lemma_same_ops(c, &*sp.ctx, i, sp.rows()[i]@, s);
            assert(eqm(ent(sp, i, j), es, p));
            lemma_entry_add(*a0, mp, i, j);
            lemma_entry_add(*a1, *sp, i, j);
            // gsum f == x f
            assert(eqm(eg * ef, ex * ef, p)) by {
                if forall|m: int| 0 <= m < n ==> eqm(#[trigger] gsum(w, g, n, L)[m], x[m], p) {
                    lemma_rem_vals(gsum(w, g, n, L), x, q, n, p);
                    eqm_mulc(eg, ex, ef, p);
                } else {
                    let z = zseq(n);
                    assert forall|m: int| 0 <= m < f.len() implies eqm(#[trigger] f[m], z[m], p) by {}
                    lemma_rem_vals(f, z, q, n, p); lemma_zeval(n, q, n);
                    eqm_mulc(ef, 0, eg, p); eqm_mulc(ef, 0, ex, p);
                    assert(ef * eg == eg * ef && ef * ex == ex * ef && 0 * eg == 0 && 0 * ex == 0) by (nonlinear_arith);
                    eqm_sym(ex * ef, 0, p); eqm_trans(eg * ef, 0, ex * ef, p);
                }
            }
            c.ops@[i].lemma_point(j);
            let en = eval(negamul(x, f), q);
            lemma_negamul_eval(x, f, q, p);
            lemma_rem_comb(negamul(x, f), err, 1, 1, q, n);
            lemma_switch_arith(ent(&r, i, j), ent(a0, i, j), ent(a1, i, j), ent(&mp, i, j), ent(sp, i, j), d0, d1, es, ee, eg * ef, ex * ef, en, p);
            assert(eval(v, q) == 1 * en + 1 * ee);
        }
    }
    err
}
/// f vanishes modulo the moduli of the key that are not in the ciphertext
pub open spec fn fz(k: &KeySwitchingKey, f: Seq<int>) -> bool { forall|i: int, m: int| k.ctx_ciphertext.n() <= i < k.ctx_ksk.n() && 0 <= m < k.ctx_ksk.d() ==> eqm(#[trigger] f[m], 0, #[trigger] k.ctx_ksk.p(i)) }
proof fn lemma_gsum_gadget(w: Seq<int>, md: Seq<u64>, g: Seq<Seq<int>>, n: nat, i: int, m: int, k: nat)
    requires gadget(w, md), g.len() == md.len(), k <= g.len(), 0 <= i < md.len(), md[i] > 1, 0 <= m < n, forall|l: int| 0 <= l < g.len() ==> (#[trigger] g[l]).len() == n,
    ensures eqm(gsum(w, g, n, k)[m], if i < k { g[i][m] } else { 0 }, md[i] as int), gsum(w, g, n, k).len() == n,
    decreases k,
{
    let p = md[i] as int;
    if k == 0 { eqm_refl(0, p); }
    else {
        let l = k - 1; let d = l as nat;
        lemma_gsum_gadget(w, md, g, n, i, m, d);
        let _ = g[l];
        let (wl, gl, y) = (w[l], g[l][m], gsum(w, g, n, d)[m]);
        let o = if l == i { 1int } else { 0int };
        assert(wl % p == o % p) by { assert(w[l] % (md[i] as int) == o); lemma_small_mod(o as nat, p as nat); }
        assert(eqm(wl, o, p)) by { reveal(eqm); }
        eqm_mulc(wl, o, gl, p);
        let v = if i < l { g[i][m] } else { 0int };
        eqm_add(y, v, wl * gl, o * gl, p);
        assert(gsum(w, g, n, k)[m] == 1 * y + wl * gl);
        assert(o * gl == if l == i { gl } else { 0int }) by (nonlinear_arith) requires o == if l == i { 1int } else { 0int };
    }
}
pub proof fn lemma_stands_gadget(k: &KeySwitchingKey, p: &Poly<PowerBasis>, w: Seq<int>, x: Seq<int>, f: Seq<int>)
    requires k.wf(), p.wf(), same(&*p.ctx, &*k.ctx_ciphertext), k.log_base == 0, gadget(w, k.ctx_ciphertext.moduli@), p.coefs(x), fz(k, f), f.len() == k.ctx_ksk.d(),
    ensures stands(w, k.digits(p), x, f, &*k.ctx_ksk),
{
    let c = &*k.ctx_ksk; let n = c.d() as nat; let g = k.digits(p); let md = k.ctx_ciphertext.moduli@;
    assert(k.par.wf_l(k.ksk_level as int)); assert(k.par.wf_l(k.ciphertext_level as int));
    assert(c.d() == p.d());
    assert forall|l: int| 0 <= l < g.len() implies (#[trigger] g[l]).len() == n by { assert(p.rows()[l]@.len() == p.d()); }
    assert forall|i: int| 0 <= i < c.n() implies (forall|m: int| 0 <= m < c.d() ==> eqm(#[trigger] gsum(w, g, n, g.len())[m], x[m], #[trigger] c.p(i))) || (forall|m: int| 0 <= m < c.d() ==> eqm(#[trigger] f[m], 0, c.p(i))) by {
        assert(c.wf_i(i));
        if i < md.len() {
            assert(p.ctx.wf_i(i)); assert(md[i] as int == c.p(i)) by { assert(c.p(i) == k.par.moduli@[i]); assert(md[i] == k.par.moduli@[i]); }
            assert forall|m: int| 0 <= m < c.d() implies eqm(#[trigger] gsum(w, g, n, g.len())[m], x[m], c.p(i)) by {
                lemma_gsum_gadget(w, md, g, n, i, m, g.len());
                assert(p.is_int(m, x[m]));
                assert(p.rows()[i]@[m] as int == x[m] % p.p(i));
                eqm_self(x[m], c.p(i));
                eqm_trans(gsum(w, g, n, g.len())[m], g[i][m], x[m], c.p(i));
            }
        } else {
            assert forall|m: int| 0 <= m < c.d() implies eqm(#[trigger] f[m], 0, c.p(i)) by {}
        }
    }
}
/// base-2^b digits add up
proof fn lemma_gsum_dec(x: Seq<int>, b: int, L: nat, n: nat, m: int, k: nat)
    requires b > 0, k <= L, 0 <= m < n, x.len() == n, x[m] >= 0,
    ensures gsum(powers(b, L as int), digs(x, b, L as int), n, k)[m] == x[m] % (pow2((b * k) as nat) as int), gsum(powers(b, L as int), digs(x, b, L as int), n, k).len() == n,
    decreases k,
{
    let (w, g) = (powers(b, L as int), digs(x, b, L as int));
    if k == 0 { lemma2_to64(); assert(b * 0 == 0); assert(x[m] % 1 == 0); }
    else {
        let l = k - 1; let d = l as nat;
        lemma_gsum_dec(x, b, L, n, m, d);
        assert(b * l >= 0) by (nonlinear_arith) requires b > 0, l >= 0;
        assert(b * k == b * l + b) by (nonlinear_arith) requires k == l + 1;
        let (u, v) = ((b * l) as nat, b as nat);
        lemma_pow2_adds(u, v); lemma_pow2_pos(u); lemma_pow2_pos(v);
        let (pu, pv, y) = (pow2(u) as int, pow2(v) as int, x[m]);
        lemma_breakdown(y, pu, pv);
        assert(y % (pu * pv) == pu * ((y / pu) % pv) + y % pu);
        assert(g[l][m] == dig(y, b, l) && w[l] == pu);
        assert(gsum(w, g, n, k)[m] == 1 * (y % pu) + pu * ((y / pu) % pv));
    }
}
pub proof fn lemma_stands_dec(k: &KeySwitchingKey, p: &Poly<PowerBasis>, x: Seq<int>, f: Seq<int>)
    requires k.wf(), p.wf(), same(&*p.ctx, &*k.ctx_ciphertext), k.log_base != 0, p.coefs(x), fz(k, f), f.len() == k.ctx_ksk.d(),
    ensures stands(powers(k.log_base as int, k.c0@.len() as int), k.digits(p), x, f, &*k.ctx_ksk),
{
    let c = &*k.ctx_ksk; let n = c.d() as nat; let g = k.digits(p); let b = k.log_base as int; let L = k.c0@.len();
    let w = powers(b, L as int);
    assert(k.par.wf_l(k.ksk_level as int)); assert(k.par.wf_l(k.ciphertext_level as int));
    assert(c.d() == p.d());
    let v = vals(p.rows()[0]@);
    assert(p.ctx.wf_i(0)); assert(canon(p.rows()[0]@, p.p(0)));
    assert(p.rows()[0]@.len() == n);
    let q = p.p(0);
    lemma_clog2_ge(q, b, L as int);
    assert forall|i: int| 0 <= i < c.n() implies (forall|m: int| 0 <= m < c.d() ==> eqm(#[trigger] gsum(w, g, n, g.len())[m], x[m], #[trigger] c.p(i))) || (forall|m: int| 0 <= m < c.d() ==> eqm(#[trigger] f[m], 0, c.p(i))) by {
        assert(c.wf_i(i));
        if i < 1 {
            assert(q == c.p(i)) by { assert(c.p(i) == k.par.moduli@[i]); assert(k.ctx_ciphertext.moduli@[i] == k.par.moduli@[i]); }
            assert forall|m: int| 0 <= m < c.d() implies eqm(#[trigger] gsum(w, g, n, g.len())[m], x[m], c.p(i)) by {
                lemma_gsum_dec(v, b, L, n, m, L);
                assert(p.is_int(m, x[m]));
                assert(p.rows()[0]@[m] as int == x[m] % q);
                assert(v[m] < q);
                lemma_small_mod(v[m] as nat, pow2((b * L) as nat));
                eqm_self(x[m], q);
            }
        } else {
            assert forall|m: int| 0 <= m < c.d() implies eqm(#[trigger] f[m], 0, c.p(i)) by {}
        }
    }
}
proof fn lemma_clog2_ge(q: int, b: int, L: int)
    requires 1 < q < 0x4000_0000_0000_0000, b > 0, L == (clog2(q) + b - 1) / b,
    ensures pow2((b * L) as nat) >= q, b * L >= 0,
{
    let k = clog2(q);
    lemma_clog2_ex(q);
    assert(b * L >= k) by (nonlinear_arith) requires L == (k + b - 1) / b, b > 0, k >= 0;
    if b * L > k { lemma_pow2_strictly_increases(k as nat, (b * L) as nat); }
}
/// bound of one digit
pub open spec fn dmax() -> int { 0x4000_0000_0000_0000 }
/// the error of one key switch
pub open spec fn ksw_noise(k: &KeySwitchingKey, b: int) -> int { k.c0@.len() * (k.ctx_ksk.d() * (dmax() * b)) }
/// what a key-switched pair decrypts to
pub proof fn lemma_key_switch(r: Result<(Poly<Ntt>, Poly<Ntt>)>, k: &KeySwitchingKey, p: &Poly<PowerBasis>, sp: &Poly<Ntt>, s: Seq<int>, f: Seq<int>, x: Seq<int>, b: int) -> (err: Seq<int>)
    requires k.wf(), p.wf(), r is Ok, switch_ok(r, k, p, k.digits(p)), k.switches(s, f, b), p.coefs(x), fz(k, f), f.len() == k.ctx_ksk.d(), 0 <= b, sp.like(&r->Ok_0.1), sp.isx(s),
    ensures padd(r->Ok_0.0, pmul(r->Ok_0.1, *sp)).isx(xadd(negamul(x, f), err)), smallx(err, ksw_noise(k, b)), err.len() == k.ctx_ksk.d(),
{
    let g = k.digits(p); let c = &*k.ctx_ksk;
    assert(k.par.wf_l(k.ksk_level as int)); assert(k.par.wf_l(k.ciphertext_level as int));
    assert(c.d() == p.d()); assert(k.ctx_ciphertext.n() == p.n());
    let w = if k.log_base == 0 { choose|w: Seq<int>| #[trigger] gadget(w, k.ctx_ciphertext.moduli@) && keys_for(k.c0@, k.c1@, s, w, f, b) } else { powers(k.log_base as int, k.c0@.len() as int) };
    if k.log_base == 0 { lemma_stands_gadget(k, p, w, x, f); } else { lemma_stands_dec(k, p, x, f); }
    assert(keys_for(k.c0@, k.c1@, s, w, f, b));
    assert forall|l: int, m: int| 0 <= l < g.len() && 0 <= m < c.d() implies -dmax() <= #[trigger] g[l][m] <= dmax() by {
        if k.log_base == 0 { assert(p.ctx.wf_i(l)); assert(canon(p.rows()[l]@, p.p(l))); assert(p.rows()[l]@[m] < p.p(l)); }
        else {
            assert(p.ctx.wf_i(0)); assert(canon(p.rows()[0]@, p.p(0)));
            let v = p.rows()[0]@[m] as int; let bb = k.log_base as int;
            assert(v < p.p(0));
            assert(g[l][m] == dig(v, bb, l));
            let (u, t) = (pow2((bb * l) as nat) as int, pow2(bb as nat) as int);
            lemma_pow2_pos((bb * l) as nat); lemma_pow2_pos(bb as nat);
            lemma_div_is_ordered_by_denominator(v, 1, u); lemma_div_basics(v); lemma_div_pos_is_pos(v, u);
            lemma_mod_decreases((v / u) as nat, t as nat);
            lemma_mod_bound(v / u, t);
        }
    }
    let err = lemma_switch(&r->Ok_0.0, &r->Ok_0.1, sp, k, g, s, w, x, f, b, dmax());
    assert forall|j: int| 0 <= j < err.len() implies -ksw_noise(k, b) <= #[trigger] err[j] <= ksw_noise(k, b) by {}
    err
}
