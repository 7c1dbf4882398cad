//@ import skenc
// ---------------------------------------------------------------------------
// The linear operations act on the plaintexts (no code; lemmas over the contracts of ctops.v,
// skenc.v and ctsw.v: what each operator returns is an encryption of the result)
// ---------------------------------------------------------------------------
use vstd::arithmetic::div_mod::*;
use vstd::arithmetic::mul::*;
use crate::modk::*;
use crate::ringmul::*;
broadcast use group_poly;
/// equal keys, equal phase
pub proof fn lemma_phase_key(p: &Poly<Ntt>, c: Seq<Poly<Ntt>>, s: &Poly<Ntt>, k: &Poly<Ntt>)
    requires is_phase(p, c, s), s.like(k), veq(s, k),
    ensures is_phase(p, c, k),
{
    assert(p.like(s)) by { reveal(is_phase); }
    lemma_like(p, s); lemma_like(s, k);
    assert forall|i: int, j: int| 0 <= i < p.n() && 0 <= j < p.d() implies eqm(#[trigger] ent(p, i, j), hsum(c, ent(k, i, j), i, j, c.len()), p.p(i)) by {
        lemma_phase_at(p, c, s, i, j);
        assert(ent(s, i, j) == ent(k, i, j));
    }
    reveal(is_phase);
}
/// two ciphertexts of one level under one key: their phases under one form of the key
pub proof fn lemma_align(a: &Ciphertext, b: &Ciphertext, s: Seq<int>, p: Poly<Ntt>, q: Poly<Ntt>) -> (k: Poly<Ntt>)
    requires a.hides(s, p), b.hides(s, q), a.c@.len() > 0, b.c@.len() > 0, a.c@[0].like(&b.c@[0]),
    ensures k.isx(s), is_phase(&p, a.c@, &k), is_phase(&q, b.c@, &k), p.like(&q), p.like(&k),
{
    let k = choose|k: Poly<Ntt>| #[trigger] k.isx(s) && is_phase(&p, a.c@, &k);
    let l = choose|k: Poly<Ntt>| #[trigger] k.isx(s) && is_phase(&q, b.c@, &k);
    assert(p.like(&k) && q.like(&l) && a.c@[0].like(&p) && b.c@[0].like(&q)) by { reveal(is_phase); let d = a.c@[0]; assert(d.like(&p)); let e = b.c@[0]; assert(e.like(&q)); }
    lemma_like(&p, &k); lemma_like(&q, &l); lemma_like(&a.c@[0], &p); lemma_like(&b.c@[0], &q); lemma_like(&a.c@[0], &b.c@[0]);
    assert(l.like(&k) && p.like(&q));
    lemma_one_form(&l, &k, s);
    lemma_phase_key(&q, b.c@, &l, &k);
    k
}
/// ciphertext parts of one level are like each other
pub proof fn lemma_parts_like(a: &Ciphertext, b: &Ciphertext, k: int, l: int)
    requires a.wf(), b.wf(), a.par == b.par, a.level == b.level, 0 <= k < a.c@.len(), 0 <= l < b.c@.len(),
    ensures a.c@[k].like(&b.c@[l]),
{
    let x = a.par.ctx(a.level as int);
    assert(polys_ok(a.c@, &x) && polys_ok(b.c@, &x));
    let (u, v) = (a.c@[k], b.c@[l]);
    assert(same(&*u.ctx, &x) && same(&*v.ctx, &x));
    assert(u.wf() && v.wf());
}
/// sums and differences
pub proof fn lemma_enc_add(a: &Ciphertext, b: &Ciphertext, r: &Ciphertext, s: Seq<int>, w: Seq<int>, x: int, v: Seq<int>, y: int)
    requires a.wf(), b.wf(), a.par == b.par, r.par == a.par, compat(a, b), a.c@.len() > 0, b.c@.len() > 0, a.enc(s, w, x), b.enc(s, v, y),
    ensures r.c@ =~= cadd(a.c@, b.c@) ==> r.enc(s, xadd(w, v), x + y), r.c@ =~= csub(a.c@, b.c@) ==> r.enc(s, xsub(w, v), x + y),
{
    let t = a.par.t();
    let p = choose|p: Poly<Ntt>| #[trigger] a.hides(s, p) && noisy(&p, t, w, x);
    let q = choose|p: Poly<Ntt>| #[trigger] b.hides(s, p) && noisy(&p, t, v, y);
    lemma_parts_like(a, b, 0, 0);
    let k = lemma_align(a, b, s, p, q);
    lemma_phase_add(p, q, a.c@, b.c@, &k);
    noisy_add(p, q, t, w, x, v, y);
    if r.c@ =~= cadd(a.c@, b.c@) { assert(is_phase(&padd(p, q), r.c@, &k)); assert(r.hides(s, padd(p, q))); }
    if r.c@ =~= csub(a.c@, b.c@) { assert(is_phase(&psub(p, q), r.c@, &k)); assert(r.hides(s, psub(p, q))); }
}
/// the empty ciphertext is the zero of both operations
pub proof fn lemma_enc_add_empty(a: &Ciphertext, b: &Ciphertext, r: &Ciphertext, s: Seq<int>, w: Seq<int>, x: int)
    requires a.par == b.par, r.par == a.par, a.enc(s, w, x), b.c@.len() == 0, a.c@.len() > 0,
    ensures r.c@ =~= cadd(a.c@, b.c@) ==> r.enc(s, w, x), r.c@ =~= csub(a.c@, b.c@) ==> r.enc(s, w, x), r.c@ =~= cadd(b.c@, a.c@) ==> r.enc(s, w, x),
{
    let p = choose|p: Poly<Ntt>| #[trigger] a.hides(s, p) && noisy(&p, a.par.t(), w, x);
    let k = choose|k: Poly<Ntt>| #[trigger] k.isx(s) && is_phase(&p, a.c@, &k);
    if r.c@ =~= a.c@ { assert(is_phase(&p, r.c@, &k)); assert(r.hides(s, p)); }
}
pub proof fn lemma_enc_neg(a: &Ciphertext, r: &Ciphertext, s: Seq<int>, w: Seq<int>, x: int)
    requires a.wf(), r.par == a.par, a.enc(s, w, x), r.c@ =~= cneg(a.c@),
    ensures r.enc(s, xneg(w), x),
{
    let t = a.par.t();
    let p = choose|p: Poly<Ntt>| #[trigger] a.hides(s, p) && noisy(&p, t, w, x);
    let k = choose|k: Poly<Ntt>| #[trigger] k.isx(s) && is_phase(&p, a.c@, &k);
    assert(p.like(&k)) by { reveal(is_phase); }
    lemma_phase_neg(p, a.c@, &k);
    noisy_neg(p, t, w, x);
    assert(is_phase(&pneg(p), r.c@, &k)); assert(r.hides(s, pneg(p)));
}
/// the parts of a ciphertext are like the scaled plaintext of its level
pub proof fn lemma_pt_like(a: &Ciphertext, pt: &Plaintext, f: &Poly<Ntt>, p: &Poly<Ntt>, k: &Poly<Ntt>)
    requires a.wf(), pt.wf(), a.par == pt.par, a.level == pt.lvl(), a.c@.len() > 0, f.wf(), same(&*f.ctx, &a.par.ctx(pt.lvl())), is_phase(p, a.c@, k),
    ensures p.like(f), p.d() == a.par.deg(),
{
    let u = a.c@[0]; let x = a.par.ctx(a.level as int);
    assert(polys_ok(a.c@, &x)); assert(same(&*u.ctx, &x) && u.wf());
    assert(u.like(p)) by { reveal(is_phase); }
    assert(a.par.wf_l(a.level as int));
    lemma_like(&u, p);
}
pub proof fn lemma_enc_add_pt(a: &Ciphertext, pt: &Plaintext, r: &Ciphertext, s: Seq<int>, w: Seq<int>, x: int, m: Seq<int>)
    requires a.wf(), pt.wf(), a.par == pt.par, r.par == a.par, a.level == pt.lvl(), a.c@.len() > 0, a.enc(s, w, x), pt.holds(m), pt.is_scaled(&ptpoly(*pt)),
    ensures r.c@ =~= cset0(a.c@, padd(a.c@[0], ptpoly(*pt))) ==> r.enc(s, xadd(w, m), x + a.par.t()),
        r.c@ =~= cset0(a.c@, psub(a.c@[0], ptpoly(*pt))) ==> r.enc(s, xsub(w, m), x + a.par.t()),
{
    let t = a.par.t(); let f = ptpoly(*pt);
    let p = choose|p: Poly<Ntt>| #[trigger] a.hides(s, p) && noisy(&p, t, w, x);
    let k = choose|k: Poly<Ntt>| #[trigger] k.isx(s) && is_phase(&p, a.c@, &k);
    lemma_pt_like(a, pt, &f, &p, &k);
    lemma_phase_set0(p, a.c@, &k, f);
    lemma_scaled_noisy(pt, &f, m);
    noisy_add(p, f, t, w, x, m, t);
    if r.c@ =~= cset0(a.c@, padd(a.c@[0], f)) { assert(is_phase(&padd(p, f), r.c@, &k)); assert(r.hides(s, padd(p, f))); }
    if r.c@ =~= cset0(a.c@, psub(a.c@[0], f)) { assert(is_phase(&psub(p, f), r.c@, &k)); assert(r.hides(s, psub(p, f))); }
}
/// products with a plaintext: the negacyclic product, noise grown by n t
pub proof fn lemma_enc_mul_pt(a: &Ciphertext, pt: &Plaintext, r: &Ciphertext, s: Seq<int>, w: Seq<int>, x: int, m: Seq<int>)
    requires a.wf(), pt.wf(), a.par == pt.par, r.par == a.par, a.level == pt.lvl(), a.c@.len() > 0, a.enc(s, w, x), x >= 0, pt.holds(m), r.c@ =~= cmulp(a.c@, pt.poly_ntt),
    ensures r.enc(s, negamul(w, m), a.par.deg() * (x * a.par.t())),
{
    let t = a.par.t(); let f = pt.poly_ntt;
    assert(t >= 2) by { reveal(BfvParameters::wf_pt); }
    let p = choose|p: Poly<Ntt>| #[trigger] a.hides(s, p) && noisy(&p, t, w, x);
    let k = choose|k: Poly<Ntt>| #[trigger] k.isx(s) && is_phase(&p, a.c@, &k);
    lemma_pt_like(a, pt, &f, &p, &k);
    lemma_phase_mulp(p, a.c@, &k, f);
    assert forall|j: int| 0 <= j < m.len() implies -t <= #[trigger] m[j] <= t by {}
    noisy_mul(p, f, t, w, x, m, t);
    assert(is_phase(&pmul(p, f), r.c@, &k)); assert(r.hides(s, pmul(p, f)));
}
/// what the operations compute modulo t depends on the plaintexts modulo t only
pub proof fn lemma_modt_at(x: int, y: int, t: int)
    requires t >= 2,
    ensures (1 * x + 1 * y) % t == (1 * (x % t) + 1 * (y % t)) % t, (1 * x + (-1) * y) % t == (1 * (x % t) + (-1) * (y % t)) % t, ((-1) * x + 0 * x) % t == ((-1) * (x % t) + 0 * (x % t)) % t,
{
    let (a, b) = (x % t, y % t);
    assert(1 * x + 1 * y == x + y && 1 * a + 1 * b == a + b && 1 * x + (-1) * y == x - y && 1 * a + (-1) * b == a - b && (-1) * x + 0 * x == 0 - x && (-1) * a + 0 * a == 0 - a) by (nonlinear_arith);
    lemma_add_mod_noop(x, y, t); lemma_sub_mod_noop(x, y, t); lemma_sub_mod_noop(0, x, t); lemma_sub_mod_noop(0, a, t);
    lemma_add_mod_noop(a, b, t); lemma_sub_mod_noop(a, b, t);
    lemma_mod_twice(x, t); lemma_mod_twice(y, t);
}
pub proof fn lemma_modt_lin(w: Seq<int>, v: Seq<int>, t: int)
    requires t >= 2, w.len() == v.len(),
    ensures modt(xadd(w, v), t) =~= modt(xadd(modt(w, t), modt(v, t)), t), modt(xsub(w, v), t) =~= modt(xsub(modt(w, t), modt(v, t)), t), modt(xneg(w), t) =~= modt(xneg(modt(w, t)), t),
{
    let (m, n) = (modt(w, t), modt(v, t));
    let (a, b) = (modt(xadd(w, v), t), modt(xadd(m, n), t)); assert forall|j: int| 0 <= j < w.len() implies #[trigger] a[j] == b[j] by { lemma_modt_at(w[j], v[j], t); } assert(a =~= b);
    let (a, b) = (modt(xsub(w, v), t), modt(xsub(m, n), t)); assert forall|j: int| 0 <= j < w.len() implies #[trigger] a[j] == b[j] by { lemma_modt_at(w[j], v[j], t); } assert(a =~= b);
    let (a, b) = (modt(xneg(w), t), modt(xneg(m), t)); assert forall|j: int| 0 <= j < w.len() implies #[trigger] a[j] == b[j] by { lemma_modt_at(w[j], v[j], t); } assert(a =~= b);
}
/// negacyclic multiplication modulo t
pub proof fn lemma_psum_modt(w: Seq<int>, m: Seq<int>, t: int, k: nat)
    requires t >= 2, k <= w.len(), k <= m.len(),
    ensures psum(w, m, k).len() == w.len(), psum(modt(w, t), m, k).len() == w.len(), forall|j: int| 0 <= j < w.len() ==> eqm(#[trigger] psum(w, m, k)[j], psum(modt(w, t), m, k)[j], t),
    decreases k,
{
    let v = modt(w, t);
    if k == 0 { assert forall|j: int| 0 <= j < w.len() implies eqm(#[trigger] psum(w, m, k)[j], psum(v, m, k)[j], t) by { eqm_refl(0, t); } }
    else {
        let d = (k - 1) as nat;
        lemma_psum_modt(w, m, t, d);
        assert forall|j: int| 0 <= j < w.len() implies eqm(#[trigger] psum(w, m, k)[j], psum(v, m, k)[j], t) by {
            let (x, y, e) = (mono(w, d as int)[j], mono(v, d as int)[j], m[d as int]);
            assert(eqm(x, y, t)) by {
                if j >= d { eqm_self(w[j - d], t); eqm_sym(w[j - d] % t, w[j - d], t); assert(y == v[j - d]); }
                else { let l = w.len() + j - d; let z = w[l]; eqm_self(z, t); eqm_sym(z % t, z, t); eqm_mulc(z, z % t, -1, t); assert(z * -1 == -z && (z % t) * -1 == -(z % t)) by (nonlinear_arith); }
            }
            eqm_mulc(x, y, e, t); assert(x * e == e * x && y * e == e * y) by (nonlinear_arith);
            eqm_add(psum(w, m, d)[j], psum(v, m, d)[j], e * x, e * y, t);
        }
    }
}
