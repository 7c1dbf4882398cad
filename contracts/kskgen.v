//@ import ksk
// ---------------------------------------------------------------------------
// fhe/src/bfv/keys/key_switching_key.rs : generation of the keys, and what switching with them does
// ---------------------------------------------------------------------------
use vstd::arithmetic::div_mod::*;
use vstd::arithmetic::mul::*;
use vstd::arithmetic::power::*;
use std::sync::Arc;
use crate::poly::fhe_traits::*;
use crate::modk::*;
use crate::nttm::*;
use crate::ringmul::*;
use crate::rns::*;
use vstd::arithmetic::power2::*;
broadcast use group_poly;
/// rng.fill(&mut seed)
#[verifier::external_body]
pub fn vfill_rng(seed: &mut [u8; 32], rng: &mut VRng) { unimplemented!() }
/// the ChaCha generator, used only to derive seeds
pub struct VSeeds { pub s: [u8; 32], pub n: Ghost<int> }
pub uninterp spec fn seed_at(s: [u8; 32], i: int) -> [u8; 32];
impl VSeeds {
    #[verifier::external_body]
    pub fn from_seed(s: [u8; 32]) -> (r: Self)
        ensures r.s == s, r.n@ == 0,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn fill(&mut self, x: &mut [u8; 32])
        ensures *final(x) == seed_at(old(self).s, old(self).n@), final(self).s == old(self).s, final(self).n@ == old(self).n@ + 1,
    { unimplemented!() }
}
pub uninterp spec fn seeded_s(ctx: Context, seed: [u8; 32]) -> Poly<NttShoup>;
impl Poly<NttShoup> {
    /// trusted: SHA-256 and the ChaCha generator
    #[verifier::external_body]
    pub fn random_from_seed(ctx: &Arc<Context>, seed: [u8; 32]) -> (r: Self)
        requires ctx.wf(),
        ensures r.wf(), r.ctx == *ctx, !r.allow_variable_time_computations, r == seeded_s(**ctx, seed),
    { unimplemented!() }
}
impl Poly<PowerBasis> {
    /// the scalar product &BigUint * &Poly (its contract: polyops.v)
    #[verifier::external_body]
    pub fn vscale(&self, g: &BigUint) -> (r: Self)
        requires self.wf(),
        ensures r.wf(), r.ctx == self.ctx, r.vt() == self.vt(), forall|i: int| 0 <= i < r.n() ==> rscale((#[trigger] r.rows()[i])@, self.rows()[i]@, g.v() as int, r.p(i)),
    { unimplemented!() }
}
/// (k0, k1) encrypts z under the key s
#[verifier::opaque]
pub open spec fn keyed(k0: &Poly<NttShoup>, k1: &Poly<NttShoup>, s: Seq<int>, z: Seq<int>) -> bool {
    &&& k0.wf() && k1.wf() && same(&*k0.ctx, &*k1.ctx) && s.len() == k0.d() && z.len() == k0.d()
    &&& forall|i: int, j: int| 0 <= i < k0.n() && 0 <= j < k0.d() ==> eqm(#[trigger] ent(k0, i, j) + ent(k1, i, j) * eval(s, pt(&*k0.ctx, i, j)), eval(z, pt(&*k0.ctx, i, j)), k0.p(i))
}
/// ... of g f, up to a small error
pub open spec fn row_key(k0: &Poly<NttShoup>, k1: &Poly<NttShoup>, s: Seq<int>, g: int, f: Seq<int>, b: int) -> bool {
    exists|e: Seq<int>| smallx(e, b) && e.len() == f.len() && #[trigger] keyed(k0, k1, s, comb(1, e, g, f))
}
/// one row of the key: k0 = e - a s + g f
pub proof fn lemma_row_key(k0: &Poly<NttShoup>, k1: &Poly<NttShoup>, a: &Poly<Ntt>, sp: &Poly<Ntt>, ab: &Poly<PowerBasis>, e: &Poly<PowerBasis>, gf: &Poly<PowerBasis>, f: &Poly<PowerBasis>, s: Seq<int>, x: Seq<int>, g: int, b: int)
    requires k0.wf(), k1.wf(), a.wf(), sp.like(a), ab.wf(), e.wf(), f.wf(), gf.wf(), sameval(a, k1), ab.ctx == a.ctx, e.ctx == a.ctx, same(&*f.ctx, &*a.ctx), gf.ctx == f.ctx, sp.isx(s), f.coefs(x),
        fwd_of(ab, &pmul(*a, *sp)), exists|y: Seq<int>| smallx(y, b) && #[trigger] e.isv(y),
        forall|i: int| 0 <= i < gf.n() ==> rscale((#[trigger] gf.rows()[i])@, f.rows()[i]@, g, gf.p(i)),
        fwd_of(&padd(psub(*e, *ab), *gf), k0),
    ensures row_key(k0, k1, s, g, x, b),
{
    let y = choose|y: Seq<int>| smallx(y, b) && #[trigger] e.isv(y);
    let z = comb(1, y, g, x); let c = &*k0.ctx;
    let (u, m) = (psub(*e, *ab), pmul(*a, *sp));
    assert(e.like(ab) && u.like(gf));
    let w = padd(u, *gf);
    assert(k0.ctx == a.ctx);
    lemma_like(sp, a);
    assert forall|i: int, j: int| 0 <= i < k0.n() && 0 <= j < k0.d() implies eqm(#[trigger] ent(k0, i, j) + ent(k1, i, j) * eval(s, pt(c, i, j)), eval(z, pt(c, i, j)), k0.p(i)) by {
        let p = k0.p(i); let o = k0.ctx.ops@[i]; let q = pt(c, i, j);
        assert(k0.ctx.wf_i(i)); assert(f.ctx.wf_i(i)); assert(sp.ctx.wf_i(i)); assert(p > 1 && f.p(i) == p && gf.p(i) == p);
        let (ew, aw, gw, fw, ww, uw) = (e.rows()[i]@, ab.rows()[i]@, gf.rows()[i]@, f.rows()[i]@, w.rows()[i]@, u.rows()[i]@);
        assert(rsub(uw, ew, aw, p)); assert(radd(ww, uw, gw, p)); assert(rscale(gw, fw, g, p));
        // the row of w is y - aw + g x
        let t = comb(1, y, -1, vals(aw)); let v = comb(1, t, g, x);
        assert forall|k: int| 0 <= k < vals(ww).len() implies eqm(#[trigger] vals(ww)[k], v[k], p) by {
            assert(e.is_int(k, y[k])); assert(f.is_int(k, x[k]));
            let (e1, a1, g1, f1, w1, u1) = (ew[k] as int, aw[k] as int, gw[k] as int, fw[k] as int, ww[k] as int, uw[k] as int);
            assert(e1 == y[k] % p && f1 == x[k] % p && u1 == (e1 - a1) % p && w1 == (u1 + g1) % p && g1 == (f1 * (g % p)) % p);
            lemma_row_arith(y[k], a1, g, x[k], e1, f1, u1, g1, w1, p);
            assert(v[k] == 1 * (1 * y[k] + (-1) * a1) + g * x[k]);
        }
        assert(o.is_fwd(k0.rows()[i]@, vals(ww)));
        o.lemma_fwd_cong(k0.rows()[i]@, vals(ww), v);
        assert(eqm(k0.rows()[i]@[j] as int, eval(v, o.point(j)), p));
        // a s
        assert(m.ctx.ops@[i].is_fwd(m.rows()[i]@, vals(aw)));
        assert(eqm(m.rows()[i]@[j] as int, eval(vals(aw), o.point(j)), p));
        assert(sp.ctx.ops@[i].is_fwd(sp.rows()[i]@, s));
        lemma_same_ops(&*a.ctx, &*sp.ctx, i, sp.rows()[i]@, s);
        assert(eqm(sp.rows()[i]@[j] as int, eval(s, o.point(j)), p));
        lemma_entry_add(*a, *sp, i, j);
        lemma_rem_comb(y, vals(aw), 1, -1, q, y.len());
        lemma_rem_comb(t, x, 1, g, q, y.len());
        lemma_rem_comb(y, x, 1, g, q, y.len());
        lemma_row_arith2(ent(k0, i, j), ent(k1, i, j), ent(sp, i, j), ent(&m, i, j), eval(s, q), eval(vals(aw), q), eval(y, q), eval(x, q), g, p);
    }
    reveal(keyed);
    assert(keyed(k0, k1, s, comb(1, y, g, x)));
}
proof fn lemma_row_arith(y: int, a: int, g: int, x: int, e1: int, f1: int, u1: int, g1: int, w1: int, p: int)
    requires p > 1, e1 == y % p, f1 == x % p, u1 == (e1 - a) % p, w1 == (u1 + g1) % p, g1 == (f1 * (g % p)) % p,
    ensures eqm(w1, 1 * (1 * y + (-1) * a) + g * x, p),
{
    eqm_self(y, p); eqm_self(x, p); eqm_self(e1 - a, p); eqm_self(u1 + g1, p); eqm_self(f1 * (g % p), p); eqm_self(g, p);
    eqm_refl(-a, p); eqm_add(e1, y, -a, -a, p);
    eqm_trans(u1, e1 - a, y - a, p);
    eqm_mul(f1, x, g % p, g, p); eqm_trans(g1, f1 * (g % p), x * g, p);
    eqm_add(u1, y - a, g1, x * g, p);
    eqm_trans(w1, u1 + g1, (y - a) + x * g, p);
    assert(1 * (1 * y + (-1) * a) + g * x == (y - a) + x * g) by (nonlinear_arith);
}
proof fn lemma_row_arith2(k: int, a: int, s: int, m: int, es: int, ea: int, ey: int, ex: int, g: int, p: int)
    requires p > 1, eqm(k, 1 * (1 * ey + (-1) * ea) + g * ex, p), eqm(m, ea, p), eqm(s, es, p), eqm(m, s * a, p),
    ensures eqm(k + a * es, 1 * ey + g * ex, p),
{
    eqm_sym(s, es, p); eqm_mulc(es, s, a, p);
    eqm_sym(m, s * a, p); eqm_trans(es * a, s * a, m, p); eqm_trans(es * a, m, ea, p);
    let v = 1 * (1 * ey + (-1) * ea) + g * ex;
    eqm_add(k, v, es * a, ea, p);
    assert(v + ea == 1 * ey + g * ex) by (nonlinear_arith) requires v == 1 * (1 * ey + (-1) * ea) + g * ex;
    assert(es * a == a * es) by (nonlinear_arith);
}
//@ fn crates/fhe/src/bfv/keys/key_switching_key.rs KeySwitchingKey::generate_c1
//@ ret r
//@ subst <ChaCha8Rng as SeedableRng>::Seed::default() => [0u8; 32]
//@ subst ChaCha8Rng::from_seed => VSeeds::from_seed
//@ subst let mut c1 = => let mut c1: Vec<Poly<NttShoup>> =
//@ sig
    fn generate_c1(ctx: &Arc<Context>, seed: [u8; 32], size: usize) -> (r: Vec<Poly<NttShoup>>)
//@ spec
    requires ctx.wf(),
    ensures r@.len() == size, forall|l: int| 0 <= l < size ==> (#[trigger] r@[l]).wf() && r@[l].ctx == *ctx && r@[l].vt() && sameval(&r@[l], &seeded_s(**ctx, seed_at(seed, l))),
//@ loop 0
    invariant
        ctx.wf(), n_0 == size, c1@.len() == i_0, rng.s == seed, rng.n@ == i_0,
        forall|l: int| 0 <= l < i_0 ==> (#[trigger] c1@[l]).wf() && c1@[l].ctx == *ctx && c1@[l].vt() && sameval(&c1@[l], &seeded_s(**ctx, seed_at(seed, l))),
//@ end
pub open spec fn b0(sk: &SecretKey) -> int { 2 * sk.par.variance as int }
/// shifts are products with powers of two
pub proof fn lemma_pow2_shift(k: nat)
    requires k < 64,
    ensures (1u64 << (k as u64)) as int == pow2(k),
{
    lemma_pow2_strictly_increases(k, 64); lemma2_to64();
    vstd::bits::lemma_u64_shl_is_mul(1, k as u64);
}
/// g is the Garner basis of the moduli: 1 modulo one, 0 modulo the others
pub open spec fn gadget(g: Seq<int>, m: Seq<u64>) -> bool { g.len() == m.len() && forall|l: int, j: int| 0 <= l < m.len() && 0 <= j < m.len() ==> #[trigger] g[l] % (#[trigger] m[j] as int) == (if l == j { 1int } else { 0int }) }
/// the key rows encrypt g_l f
pub open spec fn keys_for(k0: Seq<Poly<NttShoup>>, k1: Seq<Poly<NttShoup>>, s: Seq<int>, g: Seq<int>, f: Seq<int>, b: int) -> bool {
    k0.len() == k1.len() && g.len() >= k0.len() && forall|l: int| 0 <= l < k0.len() ==> row_key(#[trigger] &k0[l], &k1[l], s, g[l], f, b)
}
pub open spec fn powers(b: int, n: int) -> Seq<int> { Seq::new(n as nat, |l: int| pow2((b * l) as nat) as int) }
pub open spec fn gar(c: &RnsContext) -> Seq<int> { Seq::new(c.garner@.len(), |l: int| c.garner@[l].v() as int) }
pub open spec fn halves_in(c: Seq<Poly<NttShoup>>, x: &Arc<Context>) -> bool { forall|l: int| 0 <= l < c.len() ==> (#[trigger] c[l]).wf() && c[l].ctx == *x }
pub open spec fn done_rows(k0: Seq<Poly<NttShoup>>, k1: Seq<Poly<NttShoup>>, x: &Arc<Context>, from: &Poly<PowerBasis>, s: Seq<int>, g: Seq<int>, b: int) -> bool {
    forall|l: int| 0 <= l < k0.len() ==> (#[trigger] k0[l]).wf() && k0[l].ctx == *x && k0[l].vt() && forall|f: Seq<int>| #[trigger] from.coefs(f) ==> row_key(&k0[l], &k1[l], s, g[l], f, b)
}
// ---- generated by tools/mkksk.py
//@ fn crates/fhe/src/bfv/keys/key_switching_key.rs KeySwitchingKey::generate_c0
//@ ret r
//@ subst sk.coeffs.as_ref() => &*sk.coeffs
//@ subst gi * from => from.vscale(gi)
//@ subst a_s *= &s; => proof { ap = a_s; } a_s *= &s; proof { assert(a_s == pmul(ap, s)); mp = a_s; }
//@ subst b -= &a_s_pb; => proof { ep = b; bp = a_s_pb; } b -= &a_s_pb;
//@ subst b += &g_i_from; => proof { fp = g_i_from; } b += &g_i_from; proof { wp = b; }
//@ sig
    fn generate_c0(sk: &SecretKey, from: &Poly<PowerBasis>, c1: &[Poly<NttShoup>], rng: &mut VRng) -> (r: Result<Vec<Poly<NttShoup>>>)
//@ spec
    requires sk.wf(), from.wf(), sk.par.wf(), c1@.len() <= sk.par.lv(),
        c1@.len() > 0 ==> same(&*from.ctx, &*c1@[0].ctx) && halves_in(c1@, &c1@[0].ctx) && c1@[0].d() == sk.par.deg(),
    ensures r is Ok <==> c1@.len() > 0 && 1 <= sk.par.variance <= 32,
        r matches Ok(v) ==> v@.len() == c1@.len() && halves_in(v@, &c1@[0].ctx) && (forall|l: int| 0 <= l < v@.len() ==> (#[trigger] v@[l]).vt())
            && exists|g: Seq<int>| #[trigger] gadget(g, sk.par.moduli@.take(c1@.len() as int)) && forall|f: Seq<int>| #[trigger] from.coefs(f) ==> keys_for(v@, c1@, sk.s(), g, f, b0(sk)),
//@ start
    let ghost bb = 2 * sk.par.variance as int;
    let ghost mut ap: Poly<Ntt> = arbitrary();
    let ghost mut mp: Poly<Ntt> = arbitrary();
    let ghost mut ep: Poly<PowerBasis> = arbitrary();
    let ghost mut bp: Poly<PowerBasis> = arbitrary();
    let ghost mut fp: Poly<PowerBasis> = arbitrary();
    let ghost mut wp: Poly<PowerBasis> = arbitrary();
    broadcast use lemma_fwd_auto;
    let ghost mut g0: Seq<int> = arbitrary();
    proof { if c1@.len() > 0 { let l = sk.par.lv() - c1@.len(); assert(sk.par.wf_l(l)); } }
//@ after-let s
    proof { assert(pad(sk.s(), s.d()) =~= sk.s()); assert(s.isx(sk.s())); }
//@ after-let rns
    proof {
        g0 = gar(&rns);
        assert forall|l: int, j: int| 0 <= l < rns.n() && 0 <= j < rns.n() implies #[trigger] g0[l] % (#[trigger] rns.moduli_u64@[j] as int) == (if l == j { 1int } else { 0int }) by { lemma_garner(&rns, l, j); }
        assert(rns.moduli_u64@ =~= sk.par.moduli@.take(c1@.len() as int));
    }
//@ loop 0
    invariant
        n_0 == c1@.len(), out_0@.len() == i_0, s.wf(), s.ctx == c1@[0].ctx, s.isx(sk.s()), g0.len() >= n_0, rns.wf(), g0 == gar(&rns), rns.n() == n_0,
        done_rows(out_0@, c1@, &c1@[0].ctx, from, sk.s(), g0, bb),
        i_0 > 0 ==> 1 <= sk.par.variance <= 32,
//@ loop-start 0
    proof { let _ = c1@[i_0 as int];  }
//@ loop-end 0
    proof {
        let (k0, k1) = (v_item, c1@[i_0 as int]);
        assert forall|f: Seq<int>| #[trigger] from.coefs(f) implies row_key(&k0, &k1, sk.s(), g0[i_0 as int], f, bb) by {
            lemma_row_key(&k0, &k1, &ap, &s, &bp, &ep, &fp, from, sk.s(), f, g0[i_0 as int], bb);
        }
    }
//@ ret-hint
    proof {
        if r_ is Ok {
            let v = r_->Ok_0@;
            assert(done_rows(v, c1@, &c1@[0].ctx, from, sk.s(), g0, bb));
            assert(gadget(g0, sk.par.moduli@.take(c1@.len() as int)));
            assert forall|f: Seq<int>| #[trigger] from.coefs(f) implies keys_for(v, c1@, sk.s(), g0, f, b0(sk)) by {
                assert forall|l: int| 0 <= l < v.len() implies row_key(#[trigger] &v[l], &c1@[l], sk.s(), g0[l], f, bb) by {}
            }
        }
    }
//@ end
//@ fn crates/fhe/src/bfv/keys/key_switching_key.rs KeySwitchingKey::generate_c0_decomposition
//@ ret r
//@ subst sk.coeffs.as_ref() => &*sk.coeffs
//@ subst from * &power => from.vscale(&power)
//@ subst a_s *= &s; => proof { ap = a_s; } a_s *= &s; proof { assert(a_s == pmul(ap, s)); mp = a_s; }
//@ subst b -= &a_s_pb; => proof { ep = b; bp = a_s_pb; } b -= &a_s_pb;
//@ subst b += &(from.vscale(&power)); => let v_gf = from.vscale(&power); proof { fp = v_gf; } b += &v_gf; proof { wp = b; }
//@ sig
    fn generate_c0_decomposition(sk: &SecretKey, from: &Poly<PowerBasis>, c1: &[Poly<NttShoup>], rng: &mut VRng, log_base: usize) -> (r: Result<Vec<Poly<NttShoup>>>)
//@ spec
    requires sk.wf(), from.wf(), c1@.len() > 0 ==> log_base * (c1@.len() - 1) < 64,
        c1@.len() > 0 ==> same(&*from.ctx, &*c1@[0].ctx) && halves_in(c1@, &c1@[0].ctx) && c1@[0].d() == sk.par.deg(),
    ensures r is Ok <==> c1@.len() > 0 && 1 <= sk.par.variance <= 32,
        r matches Ok(v) ==> v@.len() == c1@.len() && halves_in(v@, &c1@[0].ctx) && (forall|l: int| 0 <= l < v@.len() ==> (#[trigger] v@[l]).vt())
            && forall|f: Seq<int>| #[trigger] from.coefs(f) ==> keys_for(v@, c1@, sk.s(), powers(log_base as int, v@.len() as int), f, b0(sk)),
//@ start
    let ghost bb = 2 * sk.par.variance as int;
    let ghost mut ap: Poly<Ntt> = arbitrary();
    let ghost mut mp: Poly<Ntt> = arbitrary();
    let ghost mut ep: Poly<PowerBasis> = arbitrary();
    let ghost mut bp: Poly<PowerBasis> = arbitrary();
    let ghost mut fp: Poly<PowerBasis> = arbitrary();
    let ghost mut wp: Poly<PowerBasis> = arbitrary();
    broadcast use lemma_fwd_auto;
    let ghost g0 = powers(log_base as int, c1@.len() as int);
//@ after-let s
    proof { assert(pad(sk.s(), s.d()) =~= sk.s()); assert(s.isx(sk.s())); }
//@ loop 0
    invariant
        n_0 == c1@.len(), out_0@.len() == i_0, s.wf(), s.ctx == c1@[0].ctx, s.isx(sk.s()), g0.len() >= n_0, 
        done_rows(out_0@, c1@, &c1@[0].ctx, from, sk.s(), g0, bb),
        i_0 > 0 ==> 1 <= sk.par.variance <= 32,
//@ loop-start 0
    proof { let _ = c1@[i_0 as int]; assert(i_0 * log_base <= log_base * (c1@.len() - 1)) by (nonlinear_arith) requires i_0 <= c1@.len() - 1, log_base >= 0; assert(log_base * i_0 == i_0 * log_base) by (nonlinear_arith); lemma_pow2_shift((i_0 * log_base) as nat); }
//@ loop-end 0
    proof {
        let (k0, k1) = (v_item, c1@[i_0 as int]);
        assert forall|f: Seq<int>| #[trigger] from.coefs(f) implies row_key(&k0, &k1, sk.s(), g0[i_0 as int], f, bb) by {
            lemma_row_key(&k0, &k1, &ap, &s, &bp, &ep, &fp, from, sk.s(), f, g0[i_0 as int], bb);
        }
    }
//@ ret-hint
    proof {
        if r_ is Ok {
            let v = r_->Ok_0@;
            assert(done_rows(v, c1@, &c1@[0].ctx, from, sk.s(), g0, bb));
            assert forall|f: Seq<int>| #[trigger] from.coefs(f) implies keys_for(v, c1@, sk.s(), g0, f, b0(sk)) by {
                assert forall|l: int| 0 <= l < v.len() implies row_key(#[trigger] &v[l], &c1@[l], sk.s(), g0[l], f, bb) by {}
            }
        }
    }
//@ end
// ---- end of the generated part
proof fn lemma_p17(p: int, d: int)
    requires p > 1, d >= 8, p % (2 * d) == 1,
    ensures p >= 17,
{
    let m = 2 * d;
    if p < 17 {
        if p < m { lemma_small_mod(p as nat, m as nat); assert(p % m == p); }
        assert(p == 16 && m == 16);
        assert(16int % 16 == 0);
        assert(p % m == 0);
    }
}
/// moduli have at least four bits
pub proof fn lemma_log(p: int, r: u64, l: int)
    requires 17 <= p < 0x4000_0000_0000_0000, 0 <= l < 64, p <= r < 2 * p, exists|k: nat| k < 64 && r == #[trigger] pow2(k), pow2(l as nat) <= r < pow2((l + 1) as nat),
    ensures 4 <= l <= 62,
{
    lemma2_to64();
    if l < 4 { if l + 1 < 4 { lemma_pow2_strictly_increases((l + 1) as nat, 4); } }
    if l == 63 { lemma2_to64_rest(); assert(pow2(63) == 0x8000_0000_0000_0000); }
}
impl KeySwitchingKey {
    /// (c0, c1) switch the polynomial f to the key s
    pub open spec fn switches(&self, s: Seq<int>, f: Seq<int>, b: int) -> bool {
        if self.log_base == 0 { exists|g: Seq<int>| #[trigger] gadget(g, self.ctx_ciphertext.moduli@) && keys_for(self.c0@, self.c1@, s, g, f, b) }
        else { keys_for(self.c0@, self.c1@, s, powers(self.log_base as int, self.c0@.len() as int), f, b) }
    }
}
//@ fn crates/fhe/src/bfv/keys/key_switching_key.rs KeySwitchingKey::new
//@ ret r

//@ subst modulus.next_power_of_two().ilog2() as usize => { let v_r = modulus.next_power_of_two(); proof { rp = v_r; } v_r.ilog2() as usize }
//@ subst *from.ctx() == ctx_ksk => **from.ctx() == *ctx_ksk
//@ subst <ChaCha8Rng as SeedableRng>::Seed::default() => [0u8; 32]
//@ subst rng.fill(&mut seed) => vfill_rng(&mut seed, rng)
//@ sig
    pub fn new(sk: &SecretKey, from: &Poly<PowerBasis>, ciphertext_level: usize, ksk_level: usize, rng: &mut VRng) -> (r: Result<Self>)
//@ spec
    requires sk.wf(), from.wf(), ksk_level == sk.par.lv() - 1 ==> ciphertext_level >= sk.par.lv() - 1,
    ensures r is Ok <==> ksk_level < sk.par.lv() && ciphertext_level < sk.par.lv() && same(&*from.ctx, &sk.par.ctx(ksk_level as int)) && 1 <= sk.par.variance <= 32,
        r matches Ok(k) ==> k.wf() && k.par == sk.par && k.ksk_level == ksk_level && k.ciphertext_level == ciphertext_level && k.seed is Some && (k.log_base != 0 <==> k.ctx_ksk.n() == 1)
            && (forall|l: int| 0 <= l < k.c1@.len() ==> sameval(#[trigger] &k.c1@[l], &seeded_s(*k.ctx_ksk, seed_at(k.seed->0, l))))
            && forall|f: Seq<int>| #[trigger] from.coefs(f) ==> k.switches(sk.s(), f, b0(sk)),
//@ start
    let ghost mut rp: u64 = 0;
    proof { if ksk_level < sk.par.lv() { assert(sk.par.wf_l(ksk_level as int)); assert(sk.par.ctx(ksk_level as int).wf_i(0)); } if ciphertext_level < sk.par.lv() { assert(sk.par.wf_l(ciphertext_level as int)); } }
//@ after-let log_base
    proof {
        let p = ctx_ksk.p(0); assert(*modulus == p); let c: Context = *ctx_ksk; assert(c.wf_i(0)); lemma_p17(p, c.d() as int);
        lemma_log(p, rp, log_modulus as int); lemma_clog2(p, rp, log_modulus as int);
        let (k, h) = (log_modulus as int, log_base as int);
        let n = (k + h - 1) / h;
        assert(h * (n - 1) < 64) by (nonlinear_arith) requires n == (k + h - 1) / h, h >= 1, k < 64;
        assert(n >= 1) by (nonlinear_arith) requires n == (k + h - 1) / h, h >= 1, k >= 1;
    }
//@ after-let c0
    proof { assert(halves_ok(c0@, &*ctx_ksk)) by { let x = c1@[0].ctx; assert(halves_in(c0@, &x)); } assert(halves_ok(c1@, &*ctx_ksk)); }
//@ ret-hint
    proof {
        if r_ is Ok {
            let k = r_->Ok_0;
            assert(sk.par.moduli@.take(k.ctx_ciphertext.n()) =~= k.ctx_ciphertext.moduli@);
            if k.log_base != 0 { assert(k.ctx_ciphertext.n() == 1); assert(k.ctx_ciphertext.p(0) == sk.par.moduli@[0]); assert(k.ctx_ksk.p(0) == sk.par.moduli@[0]); }
        }
    }
//@ end
