//@ import linop
// ---------------------------------------------------------------------------
// fhe/src/bfv/keys/key_switching_key.rs
// ---------------------------------------------------------------------------
use vstd::arithmetic::div_mod::*;
use vstd::arithmetic::mul::*;
use std::sync::Arc;
use std::marker::PhantomData;
use crate::poly::fhe_traits::*;
use crate::modk::*;
use crate::nttm::*;
use crate::ringmul::*;
use crate::rns::*;
use vstd::arithmetic::power2::*;
broadcast use group_poly;
//@ fn crates/fhe-math/src/rq/mod.rs Poly<Ntt>::create_constant_ntt_polynomial_with_lazy_coefficients_and_variable_time
//@ ret r
//@ subst lazy_reduce_vec(coefficients.rows[i_0].as_mut_slice()); => lazy_reduce_vec(coefficients.rows[i_0].as_mut_slice()); proof { red = coefficients.rows[i_0 as int]@; }
//@ spec
    requires ctx.wf(), power_basis_coefficients@.len() == ctx.d(),
    ensures r.wfl(), r.ctx == *ctx, r.allow_variable_time_computations, r.isx(vals(power_basis_coefficients@)),
//@ loop 0
    invariant
        ctx.wf(), n_0 == ctx.n(), dims(coefficients.rows@, ctx.n(), ctx.d()), power_basis_coefficients@.len() == ctx.d(),
        forall|i: int| 0 <= i < i_0 ==> ctx.ops@[i].is_fwd((#[trigger] coefficients.rows@[i])@, vals(power_basis_coefficients@)),
//@ loop-start 0
    let ghost mut red: Seq<u64> = Seq::empty(); let ghost pre = coefficients.rows@;
    proof { let i = i_0 as int; assert(ctx.wf_i(i)); }
//@ loop-end 0
    proof {
        let c = power_basis_coefficients@; let o = ctx.ops@[i_0 as int]; let p = o.p.p as int;
        assert forall|k: int| 0 <= k < vals(red).len() implies eqm(#[trigger] vals(red)[k], vals(c)[k], p) by { reveal(eqm); assert(red[k] as int % p == c[k] as int % p); }
        o.lemma_fwd_cong(coefficients.rows@[i_0 as int]@, vals(red), vals(c));
        assert forall|i: int| 0 <= i < i_0 implies ctx.ops@[i].is_fwd((#[trigger] coefficients.rows@[i])@, vals(c)) by { assert(coefficients.rows@[i] == pre[i]); }
    }
//@ end
/// products with a lazily reduced left operand (what they return is proved in polyops.v)
pub uninterp spec fn pmulz(a: Poly<Ntt>, b: Poly<NttShoup>) -> Poly<Ntt>;
pub axiom fn axiom_pmulz(a: Poly<Ntt>, b: Poly<NttShoup>)
    requires a.wfl(), b.wf(), same(&*a.ctx, &*b.ctx),
    ensures pmulz(a, b).wf(), pmulz(a, b).ctx == a.ctx, pmulz(a, b).vt() == (a.vt() && b.vt()),
        forall|i: int| 0 <= i < a.n() ==> rmul((#[trigger] pmulz(a, b).rows()[i])@, a.rows()[i]@, b.rows()[i]@, a.p(i));
impl Poly<Ntt> {
    #[verifier::external_body]
    pub fn vmulz(&self, n: &Poly<NttShoup>) -> (r: Poly<Ntt>)
        requires self.wfl(), n.wf(), same(&*self.ctx, &*n.ctx),
        ensures r == pmulz(*self, *n), r.wf(), r.ctx == self.ctx, r.vt() == (self.vt() && n.vt()),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vmulz_assign(&mut self, n: &Poly<NttShoup>)
        requires old(self).wfl(), n.wf(), same(&*old(self).ctx, &*n.ctx),
        ensures *final(self) == pmulz(*old(self), *n), final(self).wf(), final(self).ctx == old(self).ctx, final(self).vt() == (old(self).vt() && n.vt()),
    { unimplemented!() }
}
//@ struct crates/fhe/src/bfv/keys/key_switching_key.rs KeySwitchingKey <ChaCha8RngasSeedableRng>::Seed=>[u8;32]
pub open spec fn halves_ok(c: Seq<Poly<NttShoup>>, x: &Context) -> bool { forall|l: int| 0 <= l < c.len() ==> (#[trigger] c[l]).wf() && same(&*c[l].ctx, x) }
impl KeySwitchingKey {
    /// invariant of every key built by the library
    pub open spec fn wf(&self) -> bool {
        &&& self.par.wf() && self.ksk_level < self.par.lv() && self.ciphertext_level < self.par.lv()
        &&& same(&*self.ctx_ksk, &self.par.ctx(self.ksk_level as int)) && same(&*self.ctx_ciphertext, &self.par.ctx(self.ciphertext_level as int))
        &&& self.ctx_ksk.wf() && self.ctx_ciphertext.wf()
        &&& halves_ok(self.c0@, &*self.ctx_ksk) && halves_ok(self.c1@, &*self.ctx_ksk) && self.c0@.len() == self.c1@.len()
        &&& self.log_base == 0 ==> self.c0@.len() == self.ctx_ciphertext.n()
        &&& self.log_base < 64
        &&& self.log_base != 0 ==> self.ctx_ciphertext.n() == 1 && self.c0@.len() == (clog2(self.ctx_ciphertext.p(0)) + self.log_base - 1) / (self.log_base as int)
    }
}
/// the number of bits of the next power of two
pub open spec fn clog2(p: int) -> int { choose|k: int| 0 <= k < 64 && #[trigger] pow2(k as nat) >= p && (k > 0 ==> pow2((k - 1) as nat) < p) }
pub proof fn lemma_clog2(p: int, r: u64, l: int)
    requires 1 < p <= 0x8000_0000_0000_0000, 0 <= l < 64, p <= r, r < 2 * p, exists|k: nat| k < 64 && r == #[trigger] pow2(k), pow2(l as nat) <= r < pow2((l + 1) as nat),
    ensures clog2(p) == l, r == pow2(l as nat), l >= 1,
{
    let k = choose|k: nat| k < 64 && r == #[trigger] pow2(k);
    if k < l { lemma_pow2_strictly_increases(k, l as nat); }
    if l < k { if l + 1 < k { lemma_pow2_strictly_increases((l + 1) as nat, k); } }
    lemma2_to64();
    if l > 0 { lemma_pow2_unfold(l as nat); }
    let m = clog2(p);
    assert(pow2(l as nat) >= p);
    assert(0 <= m < 64 && pow2(m as nat) >= p && (m > 0 ==> pow2((m - 1) as nat) < p));
    if m < l { if m + 1 < l { lemma_pow2_strictly_increases(m as nat, (l - 1) as nat); } }
    if l < m { if l < m - 1 { lemma_pow2_strictly_increases(l as nat, (m - 1) as nat); } }
}
/// it exists
pub proof fn lemma_clog2_ex(p: int)
    requires 1 <= p <= 0x8000_0000_0000_0000,
    ensures 0 <= clog2(p) < 64, pow2(clog2(p) as nat) >= p, clog2(p) > 0 ==> pow2((clog2(p) - 1) as nat) < p,
{
    lemma2_to64(); lemma2_to64_rest();
    lemma_clog2_down(p, 63);
}
proof fn lemma_clog2_down(p: int, k: int)
    requires p >= 1, 0 <= k < 64, pow2(k as nat) >= p,
    ensures exists|m: int| 0 <= m < 64 && #[trigger] pow2(m as nat) >= p && (m > 0 ==> pow2((m - 1) as nat) < p),
    decreases k,
{ if k > 0 { if pow2((k - 1) as nat) >= p { lemma_clog2_down(p, k - 1); } } }
/// u64::next_power_of_two
pub assume_specification [u64::next_power_of_two] (a: u64) -> (r: u64)
    requires a <= 0x8000_0000_0000_0000,
    ensures exists|k: nat| k < 64 && r == #[trigger] pow2(k), r >= a, r > 1 ==> r < 2 * a, r >= 1;
pub assume_specification [u64::ilog2] (a: u64) -> (r: u32)
    requires a > 0,
    ensures r < 64, pow2(r as nat) <= a < pow2((r + 1) as nat);
// ---------------------------------------------------------------------------
/// the point of entry j modulo modulus i
pub open spec fn pt(c: &Context, i: int, j: int) -> int { c.ops@[i].point(j) }
/// sum over l < k of d_l f_l at one entry
pub open spec fn dots(d: Seq<Poly<Ntt>>, f: Seq<Poly<NttShoup>>, i: int, j: int, k: nat) -> int
    decreases k,
{ if k == 0 { 0 } else { dots(d, f, i, j, (k - 1) as nat) + ent(&d[k - 1], i, j) * ent(&f[k - 1], i, j) } }
/// a is the sum of the first k products
#[verifier::opaque]
pub open spec fn is_dots(a: &Poly<Ntt>, d: Seq<Poly<Ntt>>, f: Seq<Poly<NttShoup>>, k: nat) -> bool {
    forall|i: int, j: int| 0 <= i < a.n() && 0 <= j < a.d() ==> eqm(#[trigger] ent(a, i, j), dots(d, f, i, j, k), a.p(i))
}
/// d are the digits g, lifted to the context c
pub open spec fn lifted(d: Seq<Poly<Ntt>>, g: Seq<Seq<int>>, c: &Context) -> bool {
    d.len() == g.len() && forall|l: int| 0 <= l < d.len() ==> (#[trigger] d[l]).wfl() && same(&*d[l].ctx, c) && d[l].isx(g[l])
}
pub open spec fn ivrows(p: Seq<Vec<u64>>) -> Seq<Seq<int>> { Seq::new(p.len(), |l: int| vals(p[l]@)) }
pub proof fn lemma_dots_zero(a: &Poly<Ntt>, d: Seq<Poly<Ntt>>, f: Seq<Poly<NttShoup>>)
    requires forall|i: int, j: int| 0 <= i < a.n() && 0 <= j < a.d() ==> a.rows()[i]@[j] == 0, a.wf(),
    ensures is_dots(a, d, f, 0),
{
    assert forall|i: int, j: int| 0 <= i < a.n() && 0 <= j < a.d() implies eqm(#[trigger] ent(a, i, j), dots(d, f, i, j, 0), a.p(i)) by { assert(a.rows()[i]@[j] == 0); eqm_refl(0, a.p(i)); }
    reveal(is_dots);
}
pub proof fn lemma_dots_ext(d: Seq<Poly<Ntt>>, e: Seq<Poly<Ntt>>, f: Seq<Poly<NttShoup>>, i: int, j: int, k: nat)
    requires forall|l: int| 0 <= l < k ==> d[l] == e[l],
    ensures dots(d, f, i, j, k) == dots(e, f, i, j, k),
    decreases k,
{ if k > 0 { lemma_dots_ext(d, e, f, i, j, (k - 1) as nat); assert(d[k - 1] == e[k - 1]); } }
pub proof fn lemma_dots_step(a: Poly<Ntt>, d: Seq<Poly<Ntt>>, x: Poly<Ntt>, f: Seq<Poly<NttShoup>>, k: nat)
    requires a.wf(), x.wfl(), same(&*a.ctx, &*x.ctx), k < f.len(), f[k as int].wf(), same(&*x.ctx, &*f[k as int].ctx), is_dots(&a, d, f, k), d.len() == k,
    ensures is_dots(&padd(a, pmulz(x, f[k as int])), d.push(x), f, k + 1), padd(a, pmulz(x, f[k as int])).wf(), padd(a, pmulz(x, f[k as int])).ctx == a.ctx,
{
    let e = d.push(x); let y = f[k as int]; axiom_pmulz(x, y); let m = pmulz(x, y); let r = padd(a, m);
    assert(a.like(&m)); lemma_like(&a, &m);
    assert forall|i: int, j: int| 0 <= i < r.n() && 0 <= j < r.d() implies eqm(#[trigger] ent(&r, i, j), dots(e, f, i, j, k + 1), r.p(i)) by {
        let p = r.p(i); assert(a.ctx.wf_i(i)); assert(p > 1 && p == a.p(i) && p == m.p(i) && p == x.p(i));
        lemma_dots_ext(d, e, f, i, j, k);
        lemma_entry_add(a, m, i, j);
        assert(rmul(m.rows()[i]@, x.rows()[i]@, y.rows()[i]@, p));
        let z = ent(&x, i, j) * ent(&y, i, j);
        assert(x.rows()[i]@.len() == x.d());
        assert(m.rows()[i]@[j] == z % p);
        eqm_self(z, p);
        let (u, v) = (ent(&a, i, j), dots(d, f, i, j, k));
        assert(eqm(u, v, p)) by { reveal(is_dots); }
        eqm_add(u, v, ent(&m, i, j), z, p);
        assert(1 * u + 1 * ent(&m, i, j) == u + ent(&m, i, j)) by (nonlinear_arith);
        eqm_trans(ent(&r, i, j), u + ent(&m, i, j), v + z, p);
        assert(e[k as int] == x);
    }
    reveal(is_dots);
}
//@ fn crates/fhe/src/bfv/keys/key_switching_key.rs KeySwitchingKey::permits_variable_time_with
//@ ret r
//@ spec
    ensures r ==> p.vt(),
//@ end
//@ fn crates/fhe/src/bfv/keys/key_switching_key.rs KeySwitchingKey::configure_accumulators
//@ spec
    requires old(c0).ctx.wf(), old(c1).ctx.wf(),
    ensures sameval(final(c0), old(c0)), sameval(final(c1), old(c1)), final(c0).has_lazy_coefficients == old(c0).has_lazy_coefficients, final(c1).has_lazy_coefficients == old(c1).has_lazy_coefficients,
        final(c0).coefficients_shoup == old(c0).coefficients_shoup, final(c1).coefficients_shoup == old(c1).coefficients_shoup,
        final(c0).vt() ==> p.vt(), final(c1).vt() ==> p.vt(),
//@ end
impl<R: RepresentationTag> Poly<R> {
    /// a view of the matrix
    pub fn coefficients(&self) -> (r: &Array2<u64>)
        ensures *r == self.coefficients,
    { &self.coefficients }
}
/// (a0, a1) is the inner product of the digits g with the two halves of the key
#[verifier::opaque]
pub open spec fn switched(a0: &Poly<Ntt>, a1: &Poly<Ntt>, k: &KeySwitchingKey, g: Seq<Seq<int>>) -> bool {
    exists|d: Seq<Poly<Ntt>>| #[trigger] lifted(d, g, &*k.ctx_ksk) && is_dots(a0, d, k.c0@, g.len()) && is_dots(a1, d, k.c1@, g.len())
}
pub open spec fn switch_ok(r: Result<(Poly<Ntt>, Poly<Ntt>)>, k: &KeySwitchingKey, p: &Poly<PowerBasis>, g: Seq<Seq<int>>) -> bool {
    &&& r is Ok <==> same(&*p.ctx, &*k.ctx_ciphertext)
    &&& r matches Ok(c) ==> c.0.wf() && c.1.wf() && c.0.ctx == k.ctx_ksk && c.1.ctx == k.ctx_ksk && switched(&c.0, &c.1, k, g)
    // variable-time permission
    &&& r matches Ok(c) ==> (c.0.vt() || c.1.vt() ==> p.vt())
}
/// digit l of x in base 2^b
pub open spec fn dig(x: int, b: int, l: int) -> int { x / (pow2((b * l) as nat) as int) % (pow2(b as nat) as int) }
pub open spec fn digs(x: Seq<int>, b: int, n: int) -> Seq<Seq<int>> { Seq::new(n as nat, |l: int| Seq::new(x.len(), |j: int| dig(x[j], b, l))) }
impl KeySwitchingKey {
    /// the digits this key expects
    pub open spec fn digits(&self, p: &Poly<PowerBasis>) -> Seq<Seq<int>> { if self.log_base == 0 { ivrows(p.rows()) } else { digs(vals(p.rows()[0]@), self.log_base as int, self.c0@.len() as int) } }
}
/// digits
pub proof fn lemma_digit(x: u64, c: u64, b: u64, t: int)
    requires 0 < b < 64, t >= 0, c == x as int / (pow2((b * t) as nat) as int),
    ensures (c & (((1u64 << b) - 1) as u64)) == dig(x as int, b as int, t), (c >> b) == x as int / (pow2((b * (t + 1)) as nat) as int), (1u64 << b) >= 1,
{
    lemma_pow2_strictly_increases(b as nat, 64); lemma2_to64(); lemma2_to64_rest();
    vstd::bits::lemma_u64_shl_is_mul(1, b);
    vstd::bits::lemma_u64_low_bits_mask_is_mod(c, b as nat);
    vstd::bits::lemma_u64_shr_is_div(c, b);
    assert(vstd::bits::low_bits_mask(b as nat) == pow2(b as nat) - 1);
    let (u, v) = ((b * t) as nat, b as nat);
    assert(b * t >= 0) by (nonlinear_arith) requires b > 0, t >= 0;
    assert(b * (t + 1) == u + v) by (nonlinear_arith) requires u == b * t, v == b;
    lemma_pow2_adds(u, v); lemma_pow2_pos(u); lemma_pow2_pos(v);
    lemma_div_denominator(x as int, pow2(u) as int, pow2(v) as int);
}
impl Array2<u64> {
    /// ndarray: the entries in row-major order
    #[verifier::external_body]
    pub fn vflat(&self) -> (r: Vec<u64>)
        ensures self.rows@.len() == 1 ==> r@ == self.rows@[0]@,
    { unimplemented!() }
}
//@ fn crates/fhe/src/bfv/keys/key_switching_key.rs KeySwitchingKey::key_switch_decomposition
//@ ret r
//@ subst p.ctx().as_ref() != self.ctx_ciphertext.as_ref() => **p.ctx() != *self.ctx_ciphertext
//@ subst p.coefficients().to_slice().unwrap().to_vec() => p.coefficients().vflat()
//@ subst let mut c2i = => let mut c2i: Vec<Vec<u64>> =
//@ subst let l_0 = 0; => let l_0: usize = 0;
//@ subst p.ctx().moduli().first().unwrap().next_power_of_two().ilog2() => { let v_r = p.ctx().moduli().first().unwrap().next_power_of_two(); proof { rp = v_r; } v_r.ilog2() }
//@ subst &c2_i * self.c0[i_3] => c2_i.vmulz(&self.c0[i_3])
//@ subst c2_i *= self.c1[i_3]; => c2_i.vmulz_assign(&self.c1[i_3]);
//@ vec 1 u64
//@ attrs
#[verifier::rlimit(80)]
//@ spec
    requires self.wf(), p.wf(), self.log_base != 0,
    ensures switch_ok(r, self, p, self.digits(p)),
//@ start
    let ghost mut rp: u64 = 0;
    let ghost mut ds: Seq<Poly<Ntt>> = Seq::empty();
    let ghost b = self.log_base as int;
    let ghost g = self.digits(p);
    let ghost x0 = p.rows()[0]@;
//@ after-let log_modulus
    proof {
        let q = p.ctx.p(0); assert(p.ctx.wf_i(0)); assert(p.ctx.n() == 1);
        lemma_clog2(q, rp, log_modulus as int);
    }
//@ after-let mask
    proof { lemma_pow2_strictly_increases(b as nat, 64); lemma_pow2_pos(b as nat); }
//@ after-let coefficients
    proof { assert(coefficients@ =~= x0); assert(p.rows().len() == 1); lemma2_to64();
        assert(b * 0 == 0); assert(pow2((b * 0) as nat) == 1);
        let bb = self.log_base as u64; assert((1u64 << bb) >= 1) by (bit_vector) requires bb < 64;
    }
//@ loop 0
    invariant
        c2i@.len() == i_0, coefficients@.len() == x0.len(), n_0 == self.c0@.len(),
        forall|j: int| 0 <= j < x0.len() ==> (#[trigger] coefficients@[j]) == x0[j] as int / (pow2((b * i_0) as nat) as int),
        forall|l: int| 0 <= l < i_0 ==> vals((#[trigger] c2i@[l])@) == g[l],
//@ loop-start 0
    let ghost pre = coefficients@; let ghost prec = c2i@;
    proof { assert forall|j: int| 0 <= j < x0.len() implies ((#[trigger] pre[j]) & mask) == dig(x0[j] as int, b, i_0 as int) && (pre[j] >> (b as u64)) == x0[j] as int / (pow2((b * (i_0 + 1)) as nat) as int) by { lemma_digit(x0[j], pre[j], b as u64, i_0 as int); } }
//@ loop 1
    invariant
        coefficients@ == pre, out_1@.len() == i_1, n_1 == x0.len(),
        forall|j: int| 0 <= j < i_1 ==> #[trigger] out_1@[j] == (pre[j] & mask),
//@ loop 2
    invariant
        n_2 == x0.len(), coefficients@.len() == x0.len(),
        forall|j: int| 0 <= j < i_2 ==> #[trigger] coefficients@[j] == (pre[j] >> (b as u64)), forall|j: int| i_2 <= j < x0.len() ==> coefficients@[j] == pre[j],
//@ loop-start 2
    proof { let _ = pre[i_2 as int]; }
//@ loop-end 0
    proof {
        assert forall|j: int| 0 <= j < x0.len() implies (#[trigger] coefficients@[j]) == x0[j] as int / (pow2((b * (i_0 + 1)) as nat) as int) by { let _ = pre[j]; }
        assert forall|l: int| 0 <= l < i_0 + 1 implies vals((#[trigger] c2i@[l])@) == g[l] by {
            if l < i_0 { assert(c2i@[l] == prec[l]); } else {
                assert forall|j: int| 0 <= j < x0.len() implies vals(c2i@[l]@)[j] == g[l][j] by { let _ = pre[j]; }
                assert(vals(c2i@[l]@) =~= g[l]);
            }
        }
    }
//@ loop-before 3
    proof { assert(self.ctx_ksk.wf_i(0)); lemma_dots_zero(&c0, ds, self.c0@); lemma_dots_zero(&c1, ds, self.c1@); }
//@ loop 3
    invariant
        self.wf(), p.wf(), same(&*p.ctx, &*self.ctx_ciphertext), n_3 == self.c0@.len(), c2i@.len() == n_3, g.len() == n_3, 
        forall|l: int| 0 <= l < n_3 ==> vals((#[trigger] c2i@[l])@) == g[l], forall|l: int| 0 <= l < n_3 ==> (#[trigger] g[l]).len() == p.d(),
        c0.wf(), c1.wf(), c0.ctx == self.ctx_ksk, c1.ctx == self.ctx_ksk, c0.vt() ==> p.vt(), c1.vt() ==> p.vt(),
        ds.len() == i_3, lifted(ds, g.subrange(0, i_3 as int), &*self.ctx_ksk), is_dots(&c0, ds, self.c0@, i_3 as nat), is_dots(&c1, ds, self.c1@, i_3 as nat),
//@ loop-start 3
    let ghost (a0, a1) = (c0, c1);
    let ghost mut x: Poly<Ntt> = arbitrary();
    proof { assert(self.par.wf_l(self.ksk_level as int)); assert(self.par.wf_l(self.ciphertext_level as int)); assert(p.ctx.d() == self.ctx_ksk.d()); let _ = self.c0@[i_3 as int]; let _ = self.c1@[i_3 as int]; assert(vals(c2i@[i_3 as int]@) == g[i_3 as int]); assert(c2i@[i_3 as int]@.len() == vals(c2i@[i_3 as int]@).len()); }
//@ after-let c2_i
    proof { x = c2_i; }
//@ loop-end 3
    proof {
        lemma_dots_step(a0, ds, x, self.c0@, i_3 as nat); lemma_dots_step(a1, ds, x, self.c1@, i_3 as nat);
        let gs = g.subrange(0, i_3 + 1);
        assert forall|l: int| 0 <= l < ds.push(x).len() implies (#[trigger] ds.push(x)[l]).wfl() && same(&*ds.push(x)[l].ctx, &*self.ctx_ksk) && ds.push(x)[l].isx(gs[l]) by { if l < i_3 { assert(ds[l].isx(g.subrange(0, i_3 as int)[l])); } }
        ds = ds.push(x);
    }
//@ loop-after 3
    proof { assert(g.subrange(0, n_3 as int) =~= g); reveal(switched); assert(lifted(ds, g, &*self.ctx_ksk)); }
//@ end
//@ fn crates/fhe/src/bfv/keys/key_switching_key.rs KeySwitchingKey::key_switch
//@ ret r
//@ subst p.ctx().as_ref() != self.ctx_ciphertext.as_ref() => **p.ctx() != *self.ctx_ciphertext
//@ subst &c2_i * self.c0[i_0] => c2_i.vmulz(&self.c0[i_0])
//@ subst c2_i *= self.c1[i_0]; => c2_i.vmulz_assign(&self.c1[i_0]);
//@ spec
    requires self.wf(), p.wf(),
    ensures switch_ok(r, self, p, self.digits(p)),
//@ start
    let ghost mut ds: Seq<Poly<Ntt>> = Seq::empty();
    let ghost g = ivrows(p.rows());
//@ loop-before 0
    proof { assert(self.ctx_ksk.wf_i(0)); lemma_dots_zero(&c0, ds, self.c0@); lemma_dots_zero(&c1, ds, self.c1@); }
//@ loop 0
    invariant
        self.wf(), p.wf(), self.log_base == 0, same(&*p.ctx, &*self.ctx_ciphertext), n_0 == p.n(), n_0 == self.c0@.len(), g == ivrows(p.rows()),
        *p_coefficients == p.coefficients, c0.wf(), c1.wf(), c0.ctx == self.ctx_ksk, c1.ctx == self.ctx_ksk, c0.vt() ==> p.vt(), c1.vt() ==> p.vt(),
        ds.len() == i_0, lifted(ds, g.subrange(0, i_0 as int), &*self.ctx_ksk), is_dots(&c0, ds, self.c0@, i_0 as nat), is_dots(&c1, ds, self.c1@, i_0 as nat),
//@ loop-start 0
    let ghost (a0, a1) = (c0, c1);
    let ghost mut x: Poly<Ntt> = arbitrary();
    proof { assert(self.par.wf_l(self.ksk_level as int)); assert(self.par.wf_l(self.ciphertext_level as int)); assert(p.ctx.d() == self.ctx_ksk.d()); let _ = self.c0@[i_0 as int]; let _ = self.c1@[i_0 as int]; }
//@ after-let c2_i
    proof { x = c2_i; }
//@ loop-end 0
    proof {
        lemma_dots_step(a0, ds, x, self.c0@, i_0 as nat); lemma_dots_step(a1, ds, x, self.c1@, i_0 as nat);
        let gs = g.subrange(0, i_0 + 1);
        assert forall|l: int| 0 <= l < ds.push(x).len() implies (#[trigger] ds.push(x)[l]).wfl() && same(&*ds.push(x)[l].ctx, &*self.ctx_ksk) && ds.push(x)[l].isx(gs[l]) by { if l < i_0 { assert(ds[l].isx(g.subrange(0, i_0 as int)[l])); } }
        ds = ds.push(x);
    }
//@ loop-after 0
    proof { assert(g.subrange(0, n_0 as int) =~= g); reveal(switched); assert(lifted(ds, g, &*self.ctx_ksk)); }
//@ end
