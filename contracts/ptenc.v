//@ import conv
//@ import params
//@ import pt0
//@ import bigi
// ---------------------------------------------------------------------------
// fhe/src/bfv/encoding.rs, plaintext.rs, plaintext_vec.rs : encoding and decoding
// ---------------------------------------------------------------------------
use vstd::arithmetic::div_mod::*;
use vstd::arithmetic::mul::*;
use std::sync::Arc;
use vstd::std_specs::ops::*;
use vstd::std_specs::cmp::*;
use crate::poly::fhe_traits::*;
use crate::ctx::at;
broadcast use group_poly;
//@ struct crates/fhe/src/bfv/plaintext_vec.rs PlaintextVec
pub enum PlaintextCoefficients { Small(Vec<u64>), Large(Vec<BigUint>) }
impl PlaintextCoefficients {
    pub open spec fn cv(&self) -> Seq<int> { match self { PlaintextCoefficients::Small(v) => vals(v@), PlaintextCoefficients::Large(v) => bvals(v@) } }
}
impl PartialEq for EncodingEnum {
    /// derived
    #[verifier::external_body]
    fn eq(&self, o: &Self) -> bool { unimplemented!() }
}
impl PartialEqSpecImpl for EncodingEnum {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o }
}
impl PartialEq for Encoding {
    /// derived
    #[verifier::external_body]
    fn eq(&self, o: &Self) -> bool { unimplemented!() }
}
impl PartialEqSpecImpl for Encoding {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o }
}
impl Clone for Encoding {
    /// derived
    #[verifier::external_body]
    fn clone(&self) -> (r: Self)
        ensures r == *self,
    { unimplemented!() }
}
#[verifier::external]
impl core::fmt::Debug for Error { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { unimplemented!() } }
/// Ord::max
pub fn vmax(a: usize, b: usize) -> (r: usize)
    ensures r == if a <= b { b } else { a },
{ if a <= b { b } else { a } }
/// x[lo..hi].clone_from_slice(y)
#[verifier::external_body]
pub fn vclone(x: &mut [BigUint], lo: usize, hi: usize, y: &[BigUint])
    requires lo <= hi <= old(x)@.len(), y@.len() == hi - lo,
    ensures final(x)@.len() == old(x)@.len(), forall|k: int| 0 <= k < old(x)@.len() ==> #[trigger] final(x)@[k] == if lo <= k < hi { y@[k - lo] } else { old(x)@[k] },
{ unimplemented!() }
/// vec![0; n] of big integers
#[verifier::external_body]
pub fn vbigs(n: usize) -> (r: Vec<BigUint>)
    ensures r@.len() == n, forall|k: int| 0 <= k < n ==> (#[trigger] r@[k]).v() == 0,
{ unimplemented!() }
impl BfvParameters {
    /// the values v, reduced and zero padded
    pub open spec fn padt(&self, v: Seq<int>) -> Seq<int> { Seq::new(self.deg() as nat, |j: int| padx(v, j) % self.t()) }
    /// the polynomial m holds w in its slots
    #[verifier::opaque]
    pub open spec fn slots(&self, b: Seq<u64>, w: Seq<int>, m: Seq<int>) -> bool {
        self.op().is_fwd(b, m) && canon(b, self.t()) && forall|i: int| 0 <= i < self.deg() ==> #[trigger] b[self.slot(i)] == w[i]
    }
    /// residues, read as signed numbers
    pub open spec fn centered(&self, x: Seq<int>) -> Seq<int> { Seq::new(x.len(), |j: int| center_of(x[j], self.t())) }
    /// m is the encoding of w (residues modulo t)
    pub open spec fn encodes(&self, e: EncodingEnum, w: Seq<int>, m: Seq<int>) -> bool {
        self.res(w) && self.res(m) && match e { EncodingEnum::Poly => m == w, EncodingEnum::Simd => exists|b: Seq<u64>| self.slots(b, w, m) }
    }
}
impl Plaintext {
    /// the plaintext holds the values w
    pub open spec fn content(&self, e: EncodingEnum, w: Seq<int>) -> bool { exists|m: Seq<int>| #[trigger] self.par.encodes(e, w, m) && self.poly_ntt.isx(m) }
    /// the encoding to decode with
    pub open spec fn resolves(&self, o: Option<Encoding>) -> Option<Encoding> {
        match (self.encoding, o) { (None, _) => o, (Some(s), Some(p)) => if s == p { Some(s) } else { None }, (Some(s), None) => Some(s) }
    }
    /// decoding succeeds, and returns what v stands for
    pub open spec fn decoded(&self, e: EncodingEnum, v: Seq<int>) -> bool {
        self.par.res(v) && !(e is Simd && !self.par.simd()) && (self.fits() ==> forall|w: Seq<int>| self.content(e, w) ==> v == w)
    }
}
//@ fn crates/fhe/src/bfv/encoding.rs Encoding::poly
//@ ret r
//@ spec
    ensures r.encoding == EncodingEnum::Poly, r.level == 0,
//@ end
//@ fn crates/fhe/src/bfv/encoding.rs Encoding::simd
//@ ret r
//@ spec
    ensures r.encoding == EncodingEnum::Simd, r.level == 0,
//@ end
//@ fn crates/fhe/src/bfv/encoding.rs Encoding::poly_at_level
//@ ret r
//@ spec
    ensures r.encoding == EncodingEnum::Poly, r.level == level,
//@ end
//@ fn crates/fhe/src/bfv/encoding.rs Encoding::simd_at_level
//@ ret r
//@ spec
    ensures r.encoding == EncodingEnum::Simd, r.level == level,
//@ end
//@ fn crates/fhe/src/bfv/parameters.rs BfvParameters::plaintext_big
//@ ret r
//@ spec
    ensures *r == self.plaintext.value,
//@ end
/// a coefficient below the modulus is determined by its residues
pub proof fn lemma_int_unique<R: RepresentationTag>(p: &Poly<R>, j: int, x: int, y: int)
    requires p.wf(), p.is_int(j, x), p.is_int(j, y), 0 <= x < p.ctx.rns.q(), 0 <= y < p.ctx.rns.q(),
    ensures x == y,
{
    assert(p.ctx.wf());
    assert forall|i: int| 0 <= i < p.ctx.rns.n() implies x % #[trigger] p.ctx.rns.m(i) == y % p.ctx.rns.m(i) by {
        assert(p.ctx.rns.m(i) == p.p(i)); assert((p.rows()[i])@[j] as int == x % p.p(i));
    }
    lemma_crt_unique(&*p.ctx.rns, x, y);
}
//@ fn crates/fhe/src/bfv/plaintext.rs Plaintext::coefficients
//@ vec 0 u64
//@ subst Vec::<u64>::try_from( => Poly::<PowerBasis>::to_u64s(
//@ subst Vec::<BigUint>::from( => Poly::<PowerBasis>::to_big(
//@ subst **modulus < => modulus.p <
//@ ret r
//@ spec
    requires self.wf(),
    ensures r is Small <==> self.par.plaintext.small is Some, self.par.res(r.cv()),
        self.fits() ==> forall|m: Seq<int>| self.holds(m) ==> r.cv() == m,
//@ start
    proof { reveal(BfvParameters::wf_pt); }
//@ after-let poly
    proof {
        lemma_ctx_fits(&*poly.ctx);
        let l = self.lvl();
        assert(self.par.wf_l(l)); assert(poly.d() == self.par.deg()); assert(poly.n() >= 1); assert(poly.ctx.wf_i(0));
        assert forall|m: Seq<int>, j: int| self.holds(m) && 0 <= j < self.par.deg() implies poly.is_int(j, #[trigger] m[j]) by { lemma_back_of(&self.poly_ntt, &poly, m); }
        assert forall|m: Seq<int>, j: int| self.holds(m) && 0 <= j < self.par.deg() && self.par.t() < poly.p(0) implies poly.rows()[0]@[j] == #[trigger] m[j] by { assert(poly.is_int(j, m[j])); lemma_small_mod(m[j] as nat, poly.p(0) as nat); }
        assert forall|m: Seq<int>, x: int, j: int| self.holds(m) && 0 <= j < self.par.deg() && self.fits() && #[trigger] poly.is_int(j, x) && 0 <= x < poly.ctx.rns.q() implies x == #[trigger] m[j] by { lemma_int_unique(&poly, j, x, m[j]); }
    }
//@ after-let coefficients
    proof {
        assert(poly.n() * poly.d() >= poly.d()) by (nonlinear_arith) requires poly.n() >= 1, poly.d() >= 0;
        assert forall|j: int| 0 <= j < self.par.deg() implies #[trigger] coefficients@[j] == poly.rows()[0]@[j] by { assert(coefficients@[0 * poly.d() + j] == poly.rows()[0]@[j]); }
    }
//@ loop 0
    invariant
        n_0 == self.par.deg(), values@.len() == n_0, out_0@.len() == i_0, self.par.plaintext.small is Some,
        forall|k: int| 0 <= k < n_0 ==> 0 <= (#[trigger] values@[k]).v() < self.par.t(),
        forall|k: int| 0 <= k < i_0 ==> #[trigger] out_0@[k] == values@[k].v(),
//@ ret-hint
    proof {
        let v = r_.cv();
        assert(v.len() == self.par.deg());
        assert forall|j: int| 0 <= j < v.len() implies 0 <= #[trigger] v[j] < self.par.t() by {}
        if self.fits() { assert forall|m: Seq<int>| self.holds(m) implies v == m by {
            assert forall|j: int| 0 <= j < v.len() implies v[j] == m[j] by { lemma_small_mod(m[j] as nat, self.par.t() as nat); }
            assert(v =~= m);
        } }
    }
//@ end
//@ fn crates/fhe/src/bfv/plaintext.rs Plaintext::resolve_encoding
//@ subst encoding.into() => encoding
//@ ret r
//@ sig
    pub fn resolve_encoding(&self, encoding: Option<Encoding>) -> (r: Result<Encoding>)
//@ spec
    ensures self.resolves(encoding) == (match r { Ok(e) => Some(e), Err(_) => None }),
//@ end
/// the canonical transform is unique
pub proof fn lemma_fwd_unique(op: &NttOperator, a: Seq<u64>, b: Seq<u64>, m: Seq<int>)
    requires op.wfx(), op.is_fwd(a, m), op.is_fwd(b, m), canon(a, op.p.p as int), canon(b, op.p.p as int),
    ensures a == b,
{
    let p = op.p.p as int;
    assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by {
        let e = eval(m, op.point(i));
        assert(eqm(a[i] as int, e, p) && eqm(b[i] as int, e, p));
        eqm_sym(b[i] as int, e, p); eqm_trans(a[i] as int, e, b[i] as int, p);
        lemma_eqm_small(a[i] as int, b[i] as int, p);
    }
    assert(a =~= b);
}
pub proof fn lemma_eqm_small(a: int, b: int, p: int)
    requires eqm(a, b, p), 0 <= a < p, 0 <= b < p,
    ensures a == b,
{ reveal(eqm); lemma_small_mod(a as nat, p as nat); lemma_small_mod(b as nat, p as nat); }
//@ fn crates/fhe/src/bfv/plaintext.rs Plaintext::decode_simd_u64
//@ ret r
//@ spec
    requires self.par.wf(), self.par.res(vals(values@)),
    ensures r is Ok <==> self.par.simd(),
        r matches Ok(v) ==> self.par.res(vals(v@)) && forall|w: Seq<int>| self.par.encodes(EncodingEnum::Simd, w, vals(values@)) ==> vals(v@) == w,
//@ start
    let ghost m = vals(values@);
    proof { reveal(BfvParameters::wf_pt); assert forall|k: int| 0 <= k < values@.len() implies #[trigger] values@[k] < self.par.t() by { assert(m[k] < self.par.t()); } }
//@ loop-before 0
    let ghost b = values@;
//@ loop 0
    invariant
        n_0 == self.par.deg(), values@ == b, b.len() == n_0, out_0@.len() == i_0, self.par.simd(),
        forall|k: int| 0 <= k < i_0 ==> #[trigger] out_0@[k] == b[self.par.slot(k)],
//@ loop-start 0
    proof { assert(0 <= self.par.slot(i_0 as int) < self.par.deg()); }
//@ loop-after 0
    proof {
        let o = out_0@;
        assert forall|j: int| 0 <= j < o.len() implies 0 <= #[trigger] vals(o)[j] < self.par.t() by { assert(0 <= self.par.slot(j) < self.par.deg()); }
        assert forall|w: Seq<int>| self.par.encodes(EncodingEnum::Simd, w, m) implies vals(o) == w by {
            let b2 = choose|b2: Seq<u64>| self.par.slots(b2, w, m);
            reveal(BfvParameters::slots);
            lemma_fwd_unique(&self.par.op(), b, b2, m);
            assert forall|j: int| 0 <= j < o.len() implies vals(o)[j] == w[j] by { assert(b2[self.par.slot(j)] == w[j]); }
            assert(vals(o) =~= w);
        }
    }
//@ end
impl BfvParameters {
    /// a chunk of values fits
    pub open spec fn chunk_req(&self, e: EncodingEnum, l: int, n: int, ctx: &Arc<Context>) -> bool {
        &&& self.wf() && 0 <= l < self.lv() && **ctx == self.ctx(l) && n <= self.deg()
        &&& self.t() <= self.ctx(l).rns.q() && (e is Simd ==> self.simd())
    }
    /// r is the encoding of v
    pub open spec fn enc_poly(&self, e: EncodingEnum, v: Seq<int>, ctx: &Arc<Context>, vt: bool, r: &Poly<Ntt>) -> bool {
        fresh(r, ctx, vt) && r.wf() && exists|m: Seq<int>| #[trigger] self.encodes(e, self.padt(v), m) && r.isx(m)
    }
}
/// the slots hold the values placed so far
#[verifier::opaque]
pub open spec fn placed(par: &BfvParameters, c: Seq<u64>, v: Seq<u64>, k: int) -> bool {
    c.len() == par.deg() && forall|i: int| 0 <= i < par.deg() ==> #[trigger] c[par.slot(i)] as int == (if i < k { padx(vals(v), i) } else { 0 })
}
proof fn lemma_placed_zero(par: &BfvParameters, c: Seq<u64>, v: Seq<u64>)
    requires par.wf(), par.simd(), c.len() == par.deg(), forall|j: int| 0 <= j < c.len() ==> c[j] == 0,
    ensures placed(par, c, v, 0),
{ reveal(placed); reveal(BfvParameters::wf_pt); }
proof fn lemma_placed_step(par: &BfvParameters, c: Seq<u64>, v: Seq<u64>, k: int)
    requires par.wf(), par.simd(), placed(par, c, v, k), 0 <= k < v.len() <= par.deg(),
    ensures placed(par, c.update(par.slot(k), v[k]), v, k + 1), 0 <= par.slot(k) < par.deg(), par.matrix_reps_index_map@.len() == par.deg(),
{ reveal(placed); reveal(BfvParameters::wf_pt); }
/// after reduction: slot i holds value i modulo t
#[verifier::opaque]
pub open spec fn placed_end(par: &BfvParameters, b: Seq<u64>, v: Seq<u64>) -> bool {
    canon(b, par.t()) && forall|i: int| 0 <= i < par.deg() ==> #[trigger] b[par.slot(i)] as int == par.padt(vals(v))[i]
}
proof fn lemma_placed_end(par: &BfvParameters, c: Seq<u64>, b: Seq<u64>, v: Seq<u64>)
    requires par.wf(), par.simd(), placed(par, c, v, v.len() as int), v.len() <= par.deg(), b.len() == c.len(), forall|k: int| 0 <= k < b.len() ==> #[trigger] b[k] as int == c[k] as int % par.t(),
    ensures placed_end(par, b, v), canon(b, par.t()), b.len() == par.deg(),
{
    reveal(placed); reveal(placed_end); reveal(BfvParameters::wf_pt);
    assert forall|k: int| 0 <= k < b.len() implies #[trigger] b[k] < par.t() by { lemma_mod_bound(c[k] as int, par.t()); }
    assert forall|i: int| 0 <= i < par.deg() implies #[trigger] b[par.slot(i)] as int == par.padt(vals(v))[i] by { let k = par.slot(i); assert(0 <= k < par.deg()); assert(c[k] as int == padx(vals(v), i)); }
}
/// the coefficients of m, in form for the conversion
proof fn lemma_conv_res(par: &BfvParameters, l: int, m: Seq<u64>, c: &Arc<Context>, vt: bool, r: Result<Poly<PowerBasis>>)
    requires par.wf(), 0 <= l < par.lv(), **c == par.ctx(l), par.res(vals(m)), par.t() <= par.ctx(l).rns.q(), conv_vec(m, c, vt, r),
    ensures r matches Ok(p) && p.wf() && fresh(&p, c, vt) && p.coefs(vals(m)),
{
    assert(par.wf_l(l)); assert(c.wf()); assert(c.wf_i(0));
    lemma_ctx_fits(&**c);
    let p = r->Ok_0; let d = c.d();
    if full(m, &**c) {
        assert(c.n() == 1) by (nonlinear_arith) requires c.n() * d == d, d >= 1, c.n() >= 1;
        assert(c.rns.q() == c.p(0)) by { assert(c.rns.n() == 1); assert(c.rns.m(0) == c.p(0)); assert(c.rns.wf()); lemma_q_one(&*c.rns); }
        assert forall|i: int, j: int| 0 <= i < c.n() && 0 <= j < d implies #[trigger] m[i * d + j] < c.p(i) by { assert(i == 0); assert(i * d + j == j); assert(vals(m)[j] < par.t()); }
        assert(full_ok(m, &**c));
        assert forall|j: int| 0 <= j < p.d() implies p.is_int(j, #[trigger] vals(m)[j]) by {
            assert(p.rows()[0]@[j] == m[0 * d + j]); assert(vals(m)[j] < par.t()); lemma_small_mod(m[j] as nat, c.p(0) as nat);
        }
    } else { assert(pad(vals(m), d) =~= vals(m)); }
}
proof fn lemma_q_one(c: &RnsContext)
    requires c.wf(), c.n() == 1,
    ensures c.q() == c.m(0),
{ reveal_with_fuel(prodm, 3); }
//@ fn crates/fhe/src/bfv/plaintext_vec.rs PlaintextVec::encode_u64_chunk
//@ subst coefficients.as_mut_ptr() => &mut coefficients
//@ ret r
//@ spec
    requires par.chunk_req(encoding.encoding, encoding.level as int, value@.len() as int, ctx),
        // values of the type beyond the modulus are reduced
    ensures r matches Ok(p) && par.enc_poly(encoding.encoding, vals(value@), ctx, variable_time is Some, &p),
//@ start
    let ghost v0 = vals(value@);
    let ghost l = encoding.level as int;
    let ghost mut m: Seq<int> = arbitrary();
    let ghost mut b: Seq<u64> = arbitrary();
    let ghost mut c1: Seq<u64> = arbitrary();
    let ghost mut p0: Poly<PowerBasis> = arbitrary();
    proof { reveal(BfvParameters::wf_pt); assert(par.wf_l(l)); lemma_ctx_fits(&**ctx); }
//@ loop-before 0
    proof { lemma_placed_zero(&**par, coefficients@, value@); }
//@ loop 0
    invariant
        n_0 == value@.len(), par.wf(), par.simd(), value@.len() <= par.deg(), placed(&**par, coefficients@, value@, i_0 as int),
        coefficients@.len() == par.deg(),
//@ loop-start 0
    let ghost c0 = coefficients@;
    proof { lemma_placed_step(&**par, c0, value@, i_0 as int); }
//@ loop-end 0
    proof { assert(coefficients@ =~= c0.update(par.slot(i_0 as int), value@[i_0 as int])); }
//@ loop-after 0
    proof { c1 = coefficients@; }
//@ after-let ntt_operator
    proof {
        b = coefficients@;
        lemma_placed_end(&**par, c1, b, value@);
    }
//@ after-let poly
    proof {
        let w = par.padt(v0);
        m = vals(coefficients@);
        assert(coefficients@.len() == par.deg());
        assert(par.res(w)) by { assert forall|j: int| 0 <= j < w.len() implies 0 <= #[trigger] w[j] < par.t() by { lemma_mod_bound(padx(v0, j), par.t()); } }
        if encoding.encoding is Poly {
            assert forall|j: int| 0 <= j < m.len() implies m[j] == w[j] by { if par.plaintext.small is None { lemma_small_mod(m[j] as nat, par.t() as nat); } }
            assert(m =~= w);
        } else {
            reveal(BfvParameters::slots);
            assert forall|i: int| 0 <= i < par.deg() implies #[trigger] b[par.slot(i)] == w[i] by { reveal(placed_end); }
            assert(par.slots(b, w, m));
            assert forall|j: int| 0 <= j < m.len() implies 0 <= #[trigger] m[j] < par.t() by {}
        }
        assert(par.encodes(encoding.encoding, w, m));
        let vt = variable_time is Some;
        lemma_conv_res(&**par, l, coefficients@, ctx, vt, Ok(poly));
        p0 = poly;
    }
//@ ret-hint
    proof {
        if r_ is Ok { let p = r_->Ok_0; lemma_fwd_of(&p0, &p, m); assert(par.encodes(encoding.encoding, par.padt(v0), m) && p.isx(m)); }
    }
//@ end
proof fn lemma_res_padt(par: &BfvParameters, v: Seq<int>)
    requires par.wf(),
    ensures par.res(par.padt(v)),
{
    reveal(BfvParameters::wf_pt);
    let w = par.padt(v);
    assert forall|j: int| 0 <= j < w.len() implies 0 <= #[trigger] w[j] < par.t() by { lemma_mod_bound(padx(v, j), par.t()); }
}
//@ fn crates/fhe/src/bfv/plaintext_vec.rs PlaintextVec::encode_biguint_chunk
//@ subst vec![BigUint::zero(); par.degree()] => vbigs(par.degree())
//@ subst par.plaintext.reduce_vec(&mut coefficients); => par.plaintext.reduce_vec(&mut coefficients); proof { assert(pad(bvals(coefficients@), ctx.d()) =~= w); }
//@ ret r
//@ spec
    requires par.chunk_req(encoding.encoding, encoding.level as int, value@.len() as int, ctx),
    ensures r is Err <==> encoding.encoding is Simd && exists|j: int| 0 <= j < value@.len() && (#[trigger] value@[j]).v() > u64::MAX,
        r matches Ok(p) ==> par.enc_poly(encoding.encoding, bvals(value@), ctx, false, &p),
//@ start
    broadcast use lemma_fwd_auto;
    let ghost w = par.padt(bvals(value@));
    proof { reveal(BfvParameters::wf_pt); assert(par.wf_l(encoding.level as int)); lemma_res_padt(&**par, bvals(value@)); }
//@ loop 0
    invariant
        n_0 == value@.len(), out_0@.len() == i_0,
        forall|j: int| 0 <= j < i_0 ==> (#[trigger] out_0@[j]) as int == value@[j].v(),
//@ loop-after 0
    proof { assert(vals(out_0@) =~= bvals(value@)); assert forall|j: int| 0 <= j < value@.len() implies (#[trigger] value@[j]).v() <= u64::MAX by { assert(out_0@[j] as int == value@[j].v()); } }
//@ ret-hint
    proof { if r_ is Ok && encoding.encoding is Poly { let p = r_->Ok_0; assert(p.isx(w)); assert(par.encodes(encoding.encoding, w, w)); } }
//@ end
impl PlaintextVec {
    /// the bounds of chunk k
    pub open spec fn lo(k: int, d: int) -> int { k * d }
    pub open spec fn hi(n: int, k: int, d: int) -> int { if k * d + d <= n { k * d + d } else { n } }
    /// x is what f made of chunk k
    pub open spec fn made<T, F: Fn(&[T], &Encoding, &Arc<BfvParameters>, &Arc<Context>) -> Result<Poly<Ntt>>>(f: F, v: Seq<T>, e: Encoding, par: &Arc<BfvParameters>, k: int, r: Result<Poly<Ntt>>) -> bool {
        exists|s: &[T], c: &Arc<Context>| **c == par.ctx(e.level as int) && s@ == v.subrange(Self::lo(k, par.deg()), Self::hi(v.len() as int, k, par.deg())) && #[trigger] call_ensures(f, (s, &e, par, c), r)
    }
    pub open spec fn chunks(n: int, d: int) -> int { if n <= 0 { 1 } else { (n + d - 1) / d } }
}
proof fn lemma_ceil(n: int, d: int)
    requires n >= 0, d >= 1,
    ensures n > 0 ==> PlaintextVec::chunks(n, d) == (n + d - 1) / d && (n + d - 1) / d >= 1, (0 + d - 1) / d == 0, PlaintextVec::chunks(n, d) == if n % d == 0 { if n / d >= 1 { n / d } else { 1 } } else { n / d + 1 }, n / d >= 0,
{
    lemma_fundamental_div_mod(n, d); lemma_mod_bound(n, d); lemma_div_pos_is_pos(n, d);
    let (q, r) = (n / d, n % d);
    lemma_fundamental_div_mod_converse(d - 1, d, 0, d - 1);
    if n > 0 {
        assert(q * d == d * q) by (nonlinear_arith);
        if r == 0 { lemma_fundamental_div_mod_converse(n + d - 1, d, q, d - 1); assert(q >= 1) by (nonlinear_arith) requires n == d * q, n > 0, d >= 1; }
        else { assert((q + 1) * d == d * q + d) by (nonlinear_arith); lemma_fundamental_div_mod_converse(n + d - 1, d, q + 1, r - 1); }
    } else { lemma_small_mod(0, d as nat); lemma_fundamental_div_mod_converse(0, d, 0, 0); }
}
proof fn lemma_chunks(n: int, d: int, k: int)
    requires n >= 0, d >= 1, 0 <= k < PlaintextVec::chunks(n, d),
    ensures k * d <= n, k * d + d <= n + d, 0 <= k * d, n > 0 ==> k * d < n,
{
    lemma_fundamental_div_mod(n + d - 1, d); lemma_mod_bound(n + d - 1, d);
    let q = (n + d - 1) / d;
    assert(k * d >= 0) by (nonlinear_arith) requires k >= 0, d >= 1;
    if n <= 0 { assert(k == 0); assert(k * d == 0) by (nonlinear_arith) requires k == 0; }
    if n > 0 { assert(k * d + d <= q * d) by (nonlinear_arith) requires k + 1 <= q, d >= 1; assert(d * q == q * d) by (nonlinear_arith); }
}
//@ fn crates/fhe/src/bfv/plaintext_vec.rs PlaintextVec::try_encode_with
//@ subst min(value.len() => vmin(value.len()
//@ subst value.len().div_ceil(par.degree()).max(1) => vmax(value.len().div_ceil(par.degree()), 1)
//@ subst )?; Ok(Plaintext { => ); proof { if poly_ntt is Err { assert(Self::made(encode_chunk, value@, encoding, par, i_0 as int, Err(poly_ntt->Err_0))); } } let poly_ntt = poly_ntt?; Ok(Plaintext {
//@ vec 0 Plaintext
//@ ret r
//@ sig
    pub fn try_encode_with<T, F: Fn(&[T], &Encoding, &Arc<BfvParameters>, &Arc<Context>) -> Result<Poly<Ntt>>>(value: &[T], encoding: Encoding, par: &Arc<BfvParameters>, encode_chunk: F) -> (r: Result<PlaintextVec>)
//@ spec
    requires par.wf(), value@.len() + par.deg() <= usize::MAX,
        forall|s: &[T], c: &Arc<Context>| par.chunk_req(encoding.encoding, encoding.level as int, s@.len() as int, c) ==> #[trigger] call_requires(encode_chunk, (s, &encoding, par, c)),
        encoding.level < par.lv() ==> par.t() <= par.ctx(encoding.level as int).rns.q(),
    ensures
        r is Err ==> (encoding.encoding is Simd && !par.simd()) || encoding.level >= par.lv() || exists|k: int, x: Error| 0 <= k < Self::chunks(value@.len() as int, par.deg()) && #[trigger] Self::made(encode_chunk, value@, encoding, par, k, Err(x)),
        r matches Ok(pv) ==> !(encoding.encoding is Simd && !par.simd()) && encoding.level < par.lv() && pv.0@.len() == Self::chunks(value@.len() as int, par.deg())
            && forall|k: int| 0 <= k < pv.0@.len() ==> (#[trigger] pv.0@[k]).par == *par && pv.0@[k].encoding == Some(encoding) && Self::made(encode_chunk, value@, encoding, par, k, Ok(pv.0@[k].poly_ntt)),
//@ start
    proof { reveal(BfvParameters::wf_pt); }
//@ after-let num_plaintexts
    proof {
        lemma_ceil(value@.len() as int, par.deg());
        assert(num_plaintexts == Self::chunks(value@.len() as int, par.deg()));
    }
//@ loop 0
    invariant
        n_0 == Self::chunks(value@.len() as int, par.deg()), out_0@.len() == i_0, encoding.level < par.lv(), !(encoding.encoding is Simd && !par.simd()),
        forall|k: int| 0 <= k < i_0 ==> (#[trigger] out_0@[k]).par == *par && out_0@[k].encoding == Some(encoding) && Self::made(encode_chunk, value@, encoding, par, k, Ok(out_0@[k].poly_ntt)),
//@ loop-start 0
    proof { lemma_chunks(value@.len() as int, par.deg(), i_0 as int); }
//@ end
impl Plaintext {
    /// the plaintext is the encoding of v
    pub open spec fn encoded(&self, par: &Arc<BfvParameters>, e: Encoding, v: Seq<int>, vt: bool) -> bool {
        &&& self.par == *par && self.encoding == Some(e) && self.wf() && self.lvl() == e.level && *self.poly_ntt.ctx == par.ctx(e.level as int) && self.poly_ntt.allow_variable_time_computations == vt
        &&& self.content(e.encoding, par.padt(v))
    }
}
impl BfvParameters {
    /// encoding at that level makes sense
    pub open spec fn enc_req(&self, e: Encoding, n: int) -> bool {
        self.wf() && n + self.deg() <= usize::MAX && (e.level < self.lv() ==> self.t() <= self.ctx(e.level as int).rns.q())
    }
    /// the encoding is not available for these parameters
    pub open spec fn enc_none(&self, e: Encoding) -> bool { (e.encoding is Simd && !self.simd()) || e.level >= self.lv() }
}
impl PlaintextVec {
    pub open spec fn chunk<T>(v: Seq<T>, k: int, d: int) -> Seq<T> { v.subrange(Self::lo(k, d), Self::hi(v.len() as int, k, d)) }
    /// v, in chunks
    pub open spec fn encoded_u(&self, par: &Arc<BfvParameters>, e: Encoding, v: Seq<u64>, vt: bool) -> bool {
        self.0@.len() == Self::chunks(v.len() as int, par.deg()) && forall|k: int| 0 <= k < self.0@.len() ==> (#[trigger] self.0@[k]).encoded(par, e, vals(Self::chunk(v, k, par.deg())), vt)
    }
    pub open spec fn encoded_b(&self, par: &Arc<BfvParameters>, e: Encoding, v: Seq<BigUint>, vt: bool) -> bool {
        self.0@.len() == Self::chunks(v.len() as int, par.deg()) && forall|k: int| 0 <= k < self.0@.len() ==> (#[trigger] self.0@[k]).encoded(par, e, bvals(Self::chunk(v, k, par.deg())), vt)
    }
}
proof fn lemma_encoded(pt: &Plaintext, par: &Arc<BfvParameters>, e: Encoding, v: Seq<int>, c: &Arc<Context>, vt: bool)
    requires par.wf(), e.level < par.lv(), par.t() <= par.ctx(e.level as int).rns.q(), pt.par == *par, pt.encoding == Some(e), **c == par.ctx(e.level as int), par.enc_poly(e.encoding, v, c, vt, &pt.poly_ntt),
    ensures pt.encoded(par, e, v, vt),
{ assert(par.wf_l(e.level as int)); }
//@ fn crates/fhe/src/bfv/plaintext_vec.rs FheEncoder<&[u64]>@PlaintextVec::try_encode as=PlaintextVec::enc_u64
//@ subst |value, encoding, par, ctx| { => |value: &[u64], encoding: &Encoding, par: &Arc<BfvParameters>, ctx: &Arc<Context>| -> (rc: Result<Poly<Ntt>>) requires par.chunk_req(encoding.encoding, encoding.level as int, value@.len() as int, ctx), ensures rc matches Ok(p) && par.enc_poly(encoding.encoding, vals(value@), ctx, false, &p), {
//@ ret r
//@ sig
    pub fn enc_u64(value: &[u64], encoding: Encoding, par: &Arc<BfvParameters>) -> (r: Result<PlaintextVec>)
//@ spec
    requires par.enc_req(encoding, value@.len() as int),
    ensures r is Err <==> par.enc_none(encoding),
        r matches Ok(pv) ==> pv.encoded_u(par, encoding, value@, false),
//@ ret-hint
    proof { if r_ is Ok {
        let pv = r_->Ok_0;
        assert forall|k: int, v: Seq<int>, c: &Arc<Context>| 0 <= k < pv.0@.len() && **c == par.ctx(encoding.level as int) && #[trigger] par.enc_poly(encoding.encoding, v, c, false, &pv.0@[k].poly_ntt) implies pv.0@[k].encoded(par, encoding, v, false) by { lemma_encoded(&pv.0@[k], par, encoding, v, c, false); }
    } }
//@ end
//@ fn crates/fhe/src/bfv/plaintext_vec.rs FheEncoderVariableTime<&[u64]>@PlaintextVec::try_encode_vt as=PlaintextVec::enc_u64_vt
//@ subst |value, encoding, par, ctx| { => |value: &[u64], encoding: &Encoding, par: &Arc<BfvParameters>, ctx: &Arc<Context>| -> (rc: Result<Poly<Ntt>>) requires par.chunk_req(encoding.encoding, encoding.level as int, value@.len() as int, ctx), ensures rc matches Ok(p) && par.enc_poly(encoding.encoding, vals(value@), ctx, true, &p), {
//@ ret r
//@ sig
    pub fn enc_u64_vt(value: &[u64], encoding: Encoding, par: &Arc<BfvParameters>, variable_time: VariableTime) -> (r: Result<PlaintextVec>)
//@ spec
    requires par.enc_req(encoding, value@.len() as int),
    ensures r is Err <==> par.enc_none(encoding),
        r matches Ok(pv) ==> pv.encoded_u(par, encoding, value@, true),
//@ ret-hint
    proof { if r_ is Ok {
        let pv = r_->Ok_0;
        assert forall|k: int, v: Seq<int>, c: &Arc<Context>| 0 <= k < pv.0@.len() && **c == par.ctx(encoding.level as int) && #[trigger] par.enc_poly(encoding.encoding, v, c, true, &pv.0@[k].poly_ntt) implies pv.0@[k].encoded(par, encoding, v, true) by { lemma_encoded(&pv.0@[k], par, encoding, v, c, true); }
    } }
//@ end
//@ fn crates/fhe/src/bfv/plaintext_vec.rs FheEncoder<&[BigUint]>@PlaintextVec::try_encode as=PlaintextVec::enc_big
//@ ret r
//@ sig
    pub fn enc_big(value: &[BigUint], encoding: Encoding, par: &Arc<BfvParameters>) -> (r: Result<PlaintextVec>)
//@ spec
    requires par.enc_req(encoding, value@.len() as int),
    ensures r is Err ==> par.enc_none(encoding) || (encoding.encoding is Simd && exists|j: int| 0 <= j < value@.len() && (#[trigger] value@[j]).v() > u64::MAX),
        r matches Ok(pv) ==> !par.enc_none(encoding) && pv.encoded_b(par, encoding, value@, false),
//@ ret-hint
    proof {
        assert(par.deg() >= 1) by { reveal(BfvParameters::wf_pt); }
        assert forall|k: int| 0 <= k < Self::chunks(value@.len() as int, par.deg()) implies 0 <= #[trigger] Self::lo(k, par.deg()) <= value@.len() by { lemma_chunks(value@.len() as int, par.deg(), k); }
    }
    proof { if r_ is Ok {
        let pv = r_->Ok_0;
        assert forall|k: int, v: Seq<int>, c: &Arc<Context>| 0 <= k < pv.0@.len() && **c == par.ctx(encoding.level as int) && #[trigger] par.enc_poly(encoding.encoding, v, c, false, &pv.0@[k].poly_ntt) implies pv.0@[k].encoded(par, encoding, v, false) by { lemma_encoded(&pv.0@[k], par, encoding, v, c, false); }
    } }
//@ end
proof fn lemma_chunk0<T>(v: Seq<T>, d: int)
    requires 0 <= v.len() <= d, d >= 1,
    ensures PlaintextVec::chunks(v.len() as int, d) == 1, PlaintextVec::chunk(v, 0, d) == v,
{
    let n = v.len() as int;
    if n > 0 { lemma_fundamental_div_mod_converse(n + d - 1, d, 1, n - 1); }
    assert(0 * d == 0) by (nonlinear_arith);
    assert(PlaintextVec::chunk(v, 0, d) =~= v);
}
//@ fn crates/fhe/src/bfv/plaintext.rs FheEncoder<&'a[BigUint]>@Plaintext::try_encode as=Plaintext::enc_big
//@ subst PlaintextVec::try_encode(value => PlaintextVec::enc_big(value
//@ subst v[0] => v.0[0]
//@ ret r
//@ sig
    pub fn enc_big(value: &[BigUint], encoding: Encoding, par: &Arc<BfvParameters>) -> (r: Result<Plaintext>)
//@ spec
    requires par.enc_req(encoding, value@.len() as int),
    ensures r is Err ==> value@.len() > par.deg() || par.enc_none(encoding) || (encoding.encoding is Simd && exists|j: int| 0 <= j < value@.len() && (#[trigger] value@[j]).v() > u64::MAX),
        r matches Ok(pt) ==> value@.len() <= par.deg() && !par.enc_none(encoding) && pt.encoded(par, encoding, bvals(value@), false),
//@ start
    proof { reveal(BfvParameters::wf_pt); if value@.len() <= par.deg() { lemma_chunk0(value@, par.deg()); } }
//@ end
//@ fn crates/fhe/src/bfv/plaintext.rs FheEncoder<&'a[u64]>@Plaintext::try_encode as=Plaintext::enc_u64
//@ subst PlaintextVec::try_encode(value => PlaintextVec::enc_u64(value
//@ subst v[0] => v.0[0]
//@ ret r
//@ sig
    pub fn enc_u64(value: &[u64], encoding: Encoding, par: &Arc<BfvParameters>) -> (r: Result<Plaintext>)
//@ spec
    requires par.enc_req(encoding, value@.len() as int),
    ensures r is Err <==> value@.len() > par.deg() || par.enc_none(encoding),
        r matches Ok(pt) ==> pt.encoded(par, encoding, vals(value@), false),
//@ start
    proof { reveal(BfvParameters::wf_pt); if value@.len() <= par.deg() { lemma_chunk0(value@, par.deg()); } }
//@ end
//@ fn crates/fhe/src/bfv/plaintext.rs FheEncoderVariableTime<&'a[u64]>@Plaintext::try_encode_vt as=Plaintext::enc_u64_vt
//@ subst PlaintextVec::try_encode_vt(value => PlaintextVec::enc_u64_vt(value
//@ subst v[0] => v.0[0]
//@ ret r
//@ sig
    pub fn enc_u64_vt(value: &[u64], encoding: Encoding, par: &Arc<BfvParameters>, variable_time: VariableTime) -> (r: Result<Plaintext>)
//@ spec
    requires par.enc_req(encoding, value@.len() as int),
    ensures r is Err <==> value@.len() > par.deg() || par.enc_none(encoding),
        r matches Ok(pt) ==> pt.encoded(par, encoding, vals(value@), true),
//@ start
    proof { reveal(BfvParameters::wf_pt); if value@.len() <= par.deg() { lemma_chunk0(value@, par.deg()); } }
//@ end
proof fn lemma_enc_mod(par: &BfvParameters, v: Seq<int>, w: Seq<int>)
    requires par.wf(), v.len() == w.len(), forall|j: int| 0 <= j < v.len() ==> #[trigger] w[j] == v[j] % par.t(),
    ensures par.padt(w) == par.padt(v),
{
    reveal(BfvParameters::wf_pt);
    assert forall|j: int| 0 <= j < par.deg() implies padx(w, j) % par.t() == #[trigger] padx(v, j) % par.t() by { if j < v.len() { assert(w[j] == v[j] % par.t()); lemma_mod_twice(v[j], par.t()); } }
    assert(par.padt(w) =~= par.padt(v));
}
proof fn lemma_trem(x: int, m: int)
    requires m > 0,
    ensures trem(x, m) >= 0 ==> trem(x, m) == x % m, trem(x, m) < 0 ==> trem(x, m) + m == x % m,
{
    if x < 0 {
        lemma_fundamental_div_mod(-x, m); lemma_mod_bound(-x, m);
        let (q, r) = ((-x) / m, (-x) % m);
        assert(x == m * (-q) - r) by (nonlinear_arith) requires -x == m * q + r;
        if r == 0 { assert(m * (-q) == (-q) * m) by (nonlinear_arith); lemma_fundamental_div_mod_converse(x, m, -q, 0); }
        else { assert(x == m * (-q - 1) + (m - r)) by (nonlinear_arith) requires x == m * (-q) - r; assert(m * (-q - 1) == (-q - 1) * m) by (nonlinear_arith); lemma_fundamental_div_mod_converse(x, m, -q - 1, m - r); }
    }
}
//@ fn crates/fhe/src/bfv/plaintext.rs FheEncoder<&'a[i64]>@Plaintext::try_encode as=Plaintext::enc_i64
//@ subst Plaintext::try_encode(&w as &[u64], => Plaintext::enc_u64(&w,
//@ subst Plaintext::try_encode(v => Plaintext::enc_big(v
//@ vec 0 BigUint
//@ ret r
//@ sig
    pub fn enc_i64(value: &[i64], encoding: Encoding, par: &Arc<BfvParameters>) -> (r: Result<Plaintext>)
//@ spec
    requires par.enc_req(encoding, value@.len() as int),
    ensures r is Err <==> value@.len() > par.deg() || par.enc_none(encoding),
        r matches Ok(pt) ==> pt.encoded(par, encoding, ivals(value@), false),
//@ start
    proof { reveal(BfvParameters::wf_pt); }
//@ after-let w
    proof { lemma_enc_mod(&**par, ivals(value@), vals(w@)); }
//@ loop 0
    invariant
        n_0 == value@.len(), out_0@.len() == i_0, modulus_int.v() == par.t(),
        forall|j: int| 0 <= j < i_0 ==> (#[trigger] out_0@[j]).v() == value@[j] as int % par.t(),
//@ loop-start 0
    proof { lemma_trem(value@[i_0 as int] as int, par.t()); lemma_mod_bound(value@[i_0 as int] as int, par.t()); }
//@ after-let v
    proof { assert(v@.len() == value@.len()); lemma_enc_mod(&**par, ivals(value@), bvals(v@)); }
//@ end
//@ fn crates/fhe/src/bfv/plaintext.rs Plaintext::zero
//@ ret r
//@ spec
    requires par.enc_req(encoding, 0), 
    ensures r is Err <==> encoding.level >= par.lv(),
        r matches Ok(pt) ==> pt.par == *par && pt.encoding == Some(encoding) && pt.wf() && pt.lvl() == encoding.level && pt.holds(pad(Seq::empty(), par.deg())),
//@ start
    let ghost z = pad(Seq::<int>::empty(), par.deg());
    proof { reveal(BfvParameters::wf_pt); if encoding.level < par.lv() { assert(par.wf_l(encoding.level as int)); } assert(par.res(z)); }
//@ ret-hint
    proof { if r_ is Ok { let q = r_->Ok_0; lemma_isx_zero(&q.poly_ntt, z); assert(par.wf_l(encoding.level as int)); } }
//@ end
/// x is the polynomial of the plaintext
spec fn is_cv(pt: &Plaintext, x: Seq<int>) -> bool { pt.par.res(x) && (pt.fits() ==> forall|m: Seq<int>| pt.holds(m) ==> x == m) }
/// v is what decoding the slots of x gives
spec fn is_sv(pt: &Plaintext, x: Seq<int>, v: Seq<int>) -> bool { pt.par.res(v) && forall|w: Seq<int>| pt.par.encodes(EncodingEnum::Simd, w, x) ==> v == w }
proof fn lemma_dec(pt: &Plaintext, x: Seq<int>)
    requires pt.wf(), is_cv(pt, x),
    ensures pt.decoded(EncodingEnum::Poly, x),
        pt.par.simd() ==> forall|v: Seq<int>| is_sv(pt, x, v) ==> #[trigger] pt.decoded(EncodingEnum::Simd, v),
        pt.fits() ==> forall|w: Seq<int>| pt.content(EncodingEnum::Poly, w) ==> w == x,
{
    assert forall|w: Seq<int>| pt.fits() && pt.content(EncodingEnum::Poly, w) implies w == x by { assert(pt.holds(w)); }
    assert forall|v: Seq<int>| pt.par.simd() && is_sv(pt, x, v) implies #[trigger] pt.decoded(EncodingEnum::Simd, v) by {
        assert forall|w: Seq<int>| pt.fits() && pt.content(EncodingEnum::Simd, w) implies v == w by {
            let m = choose|m: Seq<int>| #[trigger] pt.par.encodes(EncodingEnum::Simd, w, m) && pt.poly_ntt.isx(m);
            assert(pt.holds(m)); assert(x == m);
        }
    }
}
//@ fn crates/fhe/src/bfv/plaintext.rs FheDecoder<Plaintext>@Vec<u64>::try_decode as=Plaintext::dec_u64
//@ ret r
//@ sig
    pub fn dec_u64(pt: &Plaintext, encoding: Option<Encoding>) -> (r: Result<Vec<u64>>)
//@ spec
    requires pt.wf(),
    ensures r is Err ==> pt.resolves(encoding) is None || (pt.resolves(encoding)->Some_0.encoding is Simd && !pt.par.simd())
            || (pt.par.plaintext.small is None && (pt.fits() ==> forall|w: Seq<int>| pt.content(EncodingEnum::Poly, w) ==> exists|j: int| 0 <= j < w.len() && #[trigger] w[j] > u64::MAX)),
        r matches Ok(v) ==> pt.resolves(encoding) matches Some(e) && pt.decoded(e.encoding, vals(v@)),
//@ start
    let ghost mut x: Seq<int> = arbitrary();
    proof { reveal(BfvParameters::wf_pt); }
//@ loop-before 0
    proof { assert(is_cv(pt, bvals(values@))); lemma_dec(pt, bvals(values@)); }
//@ loop 0
    invariant
        n_0 == pt.par.deg(), values@.len() == n_0, out_0@.len() == i_0, pt.par.plaintext.small is None,
        forall|j: int| 0 <= j < i_0 ==> (#[trigger] out_0@[j]) as int == values@[j].v(),
        pt.fits() ==> forall|w: Seq<int>| pt.content(EncodingEnum::Poly, w) ==> w == bvals(values@),
//@ loop-start 0
    proof { if values@[i_0 as int].v() > u64::MAX { assert forall|w: Seq<int>| pt.fits() && pt.content(EncodingEnum::Poly, w) implies exists|j: int| 0 <= j < w.len() && #[trigger] w[j] > u64::MAX by { assert(w[i_0 as int] > u64::MAX); } } }
//@ loop-after 0
    proof { assert(vals(out_0@) =~= bvals(values@)); assert(is_cv(pt, vals(out_0@))); }
//@ after-let values
    proof { x = vals(values@); assert(is_cv(pt, vals(values@))); lemma_dec(pt, vals(values@)); }
//@ ret-hint
    proof { if r_ is Ok { let e = pt.resolves(encoding)->Some_0; if e.encoding is Simd { assert(is_sv(pt, x, vals(r_->Ok_0@))); } } }
//@ end
//@ fn crates/fhe/src/bfv/plaintext.rs FheDecoder<Plaintext>@Vec<BigUint>::try_decode as=Plaintext::dec_big
//@ subst BigUint::from(&values[i_0]) => BigUint::from(values[i_0])
//@ subst BigUint::from(&v_s1[i_2]) => BigUint::from(v_s1[i_2])
//@ subst match encoding.encoding { => proof { x = bvals(values@); assert(is_cv(pt, x)); lemma_dec(pt, x); } match encoding.encoding {
//@ vec 0 BigUint
//@ vec 2 BigUint
//@ ret r
//@ sig
    pub fn dec_big(pt: &Plaintext, encoding: Option<Encoding>) -> (r: Result<Vec<BigUint>>)
//@ spec
    requires pt.wf(),
    ensures r is Err <==> pt.resolves(encoding) is None || (pt.resolves(encoding)->Some_0.encoding is Simd && !pt.par.simd()),
        r matches Ok(v) ==> pt.resolves(encoding) matches Some(e) && pt.decoded(e.encoding, bvals(v@)),
//@ start
    let ghost mut x: Seq<int> = arbitrary();
    proof { reveal(BfvParameters::wf_pt); }
//@ loop 0
    invariant
        n_0 == values@.len(), out_0@.len() == i_0,
        forall|j: int| 0 <= j < i_0 ==> (#[trigger] out_0@[j]).v() == values@[j],
//@ loop-after 0
    proof { assert(bvals(out_0@) =~= vals(values@)); }
//@ loop 1
    invariant
        n_1 == values@.len(), out_1@.len() == i_1, pt.par.simd() ==> forall|j: int| 0 <= j < n_1 ==> (#[trigger] values@[j]).v() <= u64::MAX,
        forall|j: int| 0 <= j < i_1 ==> (#[trigger] out_1@[j]) == values@[j].v(),
//@ loop-before 1
    proof { assert forall|j: int| 0 <= j < values@.len() && pt.par.simd() implies (#[trigger] values@[j]).v() <= u64::MAX by { assert(x[j] < pt.par.t()); } }
//@ loop-after 1
    proof { assert(vals(out_1@) =~= x); }
//@ loop 2
    invariant
        n_2 == v_s1@.len(), out_2@.len() == i_2,
        forall|j: int| 0 <= j < i_2 ==> (#[trigger] out_2@[j]).v() == v_s1@[j],
//@ loop-after 2
    proof { assert(bvals(out_2@) =~= vals(v_s1@)); assert(is_sv(pt, x, bvals(out_2@))); }
//@ end
//@ fn crates/fhe/src/bfv/plaintext.rs FheDecoder<Plaintext>@Vec<i64>::try_decode as=Plaintext::dec_i64
//@ subst Vec::<u64>::try_decode( => Plaintext::dec_u64(
//@ subst Vec::<BigUint>::try_decode( => Plaintext::dec_big(
//@ subst modulus_big / 2u32 => modulus_big.vdiv_u32(2u32)
//@ subst (value_int - &modulus_int) => value_int.vsub_ref(&modulus_int)
//@ subst values[i_0] >= &half_modulus => values[i_0] >= half_modulus
//@ subst Ok(modulus.center_vec(&values)) => proof { x = vals(values@); assert forall|k: int| 0 <= k < values@.len() implies (#[trigger] values@[k]) < modulus.p by { assert(x[k] < pt.par.t()); } } Ok(modulus.center_vec(&values))
//@ vec 0 i64
//@ ret r
//@ sig
    pub fn dec_i64(pt: &Plaintext, encoding: Option<Encoding>) -> (r: Result<Vec<i64>>)
//@ spec
    requires pt.wf(),
    ensures
        r is Err ==> pt.resolves(encoding) is None || (pt.resolves(encoding)->Some_0.encoding is Simd && !pt.par.simd())
            || exists|x: Seq<int>, j: int| #[trigger] pt.decoded(pt.resolves(encoding)->Some_0.encoding, x) && 0 <= j < x.len() && !(i64::MIN <= center_of(#[trigger] x[j], pt.par.t()) <= i64::MAX),
        r matches Ok(v) ==> pt.resolves(encoding) matches Some(e) && exists|x: Seq<int>| #[trigger] pt.decoded(e.encoding, x) && ivals(v@) == pt.par.centered(x),
//@ start
    let ghost mut x: Seq<int> = arbitrary();
    proof { reveal(BfvParameters::wf_pt); }
//@ after-let half_modulus
    proof { x = bvals(values@); }
//@ loop 0
    invariant
        n_0 == values@.len(), out_0@.len() == i_0, x == bvals(values@), half_modulus.v() == pt.par.t() / 2, modulus_int.v() == pt.par.t(),
        forall|j: int| 0 <= j < i_0 ==> (#[trigger] out_0@[j]) == center_of(x[j], pt.par.t()),
//@ loop-start 0
    proof {
        assert(x[i_0 as int] == values@[i_0 as int].v());
        let y = center_of(x[i_0 as int], pt.par.t());
        let e = pt.resolves(encoding)->Some_0.encoding;
        assert(pt.decoded(e, x));
        if !(i64::MIN <= y <= i64::MAX) { assert(pt.decoded(e, x) && 0 <= i_0 < x.len() && !(i64::MIN <= center_of(x[i_0 as int], pt.par.t()) <= i64::MAX)); }
    }
//@ ret-hint
    proof { if r_ is Ok { assert(ivals(r_->Ok_0@) =~= pt.par.centered(x)); } }
//@ end
proof fn lemma_psum_cst(a: Seq<int>, b: Seq<int>, t: nat)
    requires 1 <= t <= b.len(), forall|k: int| 1 <= k < b.len() ==> #[trigger] b[k] == 0,
    ensures psum(a, b, t) =~= Seq::new(a.len(), |j: int| b[0] * a[j]),
    decreases t,
{
    if t > 1 { lemma_psum_cst(a, b, (t - 1) as nat); assert(b[t - 1] == 0); assert forall|j: int| 0 <= j < a.len() implies 0 * #[trigger] mono(a, t - 1)[j] == 0 by {} }
    else { assert(psum(a, b, 0) =~= Seq::new(a.len(), |m: int| 0)); assert(mono(a, 0) =~= a); }
}
/// product with a constant
pub proof fn lemma_negamul_cst(a: Seq<int>, x: int)
    requires a.len() >= 1,
    ensures negamul(a, constp(a.len() as int, x)) =~= Seq::new(a.len(), |j: int| x * a[j]),
{ lemma_psum_cst(a, constp(a.len() as int, x), a.len()); }
/// D t = -1 and w = Q m mod t, p | Q: D w = floor(Q m / t) modulo p
proof fn lemma_scale(q: int, m: int, t: int, x: int, p: int)
    requires t >= 2, p >= 2, q % p == 0, (x * t + 1) % p == 0,
    ensures eqm(x * ((m * (q % t)) % t), (q * m) / t, p),
{
    let w = (m * (q % t)) % t;
    lemma_mul_mod_noop_right(m, q, t);
    assert(m * q == q * m) by (nonlinear_arith);
    assert(w == (q * m) % t);
    let f = (q * m) / t;
    lemma_fundamental_div_mod(q * m, t);
    lemma_fundamental_div_mod(q, p);
    lemma_fundamental_div_mod(x * t + 1, p);
    let a = q / p; let b = (x * t + 1) / p;
    // q m = t f + w ; q = p a ; x t + 1 = p b : x w - f = x (q m - t f) - f = x q m - (x t + 1) f
    assert(x * w == x * (q * m) - x * (t * f)) by (nonlinear_arith) requires w == q * m - t * f;
    assert(x * (t * f) + f == (x * t + 1) * f) by (nonlinear_arith);
    assert((x * t + 1) * f == p * (b * f)) by (nonlinear_arith) requires x * t + 1 == p * b;
    assert(x * (q * m) == p * (x * a * m)) by (nonlinear_arith) requires q == p * a;
    assert(p * (x * a * m) - p * (b * f) == p * (x * a * m - b * f)) by (nonlinear_arith);
    lemma_eqm_diff(x * w, f, p, x * a * m - b * f);
}
proof fn lemma_eqm_diff(a: int, b: int, p: int, k: int)
    requires p >= 1, a - b == p * k,
    ensures eqm(a, b, p),
{ reveal(eqm); lemma_mod_multiples_vanish(k, b, p); }
pub proof fn lemma_same_q(a: &Context, b: &Context)
    requires a.wf(), b.wf(), same(a, b),
    ensures a.rns.q() == b.rns.q(), a.n() == b.n(), a.d() == b.d(), forall|i: int| a.p(i) == b.p(i),
{ assert(a.rns.wf() && b.rns.wf()); assert(a.rns.moduli_u64@ =~= b.rns.moduli_u64@) by { assert forall|i: int| 0 <= i < a.n() implies a.rns.moduli_u64@[i] == b.rns.moduli_u64@[i] by { assert(a.wf_i(i) && b.wf_i(i)); assert(a.rns.m(i) == a.p(i)); assert(b.rns.m(i) == b.p(i)); } } }
/// w holds (Q c) mod t
spec fn is_w(pt: &Plaintext, c: Seq<int>, w: Seq<int>) -> bool {
    w.len() == c.len() && forall|j: int| 0 <= j < c.len() ==> #[trigger] w[j] == (c[j] * (pt.par.ctx(pt.lvl()).rns.q() % pt.par.t())) % pt.par.t()
}
proof fn lemma_to_poly(pt: &Plaintext, c: Seq<int>, w: Seq<int>, m1: Poly<Ntt>)
    requires pt.wf(), is_cv(pt, c), is_w(pt, c, w), m1.wf(), *m1.ctx == pt.par.ctx(pt.lvl()), m1.isx(w),
    ensures ({ let r = pmuls(m1, pt.par.context_levels@[pt.lvl()].cipher_plain_context.delta); forall|m: Seq<int>| pt.holds(m) ==> #[trigger] r.isx(pt.scaled(m)) }),
{
    reveal(BfvParameters::wf_pt);
    let l = pt.lvl(); let t = pt.par.t();
    assert(pt.par.wf_l(l) && pt.par.wf_cp(l));
    let delta = pt.par.context_levels@[l].cipher_plain_context.delta;
    let cx = pt.par.ctx(l);
    let q = cx.rns.q();
    let r = pmuls(m1, delta);
    lemma_same_q(&*pt.poly_ntt.ctx, &cx);
    let x = choose|x: int| delta.isx(#[trigger] constp(pt.par.deg(), x)) && neg_inv_t(&cx, x, t);
    let z = constp(pt.par.deg(), x);
    lemma_isx_muls(m1, delta, w, z);
    lemma_negamul_cst(w, x);
    lemma_negamul_len(w, z);
    assert forall|m: Seq<int>| pt.holds(m) implies #[trigger] r.isx(pt.scaled(m)) by {
        assert(c == m);
        let s = pt.scaled(m);
        assert forall|i: int, j: int| 0 <= i < r.n() && 0 <= j < w.len() implies #[trigger] eqm(negamul(w, z)[j], s[j], r.p(i)) by {
            assert(cx.wf_i(i)); assert(cx.rns.wf()); assert(cx.rns.m(i) == cx.p(i));
            lemma_div_prodm(cx.rns.moduli_u64@, i);
            assert((x * t + 1) % cx.p(i) == 0);
            lemma_scale(q, m[j], t, x, cx.p(i));
            assert(negamul(w, z)[j] == x * w[j]);
        }
        lemma_isx_cong(&r, negamul(w, z), s);
    }
}
proof fn lemma_w_res(pt: &Plaintext, c: Seq<int>, w: Seq<int>)
    requires pt.wf(), pt.par.res(c), is_w(pt, c, w),
    ensures pt.par.res(w),
{ reveal(BfvParameters::wf_pt); assert forall|j: int| 0 <= j < w.len() implies 0 <= #[trigger] w[j] < pt.par.t() by { lemma_mod_bound(c[j] * (pt.par.ctx(pt.lvl()).rns.q() % pt.par.t()), pt.par.t()); } }
//@ fn crates/fhe/src/bfv/plaintext.rs Plaintext::to_poly
//@ subst let mut values = values; => let mut values = values; proof { c = vals(values@); assert(is_cv(self, c)); }
//@ subst modulus.scalar_mul_vec(&mut values, q_mod_t); => modulus.scalar_mul_vec(&mut values, q_mod_t); proof { w = vals(values@); assert(is_w(self, c, w)); lemma_w_res(self, c, w); assert forall|r: Result<Poly<PowerBasis>>| #[trigger] conv_vec(values@, ctx, false, r) implies r is Ok && r->Ok_0.wf() && fresh(&r->Ok_0, ctx, false) && r->Ok_0.coefs(w) by { lemma_conv_res(&*self.par, l, values@, ctx, false, r); } }
//@ subst self.par .plaintext .scalar_mul_vec(&mut values, &ctx_lvl.cipher_plain_context.q_mod_t); => proof { c = bvals(values@); assert(is_cv(self, c)); } self.par.plaintext.scalar_mul_vec(&mut values, &ctx_lvl.cipher_plain_context.q_mod_t); proof { w = bvals(values@); assert(is_w(self, c, w)); assert(pad(w, ctx.d()) =~= w); }
//@ subst let mut m = m.into_ntt(); => proof { assert(m.coefs(w)); } let mut m = m.into_ntt(); proof { lemma_to_poly(self, c, w, m); }
//@ ret r
//@ spec
    requires self.wf(),
    ensures self.is_scaled(&r),
//@ start
    broadcast use lemma_fwd_auto;
    let ghost l = self.lvl();
    let ghost t = self.par.t();
    let ghost q = self.par.ctx(self.lvl()).rns.q();
    let ghost mut w: Seq<int> = arbitrary();
    let ghost mut c: Seq<int> = arbitrary();
    proof { reveal(BfvParameters::wf_pt); assert(self.par.wf_l(l)); assert(self.par.wf_cp(l)); lemma_mod_bound(q as int, t); lemma_same_q(&*self.poly_ntt.ctx, &self.par.ctx(l)); }
//@ end
//@ fn crates/fhe/src/bfv/plaintext.rs TryConvertFrom<&Plaintext>@Poly<PowerBasis>::try_convert_from as=Poly<PowerBasis>::from_pt
//@ subst if ctx != (match => if **ctx != **(match
//@ ret r
//@ sig
    pub fn from_pt(pt: &Plaintext, ctx: &Arc<Context>, variable_time: bool) -> (r: Result<Poly<PowerBasis>>)
//@ spec
    requires pt.wf(), ctx.wf(),
    ensures r is Ok <==> same(&**ctx, &pt.par.ctx(pt.lvl())),
        r matches Ok(p) ==> p.wf() && p.ctx == pt.poly_ntt.ctx && p.allow_variable_time_computations == variable_time && forall|m: Seq<int>| pt.holds(m) ==> #[trigger] p.coefs(m),
//@ start
    proof { assert(pt.par.wf_l(pt.lvl())); }
//@ ret-hint
    proof { if r_ is Ok { let p = r_->Ok_0; assert forall|m: Seq<int>| pt.holds(m) implies #[trigger] p.coefs(m) by { lemma_back_of(&pt.poly_ntt, &p, m); } } }
//@ end
// ---- the property: decoding inverts encoding --------------------------------
/// whatever v was encoded (with any encoding, at any level), decoding returns v modulo t, zero padded
pub proof fn lemma_round_trip(pt: &Plaintext, par: &Arc<BfvParameters>, e: Encoding, v: Seq<int>, vt: bool, o: Option<Encoding>, x: Seq<int>)
    requires pt.encoded(par, e, v, vt), pt.resolves(o) matches Some(f) && pt.decoded(f.encoding, x),
    ensures pt.resolves(o) == Some(e), x == par.padt(v),
{ }
/// decoding with the encoding used is never refused for want of an encoding
pub proof fn lemma_resolves(pt: &Plaintext, par: &Arc<BfvParameters>, e: Encoding, v: Seq<int>, vt: bool)
    requires pt.encoded(par, e, v, vt),
    ensures pt.resolves(Some(e)) == Some(e), pt.resolves(None) == Some(e), forall|f: Encoding| f != e ==> #[trigger] pt.resolves(Some(f)) is None,
{ }
