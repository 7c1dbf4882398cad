//@ import sem
//@ import conv
//@ import rnsscale
// ---------------------------------------------------------------------------
// fhe-math/src/rq/scaler.rs : scaling of polynomials
// ---------------------------------------------------------------------------
use vstd::arithmetic::div_mod::*;
use vstd::arithmetic::mul::*;
use std::sync::Arc;
use std::marker::PhantomData;
/// the operator of a modulus and a degree is always the same one (its construction is deterministic)
pub axiom fn lemma_same_op(a: &Context, b: &Context, i: int, w: Seq<u64>, y: Seq<int>)
    requires a.wf(), b.wf(), a.degree == b.degree, 0 <= i < a.n(), i < b.n(), a.p(i) == b.p(i), a.ops@[i].is_fwd(w, y),
    ensures b.ops@[i].is_fwd(w, y);
impl PartialEq for Modulus {
    #[verifier::external_body]
    fn eq(&self, o: &Self) -> (r: bool)
        ensures r ==> self.p == o.p,
    { unimplemented!() }
}
impl Array2<u64> {
    /// column j, from row k on
    #[verifier::external_body]
    pub fn vcol_from(&self, k: usize, j: usize) -> (r: Vec<u64>)
        requires rect(self), k < self.rows@.len(), j < self.rows@[0]@.len(),
        ensures r@.len() == self.rows@.len() - k, forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == self.rows@[k + i]@[j as int],
    { unimplemented!() }
    /// overwrites column j, from row k on
    #[verifier::external_body]
    pub fn vset_col_from(&mut self, k: usize, j: usize, c: &Vec<u64>)
        requires rect(old(self)), k < old(self).rows@.len(), j < old(self).rows@[0]@.len(), c@.len() == old(self).rows@.len() - k,
        ensures final(self).rows@.len() == old(self).rows@.len(),
            forall|i: int| 0 <= i < k ==> #[trigger] final(self).rows@[i] == old(self).rows@[i],
            forall|i: int| k <= i < old(self).rows@.len() ==> (#[trigger] final(self).rows@[i])@ == old(self).rows@[i]@.update(j as int, c@[i - k]),
    { unimplemented!() }
    /// rows a..b take the values of rows c..d of another matrix
    #[verifier::external_body]
    pub fn vassign_rows(&mut self, a: usize, b: usize, o: &Array2<u64>, c: usize, d: usize)
        requires a <= b <= old(self).rows@.len(), c <= d <= o.rows@.len(), b - a == d - c, forall|i: int| 0 <= i < b - a ==> (#[trigger] old(self).rows@[a + i])@.len() == o.rows@[c + i]@.len(),
        ensures final(self).rows@.len() == old(self).rows@.len(),
            forall|i: int| a <= i < b ==> (#[trigger] final(self).rows@[i])@ == o.rows@[c + (i - a)]@,
            forall|i: int| 0 <= i < a || b <= i < old(self).rows@.len() ==> #[trigger] final(self).rows@[i] == old(self).rows@[i],
    { unimplemented!() }
}
//@ struct crates/fhe-math/src/rq/scaler.rs Scaler
impl Scaler {
    pub open spec fn from(&self) -> Context { *self.from }
    pub open spec fn to(&self) -> Context { *self.to }
    pub open spec fn num(&self) -> int { self.scaler.num() }
    pub open spec fn den(&self) -> int { self.scaler.den() }
    pub open spec fn k(&self) -> int { self.number_common_moduli as int }
    /// invariant established by Scaler::new
    pub open spec fn wf(&self) -> bool {
        &&& self.from().wf() && self.to().wf() && self.from().degree == self.to().degree && self.num() >= 0 && self.den() > 0
        &&& self.scaler.wf() && self.scaler.from == self.from.rns && self.scaler.to == self.to.rns
        &&& self.k() <= self.from().n() && self.k() <= self.to().n() && (self.k() > 0 ==> self.num() == self.den())
        &&& forall|i: int| 0 <= i < self.k() ==> #[trigger] self.from().p(i) == self.to().p(i)
    }
}
/// the coefficients x of p: residues in coefficient form, values in NTT form
pub open spec fn rsem<R: RepresentationTag>(c: &Context, rows: Seq<Vec<u64>>, x: Seq<int>) -> bool {
    x.len() == c.d() && if R::tag() == Representation::PowerBasis { forall|i: int, j: int| 0 <= i < c.n() && 0 <= j < c.d() ==> (#[trigger] rows[i]@[j]) as int == x[j] % c.p(i) }
    else { forall|i: int| 0 <= i < c.n() ==> c.ops@[i].is_fwd((#[trigger] rows[i])@, x) }
}
/// column j of a matrix
pub open spec fn col(m: Seq<Vec<u64>>, j: int) -> Seq<u64> { Seq::new(m.len(), |i: int| m[i]@[j]) }
/// column j of the output (from row k on) is the scaled column j of the input
#[verifier::opaque]
pub open spec fn col_ok(s: &Scaler, m: Seq<Vec<u64>>, o: Seq<Vec<u64>>, j: int) -> bool {
    exists|y: int| #[trigger] rounds(sumg(col(m, j), s.scaler.from.garner@, s.scaler.from.n()) as int, s.scaler.qq(), s.num(), s.den(), y)
        && forall|i: int| s.k() <= i < s.to().n() ==> (#[trigger] o[i]@[j]) as int == y % s.to().p(i)
}
pub proof fn lemma_col_frame(s: &Scaler, m: Seq<Vec<u64>>, a: Seq<Vec<u64>>, b: Seq<Vec<u64>>, j: int)
    requires col_ok(s, m, a, j), forall|i: int| s.k() <= i < s.to().n() ==> (#[trigger] b[i])@[j] == a[i]@[j],
    ensures col_ok(s, m, b, j),
{
    reveal(col_ok);
    let y = choose|y: int| #[trigger] rounds(sumg(col(m, j), s.scaler.from.garner@, s.scaler.from.n()) as int, s.scaler.qq(), s.num(), s.den(), y)
        && forall|i: int| s.k() <= i < s.to().n() ==> (#[trigger] a[i]@[j]) as int == y % s.to().p(i);
    assert forall|i: int| s.k() <= i < s.to().n() implies (#[trigger] b[i]@[j]) as int == y % s.to().p(i) by { let r = b[i]; assert(r@[j] == a[i]@[j]); }
}
pub proof fn lemma_col_lt(s: &Scaler, m: Seq<Vec<u64>>, o: Seq<Vec<u64>>, j: int, i: int)
    requires s.wf(), col_ok(s, m, o, j), s.k() <= i < s.to().n(),
    ensures o[i]@[j] < s.to().p(i),
{
    reveal(col_ok);
    assert(s.to().wf_i(i));
    let y = choose|y: int| #[trigger] rounds(sumg(col(m, j), s.scaler.from.garner@, s.scaler.from.n()) as int, s.scaler.qq(), s.num(), s.den(), y)
        && forall|i: int| s.k() <= i < s.to().n() ==> (#[trigger] o[i]@[j]) as int == y % s.to().p(i);
    lemma_mod_bound(y, s.to().p(i));
    assert(o[i]@[j] as int == y % s.to().p(i));
}
/// what is needed of the coefficient form m of the input rows
pub open spec fn is_pb<R: RepresentationTag>(c: &Context, rows: Seq<Vec<u64>>, m: Seq<Vec<u64>>) -> bool {
    &&& dims(m, c.n(), c.d()) && forall|i: int| 0 <= i < c.n() ==> canon((#[trigger] m[i])@, c.p(i))
    &&& if R::tag() == Representation::PowerBasis { m == rows } else { forall|i: int| 0 <= i < c.n() ==> c.ops@[i].uniq(rows[i]@, (#[trigger] m[i])@) && c.ops@[i].is_fwd(rows[i]@, vals(m[i]@)) }
}
/// there are integer coefficients with the given residues
pub proof fn lemma_rsem_ex<R: RepresentationTag>(c: &Context, rows: Seq<Vec<u64>>, m: Seq<Vec<u64>>) -> (x: Seq<int>)
    requires c.wf(), is_pb::<R>(c, rows, m), R::tag() != Representation::NttShoup,
    ensures rsem::<R>(c, rows, x),
{
    let n = c.rns;
    let x = Seq::new(c.d() as nat, |j: int| sumg(col(m, j), n.garner@, n.n()) as int);
    assert forall|i: int, j: int| 0 <= i < c.n() && 0 <= j < c.d() implies (#[trigger] m[i]@[j]) as int == x[j] % c.p(i) by {
        let r = col(m, j);
        assert(c.wf_i(i)); assert(canon(m[i]@, c.p(i))); assert(n.m(i) == c.p(i));
        lemma_sumg_mod(&*n, r, i, n.n());
        assert(r[i] == m[i]@[j]); assert(m[i]@[j] < c.p(i));
        lemma_small_mod(m[i]@[j] as nat, c.p(i) as nat);
    }
    if R::tag() != Representation::PowerBasis {
        assert forall|i: int| 0 <= i < c.n() implies c.ops@[i].is_fwd((#[trigger] rows[i])@, x) by {
            let mi = m[i]; assert(c.wf_i(i));
            let v = vals(mi@);
            assert forall|k: int| 0 <= k < v.len() implies eqm(#[trigger] v[k], x[k], c.ops@[i].p.p as int) by { assert(m[i]@[k] as int == x[k] % c.p(i)); eqm_self(x[k], c.p(i)); }
            c.ops@[i].lemma_fwd_cong(rows[i]@, v, x);
        }
    }
    x
}
/// b is a, scaled by num / den (to another context)
pub open spec fn scaled_to<R: RepresentationTag>(a: &Poly<R>, b: &Poly<R>, num: int, den: int) -> bool {
    forall|x: Seq<int>| #[trigger] rsem::<R>(&*a.ctx, a.rows(), x) ==> exists|y: Seq<int>| #[trigger] rsem::<R>(&*b.ctx, b.rows(), y) && resc(x, a.ctx.rns.q(), num, den, y)
}
pub open spec fn has_sem<R: RepresentationTag>(a: &Poly<R>) -> bool { exists|x: Seq<int>| #[trigger] rsem::<R>(&*a.ctx, a.rows(), x) }
/// the rows after the copy and the column scaling; the rows after the transform
pub open spec fn is_out<R: RepresentationTag>(s: &Scaler, p: Seq<Vec<u64>>, m: Seq<Vec<u64>>, o: Seq<Vec<u64>>, f: Seq<Vec<u64>>) -> bool {
    let c = s.to();
    &&& forall|i: int| 0 <= i < s.k() ==> (#[trigger] f[i])@ == p[i]@
    &&& s.k() < c.n() ==> forall|j: int| 0 <= j < c.d() ==> #[trigger] col_ok(s, m, o, j)
    &&& forall|i: int| s.k() <= i < c.n() ==> if R::tag() == Representation::PowerBasis { (#[trigger] f[i])@ == o[i]@ } else { c.ops@[i].is_fwd((#[trigger] f[i])@, vals(o[i]@)) }
}
pub proof fn lemma_rounds_shift(x: int, z: int, q: int, num: int, den: int, y: int)
    requires q > 0, rounds(x, q, num, den, y), x % q == z % q,
    ensures rounds(z, q, num, den, y),
{
    let k = choose|k: int| cent(#[trigger] (x + k * q), q) && near(num * (x + k * q), den, y);
    lemma_fundamental_div_mod(x, q); lemma_fundamental_div_mod(z, q);
    let k2 = k + x / q - z / q;
    assert(z + k2 * q == x + k * q) by(nonlinear_arith) requires x == q * (x / q) + x % q, z == q * (z / q) + z % q, x % q == z % q, k2 == k + x / q - z / q;
}
/// factor one: the result differs from x by a multiple of q
pub proof fn lemma_rounds_one(x: int, q: int, d: int, y: int) -> (k: int)
    requires d > 0, rounds(x, q, d, d, y),
    ensures y == x + k * q,
{
    let k = choose|k: int| cent(#[trigger] (x + k * q), q) && near(d * (x + k * q), d, y);
    let z = x + k * q;
    assert(d * y - d * z == d * (y - z)) by(nonlinear_arith);
    assert(y == z) by(nonlinear_arith) requires -(d * 0x1000000000002) <= (d * (y - z)) * 0x2000000000000 <= d * 0x1000000000002, d > 0;
    k
}
/// coefficient j of the input, as the scaler sees it
pub proof fn lemma_col_in<R: RepresentationTag>(s: &Scaler, c: &Context, rows: Seq<Vec<u64>>, m: Seq<Vec<u64>>, x: Seq<int>, j: int)
    requires s.wf(), c.wf(), same(c, &s.from()), is_pb::<R>(c, rows, m), rsem::<R>(c, rows, x), 0 <= j < s.from().d(),
    ensures sumg(col(m, j), s.scaler.from.garner@, s.scaler.from.n()) as int % s.scaler.qq() == x[j] % s.scaler.qq(), s.scaler.qq() > 0,
{
    let r = col(m, j); let n = s.scaler.from;
    assert forall|i: int| 0 <= i < n.n() implies #[trigger] r[i] as int == x[j] % n.m(i) by {
        assert(c.wf_i(i));
        if R::tag() == Representation::PowerBasis { assert(rows[i]@[j] as int == x[j] % c.p(i)); }
        else {
            assert(canon(m[i]@, c.p(i)));
            assert(c.ops@[i].is_fwd(rows[i]@, x));
            c.ops@[i].lemma_back(rows[i]@, m[i]@, x);
        }
    }
    lemma_lift_project(&*n, x[j], r);
    lemma_prod_pos(n.moduli_u64@);
}
pub open spec fn yis(s: &Scaler, x: Seq<int>, o: Seq<Vec<u64>>, j: int, y: int) -> bool {
    rounds(x[j], s.scaler.qq(), s.num(), s.den(), y) && forall|i: int| s.k() <= i < s.to().n() ==> (#[trigger] o[i]@[j]) as int == y % s.to().p(i)
}
pub open spec fn hasy(s: &Scaler, x: Seq<int>, o: Seq<Vec<u64>>, j: int) -> bool { exists|y: int| yis(s, x, o, j, y) }
/// scaling is scaling of every coefficient
pub proof fn lemma_scale<R: RepresentationTag>(s: &Scaler, cf: &Context, p: Seq<Vec<u64>>, m: Seq<Vec<u64>>, o: Seq<Vec<u64>>, f: Seq<Vec<u64>>, x: Seq<int>) -> (y: Seq<int>)
    requires s.wf(), cf.wf(), same(cf, &s.from()), R::tag() != Representation::NttShoup, s.k() < s.to().n() ==> is_pb::<R>(cf, p, m), is_out::<R>(s, p, m, o, f), rsem::<R>(cf, p, x), s.k() < s.to().n() ==> dims(o, s.to().n(), s.to().d()), dims(f, s.to().n(), s.to().d()),
    ensures rsem::<R>(&s.to(), f, y), resc(x, s.from().rns.q(), s.num(), s.den(), y),
{
    let c = s.to(); let d = c.d(); let q = s.scaler.qq(); let k0 = s.k();
    let g = |j: int| sumg(col(m, j), s.scaler.from.garner@, s.scaler.from.n()) as int;
    assert forall|j: int| 0 <= j < d implies #[trigger] hasy(s, x, o, j) by {
        lemma_prod_pos(s.scaler.from.moduli_u64@);
        if k0 < c.n() {
            lemma_col_in::<R>(s, cf, p, m, x, j);
            assert(col_ok(s, m, o, j));
            reveal(col_ok);
            let y = choose|y: int| #[trigger] rounds(sumg(col(m, j), s.scaler.from.garner@, s.scaler.from.n()) as int, s.scaler.qq(), s.num(), s.den(), y)
                && forall|i: int| s.k() <= i < s.to().n() ==> (#[trigger] o[i]@[j]) as int == y % s.to().p(i);
            lemma_rounds_shift(g(j), x[j], q, s.num(), s.den(), y);
            assert(yis(s, x, o, j, y));
        } else {
            let y = lemma_round_one_ex(x[j], q, s.den());
            assert(yis(s, x, o, j, y));
        }
    }
    let y = Seq::new(d as nat, |j: int| choose|y: int| yis(s, x, o, j, y));
    assert forall|j: int| 0 <= j < d implies yis(s, x, o, j, #[trigger] y[j]) by { assert(hasy(s, x, o, j)); }
    assert(resc(x, q, s.num(), s.den(), y)) by { assert forall|j: int| 0 <= j < d implies rounds(x[j], q, s.num(), s.den(), #[trigger] y[j]) by { assert(yis(s, x, o, j, y[j])); } }
    // common rows: y is x modulo the modulus
    assert forall|i: int, j: int| 0 <= i < k0 && 0 <= j < d implies #[trigger] eqm(x[j], y[j], c.p(i)) by {
        assert(yis(s, x, o, j, y[j]));
        let k = lemma_rounds_one(x[j], q, s.den(), y[j]);
        let n = s.scaler.from; 
        assert(s.from().wf_i(i)); assert(s.from().p(i) == c.p(i)); assert(n.m(i) == c.p(i));
        lemma_div_prodm(n.moduli_u64@, i);
        lemma_mult_eqm(x[j], y[j], k, q, c.p(i));
    }
    if R::tag() == Representation::PowerBasis {
        assert forall|i: int, j: int| 0 <= i < c.n() && 0 <= j < d implies (#[trigger] f[i]@[j]) as int == y[j] % c.p(i) by {
            assert(yis(s, x, o, j, y[j]));
            let fr = f[i];
            if i < k0 {
                assert(fr@ == p[i]@); assert(s.from().p(i) == c.p(i)); assert(p[i]@[j] as int == x[j] % cf.p(i));
                assert(eqm(x[j], y[j], c.p(i))); eqm_get(x[j], y[j], c.p(i));
            } else { assert(fr@ == o[i]@); assert(o[i]@[j] as int == y[j] % c.p(i)); }
        }
    } else {
        assert forall|i: int| 0 <= i < c.n() implies c.ops@[i].is_fwd((#[trigger] f[i])@, y) by {
            let fr = f[i];
            assert(c.wf_i(i));
            if i < k0 {
                assert(fr@ == p[i]@);
                assert(s.from().p(i) == c.p(i));
                assert(cf.p(i) == c.p(i)); assert(cf.ops@[i].is_fwd(p[i]@, x));
                lemma_same_op(cf, &c, i, p[i]@, x);
                assert forall|k: int| 0 <= k < x.len() implies eqm(#[trigger] x[k], y[k], c.ops@[i].p.p as int) by { assert(eqm(x[k], y[k], c.p(i))); }
                c.ops@[i].lemma_fwd_cong(fr@, x, y);
            } else {
                let v = vals(o[i]@);
                assert(c.ops@[i].is_fwd(fr@, v));
                assert forall|k: int| 0 <= k < v.len() implies eqm(#[trigger] v[k], y[k], c.ops@[i].p.p as int) by { assert(yis(s, x, o, k, y[k])); assert(o[i]@[k] as int == y[k] % c.p(i)); eqm_self(y[k], c.p(i)); }
                c.ops@[i].lemma_fwd_cong(fr@, v, y);
            }
        }
    }
    y
}
pub proof fn lemma_mult_eqm(x: int, y: int, k: int, q: int, p: int)
    requires p > 0, y == x + k * q, q % p == 0,
    ensures eqm(x, y, p),
{
    lemma_fundamental_div_mod(q, p);
    assert(x == y + (-(k * (q / p))) * p) by(nonlinear_arith) requires y == x + k * q, q == p * (q / p);
    eqm_of(x, y, -(k * (q / p)), p);
}
/// a centered representative exists
pub proof fn lemma_round_one_ex(x: int, q: int, d: int) -> (y: int)
    requires q > 0, d > 0,
    ensures rounds(x, q, d, d, y),
{
    lemma_fundamental_div_mod(x, q); lemma_mod_bound(x, q);
    let r = x % q; let k = if 2 * r > q { -(x / q) - 1 } else { -(x / q) };
    let y = x + k * q;
    assert(y == if 2 * r > q { r - q } else { r }) by(nonlinear_arith) requires x == q * (x / q) + r, k == (if 2 * r > q { -(x / q) - 1 } else { -(x / q) }), y == x + k * q;
    assert(cent(x + k * q, q));
    assert(d * y - d * (x + k * q) == 0);
    assert(near(d * (x + k * q), d, y));
    y
}
//@ fn crates/fhe-math/src/rq/scaler.rs Scaler::new
//@ ret r
//@ spec
    requires from.wf(), to.wf(), factor.wf(), from.n() <= 1024,
    ensures r is Ok <==> from.degree == to.degree,
        r matches Ok(s) ==> s.wf() && s.from == *from && s.to == *to && s.num() == factor.numerator.v() && s.den() == factor.denominator.v(),
//@ loop 0
    invariant
        from.wf(), to.wf(), n_0 <= from.n(), n_0 <= to.n(), acc_0 <= i_0, !stop_0 ==> acc_0 == i_0,
        forall|i: int| 0 <= i < acc_0 ==> #[trigger] from.p(i) == to.p(i),
//@ loop-start 0
    proof { assert(from.wf_i(i_0 as int)); assert(to.wf_i(i_0 as int)); }
//@ end
//@ fn crates/fhe-math/src/rq/scaler.rs Scaler::scale
//@ subst p.ctx.as_ref() != self.from.as_ref() => *p.ctx != *self.from
//@ subst Cow<'_, Array2<u64>> => Array2<u64>
//@ subst Cow::Owned(owned) => owned
//@ subst Cow::Borrowed(&p.coefficients) => p.coefficients.clone()
//@ sig
    pub fn scale<R: RepresentationTag>(&self, p: &Poly<R>) -> (r: Result<Poly<R>>)
//@ attrs
#[verifier::rlimit(80)]
//@ spec
    requires self.wf(), p.wf(), R::tag() != Representation::NttShoup,
    ensures r is Ok <==> same(&*p.ctx, &self.from()),
        r matches Ok(o) ==> o.wf() && *o.ctx == self.to() && o.allow_variable_time_computations == p.allow_variable_time_computations
            && scaled_to::<R>(p, &o, self.num(), self.den()) && (self.k() < self.to().n() ==> has_sem::<R>(p)),
//@ ret-hint
    proof {
        if r_ is Ok {
            let o = r_->Ok_0;
            assert(dims(o.rows(), self.to().n(), self.to().d()));
            if self.k() == self.to().n() {
                assert forall|i: int| 0 <= i < self.to().n() implies canon((#[trigger] o.rows()[i])@, self.to().p(i)) by {
                    let r = o.rows()[i]; assert(self.to().wf_i(i));
                    assert(r@ == p.rows()[i]@); assert(canon(p.rows()[i]@, p.p(i))); assert(self.from().p(i) == self.to().p(i));
                }
            }
            assert(o.can());
            assert(o.wf());
            assert forall|x: Seq<int>| #[trigger] rsem::<R>(&*p.ctx, p.rows(), x) implies exists|y: Seq<int>| #[trigger] rsem::<R>(&*o.ctx, o.rows(), y) && resc(x, p.ctx.rns.q(), self.num(), self.den(), y) by {
                let y = lemma_scale::<R>(self, &*p.ctx, p.rows(), g_m, g_o, o.rows(), x);
            }
            if self.k() < self.to().n() { let x = lemma_rsem_ex::<R>(&*p.ctx, p.rows(), g_m); }
        }
    }
//@ start
    let ghost mut g_m: Seq<Vec<u64>> = arbitrary();
    let ghost mut g_o: Seq<Vec<u64>> = arbitrary();
    let ghost mut g_f: Seq<Vec<u64>> = arbitrary();
    proof {  }
//@ loop 0
    invariant
        self.wf(), p.wf(), same(&*p.ctx, &self.from()), n_0 == p.n(), dims(owned.rows@, p.n(), p.d()),
        forall|i: int| i_0 <= i < p.n() ==> (#[trigger] owned.rows@[i])@ == p.rows()[i]@,
        forall|i: int| 0 <= i < i_0 ==> canon((#[trigger] owned.rows@[i])@, p.p(i)),
        forall|i: int| 0 <= i < i_0 ==> p.ctx.ops@[i].uniq(p.rows()[i]@, (#[trigger] owned.rows@[i])@) && p.ctx.ops@[i].is_fwd(p.rows()[i]@, vals(owned.rows@[i]@)),
//@ loop-start 0
    proof { reveal(NttOperator::uniq); assert(p.ctx.wf_i(i_0 as int)); assert(canon(p.rows()[i_0 as int]@, p.p(i_0 as int))); assert(owned.rows@[i_0 as int]@ == p.rows()[i_0 as int]@); }
//@ loop 1
    invariant
        self.wf(), p.wf(), same(&*p.ctx, &self.from()), n_1 == p.n(), dims(owned.rows@, p.n(), p.d()),
        forall|i: int| i_1 <= i < p.n() ==> (#[trigger] owned.rows@[i])@ == p.rows()[i]@,
        forall|i: int| 0 <= i < i_1 ==> canon((#[trigger] owned.rows@[i])@, p.p(i)),
        forall|i: int| 0 <= i < i_1 ==> p.ctx.ops@[i].uniq(p.rows()[i]@, (#[trigger] owned.rows@[i])@) && p.ctx.ops@[i].is_fwd(p.rows()[i]@, vals(owned.rows@[i]@)),
//@ loop-start 1
    proof { reveal(NttOperator::uniq); assert(p.ctx.wf_i(i_1 as int)); assert(canon(p.rows()[i_1 as int]@, p.p(i_1 as int))); assert(owned.rows@[i_1 as int]@ == p.rows()[i_1 as int]@); }
//@ loop-before 2
    proof {
        g_m = p_coefficients_powerbasis.rows@;
        assert(is_pb::<R>(&*p.ctx, p.rows(), g_m));
    }
//@ loop 2
    invariant
        self.wf(), p.wf(), n_2 == self.to().d(), self.k() < self.to().n(), v_lo1 == self.k(), dims(new_coefficients.rows@, self.to().n(), self.to().d()), p_coefficients_powerbasis.rows@ == g_m,
        same(&*p.ctx, &self.from()), is_pb::<R>(&*p.ctx, p.rows(), g_m),
        forall|i: int| 0 <= i < self.k() ==> (#[trigger] new_coefficients.rows@[i])@ == p.rows()[i]@,
        forall|j: int| 0 <= j < i_2 ==> #[trigger] col_ok(self, g_m, new_coefficients.rows@, j),
        forall|i: int, j: int| self.k() <= i < self.to().n() && 0 <= j < i_2 ==> (#[trigger] new_coefficients.rows@[i]@[j]) < self.to().p(i),
//@ loop-start 2
    let ghost pre = new_coefficients.rows@;
    proof { 
        let c = col(g_m, i_2 as int);
        assert(p_coefficients_powerbasis.rows@[0]@.len() == self.from().d()) by { let r = g_m[0]; }
        assert(new_coefficients.rows@[0]@.len() == self.from().d()) by { let r = pre[0]; }
        assert(self.scaler.rests(c)) by {
            assert forall|i: int| 0 <= i < self.from().n() implies #[trigger] c[i] < self.scaler.from.m(i) by { assert(self.from().wf_i(i)); assert(canon(g_m[i]@, self.from().p(i))); }
        }
    }
//@ loop-end 2
    proof {
        let post = new_coefficients.rows@; let j0 = i_2 as int;
        assert(col(g_m, j0) =~= column@);
        assert(col_ok(self, g_m, post, j0)) by {
            reveal(col_ok);
            let g = sumg(col(g_m, j0), self.scaler.from.garner@, self.scaler.from.n()) as int;
            let y = choose|y: int| #[trigger] rounds(g, self.scaler.qq(), self.num(), self.den(), y) && forall|i: int| self.k() <= i < self.to().n() ==> (#[trigger] post[i]@[j0]) as int == y % self.scaler.to.m(i);
            assert forall|i: int| self.k() <= i < self.to().n() implies (#[trigger] post[i]@[j0]) as int == y % self.to().p(i) by { let r = post[i]; assert(r@[j0] as int == y % self.scaler.to.m(i)); }
        }
        assert forall|j: int| 0 <= j < i_2 implies #[trigger] col_ok(self, g_m, post, j) by {
            assert forall|i: int| self.k() <= i < self.to().n() implies (#[trigger] post[i])@[j] == pre[i]@[j] by { let r = pre[i]; }
            assert(col_ok(self, g_m, pre, j));
            lemma_col_frame(self, g_m, pre, post, j);
        }
        assert forall|i: int, j: int| self.k() <= i < self.to().n() && 0 <= j < i_2 + 1 implies (#[trigger] post[i]@[j]) < self.to().p(i) by {
            let r = pre[i]; let r2 = post[i]; assert(self.to().wf_i(i));
            if j == j0 { lemma_col_lt(self, g_m, post, j0, i); } else { assert(post[i]@[j] == pre[i]@[j]); }
        }
    }
//@ loop-after 2
    proof {
        g_o = new_coefficients.rows@;
        assert forall|i: int| 0 <= i < self.to().n() implies canon((#[trigger] g_o[i])@, self.to().p(i)) by {
            let r = g_o[i]; assert(self.to().wf_i(i));
            if i < self.k() { assert(r@ == p.rows()[i]@); assert(canon(p.rows()[i]@, p.p(i))); assert(self.from().p(i) == self.to().p(i)); }
            else { assert forall|j: int| 0 <= j < r@.len() implies (#[trigger] r@[j]) < self.to().p(i) by { assert(g_o[i]@[j] < self.to().p(i)); } }
        }
    }
//@ loop 3
    invariant
        self.wf(), p.wf(), n_3 == self.to().n() - self.k(), v_lo3 == self.k(), v_lo5 == self.k(), dims(new_coefficients.rows@, self.to().n(), self.to().d()), dims(g_o, self.to().n(), self.to().d()),
        self.k() < self.to().n(),
        forall|i: int| 0 <= i < self.to().n() ==> canon((#[trigger] g_o[i])@, self.to().p(i)),
        forall|i: int| 0 <= i < self.k() ==> (#[trigger] new_coefficients.rows@[i])@ == g_o[i]@,
        forall|i: int| self.k() + i_3 <= i < self.to().n() ==> (#[trigger] new_coefficients.rows@[i])@ == g_o[i]@,
        forall|i: int| self.k() <= i < self.k() + i_3 ==> canon((#[trigger] new_coefficients.rows@[i])@, self.to().p(i)),
        forall|i: int| self.k() <= i < self.k() + i_3 ==> self.to().ops@[i].is_fwd((#[trigger] new_coefficients.rows@[i])@, vals(g_o[i]@)),
//@ loop-start 3
    proof { let i = (self.k() + i_3) as int; assert(self.to().wf_i(i)); assert(canon(g_o[i]@, self.to().p(i))); assert(new_coefficients.rows@[i]@ == g_o[i]@); }
//@ loop 4
    invariant
        self.wf(), p.wf(), n_4 == self.to().n() - self.k(), v_lo7 == self.k(), v_lo9 == self.k(), dims(new_coefficients.rows@, self.to().n(), self.to().d()), dims(g_o, self.to().n(), self.to().d()),
        self.k() < self.to().n(),
        forall|i: int| 0 <= i < self.to().n() ==> canon((#[trigger] g_o[i])@, self.to().p(i)),
        forall|i: int| 0 <= i < self.k() ==> (#[trigger] new_coefficients.rows@[i])@ == g_o[i]@,
        forall|i: int| self.k() + i_4 <= i < self.to().n() ==> (#[trigger] new_coefficients.rows@[i])@ == g_o[i]@,
        forall|i: int| self.k() <= i < self.k() + i_4 ==> canon((#[trigger] new_coefficients.rows@[i])@, self.to().p(i)),
        forall|i: int| self.k() <= i < self.k() + i_4 ==> self.to().ops@[i].is_fwd((#[trigger] new_coefficients.rows@[i])@, vals(g_o[i]@)),
//@ loop-start 4
    proof { let i = (self.k() + i_4) as int; assert(self.to().wf_i(i)); assert(canon(g_o[i]@, self.to().p(i))); assert(new_coefficients.rows@[i]@ == g_o[i]@); }
//@ end
//@ struct crates/fhe-math/src/rq/switcher.rs Switcher
impl Switcher {
    pub open spec fn from(&self) -> Context { self.scaler.from() }
    pub open spec fn to(&self) -> Context { self.scaler.to() }
    /// invariant established by Switcher::new
    pub open spec fn wf(&self) -> bool { self.scaler.wf() && self.scaler.num() == self.to().rns.q() && self.scaler.den() == self.from().rns.q() }
}
//@ fn crates/fhe-math/src/rq/switcher.rs Switcher::new
//@ ret r
//@ spec
    requires from.wf(), to.wf(), from.n() <= 1024,
    ensures r is Ok <==> from.degree == to.degree, r matches Ok(s) ==> s.wf() && s.from() == **from && s.to() == **to,
//@ start
    proof { lemma_prod_pos(from.rns.moduli_u64@); lemma_prod_pos(to.rns.moduli_u64@); }
//@ end
//@ fn crates/fhe-math/src/rq/switcher.rs Switcher::switch
//@ sig
    pub fn switch<R: RepresentationTag>(&self, p: &Poly<R>) -> (r: Result<Poly<R>>)
//@ spec
    requires self.wf(), p.wf(), R::tag() != Representation::NttShoup,
    ensures r is Ok <==> same(&*p.ctx, &self.from()),
        r matches Ok(o) ==> o.wf() && *o.ctx == self.to() && o.allow_variable_time_computations == p.allow_variable_time_computations
            && scaled_to::<R>(p, &o, self.to().rns.q(), self.from().rns.q()) && (self.scaler.k() < self.to().n() ==> has_sem::<R>(p)),
//@ end
//@ fn crates/fhe-math/src/rq/mod.rs Poly<R>::scale as=<R:RepresentationTag>Poly<R>::scale
//@ ret r
//@ spec
    requires scaler.wf(), self.wf(), R::tag() != Representation::NttShoup,
    ensures r is Ok <==> same(&*self.ctx, &scaler.from()),
        r matches Ok(o) ==> o.wf() && *o.ctx == scaler.to() && o.allow_variable_time_computations == self.allow_variable_time_computations
            && scaled_to::<R>(self, &o, scaler.num(), scaler.den()) && (scaler.k() < scaler.to().n() ==> has_sem::<R>(self)),
//@ end
//@ fn crates/fhe-math/src/rq/mod.rs Poly<R>::switch as=<R:RepresentationTag>Poly<R>::switch
//@ ret r
//@ spec
    requires switcher.wf(), self.wf(), R::tag() != Representation::NttShoup,
    ensures r is Ok <==> same(&*self.ctx, &switcher.from()),
        r matches Ok(o) ==> o.wf() && *o.ctx == switcher.to() && o.allow_variable_time_computations == self.allow_variable_time_computations
            && scaled_to::<R>(self, &o, switcher.to().rns.q(), switcher.from().rns.q()) && (switcher.scaler.k() < switcher.to().n() ==> has_sem::<R>(self)),
//@ end
/// the same, for coefficient form
pub broadcast proof fn lemma_scaled_pb(a: &Poly<PowerBasis>, b: &Poly<PowerBasis>, num: int, den: int)
    ensures #[trigger] scaled_to::<PowerBasis>(a, b, num, den) ==> a.d() == b.d() ==> forall|x: Seq<int>| #[trigger] a.coefs(x) ==> exists|y: Seq<int>| #[trigger] b.coefs(y) && resc(x, a.ctx.rns.q(), num, den, y),
{
    if scaled_to::<PowerBasis>(a, b, num, den) && a.d() == b.d() {
        assert forall|x: Seq<int>| #[trigger] a.coefs(x) implies exists|y: Seq<int>| #[trigger] b.coefs(y) && resc(x, a.ctx.rns.q(), num, den, y) by {
            assert(rsem::<PowerBasis>(&*a.ctx, a.rows(), x)) by {
                assert forall|i: int, j: int| 0 <= i < a.n() && 0 <= j < a.d() implies (#[trigger] a.rows()[i]@[j]) as int == x[j] % a.p(i) by { assert(a.is_int(j, x[j])); let r = a.rows()[i]; assert(r@[j] as int == x[j] % a.p(i)); }
            }
            let y = choose|y: Seq<int>| #[trigger] rsem::<PowerBasis>(&*b.ctx, b.rows(), y) && resc(x, a.ctx.rns.q(), num, den, y);
            assert(b.coefs(y)) by {
                assert forall|j: int| 0 <= j < b.d() implies b.is_int(j, #[trigger] y[j]) by {
                    assert forall|i: int| 0 <= i < b.n() implies (#[trigger] b.rows()[i])@[j] as int == y[j] % b.p(i) by { assert(b.rows()[i]@[j] as int == y[j] % b.p(i)); }
                }
            }
        }
    }
}
