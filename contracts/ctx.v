//@ import rns
//@ import nttnew
// ---------------------------------------------------------------------------
// fhe-math/src/rq/context.rs : the chain of polynomial contexts
// ---------------------------------------------------------------------------
use vstd::arithmetic::div_mod::*;
use vstd::arithmetic::mul::*;
use vstd::arithmetic::power2::pow2;
use std::sync::Arc;
use vstd::std_specs::bits::u64_leading_zeros;

//@ struct crates/fhe-math/src/rq/context.rs Context

impl Context {
    pub open spec fn n(&self) -> int { self.moduli@.len() as int }
    pub open spec fn p(&self, i: int) -> int { self.moduli@[i] as int }
    pub open spec fn d(&self) -> int { self.degree as int }
    /// modulus i
    pub open spec fn wf_i(&self, i: int) -> bool {
        &&& self.q@[i].wf() && self.q@[i].p == self.moduli@[i]
        &&& self.ops@[i].p == self.q@[i] && self.ops@[i].size == self.degree && self.ops@[i].wfx() && self.ops@[i].rooted()
        &&& prime(self.p(i)) && self.p(i) % (2 * self.d()) == 1
    }
    pub open spec fn inv_i(&self, i: int) -> bool {
        &&& self.inv_last_qi_mod_qj@[i] < self.moduli@[i]
        &&& is_inv(self.moduli@.last() as int, self.inv_last_qi_mod_qj@[i] as int, self.p(i))
        &&& self.inv_last_qi_mod_qj_shoup@[i] == shoup_of(self.inv_last_qi_mod_qj@[i] as int, self.p(i))
    }
    /// this context, its chain aside
    pub open spec fn wf0(&self) -> bool {
        let n = self.moduli@.len();
        &&& 1 <= n <= usize::MAX && self.q@.len() == n && self.ops@.len() == n && self.bitrev@.len() == self.degree
        &&& 8 <= self.degree <= 0x1000_0000_0000_0000 && is_pow2(self.d())
        &&& self.rns.wf() && self.rns.moduli_u64@ == self.moduli@
        &&& forall|i: int| 0 <= i < n ==> #[trigger] self.wf_i(i)
        &&& forall|j: int| 0 <= j < self.d() ==> (#[trigger] self.bitrev@[j]) == brev(j, lgc(self.d()))
        &&& self.inv_last_qi_mod_qj@.len() == n - 1 && self.inv_last_qi_mod_qj_shoup@.len() == n - 1
        &&& forall|i: int| 0 <= i < n - 1 ==> #[trigger] self.inv_i(i)
    }
    /// well-formed, with its chain of contexts of fewer moduli
    pub open spec fn wf(&self) -> bool
        decreases self,
    {
        &&& self.wf0()
        &&& self.next_context is Some <==> self.moduli@.len() >= 2
        &&& match self.next_context {
            Some(c) => c.wf() && c.moduli@ == self.moduli@.drop_last() && c.degree == self.degree,
            None => true,
        }
    }
}
/// what a list of moduli and a degree must satisfy
pub open spec fn ctx_ok(m: Seq<u64>, d: int) -> bool {
    &&& is_pow2(d) && d >= 8 && m.len() >= 1 && inrange(m) && pairwise(m)
    &&& forall|i: int| 0 <= i < m.len() ==> (#[trigger] m[i]) as int % (2 * d) == 1 && prime(m[i] as int)
}

pub open spec fn row_i(m: Seq<u64>, d: int, i: int, q: Modulus, op: NttOperator) -> bool {
    &&& q.wf() && q.p == m[i]
    &&& op.p == q && op.size == d && op.wfx() && op.rooted()
    &&& prime(m[i] as int) && m[i] as int % (2 * d) == 1
}
pub proof fn lemma_degree(d: int, p: int)
    requires is_pow2(d), p % (2 * d) == 1, 2 <= p < 0x4000_0000_0000_0000, d >= 8,
    ensures d <= 0x1000_0000_0000_0000,
{
    if d > 0x1000_0000_0000_0000 { lemma_pow2_big(d); lemma_small_mod(p as nat, (2 * d) as nat); }
}
/// the last modulus is invertible modulo the others
pub proof fn lemma_last_inv(m: Seq<u64>, i: int)
    requires inrange(m), pairwise(m), 0 <= i < m.len() - 1,
    ensures m.last() as int % m[i] as int != 0,
{
    let (l, p) = (m.last() as int, m[i] as int);
    assert(coprime(m[m.len() - 1] as int, p));
    lemma_cop_inv(l, p);
    let x = choose|x: int| #[trigger] is_inv(l, x, p);
    lemma_mul_mod_noop_left(l, x, p);
    if l % p == 0 { assert(0 * x == 0); lemma_small_mod(0, p as nat); }
}
pub proof fn lemma_ctx_tail(m: Seq<u64>, d: int)
    requires ctx_ok(m, d), m.len() >= 2,
    ensures ctx_ok(m.drop_last(), d),
{
    let t = m.drop_last();
    assert forall|i: int| 0 <= i < t.len() implies 2 <= #[trigger] t[i] < 0x4000_0000_0000_0000 by { assert(t[i] == m[i]); }
    assert forall|i: int, j: int| 0 <= i < t.len() && 0 <= j < t.len() && i != j implies coprime(#[trigger] t[i] as int, #[trigger] t[j] as int) by { assert(t[i] == m[i] && t[j] == m[j]); }
    assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]) as int % (2 * d) == 1 && prime(t[i] as int) by { assert(t[i] == m[i]); }
}
//@ fn crates/fhe-math/src/rq/context.rs Context::new
//@ ret r
//@ subst degree.leading_zeros() => (degree as u64).leading_zeros()
//@ spec
    ensures
        r is Ok <==> ctx_ok(moduli@, degree as int),
        r matches Ok(c) ==> c.wf() && c.moduli@ == moduli@ && c.degree == degree,
    decreases moduli@.len(),
//@ start
    let ghost m = moduli@;
    let ghost d = degree as int;
    let ghost lg = lgc(d);
//@ loop 0
    invariant
        m == moduli@, d == degree, is_pow2(d), d >= 8, inrange(m), pairwise(m), m.len() > 0,
        outa_0@.len() == i_0, outb_0@.len() == i_0,
        forall|k: int| 0 <= k < i_0 ==> #[trigger] row_i(m, d, k, outa_0@[k], outb_0@[k]),
//@ loop-start 0
    proof { if ctx_ok(m, d) { assert(m[i_0 as int] as int % (2 * d) == 1 && prime(m[i_0 as int] as int)); } }
//@ loop-before 1
    proof {
        assert(row_i(m, d, 0, q@[0], ops@[0]));
        assert(2 <= m[0] < 0x4000_0000_0000_0000);
        lemma_degree(d, m[0] as int);
        lemma_lgs(degree, lg);
        assert(ctx_ok(m, d)) by {
            assert forall|i: int| 0 <= i < m.len() implies (#[trigger] m[i]) as int % (2 * d) == 1 && prime(m[i] as int) by { assert(row_i(m, d, i, q@[i], ops@[i])); }
        }
    }
//@ loop 1
    invariant
        d == degree, 3 <= lg <= 60, d == pow2(lg), lg == lgc(d), n_1 == d, u64_leading_zeros(degree as u64) == 63 - lg,
        out_1@.len() == i_1,
        forall|j: int| 0 <= j < i_1 ==> (#[trigger] out_1@[j]) == brev(j, lg),
//@ loop-start 1
    proof { lemma_rev_shift(degree, i_1, lg); }
//@ loop 2
    invariant
        v_lo3 == 0, n_2 == m.len() - 1, m == moduli@, q@.len() == m.len(), *q_last == m.last(), inrange(m), pairwise(m),
        q@.len() == ops@.len(), forall|k: int| 0 <= k < m.len() ==> #[trigger] row_i(m, d, k, q@[k], ops@[k]),
        inv_last_qi_mod_qj@.len() == i_2, inv_last_qi_mod_qj_shoup@.len() == i_2,
        forall|k: int| 0 <= k < i_2 ==> #[trigger] inv_ok(m, k, inv_last_qi_mod_qj@[k], inv_last_qi_mod_qj_shoup@[k]),
//@ loop-start 2
    proof {
        assert(row_i(m, d, i_2 as int, q@[i_2 as int], ops@[i_2 as int]));
        lemma_last_inv(m, i_2 as int);
    }
//@ loop-end 2
    proof { lemma_mul_mod_noop_left(m.last() as int, inv as int, m[i_2 as int] as int); }
//@ loop-after 2
    proof {
        if m.len() >= 2 { lemma_ctx_tail(m, d); }
        assert(m.subrange(0, m.len() - 1) =~= m.drop_last());
        assert forall|k: int| 0 <= k < m.len() - 1 implies
            inv_last_qi_mod_qj@[k] < m[k] && is_inv(m.last() as int, #[trigger] inv_last_qi_mod_qj@[k] as int, m[k] as int) && inv_last_qi_mod_qj_shoup@[k] == shoup_of(inv_last_qi_mod_qj@[k] as int, m[k] as int) by {
            assert(inv_ok(m, k, inv_last_qi_mod_qj@[k], inv_last_qi_mod_qj_shoup@[k]));
        }
    }
//@ ret-hint
    proof {
        if r_ is Ok {
            let c = r_->Ok_0;
            assert forall|i: int| 0 <= i < c.n() implies #[trigger] c.wf_i(i) by { assert(row_i(c.moduli@, c.d(), i, c.q@[i], c.ops@[i])); }
            assert forall|i: int| 0 <= i < c.n() - 1 implies #[trigger] c.inv_i(i) by { assert(inv_ok(c.moduli@, i, c.inv_last_qi_mod_qj@[i], c.inv_last_qi_mod_qj_shoup@[i])); }
        }
    }
//@ end
pub open spec fn inv_ok(m: Seq<u64>, i: int, x: u64, xs: u64) -> bool {
    &&& x < m[i] && is_inv(m.last() as int, x as int, m[i] as int)
    &&& xs == shoup_of(x as int, m[i] as int)
}

impl Clone for Context {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self)
        ensures r == *self,
    { unimplemented!() }
}
/// contexts of the same ring: the other fields are determined by these
pub open spec fn same(a: &Context, b: &Context) -> bool { a.moduli@ == b.moduli@ && a.degree == b.degree }
/// derived equality.  Assumed: construction is deterministic, so that contexts built for the
/// same moduli and degree have equal fields.
impl PartialEq for Context {
    #[verifier::external_body]
    fn eq(&self, o: &Self) -> (r: bool)
        ensures r ==> same(self, o), self.wf() && o.wf() && same(self, o) ==> r,
    { unimplemented!() }
}
pub assume_specification<T: ?Sized + PartialEq, A: core::alloc::Allocator> [<Arc<T, A> as PartialEq>::eq] (a: &Arc<T, A>, b: &Arc<T, A>) -> (r: bool)
    ensures call_ensures(T::eq, (&**a, &**b), r);
pub assume_specification<T: ?Sized, A: core::alloc::Allocator> [<Arc<T, A> as AsRef<T>>::as_ref] (a: &Arc<T, A>) -> (r: &T)
    ensures r == &**a;
/// the context k levels down
pub open spec fn at(c: Context, k: nat) -> Context
    decreases k,
{
    if k == 0 { c } else { match c.next_context { Some(n) => at(*n, (k - 1) as nat), None => c } }
}
/// b is the context a with some of the last moduli dropped
pub open spec fn below_ctx(a: &Context, b: &Context) -> bool {
    a.degree == b.degree && b.moduli@.len() <= a.moduli@.len() && b.moduli@ == a.moduli@.take(b.moduli@.len() as int)
}
pub proof fn lemma_at(c: Context, k: nat)
    requires c.wf(), k < c.n(),
    ensures at(c, k).wf(), at(c, k).degree == c.degree, at(c, k).moduli@ == c.moduli@.take(c.n() - k),
    decreases k,
{
    if k == 0 { assert(c.moduli@.take(c.n()) =~= c.moduli@); }
    else {
        let n: Context = *c.next_context->Some_0;
        lemma_at(n, (k - 1) as nat);
        assert(n.moduli@.take(n.n() - (k - 1)) =~= c.moduli@.take(c.n() - k));
    }
}
pub proof fn lemma_at_next(c: Context, k: nat)
    requires c.wf(), k + 1 < c.n(),
    ensures at(c, k).next_context is Some, *at(c, k).next_context->Some_0 == at(c, k + 1),
    decreases k,
{
    let n: Context = *c.next_context->Some_0;
    if k > 0 { lemma_at_next(n, (k - 1) as nat); } else { assert(at(n, 0) == n); assert(at(c, 1) == at(n, 0)); }
}
//@ fn crates/fhe-math/src/rq/context.rs Context::new_arc
//@ ret r
//@ spec
    ensures
        r is Ok <==> ctx_ok(moduli@, degree as int),
        r matches Ok(c) ==> c.wf() && c.moduli@ == moduli@ && c.degree == degree,
//@ end
//@ fn crates/fhe-math/src/rq/context.rs Context::modulus
//@ ret r
//@ spec
    requires self.wf(),
    ensures r.v() == prodm(self.moduli@),
//@ end
//@ fn crates/fhe-math/src/rq/context.rs Context::moduli
//@ ret r
//@ spec
    ensures r@ == self.moduli@,
//@ end
//@ fn crates/fhe-math/src/rq/context.rs Context::moduli_operators
//@ ret r
//@ spec
    ensures r@ == self.q@,
//@ end
//@ fn crates/fhe-math/src/rq/context.rs Context::niterations_to
//@ ret r
//@ attrs
#[verifier::allow_complex_invariants]
//@ subst let mut niterations = 0 => let mut niterations: usize = 0
//@ spec
    requires self.wf(), context.wf(),
    ensures
        r is Ok <==> below_ctx(self, context),
        r matches Ok(k) ==> k == self.n() - context.n(),
//@ start
    proof { assert(self.moduli@.take(self.n()) =~= self.moduli@); assert(at(*self, 0) == *self); }
//@ loop 0
    invariant_except_break
        !found,
        forall|k: nat| k <= niterations ==> !same(&#[trigger] at(*self, k), &**context),
    invariant
        self.wf(), context.wf(), *current_ctx == at(*self, niterations as nat), niterations < self.n(),
    ensures
        found ==> same(&at(*self, niterations as nat), &**context),
        !found ==> niterations + 1 == self.n() && forall|k: nat| k <= niterations ==> !same(&#[trigger] at(*self, k), &**context),
    decreases self.n() - niterations,
//@ loop-before 0
    proof { assert(at(*self, 0) == *self); lemma_at(*self, 0); }
//@ loop-start 0
    proof { lemma_at(*self, niterations as nat); lemma_at(*self, (niterations + 1) as nat); lemma_at_next(*self, niterations as nat); }
//@ loop-after 0
    proof {
        lemma_at(*self, niterations as nat);
        if !found && below_ctx(self, &**context) {
            let k = (self.n() - context.n()) as nat;
            lemma_at(*self, k);
            assert(!same(&at(*self, k), &**context));
        }
    }
//@ end
//@ fn crates/fhe-math/src/rq/context.rs Context::context_at_level
//@ ret r
//@ spec
    requires self.wf(),
    ensures
        r is Ok <==> i < self.n(),
        r matches Ok(c) ==> *c == at(*self, i as nat) && c.wf() && c.degree == self.degree && c.moduli@ == self.moduli@.take(self.n() - i),
//@ loop-before 0
    proof { assert(at(*self, 0) == *self); lemma_at(*self, i as nat); }
//@ loop 0
    invariant
        l_0 == 0, n_0 == i, *current_ctx == at(*self, i_0 as nat),
//@ loop-start 0
    proof { lemma_at(*self, i_0 as nat); lemma_at_next(*self, i_0 as nat); }
//@ end
