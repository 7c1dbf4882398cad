//@ import sem
//@ import scl
// ---------------------------------------------------------------------------
// fhe/src/bfv/parameters.rs, context/*.rs : levels of the parameters
// ---------------------------------------------------------------------------
use std::sync::Arc;
//@ struct crates/fhe/src/bfv/context/cipher_plain_context.rs CipherPlainContext
//@ struct crates/fhe/src/bfv/parameters.rs MultiplicationParameters
//@ struct crates/fhe/src/bfv/context/level.rs ContextLevel
//@ struct crates/fhe/src/bfv/parameters.rs PlaintextModulus
//@ struct crates/fhe/src/bfv/parameters.rs BfvParameters


/// the same object: in particular equal values (identity itself is not modelled)
pub assume_specification<T: ?Sized, A: core::alloc::Allocator> [Arc::<T, A>::ptr_eq] (a: &Arc<T, A>, b: &Arc<T, A>) -> (r: bool)
    ensures r ==> *a == *b;

impl PlaintextModulus {
    pub open spec fn t(&self) -> int { self.value.v() as int }
    /// the cached form is there exactly when the modulus fits in a word
    pub open spec fn wf(&self) -> bool {
        &&& self.t() >= 2
        &&& self.small is Some <==> self.t() <= u64::MAX
        &&& self.small matches Some(m) ==> m.wf() && m.p == self.t()
    }
}
/// the constant polynomial x
pub open spec fn constp(d: int, x: int) -> Seq<int> { Seq::new(d as nat, |j: int| if j == 0 { x } else { 0 }) }
/// c * t == -1 modulo every modulus
pub open spec fn neg_inv_t(c: &Context, x: int, t: int) -> bool { forall|i: int| 0 <= i < c.n() ==> (x * t + 1) % #[trigger] c.p(i) == 0 }
impl BfvParameters {
    pub open spec fn deg(&self) -> int { self.polynomial_degree as int }
    pub open spec fn t(&self) -> int { self.plaintext.t() }
    pub open spec fn op(&self) -> NttOperator { *self.ntt_operator->Some_0 }
    /// where slot i is stored
    pub open spec fn slot(&self, i: int) -> int { self.matrix_reps_index_map@[i] as int }
    pub open spec fn simd(&self) -> bool { self.ntt_operator is Some }
    /// scaling constants of level l
    pub open spec fn wf_cp(&self, l: int) -> bool {
        let c = *self.context_levels@[l].cipher_plain_context;
        &&& c.delta.wf() && same(&*c.delta.ctx, &self.ctx(l))
        &&& c.q_mod_t.v() == self.ctx(l).rns.q() % self.t()
        &&& exists|x: int| c.delta.isx(#[trigger] constp(self.deg(), x)) && neg_inv_t(&self.ctx(l), x, self.t())
        &&& c.scaler.wf() && same(&c.scaler.from(), &self.ctx(l)) && c.scaler.to() == *c.plaintext_context && c.scaler.num() == self.t() && c.scaler.den() == self.ctx(l).rns.q()
        &&& c.plaintext_context.moduli@.len() >= 1 && c.plaintext_context.moduli@[0] == self.moduli@[0]
    }
    /// the plaintext side: modulus, slots, scaling constants
    #[verifier::opaque]
    pub open spec fn wf_pt(&self) -> bool {
        &&& self.plaintext.wf() && self.deg() >= 1
        &&& self.simd() ==> {
            &&& self.plaintext.small is Some && self.op().p.p == self.t() && self.op().size == self.deg() && self.op().wfx()
            &&& self.matrix_reps_index_map@.len() == self.deg()
            &&& forall|i: int| 0 <= i < self.deg() ==> 0 <= #[trigger] self.slot(i) < self.deg()
            &&& forall|i: int, j: int| 0 <= i < self.deg() && 0 <= j < self.deg() && i != j ==> #[trigger] self.slot(i) != #[trigger] self.slot(j)
        }
        &&& forall|l: int| 0 <= l < self.lv() ==> #[trigger] self.wf_cp(l)
    }
    pub open spec fn lv(&self) -> int { self.context_levels@.len() as int }
    /// the ciphertext context of level l
    pub open spec fn ctx(&self, l: int) -> Context { *self.context_levels@[l].poly_context }
    pub open spec fn wf_l(&self, l: int) -> bool {
        &&& self.ctx(l).wf()
        &&& self.ctx(l).moduli@ == self.moduli@.subrange(0, self.lv() - l)
        &&& self.ctx(l).degree == self.polynomial_degree
        &&& self.context_levels@[l].level == l
    }
    /// invariant of built parameters (established by BfvParametersBuilder::build, see C21)
    pub open spec fn wf(&self) -> bool {
        &&& 1 <= self.lv() <= usize::MAX && self.moduli@.len() == self.lv()
        &&& forall|l: int| 0 <= l < self.lv() ==> #[trigger] self.wf_l(l)
        &&& self.wf_pt()
    }
}
/// a context belongs to at most one level
pub proof fn lemma_level_unique(p: &BfvParameters, a: int, b: int)
    requires p.wf(), 0 <= a < p.lv(), 0 <= b < p.lv(), same(&p.ctx(a), &p.ctx(b)),
    ensures a == b,
{ assert(p.wf_l(a) && p.wf_l(b)); assert(p.ctx(a).moduli@.len() == p.lv() - a); assert(p.ctx(b).moduli@.len() == p.lv() - b); }

//@ fn crates/fhe/src/bfv/parameters.rs BfvParameters::degree
//@ ret r
//@ spec
    ensures r == self.polynomial_degree,
//@ end
//@ fn crates/fhe/src/bfv/parameters.rs BfvParameters::moduli
//@ ret r
//@ spec
    ensures r@ == self.moduli@,
//@ end
//@ fn crates/fhe/src/bfv/parameters.rs BfvParameters::max_level
//@ ret r
//@ spec
    requires self.wf(),
    ensures r == self.lv() - 1,
//@ end
//@ fn crates/fhe/src/bfv/parameters.rs BfvParameters::context_at_level
//@ ret r
//@ spec
    requires self.wf(),
    ensures r is Ok <==> level < self.lv(),
        r matches Ok(c) ==> **c == self.ctx(level as int) && c.wf(),
//@ start
    proof { if level < self.lv() { assert(self.wf_l(level as int)); } }
//@ end
//@ fn crates/fhe/src/bfv/parameters.rs BfvParameters::context_level_at
//@ ret r
//@ spec
    requires self.wf(),
    ensures r is Ok <==> level < self.lv(),
        r matches Ok(c) ==> *c == self.context_levels@[level as int] && c.level == level && *c.poly_context == self.ctx(level as int),
//@ start
    proof { if level < self.lv() { assert(self.wf_l(level as int)); } }
//@ end
//@ fn crates/fhe/src/bfv/parameters.rs BfvParameters::level_of_context
//@ ret r
//@ spec
    requires self.wf(), ctx.wf(),
    ensures r is Ok <==> exists|l: int| 0 <= l < self.lv() && same(&#[trigger] self.ctx(l), &**ctx),
        r matches Ok(l) ==> l < self.lv() && same(&self.ctx(l as int), &**ctx),
//@ start
    proof {
        let n = ctx.moduli@.len();
        assert forall|l: int| 0 <= l < self.lv() && same(&#[trigger] self.ctx(l), &**ctx) implies l == self.lv() - n by { assert(self.wf_l(l)); }
        if 1 <= n <= self.lv() { assert(self.wf_l(self.lv() - n)); }
    }
//@ end
//@ fn crates/fhe/src/bfv/context/level.rs ContextLevel::level
//@ ret r
//@ spec
    ensures r == self.level,
//@ end
//@ fn crates/fhe/src/bfv/context/level.rs ContextLevel::max_level
//@ ret r
//@ spec
    requires self.poly_context.moduli@.len() >= 1, self.level + self.poly_context.moduli@.len() <= usize::MAX,
    ensures r == self.level + self.poly_context.moduli@.len() - 1,
//@ end
//@ fn crates/fhe/src/bfv/context/level.rs ContextLevel::can_switch_down
//@ ret r
//@ spec
    ensures r == (self.poly_context.moduli@.len() > 1),
//@ end
//@ fn crates/fhe/src/bfv/context/level.rs ContextLevel::mul_params
//@ ret r
//@ spec
    ensures *r == self.mul_params,
//@ end
