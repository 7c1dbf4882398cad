//@ import par
// ---------------------------------------------------------------------------
// fhe/src/bfv/ciphertext.rs : structure and validation of ciphertexts
// ---------------------------------------------------------------------------
use std::sync::Arc;
//@ struct crates/fhe/src/bfv/ciphertext.rs Ciphertext <ChaCha8RngasSeedableRng>::Seed=>[u8;32]
impl Clone for Ciphertext {
    /// derived
    #[verifier::external_body]
    fn clone(&self) -> (r: Self)
        ensures r == *self,
    { unimplemented!() }
}
pub open spec fn polys_ok(c: Seq<Poly<Ntt>>, x: &Context) -> bool {
    forall|k: int| 0 <= k < c.len() ==> (#[trigger] c[k]).wf() && same(&*c[k].ctx, x)
}
impl Ciphertext {
    /// invariant of every ciphertext built by the library
    pub open spec fn wf(&self) -> bool {
        &&& self.par.wf() && self.level < self.par.lv()
        &&& polys_ok(self.c@, &self.par.ctx(self.level as int))
    }
    /// a valid operand at level l: at least two parts, that level and its context
    pub open spec fn valid_at(&self, l: int, x: &Context) -> bool {
        self.c@.len() >= 2 && self.level == l && forall|k: int| 0 <= k < self.c@.len() ==> same(&*(#[trigger] self.c@[k]).ctx, x)
    }
    pub open spec fn polys_wf(&self) -> bool { forall|k: int| 0 <= k < self.c@.len() ==> (#[trigger] self.c@[k]).wf() }
}
//@ fn crates/fhe/src/bfv/ciphertext.rs Deref@Ciphertext::deref as=Ciphertext::deref_
//@ ret r
//@ sig
    pub fn deref_(&self) -> (r: &Vec<Poly<Ntt>>)
//@ spec
    ensures r@ == self.c@,
//@ end
//@ fn crates/fhe/src/bfv/ciphertext.rs DerefMut@Ciphertext::deref_mut as=Ciphertext::deref_mut_
//@ ret r
//@ sig
    pub fn deref_mut_(&mut self) -> (r: &mut Vec<Poly<Ntt>>)
//@ spec
    ensures r@ == old(self).c@, final(self).c@ == final(r)@, final(self).seed is None, final(self).par == old(self).par, final(self).level == old(self).level,
//@ end
//@ fn crates/fhe/src/bfv/ciphertext.rs Ciphertext::new
//@ ret r
//@ spec
    requires par.wf(), forall|k: int| 0 <= k < c@.len() ==> (#[trigger] c@[k]).wf(),
    ensures
        r is Ok <==> c@.len() >= 2 && exists|l: int| 0 <= l < par.lv() && polys_ok(c@, &#[trigger] par.ctx(l)),
        r matches Ok(x) ==> x.wf() && x.par == *par && x.c == c && x.seed is None && x.valid_at(x.level as int, &par.ctx(x.level as int)),
//@ loop 0
    invariant
        forall|k: int| 0 <= k < i_0 ==> same(&*(#[trigger] c@[k]).ctx, &**ctx),
//@ loop-start 0
    proof { assert(c@[i_0 as int].wf()); }
//@ start
    proof {
        assert forall|l: int| 0 <= l < par.lv() && polys_ok(c@, &#[trigger] par.ctx(l)) && c@.len() >= 2 implies same(&par.ctx(l), &*c@[0].ctx) && forall|k: int| 0 <= k < c@.len() ==> same(&*(#[trigger] c@[k]).ctx, &*c@[0].ctx) by { assert(same(&*c@[0].ctx, &par.ctx(l))); }
    }
//@ end
//@ fn crates/fhe/src/bfv/ciphertext.rs Ciphertext::zero
//@ ret r
//@ spec
    requires par.wf(),
    ensures r.wf(), r.par == *par, r.c@.len() == 0, r.level == 0, r.seed is None,
//@ end
//@ fn crates/fhe/src/bfv/ciphertext.rs Ciphertext::validate_context
//@ ret r
//@ spec
    requires self.polys_wf(), expected_ctx.wf(),
    ensures r is Ok <==> self.valid_at(expected_level as int, &**expected_ctx),
//@ loop 0
    invariant
        acc_0 <==> exists|k: int| 0 <= k < i_0 && !same(&*(#[trigger] self.c@[k]).ctx, &**expected_ctx),
//@ loop-start 0
    proof { assert(self.c@[i_0 as int].wf()); }
//@ end
//@ fn crates/fhe/src/bfv/ciphertext.rs Ciphertext::validate_for_context
//@ ret r
//@ spec
    requires self.polys_wf(), expected_ctx.wf(),
    ensures r is Ok ==> self.par == *par && self.valid_at(expected_level as int, &**expected_ctx),
//@ end
//@ fn crates/fhe/src/bfv/ciphertext.rs Ciphertext::validate_for
//@ ret r
//@ spec
    requires self.polys_wf(), self.par.wf(),
    ensures r is Ok ==> self.par == *par && self.wf() && self.c@.len() >= 2,
//@ end
//@ fn crates/fhe/src/bfv/ciphertext.rs Ciphertext::truncate
//@ spec
    ensures final(self).par == old(self).par, final(self).level == old(self).level,
        final(self).c@ == if len < old(self).c@.len() { old(self).c@.subrange(0, len as int) } else { old(self).c@ },
        final(self).seed == if len < old(self).c@.len() { None } else { old(self).seed },
//@ end
//@ fn crates/fhe/src/bfv/ciphertext.rs Ciphertext::max_switchable_level
//@ ret r
//@ spec
    requires self.par.wf(),
    ensures r == self.par.lv() - 1,
//@ end
