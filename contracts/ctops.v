//@ import pt0
// ---------------------------------------------------------------------------
// fhe/src/bfv/ops/mod.rs : linear operations on ciphertexts
// Every contract states the exact polynomial of each part of the result, and that the
// function returns only for compatible operands and refuses only incompatible ones.
// ---------------------------------------------------------------------------
use std::sync::Arc;
use vstd::std_specs::ops::*;
broadcast use group_poly;

/// the empty ciphertext is the additive identity and fits anything
pub open spec fn compat(a: &Ciphertext, b: &Ciphertext) -> bool {
    a.c@.len() == 0 || b.c@.len() == 0 || (a.level == b.level && a.c@.len() == b.c@.len())
}
pub open spec fn cadd(a: Seq<Poly<Ntt>>, b: Seq<Poly<Ntt>>) -> Seq<Poly<Ntt>> {
    if a.len() == 0 { b } else if b.len() == 0 { a } else { Seq::new(a.len(), |k: int| padd(a[k], b[k])) }
}
pub open spec fn cneg(a: Seq<Poly<Ntt>>) -> Seq<Poly<Ntt>> { Seq::new(a.len(), |k: int| pneg(a[k])) }
pub open spec fn csub(a: Seq<Poly<Ntt>>, b: Seq<Poly<Ntt>>) -> Seq<Poly<Ntt>> {
    if a.len() == 0 { cneg(b) } else if b.len() == 0 { a } else { Seq::new(a.len(), |k: int| psub(a[k], b[k])) }
}
pub open spec fn cmulp(a: Seq<Poly<Ntt>>, m: Poly<Ntt>) -> Seq<Poly<Ntt>> { Seq::new(a.len(), |k: int| pmul(a[k], m)) }
/// the first part changed
pub open spec fn cset0(a: Seq<Poly<Ntt>>, v: Poly<Ntt>) -> Seq<Poly<Ntt>> { a.update(0, v) }
/// Plaintext::to_poly: the plaintext scaled up to the ciphertext modulus
pub uninterp spec fn ptpoly(p: Plaintext) -> Poly<Ntt>;
impl Plaintext {
    /// Plaintext::to_poly, proved in ptenc.v; here its (deterministic) result is given a name.
    #[verifier::external_body]
    pub fn vto_poly(&self) -> (r: Poly<Ntt>)
        requires self.wf(),
        ensures r == ptpoly(*self), self.is_scaled(&r),
    { unimplemented!() }
}
//known: Plaintext::to_poly
//@ fn crates/fhe/src/bfv/ops/mod.rs Neg@&Ciphertext::neg as=Ciphertext::neg_ref
//@ derefs self
//@ refs c
//@ ret r
//@ sig
    pub fn neg_ref(&self) -> (r: Ciphertext)
//@ spec
    requires self.wf(),
    ensures r.wf(), r.par == self.par, r.level == self.level, r.seed is None, r.c@ =~= cneg(self.c@),
//@ loop 0
    invariant
        out_0@.len() == i_0, forall|k: int| 0 <= k < i_0 ==> #[trigger] out_0@[k] == pneg(self.c@[k]),
//@ end
//@ fn crates/fhe/src/bfv/ops/mod.rs Neg@Ciphertext::neg as=Ciphertext::neg
//@ derefs self v_self
//@ refs c
//@ ret r
//@ spec
    requires self.wf(),
    ensures r.wf(), r.par == self.par, r.level == self.level, r.seed is None, r.c@ =~= cneg(self.c@),
//@ loop 0
    invariant
        v_self.par == self.par, v_self.level == self.level, v_self.c@.len() == self.c@.len(),
        forall|k: int| 0 <= k < i_0 ==> #[trigger] v_self.c@[k] == pneg(self.c@[k]),
        forall|k: int| i_0 <= k < self.c@.len() ==> #[trigger] v_self.c@[k] == self.c@[k],
//@ end
//@ fn crates/fhe/src/bfv/ops/mod.rs Add<&Ciphertext>@&Ciphertext::add as=Ciphertext::add_ref
//@ derefs self rhs
//@ refs c
//@ ops
//@ ret r
//@ sig
    pub fn add_ref(&self, rhs: &Ciphertext) -> (r: Ciphertext)
//@ spec
    requires self.wf(), rhs.wf(),
    ensures compat(self, rhs), self.par == rhs.par,
        r.wf(), r.par == self.par, r.c@ =~= cadd(self.c@, rhs.c@), self.c@.len() > 0 ==> r.level == self.level, self.c@.len() == 0 ==> r.level == rhs.level,
        self.c@.len() > 0 && rhs.c@.len() > 0 ==> r.seed is None,
//@ panics
    proof { assert(!compat(self, rhs)); }
//@ loop 0
    invariant
        out_0@.len() == i_0, forall|k: int| 0 <= k < i_0 ==> #[trigger] out_0@[k] == padd(self.c@[k], rhs.c@[k]),
//@ end
//@ fn crates/fhe/src/bfv/ops/mod.rs AddAssign<&Ciphertext>@Ciphertext::add_assign as=Ciphertext::add_assign
//@ derefs self rhs
//@ refs c
//@ spec
    requires old(self).wf(), rhs.wf(),
    ensures compat(old(self), rhs), old(self).par == rhs.par,
        final(self).wf(), final(self).par == old(self).par, final(self).c@ =~= cadd(old(self).c@, rhs.c@),
        old(self).c@.len() > 0 ==> final(self).level == old(self).level, old(self).c@.len() == 0 ==> final(self).level == rhs.level,
        old(self).c@.len() > 0 && rhs.c@.len() > 0 ==> final(self).seed is None,
//@ panics
    proof { assert(!compat(old(self), rhs)); }
//@ loop 0
    invariant
        self.par == old(self).par, self.level == old(self).level, self.c@.len() == old(self).c@.len(),
        forall|k: int| 0 <= k < i_0 ==> #[trigger] self.c@[k] == padd(old(self).c@[k], rhs.c@[k]),
        forall|k: int| i_0 <= k < self.c@.len() ==> #[trigger] self.c@[k] == old(self).c@[k],
//@ end
//@ fn crates/fhe/src/bfv/ops/mod.rs Add<&Ciphertext>@Ciphertext::add as=Ciphertext::add_val
//@ ret r
//@ subst v_self += rhs => v_self.add_assign(rhs)
//@ spec
    requires self.wf(), rhs.wf(),
    ensures compat(&self, rhs), self.par == rhs.par,
        r.wf(), r.par == self.par, r.c@ =~= cadd(self.c@, rhs.c@), self.c@.len() > 0 ==> r.level == self.level, self.c@.len() == 0 ==> r.level == rhs.level,
        self.c@.len() > 0 && rhs.c@.len() > 0 ==> r.seed is None,
//@ end
//@ fn crates/fhe/src/bfv/ops/mod.rs AddAssign<&Plaintext>@Ciphertext::add_assign as=Ciphertext::add_assign_pt
//@ subst rhs.to_poly() => rhs.vto_poly()
//@ derefs self
//@ refs c
//@ spec
    requires old(self).wf(), rhs.wf(),
    ensures old(self).c@.len() > 0, old(self).level == rhs.lvl(), old(self).par == rhs.par,
        final(self).wf(), final(self).par == old(self).par, final(self).level == old(self).level, final(self).seed is None,
        final(self).c@ =~= cset0(old(self).c@, padd(old(self).c@[0], ptpoly(*rhs))),
//@ panics
    proof { assert(old(self).c@.len() == 0 || old(self).level != rhs.lvl()); }
//@ end
//@ fn crates/fhe/src/bfv/ops/mod.rs Add<&Plaintext>@&Ciphertext::add as=Ciphertext::add_pt_ref
//@ ret r
//@ subst self_clone += rhs => self_clone.add_assign_pt(rhs)
//@ sig
    pub fn add_pt_ref(&self, rhs: &Plaintext) -> (r: Ciphertext)
//@ spec
    requires self.wf(), rhs.wf(),
    ensures self.c@.len() > 0, self.level == rhs.lvl(), self.par == rhs.par,
        r.wf(), r.par == self.par, r.level == self.level, r.seed is None,
        r.c@ =~= cset0(self.c@, padd(self.c@[0], ptpoly(*rhs))),
//@ end
//@ fn crates/fhe/src/bfv/ops/mod.rs Add<&Plaintext>@Ciphertext::add as=Ciphertext::add_pt_val
//@ ret r
//@ subst v_self += rhs => v_self.add_assign_pt(rhs)
//@ spec
    requires self.wf(), rhs.wf(),
    ensures self.c@.len() > 0, self.level == rhs.lvl(), self.par == rhs.par,
        r.wf(), r.par == self.par, r.level == self.level, r.seed is None,
        r.c@ =~= cset0(self.c@, padd(self.c@[0], ptpoly(*rhs))),
//@ end
//@ fn crates/fhe/src/bfv/ops/mod.rs Sub<&Ciphertext>@&Ciphertext::sub as=Ciphertext::sub_ref
//@ derefs self rhs
//@ refs c
//@ ops
//@ ret r
//@ subst -rhs.clone() => rhs.clone().neg()
//@ sig
    pub fn sub_ref(&self, rhs: &Ciphertext) -> (r: Ciphertext)
//@ spec
    requires self.wf(), rhs.wf(),
    ensures compat(self, rhs), self.par == rhs.par,
        r.wf(), r.par == self.par, r.c@ =~= csub(self.c@, rhs.c@), self.c@.len() > 0 ==> r.level == self.level, self.c@.len() == 0 ==> r.level == rhs.level,
        self.c@.len() > 0 && rhs.c@.len() > 0 ==> r.seed is None,
//@ panics
    proof { assert(!compat(self, rhs)); }
//@ loop 0
    invariant
        out_0@.len() == i_0, forall|k: int| 0 <= k < i_0 ==> #[trigger] out_0@[k] == psub(self.c@[k], rhs.c@[k]),
//@ end
//@ fn crates/fhe/src/bfv/ops/mod.rs SubAssign<&Ciphertext>@Ciphertext::sub_assign as=Ciphertext::sub_assign
//@ derefs self rhs
//@ refs c
//@ subst -rhs => rhs.neg_ref()
//@ spec
    requires old(self).wf(), rhs.wf(),
    ensures compat(old(self), rhs), old(self).par == rhs.par,
        final(self).wf(), final(self).par == old(self).par, final(self).c@ =~= csub(old(self).c@, rhs.c@),
        old(self).c@.len() > 0 ==> final(self).level == old(self).level, old(self).c@.len() == 0 ==> final(self).level == rhs.level,
        old(self).c@.len() > 0 && rhs.c@.len() > 0 ==> final(self).seed is None,
//@ panics
    proof { assert(!compat(old(self), rhs)); }
//@ loop 0
    invariant
        self.par == old(self).par, self.level == old(self).level, self.c@.len() == old(self).c@.len(),
        forall|k: int| 0 <= k < i_0 ==> #[trigger] self.c@[k] == psub(old(self).c@[k], rhs.c@[k]),
        forall|k: int| i_0 <= k < self.c@.len() ==> #[trigger] self.c@[k] == old(self).c@[k],
//@ end
//@ fn crates/fhe/src/bfv/ops/mod.rs Sub<&Ciphertext>@Ciphertext::sub as=Ciphertext::sub_val
//@ ret r
//@ subst v_self -= rhs => v_self.sub_assign(rhs)
//@ spec
    requires self.wf(), rhs.wf(),
    ensures compat(&self, rhs), self.par == rhs.par,
        r.wf(), r.par == self.par, r.c@ =~= csub(self.c@, rhs.c@), self.c@.len() > 0 ==> r.level == self.level, self.c@.len() == 0 ==> r.level == rhs.level,
        self.c@.len() > 0 && rhs.c@.len() > 0 ==> r.seed is None,
//@ end
//@ fn crates/fhe/src/bfv/ops/mod.rs SubAssign<&Plaintext>@Ciphertext::sub_assign as=Ciphertext::sub_assign_pt
//@ subst rhs.to_poly() => rhs.vto_poly()
//@ derefs self
//@ refs c
//@ spec
    requires old(self).wf(), rhs.wf(),
    ensures old(self).c@.len() > 0, old(self).level == rhs.lvl(), old(self).par == rhs.par,
        final(self).wf(), final(self).par == old(self).par, final(self).level == old(self).level, final(self).seed is None,
        final(self).c@ =~= cset0(old(self).c@, psub(old(self).c@[0], ptpoly(*rhs))),
//@ panics
    proof { assert(old(self).c@.len() == 0 || old(self).level != rhs.lvl()); }
//@ end
//@ fn crates/fhe/src/bfv/ops/mod.rs Sub<&Plaintext>@&Ciphertext::sub as=Ciphertext::sub_pt_ref
//@ ret r
//@ subst self_clone -= rhs => self_clone.sub_assign_pt(rhs)
//@ sig
    pub fn sub_pt_ref(&self, rhs: &Plaintext) -> (r: Ciphertext)
//@ spec
    requires self.wf(), rhs.wf(),
    ensures self.c@.len() > 0, self.level == rhs.lvl(), self.par == rhs.par,
        r.wf(), r.par == self.par, r.level == self.level, r.seed is None,
        r.c@ =~= cset0(self.c@, psub(self.c@[0], ptpoly(*rhs))),
//@ end
//@ fn crates/fhe/src/bfv/ops/mod.rs Sub<&Plaintext>@Ciphertext::sub as=Ciphertext::sub_pt_val
//@ ret r
//@ subst v_self -= rhs => v_self.sub_assign_pt(rhs)
//@ spec
    requires self.wf(), rhs.wf(),
    ensures self.c@.len() > 0, self.level == rhs.lvl(), self.par == rhs.par,
        r.wf(), r.par == self.par, r.level == self.level, r.seed is None,
        r.c@ =~= cset0(self.c@, psub(self.c@[0], ptpoly(*rhs))),
//@ end
//@ fn crates/fhe/src/bfv/ops/mod.rs Add<&Ciphertext>@&Plaintext::add as=Plaintext::add_ct
//@ ret r
//@ subst rhs + self => rhs.add_pt_ref(self)
//@ sig
    pub fn add_ct(&self, rhs: &Ciphertext) -> (r: Ciphertext)
//@ spec
    requires self.wf(), rhs.wf(),
    ensures rhs.c@.len() > 0, rhs.level == self.lvl(), self.par == rhs.par,
        r.wf(), r.par == self.par, r.level == rhs.level, r.seed is None,
        r.c@ =~= cset0(rhs.c@, padd(rhs.c@[0], ptpoly(*self))),
//@ end
//@ fn crates/fhe/src/bfv/ops/mod.rs Sub<&Ciphertext>@&Plaintext::sub as=Plaintext::sub_ct
//@ ret r
//@ subst -(rhs - self) => (rhs.sub_pt_ref(self)).neg()
//@ sig
    pub fn sub_ct(&self, rhs: &Ciphertext) -> (r: Ciphertext)
//@ spec
    requires self.wf(), rhs.wf(),
    ensures rhs.c@.len() > 0, rhs.level == self.lvl(), self.par == rhs.par,
        r.wf(), r.par == self.par, r.level == rhs.level, r.seed is None,
        r.c@ =~= cneg(cset0(rhs.c@, psub(rhs.c@[0], ptpoly(*self)))),
//@ end
//@ fn crates/fhe/src/bfv/ops/mod.rs MulAssign<&Plaintext>@Ciphertext::mul_assign as=Ciphertext::mul_assign_pt
//@ derefs self
//@ refs c
//@ spec
    requires old(self).wf(), rhs.wf(),
    ensures old(self).c@.len() == 0 || old(self).level == rhs.lvl(), old(self).par == rhs.par,
        final(self).wf(), final(self).par == old(self).par, final(self).level == old(self).level, final(self).seed is None,
        final(self).c@ =~= cmulp(old(self).c@, rhs.poly_ntt),
//@ panics
    proof { assert(old(self).c@.len() > 0 && old(self).level != rhs.lvl()); }
//@ loop 0
    invariant
        self.par == old(self).par, self.level == old(self).level, self.c@.len() == old(self).c@.len(),
        forall|k: int| 0 <= k < i_0 ==> #[trigger] self.c@[k] == pmul(old(self).c@[k], rhs.poly_ntt),
        forall|k: int| i_0 <= k < self.c@.len() ==> #[trigger] self.c@[k] == old(self).c@[k],
//@ end
//@ fn crates/fhe/src/bfv/ops/mod.rs Mul<&Plaintext>@&Ciphertext::mul as=Ciphertext::mul_pt_ref
//@ ret r
//@ subst self_clone *= rhs => self_clone.mul_assign_pt(rhs)
//@ sig
    pub fn mul_pt_ref(&self, rhs: &Plaintext) -> (r: Ciphertext)
//@ spec
    requires self.wf(), rhs.wf(),
    ensures self.c@.len() == 0 || self.level == rhs.lvl(), self.par == rhs.par,
        r.wf(), r.par == self.par, r.level == self.level, r.seed is None, r.c@ =~= cmulp(self.c@, rhs.poly_ntt),
//@ end
//@ fn crates/fhe/src/bfv/ops/mod.rs Mul<&Plaintext>@Ciphertext::mul as=Ciphertext::mul_pt_val
//@ ret r
//@ subst v_self *= rhs => v_self.mul_assign_pt(rhs)
//@ spec
    requires self.wf(), rhs.wf(),
    ensures self.c@.len() == 0 || self.level == rhs.lvl(), self.par == rhs.par,
        r.wf(), r.par == self.par, r.level == self.level, r.seed is None, r.c@ =~= cmulp(self.c@, rhs.poly_ntt),
//@ end
