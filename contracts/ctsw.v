//@ import ct
//@ import sem
// ---------------------------------------------------------------------------
// fhe/src/bfv/ciphertext.rs : modulus switching of ciphertexts
// ---------------------------------------------------------------------------
use std::sync::Arc;
use vstd::arithmetic::div_mod::*;
use crate::modk::*;
use crate::nttm::*;
use crate::ntt::*;
use crate::rns::*;
pub open spec fn xrnd(x: Seq<int>, q: int) -> Seq<int> { Seq::new(x.len(), |j: int| rnd(x[j], q)) }
pub open spec fn xrnds(x: Seq<int>, m: Seq<u64>, k: nat) -> Seq<int> { Seq::new(x.len(), |j: int| rnds(x[j], m, k)) }
/// the coefficients of a polynomial, as integers
pub proof fn lemma_coefs_ex(p: &Poly<PowerBasis>) -> (x: Seq<int>)
    requires p.wf(),
    ensures p.coefs(x),
{
    let c = &p.ctx.rns;
    let col = |j: int| Seq::new(p.n() as nat, |i: int| p.rows()[i]@[j]);
    let x = Seq::new(p.d() as nat, |j: int| sumg(col(j), c.garner@, c.n()) as int % c.q());
    assert forall|j: int| 0 <= j < p.d() implies p.is_int(j, #[trigger] x[j]) by {
        assert forall|i: int| 0 <= i < p.n() implies (#[trigger] p.rows()[i])@[j] as int == x[j] % p.p(i) by {
            assert(p.ctx.wf_i(i)); assert(canon(p.rows()[i]@, p.p(i)));
            lemma_lift(c, col(j), i);
            let v = p.rows()[i]@[j]; assert(col(j)[i] == v); assert(c.m(i) == p.p(i));
            lemma_small_mod(v as nat, p.p(i) as nat);
        }
    }
    x
}
/// going to coefficient form and reading the integers
pub proof fn lemma_isx_of(a: &Poly<Ntt>, b: &Poly<PowerBasis>, x: Seq<int>)
    requires a.wf(), b.wf(), a.ctx == b.ctx, forall|i: int| 0 <= i < b.n() ==> b.ctx.ops@[i].is_fwd(a.rows()[i]@, vals((#[trigger] b.rows()[i])@)), b.coefs(x),
    ensures a.isx(x),
{
    assert forall|i: int| 0 <= i < a.n() implies a.ctx.ops@[i].is_fwd((#[trigger] a.rows()[i])@, x) by {
        assert(a.ctx.wf_i(i));
        let v = vals(b.rows()[i]@); let p = b.p(i);
        assert forall|k: int| 0 <= k < v.len() implies eqm(#[trigger] v[k], x[k], p) by { assert(b.is_int(k, x[k])); assert(b.rows()[i]@[k] as int == x[k] % p); eqm_self(x[k], p); }
        a.ctx.ops@[i].lemma_fwd_cong(a.rows()[i]@, v, x);
    }
}
/// b is a with its last modulus dropped: each coefficient divided by it and rounded
#[verifier::opaque]
pub open spec fn swpoly(a: Poly<Ntt>, b: Poly<Ntt>) -> bool {
    (exists|x: Seq<int>| #[trigger] a.isx(x)) && forall|x: Seq<int>| #[trigger] a.isx(x) ==> b.isx(xrnd(x, a.ctx.moduli@.last() as int))
}
/// b is a with its last k moduli dropped one at a time
#[verifier::opaque]
pub open spec fn swpolys(a: Poly<Ntt>, b: Poly<Ntt>, k: nat) -> bool {
    (k > 0 ==> exists|x: Seq<int>| #[trigger] a.isx(x)) && forall|x: Seq<int>| #[trigger] a.isx(x) ==> b.isx(xrnds(x, a.ctx.moduli@, k))
}
//@ fn crates/fhe/src/bfv/ciphertext.rs Ciphertext::switch_down
//@ refs ci
//@ ret r
//@ spec
    requires old(self).wf(),
    ensures
        r is Ok <==> old(self).level + 1 < old(self).par.lv(),
        r is Err ==> *final(self) == *old(self),
        r is Ok ==> {
            &&& final(self).wf() && final(self).par == old(self).par && final(self).level == old(self).level + 1 && final(self).seed is None
            &&& final(self).c@.len() == old(self).c@.len()
            &&& forall|k: int| 0 <= k < old(self).c@.len() ==> swpoly(old(self).c@[k], #[trigger] final(self).c@[k])
            &&& forall|k: int| 0 <= k < old(self).c@.len() ==> (#[trigger] final(self).c@[k]).vt() == old(self).c@[k].vt()
        },
//@ after-let pb
    let ghost pb0 = pb;
    proof { assert(self.c@[i_0 as int] == old(self).c@[i_0 as int]); assert(old(self).c@[i_0 as int].wf()); }
//@ start
    let ghost l = old(self).level as int;
    proof { let p = &old(self).par; assert(p.wf_l(l)); if l + 1 < p.lv() { assert(p.wf_l(l + 1)); } }
//@ loop 0
    invariant
        l == old(self).level, old(self).wf(), l + 1 < old(self).par.lv(), old(self).par.wf_l(l), old(self).par.wf_l(l + 1),
        self.par == old(self).par, self.level == old(self).level, self.seed is None, self.c@.len() == old(self).c@.len(), n_0 == self.c@.len(),
        forall|k: int| i_0 <= k < self.c@.len() ==> #[trigger] self.c@[k] == old(self).c@[k],
        forall|k: int| 0 <= k < i_0 ==> (#[trigger] self.c@[k]).wf() && same(&*self.c@[k].ctx, &self.par.ctx(l + 1)) && self.c@[k].vt() == old(self).c@[k].vt(),
        forall|k: int| 0 <= k < i_0 ==> swpoly(old(self).c@[k], #[trigger] self.c@[k]),
//@ loop-end 0
    proof {
        let (a, b) = (old(self).c@[i_0 as int], self.c@[i_0 as int]);
        assert(old(self).par.ctx(l).moduli@.drop_last() =~= old(self).par.ctx(l + 1).moduli@);
        reveal(swpoly);
        let x0 = lemma_coefs_ex(&pb0); lemma_isx_of(&a, &pb0, x0);
        assert forall|x: Seq<int>| #[trigger] a.isx(x) implies b.isx(xrnd(x, a.ctx.moduli@.last() as int)) by {
            lemma_back_of(&a, &pb0, x);
            let y = xrnd(x, a.ctx.moduli@.last() as int);
            assert forall|j: int| 0 <= j < pb.d() implies pb.is_int(j, #[trigger] y[j]) by { assert(pb0.is_int(j, x[j])); }
            lemma_fwd_of(&pb, &b, y);
        }
    }
//@ end
//@ fn crates/fhe/src/bfv/ciphertext.rs Ciphertext::switch_to_level
//@ ret r
//@ spec
    requires old(self).wf(),
    ensures
        r is Ok <==> old(self).level <= target_level < old(self).par.lv(),
        r is Err ==> *final(self) == *old(self),
        r is Ok ==> {
            &&& final(self).wf() && final(self).par == old(self).par && final(self).level == target_level
            &&& target_level == old(self).level ==> *final(self) == *old(self)
            &&& final(self).c@.len() == old(self).c@.len()
            &&& forall|k: int| 0 <= k < old(self).c@.len() ==> swpolys(old(self).c@[k], #[trigger] final(self).c@[k], (target_level - old(self).level) as nat)
        },
//@ loop 0
    invariant
        old(self).wf(), self.wf(), self.par == old(self).par, old(self).level <= self.level <= target_level, target_level < self.par.lv(),
        self.c@.len() == old(self).c@.len(), self.level == old(self).level ==> *self == *old(self),
        forall|k: int| 0 <= k < self.c@.len() ==> swpolys(old(self).c@[k], #[trigger] self.c@[k], (self.level - old(self).level) as nat),
    decreases target_level - self.level,
//@ loop-before 0
    proof {
        assert forall|k: int| 0 <= k < self.c@.len() implies swpolys(old(self).c@[k], #[trigger] self.c@[k], 0) by {
            reveal(swpolys);
            let a = self.c@[k];
            assert forall|x: Seq<int>| #[trigger] a.isx(x) implies a.isx(xrnds(x, a.ctx.moduli@, 0)) by { assert(xrnds(x, a.ctx.moduli@, 0) =~= x); }
        }
    }
//@ loop-start 0
    let ghost c1 = self.c@;
    let ghost l1 = self.level as int;
//@ loop-end 0
    proof {
        let k1 = (l1 - old(self).level) as nat;
        assert forall|k: int| 0 <= k < self.c@.len() implies swpolys(old(self).c@[k], #[trigger] self.c@[k], k1 + 1) by {
            let (a, b, c) = (old(self).c@[k], c1[k], self.c@[k]);
            assert(a.wf() && b.wf());
            assert(old(self).par.wf_l(old(self).level as int) && old(self).par.wf_l(l1));
            let m = a.ctx.moduli@;
            assert(b.ctx.moduli@ =~= m.take(m.len() - k1));
            reveal(swpolys); reveal(swpoly);
            assert forall|x: Seq<int>| #[trigger] a.isx(x) implies c.isx(xrnds(x, m, k1 + 1)) by {
                let y = xrnds(x, m, k1);
                assert(b.isx(y));
                assert forall|j: int| 0 <= j < x.len() implies xrnd(y, b.ctx.moduli@.last() as int)[j] == #[trigger] xrnds(x, m, k1 + 1)[j] by { lemma_rnds(x[j], m, k1); }
                assert(xrnd(y, b.ctx.moduli@.last() as int) =~= xrnds(x, m, k1 + 1));
            }
        }
    }
//@ end
