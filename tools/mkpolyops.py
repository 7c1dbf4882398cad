#!/usr/bin/env python3
"""Writes contracts/polyops.v: contracts of the operators of rq/ops.rs."""
F = "crates/fhe-math/src/rq/ops.rs"
out = []
w = out.append
w('''//@ import poly
// GENERATED by tools/mkpolyops.py
// ---------------------------------------------------------------------------
// fhe-math/src/rq/ops.rs : the operators.  Each operator impl is verified as an inherent
// function of the same body (Verus does not support specifications on operator impls of
// references); `q += p` in the bodies becomes the corresponding call.
// ---------------------------------------------------------------------------
use vstd::arithmetic::div_mod::*;
use vstd::arithmetic::mul::*;
use std::sync::Arc;
use std::marker::PhantomData;

pub open spec fn radd(r: Seq<u64>, a: Seq<u64>, b: Seq<u64>, p: int) -> bool { forall|k: int| 0 <= k < a.len() ==> (#[trigger] r[k]) == (a[k] + b[k]) % p }
pub open spec fn rsub(r: Seq<u64>, a: Seq<u64>, b: Seq<u64>, p: int) -> bool { forall|k: int| 0 <= k < a.len() ==> (#[trigger] r[k]) == (a[k] - b[k]) % p }
pub open spec fn rmul(r: Seq<u64>, a: Seq<u64>, b: Seq<u64>, p: int) -> bool { forall|k: int| 0 <= k < a.len() ==> (#[trigger] r[k]) == (a[k] * b[k]) % p }
pub open spec fn rneg(r: Seq<u64>, a: Seq<u64>, p: int) -> bool { forall|k: int| 0 <= k < a.len() ==> (#[trigger] r[k]) == (-a[k]) % p }
pub open spec fn rscale(r: Seq<u64>, a: Seq<u64>, c: int, p: int) -> bool { forall|k: int| 0 <= k < a.len() ==> (#[trigger] r[k]) == (a[k] * (c % p)) % p }
impl<R: RepresentationTag> Poly<R> {
    /// like wf, except that the coefficients may be lazy
    pub open spec fn wfl(&self) -> bool {
        &&& self.ctx.wf()
        &&& dims(self.coefficients.rows@, self.n(), self.d())
        &&& self.coefficients_shoup is None
        &&& !self.has_lazy_coefficients ==> self.can()
    }
}
''')
def loopinv(k, rel, q, extra, p, wfl=False):
    """row loop number k: rows below i_k satisfy rel, the others are unchanged"""
    o = q.replace("self", "old(self)") if q == "self" else "o_"
    can = "" if not wfl else ""
    return f'''//@ loop {k}
    invariant
        n_{k} == {q}.n(), {q}.ctx == {o}.ctx, {q}.ctx.wf(), {q}.coefficients_shoup is None, {extra}
        dims({q}.coefficients.rows@, {q}.n(), {q}.d()), dims({o}.coefficients.rows@, {q}.n(), {q}.d()),
        forall|i: int| i_{k} <= i < {q}.n() ==> (#[trigger] {q}.rows()[i])@ == {o}.rows()[i]@,
        forall|i: int| 0 <= i < i_{k} ==> canon((#[trigger] {q}.rows()[i])@, {q}.p(i)),
        forall|i: int| 0 <= i < i_{k} ==> {rel},
//@ loop-start {k}
    proof {{ let i = i_{k} as int; assert({q}.ctx.wf_i(i)); {p} }}
'''
def assign(key, name, typ, ptyp, rfn, lazyself=False):
    rel = lambda r, o: f"{rfn}((#[trigger] {r}.rows()[i])@, {o}.rows()[i]@, p.rows()[i]@, {r}.p(i))"
    wfs = "old(self).wfl()" if lazyself else "old(self).wf()"
    w(f'''//@ fn {F} {key} as=Poly<{typ}>::{name}
//@ spec
    requires {wfs}, p.wf(), same(&*old(self).ctx, &*p.ctx),
    ensures final(self).wf(), final(self).ctx == old(self).ctx,
        final(self).allow_variable_time_computations == (old(self).allow_variable_time_computations && p.allow_variable_time_computations),
        forall|i: int| 0 <= i < final(self).n() ==> {rel("final(self)", "old(self)")},
''')
    for k in (0, 1):
        pr = "assert(old(self).rows()[i]@ == self.rows()[i]@); assert(canon(p.rows()[i]@, p.p(i)));" + ("" if lazyself else " assert(canon(old(self).rows()[i]@, self.p(i)));")
        ex = "self.has_lazy_coefficients == old(self).has_lazy_coefficients,\n        self.allow_variable_time_computations == (old(self).allow_variable_time_computations && p.allow_variable_time_computations),"
        w(loopinv(k, rel("self", "old(self)"), "self", ex, pr))
    w("//@ end\n")
def byref(key, name, typ, op, call, ptyp, rfn, lazyself=False):
    rel = f"{rfn}((#[trigger] r.rows()[i])@, self.rows()[i]@, p.rows()[i]@, r.p(i))"
    wfs = "self.wfl()" if lazyself else "self.wf()"
    w(f'''//@ fn {F} {key} as=Poly<{typ}>::{name}
//@ ret r
//@ subst q {op} p => q.{call}(p)
//@ spec
    requires {wfs}, p.wf(), same(&*self.ctx, &*p.ctx),
    ensures r.wf(), r.ctx == self.ctx,
        r.allow_variable_time_computations == (self.allow_variable_time_computations && p.allow_variable_time_computations),
        forall|i: int| 0 <= i < r.n() ==> {rel},
//@ end
''')
def byval(key, name, typ):
    rel = f"radd((#[trigger] r.rows()[i])@, p.rows()[i]@, self.rows()[i]@, r.p(i))"
    w(f'''//@ fn {F} {key} as=Poly<{typ}>::{name}
//@ ret r
//@ subst p += &self => p.add_assign(&self)
//@ spec
    requires self.wf(), p.wf(), same(&*p.ctx, &*self.ctx),
    ensures r.wf(), r.ctx == p.ctx,
        r.allow_variable_time_computations == (self.allow_variable_time_computations && p.allow_variable_time_computations),
        forall|i: int| 0 <= i < r.n() ==> {rel},
//@ end
''')
def big(typ):
    rel = lambda r, o: f"rscale((#[trigger] {r}.rows()[i])@, {o}.rows()[i]@, p.v() as int, {r}.p(i))"
    w(f'''//@ fn {F} MulAssign<&BigUint>@Poly<{typ}>::mul_assign as=Poly<{typ}>::mul_assign_big
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).ctx == old(self).ctx,
        final(self).allow_variable_time_computations == old(self).allow_variable_time_computations,
        forall|i: int| 0 <= i < final(self).n() ==> {rel("final(self)", "old(self)")},
''')
    for k in (0, 1):
        pr = "assert(old(self).rows()[i]@ == self.rows()[i]@); assert(scalar_crt@[i] as int == p.v() as int % self.p(i)); lemma_mod_bound(p.v() as int, self.p(i));"
        ex = "!self.has_lazy_coefficients, scalar_crt@.len() == self.n(),\n        self.allow_variable_time_computations == old(self).allow_variable_time_computations,"
        w(loopinv(k, rel("self", "old(self)"), "self", ex, pr))
    w("//@ end\n")
    rel = f"rscale((#[trigger] r.rows()[i])@, p.rows()[i]@, self.v() as int, r.p(i))"
    w(f'''//@ fn {F} Mul<&Poly<{typ}>>@&BigUint::mul as=BigUint::mul_poly_{typ}
//@ ret r
//@ subst p * self => p.mul_big(self)
//@ sig
    pub fn mul_poly_{typ}(&self, p: Poly<{typ}>) -> (r: Poly<{typ}>)
//@ spec
    requires p.wf(),
    ensures r.wf(), r.ctx == p.ctx,
        r.allow_variable_time_computations == p.allow_variable_time_computations,
        forall|i: int| 0 <= i < r.n() ==> {rel},
//@ end
''')
    rel = f"rscale((#[trigger] r.rows()[i])@, self.rows()[i]@, p.v() as int, r.p(i))"
    w(f'''//@ fn {F} Mul<&BigUint>@&Poly<{typ}>::mul as=Poly<{typ}>::mul_big
//@ ret r
//@ subst q *= p => q.mul_assign_big(p)
//@ spec
    requires self.wf(),
    ensures r.wf(), r.ctx == self.ctx,
        r.allow_variable_time_computations == self.allow_variable_time_computations,
        forall|i: int| 0 <= i < r.n() ==> {rel},
//@ end
''')
def neg(key, name, typ, byref):
    q = "out" if byref else "v_self"
    rel = lambda r: f"rneg((#[trigger] {r}.rows()[i])@, self.rows()[i]@, {r}.p(i))"
    w(f'''//@ fn {F} {key} as=Poly<{typ}>::{name}
//@ ret r
//@ spec
    requires self.wf(),
    ensures r.wf(), r.ctx == self.ctx,
        r.allow_variable_time_computations == self.allow_variable_time_computations,
        forall|i: int| 0 <= i < r.n() ==> {rel("r")},
''')
    for k in (0, 1):
        pr = f"assert(self.rows()[i]@ == {q}.rows()[i]@); assert(canon(self.rows()[i]@, self.p(i)));"
        ex = f"!{q}.has_lazy_coefficients,\n        {q}.allow_variable_time_computations == self.allow_variable_time_computations,"
        w(loopinv(k, rel(q), q, ex, pr).replace("o_.", "self."))
    w("//@ end\n")
for t in ("PowerBasis", "Ntt"):
    assign(f"AddAssign<&Poly<{t}>>@Poly<{t}>::add_assign", "add_assign", t, t, "radd")
    byref(f"Add<&Poly<{t}>>@&Poly<{t}>::add", "add_ref", t, "+=", "add_assign", t, "radd")
    byval(f"Add@Poly<{t}>::add", "add_val", t)
    assign(f"SubAssign<&Poly<{t}>>@Poly<{t}>::sub_assign", "sub_assign", t, t, "rsub")
    byref(f"Sub<&Poly<{t}>>@&Poly<{t}>::sub", "sub_ref", t, "-=", "sub_assign", t, "rsub")
    neg(f"Neg@&Poly<{t}>::neg", "neg_ref", t, True)
    neg(f"Neg@Poly<{t}>::neg", "neg_val", t, False)
    big(t)
assign("MulAssign<&Poly<Ntt>>@Poly<Ntt>::mul_assign", "mul_assign_ntt", "Ntt", "Ntt", "rmul")
assign("MulAssign<&Poly<NttShoup>>@Poly<Ntt>::mul_assign", "mul_assign_shoup", "Ntt", "NttShoup", "rmul", lazyself=True)
byref("Mul<&Poly<Ntt>>@&Poly<Ntt>::mul", "mul_ntt", "Ntt", "*=", "mul_assign_ntt", "Ntt", "rmul")
byref("Mul<&Poly<NttShoup>>@&Poly<Ntt>::mul", "mul_shoup", "Ntt", "*=", "mul_assign_shoup", "NttShoup", "rmul", lazyself=True)
open(__file__.replace("tools/mkpolyops.py", "contracts/polyops.v"), "w").write("\n".join(x.rstrip("\n") for x in out) + "\n")

# polyref.v: the same operators on operands of any two contexts return only for equal ones
src = open(__file__.replace("tools/mkpolyops.py", "contracts/polyops.v")).read()
ref = """//@ import polyops
// GENERATED by tools/mkpolyops.py
// ---------------------------------------------------------------------------
// fhe-math/src/rq/ops.rs : with debug assertions, the assigning operators return only for operands
// of equal contexts (so callers that combine polynomials from different sources are refused)
// ---------------------------------------------------------------------------
use crate::ctx::*;
use crate::poly::*;
"""
import re
for blk in re.findall(r"//@ fn [^\n]*(?:add_assign|sub_assign|mul_assign_ntt)\n.*?//@ end\n", src, re.S):
    if "Poly<Ntt>::" not in blk.split("\n")[0]: continue
    blk = re.sub(r"as=Poly<Ntt>::(\w+)", r"as=Poly<Ntt>::\1_any", blk, count=1)
    blk = blk.replace("p.wf(), same(&*old(self).ctx, &*p.ctx),", "p.wf(),", 1)
    blk = blk.replace("    ensures final(self).wf(),", "    ensures same(&*old(self).ctx, &*p.ctx), final(self).wf(),", 1)
    blk = blk.replace("//@ loop 0\n", "//@ panics debug\n    proof { assert(!same(&*old(self).ctx, &*p.ctx)); }\n//@ loop 0\n", 1)
    ref += blk
open(__file__.replace("tools/mkpolyops.py", "contracts/polyref.v"), "w").write(ref)
