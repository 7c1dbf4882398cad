#!/usr/bin/env python3
"""Writes contracts/fp.v: the operators on polynomials, as Rust operators, for client code."""
out = []
w = out.append
w("""//@ import poly
//@ import polyops
// GENERATED by tools/mkfp.py
// ---------------------------------------------------------------------------
// The operators of fhe-math/src/rq/ops.rs as client code writes them.  padd, psub, ... name the
// (deterministic) results of the operators; what is assumed of them here is their contract,
// proved in polyops.v.
// ---------------------------------------------------------------------------
use vstd::std_specs::ops::*;
use vstd::std_specs::convert::*;
use std::sync::Arc;
use std::marker::PhantomData;
impl<R: RepresentationTag> Poly<R> {
    pub open spec fn vt(&self) -> bool { self.allow_variable_time_computations }
    pub open spec fn like<S: RepresentationTag>(&self, o: &Poly<S>) -> bool { self.wf() && o.wf() && same(&*self.ctx, &*o.ctx) }
}
""")
def binop(fn, rel, l, r, generic):
    g = "<R: RepresentationTag>" if generic else ""
    w(f"""pub uninterp spec fn {fn}{g}(a: Poly<{l}>, b: Poly<{r}>) -> Poly<{l}>;
pub broadcast axiom fn axiom_{fn}{g}(a: Poly<{l}>, b: Poly<{r}>)
    requires a.like(&b),
    ensures (#[trigger] {fn}(a, b)).wf(), {fn}(a, b).ctx == a.ctx, {fn}(a, b).vt() == (a.vt() && b.vt()),
        forall|i: int| 0 <= i < a.n() ==> {rel}((#[trigger] {fn}(a, b).rows()[i])@, a.rows()[i]@, b.rows()[i]@, a.p(i));
""")
def impl2(tr, m, l, r, fn, own=("&'a ", "&'b ")):
    a, b = own
    lt = "<" + ", ".join(x for x in ("'a" if "'a" in a else "", "'b" if "'b" in b else "") if x) + ">"
    if lt == "<>": lt = ""
    da = "*self" if a else "self"
    db = "*n" if b else "n"
    w(f"""impl{lt} core::ops::{tr}<{b}Poly<{r}>> for {a}Poly<{l}> {{ type Output = Poly<{l}>; #[verifier::external_body] fn {m}(self, n: {b}Poly<{r}>) -> (r: Poly<{l}>) {{ unimplemented!() }} }}
impl{lt} {tr}SpecImpl<{b}Poly<{r}>> for {a}Poly<{l}> {{
    open spec fn obeys_{m}_spec() -> bool {{ true }}
    open spec fn {m}_req(self, n: {b}Poly<{r}>) -> bool {{ self.like(&n) }}
    open spec fn {m}_spec(self, n: {b}Poly<{r}>) -> Poly<{l}> {{ {fn}({da}, {db}) }}
}}
""")
def assign(tr, m, l, r, fn):
    w(f"""impl<'b> core::ops::{tr}<&'b Poly<{r}>> for Poly<{l}> {{ #[verifier::external_body] fn {m}(&mut self, n: &'b Poly<{r}>) {{ unimplemented!() }} }}
impl<'b> {tr}SpecImpl<&'b Poly<{r}>> for Poly<{l}> {{
    open spec fn obeys_{m}_spec() -> bool {{ true }}
    open spec fn {m}_req(&self, n: &'b Poly<{r}>) -> bool {{ self.like(n) }}
    open spec fn {m}_spec(&self, n: &'b Poly<{r}>) -> &Self {{ &{fn}(*self, *n) }}
}}
""")
binop("padd", "radd", "R", "R", True)
binop("psub", "rsub", "R", "R", True)
binop("pmul", "rmul", "Ntt", "Ntt", False)
binop("pmuls", "rmul", "Ntt", "NttShoup", False)
w("""pub uninterp spec fn pneg<R: RepresentationTag>(a: Poly<R>) -> Poly<R>;
pub broadcast axiom fn axiom_pneg<R: RepresentationTag>(a: Poly<R>)
    requires a.wf(),
    ensures (#[trigger] pneg(a)).wf(), pneg(a).ctx == a.ctx, pneg(a).vt() == a.vt(),
        forall|i: int| 0 <= i < a.n() ==> rneg((#[trigger] pneg(a).rows()[i])@, a.rows()[i]@, a.p(i));
pub broadcast group group_poly { axiom_padd, axiom_psub, axiom_pmul, axiom_pmuls, axiom_pneg }
""")
for t in ("PowerBasis", "Ntt"):
    for (tr, m, fn) in (("Add", "add", "padd"), ("Sub", "sub", "psub")):
        assign(tr + "Assign", m + "_assign", t, t, fn)
    w(f"""impl<'a> core::ops::Neg for &'a Poly<{t}> {{ type Output = Poly<{t}>; #[verifier::external_body] fn neg(self) -> (r: Poly<{t}>) {{ unimplemented!() }} }}
impl<'a> NegSpecImpl for &'a Poly<{t}> {{
    open spec fn obeys_neg_spec() -> bool {{ true }}
    open spec fn neg_req(self) -> bool {{ self.wf() }}
    open spec fn neg_spec(self) -> Poly<{t}> {{ pneg(*self) }}
}}
impl core::ops::Neg for Poly<{t}> {{ type Output = Poly<{t}>; #[verifier::external_body] fn neg(self) -> (r: Poly<{t}>) {{ unimplemented!() }} }}
impl NegSpecImpl for Poly<{t}> {{
    open spec fn obeys_neg_spec() -> bool {{ true }}
    open spec fn neg_req(self) -> bool {{ self.wf() }}
    open spec fn neg_spec(self) -> Poly<{t}> {{ pneg(self) }}
}}
""")
    # Add by value returns rhs + self: same ring element, context of the right operand
    w(f"""impl core::ops::Add<Poly<{t}>> for Poly<{t}> {{ type Output = Poly<{t}>; #[verifier::external_body] fn add(self, n: Poly<{t}>) -> (r: Poly<{t}>) {{ unimplemented!() }} }}
impl AddSpecImpl<Poly<{t}>> for Poly<{t}> {{
    open spec fn obeys_add_spec() -> bool {{ true }}
    open spec fn add_req(self, n: Poly<{t}>) -> bool {{ self.like(&n) }}
    open spec fn add_spec(self, n: Poly<{t}>) -> Poly<{t}> {{ padd(n, self) }}
}}
""")
w("""/// operators on references (Verus cannot select specifications of operator impls on references)
impl<R: RepresentationTag> Poly<R> {
    #[verifier::external_body]
    pub fn vadd(&self, n: &Poly<R>) -> (r: Poly<R>)
        requires self.like(n),
        ensures r == padd(*self, *n),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vsub(&self, n: &Poly<R>) -> (r: Poly<R>)
        requires self.like(n),
        ensures r == psub(*self, *n),
    { unimplemented!() }
}
pub trait MulRhs { spec fn can(&self, a: Poly<Ntt>) -> bool; spec fn prod(&self, a: Poly<Ntt>) -> Poly<Ntt>; }
impl MulRhs for Poly<Ntt> { open spec fn can(&self, a: Poly<Ntt>) -> bool { a.like(self) } open spec fn prod(&self, a: Poly<Ntt>) -> Poly<Ntt> { pmul(a, *self) } }
impl MulRhs for Poly<NttShoup> { open spec fn can(&self, a: Poly<Ntt>) -> bool { a.like(self) } open spec fn prod(&self, a: Poly<Ntt>) -> Poly<Ntt> { pmuls(a, *self) } }
impl Poly<Ntt> {
    #[verifier::external_body]
    pub fn vmul<T: MulRhs>(&self, n: &T) -> (r: Poly<Ntt>)
        requires n.can(*self),
        ensures r == n.prod(*self),
    { unimplemented!() }
}
""")
assign("MulAssign", "mul_assign", "Ntt", "Ntt", "pmul")
assign("MulAssign", "mul_assign", "Ntt", "NttShoup", "pmuls")
open(__file__.replace("tools/mkfp.py", "contracts/fp.v"), "w").write("\n".join(x.rstrip("\n") for x in out) + "\n")
