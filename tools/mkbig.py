"""Writes contracts/bigops.v: assumed contracts of num_bigint's operators (exact arithmetic on naturals)."""
o = ["""//@ import common
//@ import bigint
// GENERATED by tools/mkbig.py.  num_bigint::BigUint operators: assumed contracts of the
// dependency (exact arithmetic on naturals; subtraction and division have their preconditions).
use vstd::std_specs::ops::*;
use vstd::std_specs::convert::*;
use vstd::arithmetic::power2::*;
pub uninterp spec fn bitand(a: nat, b: nat) -> nat;
pub axiom fn axiom_and_one(a: nat) ensures bitand(a, 1) == a % 2;
impl BigUint {
    #[verifier::external_body] pub fn one() -> (r: BigUint) ensures r.v() == 1 { unimplemented!() }
    #[verifier::external_body] pub fn zero() -> (r: BigUint) ensures r.v() == 0 { unimplemented!() }
    #[verifier::external_body] pub fn is_zero(&self) -> (r: bool) ensures r == (self.v() == 0) { unimplemented!() }
    #[verifier::external_body] pub fn is_one(&self) -> (r: bool) ensures r == (self.v() == 1) { unimplemented!() }
}
impl Clone for BigUint {
    #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
/// equality of values is equality of the abstract number
pub proof fn lemma_big_eq(a: BigUint, b: BigUint)
    requires a.v() == b.v(),
    ensures a == b,
{ assert(a.g == b.g); }
"""]
def val(t, x): return {"B": f"{x}.v()", "&B": f"{x}.v()", "u64": f"({x} as nat)", "&u64": f"(*{x} as nat)", "usize": f"({x} as nat)", "i32": f"({x} as nat)", "u32": f"({x} as nat)"}[t]
def ty(t, l): return {"B": "BigUint", "&B": f"&'{l} BigUint", "&u64": f"&'{l} u64"}.get(t, t)
def binop(tr, fn, l, r, req, spec):
    lts = ["'a"] if l.startswith("&") else []
    lts += ["'b"] if r.startswith("&") else []
    g = "<" + ", ".join(lts) + ">" if lts else ""
    a, b = val(l, "self"), val(r, "n")
    L, R = ty(l, "a"), ty(r, "b")
    o.append(f"impl{g} core::ops::{tr}<{R}> for {L} {{ type Output = BigUint; #[verifier::external_body] fn {fn}(self, n: {R}) -> (r: BigUint) {{ unimplemented!() }} }}\n"
      f"impl{g} {tr}SpecImpl<{R}> for {L} {{\n    open spec fn obeys_{fn}_spec() -> bool {{ true }}\n"
      f"    open spec fn {fn}_req(self, n: {R}) -> bool {{ {req(a,b)} }}\n    open spec fn {fn}_spec(self, n: {R}) -> BigUint {{ big({spec(a,b)}) }}\n}}\n")
def asg(tr, fn, r, req, spec):
    g = "<'b>" if r.startswith("&") else ""
    a, b = "self.v()", val(r, "n")
    R = ty(r, "b")
    o.append(f"impl{g} core::ops::{tr}<{R}> for BigUint {{ #[verifier::external_body] fn {fn}(&mut self, n: {R}) {{ unimplemented!() }} }}\n"
      f"impl{g} {tr}SpecImpl<{R}> for BigUint {{\n    open spec fn obeys_{fn}_spec() -> bool {{ true }}\n"
      f"    open spec fn {fn}_req(&self, n: {R}) -> bool {{ {req(a,b)} }}\n    open spec fn {fn}_spec(&self, n: {R}) -> &Self {{ &big({spec(a,b)}) }}\n}}\n")
T = lambda a, b: "true"
NZ = lambda a, b: f"{b} != 0"
GE = lambda a, b: f"{a} >= {b}"
nat = lambda op: (lambda a, b: f"({a} {op} {b}) as nat")
for l in ("B", "&B"):
    for r in ("B", "&B", "u64"):
        binop("Mul", "mul", l, r, T, nat("*"))
        binop("Rem", "rem", l, r, NZ, nat("%"))
        if not (l == "B" and r == "u64"): binop("Div", "div", l, r, NZ, nat("/"))
        if not r == "u64":
            binop("Add", "add", l, r, T, nat("+"))
        binop("Sub", "sub", l, r, GE, nat("-"))
    binop("Add", "add", l, "u32", T, nat("+"))
    for r in ("&u64",):
        binop("Div", "div", l, r, NZ, nat("/"))
        binop("Rem", "rem", l, r, NZ, nat("%"))
    for r in ("B", "&B"): binop("BitAnd", "bitand", l, r, T, lambda a, b: f"bitand({a}, {b})")
    for r in ("usize", "u32", "i32"):
        q = (lambda a, b: "n >= 0") if r == "i32" else T
        if not (l == "B" and r in ("usize", "i32")): binop("Shl", "shl", l, r, q, lambda a, b: f"{a} * pow2({b})")
        binop("Shr", "shr", l, r, q, lambda a, b: f"({a} as int / pow2({b}) as int) as nat")
for r in ("B", "&B"):
    asg("MulAssign", "mul_assign", r, T, nat("*"))
    asg("AddAssign", "add_assign", r, T, nat("+"))
    asg("SubAssign", "sub_assign", r, GE, nat("-"))
    asg("RemAssign", "rem_assign", r, NZ, nat("%"))
o.append("""impl core::cmp::PartialEq<u64> for BigUint { #[verifier::external_body] fn eq(&self, o: &u64) -> bool { unimplemented!() } }
""" if False else "")
open("/verif/contracts/bigops.v", "w").write("\n".join(o))
