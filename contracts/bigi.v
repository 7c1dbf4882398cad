//@ import rns
// ---------------------------------------------------------------------------
// num_bigint::BigInt: an integer.  Assumed contracts of the dependency.
// ---------------------------------------------------------------------------
use vstd::std_specs::ops::*;
use vstd::std_specs::cmp::*;
use vstd::std_specs::convert::*;
pub enum Sign { Minus, NoSign, Plus }
pub open spec fn bigi(x: int) -> BigInt { BigInt { g: Ghost(x) } }
impl BigInt { pub open spec fn v(&self) -> int { self.g@ } }
/// remainder of the division rounding towards zero
pub open spec fn trem(x: int, m: int) -> int recommends m > 0 { if x >= 0 { x % m } else { -((-x) % m) } }
impl BigInt {
    #[verifier::external_body]
    pub fn from_biguint(s: Sign, x: BigUint) -> (r: BigInt)
        ensures s is Plus ==> r.v() == x.v(), s is Minus ==> r.v() == -x.v(), s is NoSign ==> r.v() == 0,
    { unimplemented!() }
    #[verifier::external_body] pub fn zero() -> (r: BigInt) ensures r.v() == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn to_biguint(&self) -> (r: Option<BigUint>)
        ensures self.v() >= 0 ==> r == Some(big(self.v() as nat)), self.v() < 0 ==> r is None,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn to_i64(&self) -> (r: Option<i64>)
        ensures i64::MIN <= self.v() <= i64::MAX ==> r == Some(self.v() as i64), !(i64::MIN <= self.v() <= i64::MAX) ==> r is None,
    { unimplemented!() }
}
impl BigUint {
    #[verifier::external_body]
    pub fn to_i64(&self) -> (r: Option<i64>)
        ensures self.v() <= i64::MAX ==> r == Some(self.v() as i64), self.v() > i64::MAX ==> r is None,
    { unimplemented!() }
}
impl From<i64> for BigInt { #[verifier::external_body] fn from(x: i64) -> BigInt { unimplemented!() } }
impl FromSpecImpl<i64> for BigInt {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(x: i64) -> BigInt { bigi(x as int) }
}
impl PartialEq for BigInt { #[verifier::external_body] fn eq(&self, o: &BigInt) -> bool { unimplemented!() } }
impl PartialEqSpecImpl for BigInt {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &BigInt) -> bool { self.v() == o.v() }
}
impl PartialOrd for BigInt { #[verifier::external_body] fn partial_cmp(&self, o: &BigInt) -> Option<core::cmp::Ordering> { unimplemented!() } }
impl PartialOrdSpecImpl for BigInt {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &BigInt) -> Option<core::cmp::Ordering> {
        Some(if self.v() < o.v() { core::cmp::Ordering::Less } else if self.v() == o.v() { core::cmp::Ordering::Equal } else { core::cmp::Ordering::Greater })
    }
}
impl<'b> core::ops::RemAssign<&'b BigInt> for BigInt { #[verifier::external_body] fn rem_assign(&mut self, n: &'b BigInt) { unimplemented!() } }
impl<'b> RemAssignSpecImpl<&'b BigInt> for BigInt {
    open spec fn obeys_rem_assign_spec() -> bool { true }
    open spec fn rem_assign_req(&self, n: &'b BigInt) -> bool { n.v() > 0 }
    open spec fn rem_assign_spec(&self, n: &'b BigInt) -> &Self { &bigi(trem(self.v(), n.v())) }
}
impl<'b> core::ops::AddAssign<&'b BigInt> for BigInt { #[verifier::external_body] fn add_assign(&mut self, n: &'b BigInt) { unimplemented!() } }
impl<'b> AddAssignSpecImpl<&'b BigInt> for BigInt {
    open spec fn obeys_add_assign_spec() -> bool { true }
    open spec fn add_assign_req(&self, n: &'b BigInt) -> bool { true }
    open spec fn add_assign_spec(&self, n: &'b BigInt) -> &Self { &bigi(self.v() + n.v()) }
}
impl BigInt {
    /// BigInt - &BigInt
    #[verifier::external_body]
    pub fn vsub_ref(self, n: &BigInt) -> (r: BigInt)
        ensures r == bigi(self.v() - n.v()),
    { unimplemented!() }
}
impl BigUint {
    /// &BigUint / u32
    #[verifier::external_body]
    pub fn vdiv_u32(&self, n: u32) -> (r: BigUint)
        requires n != 0,
        ensures r == big(self.v() / (n as nat)),
    { unimplemented!() }
}
