//@ import common
// num_bigint::BigUint: a natural number.  Assumed contracts of the dependency
// (the operators are mathematical; conversions truncate/fail as documented).
use vstd::std_specs::ops::*;
use vstd::std_specs::cmp::*;
use vstd::std_specs::convert::*;
use vstd::arithmetic::power2::*;

pub struct BigUint { pub g: Ghost<nat> }
impl BigUint { pub open spec fn v(&self) -> nat { self.g@ } }
pub open spec fn big(n: nat) -> BigUint { BigUint { g: Ghost(n) } }

impl From<u64> for BigUint { #[verifier::external_body] fn from(x: u64) -> BigUint { unimplemented!() } }
impl FromSpecImpl<u64> for BigUint {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(x: u64) -> BigUint { big(x as nat) }
}
impl core::ops::Shl<usize> for BigUint { type Output = BigUint; #[verifier::external_body] fn shl(self, n: usize) -> (r: BigUint) { unimplemented!() } }
impl ShlSpecImpl<usize> for BigUint {
    open spec fn obeys_shl_spec() -> bool { true }
    open spec fn shl_req(self, n: usize) -> bool { true }
    open spec fn shl_spec(self, n: usize) -> BigUint { big(self.v() * pow2(n as nat)) }
}
impl core::ops::Div<u64> for BigUint { type Output = BigUint; #[verifier::external_body] fn div(self, n: u64) -> (r: BigUint) { unimplemented!() } }
impl DivSpecImpl<u64> for BigUint {
    open spec fn obeys_div_spec() -> bool { true }
    open spec fn div_req(self, n: u64) -> bool { n != 0 }
    open spec fn div_spec(self, n: u64) -> BigUint { big(self.v() / (n as nat)) }
}
impl BigUint {
    #[verifier::external_body]
    pub fn to_u128(&self) -> (r: Option<u128>)
        ensures self.v() <= u128::MAX ==> r == Some(self.v() as u128), self.v() > u128::MAX ==> r is None,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn to_u64(&self) -> (r: Option<u64>)
        ensures self.v() <= u64::MAX ==> r == Some(self.v() as u64), self.v() > u64::MAX ==> r is None,
    { unimplemented!() }
}
impl<'a> core::ops::Add<u64> for &'a BigUint { type Output = BigUint; #[verifier::external_body] fn add(self, n: u64) -> (r: BigUint) { unimplemented!() } }
impl<'a> AddSpecImpl<u64> for &'a BigUint {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, n: u64) -> bool { true }
    open spec fn add_spec(self, n: u64) -> BigUint { big(self.v() + n as nat) }
}
impl core::ops::Add<u64> for BigUint { type Output = BigUint; #[verifier::external_body] fn add(self, n: u64) -> (r: BigUint) { unimplemented!() } }
impl AddSpecImpl<u64> for BigUint {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, n: u64) -> bool { true }
    open spec fn add_spec(self, n: u64) -> BigUint { big(self.v() + n as nat) }
}
impl core::ops::Shl<i32> for BigUint { type Output = BigUint; #[verifier::external_body] fn shl(self, n: i32) -> (r: BigUint) { unimplemented!() } }
impl ShlSpecImpl<i32> for BigUint {
    open spec fn obeys_shl_spec() -> bool { true }
    open spec fn shl_req(self, n: i32) -> bool { n >= 0 }
    open spec fn shl_spec(self, n: i32) -> BigUint { big(self.v() * pow2(n as nat)) }
}
impl core::ops::MulAssign<u64> for BigUint { #[verifier::external_body] fn mul_assign(&mut self, n: u64) { unimplemented!() } }
impl MulAssignSpecImpl<u64> for BigUint {
    open spec fn obeys_mul_assign_spec() -> bool { true }
    open spec fn mul_assign_req(&self, n: u64) -> bool { true }
    open spec fn mul_assign_spec(&self, n: u64) -> &Self { &big(self.v() * n as nat) }
}
impl PartialEq for BigUint { #[verifier::external_body] fn eq(&self, o: &BigUint) -> bool { unimplemented!() } }
impl PartialEqSpecImpl for BigUint {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &BigUint) -> bool { self.v() == o.v() }
}
impl PartialOrd for BigUint { #[verifier::external_body] fn partial_cmp(&self, o: &BigUint) -> Option<core::cmp::Ordering> { unimplemented!() } }
impl PartialOrdSpecImpl for BigUint {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &BigUint) -> Option<core::cmp::Ordering> {
        Some(if self.v() < o.v() { core::cmp::Ordering::Less } else if self.v() == o.v() { core::cmp::Ordering::Equal } else { core::cmp::Ordering::Greater })
    }
}
