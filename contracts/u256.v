//@ import common
// ethnum::U256: assumed contracts of the dependency (256-bit machine integers).
use vstd::std_specs::ops::*;
use vstd::std_specs::cmp::*;
use vstd::std_specs::convert::*;
use vstd::arithmetic::power2::*;
pub open spec fn m128() -> int { 0x1_0000_0000_0000_0000_0000_0000_0000_0000int }
pub open spec fn m256() -> int { m128() * m128() }
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct U256 { _a: u128, _b: u128 }
#[allow(non_camel_case_types)]
pub type u256 = U256;
impl U256 {
    pub uninterp spec fn v(&self) -> int;
    /// two's complement reading
    pub open spec fn sgn(&self) -> int { if self.v() >= m256() / 2 { self.v() - m256() } else { self.v() } }
    pub uninterp spec fn of(x: int) -> U256;
    pub exec const ZERO: U256 ensures U256::ZERO.v() == 0 { U256::zero_() }
    #[verifier::external_body]
    pub const fn zero_() -> (r: U256) ensures r.v() == 0 { U256 { _a: 0, _b: 0 } }
    #[verifier::external_body]
    pub fn wrapping_add(self, o: U256) -> (r: U256) ensures r.v() == (self.v() + o.v()) % m256() { unimplemented!() }
    #[verifier::external_body]
    pub fn wrapping_sub(self, o: U256) -> (r: U256) ensures r.v() == (self.v() - o.v()) % m256() { unimplemented!() }
    #[verifier::external_body]
    pub fn as_u128(self) -> (r: u128) ensures r as int == self.v() % m128() { unimplemented!() }
}
pub axiom fn axiom_u256(x: U256) ensures 0 <= x.v() < m256();
pub axiom fn axiom_u256_of(x: int) ensures 0 <= x < m256() ==> U256::of(x).v() == x;
impl From<u64> for U256 { #[verifier::external_body] fn from(x: u64) -> U256 { unimplemented!() } }
impl FromSpecImpl<u64> for U256 {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(x: u64) -> U256 { U256::of(x as int) }
}
impl From<u128> for U256 { #[verifier::external_body] fn from(x: u128) -> U256 { unimplemented!() } }
impl FromSpecImpl<u128> for U256 {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(x: u128) -> U256 { U256::of(x as int) }
}
impl core::ops::Mul<U256> for U256 { type Output = U256; #[verifier::external_body] fn mul(self, n: U256) -> (r: U256) { unimplemented!() } }
impl MulSpecImpl<U256> for U256 {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, n: U256) -> bool { self.v() * n.v() < m256() }
    open spec fn mul_spec(self, n: U256) -> U256 { U256::of(self.v() * n.v()) }
}
impl core::ops::Not for U256 { type Output = U256; #[verifier::external_body] fn not(self) -> (r: U256) { unimplemented!() } }
impl NotSpecImpl for U256 {
    open spec fn obeys_not_spec() -> bool { true }
    open spec fn not_req(self) -> bool { true }
    open spec fn not_spec(self) -> U256 { U256::of(m256() - 1 - self.v()) }
}
impl core::ops::Shr<i32> for U256 { type Output = U256; #[verifier::external_body] fn shr(self, n: i32) -> (r: U256) { unimplemented!() } }
impl ShrSpecImpl<i32> for U256 {
    open spec fn obeys_shr_spec() -> bool { true }
    open spec fn shr_req(self, n: i32) -> bool { 0 <= n < 256 }
    open spec fn shr_spec(self, n: i32) -> U256 { U256::of(self.v() / (pow2(n as nat) as int)) }
}
impl core::ops::Shr<isize> for U256 { type Output = U256; #[verifier::external_body] fn shr(self, n: isize) -> (r: U256) { unimplemented!() } }
impl ShrSpecImpl<isize> for U256 {
    open spec fn obeys_shr_spec() -> bool { true }
    open spec fn shr_req(self, n: isize) -> bool { 0 <= n < 256 }
    open spec fn shr_spec(self, n: isize) -> U256 { U256::of(self.v() / (pow2(n as nat) as int)) }
}
impl core::ops::ShrAssign<usize> for U256 { #[verifier::external_body] fn shr_assign(&mut self, n: usize) { unimplemented!() } }
impl ShrAssignSpecImpl<usize> for U256 {
    open spec fn obeys_shr_assign_spec() -> bool { true }
    open spec fn shr_assign_req(&self, n: usize) -> bool { n < 256 }
    open spec fn shr_assign_spec(&self, n: usize) -> &Self { &U256::of(self.v() / (pow2(n as nat) as int)) }
}
impl PartialEq for U256 { #[verifier::external_body] fn eq(&self, o: &U256) -> bool { unimplemented!() } }
impl PartialEqSpecImpl for U256 {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &U256) -> bool { self.v() == o.v() }
}
impl PartialOrd for U256 { #[verifier::external_body] fn partial_cmp(&self, o: &U256) -> Option<core::cmp::Ordering> { unimplemented!() } }
impl PartialOrdSpecImpl for U256 {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &U256) -> Option<core::cmp::Ordering> {
        Some(if self.v() < o.v() { core::cmp::Ordering::Less } else if self.v() == o.v() { core::cmp::Ordering::Equal } else { core::cmp::Ordering::Greater })
    }
}
pub assume_specification [u128::div_ceil] (a: u128, b: u128) -> (r: u128)
    requires b != 0,
    ensures r as int == (a as int + b as int - 1) / (b as int);
