//@ import common
//@ import bigint
// GENERATED by tools/mkbig.py.  num_bigint::BigUint operators: assumed contracts of the
// dependency (exact arithmetic on naturals; subtraction and division have their preconditions).
use vstd::std_specs::ops::*;
use vstd::std_specs::convert::*;
use vstd::arithmetic::power2::*;
pub uninterp spec fn bitand(a: nat, b: nat) -> nat;
pub axiom fn axiom_and_one(a: nat) ensures bitand(a, 1) == a % 2;
impl BigUint {
    #[verifier::external_body] pub fn one() -> (r: BigUint) ensures r.v() == 1 { unimplemented!() }
    #[verifier::external_body] pub fn zero() -> (r: BigUint) ensures r.v() == 0 { unimplemented!() }
    #[verifier::external_body] pub fn is_zero(&self) -> (r: bool) ensures r == (self.v() == 0) { unimplemented!() }
    #[verifier::external_body] pub fn is_one(&self) -> (r: bool) ensures r == (self.v() == 1) { unimplemented!() }
}
impl Clone for BigUint {
    #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
/// equality of values is equality of the abstract number
pub proof fn lemma_big_eq(a: BigUint, b: BigUint)
    requires a.v() == b.v(),
    ensures a == b,
{ assert(a.g == b.g); }

impl core::ops::Mul<BigUint> for BigUint { type Output = BigUint; #[verifier::external_body] fn mul(self, n: BigUint) -> (r: BigUint) { unimplemented!() } }
impl MulSpecImpl<BigUint> for BigUint {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, n: BigUint) -> bool { true }
    open spec fn mul_spec(self, n: BigUint) -> BigUint { big((self.v() * n.v()) as nat) }
}

impl core::ops::Rem<BigUint> for BigUint { type Output = BigUint; #[verifier::external_body] fn rem(self, n: BigUint) -> (r: BigUint) { unimplemented!() } }
impl RemSpecImpl<BigUint> for BigUint {
    open spec fn obeys_rem_spec() -> bool { true }
    open spec fn rem_req(self, n: BigUint) -> bool { n.v() != 0 }
    open spec fn rem_spec(self, n: BigUint) -> BigUint { big((self.v() % n.v()) as nat) }
}

impl core::ops::Div<BigUint> for BigUint { type Output = BigUint; #[verifier::external_body] fn div(self, n: BigUint) -> (r: BigUint) { unimplemented!() } }
impl DivSpecImpl<BigUint> for BigUint {
    open spec fn obeys_div_spec() -> bool { true }
    open spec fn div_req(self, n: BigUint) -> bool { n.v() != 0 }
    open spec fn div_spec(self, n: BigUint) -> BigUint { big((self.v() / n.v()) as nat) }
}

impl core::ops::Add<BigUint> for BigUint { type Output = BigUint; #[verifier::external_body] fn add(self, n: BigUint) -> (r: BigUint) { unimplemented!() } }
impl AddSpecImpl<BigUint> for BigUint {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, n: BigUint) -> bool { true }
    open spec fn add_spec(self, n: BigUint) -> BigUint { big((self.v() + n.v()) as nat) }
}

impl core::ops::Sub<BigUint> for BigUint { type Output = BigUint; #[verifier::external_body] fn sub(self, n: BigUint) -> (r: BigUint) { unimplemented!() } }
impl SubSpecImpl<BigUint> for BigUint {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, n: BigUint) -> bool { self.v() >= n.v() }
    open spec fn sub_spec(self, n: BigUint) -> BigUint { big((self.v() - n.v()) as nat) }
}

impl<'b> core::ops::Mul<&'b BigUint> for BigUint { type Output = BigUint; #[verifier::external_body] fn mul(self, n: &'b BigUint) -> (r: BigUint) { unimplemented!() } }
impl<'b> MulSpecImpl<&'b BigUint> for BigUint {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, n: &'b BigUint) -> bool { true }
    open spec fn mul_spec(self, n: &'b BigUint) -> BigUint { big((self.v() * n.v()) as nat) }
}

impl<'b> core::ops::Rem<&'b BigUint> for BigUint { type Output = BigUint; #[verifier::external_body] fn rem(self, n: &'b BigUint) -> (r: BigUint) { unimplemented!() } }
impl<'b> RemSpecImpl<&'b BigUint> for BigUint {
    open spec fn obeys_rem_spec() -> bool { true }
    open spec fn rem_req(self, n: &'b BigUint) -> bool { n.v() != 0 }
    open spec fn rem_spec(self, n: &'b BigUint) -> BigUint { big((self.v() % n.v()) as nat) }
}

impl<'b> core::ops::Div<&'b BigUint> for BigUint { type Output = BigUint; #[verifier::external_body] fn div(self, n: &'b BigUint) -> (r: BigUint) { unimplemented!() } }
impl<'b> DivSpecImpl<&'b BigUint> for BigUint {
    open spec fn obeys_div_spec() -> bool { true }
    open spec fn div_req(self, n: &'b BigUint) -> bool { n.v() != 0 }
    open spec fn div_spec(self, n: &'b BigUint) -> BigUint { big((self.v() / n.v()) as nat) }
}

impl<'b> core::ops::Add<&'b BigUint> for BigUint { type Output = BigUint; #[verifier::external_body] fn add(self, n: &'b BigUint) -> (r: BigUint) { unimplemented!() } }
impl<'b> AddSpecImpl<&'b BigUint> for BigUint {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, n: &'b BigUint) -> bool { true }
    open spec fn add_spec(self, n: &'b BigUint) -> BigUint { big((self.v() + n.v()) as nat) }
}

impl<'b> core::ops::Sub<&'b BigUint> for BigUint { type Output = BigUint; #[verifier::external_body] fn sub(self, n: &'b BigUint) -> (r: BigUint) { unimplemented!() } }
impl<'b> SubSpecImpl<&'b BigUint> for BigUint {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, n: &'b BigUint) -> bool { self.v() >= n.v() }
    open spec fn sub_spec(self, n: &'b BigUint) -> BigUint { big((self.v() - n.v()) as nat) }
}

impl core::ops::Mul<u64> for BigUint { type Output = BigUint; #[verifier::external_body] fn mul(self, n: u64) -> (r: BigUint) { unimplemented!() } }
impl MulSpecImpl<u64> for BigUint {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, n: u64) -> bool { true }
    open spec fn mul_spec(self, n: u64) -> BigUint { big((self.v() * (n as nat)) as nat) }
}

impl core::ops::Rem<u64> for BigUint { type Output = BigUint; #[verifier::external_body] fn rem(self, n: u64) -> (r: BigUint) { unimplemented!() } }
impl RemSpecImpl<u64> for BigUint {
    open spec fn obeys_rem_spec() -> bool { true }
    open spec fn rem_req(self, n: u64) -> bool { (n as nat) != 0 }
    open spec fn rem_spec(self, n: u64) -> BigUint { big((self.v() % (n as nat)) as nat) }
}

impl core::ops::Sub<u64> for BigUint { type Output = BigUint; #[verifier::external_body] fn sub(self, n: u64) -> (r: BigUint) { unimplemented!() } }
impl SubSpecImpl<u64> for BigUint {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, n: u64) -> bool { self.v() >= (n as nat) }
    open spec fn sub_spec(self, n: u64) -> BigUint { big((self.v() - (n as nat)) as nat) }
}

impl core::ops::Add<u32> for BigUint { type Output = BigUint; #[verifier::external_body] fn add(self, n: u32) -> (r: BigUint) { unimplemented!() } }
impl AddSpecImpl<u32> for BigUint {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, n: u32) -> bool { true }
    open spec fn add_spec(self, n: u32) -> BigUint { big((self.v() + (n as nat)) as nat) }
}

impl<'b> core::ops::Div<&'b u64> for BigUint { type Output = BigUint; #[verifier::external_body] fn div(self, n: &'b u64) -> (r: BigUint) { unimplemented!() } }
impl<'b> DivSpecImpl<&'b u64> for BigUint {
    open spec fn obeys_div_spec() -> bool { true }
    open spec fn div_req(self, n: &'b u64) -> bool { (*n as nat) != 0 }
    open spec fn div_spec(self, n: &'b u64) -> BigUint { big((self.v() / (*n as nat)) as nat) }
}

impl<'b> core::ops::Rem<&'b u64> for BigUint { type Output = BigUint; #[verifier::external_body] fn rem(self, n: &'b u64) -> (r: BigUint) { unimplemented!() } }
impl<'b> RemSpecImpl<&'b u64> for BigUint {
    open spec fn obeys_rem_spec() -> bool { true }
    open spec fn rem_req(self, n: &'b u64) -> bool { (*n as nat) != 0 }
    open spec fn rem_spec(self, n: &'b u64) -> BigUint { big((self.v() % (*n as nat)) as nat) }
}

impl core::ops::BitAnd<BigUint> for BigUint { type Output = BigUint; #[verifier::external_body] fn bitand(self, n: BigUint) -> (r: BigUint) { unimplemented!() } }
impl BitAndSpecImpl<BigUint> for BigUint {
    open spec fn obeys_bitand_spec() -> bool { true }
    open spec fn bitand_req(self, n: BigUint) -> bool { true }
    open spec fn bitand_spec(self, n: BigUint) -> BigUint { big(bitand(self.v(), n.v())) }
}

impl<'b> core::ops::BitAnd<&'b BigUint> for BigUint { type Output = BigUint; #[verifier::external_body] fn bitand(self, n: &'b BigUint) -> (r: BigUint) { unimplemented!() } }
impl<'b> BitAndSpecImpl<&'b BigUint> for BigUint {
    open spec fn obeys_bitand_spec() -> bool { true }
    open spec fn bitand_req(self, n: &'b BigUint) -> bool { true }
    open spec fn bitand_spec(self, n: &'b BigUint) -> BigUint { big(bitand(self.v(), n.v())) }
}

impl core::ops::Shr<usize> for BigUint { type Output = BigUint; #[verifier::external_body] fn shr(self, n: usize) -> (r: BigUint) { unimplemented!() } }
impl ShrSpecImpl<usize> for BigUint {
    open spec fn obeys_shr_spec() -> bool { true }
    open spec fn shr_req(self, n: usize) -> bool { true }
    open spec fn shr_spec(self, n: usize) -> BigUint { big((self.v() as int / pow2((n as nat)) as int) as nat) }
}

impl core::ops::Shl<u32> for BigUint { type Output = BigUint; #[verifier::external_body] fn shl(self, n: u32) -> (r: BigUint) { unimplemented!() } }
impl ShlSpecImpl<u32> for BigUint {
    open spec fn obeys_shl_spec() -> bool { true }
    open spec fn shl_req(self, n: u32) -> bool { true }
    open spec fn shl_spec(self, n: u32) -> BigUint { big(self.v() * pow2((n as nat))) }
}

impl core::ops::Shr<u32> for BigUint { type Output = BigUint; #[verifier::external_body] fn shr(self, n: u32) -> (r: BigUint) { unimplemented!() } }
impl ShrSpecImpl<u32> for BigUint {
    open spec fn obeys_shr_spec() -> bool { true }
    open spec fn shr_req(self, n: u32) -> bool { true }
    open spec fn shr_spec(self, n: u32) -> BigUint { big((self.v() as int / pow2((n as nat)) as int) as nat) }
}

impl core::ops::Shr<i32> for BigUint { type Output = BigUint; #[verifier::external_body] fn shr(self, n: i32) -> (r: BigUint) { unimplemented!() } }
impl ShrSpecImpl<i32> for BigUint {
    open spec fn obeys_shr_spec() -> bool { true }
    open spec fn shr_req(self, n: i32) -> bool { n >= 0 }
    open spec fn shr_spec(self, n: i32) -> BigUint { big((self.v() as int / pow2((n as nat)) as int) as nat) }
}

impl<'a> core::ops::Mul<BigUint> for &'a BigUint { type Output = BigUint; #[verifier::external_body] fn mul(self, n: BigUint) -> (r: BigUint) { unimplemented!() } }
impl<'a> MulSpecImpl<BigUint> for &'a BigUint {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, n: BigUint) -> bool { true }
    open spec fn mul_spec(self, n: BigUint) -> BigUint { big((self.v() * n.v()) as nat) }
}

impl<'a> core::ops::Rem<BigUint> for &'a BigUint { type Output = BigUint; #[verifier::external_body] fn rem(self, n: BigUint) -> (r: BigUint) { unimplemented!() } }
impl<'a> RemSpecImpl<BigUint> for &'a BigUint {
    open spec fn obeys_rem_spec() -> bool { true }
    open spec fn rem_req(self, n: BigUint) -> bool { n.v() != 0 }
    open spec fn rem_spec(self, n: BigUint) -> BigUint { big((self.v() % n.v()) as nat) }
}

impl<'a> core::ops::Div<BigUint> for &'a BigUint { type Output = BigUint; #[verifier::external_body] fn div(self, n: BigUint) -> (r: BigUint) { unimplemented!() } }
impl<'a> DivSpecImpl<BigUint> for &'a BigUint {
    open spec fn obeys_div_spec() -> bool { true }
    open spec fn div_req(self, n: BigUint) -> bool { n.v() != 0 }
    open spec fn div_spec(self, n: BigUint) -> BigUint { big((self.v() / n.v()) as nat) }
}

impl<'a> core::ops::Add<BigUint> for &'a BigUint { type Output = BigUint; #[verifier::external_body] fn add(self, n: BigUint) -> (r: BigUint) { unimplemented!() } }
impl<'a> AddSpecImpl<BigUint> for &'a BigUint {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, n: BigUint) -> bool { true }
    open spec fn add_spec(self, n: BigUint) -> BigUint { big((self.v() + n.v()) as nat) }
}

impl<'a> core::ops::Sub<BigUint> for &'a BigUint { type Output = BigUint; #[verifier::external_body] fn sub(self, n: BigUint) -> (r: BigUint) { unimplemented!() } }
impl<'a> SubSpecImpl<BigUint> for &'a BigUint {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, n: BigUint) -> bool { self.v() >= n.v() }
    open spec fn sub_spec(self, n: BigUint) -> BigUint { big((self.v() - n.v()) as nat) }
}

impl<'a, 'b> core::ops::Mul<&'b BigUint> for &'a BigUint { type Output = BigUint; #[verifier::external_body] fn mul(self, n: &'b BigUint) -> (r: BigUint) { unimplemented!() } }
impl<'a, 'b> MulSpecImpl<&'b BigUint> for &'a BigUint {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, n: &'b BigUint) -> bool { true }
    open spec fn mul_spec(self, n: &'b BigUint) -> BigUint { big((self.v() * n.v()) as nat) }
}

impl<'a, 'b> core::ops::Rem<&'b BigUint> for &'a BigUint { type Output = BigUint; #[verifier::external_body] fn rem(self, n: &'b BigUint) -> (r: BigUint) { unimplemented!() } }
impl<'a, 'b> RemSpecImpl<&'b BigUint> for &'a BigUint {
    open spec fn obeys_rem_spec() -> bool { true }
    open spec fn rem_req(self, n: &'b BigUint) -> bool { n.v() != 0 }
    open spec fn rem_spec(self, n: &'b BigUint) -> BigUint { big((self.v() % n.v()) as nat) }
}

impl<'a, 'b> core::ops::Div<&'b BigUint> for &'a BigUint { type Output = BigUint; #[verifier::external_body] fn div(self, n: &'b BigUint) -> (r: BigUint) { unimplemented!() } }
impl<'a, 'b> DivSpecImpl<&'b BigUint> for &'a BigUint {
    open spec fn obeys_div_spec() -> bool { true }
    open spec fn div_req(self, n: &'b BigUint) -> bool { n.v() != 0 }
    open spec fn div_spec(self, n: &'b BigUint) -> BigUint { big((self.v() / n.v()) as nat) }
}

impl<'a, 'b> core::ops::Add<&'b BigUint> for &'a BigUint { type Output = BigUint; #[verifier::external_body] fn add(self, n: &'b BigUint) -> (r: BigUint) { unimplemented!() } }
impl<'a, 'b> AddSpecImpl<&'b BigUint> for &'a BigUint {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, n: &'b BigUint) -> bool { true }
    open spec fn add_spec(self, n: &'b BigUint) -> BigUint { big((self.v() + n.v()) as nat) }
}

impl<'a, 'b> core::ops::Sub<&'b BigUint> for &'a BigUint { type Output = BigUint; #[verifier::external_body] fn sub(self, n: &'b BigUint) -> (r: BigUint) { unimplemented!() } }
impl<'a, 'b> SubSpecImpl<&'b BigUint> for &'a BigUint {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, n: &'b BigUint) -> bool { self.v() >= n.v() }
    open spec fn sub_spec(self, n: &'b BigUint) -> BigUint { big((self.v() - n.v()) as nat) }
}

impl<'a> core::ops::Mul<u64> for &'a BigUint { type Output = BigUint; #[verifier::external_body] fn mul(self, n: u64) -> (r: BigUint) { unimplemented!() } }
impl<'a> MulSpecImpl<u64> for &'a BigUint {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, n: u64) -> bool { true }
    open spec fn mul_spec(self, n: u64) -> BigUint { big((self.v() * (n as nat)) as nat) }
}

impl<'a> core::ops::Rem<u64> for &'a BigUint { type Output = BigUint; #[verifier::external_body] fn rem(self, n: u64) -> (r: BigUint) { unimplemented!() } }
impl<'a> RemSpecImpl<u64> for &'a BigUint {
    open spec fn obeys_rem_spec() -> bool { true }
    open spec fn rem_req(self, n: u64) -> bool { (n as nat) != 0 }
    open spec fn rem_spec(self, n: u64) -> BigUint { big((self.v() % (n as nat)) as nat) }
}

impl<'a> core::ops::Div<u64> for &'a BigUint { type Output = BigUint; #[verifier::external_body] fn div(self, n: u64) -> (r: BigUint) { unimplemented!() } }
impl<'a> DivSpecImpl<u64> for &'a BigUint {
    open spec fn obeys_div_spec() -> bool { true }
    open spec fn div_req(self, n: u64) -> bool { (n as nat) != 0 }
    open spec fn div_spec(self, n: u64) -> BigUint { big((self.v() / (n as nat)) as nat) }
}

impl<'a> core::ops::Sub<u64> for &'a BigUint { type Output = BigUint; #[verifier::external_body] fn sub(self, n: u64) -> (r: BigUint) { unimplemented!() } }
impl<'a> SubSpecImpl<u64> for &'a BigUint {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, n: u64) -> bool { self.v() >= (n as nat) }
    open spec fn sub_spec(self, n: u64) -> BigUint { big((self.v() - (n as nat)) as nat) }
}

impl<'a> core::ops::Add<u32> for &'a BigUint { type Output = BigUint; #[verifier::external_body] fn add(self, n: u32) -> (r: BigUint) { unimplemented!() } }
impl<'a> AddSpecImpl<u32> for &'a BigUint {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, n: u32) -> bool { true }
    open spec fn add_spec(self, n: u32) -> BigUint { big((self.v() + (n as nat)) as nat) }
}

impl<'a, 'b> core::ops::Div<&'b u64> for &'a BigUint { type Output = BigUint; #[verifier::external_body] fn div(self, n: &'b u64) -> (r: BigUint) { unimplemented!() } }
impl<'a, 'b> DivSpecImpl<&'b u64> for &'a BigUint {
    open spec fn obeys_div_spec() -> bool { true }
    open spec fn div_req(self, n: &'b u64) -> bool { (*n as nat) != 0 }
    open spec fn div_spec(self, n: &'b u64) -> BigUint { big((self.v() / (*n as nat)) as nat) }
}

impl<'a, 'b> core::ops::Rem<&'b u64> for &'a BigUint { type Output = BigUint; #[verifier::external_body] fn rem(self, n: &'b u64) -> (r: BigUint) { unimplemented!() } }
impl<'a, 'b> RemSpecImpl<&'b u64> for &'a BigUint {
    open spec fn obeys_rem_spec() -> bool { true }
    open spec fn rem_req(self, n: &'b u64) -> bool { (*n as nat) != 0 }
    open spec fn rem_spec(self, n: &'b u64) -> BigUint { big((self.v() % (*n as nat)) as nat) }
}

impl<'a> core::ops::BitAnd<BigUint> for &'a BigUint { type Output = BigUint; #[verifier::external_body] fn bitand(self, n: BigUint) -> (r: BigUint) { unimplemented!() } }
impl<'a> BitAndSpecImpl<BigUint> for &'a BigUint {
    open spec fn obeys_bitand_spec() -> bool { true }
    open spec fn bitand_req(self, n: BigUint) -> bool { true }
    open spec fn bitand_spec(self, n: BigUint) -> BigUint { big(bitand(self.v(), n.v())) }
}

impl<'a, 'b> core::ops::BitAnd<&'b BigUint> for &'a BigUint { type Output = BigUint; #[verifier::external_body] fn bitand(self, n: &'b BigUint) -> (r: BigUint) { unimplemented!() } }
impl<'a, 'b> BitAndSpecImpl<&'b BigUint> for &'a BigUint {
    open spec fn obeys_bitand_spec() -> bool { true }
    open spec fn bitand_req(self, n: &'b BigUint) -> bool { true }
    open spec fn bitand_spec(self, n: &'b BigUint) -> BigUint { big(bitand(self.v(), n.v())) }
}

impl<'a> core::ops::Shl<usize> for &'a BigUint { type Output = BigUint; #[verifier::external_body] fn shl(self, n: usize) -> (r: BigUint) { unimplemented!() } }
impl<'a> ShlSpecImpl<usize> for &'a BigUint {
    open spec fn obeys_shl_spec() -> bool { true }
    open spec fn shl_req(self, n: usize) -> bool { true }
    open spec fn shl_spec(self, n: usize) -> BigUint { big(self.v() * pow2((n as nat))) }
}

impl<'a> core::ops::Shr<usize> for &'a BigUint { type Output = BigUint; #[verifier::external_body] fn shr(self, n: usize) -> (r: BigUint) { unimplemented!() } }
impl<'a> ShrSpecImpl<usize> for &'a BigUint {
    open spec fn obeys_shr_spec() -> bool { true }
    open spec fn shr_req(self, n: usize) -> bool { true }
    open spec fn shr_spec(self, n: usize) -> BigUint { big((self.v() as int / pow2((n as nat)) as int) as nat) }
}

impl<'a> core::ops::Shl<u32> for &'a BigUint { type Output = BigUint; #[verifier::external_body] fn shl(self, n: u32) -> (r: BigUint) { unimplemented!() } }
impl<'a> ShlSpecImpl<u32> for &'a BigUint {
    open spec fn obeys_shl_spec() -> bool { true }
    open spec fn shl_req(self, n: u32) -> bool { true }
    open spec fn shl_spec(self, n: u32) -> BigUint { big(self.v() * pow2((n as nat))) }
}

impl<'a> core::ops::Shr<u32> for &'a BigUint { type Output = BigUint; #[verifier::external_body] fn shr(self, n: u32) -> (r: BigUint) { unimplemented!() } }
impl<'a> ShrSpecImpl<u32> for &'a BigUint {
    open spec fn obeys_shr_spec() -> bool { true }
    open spec fn shr_req(self, n: u32) -> bool { true }
    open spec fn shr_spec(self, n: u32) -> BigUint { big((self.v() as int / pow2((n as nat)) as int) as nat) }
}

impl<'a> core::ops::Shl<i32> for &'a BigUint { type Output = BigUint; #[verifier::external_body] fn shl(self, n: i32) -> (r: BigUint) { unimplemented!() } }
impl<'a> ShlSpecImpl<i32> for &'a BigUint {
    open spec fn obeys_shl_spec() -> bool { true }
    open spec fn shl_req(self, n: i32) -> bool { n >= 0 }
    open spec fn shl_spec(self, n: i32) -> BigUint { big(self.v() * pow2((n as nat))) }
}

impl<'a> core::ops::Shr<i32> for &'a BigUint { type Output = BigUint; #[verifier::external_body] fn shr(self, n: i32) -> (r: BigUint) { unimplemented!() } }
impl<'a> ShrSpecImpl<i32> for &'a BigUint {
    open spec fn obeys_shr_spec() -> bool { true }
    open spec fn shr_req(self, n: i32) -> bool { n >= 0 }
    open spec fn shr_spec(self, n: i32) -> BigUint { big((self.v() as int / pow2((n as nat)) as int) as nat) }
}

impl core::ops::MulAssign<BigUint> for BigUint { #[verifier::external_body] fn mul_assign(&mut self, n: BigUint) { unimplemented!() } }
impl MulAssignSpecImpl<BigUint> for BigUint {
    open spec fn obeys_mul_assign_spec() -> bool { true }
    open spec fn mul_assign_req(&self, n: BigUint) -> bool { true }
    open spec fn mul_assign_spec(&self, n: BigUint) -> &Self { &big((self.v() * n.v()) as nat) }
}

impl core::ops::AddAssign<BigUint> for BigUint { #[verifier::external_body] fn add_assign(&mut self, n: BigUint) { unimplemented!() } }
impl AddAssignSpecImpl<BigUint> for BigUint {
    open spec fn obeys_add_assign_spec() -> bool { true }
    open spec fn add_assign_req(&self, n: BigUint) -> bool { true }
    open spec fn add_assign_spec(&self, n: BigUint) -> &Self { &big((self.v() + n.v()) as nat) }
}

impl core::ops::SubAssign<BigUint> for BigUint { #[verifier::external_body] fn sub_assign(&mut self, n: BigUint) { unimplemented!() } }
impl SubAssignSpecImpl<BigUint> for BigUint {
    open spec fn obeys_sub_assign_spec() -> bool { true }
    open spec fn sub_assign_req(&self, n: BigUint) -> bool { self.v() >= n.v() }
    open spec fn sub_assign_spec(&self, n: BigUint) -> &Self { &big((self.v() - n.v()) as nat) }
}

impl core::ops::RemAssign<BigUint> for BigUint { #[verifier::external_body] fn rem_assign(&mut self, n: BigUint) { unimplemented!() } }
impl RemAssignSpecImpl<BigUint> for BigUint {
    open spec fn obeys_rem_assign_spec() -> bool { true }
    open spec fn rem_assign_req(&self, n: BigUint) -> bool { n.v() != 0 }
    open spec fn rem_assign_spec(&self, n: BigUint) -> &Self { &big((self.v() % n.v()) as nat) }
}

impl<'b> core::ops::MulAssign<&'b BigUint> for BigUint { #[verifier::external_body] fn mul_assign(&mut self, n: &'b BigUint) { unimplemented!() } }
impl<'b> MulAssignSpecImpl<&'b BigUint> for BigUint {
    open spec fn obeys_mul_assign_spec() -> bool { true }
    open spec fn mul_assign_req(&self, n: &'b BigUint) -> bool { true }
    open spec fn mul_assign_spec(&self, n: &'b BigUint) -> &Self { &big((self.v() * n.v()) as nat) }
}

impl<'b> core::ops::AddAssign<&'b BigUint> for BigUint { #[verifier::external_body] fn add_assign(&mut self, n: &'b BigUint) { unimplemented!() } }
impl<'b> AddAssignSpecImpl<&'b BigUint> for BigUint {
    open spec fn obeys_add_assign_spec() -> bool { true }
    open spec fn add_assign_req(&self, n: &'b BigUint) -> bool { true }
    open spec fn add_assign_spec(&self, n: &'b BigUint) -> &Self { &big((self.v() + n.v()) as nat) }
}

impl<'b> core::ops::SubAssign<&'b BigUint> for BigUint { #[verifier::external_body] fn sub_assign(&mut self, n: &'b BigUint) { unimplemented!() } }
impl<'b> SubAssignSpecImpl<&'b BigUint> for BigUint {
    open spec fn obeys_sub_assign_spec() -> bool { true }
    open spec fn sub_assign_req(&self, n: &'b BigUint) -> bool { self.v() >= n.v() }
    open spec fn sub_assign_spec(&self, n: &'b BigUint) -> &Self { &big((self.v() - n.v()) as nat) }
}

impl<'b> core::ops::RemAssign<&'b BigUint> for BigUint { #[verifier::external_body] fn rem_assign(&mut self, n: &'b BigUint) { unimplemented!() } }
impl<'b> RemAssignSpecImpl<&'b BigUint> for BigUint {
    open spec fn obeys_rem_assign_spec() -> bool { true }
    open spec fn rem_assign_req(&self, n: &'b BigUint) -> bool { n.v() != 0 }
    open spec fn rem_assign_spec(&self, n: &'b BigUint) -> &Self { &big((self.v() % n.v()) as nat) }
}

