//@ import common
//@ import bigint
// ---------------------------------------------------------------------------
// Primality, modular inverse, prime generation (C22)
// ---------------------------------------------------------------------------
use vstd::std_specs::bits::*;
use vstd::arithmetic::power2::*;
use vstd::arithmetic::div_mod::*;
use vstd::arithmetic::mul::*;

pub open spec fn divides(d: int, p: int) -> bool { p % d == 0 }
pub open spec fn prime(p: int) -> bool {
    p >= 2 && forall|d: int| 2 <= d < p ==> !#[trigger] divides(d, p)
}
/// num_bigint_dig::prime::probably_prime(_, 0) (Baillie-PSW) has no
/// counterexample below 2^64: assumed contract of the dependency.
#[verifier::external_body]
pub fn probably_prime(x: &BigUint, n: usize) -> (r: bool)
    requires x.v() < 0x1_0000_0000_0000_0000,
    ensures r == prime(x.v() as int),
{ unimplemented!() }

/// num_bigint_dig::BigInt
pub struct BigInt { pub g: Ghost<int> }
impl BigInt {
    #[verifier::external_body]
    pub fn to_u64(&self) -> (r: Option<u64>)
        ensures 0 <= self.g@ <= u64::MAX ==> r == Some(self.g@ as u64), !(0 <= self.g@ <= u64::MAX) ==> r is None,
    { unimplemented!() }
}
pub open spec fn is_inv(a: int, x: int, m: int) -> bool { (a * x) % m == 1 }
impl BigUint {
    /// num_bigint_dig ModInverse: assumed contract of the dependency.
    #[verifier::external_body]
    pub fn mod_inverse(self, m: BigUint) -> (r: Option<BigInt>)
        requires m.v() >= 2,
        ensures
            r is Some <==> exists|x: int| #[trigger] is_inv(self.v() as int, x, m.v() as int),
            r matches Some(x) ==> 0 <= x.g@ < m.v() && is_inv(self.v() as int, x.g@, m.v() as int),
    { unimplemented!() }
}

//@ fn crates/fhe-util/src/lib.rs is_prime
//@ ret r
//@ spec
    ensures r == prime(p as int),
//@ end

//@ fn crates/fhe-util/src/lib.rs inverse
//@ ret r
//@ spec
    requires p >= 2,
    ensures
        r is Some <==> exists|x: int| #[trigger] is_inv(a as int, x, p as int),
        r matches Some(x) ==> x < p && is_inv(a as int, x as int, p as int),
//@ end
