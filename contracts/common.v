// ---------------------------------------------------------------------------
// Common prelude: panics, helpers introduced by the extractor, and assumed
// contracts of the (Rust) standard library functions the code uses.
// ---------------------------------------------------------------------------

#[allow(unused_imports)]
use vstd::std_specs::ops::*;
use vstd::std_specs::cmp::*;
use vstd::std_specs::convert::*;
use vstd::arithmetic::power2::*;
use vstd::arithmetic::div_mod::*;
use vstd::arithmetic::mul::*;

global size_of usize == 8;

/// Every panic!/assert!/debug_assert! of the code becomes a call of this
/// function on the failing branch: reaching it is a proof obligation.
#[verifier::external_body]
pub fn vpanic() -> !
    requires false,
{ panic!() }

/// A documented refusal (assert!/panic! that the caller may run into): never returns.
#[verifier::external_body]
pub fn vabort() -> !
    ensures false,
{ panic!() }

pub fn vmin(a: usize, b: usize) -> (r: usize)
    ensures r == if a <= b { a } else { b },
{ if a <= b { a } else { b } }

pub fn vlen_range(a: usize, b: usize) -> (r: usize)
    ensures r == if a <= b { b - a } else { 0 },
{ if a <= b { b - a } else { 0 } }

#[verifier::external_body]
pub fn vslice_eq(a: &[u64], b: &[u64]) -> (r: bool)
    ensures r == (a@ =~= b@),
{ a == b }

pub open spec fn two64() -> int { 0x1_0000_0000_0000_0000int }
pub open spec fn two128() -> int { 0x1_0000_0000_0000_0000_0000_0000_0000_0000int }

// Assumed contracts of std (not in vstd).
pub assume_specification<T: Clone> [<[T]>::to_vec] (x: &[T]) -> (r: Vec<T>)
    ensures r@ == x@;

/// x.clone_from_slice(y)
#[verifier::external_body]
pub fn vfill(x: &mut [u64], y: &[u64])
    requires y@.len() == old(x)@.len(),
    ensures final(x)@ == y@,
{ x.copy_from_slice(y) }
/// Vec::into_boxed_slice
#[verifier::external_body]
pub fn vboxed<T>(v: Vec<T>) -> (r: Box<[T]>)
    ensures r@ == v@,
{ v.into_boxed_slice() }

pub assume_specification [<core::cmp::Ordering as PartialEq>::eq] (a: &core::cmp::Ordering, b: &core::cmp::Ordering) -> (r: bool)
    ensures r == (*a == *b);

/// &x[lo..hi]
#[verifier::external_body]
pub fn vsub<T>(x: &[T], lo: usize, hi: usize) -> (r: &[T])
    requires lo <= hi <= x@.len(),
    ensures r@ == x@.subrange(lo as int, hi as int),
{ &x[lo..hi] }
