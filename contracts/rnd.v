//@ import common
/// x is centered modulo q (up to 2^-48 q)
pub open spec fn cent(x: int, q: int) -> bool { -(q * 0x1000000000002) <= x * 0x2000000000000 <= q * 0x1000000000002 }
/// y is a / den, rounded (up to 2^-48)
pub open spec fn near(a: int, den: int, y: int) -> bool { -(den * 0x1000000000002) <= (den * y - a) * 0x2000000000000 <= den * 0x1000000000002 }
/// y is the rounding of num / den times the centered representative of x modulo q
pub open spec fn rounds(x: int, q: int, num: int, den: int, y: int) -> bool { exists|k: int| cent(#[trigger] (x + k * q), q) && near(num * (x + k * q), den, y) }
pub open spec fn resc(x: Seq<int>, q: int, num: int, den: int, y: Seq<int>) -> bool { x.len() == y.len() && forall|j: int| 0 <= j < x.len() ==> rounds(x[j], q, num, den, #[trigger] y[j]) }
