//@ import rns
//@ import modk
//@ import rnd
//@ import u256
// ---------------------------------------------------------------------------
// fhe-math/src/rns/scaler.rs : RNS scaling by a rational factor
// ---------------------------------------------------------------------------
use vstd::arithmetic::div_mod::*;
use vstd::arithmetic::mul::*;
use vstd::arithmetic::power2::*;
use std::sync::Arc;
use crate::modk::*;
use crate::rns::*;
use crate::zqs::*;
use crate::bigint::*;
use crate::bigops::*;
use crate::rnd::*;
pub open spec fn p64() -> int { 0x1_0000_0000_0000_0000int }
pub open spec fn p126() -> int { 0x4000_0000_0000_0000_0000_0000_0000_0000int }
pub open spec fn p127() -> int { 0x8000_0000_0000_0000_0000_0000_0000_0000int }
pub proof fn lemma_pows()
    ensures pow2(1) == 2, pow2(64) == p64(), pow2(126) == p126(), pow2(127) == p127(), pow2(255) == m256() / 2,
{
    lemma2_to64(); lemma2_to64_rest();
    lemma_pow2_adds(62, 64); lemma_pow2_adds(63, 64); lemma_pow2_adds(64, 64); lemma_pow2_adds(127, 128);
    assert(p127() * m128() == m256() / 2) by(compute);
}
/// the 128-bit word made of two halves
pub open spec fn fixv(lo: u64, hi: u64) -> int { lo as int + hi as int * p64() }
pub proof fn lemma_fix(lo: u64, hi: u64)
    ensures ((lo as u128) | ((hi as u128) << 64)) as int == fixv(lo, hi),
{
    assert(((lo as u128) | ((hi as u128) << 64)) == (lo as u128) + (hi as u128) * 0x1_0000_0000_0000_0000) by(bit_vector);
}
pub open spec fn sgnv(sign: bool, x: int) -> int { if sign { -x } else { x } }
/// round(a / d)
pub open spec fn rdiv(a: int, d: int) -> int { (a + d / 2) / d }
/// t approximates (a - d round(a/d)) / d with 127 fractional bits
pub open spec fn frac(a: int, d: int, t: int) -> bool {
    &&& -d <= t * d - (a - d * rdiv(a, d)) * p127() <= d
    &&& -p126() <= t <= p126()
}
/// what is flipped, and the fixed-point quotient
pub proof fn lemma_frac(a: int, d: int, sign: bool, th: int, x: int)
    requires a >= 0, d >= 1, th == (if sign { d - a % d } else { a % d }),
        sign ==> d > 1 && (a % d) * 2 >= d, !sign ==> d == 1 || (a % d) * 2 <= d, sign ==> (a % d) * 2 > d || d % 2 == 0, !sign && d > 1 ==> (a % d) * 2 < d,
        x == (th * p127()) / d || x == (th * p127() + d - 1) / d,
    ensures frac(a, d, sgnv(sign, x)), 0 <= x <= p126(), 0 <= th,
{
    let m = a % d; let k = a / d; let e = p127();
    lemma_fundamental_div_mod(a, d); lemma_mod_bound(a, d);
    let h = d / 2;
    lemma_fundamental_div_mod(d, 2);
    if sign {
        assert(rdiv(a, d) == k + 1) by {
            assert(a + h == d * (k + 1) + (m + h - d)) by(nonlinear_arith) requires a == d * k + m;
            assert(d * (k + 1) == (k + 1) * d) by(nonlinear_arith);
            lemma_fundamental_div_mod_converse(a + h, d, k + 1, m + h - d);
        }
        assert(a - d * (k + 1) == m - d) by(nonlinear_arith) requires a == d * k + m;
    } else {
        assert(rdiv(a, d) == k) by {
            assert(d == 1 ==> m == 0);
            assert(d * k == k * d) by(nonlinear_arith);
            lemma_fundamental_div_mod_converse(a + h, d, k, m + h);
        }
    }
    assert(0 <= 2 * th <= d);
    assert(0 <= th * e && 2 * (th * e) <= d * e) by(nonlinear_arith) requires 0 <= 2 * th, 2 * th <= d, e == p127();
    let y = th * e;
    let z = if x == y / d { y } else { y + d - 1 };
    assert(x == z / d);
    lemma_fundamental_div_mod(z, d); lemma_mod_bound(z, d);
    assert(d * x == x * d) by(nonlinear_arith);
    assert(-d <= x * d - y <= d);
    assert(0 <= x) by { lemma_div_pos_is_pos(z, d); }
    assert(x <= p126()) by(nonlinear_arith) requires x * d <= y + d - 1, 2 * y <= d * e, e == 2 * p126(), d >= 1;
    assert((-x) * d == -(x * d)) by(nonlinear_arith);
    assert((-th) * e == -(th * e)) by(nonlinear_arith);
    if sign { assert(a - d * rdiv(a, d) == -th); } else { assert(a - d * rdiv(a, d) == th); }
}
pub proof fn lemma_split(x: int)
    requires 0 <= x <= p126(),
    ensures 0 <= x / p64() < p64(), x - (x / p64()) * p64() == x % p64(), 0 <= x % p64() < p64(), x % p64() + (x / p64()) * p64() == x, x >= (x / p64()) * p64(),
{
    lemma_fundamental_div_mod(x, p64()); lemma_mod_bound(x, p64());
}
//@ struct crates/fhe-math/src/rns/scaler.rs ScalingFactor
//@ struct crates/fhe-math/src/rns/scaler.rs RnsScaler
impl ScalingFactor {
    pub open spec fn wf(&self) -> bool { self.denominator.v() > 0 && self.is_one == (self.numerator.v() == self.denominator.v()) }
}
//@ fn crates/fhe-math/src/rns/scaler.rs ScalingFactor::new
//@ ret r
//@ spec
    requires denominator.v() > 0,
    ensures r.wf(), r.numerator.v() == numerator.v(), r.denominator.v() == denominator.v(),
//@ end
//@ fn crates/fhe-math/src/rns/scaler.rs ScalingFactor::one
//@ ret r
//@ spec
    ensures r.wf(), r.numerator.v() == 1, r.denominator.v() == 1,
//@ end
//@ fn crates/fhe-math/src/rns/scaler.rs RnsScaler::extract_projection_and_theta
//@ ret r
//@ spec
    requires ctx.wf(), denominator.v() > 0,
    ensures r.0@.len() == ctx.n(), forall|j: int| 0 <= j < ctx.n() ==> #[trigger] r.0@[j] as int == rdiv((numerator.v() * input.v()) as int, denominator.v() as int) % ctx.m(j),
        frac((numerator.v() * input.v()) as int, denominator.v() as int, sgnv(r.3, fixv(r.1, r.2))), fixv(r.1, r.2) <= p126(),
//@ start
    let ghost a = (numerator.v() * input.v()) as int;
    let ghost d = denominator.v() as int;
    let ghost mut th: int = 0;
    proof { lemma_pows(); axiom_and_one(denominator.v()); lemma_mod_bound(a, d);
        assert(a >= 0) by(nonlinear_arith) requires a == numerator.v() * input.v();
        lemma_fundamental_div_mod(d, 2); }
//@ subst if round_up { => proof { th = theta.v() as int; assert(0 <= 2 * th <= d); assert(th == (if theta_sign { d - a % d } else { a % d })); } if round_up {
//@ subst let theta_hi_biguint => proof { lemma_frac(a, d, theta_sign, th, theta.v() as int); lemma_split(theta.v() as int); } let theta_hi_biguint
//@ end
impl RnsScaler {
    pub open spec fn qq(&self) -> int { self.from.q() }
    pub open spec fn num(&self) -> int { self.scaling_factor.numerator.v() as int }
    pub open spec fn den(&self) -> int { self.scaling_factor.denominator.v() as int }
    pub open spec fn gar(&self, i: int) -> int { self.from.garner@[i].v() as int }
    pub open spec fn s(&self) -> nat { self.theta_garner_shift as nat }
    /// the three fixed-point constants
    pub open spec fn tg(&self, i: int) -> int { fixv(self.theta_garner_lo@[i], self.theta_garner_hi@[i]) }
    pub open spec fn tom(&self, i: int) -> int { sgnv(self.theta_omega_sign@[i], fixv(self.theta_omega_lo@[i], self.theta_omega_hi@[i])) }
    pub open spec fn tgam(&self) -> int { sgnv(self.theta_gamma_sign, fixv(self.theta_gamma_lo, self.theta_gamma_hi)) }
    /// the integers behind gamma and omega
    pub open spec fn gam(&self) -> int { rdiv(self.num() * self.qq(), self.den()) }
    pub open spec fn om(&self, i: int) -> int { rdiv(self.num() * self.gar(i), self.den()) }
    pub open spec fn wf_from(&self, i: int) -> bool {
        &&& -self.qq() <= 2 * (self.tg(i) * self.qq() - self.gar(i) * pow2(self.s())) <= self.qq()
        &&& 0 <= self.tg(i) <= pow2(self.s())
        &&& frac(self.num() * self.gar(i), self.den(), self.tom(i))
        &&& fixv(self.theta_omega_lo@[i], self.theta_omega_hi@[i]) <= p126()
    }
    pub open spec fn wf_om(&self, j: int, i: int) -> bool {
        &&& self.omega@[j]@[i] as int == self.om(i) % self.to.m(j)
        &&& self.omega_shoup@[j]@[i] as int == shoup_of(self.omega@[j]@[i] as int, self.to.m(j))
    }
    pub open spec fn wf_to(&self, j: int) -> bool {
        &&& self.gamma@[j] as int == self.gam() % self.to.m(j)
        &&& self.gamma_shoup@[j] as int == shoup_of(self.gamma@[j] as int, self.to.m(j))
        &&& self.omega@[j]@.len() == self.from.n() && self.omega_shoup@[j]@.len() == self.from.n()
        &&& forall|i: int| 0 <= i < self.from.n() ==> #[trigger] self.wf_om(j, i)
    }
    /// invariant established by RnsScaler::new; at most 1024 moduli (the fixed-point precision)
    pub open spec fn wf(&self) -> bool {
        let (n, m) = (self.from.n() as nat, self.to.n() as nat);
        &&& self.from.wf() && self.to.wf() && self.scaling_factor.wf() && n <= 1024
        &&& self.gamma@.len() == m && self.gamma_shoup@.len() == m && self.omega@.len() == m && self.omega_shoup@.len() == m
        &&& self.theta_omega_lo@.len() == n && self.theta_omega_hi@.len() == n && self.theta_omega_sign@.len() == n
        &&& self.theta_garner_lo@.len() == n && self.theta_garner_hi@.len() == n
        &&& 119 <= self.s() <= 127
        &&& frac(self.num() * self.qq(), self.den(), self.tgam()) && fixv(self.theta_gamma_lo, self.theta_gamma_hi) <= p126()
        &&& forall|i: int| 0 <= i < n ==> #[trigger] self.wf_from(i)
        &&& forall|j: int| 0 <= j < m ==> #[trigger] self.wf_to(j)
    }
    pub open spec fn sr(&self, r: Seq<u64>, n: int) -> int decreases n, { if n <= 0 { 0 } else { self.sr(r, n - 1) + r[n - 1] as int } }
    pub open spec fn sg(&self, r: Seq<u64>, n: int) -> int decreases n, { if n <= 0 { 0 } else { self.sg(r, n - 1) + r[n - 1] as int * self.tg(n - 1) } }
    pub open spec fn so(&self, r: Seq<u64>, n: int) -> int decreases n, { if n <= 0 { 0 } else { self.so(r, n - 1) + r[n - 1] as int * self.tom(n - 1) } }
    pub open spec fn sw(&self, r: Seq<u64>, n: int) -> int decreases n, { if n <= 0 { 0 } else { self.sw(r, n - 1) + r[n - 1] as int * self.om(n - 1) } }
    /// residue vector of the source basis
    pub open spec fn rests(&self, r: Seq<u64>) -> bool { r.len() == self.from.n() && forall|i: int| 0 <= i < r.len() ==> (#[trigger] r[i] as int) < self.from.m(i) }
}
pub proof fn lemma_sr(c: &RnsScaler, r: Seq<u64>, n: int)
    requires c.wf(), c.rests(r), 0 <= n <= r.len(),
    ensures 0 <= c.sr(r, n) <= n * 0x4000_0000_0000_0000, c.sr(r, n) <= 0x100_0000_0000_0000_0000,
    decreases n,
{
    if n > 0 { lemma_sr(c, r, n - 1); assert((r[n - 1] as int) < c.from.m(n - 1)); assert(c.from.moduli_u64@[n - 1] < 0x4000_0000_0000_0000); }
}
pub proof fn lemma_sg(c: &RnsScaler, r: Seq<u64>, n: int)
    requires c.wf(), c.rests(r), 0 <= n <= r.len(),
    ensures 0 <= c.sg(r, n) <= c.sr(r, n) * pow2(c.s()),
        -(c.qq() * c.sr(r, n)) <= 2 * (c.sg(r, n) * c.qq() - sumg(r, c.from.garner@, n) * pow2(c.s())) <= c.qq() * c.sr(r, n),
    decreases n,
{
    lemma_prod_pos(c.from.moduli_u64@);
    if n > 0 {
        lemma_sg(c, r, n - 1); lemma_sr(c, r, n - 1);
        let i = n - 1; let x = r[i] as int; let t = c.tg(i); let q = c.qq(); let p = pow2(c.s()) as int; let g = c.gar(i);
        assert(c.wf_from(i));
        let (a, b, d) = (c.sg(r, i), c.sr(r, i), sumg(r, c.from.garner@, i) as int);
        assert(0 <= x * t <= x * p) by(nonlinear_arith) requires 0 <= t <= p, x >= 0;
        assert((b + x) * p == b * p + x * p) by(nonlinear_arith);
        let e = t * q - g * p;
        assert(-(q * x) <= 2 * (x * e) <= q * x) by(nonlinear_arith) requires -q <= 2 * e <= q, x >= 0;
        assert((a + x * t) * q == a * q + x * (t * q)) by(nonlinear_arith);
        assert((d + g * x) * p == d * p + x * (g * p)) by(nonlinear_arith);
        assert(x * e == x * (t * q) - x * (g * p)) by(nonlinear_arith) requires e == t * q - g * p;
        assert(q * (b + x) == q * b + q * x) by(nonlinear_arith);
    } else {
        assert(0 * pow2(c.s()) == 0); assert(0 * c.qq() == 0); assert(c.qq() * 0 == 0);
    }
}
/// D * sum(r omega) + rest == N * sum(r garner), and the fixed-point sum approximates the rest
pub proof fn lemma_so(c: &RnsScaler, r: Seq<u64>, n: int)
    requires c.wf(), c.rests(r), 0 <= n <= r.len(),
    ensures ({
        let dl = c.num() * sumg(r, c.from.garner@, n) - c.den() * c.sw(r, n);
        let s = c.so(r, n);
        &&& -(c.den() * c.sr(r, n)) <= c.den() * s - dl * p127() <= c.den() * c.sr(r, n)
        &&& -(c.sr(r, n) * p126()) <= s <= c.sr(r, n) * p126()
    }),
    decreases n,
{
    let (nu, de) = (c.num(), c.den());
    if n > 0 {
        lemma_so(c, r, n - 1); lemma_sr(c, r, n - 1);
        let i = n - 1; let x = r[i] as int; let t = c.tom(i); let g = c.gar(i); let w = c.om(i);
        assert(c.wf_from(i));
        let (a, b, d, s) = (c.sw(r, i), c.sr(r, i), sumg(r, c.from.garner@, i) as int, c.so(r, i));
        let f = nu * g - de * w;
        let e = t * de - f * p127();
        assert(-de <= e <= de);
        assert(-(de * x) <= x * e <= de * x) by(nonlinear_arith) requires -de <= e <= de, x >= 0;
        assert(x * e == de * (x * t) - (x * f) * p127()) by(nonlinear_arith) requires e == t * de - f * p127();
        assert(x * f == nu * (g * x) - de * (x * w)) by(nonlinear_arith) requires f == nu * g - de * w;
        assert(nu * (d + g * x) == nu * d + nu * (g * x)) by(nonlinear_arith);
        assert(de * (a + x * w) == de * a + de * (x * w)) by(nonlinear_arith);
        assert(de * (s + x * t) == de * s + de * (x * t)) by(nonlinear_arith);
        assert(de * (b + x) == de * b + de * x) by(nonlinear_arith);
        assert(-(x * p126()) <= x * t <= x * p126()) by(nonlinear_arith) requires -p126() <= t <= p126(), x >= 0;
        assert((b + x) * p126() == b * p126() + x * p126()) by(nonlinear_arith);
    } else {
        assert(nu * 0 == 0 && de * 0 == 0);
    }
}
/// halving a half-shifted value and rounding up is rounding to nearest
pub proof fn lemma_half(x: int, h: int, v: int)
    requires 0 <= x, h >= 1, v == (x / h + 1) / 2,
    ensures -h <= 2 * h * v - x <= h, 0 <= v, 2 * h * v <= x + h,
{
    let a = x / h;
    lemma_fundamental_div_mod(x, h); lemma_mod_bound(x, h);
    lemma_div_pos_is_pos(x, h);
    assert(2 * v == a || 2 * v == a + 1);
    assert(2 * h * v == h * (2 * v)) by(nonlinear_arith);
    assert(h * (a + 1) == h * a + h) by(nonlinear_arith);
}
/// v is the quotient of the sum by q, up to rounding
pub proof fn lemma_v(c: &RnsScaler, r: Seq<u64>, v: int)
    requires c.wf(), c.rests(r), v == (c.sg(r, c.from.n()) / pow2((c.s() - 1) as nat) as int + 1) / 2,
    ensures 0 <= v <= c.sr(r, c.from.n()) + 1, v <= 0x200_0000_0000_0000_0000, cent(sumg(r, c.from.garner@, c.from.n()) - v * c.qq(), c.qq()),
        c.sg(r, c.from.n()) / pow2((c.s() - 1) as nat) as int <= 0x200_0000_0000_0000_0000,
{
    let n = c.from.n(); let q = c.qq();
    lemma_prod_pos(c.from.moduli_u64@);
    lemma_sr(c, r, n); lemma_sg(c, r, n);
    let h = pow2((c.s() - 1) as nat) as int;
    lemma_pow2_pos((c.s() - 1) as nat);
    lemma_pow2_adds(1, (c.s() - 1) as nat); lemma2_to64(); lemma2_to64_rest();
    let rr = c.sr(r, n); let x = c.sg(r, n); let g = sumg(r, c.from.garner@, n) as int;
    assert(pow2(c.s()) == 2 * h);
    lemma_half(x, h, v);
    assert(v <= rr + 1) by(nonlinear_arith) requires 2 * h * v <= x + h, x <= rr * (2 * h), h >= 1;
    let u = x / h;
    lemma_fundamental_div_mod(x, h); lemma_mod_bound(x, h);
    assert(u <= 2 * rr) by(nonlinear_arith) requires h * u <= x, x <= rr * (2 * h), h >= 1;
    // 2^46 rr <= h
    if c.s() - 1 > 118 { lemma_pow2_strictly_increases(118, (c.s() - 1) as nat); }
    lemma_pow2_adds(54, 64); 
    assert(pow2(118) == 0x40_0000_0000_0000int * 0x1_0000_0000_0000_0000int);
    assert(rr * 0x4000_0000_0000 <= h);
    let cc = g - v * q;
    let d1 = 2 * h * v - x; let d2 = x * q - g * (2 * h);
    assert(-(h * q) <= d1 * q <= h * q) by(nonlinear_arith) requires -h <= d1 <= h, q >= 1;
    assert(d1 * q == (2 * h * v) * q - x * q) by(nonlinear_arith) requires d1 == 2 * h * v - x;
    assert((2 * h * v) * q - g * (2 * h) == -(2 * h * cc)) by(nonlinear_arith) requires cc == g - v * q;
    let z = 2 * h * cc;
    assert(-2 * (h * q) - q * rr <= 2 * z <= 2 * (h * q) + q * rr);
    assert((q * rr) * 0x4000_0000_0000 <= q * h) by(nonlinear_arith) requires rr * 0x4000_0000_0000 <= h, q >= 1;
    assert(h * q == q * h) by(nonlinear_arith);
    // 2^46 * 2 z
    let k = q * h;
    assert(2 * z * 0x4000_0000_0000 <= 2 * k * 0x4000_0000_0000 + k);
    assert(2 * z * 0x4000_0000_0000 >= -2 * k * 0x4000_0000_0000 - k);
    assert(z * 0x1000000000000 == (cc * 0x2000000000000) * h) by(nonlinear_arith) requires z == 2 * h * cc;
    let b = cc * 0x2000000000000;
    assert(b * h == z * 0x1000000000000);
    assert(-(k * 0x1000000000002) <= b * h <= k * 0x1000000000002) by {
        assert(z * 0x1000000000000 == 2 * (2 * z * 0x4000_0000_0000));
    }
    let bb = q * 0x1000000000002;
    assert(k * 0x1000000000002 == bb * h) by(nonlinear_arith) requires k == q * h, bb == q * 0x1000000000002;
    assert(-bb <= b <= bb) by(nonlinear_arith) requires -(bb * h) <= b * h, b * h <= bb * h, h >= 1;
}
/// the rounded result
pub proof fn lemma_w(c: &RnsScaler, r: Seq<u64>, v: int, w: int)
    requires c.wf(), c.rests(r), 0 <= v <= c.sr(r, c.from.n()) + 1,
        -p126() <= p127() * w - (c.so(r, c.from.n()) - v * c.tgam()) <= p126(),
    ensures near(c.num() * (sumg(r, c.from.garner@, c.from.n()) - v * c.qq()), c.den(), c.sw(r, c.from.n()) - v * c.gam() + w),
{
    let n = c.from.n(); let q = c.qq(); let (nu, de) = (c.num(), c.den());
    lemma_sr(c, r, n); lemma_so(c, r, n);
    let rr = c.sr(r, n); let s = c.so(r, n); let g = sumg(r, c.from.garner@, n) as int; let o = c.sw(r, n); let gm = c.gam(); let tg = c.tgam();
    let dl = nu * g - de * o; let dg = nu * q - de * gm;
    let e = tg * de - dg * p127();
    assert(-de <= e <= de);
    assert(-(de * v) <= v * e <= de * v) by(nonlinear_arith) requires -de <= e <= de, v >= 0;
    assert(v * e == de * (v * tg) - (v * dg) * p127()) by(nonlinear_arith) requires e == tg * de - dg * p127();
    let y = o - v * gm + w; let a = nu * (g - v * q);
    assert(de * y - a == de * w - (dl - v * dg)) by(nonlinear_arith)
        requires y == o - v * gm + w, a == nu * (g - v * q), dl == nu * g - de * o, dg == nu * q - de * gm;
    let st = s - v * tg;
    assert(de * st == de * s - de * (v * tg)) by(nonlinear_arith) requires st == s - v * tg;
    let f = de * w - (dl - v * dg);
    let u = p127() * w - st;
    assert(-(de * p126()) <= de * u <= de * p126()) by(nonlinear_arith) requires -p126() <= u <= p126(), de >= 1;
    assert(de * u == p127() * (de * w) - de * st) by(nonlinear_arith) requires u == p127() * w - st;
    assert(p127() * f == p127() * (de * w) - (dl * p127() - (v * dg) * p127())) by(nonlinear_arith) requires f == de * w - (dl - v * dg);
    assert(-(de * p126() + de * rr + de * v) <= p127() * f <= de * p126() + de * rr + de * v);
    assert(de * rr + de * v <= de * 0x400_0000_0000_0000_0000) by(nonlinear_arith) requires rr <= 0x100_0000_0000_0000_0000, v <= rr + 1, de >= 1;
}
/// reading a 256-bit sum as a signed number
pub proof fn lemma_sgn(u: U256, s: int)
    requires u.v() == s % m256(), -(m256() / 2) < s < m256() / 2,
    ensures u.v() >= m256() / 2 <==> s < 0, s >= 0 ==> u.v() == s, s < 0 ==> u.v() == s + m256(),
{
    if s >= 0 { lemma_small_mod(s as nat, m256() as nat); }
    else { lemma_mod_add_multiples_vanish(s, m256()); lemma_small_mod((s + m256()) as nat, m256() as nat); }
}
pub proof fn lemma_wrap(a: int, b: int, x: int)
    requires a == x % m256(),
    ensures (a + b) % m256() == (x + b) % m256(), (a - b) % m256() == (x - b) % m256(),
{
    lemma_add_mod_noop(x, b, m256()); lemma_sub_mod_noop(x, b, m256());
    lemma_add_mod_noop(a, b, m256()); lemma_sub_mod_noop(a, b, m256());
    lemma_mod_twice(x, m256());
}
pub proof fn lemma_mul_bd(a: int, b: int, x: int, y: int)
    requires 0 <= a <= x, 0 <= b <= y,
    ensures 0 <= a * b <= x * y,
{ assert(0 <= a * b <= x * y) by(nonlinear_arith) requires 0 <= a <= x, 0 <= b <= y; }
pub proof fn lemma_pow_s(c: &RnsScaler)
    requires c.wf(),
    ensures 1 <= pow2(c.s()) <= p127(), 0 < pow2((c.s() - 1) as nat),
{
    lemma_pows(); lemma_pow2_pos(c.s()); lemma_pow2_pos((c.s() - 1) as nat);
    if c.s() < 127 { lemma_pow2_strictly_increases(c.s(), 127); }
}
pub proof fn lemma_sum_bd(c: &RnsScaler, r: Seq<u64>)
    requires c.wf(), c.rests(r),
    ensures 0 <= c.sg(r, c.from.n()) < m256(),
{
    lemma_sg(c, r, c.from.n()); lemma_sr(c, r, c.from.n()); lemma_pow_s(c);
    lemma_mul_bd(c.sr(r, c.from.n()), pow2(c.s()) as int, 0x100_0000_0000_0000_0000, p127());
}
/// one term of the first sum does not wrap
pub proof fn lemma_step_bd(c: &RnsScaler, r: Seq<u64>, i: int)
    requires c.wf(), c.rests(r), 0 <= i < r.len(),
    ensures r[i] * c.tg(i) < m256(), 0 <= r[i] * c.tg(i), c.sg(r, i) + r[i] * c.tg(i) == c.sg(r, i + 1), c.sg(r, i + 1) < m256(), (c.sg(r, i + 1)) % m256() == c.sg(r, i + 1),
        U256::of(r[i] as int).v() == r[i], U256::of(c.tg(i)).v() == c.tg(i), U256::of(r[i] * c.tg(i)).v() == r[i] * c.tg(i),
{
    lemma_sg(c, r, i + 1); lemma_sr(c, r, i + 1); lemma_sg(c, r, i); lemma_pow_s(c);
    assert(c.wf_from(i));
    lemma_mul_bd(c.sr(r, i + 1), pow2(c.s()) as int, 0x100_0000_0000_0000_0000, p127());
    lemma_mul_bd(r[i] as int, c.tg(i), 0x1_0000_0000_0000_0000, p127());
    lemma_small_mod(c.sg(r, i + 1) as nat, m256() as nat);
    axiom_u256_of(r[i] as int); axiom_u256_of(c.tg(i)); axiom_u256_of(r[i] * c.tg(i));
}
/// one term of the second sum
pub proof fn lemma_step_o(c: &RnsScaler, r: Seq<u64>, i: int)
    requires c.wf(), c.rests(r), 0 <= i < r.len(),
    ensures ({
        let f = fixv(c.theta_omega_lo@[i], c.theta_omega_hi@[i]);
        &&& 0 <= r[i] * f < m256() && U256::of(r[i] as int).v() == r[i] && U256::of(f).v() == f && U256::of(r[i] * f).v() == r[i] * f
        &&& c.so(r, i + 1) == if c.theta_omega_sign@[i] { c.so(r, i) - r[i] * f } else { c.so(r, i) + r[i] * f }
    }),
{
    assert(c.wf_from(i));
    let f = fixv(c.theta_omega_lo@[i], c.theta_omega_hi@[i]);
    lemma_mul_bd(r[i] as int, f, 0x1_0000_0000_0000_0000, p126());
    axiom_u256_of(r[i] as int); axiom_u256_of(f); axiom_u256_of(r[i] * f);
    assert(r[i] as int * (-f) == -(r[i] * f)) by(nonlinear_arith);
}
pub proof fn lemma_step_g(c: &RnsScaler, v: int)
    requires c.wf(), 0 <= v <= 0x200_0000_0000_0000_0000,
    ensures ({
        let f = fixv(c.theta_gamma_lo, c.theta_gamma_hi);
        &&& 0 <= v * f < m256() && U256::of(v).v() == v && U256::of(f).v() == f && U256::of(v * f).v() == v * f
        &&& v * c.tgam() == if c.theta_gamma_sign { -(v * f) } else { v * f }
        &&& v * f <= 0x200_0000_0000_0000_0000 * p126()
    }),
{
    let f = fixv(c.theta_gamma_lo, c.theta_gamma_hi);
    lemma_mul_bd(v, f, 0x200_0000_0000_0000_0000, p126());
    axiom_u256_of(v); axiom_u256_of(f); axiom_u256_of(v * f);
    assert(v * (-f) == -(v * f)) by(nonlinear_arith);
}
/// the rounded correction, read from the 256-bit sum s
pub proof fn lemma_round_w(c: &RnsScaler, r: Seq<u64>, v: int, u: U256)
    requires c.wf(), c.rests(r), 0 <= v <= c.sr(r, c.from.n()) + 1, u.v() == (c.so(r, c.from.n()) - v * c.tgam()) % m256(),
    ensures ({
        let s = c.so(r, c.from.n()) - v * c.tgam();
        let neg = U256::of(u.v() / pow2(255) as int).v() > 0;
        let a = if neg { U256::of(U256::of(m256() - 1 - u.v()).v() / pow2(126) as int).v() } else { U256::of(u.v() / pow2(126) as int).v() };
        &&& 0 <= a < 0x1000_0000_0000_0000_0000_0000 && a % m128() == a
        &&& -p126() <= p127() * sgnv(neg, (a + 1) / 2) - s <= p126()
    }),
{
    let s = c.so(r, c.from.n()) - v * c.tgam();
    lemma_so(c, r, c.from.n()); lemma_sr(c, r, c.from.n()); lemma_pows(); lemma_step_g(c, v);
    let rr = c.sr(r, c.from.n());
    lemma_mul_bd(rr, p126(), 0x100_0000_0000_0000_0000, p126());
    let b = 0x300_0000_0000_0000_0000 * p126();
    assert(-b <= s <= b);
    assert(b < m256() / 2) by(compute);
    lemma_sgn(u, s);
    axiom_u256(u);
    let h = m256() / 2;
    assert(m256() == 2 * h) by(compute);
    lemma_fundamental_div_mod(u.v(), h); lemma_mod_bound(u.v(), h);
    let t = u.v() / h;
    assert(t == if s < 0 { 1int } else { 0int }) by(nonlinear_arith) requires u.v() == h * t + u.v() % h, 0 <= u.v() % h < h, 0 <= u.v() < 2 * h, (u.v() >= h) == (s < 0);
    axiom_u256_of(t);
    let x = if s < 0 { -s - 1 } else { s };
    axiom_u256_of(m256() - 1 - u.v());
    let a = x / p126();
    lemma_fundamental_div_mod(x, p126()); lemma_mod_bound(x, p126());
    assert(0 <= a <= 0x300_0000_0000_0000_0000) by(nonlinear_arith) requires x == p126() * a + x % p126(), 0 <= x <= 0x300_0000_0000_0000_0000 * p126(), 0 <= x % p126() < p126();
    axiom_u256_of(a);
    lemma_small_mod(a as nat, m128() as nat);
    lemma_half(x, p126(), (a + 1) / 2);
    let w = (a + 1) / 2;
    assert(2 * p126() * w == p127() * w);
    if s < 0 {
        assert(p127() * (-w) == -(p127() * w)) by(nonlinear_arith);
        assert(2 * w == a || 2 * w == a + 1);
        assert(p126() * (a + 1) == p126() * a + p126());
    }
}
pub proof fn lemma_mul_neg(v: int, q: int)
    ensures (-v) * q == -(v * q),
{ assert((-v) * q == -(v * q)) by(nonlinear_arith); }
/// factor one: the combination is exact
pub proof fn lemma_exact(c: &RnsScaler, r: Seq<u64>, v: int)
    requires c.wf(), c.rests(r), c.num() == c.den(),
    ensures near(c.num() * (sumg(r, c.from.garner@, c.from.n()) - v * c.qq()), c.den(), c.sw(r, c.from.n()) - v * c.gam() + 0),
{
    let de = c.den(); let x = sumg(r, c.from.garner@, c.from.n()) - v * c.qq();
    lemma_prod_pos(c.from.moduli_u64@);
    lemma_rdiv_one(de, c.qq());
    lemma_sw_one(c, r, c.from.n());
    assert(de * x - de * x == 0);
}
pub proof fn lemma_rdiv_one(d: int, q: int)
    requires d >= 1, q >= 0,
    ensures rdiv(d * q, d) == q,
{
    assert(d * q == q * d) by(nonlinear_arith);
    lemma_fundamental_div_mod_converse(d * q + d / 2, d, q, d / 2);
}
pub proof fn lemma_sw_one(c: &RnsScaler, r: Seq<u64>, n: int)
    requires c.wf(), c.rests(r), c.num() == c.den(), 0 <= n <= r.len(),
    ensures c.sw(r, n) == sumg(r, c.from.garner@, n),
    decreases n,
{
    if n > 0 {
        lemma_sw_one(c, r, n - 1); lemma_rdiv_one(c.den(), c.gar(n - 1));
        assert(c.om(n - 1) == c.gar(n - 1));
        assert(c.gar(n - 1) * r[n - 1] as int == r[n - 1] as int * c.gar(n - 1)) by(nonlinear_arith);
    }
}
pub proof fn lemma_eqm_w(w: int, wi: int, neg: bool, p: int)
    requires p > 0, 0 <= wi < 2 * p, wi % p == w % p,
    ensures eqm(if neg { 2 * p - wi } else { wi }, sgnv(neg, w), p),
{
    assert(eqm(wi, w, p)) by { reveal(eqm); }
    eqm_of(2 * p, 0, 2, p);
    eqm_add(2 * p, 0, wi, w, p);
}
pub proof fn lemma_accum_get(c: &RnsScaler, r: Seq<u64>, i: int, base: int, yi: int, p: int, y: int)
    requires p > 0, accum(c, r, i, base, yi, p), y == base + c.sw(r, i),
    ensures yi % p == y % p,
{ reveal(accum); reveal(eqm); }
/// the modulus p part of one output: what is accumulated, and what it is congruent to
#[verifier::opaque]
pub open spec fn accum(c: &RnsScaler, r: Seq<u64>, i: int, base: int, yi: int, p: int) -> bool {
    eqm(yi, base + c.sw(r, i), p) && 0 <= yi <= (4 + 2 * i) * 0x4000_0000_0000_0000
}
pub proof fn lemma_accum_first(c: &RnsScaler, r: Seq<u64>, l: int, rv: int, v: int, gm: int, p: int)
    requires p > 0, l < 2 * p, 0 <= l, p <= 0x4000_0000_0000_0000, l % p == (rv * gm) % p, rv == v % p, gm == c.gam() % p,
    ensures accum(c, r, 0, -(v * c.gam()), 2 * p - l, p),
{
    reveal(accum); reveal(eqm);
    eqm_self(v, p); eqm_self(c.gam(), p); eqm_mul(rv, v, gm, c.gam(), p);
    assert(eqm(l, rv * gm, p));
    eqm_trans(l, rv * gm, v * c.gam(), p);
    eqm_of(2 * p, 0, 2, p);
    eqm_add(2 * p, 0, l, v * c.gam(), p);
}
pub proof fn lemma_accum_w(c: &RnsScaler, r: Seq<u64>, base: int, yi: int, z: int, ws: int, p: int)
    requires p > 0, accum(c, r, 0, base, yi, p), yi <= 0x8000_0000_0000_0000, eqm(z, ws, p), 0 <= z <= 2 * p, p <= 0x4000_0000_0000_0000,
    ensures accum(c, r, 0, base + ws, yi + z, p),
{
    reveal(accum);
    eqm_add(yi, base + c.sw(r, 0), z, ws, p);
    assert(base + c.sw(r, 0) + ws == base + ws + c.sw(r, 0));
}
pub proof fn lemma_accum_step(c: &RnsScaler, r: Seq<u64>, i: int, base: int, yi: int, l: int, o: int, p: int)
    requires p > 0, accum(c, r, i, base, yi, p), 0 <= i < r.len(), 0 <= l < 2 * p, p <= 0x4000_0000_0000_0000, l % p == (r[i] * o) % p, o == c.om(i) % p,
    ensures accum(c, r, i + 1, base, yi + l, p),
{
    reveal(accum); reveal(eqm);
    let x = r[i] as int;
    eqm_refl(x, p); eqm_self(c.om(i), p); eqm_mul(x, x, o, c.om(i), p);
    assert(eqm(l, x * o, p));
    eqm_trans(l, x * o, x * c.om(i), p);
    eqm_add(yi, base + c.sw(r, i), l, x * c.om(i), p);
    assert(c.sw(r, i + 1) == c.sw(r, i) + x * c.om(i));
}
//@ fn crates/fhe-math/src/rns/scaler.rs RnsScaler::scale
//@ sig
    pub fn scale(&self, rests: &[u64], out: &mut [u64], starting_index: usize)
//@ spec
    requires self.wf(), self.rests(rests@), old(out)@.len() >= 1, starting_index + old(out)@.len() <= self.to.n(),
    ensures final(out)@.len() == old(out)@.len(),
        exists|y: int| #[trigger] rounds(sumg(rests@, self.from.garner@, self.from.n()) as int, self.qq(), self.num(), self.den(), y)
            && forall|j: int| 0 <= j < final(out)@.len() ==> #[trigger] final(out)@[j] as int == y % self.to.m(starting_index + j),
//@ pderefs qi
//@ subst let out_i = out.get_mut(i).unwrap(); => 
//@ subst *out_i = qi.reduce_u128(yi); => out[i] = qi.reduce_u128(yi);
//@ start
    let ghost n = self.from.n();
    proof { assert(self.to.moduli_u64.len() == self.to.moduli_u64@.len()); }
    let ghost g = sumg(rests@, self.from.garner@, n) as int;
    let ghost mut ws: int = 0;
    let ghost mut y: int = 0;
    proof { lemma_pows(); lemma_sr(self, rests@, n); lemma_sg(self, rests@, n); lemma_so(self, rests@, n); }
//@ loop 0
    invariant
        self.wf(), self.rests(rests@), n == self.from.n(), n_0 == n, sum_theta_garner.v() == self.sg(rests@, i_0 as int),
//@ loop-start 0
    proof {
        let i = i_0 as int;
        assert(self.wf_from(i));
        lemma_fix(self.theta_garner_lo@[i], self.theta_garner_hi@[i]);
        lemma_sg(self, rests@, i + 1); lemma_sr(self, rests@, i + 1); lemma_sg(self, rests@, i); lemma_sr(self, rests@, i);
        lemma_step_bd(self, rests@, i);
    }
//@ loop-after 0
    proof { lemma_sum_bd(self, rests@); lemma_pow_s(self); axiom_u256_of(self.sg(rests@, n) / pow2((self.s() - 1) as nat) as int);
        let h = pow2((self.s() - 1) as nat) as int; let x = self.sg(rests@, n);
        lemma_fundamental_div_mod(x, h); lemma_mod_bound(x, h); lemma_div_pos_is_pos(x, h);
        assert(x / h <= x) by(nonlinear_arith) requires x == h * (x / h) + x % h, 0 <= x % h, h >= 1, x / h >= 0;
        lemma_v(self, rests@, (x / h + 1) / 2);
        lemma_small_mod((x / h) as nat, m128() as nat);
    }
//@ after-let v
    proof { lemma_v(self, rests@, v as int); }
//@ loop-before 1
    proof { lemma_small_mod(0, m256() as nat); }
//@ loop 1
    invariant
        self.wf(), self.rests(rests@), n == self.from.n(), n_1 == n, sum_theta_omega.v() == self.so(rests@, i_1 as int) % m256(),
//@ loop-start 1
    proof {
        let i = i_1 as int;
        lemma_fix(self.theta_omega_lo@[i], self.theta_omega_hi@[i]);
        lemma_step_o(self, rests@, i);
        lemma_wrap(sum_theta_omega.v(), rests@[i] * fixv(self.theta_omega_lo@[i], self.theta_omega_hi@[i]), self.so(rests@, i));
    }
//@ loop-after 1
    proof {
        lemma_fix(self.theta_gamma_lo, self.theta_gamma_hi);
        lemma_step_g(self, v as int);
        lemma_wrap(sum_theta_omega.v(), v * fixv(self.theta_gamma_lo, self.theta_gamma_hi), self.so(rests@, n));
    }
//@ subst w_sign = (sum_theta_omega => proof { lemma_round_w(self, rests@, v as int, sum_theta_omega); } w_sign = (sum_theta_omega
//@ loop-before 2
    proof {
        ws = sgnv(w_sign, w as int);
        let vg = v * self.gam();
        y = self.sw(rests@, n) - vg + ws;
        let x = g - v * self.qq();
        if self.scaling_factor.is_one { lemma_exact(self, rests@, v as int); } else { lemma_w(self, rests@, v as int, ws); }
        lemma_mul_neg(v as int, self.qq());
        assert(cent(g + (-v) * self.qq(), self.qq()) && near(self.num() * (g + (-v) * self.qq()), self.den(), y));
        assert(rounds(g, self.qq(), self.num(), self.den(), y));
    }
//@ loop 2
    invariant
        self.wf(), self.rests(rests@), n == self.from.n(), l_2 == 0, n_2 == out@.len(), out@.len() == old(out)@.len(), starting_index + out@.len() <= self.to.n(),
        ws == sgnv(w_sign, w as int), y == self.sw(rests@, n) - v * self.gam() + ws, self.scaling_factor.is_one ==> ws == 0,
        forall|j: int| 0 <= j < i_2 ==> #[trigger] out@[j] as int == y % self.to.m(starting_index + j),
//@ loop-start 2
    let ghost jj = starting_index + i_2;
    let ghost p = self.to.m(jj);
    let ghost mut base: int = 0;
    proof {
        assert(self.to.wf_i(jj)); assert(self.wf_to(jj)); assert(self.to.moduli_u64@[jj] < 0x4000_0000_0000_0000);
        lemma_mod_bound(self.gam(), p);
    }
//@ after-let yi
    proof {
        base = -(v * self.gam());
        let l = 2 * p - yi;
        lemma_accum_first(self, rests@, l, v as int % p, v as int, gamma_i as int, p);
    }
//@ after-let wi
    proof {
        let z = if w_sign { 2 * p - wi } else { wi as int };
        lemma_eqm_w(w as int, wi as int, w_sign, p);
        lemma_accum_w(self, rests@, base, yi as int, z, ws, p);
    }
//@ subst if !(rests.len() <= omega_i.len()) => proof { assert(accum(self, rests@, 0, base + ws, yi as int, p)); } if !(rests.len() <= omega_i.len())
//@ loop 3
    invariant
        l_3 == 0, n_3 == n, accum(self, rests@, i_3 as int, base + ws, yi as int, p),
//@ loop-start 3
    proof { assert(self.wf_om(jj, i_3 as int)); lemma_mod_bound(self.om(i_3 as int), p); reveal(accum); }
    let ghost y0 = yi as int;
//@ loop-end 3
    proof { lemma_accum_step(self, rests@, i_3 as int, base + ws, y0, yi - y0, omega_i@[i_3 as int] as int, p); }
//@ loop-after 3
    proof { lemma_accum_get(self, rests@, n, base + ws, yi as int, p, y); }
//@ ret-hint
    proof { assert(rounds(g, self.qq(), self.num(), self.den(), y)); }
//@ end
pub assume_specification [u128::next_power_of_two] (a: u128) -> (r: u128)
    requires a <= 0x8000_0000_0000_0000_0000_0000_0000_0000,
    ensures exists|k: nat| k < 128 && r as int == #[trigger] pow2(k), r >= a, forall|k: nat| a as int <= #[trigger] pow2(k) ==> r as int <= pow2(k);
pub assume_specification [u128::ilog2] (a: u128) -> (r: u32)
    requires a > 0,
    ensures r < 128, pow2(r as nat) <= a as int, (a as int) < pow2((r + 1) as nat), forall|k: nat| a as int <= #[trigger] pow2(k) ==> r as nat <= k;
pub fn min(a: u32, b: u32) -> (r: u32)
    ensures r == if a <= b { a } else { b },
{ if a <= b { a } else { b } }
/// first constant of row i
pub open spec fn tg_ok(q: int, g: int, s: nat, lo: u64, hi: u64) -> bool {
    &&& -q <= 2 * (fixv(lo, hi) * q - g * pow2(s)) <= q
    &&& 0 <= fixv(lo, hi) <= pow2(s)
}
pub proof fn lemma_tg(q: int, g: int, s: nat, x: int)
    requires 0 <= g < q, s <= 127, x == (g * pow2(s) + q / 2) / q,
    ensures 0 <= x <= pow2(s), x <= p127(), 0 <= x / p64() < p64(), x - (x / p64()) * p64() == x % p64(), 0 <= x % p64() < p64(), x >= (x / p64()) * p64(), x % p64() + (x / p64()) * p64() == x,
        -q <= 2 * (x * q - g * pow2(s)) <= q,
{
    let p = pow2(s) as int; lemma_pow2_pos(s); lemma_pows();
    if s < 127 { lemma_pow2_strictly_increases(s, 127); }
    let z = g * p + q / 2;
    assert(0 <= g * p <= (q - 1) * p) by(nonlinear_arith) requires 0 <= g <= q - 1, p >= 1;
    lemma_fundamental_div_mod(z, q); lemma_mod_bound(z, q); lemma_div_pos_is_pos(z, q);
    lemma_fundamental_div_mod(q, 2);
    assert((q - 1) * p == q * p - p) by(nonlinear_arith);
    assert(x <= p) by(nonlinear_arith) requires q * x <= q * p - p + q / 2, q >= 1, p >= 1, q / 2 < q;
    assert(q * x == x * q) by(nonlinear_arith);
    lemma_fundamental_div_mod(x, p64()); lemma_mod_bound(x, p64());
    lemma_div_pos_is_pos(x, p64());
}
/// the omega constants as computed
pub open spec fn om_col(ctx: &RnsContext, v: int, w: Seq<u64>) -> bool { w.len() == ctx.n() && forall|j: int| 0 <= j < ctx.n() ==> #[trigger] w[j] as int == v % ctx.m(j) }
pub open spec fn om_at(ctx: &RnsContext, v: int, j: int, w: u64, ws: u64) -> bool { w as int == v % ctx.m(j) && ws as int == shoup_of(w as int, ctx.m(j)) }
pub proof fn lemma_garner_lt(c: &RnsContext, i: int)
    requires c.wf(), 0 <= i < c.n(),
    ensures c.garner@[i].v() < c.q(),
{
    assert(c.wf_i(i)); lemma_prodx(c.moduli_u64@, i); lemma_prod_pos(c.moduli_u64@);
    let x = prodx(c.moduli_u64@, i) as int;
    assert(x >= 1) by(nonlinear_arith) requires x * c.m(i) >= 1, c.m(i) >= 2, x >= 0;
    assert(x * c.q_tilde@[i] < x * c.m(i)) by(nonlinear_arith) requires c.q_tilde@[i] < c.m(i), x >= 1;
}
/// Clone of Box<[u64]> copies the values (std)
pub axiom fn axiom_box_clone(a: Box<[u64]>, b: Box<[u64]>)
    ensures vstd::pervasive::cloned(a, b) ==> a@ == b@;
//@ fn crates/fhe-math/src/rns/scaler.rs RnsScaler::new
//@ subst ((from.garner[i_5] << => ((&from.garner[i_5] <<
//@ subst let mut outa_1 = => let mut outa_1: Vec<Vec<u64>> =
//@ subst let mut outd_1 = => let mut outd_1: Vec<bool> =
//@ subst let mut acc_4 = => let mut acc_4: Option<u32> =
//@ ret r
//@ spec
    requires from.wf(), to.wf(), scaling_factor.wf(), from.n() <= 1024,
    ensures r.wf(), r.from == *from, r.to == *to, r.num() == scaling_factor.numerator.v(), r.den() == scaling_factor.denominator.v(),
//@ start
    let ghost (n, m) = (from.n(), to.n());
    let ghost (nu, de) = (scaling_factor.numerator.v() as int, scaling_factor.denominator.v() as int);
    let ghost q = from.q();
    proof { lemma_pows(); lemma_prod_pos(from.moduli_u64@); }
//@ loop-before 1
    proof {
        assert forall|j: int| 0 <= j < m implies (#[trigger] omega@[j])@.len() == n by { let bx = choose|a: Box<[u64]>| a@.len() == n && vstd::pervasive::cloned(a, omega@[j]); axiom_box_clone(bx, omega@[j]); }
        assert forall|j: int| 0 <= j < m implies (#[trigger] omega_shoup@[j])@.len() == n by { let bx = choose|a: Box<[u64]>| a@.len() == n && vstd::pervasive::cloned(a, omega_shoup@[j]); axiom_box_clone(bx, omega_shoup@[j]); }
    }
//@ loop 0
    invariant
        to.wf(), m == to.n(), n_0 == m, gamma@.len() == m, out_0@.len() == i_0,
        om_col(to, rdiv(nu * q, de), gamma@),
        forall|j: int| 0 <= j < i_0 ==> #[trigger] out_0@[j] as int == shoup_of(gamma@[j] as int, to.m(j)),
//@ loop-start 0
    proof { assert(to.wf_i(i_0 as int)); lemma_mod_bound(rdiv(nu * q, de), to.m(i_0 as int)); }
//@ loop 1
    invariant
        from.wf(), to.wf(), scaling_factor.wf(), n == from.n(), m == to.n(), n_1 == n, nu == scaling_factor.numerator.v(), de == scaling_factor.denominator.v(),
        outa_1@.len() == i_1, outb_1@.len() == i_1, outc_1@.len() == i_1, outd_1@.len() == i_1,
        forall|i: int| 0 <= i < i_1 ==> om_col(to, rdiv(nu * from.garner@[i].v(), de), #[trigger] outa_1@[i]@),
        forall|i: int| 0 <= i < i_1 ==> frac(nu * from.garner@[i].v(), de, sgnv(#[trigger] outd_1@[i], fixv(outb_1@[i], outc_1@[i]))) && fixv(outb_1@[i], outc_1@[i]) <= p126(),
//@ loop 2
    invariant
        from.wf(), to.wf(), n == from.n(), m == to.n(), n_2 == n, omegas_i@.len() == n, omega@.len() == m, omega_shoup@.len() == m,
        forall|i: int| 0 <= i < n ==> om_col(to, rdiv(nu * from.garner@[i].v(), de), #[trigger] omegas_i@[i]@),
        forall|j: int| 0 <= j < m ==> (#[trigger] omega@[j])@.len() == n && omega_shoup@[j]@.len() == n,
        forall|j: int, i: int| 0 <= j < m && 0 <= i < i_2 ==> #[trigger] om_at(to, rdiv(nu * from.garner@[i].v(), de), j, omega@[j]@[i], omega_shoup@[j]@[i]),
//@ loop 3
    invariant
        to.wf(), m == to.n(), l_3 == 0, n_3 == m, i == i_2, i_2 < n, omegas_i@.len() == n, omega@.len() == m, omega_shoup@.len() == m,
        om_col(to, rdiv(nu * from.garner@[i_2 as int].v(), de), omegas_i@[i_2 as int]@),
        forall|j: int| 0 <= j < m ==> (#[trigger] omega@[j])@.len() == n && omega_shoup@[j]@.len() == n,
        forall|j: int, k: int| 0 <= j < m && 0 <= k < i_2 ==> #[trigger] om_at(to, rdiv(nu * from.garner@[k].v(), de), j, omega@[j]@[k], omega_shoup@[j]@[k]),
        forall|j: int| 0 <= j < i_3 ==> #[trigger] om_at(to, rdiv(nu * from.garner@[i_2 as int].v(), de), j, omega@[j]@[i_2 as int], omega_shoup@[j]@[i_2 as int]),
//@ loop-start 3
    proof {
        let o = rdiv(nu * from.garner@[i_2 as int].v(), de);
        assert(to.wf_i(i_3 as int)); lemma_mod_bound(o, to.m(i_3 as int)); lemma_small_mod((o % to.m(i_3 as int)) as nat, to.m(i_3 as int) as nat);
    }
//@ loop 4
    invariant
        from.wf(), n == from.n(), n <= 1024, n_4 == n, acc_4 is None <==> i_4 == 0, acc_4 matches Some(x) ==> 119 <= x <= 191,
//@ loop-start 4
    proof { lemma2_to64(); lemma2_to64_rest(); lemma_pow2_adds(8, 64); assert(pow2(72) == 0x100_0000_0000_0000_0000int); assert(from.moduli_u64.len() == from.moduli_u64@.len()); assert(from.moduli_u64@[i_4 as int] < 0x4000_0000_0000_0000);
        lemma_mul_bd(from.moduli_u64@[i_4 as int] as int, n, 0x4000_0000_0000_0000, 1024);
        assert(from.moduli_u64@[i_4 as int] * n >= 1) by(nonlinear_arith) requires from.moduli_u64@[i_4 as int] >= 2, n >= 1; }
//@ loop 5
    invariant
        from.wf(), n == from.n(), n_5 == n, q == from.q(), theta_garner_shift <= 127, outa_5@.len() == i_5, outb_5@.len() == i_5,
        forall|i: int| 0 <= i < i_5 ==> tg_ok(q, from.garner@[i].v() as int, theta_garner_shift as nat, #[trigger] outa_5@[i], outb_5@[i]),
//@ loop-start 5
    proof { lemma_garner_lt(from, i_5 as int); lemma_tg(q, from.garner@[i_5 as int].v() as int, theta_garner_shift as nat, (from.garner@[i_5 as int].v() * pow2(theta_garner_shift as nat) + q / 2) / q); }
//@ ret-hint
    proof {
        assert forall|i: int| 0 <= i < n implies #[trigger] r_.wf_from(i) by {
            assert(tg_ok(q, from.garner@[i].v() as int, r_.theta_garner_shift as nat, r_.theta_garner_lo@[i], r_.theta_garner_hi@[i]));
            assert(frac(nu * from.garner@[i].v(), de, sgnv(r_.theta_omega_sign@[i], fixv(r_.theta_omega_lo@[i], r_.theta_omega_hi@[i]))));
        }
        assert forall|j: int| 0 <= j < m implies #[trigger] r_.wf_to(j) by {
            assert forall|i: int| 0 <= i < n implies #[trigger] r_.wf_om(j, i) by { assert(om_at(to, rdiv(nu * from.garner@[i].v(), de), j, r_.omega@[j]@[i], r_.omega_shoup@[j]@[i])); }
        }
    }
//@ end
