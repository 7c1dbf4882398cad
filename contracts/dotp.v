//@ import fp
//@ import conv
// ---------------------------------------------------------------------------
// fhe-math/src/rq/ops.rs : dot products with a 128-bit accumulator
// ---------------------------------------------------------------------------
use std::sync::Arc;
use std::marker::PhantomData;
use vstd::arithmetic::div_mod::*;
use vstd::arithmetic::mul::*;
use vstd::arithmetic::power2::*;
use vstd::std_specs::bits::*;
use crate::modk::*;
broadcast use group_poly;
/// the entries of a matrix, row after row
pub open spec fn flat_of<T>(f: Seq<T>, rows: Seq<Vec<T>>, d: int) -> bool {
    f.len() == rows.len() * d && forall|j: int, k: int| 0 <= j < rows.len() && 0 <= k < d ==> at2(f, d, j, k) == #[trigger] rows[j]@[k]
}
pub open spec fn at2<T>(f: Seq<T>, d: int, j: int, k: int) -> T { f[j * d + k] }
impl<T> Array2<T> {
    /// the entries, row after row (as_slice of a matrix in standard layout)
    #[verifier::external_body]
    pub fn vflat(&self) -> (r: Vec<T>)
        requires rect(self), self.rows@.len() > 0,
        ensures flat_of(r@, self.rows@, self.rows@[0]@.len() as int),
    { unimplemented!() }
    /// overwrites the entries (writes through as_mut_slice, as_mut_ptr)
    #[verifier::external_body]
    pub fn vset_flat(&mut self, f: &Vec<T>)
        requires rect(old(self)), old(self).rows@.len() > 0, f@.len() == old(self).rows@.len() * old(self).rows@[0]@.len(),
        ensures final(self).rows@.len() == old(self).rows@.len(), forall|j: int| 0 <= j < old(self).rows@.len() ==> (#[trigger] final(self).rows@[j])@.len() == old(self).rows@[0]@.len(),
            flat_of(f@, final(self).rows@, old(self).rows@[0]@.len() as int),
    { unimplemented!() }
}
/// the smallest entry (Iterator::min)
pub fn vec_min(v: &Vec<u128>) -> (r: u128)
    requires v@.len() > 0,
    ensures forall|i: int| 0 <= i < v@.len() ==> r <= #[trigger] v@[i], exists|i: int| 0 <= i < v@.len() && r == #[trigger] v@[i],
{
    let mut m = v[0];
    let mut i: usize = 1;
    while i < v.len()
        invariant 1 <= i <= v@.len(), forall|k: int| 0 <= k < i ==> m <= #[trigger] v@[k], exists|k: int| 0 <= k < i && m == #[trigger] v@[k],
        decreases v@.len() - i,
    {
        if v[i] < m { m = v[i]; }
        i += 1;
    }
    m
}
//@ fn crates/fhe-math/src/rq/ops.rs fma
//@ spec
    requires x@.len() == old(out)@.len(), y@.len() == old(out)@.len(),
        forall|i: int| 0 <= i < x@.len() ==> #[trigger] old(out)@[i] + x@[i] * y@[i] <= u128::MAX,
    ensures final(out)@.len() == old(out)@.len(),
        forall|i: int| 0 <= i < x@.len() ==> #[trigger] final(out)@[i] == old(out)@[i] + x@[i] * y@[i],
//@ start
    let ghost pre = out@;
    assert forall|a: u64, b: u64| #[trigger] ((a as u128) as int * (b as u128) as int) <= 0xffff_ffff_ffff_fffe_0000_0000_0000_0001 by { assert(a as int * b as int <= 0xffff_ffff_ffff_ffff * 0xffff_ffff_ffff_ffff) by(nonlinear_arith) requires 0 <= a as int <= 0xffff_ffff_ffff_ffff, 0 <= b as int <= 0xffff_ffff_ffff_ffff; }
//@ loop 0
    invariant
        n == pre.len(), out@.len() == n, x@.len() == n, y@.len() == n, n_0 == n / 16, v_q1 == (n / 16) * 16,
        forall|i: int| 0 <= i < n ==> #[trigger] pre[i] + x@[i] * y@[i] <= u128::MAX,
        forall|i: int| 0 <= i < i_0 * 16 ==> #[trigger] out@[i] == pre[i] + x@[i] * y@[i],
        forall|i: int| i_0 * 16 <= i < n ==> #[trigger] out@[i] == pre[i],
//@ loop 1
    invariant
        n == pre.len(), out@.len() == n, x@.len() == n, y@.len() == n, n_1 == 16, i_0 < n_0, n_0 == n / 16, 0 <= i_1 <= 16, l_1 == 0,
        forall|i: int| 0 <= i < n ==> #[trigger] pre[i] + x@[i] * y@[i] <= u128::MAX,
        forall|i: int| 0 <= i < i_0 * 16 + i_1 ==> #[trigger] out@[i] == pre[i] + x@[i] * y@[i],
        forall|i: int| i_0 * 16 + i_1 <= i < n ==> #[trigger] out@[i] == pre[i],
//@ loop-start 1
    proof { let k = i_0 * 16 + i_1; assert(k < n) by { assert(i_0 <= n / 16 - 1); } assert(pre[k] + x@[k] * y@[k] <= u128::MAX); assert(out@[k] == pre[k]); assert((x@[k] as u128) as int * (y@[k] as u128) as int <= 0xffff_ffff_ffff_fffe_0000_0000_0000_0001); }
//@ loop 2
    invariant
        n == pre.len(), out@.len() == n, x@.len() == n, y@.len() == n, n_2 == n - v_q1, v_q1 == (n / 16) * 16, v_q2 == v_q1, v_q3 == v_q1, v_q1 <= n,
        forall|i: int| 0 <= i < n ==> #[trigger] pre[i] + x@[i] * y@[i] <= u128::MAX,
        forall|i: int| 0 <= i < v_q1 + i_2 ==> #[trigger] out@[i] == pre[i] + x@[i] * y@[i],
        forall|i: int| v_q1 + i_2 <= i < n ==> #[trigger] out@[i] == pre[i],
//@ loop-start 2
    proof { let k = v_q1 + i_2; assert(pre[k] + x@[k] * y@[k] <= u128::MAX); assert(out@[k] == pre[k]); assert((x@[k] as u128) as int * (y@[k] as u128) as int <= 0xffff_ffff_ffff_fffe_0000_0000_0000_0001); }
//@ end
pub proof fn lemma_shl128(k: u32)
    requires k < 128,
    ensures 1u128 << k == pow2(k as nat),
    decreases k,
{
    lemma2_to64();
    if k == 0 { assert(1u128 << 0u32 == 1) by(bit_vector); }
    else {
        let l = (k - 1) as u32;
        lemma_shl128(l);
        lemma_pow2_unfold(k as nat);
        assert(1u128 << k == 2 * (1u128 << l)) by(bit_vector) requires k == add(l, 1), k < 128, l < 127;
    }
}
/// room of the accumulator: m products of residues modulo p
pub open spec fn room(p: int, m: int) -> bool { 2 <= m <= 0x1000_0000_0000_0000_0000_0000_0000_0000 && m * ((p - 1) * (p - 1)) <= u128::MAX }
pub proof fn lemma_room(p: u64, mx: u128)
    requires 2 <= p < 0x4000_0000_0000_0000,
    ensures ({ let lz = u64_leading_zeros(p); &&& 1 <= lz <= 62 && (mx == 1u128 << (2 * lz) as u32 ==> room(p as int, mx as int)) }),
{
    axiom_u64_leading_zeros(p);
    let lz = u64_leading_zeros(p) as u64;
    let k = sub(63, lz);
    assert(lz != 64);
    assert((p >> k) & 1 != 0);
    if lz > 0 { assert(sub(64, lz) == (64 - lz) as u64); }
    assert(lz >= 1 && lz <= 62) by(bit_vector)
        requires 2 <= p < 0x4000_0000_0000_0000u64, lz < 64, k == sub(63, lz), (p >> k) & 1 != 0, lz == 0 || p >> sub(64, lz) == 0;
    assert(p >> sub(64, lz) == 0);
    let e = (64 - lz) as u64;
    vstd::bits::lemma_u64_shr_is_div(p, e);
    lemma_pow2_pos(e as nat);
    lemma_fundamental_div_mod(p as int, pow2(e as nat) as int); lemma_mod_bound(p as int, pow2(e as nat) as int);
    let b = pow2(e as nat) as int;
    assert(p < b) by(nonlinear_arith) requires p as int == b * 0 + p as int % b, p as int % b < b;
    if mx == 1u128 << (2 * lz) as u32 {
        let m = pow2((2 * lz) as nat) as int;
        lemma_pow2_adds((2 * lz) as nat, e as nat); lemma_pow2_adds((2 * lz + e) as nat, e as nat);
        assert(2 * lz + e + e == 128);
        assert(pow2(128) == 0x1_0000_0000_0000_0000_0000_0000_0000_0000) by { lemma2_to64(); lemma_pow2_adds(64, 64); }
        assert(m <= 0x1000_0000_0000_0000_0000_0000_0000_0000) by { lemma2_to64(); lemma2_to64_rest(); lemma_pow2_adds(62, 62); if (2 * lz) < 124 { lemma_pow2_strictly_increases((2 * lz) as nat, 124); } }
        assert(m >= 2) by { lemma2_to64(); if (2 * lz) > 1 { lemma_pow2_strictly_increases(1, (2 * lz) as nat); } }
        lemma_shl128((2 * lz) as u32);
        let a = (p - 1) as int;
        assert(a * a <= b * b) by(nonlinear_arith) requires 0 <= a <= b;
        assert(m * (a * a) <= m * (b * b)) by(nonlinear_arith) requires a * a <= b * b, m >= 0;
        assert(m * (b * b) == (m * b) * b) by(nonlinear_arith);
        assert(m * (a * a) < m * (b * b)) by(nonlinear_arith) requires 0 <= a < b, m >= 2;
    }
}
/// sum of the first t products of entry (j, k)
pub open spec fn dsum(p: Seq<&Poly<Ntt>>, q: Seq<&Poly<Ntt>>, j: int, k: int, t: int) -> int
    decreases t,
{ if t <= 0 { 0 } else { dsum(p, q, j, k, t - 1) + p[t - 1].rows()[j]@[k] * q[t - 1].rows()[j]@[k] } }
/// an accumulator of at most num products, worth s modulo m
pub open spec fn st(f: u128, num: int, s: int, m: int) -> bool { f <= num * ((m - 1) * (m - 1)) && eqm(f as int, s, m) }
#[verifier::opaque]
pub open spec fn row_ok(c: &Context, f: Seq<u128>, p: Seq<&Poly<Ntt>>, q: Seq<&Poly<Ntt>>, j: int, num: int, t: int) -> bool {
    forall|k: int| 0 <= k < c.d() ==> st(#[trigger] at2(f, c.d(), j, k), num, dsum(p, q, j, k, t), c.p(j))
}
/// what is needed of the operands
pub open spec fn ops_ok(c: &Context, p: Seq<&Poly<Ntt>>, q: Seq<&Poly<Ntt>>) -> bool {
    &&& c.wf() && p.len() == q.len()
    &&& forall|i: int| 0 <= i < p.len() ==> (#[trigger] p[i]).wf() && same(&*p[i].ctx, c)
    &&& forall|i: int| 0 <= i < q.len() ==> (#[trigger] q[i]).wf() && same(&*q[i].ctx, c)
}
pub proof fn lemma_idx(n: int, d: int, j: int, k: int)
    requires 0 <= j < n, 0 <= k < d,
    ensures 0 <= j * d + k < n * d, j * d + k < (j + 1) * d, (j + 1) * d <= n * d, 0 <= j * d,
{
    assert(j * d + k < (j + 1) * d && (j + 1) * d <= n * d && 0 <= j * d) by(nonlinear_arith) requires 0 <= j < n, 0 <= k < d;
}
/// entries of different rows are different
pub proof fn lemma_idx_ne(d: int, j: int, k: int, l: int)
    requires 0 <= k < d, j != l,
    ensures j * d + k < l * d || j * d + k >= (l + 1) * d,
{
    if j < l { assert(j * d + k < l * d) by(nonlinear_arith) requires 0 <= k < d, j + 1 <= l; }
    else { assert(j * d + k >= (l + 1) * d) by(nonlinear_arith) requires 0 <= k < d, j >= l + 1; }
}
/// one product of residues
pub proof fn lemma_term(x: u64, y: u64, m: int)
    requires x < m, y < m,
    ensures 0 <= x * y <= (m - 1) * (m - 1),
{ assert(0 <= x * y <= (m - 1) * (m - 1)) by(nonlinear_arith) requires 0 <= x <= m - 1, 0 <= y <= m - 1; }
/// there is room for one more product
pub proof fn lemma_fits(c: &Context, f: Seq<u128>, p: Seq<&Poly<Ntt>>, q: Seq<&Poly<Ntt>>, j: int, k: int, num: int, mx: int, t: int)
    requires ops_ok(c, p, q), 0 <= t < p.len(), 0 <= j < c.n(), 0 <= k < c.d(), row_ok(c, f, p, q, j, num, t), 0 <= num < mx, room(c.p(j), mx),
    ensures at2(f, c.d(), j, k) + p[t].rows()[j]@[k] * q[t].rows()[j]@[k] <= u128::MAX,
{
    reveal(row_ok);
    let m = c.p(j); let (x, y) = (p[t].rows()[j]@[k], q[t].rows()[j]@[k]);
    assert(c.wf_i(j)); assert(p[t].p(j) == m && q[t].p(j) == m); assert(canon(p[t].rows()[j]@, m) && canon(q[t].rows()[j]@, m));
    lemma_term(x, y, m);
    let a = (m - 1) * (m - 1);
    assert(num * a + a <= mx * a) by(nonlinear_arith) requires num + 1 <= mx, a >= 0;
}
/// after one more product
pub proof fn lemma_fma_row(c: &Context, f: Seq<u128>, g: Seq<u128>, p: Seq<&Poly<Ntt>>, q: Seq<&Poly<Ntt>>, j: int, num: int, t: int)
    requires ops_ok(c, p, q), 0 <= t < p.len(), 0 <= j < c.n(), row_ok(c, f, p, q, j, num, t), 0 <= num,
        forall|k: int| 0 <= k < c.d() ==> #[trigger] at2(g, c.d(), j, k) == at2(f, c.d(), j, k) + p[t].rows()[j]@[k] * q[t].rows()[j]@[k],
    ensures row_ok(c, g, p, q, j, num + 1, t + 1),
{
    reveal(row_ok);
    let m = c.p(j); let d = c.d();
    assert(c.wf_i(j)); assert(p[t].p(j) == m && q[t].p(j) == m); assert(canon(p[t].rows()[j]@, m) && canon(q[t].rows()[j]@, m));
    assert forall|k: int| 0 <= k < d implies st(#[trigger] at2(g, d, j, k), num + 1, dsum(p, q, j, k, t + 1), m) by {
        let (x, y) = (p[t].rows()[j]@[k], q[t].rows()[j]@[k]);
        assert(st(at2(f, d, j, k), num, dsum(p, q, j, k, t), m));
        lemma_term(x, y, m);
        let a = (m - 1) * (m - 1);
        assert(num * a + a == (num + 1) * a) by(nonlinear_arith);
        assert(dsum(p, q, j, k, t + 1) == dsum(p, q, j, k, t) + x * y);
        eqm_refl((x * y) as int, m);
        eqm_add(at2(f, d, j, k) as int, dsum(p, q, j, k, t), (x * y) as int, (x * y) as int, m);
    }
}
/// rows that did not change
pub proof fn lemma_row_frame(c: &Context, f: Seq<u128>, g: Seq<u128>, p: Seq<&Poly<Ntt>>, q: Seq<&Poly<Ntt>>, j: int, l: int, num: int, t: int)
    requires row_ok(c, f, p, q, j, num, t), 0 <= j < c.n(), 0 <= l < c.n(), j != l, f.len() == c.n() * c.d(), g.len() == f.len(),
        forall|i: int| 0 <= i < f.len() && (i < l * c.d() || i >= (l + 1) * c.d()) ==> #[trigger] g[i] == f[i],
    ensures row_ok(c, g, p, q, j, num, t),
{
    reveal(row_ok);
    let d = c.d();
    assert forall|k: int| 0 <= k < d implies st(#[trigger] at2(g, d, j, k), num, dsum(p, q, j, k, t), c.p(j)) by {
        lemma_idx(c.n(), d, j, k); lemma_idx_ne(d, j, k, l);
        assert(g[j * d + k] == f[j * d + k]);
        assert(st(at2(f, d, j, k), num, dsum(p, q, j, k, t), c.p(j)));
    }
}
/// a row that was reduced
pub proof fn lemma_row_red(c: &Context, f: Seq<u128>, g: Seq<u128>, p: Seq<&Poly<Ntt>>, q: Seq<&Poly<Ntt>>, j: int, num: int, t: int)
    requires c.wf(), row_ok(c, f, p, q, j, num, t), 0 <= j < c.n(), f.len() == c.n() * c.d(), g.len() == f.len(),
        forall|i: int| j * c.d() <= i < (j + 1) * c.d() ==> #[trigger] g[i] == f[i] as int % c.p(j),
    ensures row_ok(c, g, p, q, j, 1, t),
{
    reveal(row_ok);
    let d = c.d(); let m = c.p(j);
    assert(c.wf_i(j));
    assert forall|k: int| 0 <= k < d implies st(#[trigger] at2(g, d, j, k), 1, dsum(p, q, j, k, t), m) by {
        lemma_idx(c.n(), d, j, k);
        let (a, b) = (f[j * d + k], g[j * d + k]);
        assert(st(at2(f, d, j, k), num, dsum(p, q, j, k, t), m));
        assert(b == a as int % m);
        lemma_mod_bound(a as int, m);
        assert(b <= (m - 1) * (m - 1)) by(nonlinear_arith) requires 0 <= b <= m - 1, m >= 2;
        eqm_self(a as int, m);
        eqm_trans(b as int, a as int, dsum(p, q, j, k, t), m);
    }
}
pub proof fn lemma_row_zero(c: &Context, f: Seq<u128>, p: Seq<&Poly<Ntt>>, q: Seq<&Poly<Ntt>>, j: int, num: int)
    requires c.wf(), 0 <= j < c.n(), num >= 0, forall|k: int| 0 <= k < c.d() ==> #[trigger] at2(f, c.d(), j, k) == 0,
    ensures row_ok(c, f, p, q, j, num, 0),
{
    reveal(row_ok);
    let m = c.p(j);
    assert(num * ((m - 1) * (m - 1)) >= 0) by(nonlinear_arith) requires num >= 0;
    eqm_refl(0, m);
}
/// room for one more product, everywhere
pub proof fn lemma_all_fits(c: &Context, f: Seq<u128>, p: Seq<&Poly<Ntt>>, q: Seq<&Poly<Ntt>>, x: Seq<u64>, y: Seq<u64>, nums: Seq<int>, mx: Seq<u128>, t: int)
    requires ops_ok(c, p, q), 0 <= t < p.len(), f.len() == c.n() * c.d(), nums.len() == c.n(), mx.len() == c.n(),
        flat_of(x, p[t].rows(), c.d()), flat_of(y, q[t].rows(), c.d()),
        forall|j: int| 0 <= j < c.n() ==> #[trigger] row_ok(c, f, p, q, j, nums[j], t),
        forall|j: int| 0 <= j < c.n() ==> 0 <= (#[trigger] nums[j]) < mx[j] && room(c.p(j), mx[j] as int),
    ensures x.len() == f.len(), y.len() == f.len(), forall|i: int| 0 <= i < f.len() ==> #[trigger] f[i] + x[i] * y[i] <= u128::MAX,
{
    let d = c.d();
    assert forall|i: int| 0 <= i < f.len() implies #[trigger] f[i] + x[i] * y[i] <= u128::MAX by {
        let j = i / d; let k = i % d;
        lemma_fundamental_div_mod(i, d); lemma_mod_bound(i, d);
        assert(i == j * d + k) by(nonlinear_arith) requires i == d * (i / d) + i % d, j == i / d, k == i % d;
        assert(0 <= j < c.n()) by(nonlinear_arith) requires i == j * d + k, 0 <= k < d, 0 <= i < c.n() * d;
        assert(row_ok(c, f, p, q, j, nums[j], t)); assert(0 <= nums[j] < mx[j]);
        lemma_fits(c, f, p, q, j, k, nums[j], mx[j] as int, t);
        assert(at2(x, d, j, k) == p[t].rows()[j]@[k]); assert(at2(y, d, j, k) == q[t].rows()[j]@[k]);
    }
}
pub proof fn lemma_fma_all(c: &Context, f: Seq<u128>, g: Seq<u128>, p: Seq<&Poly<Ntt>>, q: Seq<&Poly<Ntt>>, x: Seq<u64>, y: Seq<u64>, nums: Seq<int>, t: int)
    requires ops_ok(c, p, q), 0 <= t < p.len(), f.len() == c.n() * c.d(), g.len() == f.len(), nums.len() == c.n(),
        flat_of(x, p[t].rows(), c.d()), flat_of(y, q[t].rows(), c.d()),
        forall|j: int| 0 <= j < c.n() ==> #[trigger] row_ok(c, f, p, q, j, nums[j], t),
        forall|j: int| 0 <= j < c.n() ==> 0 <= (#[trigger] nums[j]),
        forall|i: int| 0 <= i < f.len() ==> #[trigger] g[i] == f[i] + x[i] * y[i],
    ensures forall|j: int| 0 <= j < c.n() ==> #[trigger] row_ok(c, g, p, q, j, nums[j] + 1, t + 1),
{
    let d = c.d();
    assert forall|j: int| 0 <= j < c.n() implies #[trigger] row_ok(c, g, p, q, j, nums[j] + 1, t + 1) by {
        assert(row_ok(c, f, p, q, j, nums[j], t)); assert(0 <= nums[j]);
        assert forall|k: int| 0 <= k < d implies #[trigger] at2(g, d, j, k) == at2(f, d, j, k) + p[t].rows()[j]@[k] * q[t].rows()[j]@[k] by {
            lemma_idx(c.n(), d, j, k);
            let i = j * d + k;
            assert(at2(x, d, j, k) == p[t].rows()[j]@[k]); assert(at2(y, d, j, k) == q[t].rows()[j]@[k]);
            assert(g[i] == f[i] + x[i] * y[i]);
        }
        lemma_fma_row(c, f, g, p, q, j, nums[j], t);
    }
}
/// the accumulators are worth the sums
#[verifier::opaque]
pub open spec fn row_eq(c: &Context, f: Seq<u128>, p: Seq<&Poly<Ntt>>, q: Seq<&Poly<Ntt>>, j: int) -> bool {
    forall|k: int| 0 <= k < c.d() ==> eqm(#[trigger] at2(f, c.d(), j, k) as int, dsum(p, q, j, k, p.len() as int), c.p(j))
}
pub proof fn lemma_row_eq(c: &Context, f: Seq<u128>, p: Seq<&Poly<Ntt>>, q: Seq<&Poly<Ntt>>, j: int, num: int)
    requires row_ok(c, f, p, q, j, num, p.len() as int),
    ensures row_eq(c, f, p, q, j),
{
    reveal(row_ok); reveal(row_eq);
    assert forall|k: int| 0 <= k < c.d() implies eqm(#[trigger] at2(f, c.d(), j, k) as int, dsum(p, q, j, k, p.len() as int), c.p(j)) by { assert(st(at2(f, c.d(), j, k), num, dsum(p, q, j, k, p.len() as int), c.p(j))); }
}
/// the reduced accumulators
pub proof fn lemma_dot(c: &Context, f: Seq<u128>, p: Seq<&Poly<Ntt>>, q: Seq<&Poly<Ntt>>, r: &Poly<Ntt>)
    requires c.wf(), *r.ctx == *c, forall|j: int| 0 <= j < c.n() ==> #[trigger] row_eq(c, f, p, q, j), dims(r.rows(), c.n(), c.d()),
        forall|j: int, k: int| 0 <= j < c.n() && 0 <= k < c.d() ==> (#[trigger] r.rows()[j]@[k]) as int == at2(f, c.d(), j, k) as int % c.p(j),
    ensures is_dot(p, q, r), r.can(),
{
    reveal(is_dot); reveal(row_eq);
    assert forall|j: int, k: int| 0 <= j < r.n() && 0 <= k < r.d() implies (#[trigger] r.rows()[j]@[k]) as int == dsum(p, q, j, k, p.len() as int) % r.p(j) by {
        assert(row_eq(c, f, p, q, j));
        eqm_get(at2(f, c.d(), j, k) as int, dsum(p, q, j, k, p.len() as int), c.p(j));
    }
    assert forall|j: int| 0 <= j < r.n() implies canon((#[trigger] r.rows()[j])@, r.p(j)) by {
        let x = r.rows()[j]; assert(c.wf_i(j));
        assert forall|k: int| 0 <= k < x@.len() implies (#[trigger] x@[k]) < r.p(j) by { assert(r.rows()[j]@[k] as int == at2(f, c.d(), j, k) as int % c.p(j)); lemma_mod_bound(at2(f, c.d(), j, k) as int, c.p(j)); }
    }
}
pub proof fn lemma_zeros(c: &Context, f: Seq<u128>, rows: Seq<Vec<u128>>, p: Seq<&Poly<Ntt>>, q: Seq<&Poly<Ntt>>)
    requires c.wf(), rows.len() == c.n(), flat_of(f, rows, c.d()), forall|j: int, k: int| 0 <= j < c.n() && 0 <= k < c.d() ==> (#[trigger] rows[j]@[k]).vzero(),
    ensures forall|j: int| 0 <= j < c.n() ==> #[trigger] row_ok(c, f, p, q, j, 1, 0), forall|j: int| 0 <= j < c.n() ==> #[trigger] row_ok(c, f, p, q, j, 0, 0),
{
    assert forall|j: int| 0 <= j < c.n() implies #[trigger] row_ok(c, f, p, q, j, 1, 0) by { assert forall|k: int| 0 <= k < c.d() implies #[trigger] at2(f, c.d(), j, k) == 0 by { assert(rows[j]@[k].vzero()); } lemma_row_zero(c, f, p, q, j, 1); }
    assert forall|j: int| 0 <= j < c.n() implies #[trigger] row_ok(c, f, p, q, j, 0, 0) by { assert forall|k: int| 0 <= k < c.d() implies #[trigger] at2(f, c.d(), j, k) == 0 by { assert(rows[j]@[k].vzero()); } lemma_row_zero(c, f, p, q, j, 0); }
}
/// the result: each entry is the sum of the products
#[verifier::opaque]
pub open spec fn is_dot(p: Seq<&Poly<Ntt>>, q: Seq<&Poly<Ntt>>, r: &Poly<Ntt>) -> bool {
    forall|j: int, k: int| 0 <= j < r.n() && 0 <= k < r.d() ==> (#[trigger] r.rows()[j]@[k]) as int == dsum(p, q, j, k, p.len() as int) % r.p(j)
}
pub open spec fn cx(p: Seq<&Poly<Ntt>>) -> Context { *p[0].ctx }
pub open spec fn all_vt(p: Seq<&Poly<Ntt>>, n: int) -> bool { forall|i: int| 0 <= i < n ==> (#[trigger] p[i]).vt() }
pub open spec fn all_same(p: Seq<&Poly<Ntt>>, c: &Context, n: int) -> bool { forall|i: int| 0 <= i < n ==> same(&*(#[trigger] p[i]).ctx, c) }
//@ fn crates/fhe-math/src/rq/ops.rs dot_product
//@ iters p q
//@ attrs
#[verifier::rlimit(100)]
//@ subst (p_first.ctx.q[i_3]).leading_zeros() => (p_first.ctx.q[i_3].p).leading_zeros()
//@ subst let acc_ptr = acc.as_mut_ptr(); => 
//@ subst let num_acc_ptr = num_acc.as_mut_ptr(); => 
//@ subst let max_acc_ptr = max_acc.as_ptr(); => 
//@ subst let q_ptr = p_first.ctx.q.as_ptr(); => 
//@ subst &*q_ptr.offset(j) => &p_first.ctx.q[j as usize]
//@ subst *num_acc_ptr.offset(j) => num_acc[j as usize]
//@ subst *max_acc_ptr.offset(j) => max_acc[j as usize]
//@ subst *acc_ptr.offset(i) => acc_f[i as usize]
//@ subst let out_slice = acc.as_slice_mut().unwrap(); => let mut acc_f = acc.vflat(); proof { lemma_zeros(&c, acc_f@, acc.rows@, p@, q@); }
//@ subst fma(out_slice, pi_slice, qi_slice); => proof { h = acc_f@; lemma_all_fits(&c, h, p@, q@, v_pf@, v_qf@, nums, max_acc@, tt); } fma(acc_f.as_mut_slice(), pi_slice, qi_slice); proof { lemma_fma_all(&c, h, acc_f@, p@, q@, v_pf@, v_qf@, nums, tt); }
//@ subst let pij = p[i_4].coefficients(); => let pij = &p[i_4].coefficients;
//@ subst let qij = q[i_4].coefficients(); => let qij = &q[i_4].coefficients;
//@ subst let pij = p[i_8].coefficients(); => let pij = &p[i_8].coefficients;
//@ subst let qij = q[i_8].coefficients(); => let qij = &q[i_8].coefficients;
//@ subst let pi_slice = pij.as_slice().unwrap(); => let v_pf = pij.vflat(); let pi_slice = v_pf.as_slice();
//@ subst let qi_slice = qij.as_slice().unwrap(); => let v_qf = qij.vflat(); let qi_slice = v_qf.as_slice();
//@ subst let mut coeffs: Array2<u64> => proof { ge = acc_f@; } acc.vset_flat(&acc_f); let mut coeffs: Array2<u64>
//@ subst let l_5 = 0; => let l_5: isize = 0;
//@ vec 3 u128
//@ sig
pub fn dot_product(p: &[&Poly<Ntt>], q: &[&Poly<Ntt>]) -> (r: Result<Poly<Ntt>>)
//@ spec
    requires forall|i: int| 0 <= i < p@.len() ==> (#[trigger] p@[i]).wf(), forall|i: int| 0 <= i < q@.len() ==> (#[trigger] q@[i]).wf(),
    ensures r is Ok <==> p@.len() > 0 && p@.len() == q@.len() && all_same(p@, &*p@[0].ctx, p@.len() as int) && all_same(q@, &*p@[0].ctx, q@.len() as int),
        r matches Ok(o) ==> o.wf() && o.ctx == p@[0].ctx && is_dot(p@, q@, &o) && o.vt() == (all_vt(p@, p@.len() as int) && all_vt(q@, q@.len() as int)),
//@ loop 0
    invariant
        n_0 == p@.len(), acc_0 == !all_same(p@, &*p_first.ctx, i_0 as int),
//@ loop 1
    invariant
        n_1 == q@.len(), acc_1 == !all_same(q@, &*p_first.ctx, i_1 as int),
//@ loop 2
    invariant
        n_2 == p@.len(), p@.len() == q@.len(), acc_2 == (all_vt(p@, i_2 as int) && all_vt(q@, i_2 as int)),
//@ loop 3
    invariant
        n_3 == c.n(), c.wf(), c == *p_first.ctx, out_3@.len() == i_3, forall|j: int| 0 <= j < i_3 ==> room(c.p(j), #[trigger] out_3@[j] as int),
//@ loop-start 3
    proof { assert(c.wf_i(i_3 as int)); lemma_room(c.q@[i_3 as int].p, 1u128 << (2 * u64_leading_zeros(c.q@[i_3 as int].p)) as u32); }
//@ start
    let ghost mut c: Context = arbitrary();
    let ghost mut d: int = 0;
    let ghost mut h: Seq<u128> = arbitrary();
    let ghost mut ge: Seq<u128> = arbitrary();
//@ after-let count
    proof { c = cx(p@); d = c.d(); lemma_ctx_fits(&*p@[0].ctx); }
//@ loop 4
    invariant
        c.wf(), d == c.d(), ops_ok(&c, p@, q@), *p_first.ctx == c, max_acc@.len() == c.n(), acc_f@.len() == c.n() * d, c.n() * d <= 0x00ff_ffff_ffff_ffff, 8 <= d, c.n() >= 1,
        forall|j: int| 0 <= j < c.n() ==> room(c.p(j), #[trigger] max_acc@[j] as int),
        n_4 == p@.len(), num_acc@.len() == c.n(), degree == d,
        forall|j: int| 0 <= j < c.n() ==> 1 <= (#[trigger] num_acc@[j]) < max_acc@[j],
        forall|j: int| 0 <= j < c.n() ==> #[trigger] row_ok(&c, acc_f@, p@, q@, j, num_acc@[j] as int, i_4 as int),
//@ loop-start 4
    let ghost tt = i_4 as int;
    let ghost nums = Seq::new(c.n() as nat, |j: int| num_acc@[j] as int);
    proof { assert(c.n() <= 0x00ff_ffff_ffff_ffff) by(nonlinear_arith) requires c.n() * d <= 0x00ff_ffff_ffff_ffff, d >= 1, c.n() >= 0; assert forall|j: int| 0 <= j < c.n() implies #[trigger] row_ok(&c, acc_f@, p@, q@, j, nums[j], tt) by { assert(row_ok(&c, acc_f@, p@, q@, j, num_acc@[j] as int, i_4 as int)); }
        assert forall|j: int| 0 <= j < c.n() implies 0 <= (#[trigger] nums[j]) < max_acc@[j] && room(c.p(j), max_acc@[j] as int) by { assert(1 <= num_acc@[j] < max_acc@[j]); assert(room(c.p(j), max_acc@[j] as int)); }
        assert(p@[tt].d() == d && q@[tt].d() == d && p@[tt].n() == c.n() && q@[tt].n() == c.n());
        let (r1, r2) = (p@[tt].rows()[0], q@[tt].rows()[0]);
    }
//@ loop 5
    invariant
        c.wf(), d == c.d(), ops_ok(&c, p@, q@), *p_first.ctx == c, max_acc@.len() == c.n(), acc_f@.len() == c.n() * d, c.n() * d <= 0x00ff_ffff_ffff_ffff, 8 <= d, c.n() >= 1,
        forall|j: int| 0 <= j < c.n() ==> room(c.p(j), #[trigger] max_acc@[j] as int),
        n_5 == c.n(), l_5 == 0, num_acc@.len() == c.n(), degree == d, nums.len() == c.n(), 0 <= tt < p@.len(),
        forall|j: int| 0 <= j < c.n() ==> 1 <= (#[trigger] nums[j]) < max_acc@[j],
        forall|j: int| 0 <= j < i_5 ==> 1 <= (#[trigger] num_acc@[j]) < max_acc@[j],
        forall|j: int| i_5 <= j < c.n() ==> (#[trigger] num_acc@[j]) as int == nums[j],
        forall|j: int| 0 <= j < i_5 ==> #[trigger] row_ok(&c, acc_f@, p@, q@, j, num_acc@[j] as int, tt + 1),
        forall|j: int| i_5 <= j < c.n() ==> #[trigger] row_ok(&c, acc_f@, p@, q@, j, nums[j] + 1, tt + 1),
//@ loop-start 5
    proof { ge = acc_f@; let j = i_5 as int; assert(c.wf_i(j)); lemma_idx(c.n(), d, j, 0); assert(num_acc@[j] as int == nums[j]); assert(1 <= nums[j] < max_acc@[j]); assert(row_ok(&c, ge, p@, q@, j, nums[j] + 1, tt + 1)); }
    let ghost prev = num_acc@;
//@ loop-end 5
    proof {
        let j = i_5 as int; let hit = nums[j] + 1 == max_acc@[j];
        if hit {
            lemma_row_red(&c, ge, acc_f@, p@, q@, j, nums[j] + 1, tt + 1);
            assert forall|l: int| 0 <= l < j implies #[trigger] row_ok(&c, acc_f@, p@, q@, l, num_acc@[l] as int, tt + 1) by { assert(row_ok(&c, ge, p@, q@, l, prev[l] as int, tt + 1)); lemma_row_frame(&c, ge, acc_f@, p@, q@, l, j, prev[l] as int, tt + 1); }
            assert forall|l: int| j < l < c.n() implies #[trigger] row_ok(&c, acc_f@, p@, q@, l, nums[l] + 1, tt + 1) by { assert(row_ok(&c, ge, p@, q@, l, nums[l] + 1, tt + 1)); lemma_row_frame(&c, ge, acc_f@, p@, q@, l, j, nums[l] + 1, tt + 1); }
        }
        else {
            assert(acc_f@ == ge);
            assert forall|l: int| 0 <= l < j implies #[trigger] row_ok(&c, acc_f@, p@, q@, l, num_acc@[l] as int, tt + 1) by { assert(row_ok(&c, ge, p@, q@, l, prev[l] as int, tt + 1)); }
        }
    }
//@ loop 6
    invariant
        c.wf(), *p_first.ctx == c, l_6 == i_5 * d, n_6 == (i_5 + 1) * d, l_6 <= i_6 <= n_6, 0 <= l_6, n_6 <= acc_f@.len(), acc_f@.len() == ge.len(), 0 <= i_5 < c.n(), qj.wf(), qj.p as int == c.p(i_5 as int),
        forall|x: int| 0 <= x < ge.len() && (x < l_6 || x >= i_6) ==> #[trigger] acc_f@[x] == ge[x],
        forall|x: int| l_6 <= x < i_6 ==> #[trigger] acc_f@[x] == ge[x] as int % c.p(i_5 as int),
//@ loop 7
    invariant
        c.wf(), *p_first.ctx == c, l_7 == i_5 * d, n_7 == (i_5 + 1) * d, l_7 <= i_7 <= n_7, 0 <= l_7, n_7 <= acc_f@.len(), acc_f@.len() == ge.len(), 0 <= i_5 < c.n(), qj.wf(), qj.p as int == c.p(i_5 as int),
        forall|x: int| 0 <= x < ge.len() && (x < l_7 || x >= i_7) ==> #[trigger] acc_f@[x] == ge[x],
        forall|x: int| l_7 <= x < i_7 ==> #[trigger] acc_f@[x] == ge[x] as int % c.p(i_5 as int),
//@ loop-after 4
    proof { assert forall|j: int| 0 <= j < c.n() implies #[trigger] row_eq(&c, acc_f@, p@, q@, j) by { lemma_row_eq(&c, acc_f@, p@, q@, j, num_acc@[j] as int); } }
//@ loop 8
    invariant
        c.wf(), d == c.d(), ops_ok(&c, p@, q@), *p_first.ctx == c, max_acc@.len() == c.n(), acc_f@.len() == c.n() * d, c.n() * d <= 0x00ff_ffff_ffff_ffff, 8 <= d, c.n() >= 1,
        forall|j: int| 0 <= j < c.n() ==> room(c.p(j), #[trigger] max_acc@[j] as int),
        n_8 == p@.len(), forall|j: int| 0 <= j < c.n() ==> p@.len() <= #[trigger] max_acc@[j],
        forall|j: int| 0 <= j < c.n() ==> #[trigger] row_ok(&c, acc_f@, p@, q@, j, i_8 as int, i_8 as int),
//@ loop-start 8
    let ghost tt = i_8 as int;
    let ghost nums = Seq::new(c.n() as nat, |j: int| i_8 as int);
    proof { assert forall|j: int| 0 <= j < c.n() implies #[trigger] row_ok(&c, acc_f@, p@, q@, j, nums[j], tt) by { assert(row_ok(&c, acc_f@, p@, q@, j, i_8 as int, i_8 as int)); }
        assert forall|j: int| 0 <= j < c.n() implies 0 <= (#[trigger] nums[j]) < max_acc@[j] && room(c.p(j), max_acc@[j] as int) by { assert(p@.len() <= max_acc@[j]); assert(room(c.p(j), max_acc@[j] as int)); }
        assert(p@[tt].d() == d && q@[tt].d() == d && p@[tt].n() == c.n() && q@[tt].n() == c.n());
        let (r1, r2) = (p@[tt].rows()[0], q@[tt].rows()[0]);
    }
//@ loop-end 8
    proof { assert forall|j: int| 0 <= j < c.n() implies #[trigger] row_ok(&c, acc_f@, p@, q@, j, i_8 + 1, i_8 + 1) by { assert(row_ok(&c, acc_f@, p@, q@, j, nums[j] + 1, tt + 1)); } }
//@ loop-after 8
    proof { assert forall|j: int| 0 <= j < c.n() implies #[trigger] row_eq(&c, acc_f@, p@, q@, j) by { lemma_row_eq(&c, acc_f@, p@, q@, j, p@.len() as int); } }
//@ loop 9
    invariant
        c.wf(), d == c.d(), *p_first.ctx == c, n_9 == c.n(), dims(coeffs.rows@, c.n(), d), flat_of(ge, acc.rows@, d), acc.rows@.len() == c.n(), forall|j: int| 0 <= j < c.n() ==> (#[trigger] acc.rows@[j])@.len() == d,
        forall|j: int, k: int| 0 <= j < i_9 && 0 <= k < d ==> (#[trigger] coeffs.rows@[j]@[k]) as int == at2(ge, d, j, k) as int % c.p(j),
//@ loop-start 9
    let ghost cpre = coeffs.rows@;
    proof { assert(c.wf_i(i_9 as int)); let r = cpre[i_9 as int]; let r2 = acc.rows@[i_9 as int]; }
//@ loop-end 9
    proof {
        assert forall|j: int, k: int| 0 <= j < i_9 + 1 && 0 <= k < d implies (#[trigger] coeffs.rows@[j]@[k]) as int == at2(ge, d, j, k) as int % c.p(j) by {
            if j == i_9 { assert(acc.rows@[j]@[k] == at2(ge, d, j, k)); let r = coeffs.rows@[j]; assert(r@[k] as int == acc.rows@[j]@[k] as int % c.p(j)); }
            else { let r = cpre[j]; assert(coeffs.rows@[j] == cpre[j]); assert(cpre[j]@[k] as int == at2(ge, d, j, k) as int % c.p(j)); }
        }
    }
//@ loop 10
    invariant
        c.wf(), d == c.d(), *p_first.ctx == c, i_9 < c.n(), n_10 == d, dims(coeffs.rows@, c.n(), d), acc.rows@.len() == c.n(), acc.rows@[i_9 as int]@.len() == d, cpre.len() == c.n(), c.q@[i_9 as int].wf(), c.q@[i_9 as int].p as int == c.p(i_9 as int),
        forall|j: int| 0 <= j < c.n() && j != i_9 ==> #[trigger] coeffs.rows@[j] == cpre[j],
        forall|k: int| 0 <= k < i_10 ==> #[trigger] coeffs.rows@[i_9 as int]@[k] as int == acc.rows@[i_9 as int]@[k] as int % c.p(i_9 as int),
//@ loop 11
    invariant
        c.wf(), d == c.d(), *p_first.ctx == c, i_9 < c.n(), n_11 == d, dims(coeffs.rows@, c.n(), d), acc.rows@.len() == c.n(), acc.rows@[i_9 as int]@.len() == d, cpre.len() == c.n(), c.q@[i_9 as int].wf(), c.q@[i_9 as int].p as int == c.p(i_9 as int),
        forall|j: int| 0 <= j < c.n() && j != i_9 ==> #[trigger] coeffs.rows@[j] == cpre[j],
        forall|k: int| 0 <= k < i_11 ==> #[trigger] coeffs.rows@[i_9 as int]@[k] as int == acc.rows@[i_9 as int]@[k] as int % c.p(i_9 as int),
//@ ret-hint
    proof { if r_ is Ok { lemma_dot(&c, ge, p@, q@, &r_->Ok_0); } }
//@ end
/// the sum of the products, as the operators compute it
pub open spec fn dfold(p: Seq<&Poly<Ntt>>, q: Seq<&Poly<Ntt>>, t: int) -> Poly<Ntt>
    decreases t,
{ if t <= 1 { pmul(*p[0], *q[0]) } else { padd(dfold(p, q, t - 1), pmul(*p[t - 1], *q[t - 1])) } }
pub proof fn lemma_dfold(c: &Context, p: Seq<&Poly<Ntt>>, q: Seq<&Poly<Ntt>>, t: int)
    requires ops_ok(c, p, q), 1 <= t <= p.len(),
    ensures dfold(p, q, t).wf(), same(&*dfold(p, q, t).ctx, c), forall|j: int, k: int| 0 <= j < c.n() && 0 <= k < c.d() ==> (#[trigger] dfold(p, q, t).rows()[j]@[k]) as int == dsum(p, q, j, k, t) % c.p(j),
    decreases t,
{
    let f = dfold(p, q, t); let m = pmul(*p[t - 1], *q[t - 1]);
    assert(p[t - 1].wf() && q[t - 1].wf() && p[t - 1].like(q[t - 1]));
    assert(m.wf() && m.ctx == p[t - 1].ctx);
    if t > 1 { lemma_dfold(c, p, q, t - 1); assert(dfold(p, q, t - 1).like(&m)); }
    assert forall|j: int, k: int| 0 <= j < c.n() && 0 <= k < c.d() implies (#[trigger] f.rows()[j]@[k]) as int == dsum(p, q, j, k, t) % c.p(j) by {
        assert(c.wf_i(j)); let pj = c.p(j);
        assert(p[t - 1].p(j) == pj && m.n() == c.n() && m.d() == c.d());
        let (mr, fr) = (m.rows()[j]@, f.rows()[j]@);
        let z = p[t - 1].rows()[j]@[k] * q[t - 1].rows()[j]@[k];
        assert(p[t - 1].rows()[j]@.len() == c.d());
        assert(rmul(mr, p[t - 1].rows()[j]@, q[t - 1].rows()[j]@, pj));
        assert(mr[k] == z % (pj));
        assert(dsum(p, q, j, k, t) == dsum(p, q, j, k, t - 1) + z);
        if t > 1 {
            let g = dfold(p, q, t - 1);
            assert(g.rows()[j]@[k] as int == dsum(p, q, j, k, t - 1) % pj);
            let gr = g.rows()[j]@;
            assert(gr.len() == c.d());
            assert(radd(fr, gr, mr, g.p(j))); assert(g.p(j) == pj);
            assert(fr[k] == (gr[k] + mr[k]) % pj);
            lemma_add_mod_noop(dsum(p, q, j, k, t - 1), z as int, pj);
        } else { assert(dsum(p, q, j, k, 0) == 0); }
    }
}
/// the dot product is the sum of the products
pub proof fn lemma_dot_is_sum(p: Seq<&Poly<Ntt>>, q: Seq<&Poly<Ntt>>, r: &Poly<Ntt>)
    requires p.len() > 0, ops_ok(&*r.ctx, p, q), r.wf(), is_dot(p, q, r),
    ensures ({ let f = dfold(p, q, p.len() as int); f.like(r) && forall|j: int, k: int| 0 <= j < r.n() && 0 <= k < r.d() ==> (#[trigger] r.rows()[j]@[k]) == f.rows()[j]@[k] }),
{
    lemma_dfold(&*r.ctx, p, q, p.len() as int);
    reveal(is_dot);
    let f = dfold(p, q, p.len() as int);
    assert forall|j: int, k: int| 0 <= j < r.n() && 0 <= k < r.d() implies (#[trigger] r.rows()[j]@[k]) == f.rows()[j]@[k] by {
        assert(r.rows()[j]@[k] as int == dsum(p, q, j, k, p.len() as int) % r.p(j)); assert(f.rows()[j]@[k] as int == dsum(p, q, j, k, p.len() as int) % r.ctx.p(j));
    }
}
