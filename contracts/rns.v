//@ import bigops
//@ import zqnew
//@ import modclone
// ---------------------------------------------------------------------------
// fhe-math/src/rns/mod.rs : residue number system context (C05)
// ---------------------------------------------------------------------------
use vstd::arithmetic::div_mod::*;
use vstd::arithmetic::mul::*;
use core::cmp::Ordering;
use vstd::std_specs::convert::*;
pub type BigUintDig = BigUint;
pub type BigIntDig = BigInt;

pub open spec fn bez(a: int, b: int, u: int, v: int) -> bool { u * a + v * b == 1 }
/// a and b are coprime (Bezout)
#[verifier::opaque]
pub open spec fn coprime(a: int, b: int) -> bool { exists|u: int, v: int| #[trigger] bez(a, b, u, v) }
impl From<i32> for BigInt { #[verifier::external_body] fn from(x: i32) -> BigInt { unimplemented!() } }
impl FromSpecImpl<i32> for BigInt {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(x: i32) -> BigInt { BigInt { g: Ghost(x as int) } }
}
/// BigIntDig::cmp(..) != Ordering::Equal
impl BigInt {
    #[verifier::external_body]
    pub fn cmp(&self, o: &BigInt) -> (r: Ordering)
        ensures r == Ordering::Equal <==> self.g@ == o.g@,
    { unimplemented!() }
}
impl BigUint {
    /// num_bigint_dig ExtendedGcd: assumed contract (the first component is the gcd: it is 1
    /// exactly for coprime numbers).
    #[verifier::external_body]
    pub fn extended_gcd(self, o: &BigUint) -> (r: (BigInt, BigInt, BigInt))
        ensures r.0.g@ == 1 <==> coprime(self.v() as int, o.v() as int),
    { unimplemented!() }
    /// num_bigint_dig ModInverse by reference
    #[verifier::external_body]
    pub fn mod_inverse_ref(self, m: &BigUint) -> (r: Option<BigInt>)
        requires m.v() >= 2,
        ensures
            r is Some <==> exists|x: int| #[trigger] is_inv(self.v() as int, x, m.v() as int),
            r matches Some(x) ==> 0 <= x.g@ < m.v() && is_inv(self.v() as int, x.g@, m.v() as int),
    { unimplemented!() }
}
pub assume_specification<T: Clone> [<[T] as std::borrow::ToOwned>::to_owned] (x: &[T]) -> (r: Vec<T>)
    ensures r@ == x@;

//@ struct crates/fhe-math/src/rns/mod.rs RnsContext

/// product of the moduli
pub open spec fn prodm(s: Seq<u64>) -> nat
    decreases s.len(),
{ if s.len() == 0 { 1 } else { prodm(s.drop_last()) * s.last() as nat } }
/// product of all moduli but the i-th
pub open spec fn prodx(s: Seq<u64>, i: int) -> nat
    decreases s.len(),
{
    if s.len() == 0 { 1 }
    else if i == s.len() - 1 { prodm(s.drop_last()) }
    else { prodx(s.drop_last(), i) * s.last() as nat }
}
pub open spec fn pairwise(s: Seq<u64>) -> bool {
    forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && i != j ==> coprime(#[trigger] s[i] as int, #[trigger] s[j] as int)
}
pub open spec fn inrange(s: Seq<u64>) -> bool { forall|i: int| 0 <= i < s.len() ==> 2 <= #[trigger] s[i] < 0x4000_0000_0000_0000 }
/// Sum of r[k] * g[k] for k < n
pub open spec fn sumg(r: Seq<u64>, g: Seq<BigUint>, n: int) -> nat
    decreases n,
{ if n <= 0 { 0 } else { sumg(r, g, n - 1) + g[n - 1].v() * r[n - 1] as nat } }

impl RnsContext {
    pub open spec fn n(&self) -> int { self.moduli_u64@.len() as int }
    pub open spec fn m(&self, i: int) -> int { self.moduli_u64@[i] as int }
    pub open spec fn q(&self) -> int { self.product.v() as int }
    pub open spec fn wf_i(&self, i: int) -> bool {
        &&& self.moduli@[i].wf() && self.moduli@[i].p == self.moduli_u64@[i]
        &&& self.q_star@[i].v() == prodx(self.moduli_u64@, i)
        &&& self.q_tilde@[i] < self.moduli_u64@[i]
        &&& is_inv(self.q_star@[i].v() as int, self.q_tilde@[i] as int, self.m(i))
        &&& self.q_tilde_shoup@[i] == shoup_of(self.q_tilde@[i] as int, self.m(i))
        &&& self.garner@[i].v() == self.q_star@[i].v() * self.q_tilde@[i] as nat
    }
    pub open spec fn wf(&self) -> bool {
        let n = self.moduli_u64@.len();
        &&& n >= 1
        &&& self.moduli@.len() == n && self.q_tilde@.len() == n && self.q_tilde_shoup@.len() == n
        &&& self.q_star@.len() == n && self.garner@.len() == n
        &&& inrange(self.moduli_u64@) && pairwise(self.moduli_u64@)
        &&& self.product.v() == prodm(self.moduli_u64@)
        &&& forall|i: int| 0 <= i < n ==> #[trigger] self.wf_i(i)
    }
}

// ---- lemmas -----------------------------------------------------------------
pub proof fn lemma_prod_pos(s: Seq<u64>)
    requires inrange(s),
    ensures prodm(s) >= 1,
    decreases s.len(),
{
    if s.len() > 0 {
        lemma_prod_pos(s.drop_last());
        let a = prodm(s.drop_last()) as int;
        let b = s.last() as int;
        assert(a * b >= 1) by(nonlinear_arith) requires a >= 1, b >= 2;
    }
}
pub proof fn lemma_prodx(s: Seq<u64>, i: int)
    requires 0 <= i < s.len(),
    ensures prodm(s) == prodx(s, i) * s[i] as nat,
    decreases s.len(),
{
    if i != s.len() - 1 {
        let d = s.drop_last();
        lemma_prodx(d, i);
        let (a, b, c) = (prodx(d, i) as int, s[i] as int, s.last() as int);
        assert((a * b) * c == (a * c) * b) by(nonlinear_arith);
    }
}
pub proof fn lemma_cop_mul(a: int, b: int, c: int)
    requires coprime(a, c), coprime(b, c),
    ensures coprime(a * b, c),
{
    reveal(coprime);
    let (u, v) = choose|u: int, v: int| #[trigger] bez(a, c, u, v);
    let (x, y) = choose|x: int, y: int| #[trigger] bez(b, c, x, y);
    let (p, q, r, t) = (u * a, v * c, x * b, y * c);
    let w = p * y + v * r + v * t;
    assert((p + q) * (r + t) == p * r + p * t + q * r + q * t) by(nonlinear_arith);
    assert(1 * 1 == (p + q) * (r + t));
    assert((u * a) * (x * b) == (u * x) * (a * b)) by(nonlinear_arith);
    assert(p * (y * c) == (p * y) * c) by(nonlinear_arith);
    assert((v * c) * r == (v * r) * c) by(nonlinear_arith);
    assert((v * c) * t == (v * t) * c) by(nonlinear_arith);
    assert((p * y + v * r + v * t) * c == (p * y) * c + (v * r) * c + (v * t) * c) by(nonlinear_arith);
    assert(bez(a * b, c, u * x, w));
}
pub proof fn lemma_cop_one(c: int)
    ensures coprime(1, c),
{ reveal(coprime); assert(bez(1, c, 1, 0)); }
pub proof fn lemma_cop_sym(a: int, b: int)
    requires coprime(a, b),
    ensures coprime(b, a),
{
    reveal(coprime);
    let (u, v) = choose|u: int, v: int| #[trigger] bez(a, b, u, v);
    assert(bez(b, a, v, u));
}
/// a number coprime to every element is coprime to the product
pub proof fn lemma_cop_prodm(s: Seq<u64>, c: int)
    requires forall|i: int| 0 <= i < s.len() ==> coprime(#[trigger] s[i] as int, c),
    ensures coprime(prodm(s) as int, c),
    decreases s.len(),
{
    if s.len() == 0 { lemma_cop_one(c); }
    else {
        let d = s.drop_last();
        assert forall|i: int| 0 <= i < d.len() implies coprime(#[trigger] d[i] as int, c) by { assert(d[i] == s[i]); }
        lemma_cop_prodm(d, c);
        assert(coprime(s[s.len() - 1] as int, c));
        lemma_cop_mul(prodm(d) as int, s.last() as int, c);
    }
}
pub proof fn lemma_cop_prodx(s: Seq<u64>, i: int, c: int)
    requires 0 <= i < s.len(), forall|k: int| 0 <= k < s.len() && k != i ==> coprime(#[trigger] s[k] as int, c),
    ensures coprime(prodx(s, i) as int, c),
    decreases s.len(),
{
    let d = s.drop_last();
    if i == s.len() - 1 {
        assert forall|k: int| 0 <= k < d.len() implies coprime(#[trigger] d[k] as int, c) by { assert(d[k] == s[k]); }
        lemma_cop_prodm(d, c);
    } else {
        assert forall|k: int| 0 <= k < d.len() && k != i implies coprime(#[trigger] d[k] as int, c) by { assert(d[k] == s[k]); }
        lemma_cop_prodx(d, i, c);
        assert(coprime(s[s.len() - 1] as int, c));
        lemma_cop_mul(prodx(d, i) as int, s.last() as int, c);
    }
}
/// coprime numbers have modular inverses
pub proof fn lemma_cop_inv(a: int, m: int)
    requires coprime(a, m), m >= 2,
    ensures exists|x: int| #[trigger] is_inv(a, x, m),
{
    reveal(coprime);
    let (u, v) = choose|u: int, v: int| #[trigger] bez(a, m, u, v);
    assert(a * u == m * (-v) + 1) by(nonlinear_arith) requires u * a + v * m == 1;
    lemma_mod_multiples_vanish(-v, 1, m);
    lemma_small_mod(1, m as nat);
    assert(is_inv(a, u, m));
}
/// a modulus divides the product of all but another one
pub proof fn lemma_div_prodm(s: Seq<u64>, j: int)
    requires 0 <= j < s.len(), inrange(s),
    ensures prodm(s) as int % s[j] as int == 0,
{
    lemma_prodx(s, j);
    lemma_mod_multiples_basic(prodx(s, j) as int, s[j] as int);
}
pub proof fn lemma_div_prodx(s: Seq<u64>, i: int, j: int)
    requires 0 <= i < s.len(), 0 <= j < s.len(), i != j, inrange(s),
    ensures prodx(s, i) as int % s[j] as int == 0,
    decreases s.len(),
{
    let d = s.drop_last();
    assert(inrange(d)) by { assert forall|k: int| 0 <= k < d.len() implies 2 <= #[trigger] d[k] < 0x4000_0000_0000_0000 by { assert(d[k] == s[k]); } }
    let m = s[j] as int;
    if i == s.len() - 1 { assert(d[j] == s[j]); lemma_div_prodm(d, j); }
    else if j == s.len() - 1 { lemma_mod_multiples_basic(prodx(d, i) as int, m); }
    else {
        assert(d[j] == s[j]);
        lemma_div_prodx(d, i, j);
        let a = prodx(d, i) as int;
        lemma_mul_mod_noop_left(a, s.last() as int, m);
        assert(0 * s.last() as int == 0);
        lemma_small_mod(0, m as nat);
    }
}
/// Garner coefficients: 1 modulo their own modulus, 0 modulo the others
pub proof fn lemma_garner(c: &RnsContext, i: int, j: int)
    requires c.wf(), 0 <= i < c.n(), 0 <= j < c.n(),
    ensures c.garner@[i].v() as int % c.m(j) == (if i == j { 1int } else { 0int }),
{
    assert(c.wf_i(i));
    let a = c.q_star@[i].v() as int;
    let t = c.q_tilde@[i] as int;
    if i != j {
        lemma_div_prodx(c.moduli_u64@, i, j);
        lemma_mul_mod_noop_left(a, t, c.m(j));
        assert(0 * t == 0);
        lemma_small_mod(0, c.m(j) as nat);
    }
}
pub proof fn lemma_sumg_mod(c: &RnsContext, r: Seq<u64>, j: int, n: int)
    requires c.wf(), 0 <= j < c.n(), 0 <= n <= c.n(), r.len() == c.n(),
    ensures sumg(r, c.garner@, n) as int % c.m(j) == (if j < n { r[j] as int % c.m(j) } else { 0 }),
    decreases n,
{
    let m = c.m(j);
    assert(m >= 2);
    if n == 0 { lemma_small_mod(0, m as nat); }
    else {
        lemma_sumg_mod(c, r, j, n - 1);
        lemma_garner(c, n - 1, j);
        let g = c.garner@[n - 1].v() as int;
        let x = r[n - 1] as int;
        lemma_mul_mod_noop_left(g, x, m);
        assert(0 * x == 0 && 1 * x == x);
        let s = sumg(r, c.garner@, n - 1) as int;
        lemma_add_mod_noop(s, g * x, m);
        lemma_small_mod(0, m as nat);
        if j < n - 1 { lemma_mod_twice(r[j] as int, m); }
        else { lemma_mod_twice(x, m); }
    }
}
pub proof fn lemma_mod_of_mod(a: int, k: int, m: int)
    requires m > 0, k > 0, k % m == 0,
    ensures (a % k) % m == a % m,
{
    lemma_fundamental_div_mod(a, k);
    lemma_fundamental_div_mod(k, m);
    let (x, y) = (a / k, k / m);
    assert(a == m * (y * x) + a % k) by(nonlinear_arith) requires a == k * x + a % k, k == m * y;
    lemma_mod_multiples_vanish(y * x, a % k, m);
}
/// the value of lift has the given residues
pub proof fn lemma_lift(c: &RnsContext, r: Seq<u64>, j: int)
    requires c.wf(), r.len() == c.n(), 0 <= j < c.n(),
    ensures (sumg(r, c.garner@, c.n()) as int % c.q()) % c.m(j) == r[j] as int % c.m(j), c.q() >= 1,
{
    lemma_prod_pos(c.moduli_u64@);
    lemma_sumg_mod(c, r, j, c.n());
    lemma_div_prodm(c.moduli_u64@, j);
    lemma_mod_of_mod(sumg(r, c.garner@, c.n()) as int, c.q(), c.m(j));
}
pub open spec fn dvd(a: int, d: int) -> bool { exists|x: int| #[trigger] (a * x) == d }
pub proof fn lemma_dvd_cop(a: int, b: int, d: int)
    requires coprime(a, b), dvd(a, d), dvd(b, d),
    ensures dvd(a * b, d),
{
    reveal(coprime);
    let (u, v) = choose|u: int, v: int| #[trigger] bez(a, b, u, v);
    let x = choose|x: int| #[trigger] (a * x) == d;
    let y = choose|y: int| #[trigger] (b * y) == d;
    let z = u * y + v * x;
    assert((a * b) * (u * y + v * x) == (a * b) * (u * y) + (a * b) * (v * x)) by(nonlinear_arith);
    assert((a * b) * (u * y) == u * a * (b * y)) by(nonlinear_arith);
    assert((a * b) * (v * x) == v * b * (a * x)) by(nonlinear_arith);
    assert(u * a * d + v * b * d == (u * a + v * b) * d) by(nonlinear_arith);
    assert((a * b) * z == d);
}
pub proof fn lemma_dvd_prodm(s: Seq<u64>, d: int)
    requires inrange(s), pairwise(s), forall|k: int| 0 <= k < s.len() ==> dvd(#[trigger] s[k] as int, d),
    ensures dvd(prodm(s) as int, d),
    decreases s.len(),
{
    if s.len() == 0 { assert(1 * d == d); }
    else {
        let e = s.drop_last();
        let l = s.last() as int;
        assert forall|k: int| 0 <= k < e.len() implies 2 <= #[trigger] e[k] < 0x4000_0000_0000_0000 && dvd(e[k] as int, d) by { assert(e[k] == s[k]); }
        assert(pairwise(e)) by {
            assert forall|i: int, j: int| 0 <= i < e.len() && 0 <= j < e.len() && i != j implies coprime(#[trigger] e[i] as int, #[trigger] e[j] as int) by { assert(e[i] == s[i] && e[j] == s[j]); }
        }
        lemma_dvd_prodm(e, d);
        assert forall|i: int| 0 <= i < e.len() implies coprime(#[trigger] e[i] as int, l) by { assert(e[i] == s[i] && l == s[s.len() - 1]); }
        lemma_cop_prodm(e, l);
        assert(dvd(s[s.len() - 1] as int, d));
        lemma_dvd_cop(prodm(e) as int, l, d);
    }
}
/// Chinese remainder theorem: residues determine the integer below the product
pub proof fn lemma_crt_unique(c: &RnsContext, x: int, y: int)
    requires c.wf(), 0 <= x < c.q(), 0 <= y < c.q(), forall|j: int| 0 <= j < c.n() ==> x % #[trigger] c.m(j) == y % c.m(j),
    ensures x == y,
{
    let s = c.moduli_u64@;
    assert forall|k: int| 0 <= k < s.len() implies dvd(#[trigger] s[k] as int, x - y) by {
        let m = c.m(k);
        lemma_fundamental_div_mod(x, m);
        lemma_fundamental_div_mod(y, m);
        let (a, b) = (x / m, y / m);
        assert(m * (a - b) == x - y) by(nonlinear_arith) requires x == m * a + x % m, y == m * b + y % m, x % m == y % m;
    }
    lemma_dvd_prodm(s, x - y);
    let z = choose|z: int| #[trigger] (prodm(s) as int * z) == x - y;
    assert(z == 0) by(nonlinear_arith) requires c.q() * z == x - y, -c.q() < x - y < c.q();
    assert(c.q() * 0 == 0);
}
/// lift(project(a)) == a mod product
pub proof fn lemma_lift_project(c: &RnsContext, a: int, r: Seq<u64>)
    requires c.wf(), r.len() == c.n(), forall|j: int| 0 <= j < c.n() ==> #[trigger] r[j] as int == a % c.m(j),
    ensures sumg(r, c.garner@, c.n()) as int % c.q() == a % c.q(),
{
    lemma_prod_pos(c.moduli_u64@);
    let x = sumg(r, c.garner@, c.n()) as int % c.q();
    let y = a % c.q();
    lemma_mod_bound(sumg(r, c.garner@, c.n()) as int, c.q());
    lemma_mod_bound(a, c.q());
    assert forall|j: int| 0 <= j < c.n() implies x % #[trigger] c.m(j) == y % c.m(j) by {
        lemma_lift(c, r, j);
        lemma_div_prodm(c.moduli_u64@, j);
        lemma_mod_of_mod(a, c.q(), c.m(j));
        assert(r[j] as int == a % c.m(j));
        lemma_mod_twice(a, c.m(j));
    }
    lemma_crt_unique(c, x, y);
}
pub proof fn lemma_prodm_push(s: Seq<u64>, i: int)
    requires 0 <= i < s.len(),
    ensures prodm(s.take(i + 1)) == prodm(s.take(i)) * s[i] as nat,
{
    assert(s.take(i + 1).drop_last() =~= s.take(i));
    assert(s.take(i + 1).last() == s[i]);
}
/// what the map closure of `new` relies on for modulus i
pub proof fn lemma_new_i(s: Seq<u64>, i: int)
    requires inrange_at(s, i), 0 <= i < s.len(), pairwise(s),
    ensures prodm(s) as int / s[i] as int == prodx(s, i), exists|x: int| #[trigger] is_inv(prodx(s, i) as int, x, s[i] as int),
{
    lemma_prodx(s, i);
    lemma_div_multiples_vanish(prodx(s, i) as int, s[i] as int);
    assert(prodx(s, i) as int * s[i] as int == s[i] as int * prodx(s, i) as int) by(nonlinear_arith);
    lemma_cop_prodx(s, i, s[i] as int);
    lemma_cop_inv(prodx(s, i) as int, s[i] as int);
}
pub open spec fn inrange_at(s: Seq<u64>, i: int) -> bool { 2 <= s[i] < 0x4000_0000_0000_0000 }

pub open spec fn row_ok(s: Seq<u64>, i: int, m: Modulus, qt: u64, qs: u64, q: BigUint, g: BigUint) -> bool {
    &&& m.wf() && m.p == s[i]
    &&& q.v() == prodx(s, i)
    &&& qt < s[i]
    &&& is_inv(q.v() as int, qt as int, s[i] as int)
    &&& qs == shoup_of(qt as int, s[i] as int)
    &&& g.v() == q.v() * qt as nat
}
//@ fn crates/fhe-math/src/rns/mod.rs RnsContext::new
//@ ret r
//@ subst .mod_inverse( => .mod_inverse_ref(
//@ spec
    ensures
        r is Ok <==> moduli_u64@.len() > 0 && inrange(moduli_u64@) && pairwise(moduli_u64@),
        r matches Ok(c) ==> c.wf() && c.moduli_u64@ == moduli_u64@,
//@ start
    let ghost s = moduli_u64@;
    proof { assert(s.take(0) =~= Seq::<u64>::empty()); }
//@ loop 0
    invariant
        s == moduli_u64@,
        product.v() == prodm(s.take(i_0 as int)), product_dig.v() == product.v(),
        forall|a: int, b: int| 0 <= a < i_0 && 0 <= b < s.len() && a != b ==> coprime(#[trigger] s[a] as int, #[trigger] s[b] as int),
//@ loop-end 0
    proof { lemma_prodm_push(s, i_0 as int); }
//@ loop 1
    invariant
        s == moduli_u64@, 0 <= i_0 < s.len(),
        forall|b: int| 0 <= b < i_1 && i_0 != b ==> coprime(s[i_0 as int] as int, #[trigger] s[b] as int),
//@ loop-before 2
    proof { assert(s.take(s.len() as int) =~= s); }
//@ loop 2
    invariant
        s == moduli_u64@, pairwise(s),
        product.v() == prodm(s), product_dig.v() == product.v(),
        outa_2@.len() == i_2, outb_2@.len() == i_2, outc_2@.len() == i_2, outd_2@.len() == i_2, oute_2@.len() == i_2,
        forall|k: int| 0 <= k < i_2 ==> #[trigger] row_ok(s, k, outa_2@[k], outb_2@[k], outc_2@[k], outd_2@[k], oute_2@[k]),
//@ loop-start 2
    proof {
        if inrange_at(s, i_2 as int) {
            lemma_new_i(s, i_2 as int);
            let tt = vstd::std_specs::ops::DivSpec::div_spec(&product_dig, moduli_u64[i_2 as int]);
            assert(tt.v() == prodx(s, i_2 as int));
            assert(exists|x: int| #[trigger] is_inv(tt.v() as int, x, s[i_2 as int] as int));
        }
    }
//@ ret-hint
    proof {
        if r_ is Ok {
            let c = r_->Ok_0;
            assert forall|i: int| 0 <= i < s.len() implies #[trigger] c.wf_i(i) by { assert(row_ok(s, i, c.moduli@[i], c.q_tilde@[i], c.q_tilde_shoup@[i], c.q_star@[i], c.garner@[i])); }
            assert forall|i: int| 0 <= i < s.len() implies 2 <= #[trigger] s[i] < 0x4000_0000_0000_0000 by { assert(c.wf_i(i)); }
        }
    }
//@ end

//@ fn crates/fhe-math/src/rns/mod.rs RnsContext::modulus
//@ ret r
//@ spec
    ensures *r == self.product,
//@ end

//@ fn crates/fhe-math/src/rns/mod.rs RnsContext::project
//@ ret r
//@ spec
    requires self.wf(),
    ensures r@.len() == self.n(), forall|j: int| 0 <= j < self.n() ==> #[trigger] r@[j] as int == a.v() as int % self.m(j),
//@ loop 0
    invariant
        self.wf(), out_0@.len() == i_0,
        forall|j: int| 0 <= j < i_0 ==> #[trigger] out_0@[j] as int == a.v() as int % self.m(j),
//@ end

//@ fn crates/fhe-math/src/rns/mod.rs RnsContext::lift
//@ refs garner
//@ ret r
//@ sig
    pub fn lift(&self, rests: &[u64]) -> (r: BigUint)
//@ spec
    requires self.wf(), rests@.len() == self.n(),
    ensures r.v() as int == sumg(rests@, self.garner@, self.n()) as int % self.q(), r.v() < self.q(),
        forall|j: int| 0 <= j < self.n() ==> (r.v() as int) % #[trigger] self.m(j) == rests@[j] as int % self.m(j),
//@ start
    proof { lemma_prod_pos(self.moduli_u64@); }
//@ loop 0
    invariant
        self.wf(), rests@.len() == self.n(), result.v() == sumg(rests@, self.garner@, i_0 as int),
//@ loop-after 0
    proof {
        assert forall|j: int| 0 <= j < self.n() implies (sumg(rests@, self.garner@, self.n()) as int % self.q()) % #[trigger] self.m(j) == rests@[j] as int % self.m(j) by { lemma_lift(self, rests@, j); }
        lemma_mod_bound(sumg(rests@, self.garner@, self.n()) as int, self.q());
    }
//@ end

//@ fn crates/fhe-math/src/rns/mod.rs RnsContext::get_garner
//@ ret r
//@ spec
    requires self.wf(),
    ensures i < self.n() ==> r == Some(&self.garner@[i as int]), i >= self.n() ==> r is None,
//@ end
