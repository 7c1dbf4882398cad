//@ import modk
// ---------------------------------------------------------------------------
// Mathematics of the negacyclic number-theoretic transform (lemmas only)
// ---------------------------------------------------------------------------
use vstd::arithmetic::div_mod::*;
use vstd::arithmetic::mul::*;
use vstd::arithmetic::power::*;
use vstd::arithmetic::power2::*;

/// sum_{t < cnt} a[j + t len] c^t
pub open spec fn rem(a: Seq<int>, len: int, c: int, j: int, cnt: nat) -> int
    decreases cnt,
{
    if cnt == 0 { 0 } else {
        rem(a, len, c, j, (cnt - 1) as nat) + a[j + (cnt - 1) * len] * pow(c, (cnt - 1) as nat)
    }
}
/// value of the polynomial with coefficients a at the point c
pub open spec fn eval(a: Seq<int>, c: int) -> int { rem(a, 1, c, 0, a.len()) }

pub proof fn lemma_split(a: Seq<int>, l: int, w: int, j: int, c: nat)
    ensures rem(a, l, w, j, 2 * c) == rem(a, 2 * l, w * w, j, c) + w * rem(a, 2 * l, w * w, j + l, c),
    decreases c,
{
    if c > 0 {
        let d = (c - 1) as nat;
        lemma_split(a, l, w, j, d);
        let e = 2 * d;
        assert(rem(a, l, w, j, 2 * c) == rem(a, l, w, j, (e + 1) as nat) + a[j + (e + 1) * l] * pow(w, (e + 1) as nat));
        assert(rem(a, l, w, j, (e + 1) as nat) == rem(a, l, w, j, e as nat) + a[j + e * l] * pow(w, e as nat));
        assert(pow(w, (e + 1) as nat) == w * pow(w, e as nat)) by { reveal(pow); }
        lemma_pow_multiplies(w, 2, d);
        assert(pow(w, 2) == w * w) by { reveal_with_fuel(pow, 3); }
        assert(pow(w, e as nat) == pow(w * w, d));
        let x = pow(w * w, d);
        assert(j + e * l == j + (c - 1) * (2 * l)) by(nonlinear_arith) requires e == 2 * (c - 1);
        assert(j + (e + 1) * l == (j + l) + (c - 1) * (2 * l)) by(nonlinear_arith) requires e == 2 * (c - 1);
        let u = a[j + e * l];
        let v = a[j + (e + 1) * l];
        let r1 = rem(a, 2 * l, w * w, j, d);
        let r2 = rem(a, 2 * l, w * w, j + l, d);
        assert(rem(a, 2 * l, w * w, j, c) == r1 + u * x);
        assert(rem(a, 2 * l, w * w, j + l, c) == r2 + v * x);
        assert((r1 + w * r2) + u * x + v * (w * x) == (r1 + u * x) + w * (r2 + v * x)) by(nonlinear_arith);
    } else {
        assert(w * 0 == 0);
    }
}
pub proof fn lemma_rem_cong(a: Seq<int>, len: int, c: int, d: int, j: int, cnt: nat, p: int)
    requires 0 < p, eqm(c, d, p),
    ensures eqm(rem(a, len, c, j, cnt), rem(a, len, d, j, cnt), p),
    decreases cnt,
{
    eqm_refl(0, p);
    if cnt > 0 {
        let k = (cnt - 1) as nat;
        lemma_rem_cong(a, len, c, d, j, k, p);
        eqm_pow(c, d, k, p);
        let v = a[j + (cnt - 1) * len];
        eqm_mulc(pow(c, k), pow(d, k), v, p);
        eqm_add(rem(a, len, c, j, k), rem(a, len, d, j, k), v * pow(c, k), v * pow(d, k), p);
    }
}
/// constants of the tree of factors X^len - cst(k) of X^n + 1
pub open spec fn cst(om: Seq<u64>, k: int) -> int {
    if k <= 1 { -1 } else if k % 2 == 0 { om[k / 2] as int } else { -(om[k / 2] as int) }
}
pub open spec fn tree_ok(om: Seq<u64>, n: int, p: int) -> bool {
    forall|k: int| 1 <= k < n ==> eqm((#[trigger] om[k]) as int * om[k] as int, cst(om, k), p)
}
proof fn lemma_cst(om: Seq<u64>, k: int)
    requires 1 <= k,
    ensures cst(om, 2 * k) == om[k] as int, cst(om, 2 * k + 1) == -(om[k] as int),
{
    lemma_fundamental_div_mod_converse(2 * k, 2, k, 0);
    lemma_fundamental_div_mod_converse(2 * k + 1, 2, k, 1);
}
/// coefficient x of the residues of a modulo the factors of degree `len`
#[verifier::opaque]
pub open spec fn at(a: Seq<int>, om: Seq<u64>, n: int, x: int, len: int) -> int {
    rem(a, len, cst(om, n / len + x / len), x % len, (n / len) as nat)
}
pub proof fn lemma_divs(n: int, m: int, l: int, b: int, j: int)
    requires 0 < l, 0 < m, n == m * (2 * l), 0 <= b < m, 0 <= j < l,
    ensures ({
        let x = b * (2 * l) + j;
        &&& n / (2 * l) == m && n / l == 2 * m
        &&& x / (2 * l) == b && x % (2 * l) == j && (x + l) / (2 * l) == b && (x + l) % (2 * l) == j + l
        &&& x / l == 2 * b && x % l == j && (x + l) / l == 2 * b + 1 && (x + l) % l == j
        &&& 0 <= x && x + l < n && b * (2 * l) == (2 * b) * l && m + b < n
    }),
{
    let x = b * (2 * l) + j;
    lemma_fundamental_div_mod_converse(n, 2 * l, m, 0);
    assert(n == (2 * m) * l) by(nonlinear_arith) requires n == m * (2 * l);
    lemma_fundamental_div_mod_converse(n, l, 2 * m, 0);
    lemma_fundamental_div_mod_converse(x, 2 * l, b, j);
    lemma_fundamental_div_mod_converse(x + l, 2 * l, b, j + l);
    assert(b * (2 * l) == (2 * b) * l) by(nonlinear_arith);
    assert((2 * b + 1) * l == (2 * b) * l + l) by(nonlinear_arith);
    lemma_fundamental_div_mod_converse(x, l, 2 * b, j);
    lemma_fundamental_div_mod_converse(x + l, l, 2 * b + 1, j);
    assert(b * (2 * l) >= 0) by(nonlinear_arith) requires b >= 0, l > 0;
    assert((b + 1) * (2 * l) <= m * (2 * l)) by(nonlinear_arith) requires b + 1 <= m, l > 0;
    assert((b + 1) * (2 * l) == b * (2 * l) + 2 * l) by(nonlinear_arith);
    assert(m * (2 * l) >= m * 2) by(nonlinear_arith) requires m > 0, l >= 1;
}
proof fn lemma_at_vals(a: Seq<int>, om: Seq<u64>, n: int, m: int, l: int, b: int, j: int)
    requires 0 < l, 0 < m, n == m * (2 * l), 0 <= b < m, 0 <= j < l,
    ensures ({
        let x = b * (2 * l) + j;
        let k = m + b;
        &&& at(a, om, n, x, l) == rem(a, l, om[k] as int, j, (2 * m) as nat)
        &&& at(a, om, n, x + l, l) == rem(a, l, -(om[k] as int), j, (2 * m) as nat)
        &&& at(a, om, n, x, 2 * l) == rem(a, 2 * l, cst(om, k), j, m as nat)
        &&& at(a, om, n, x + l, 2 * l) == rem(a, 2 * l, cst(om, k), j + l, m as nat)
        &&& k < n
    }),
{
    lemma_divs(n, m, l, b, j);
    lemma_cst(om, m + b);
    reveal(at);
    assert(2 * m + 2 * b == 2 * (m + b));
}
proof fn lemma_fwd_alg(a: Seq<int>, l: int, w: int, c: int, j: int, mm: nat, p: int)
    requires 0 < p, eqm(w * w, c, p),
    ensures ({
        let (u, v) = (rem(a, 2 * l, c, j, mm), rem(a, 2 * l, c, j + l, mm));
        &&& eqm(rem(a, l, w, j, 2 * mm), u + w * v, p)
        &&& eqm(rem(a, l, -w, j, 2 * mm), u - w * v, p)
    }),
{
    let (u, v) = (rem(a, 2 * l, c, j, mm), rem(a, 2 * l, c, j + l, mm));
    let (u2, v2) = (rem(a, 2 * l, w * w, j, mm), rem(a, 2 * l, w * w, j + l, mm));
    lemma_rem_cong(a, 2 * l, w * w, c, j, mm, p);
    lemma_rem_cong(a, 2 * l, w * w, c, j + l, mm, p);
    lemma_split(a, l, w, j, mm);
    lemma_split(a, l, -w, j, mm);
    assert((-w) * (-w) == w * w) by(nonlinear_arith);
    assert((-w) * v2 == -(w * v2)) by(nonlinear_arith);
    eqm_mulc(v2, v, w, p);
    eqm_add(u2, u, w * v2, w * v, p);
    assert(u2 + (-(w * v2)) == u2 - w * v2);
}
/// one butterfly of the forward transform
pub proof fn lemma_fwd_step(a: Seq<int>, om: Seq<u64>, n: int, m: int, l: int, b: int, j: int, p: int)
    requires
        0 < p, 0 < l, 0 < m, n == m * (2 * l), 0 <= b < m, 0 <= j < l,
        tree_ok(om, n, p),
    ensures ({
        let x = b * (2 * l) + j;
        let w = om[m + b] as int;
        let (u, v) = (at(a, om, n, x, 2 * l), at(a, om, n, x + l, 2 * l));
        &&& eqm(at(a, om, n, x, l), u + w * v, p)
        &&& eqm(at(a, om, n, x + l, l), u - w * v, p)
    }),
{
    let k = m + b;
    lemma_at_vals(a, om, n, m, l, b, j);
    assert(eqm(om[k] as int * om[k] as int, cst(om, k), p));
    lemma_fwd_alg(a, l, om[k] as int, cst(om, k), j, m as nat, p);
}
pub proof fn lemma_at_start(a: Seq<int>, om: Seq<u64>, n: int, x: int)
    requires 0 <= x < n, a.len() == n,
    ensures at(a, om, n, x, n) == a[x],
{
    reveal(at);
    lemma_fundamental_div_mod_converse(n, n, 1, 0);
    lemma_fundamental_div_mod_converse(x, n, 0, x);
    let c = cst(om, 1);
    assert(rem(a, n, c, x, 1) == rem(a, n, c, x, 0) + a[x + (1 - 1) * n] * pow(c, 0));
    lemma_pow0(c);
    assert((1 - 1) * n == 0);
}
pub proof fn lemma_at_end(a: Seq<int>, om: Seq<u64>, n: int, x: int)
    requires 0 <= x < n, a.len() == n,
    ensures at(a, om, n, x, 1) == eval(a, cst(om, n + x)),
{
    reveal(at);
    lemma_fundamental_div_mod_converse(n, 1, n, 0);
    lemma_fundamental_div_mod_converse(x, 1, x, 0);
}
/// one butterfly of the backward transform: (u, v) holds len/2 times the residues modulo the two children
pub proof fn lemma_bwd_step(a: Seq<int>, om: Seq<u64>, n: int, m: int, l: int, b: int, j: int, z: int, u: int, v: int, p: int)
    requires
        0 < p, 0 < l, 0 < m, n == m * (2 * l), 0 <= b < m, 0 <= j < l,
        tree_ok(om, n, p),
        eqm(z * om[m + b] as int, 1, p),
        eqm(u, l * at(a, om, n, b * (2 * l) + j, l), p),
        eqm(v, l * at(a, om, n, b * (2 * l) + j + l, l), p),
    ensures
        eqm(u + v, (2 * l) * at(a, om, n, b * (2 * l) + j, 2 * l), p),
        eqm((u - v) * z, (2 * l) * at(a, om, n, b * (2 * l) + j + l, 2 * l), p),
{
    lemma_fwd_step(a, om, n, m, l, b, j, p);
    let x = b * (2 * l) + j;
    let w = om[m + b] as int;
    let (r, s) = (at(a, om, n, x, 2 * l), at(a, om, n, x + l, 2 * l));
    let (uu, vv) = (at(a, om, n, x, l), at(a, om, n, x + l, l));
    eqm_mulc(uu, r + w * s, l, p);
    eqm_mulc(vv, r - w * s, l, p);
    eqm_trans(u, l * uu, l * (r + w * s), p);
    eqm_trans(v, l * vv, l * (r - w * s), p);
    eqm_add(u, l * (r + w * s), v, l * (r - w * s), p);
    assert(l * (r + w * s) + l * (r - w * s) == (2 * l) * r) by(nonlinear_arith);
    assert(l * (r + w * s) - l * (r - w * s) == (2 * l) * (w * s)) by(nonlinear_arith);
    eqm_mulc(u - v, (2 * l) * (w * s), z, p);
    assert(((2 * l) * (w * s)) * z == ((2 * l) * s) * (z * w)) by(nonlinear_arith);
    eqm_mulc(z * w, 1, (2 * l) * s, p);
    assert(((2 * l) * s) * 1 == (2 * l) * s);
    eqm_trans((u - v) * z, ((2 * l) * s) * (z * w), (2 * l) * s, p);
}

// ---- one level of butterflies, relating the state to the one at its start ----
pub open spec fn vals(s: Seq<u64>) -> Seq<int> { Seq::new(s.len(), |i: int| s[i] as int) }

pub open spec fn done(x: int, l: int, i: int, j: int) -> bool {
    let b = x / (2 * l);
    let r = x % (2 * l);
    b < i || (b == i && (if r < l { r < j } else { r - l < j }))
}
pub open spec fn fr1(a: Seq<u64>, a0: Seq<u64>, om: Seq<u64>, m: int, l: int, p: int, i: int, j: int, x: int) -> bool {
    if done(x, l, i, j) {
        let w = om[m + x / (2 * l)] as int;
        if x % (2 * l) < l { eqm(a[x] as int, a0[x] + w * a0[x + l], p) }
        else { eqm(a[x] as int, a0[x - l] - w * a0[x], p) }
    } else { a[x] == a0[x] }
}
pub open spec fn frel(a: Seq<u64>, a0: Seq<u64>, om: Seq<u64>, n: int, m: int, l: int, p: int, i: int, j: int) -> bool {
    a.len() == n && a0.len() == n && forall|x: int| 0 <= x < n ==> #[trigger] fr1(a, a0, om, m, l, p, i, j, x)
}
pub open spec fn br1(a: Seq<u64>, a0: Seq<u64>, z: Seq<u64>, k: int, l: int, p: int, i: int, j: int, x: int) -> bool {
    if done(x, l, i, j) {
        let w = z[k + x / (2 * l)] as int;
        if x % (2 * l) < l { eqm(a[x] as int, a0[x] + a0[x + l], p) }
        else { eqm(a[x] as int, (a0[x - l] - a0[x]) * w, p) }
    } else { a[x] == a0[x] }
}
pub open spec fn brel(a: Seq<u64>, a0: Seq<u64>, z: Seq<u64>, n: int, k: int, l: int, p: int, i: int, j: int) -> bool {
    a.len() == n && a0.len() == n && forall|x: int| 0 <= x < n ==> #[trigger] br1(a, a0, z, k, l, p, i, j, x)
}
pub proof fn lemma_done(x: int, n: int, m: int, l: int, i: int, j: int)
    requires 0 < l, 0 < m, n == m * (2 * l), 0 <= x < n, 0 <= i < m, 0 <= j < l,
    ensures
        !done(x, l, 0, 0),
        done(x, l, m, 0),
        done(x, l, i, l) == done(x, l, i + 1, 0),
        done(x, l, i, j + 1) == (done(x, l, i, j) || x == i * (2 * l) + j || x == i * (2 * l) + l + j),
        done(i * (2 * l) + j, l, i, j) == false,
        done(i * (2 * l) + l + j, l, i, j) == false,
        0 <= x / (2 * l) < m, 0 <= x % (2 * l) < 2 * l, x == (x / (2 * l)) * (2 * l) + x % (2 * l),
{
    lemma_divs(n, m, l, i, j);
    lemma_fundamental_div_mod(x, 2 * l);
    let b = x / (2 * l);
    let r = x % (2 * l);
    assert(x == b * (2 * l) + r) by(nonlinear_arith) requires x == (2 * l) * b + r;
    assert(0 <= b) by { lemma_div_pos_is_pos(x, 2 * l); }
    assert(b < m) by(nonlinear_arith) requires x < m * (2 * l), x == b * (2 * l) + r, r >= 0, l > 0;
    assert(i * (2 * l) + l + j == i * (2 * l) + j + l);
}
pub proof fn lemma_frel_start(a: Seq<u64>, om: Seq<u64>, n: int, m: int, l: int, p: int)
    requires a.len() == n, 0 < l, 0 < m, n == m * (2 * l),
    ensures frel(a, a, om, n, m, l, p, 0, 0),
{
    assert forall|x: int| 0 <= x < n implies #[trigger] fr1(a, a, om, m, l, p, 0, 0, x) by {
        lemma_done(x, n, m, l, 0, 0);
    }
}
pub proof fn lemma_frel_next(a: Seq<u64>, a0: Seq<u64>, om: Seq<u64>, n: int, m: int, l: int, p: int, i: int)
    requires frel(a, a0, om, n, m, l, p, i, l), 0 < l, 0 < m, n == m * (2 * l), 0 <= i < m,
    ensures frel(a, a0, om, n, m, l, p, i + 1, 0),
{
    assert forall|x: int| 0 <= x < n implies #[trigger] fr1(a, a0, om, m, l, p, i + 1, 0, x) by {
        lemma_done(x, n, m, l, i, 0);
        assert(fr1(a, a0, om, m, l, p, i, l, x));
    }
}
pub proof fn lemma_frel_step(a: Seq<u64>, a1: Seq<u64>, a0: Seq<u64>, om: Seq<u64>, n: int, m: int, l: int, p: int, i: int, j: int)
    requires
        frel(a, a0, om, n, m, l, p, i, j), 0 < l, 0 < m, n == m * (2 * l), 0 <= i < m, 0 <= j < l,
        a1.len() == n,
        ({
            let x = i * (2 * l) + j;
            let w = om[m + i] as int;
            &&& eqm(a1[x] as int, a[x] + w * a[x + l], p)
            &&& eqm(a1[x + l] as int, a[x] - w * a[x + l], p)
            &&& forall|y: int| 0 <= y < n && y != x && y != x + l ==> #[trigger] a1[y] == a[y]
        }),
    ensures frel(a1, a0, om, n, m, l, p, i, j + 1),
{
    let x0 = i * (2 * l) + j;
    lemma_divs(n, m, l, i, j);
    assert(i * (2 * l) + l + j == x0 + l);
    lemma_done(x0, n, m, l, i, j);
    assert(fr1(a, a0, om, m, l, p, i, j, x0));
    assert(fr1(a, a0, om, m, l, p, i, j, x0 + l));
    assert forall|x: int| 0 <= x < n implies #[trigger] fr1(a1, a0, om, m, l, p, i, j + 1, x) by {
        lemma_done(x, n, m, l, i, j);
        assert(fr1(a, a0, om, m, l, p, i, j, x));
    }
}
pub proof fn lemma_brel_start(a: Seq<u64>, z: Seq<u64>, n: int, k: int, m: int, l: int, p: int)
    requires a.len() == n, 0 < l, 0 < m, n == m * (2 * l),
    ensures brel(a, a, z, n, k, l, p, 0, 0),
{
    assert forall|x: int| 0 <= x < n implies #[trigger] br1(a, a, z, k, l, p, 0, 0, x) by {
        lemma_done(x, n, m, l, 0, 0);
    }
}
pub proof fn lemma_brel_next(a: Seq<u64>, a0: Seq<u64>, z: Seq<u64>, n: int, k: int, m: int, l: int, p: int, i: int)
    requires brel(a, a0, z, n, k, l, p, i, l), 0 < l, 0 < m, n == m * (2 * l), 0 <= i < m,
    ensures brel(a, a0, z, n, k, l, p, i + 1, 0),
{
    assert forall|x: int| 0 <= x < n implies #[trigger] br1(a, a0, z, k, l, p, i + 1, 0, x) by {
        lemma_done(x, n, m, l, i, 0);
        assert(br1(a, a0, z, k, l, p, i, l, x));
    }
}
pub proof fn lemma_brel_step(a: Seq<u64>, a1: Seq<u64>, a0: Seq<u64>, z: Seq<u64>, n: int, k: int, m: int, l: int, p: int, i: int, j: int)
    requires
        brel(a, a0, z, n, k, l, p, i, j), 0 < l, 0 < m, n == m * (2 * l), 0 <= i < m, 0 <= j < l,
        a1.len() == n,
        ({
            let x = i * (2 * l) + j;
            let w = z[k + i] as int;
            &&& eqm(a1[x] as int, a[x] + a[x + l], p)
            &&& eqm(a1[x + l] as int, (a[x] - a[x + l]) * w, p)
            &&& forall|y: int| 0 <= y < n && y != x && y != x + l ==> #[trigger] a1[y] == a[y]
        }),
    ensures brel(a1, a0, z, n, k, l, p, i, j + 1),
{
    let x0 = i * (2 * l) + j;
    lemma_divs(n, m, l, i, j);
    assert(i * (2 * l) + l + j == x0 + l);
    lemma_done(x0, n, m, l, i, j);
    assert(br1(a, a0, z, k, l, p, i, j, x0));
    assert(br1(a, a0, z, k, l, p, i, j, x0 + l));
    assert forall|x: int| 0 <= x < n implies #[trigger] br1(a1, a0, z, k, l, p, i, j + 1, x) by {
        lemma_done(x, n, m, l, i, j);
        assert(br1(a, a0, z, k, l, p, i, j, x));
    }
}
/// state = residues of A modulo the factors of degree len
pub open spec fn lvl(s: Seq<u64>, a: Seq<int>, om: Seq<u64>, n: int, len: int, p: int) -> bool {
    s.len() == n && forall|x: int| 0 <= x < n ==> eqm(#[trigger] s[x] as int, at(a, om, n, x, len), p)
}
pub proof fn lemma_lvl_fwd(s1: Seq<u64>, s0: Seq<u64>, a: Seq<int>, om: Seq<u64>, n: int, m: int, l: int, p: int)
    requires
        0 < p, 0 < l, 0 < m, n == m * (2 * l), tree_ok(om, n, p),
        frel(s1, s0, om, n, m, l, p, m, 0),
        lvl(s0, a, om, n, 2 * l, p),
    ensures lvl(s1, a, om, n, l, p),
{
    assert forall|x: int| 0 <= x < n implies eqm(#[trigger] s1[x] as int, at(a, om, n, x, l), p) by {
        lemma_done(x, n, m, l, 0, 0);
        assert(fr1(s1, s0, om, m, l, p, m, 0, x));
        let b = x / (2 * l);
        let r = x % (2 * l);
        let j = if r < l { r } else { r - l };
        let y = b * (2 * l) + j;
        lemma_divs(n, m, l, b, j);
        lemma_fwd_step(a, om, n, m, l, b, j, p);
        let w = om[m + b] as int;
        let (u, v) = (at(a, om, n, y, 2 * l), at(a, om, n, y + l, 2 * l));
        assert(eqm(s0[y] as int, u, p) && eqm(s0[y + l] as int, v, p));
        eqm_mulc(s0[y + l] as int, v, w, p);
        eqm_add(s0[y] as int, u, w * s0[y + l], w * v, p);
        eqm_eq2(s1[x] as int, s0[y] + w * s0[y + l], u + w * v, at(a, om, n, y, l), p);
        eqm_eq2(s1[x] as int, s0[y] - w * s0[y + l], u - w * v, at(a, om, n, y + l, l), p);
    }
}
/// state = len times the residues of A modulo the factors of degree len
pub open spec fn lvlb(s: Seq<u64>, a: Seq<int>, om: Seq<u64>, n: int, len: int, p: int) -> bool {
    s.len() == n && forall|x: int| 0 <= x < n ==> eqm(#[trigger] s[x] as int, len * at(a, om, n, x, len), p)
}
/// zetas of one level are the inverses of the omegas of that level
pub open spec fn inv_lvl(z: Seq<u64>, om: Seq<u64>, k: int, m: int, p: int) -> bool {
    forall|b: int| 0 <= b < m ==> eqm(z[k + b] * #[trigger] om[m + b], 1, p)
}
pub proof fn lemma_lvl_bwd(s1: Seq<u64>, s0: Seq<u64>, a: Seq<int>, om: Seq<u64>, z: Seq<u64>, n: int, k: int, m: int, l: int, p: int)
    requires
        0 < p, 0 < l, 0 < m, n == m * (2 * l), tree_ok(om, n, p),
        inv_lvl(z, om, k, m, p),
        brel(s1, s0, z, n, k, l, p, m, 0),
        lvlb(s0, a, om, n, l, p),
    ensures lvlb(s1, a, om, n, 2 * l, p),
{
    assert forall|x: int| 0 <= x < n implies eqm(#[trigger] s1[x] as int, (2 * l) * at(a, om, n, x, 2 * l), p) by {
        lemma_done(x, n, m, l, 0, 0);
        assert(br1(s1, s0, z, k, l, p, m, 0, x));
        let b = x / (2 * l);
        let r = x % (2 * l);
        let j = if r < l { r } else { r - l };
        let y = b * (2 * l) + j;
        lemma_divs(n, m, l, b, j);
        assert(eqm(z[k + b] * om[m + b], 1, p));
        assert(eqm(s0[y] as int, l * at(a, om, n, y, l), p));
        assert(eqm(s0[y + l] as int, l * at(a, om, n, y + l, l), p));
        lemma_bwd_step(a, om, n, m, l, b, j, z[k + b] as int, s0[y] as int, s0[y + l] as int, p);
        let (f1, f2) = ((2 * l) * at(a, om, n, y, 2 * l), (2 * l) * at(a, om, n, y + l, 2 * l));
        if r < l {
            assert(x == y);
            eqm_trans(s1[x] as int, s0[y] + s0[y + l], f1, p);
        } else {
            assert(x == y + l && x - l == y);
            eqm_trans(s1[x] as int, (s0[y] - s0[y + l]) * z[k + b], f2, p);
        }
    }
}

// ---- the backward transform is also a right inverse ----
/// sum_{j < len} s[off + j] c^j
pub open spec fn ev(s: Seq<u64>, off: int, len: nat, c: int) -> int
    decreases len,
{
    if len == 0 { 0 } else { ev(s, off, (len - 1) as nat, c) + s[off + len - 1] * pow(c, (len - 1) as nat) }
}
/// c(n+i)^len == c(n/len + i/len)
#[verifier::opaque]
pub open spec fn leaf_ok(om: Seq<u64>, n: int, i: int, len: int, p: int) -> bool {
    eqm(pow(cst(om, n + i), len as nat), cst(om, n / len + i / len), p)
}
pub proof fn lemma_leaf_start(om: Seq<u64>, n: int, i: int, p: int)
    requires 0 < p, 0 <= i < n,
    ensures leaf_ok(om, n, i, 1, p),
{
    reveal(leaf_ok);
    lemma_pow1(cst(om, n + i));
    eqm_refl(cst(om, n + i), p);
    lemma_fundamental_div_mod_converse(n, 1, n, 0);
    lemma_fundamental_div_mod_converse(i, 1, i, 0);
}
proof fn lemma_leaf_vals(om: Seq<u64>, n: int, m: int, l: int, i: int)
    requires 0 < l, 0 < m, n == m * (2 * l), 0 <= i < n,
    ensures ({
        let b = i / (2 * l);
        &&& n / (2 * l) == m && 0 <= b && m + b < n
        &&& cst(om, n / l + i / l) == (if i % (2 * l) < l { om[m + b] as int } else { -(om[m + b] as int) })
    }),
{
    let b = i / (2 * l);
    let r = i % (2 * l);
    let j = if r < l { r } else { r - l };
    lemma_done(i, n, m, l, 0, 0);
    lemma_divs(n, m, l, b, j);
    lemma_cst(om, m + b);
    assert(2 * m + 2 * b == 2 * (m + b));
}
pub proof fn lemma_leaf_step(om: Seq<u64>, n: int, m: int, l: int, i: int, p: int)
    requires 0 < p, 0 < l, 0 < m, n == m * (2 * l), 0 <= i < n, tree_ok(om, n, p), leaf_ok(om, n, i, l, p),
    ensures leaf_ok(om, n, i, 2 * l, p),
        ({
            let b = i / (2 * l);
            let w = om[m + b] as int;
            &&& i % (2 * l) < l ==> eqm(pow(cst(om, n + i), l as nat), w, p)
            &&& i % (2 * l) >= l ==> eqm(pow(cst(om, n + i), l as nat), -w, p)
        }),
{
    lemma_leaf_vals(om, n, m, l, i);
    reveal(leaf_ok);
    let k = m + i / (2 * l);
    let w = om[k] as int;
    let c = cst(om, n + i);
    lemma_pow_adds(c, l as nat, l as nat);
    let e = if i % (2 * l) < l { w } else { -w };
    let q = pow(c, l as nat);
    eqm_mul(q, e, q, e, p);
    assert((-w) * (-w) == w * w) by(nonlinear_arith);
    assert(eqm(w * w, cst(om, k), p)) by { assert(om[k] as int == w); }
    eqm_trans(q * q, e * e, cst(om, k), p);
    assert((2 * l) as nat == l as nat + l as nat);
}
/// at every level, every leaf evaluates its block to len times the input value
pub open spec fn leaf1(s: Seq<u64>, b: Seq<u64>, om: Seq<u64>, n: int, len: int, p: int, i: int) -> bool {
    &&& eqm(ev(s, (i / len) * len, len as nat, cst(om, n + i)), len * b[i], p)
    &&& leaf_ok(om, n, i, len, p)
}
pub open spec fn leaves(s: Seq<u64>, b: Seq<u64>, om: Seq<u64>, n: int, len: int, p: int) -> bool {
    s.len() == n && b.len() == n && forall|i: int| 0 <= i < n ==> #[trigger] leaf1(s, b, om, n, len, p, i)
}
proof fn lemma_ev_join(s1: Seq<u64>, s0: Seq<u64>, s: int, l: int, t: nat, c: int, e: int, w: int, z: int, left: bool, p: int)
    requires
        0 < p, 0 < l, t <= l, 0 <= s,
        e == (if left { w } else { -w }), eqm(z * w, 1, p),
        forall|y: int| s <= y < s + l ==> eqm(#[trigger] s1[y] as int, s0[y] + s0[y + l], p),
        forall|y: int| s + l <= y < s + 2 * l ==> eqm(#[trigger] s1[y] as int, (s0[y - l] - s0[y]) * z, p),
    ensures
        eqm(ev(s1, s, t, c) + e * ev(s1, s + l, t, c), 2 * ev(s0, if left { s } else { s + l }, t, c), p),
    decreases t,
{
    if t == 0 {
        assert(e * 0 == 0);
        eqm_refl(0, p);
    } else {
        let q = (t - 1) as nat;
        lemma_ev_join(s1, s0, s, l, q, c, e, w, z, left, p);
        let y = s + q;
        let (u, v) = (s0[y] as int, s0[y + l] as int);
        let (x1, x2) = (s1[y] as int, s1[y + l] as int);
        let pc = pow(c, q);
        // x1 + e x2 == 2u or 2v
        eqm_mulc(x2, (u - v) * z, e, p);
        assert(e * ((u - v) * z) == (if left { u - v } else { v - u }) * (z * w)) by(nonlinear_arith)
            requires e == (if left { w } else { -w });
        let d = if left { u - v } else { v - u };
        eqm_mulc(z * w, 1, d, p);
        eqm_trans(e * x2, d * (z * w), d * 1, p);
        eqm_add(x1, u + v, e * x2, d * 1, p);
        let tgt = if left { 2 * u } else { 2 * v };
        assert(eqm(x1 + e * x2, tgt, p));
        eqm_mulc(x1 + e * x2, tgt, pc, p);
        let (e1, e2) = (ev(s1, s, q, c), ev(s1, s + l, q, c));
        let o = if left { s } else { s + l };
        let e3 = ev(s0, o, q, c);
        eqm_add(e1 + e * e2, 2 * e3, (x1 + e * x2) * pc, tgt * pc, p);
        assert(ev(s1, s, t, c) == e1 + x1 * pc);
        assert(s + l + t - 1 == y + l);
        assert(ev(s1, s + l, t, c) == e2 + x2 * pc);
        assert(e1 + e * e2 + (x1 + e * x2) * pc == (e1 + x1 * pc) + e * (e2 + x2 * pc)) by(nonlinear_arith);
        assert(ev(s0, o, t, c) == e3 + s0[o + q] * pc);
        assert(2 * e3 + tgt * pc == 2 * (e3 + s0[o + q] * pc)) by(nonlinear_arith) requires tgt == 2 * s0[o + q];
    }
}
proof fn lemma_ev_split(s: Seq<u64>, off: int, l: nat, t: nat, c: int)
    ensures ev(s, off, l + t, c) == ev(s, off, l, c) + pow(c, l) * ev(s, off + l, t, c),
    decreases t,
{
    if t == 0 {
        assert(pow(c, l) * 0 == 0);
    } else {
        let q = (t - 1) as nat;
        lemma_ev_split(s, off, l, q, c);
        lemma_pow_adds(c, l, q);
        let v = s[off + l + q] as int;
        assert(ev(s, off, l + t, c) == ev(s, off, (l + q) as nat, c) + v * pow(c, (l + q) as nat));
        assert(ev(s, off + l, t, c) == ev(s, off + l, q, c) + v * pow(c, q));
        let (a, b) = (pow(c, l), pow(c, q));
        let e2 = ev(s, off + l, q, c);
        assert(a * e2 + v * (a * b) == a * (e2 + v * b)) by(nonlinear_arith);
    }
}
proof fn lemma_block_rel(s1: Seq<u64>, s0: Seq<u64>, z: Seq<u64>, n: int, k: int, m: int, l: int, p: int, b: int)
    requires 0 < l, 0 < m, n == m * (2 * l), 0 <= b < m, brel(s1, s0, z, n, k, l, p, m, 0),
    ensures ({
        let s = b * (2 * l);
        &&& forall|y: int| s <= y < s + l ==> eqm(#[trigger] s1[y] as int, s0[y] + s0[y + l], p)
        &&& forall|y: int| s + l <= y < s + 2 * l ==> eqm(#[trigger] s1[y] as int, (s0[y - l] - s0[y]) * z[k + b], p)
    }),
{
    let s = b * (2 * l);
    assert forall|y: int| s <= y < s + l implies eqm(#[trigger] s1[y] as int, s0[y] + s0[y + l], p) by {
        lemma_divs(n, m, l, b, y - s);
        lemma_done(y, n, m, l, 0, 0);
        assert(br1(s1, s0, z, k, l, p, m, 0, y));
    }
    assert forall|y: int| s + l <= y < s + 2 * l implies eqm(#[trigger] s1[y] as int, (s0[y - l] - s0[y]) * z[k + b], p) by {
        lemma_divs(n, m, l, b, y - s - l);
        lemma_done(y, n, m, l, 0, 0);
        assert(br1(s1, s0, z, k, l, p, m, 0, y));
    }
}
proof fn lemma_leaf_one(s1: Seq<u64>, s0: Seq<u64>, s: int, l: int, c: int, w: int, z: int, left: bool, t: int, p: int)
    requires
        0 < p, 0 < l, 0 <= s,
        eqm(z * w, 1, p), eqm(pow(c, l as nat), if left { w } else { -w }, p),
        forall|y: int| s <= y < s + l ==> eqm(#[trigger] s1[y] as int, s0[y] + s0[y + l], p),
        forall|y: int| s + l <= y < s + 2 * l ==> eqm(#[trigger] s1[y] as int, (s0[y - l] - s0[y]) * z, p),
        eqm(ev(s0, if left { s } else { s + l }, l as nat, c), l * t, p),
    ensures eqm(ev(s1, s, (2 * l) as nat, c), (2 * l) * t, p),
{
    let o = if left { s } else { s + l };
    let e = if left { w } else { -w };
    let ll = l as nat;
    lemma_ev_join(s1, s0, s, l, ll, c, e, w, z, left, p);
    lemma_ev_split(s1, s, ll, ll, c);
    let (e1, e2) = (ev(s1, s, ll, c), ev(s1, s + l, ll, c));
    eqm_mulc(pow(c, ll), e, e2, p);
    eqm_refl(e1, p);
    eqm_add(e1, e1, pow(c, ll) * e2, e * e2, p);
    eqm_mulc(ev(s0, o, ll, c), l * t, 2, p);
    assert(2 * (l * t) == (2 * l) * t) by(nonlinear_arith);
    assert(((2 * l) as nat) == ll + ll);
    eqm_trans(e1 + pow(c, ll) * e2, e1 + e * e2, 2 * ev(s0, o, ll, c), p);
    eqm_trans(e1 + pow(c, ll) * e2, 2 * ev(s0, o, ll, c), (2 * l) * t, p);
}
proof fn lemma_leaf_pos(n: int, m: int, l: int, i: int)
    requires 0 < l, 0 < m, n == m * (2 * l), 0 <= i < n,
    ensures ({
        let b = i / (2 * l);
        let s = b * (2 * l);
        &&& 0 <= b < m && 0 <= s
        &&& (i / l) * l == (if i % (2 * l) < l { s } else { s + l })
    }),
{
    let b = i / (2 * l);
    let r = i % (2 * l);
    let j = if r < l { r } else { r - l };
    lemma_done(i, n, m, l, 0, 0);
    lemma_divs(n, m, l, b, j);
    assert((2 * b + 1) * l == (2 * b) * l + l) by(nonlinear_arith);
}
pub proof fn lemma_leaves(s1: Seq<u64>, s0: Seq<u64>, bb: Seq<u64>, om: Seq<u64>, z: Seq<u64>, n: int, k: int, m: int, l: int, p: int)
    requires
        0 < p, 0 < l, 0 < m, n == m * (2 * l), tree_ok(om, n, p),
        inv_lvl(z, om, k, m, p),
        brel(s1, s0, z, n, k, l, p, m, 0),
        leaves(s0, bb, om, n, l, p),
    ensures leaves(s1, bb, om, n, 2 * l, p),
{
    assert forall|i: int| 0 <= i < n implies #[trigger] leaf1(s1, bb, om, n, 2 * l, p, i) by {
        let b = i / (2 * l);
        assert(leaf1(s0, bb, om, n, l, p, i));
        lemma_leaf_pos(n, m, l, i);
        lemma_block_rel(s1, s0, z, n, k, m, l, p, b);
        lemma_leaf_step(om, n, m, l, i, p);
        assert(eqm(z[k + b] * om[m + b], 1, p));
        lemma_leaf_one(s1, s0, b * (2 * l), l, cst(om, n + i), om[m + b] as int, z[k + b] as int, i % (2 * l) < l, bb[i] as int, p);
    }
}
