//@ import zqv
//@ import zqnew
//@ import nttm
// ---------------------------------------------------------------------------
// fhe-math/src/ntt/native.rs : the Harvey butterflies and the four transforms
// ---------------------------------------------------------------------------
use vstd::arithmetic::div_mod::*;
use vstd::arithmetic::mul::*;
use vstd::arithmetic::power::*;
use vstd::arithmetic::power2::*;

//@ struct crates/fhe-math/src/ntt/native.rs NttOperator

/// base-2 logarithm of a power of two
pub open spec fn lgc(n: int) -> nat { choose|k: nat| n == #[trigger] pow2(k) }
pub open spec fn shoups(s: Seq<u64>, t: Seq<u64>, p: int) -> bool {
    s.len() == t.len() && forall|k: int| 0 <= k < s.len() ==> (#[trigger] t[k]) == shoup_of(s[k] as int, p)
}
/// zetas of the level with m = 2^e blocks are the inverses of its omegas
pub open spec fn zlvl(z: Seq<u64>, om: Seq<u64>, n: int, e: nat, p: int) -> bool {
    inv_lvl(z, om, n - 2 * pow2(e), pow2(e) as int, p)
}
impl NttOperator {
    /// bounds that the butterflies need
    pub open spec fn wfb(&self) -> bool {
        self.p.wf() && self.p_twice == 2 * self.p.p
    }
    /// representation invariant of NttOperator
    pub open spec fn wf(&self, lg: nat) -> bool {
        &&& self.wfb()
        &&& 1 <= lg < 62 && self.size == pow2(lg)
        &&& self.omegas@.len() == self.size && self.zetas_inv@.len() == self.size
        &&& canon(self.omegas@, self.p.p as int) && canon(self.zetas_inv@, self.p.p as int)
        &&& shoups(self.omegas@, self.omegas_shoup@, self.p.p as int)
        &&& shoups(self.zetas_inv@, self.zetas_inv_shoup@, self.p.p as int)
        &&& tree_ok(self.omegas@, self.size as int, self.p.p as int)
        &&& forall|e: nat| e < lg ==> #[trigger] zlvl(self.zetas_inv@, self.omegas@, self.size as int, e, self.p.p as int)
        &&& self.size_inv < self.p.p && self.size_inv_shoup == shoup_of(self.size_inv as int, self.p.p as int)
        &&& eqm(self.size * self.size_inv, 1, self.p.p as int)
    }
    pub open spec fn wfx(&self) -> bool { self.wf(lgc(self.size as int)) }
    /// point at which output i of the transform is the evaluation
    pub open spec fn point(&self, i: int) -> int { cst(self.omegas@, self.size + i) }
    /// b is the list of values of a at the n points
    pub open spec fn is_fwd(&self, b: Seq<u64>, a: Seq<int>) -> bool {
        b.len() == self.size && a.len() == self.size
        && forall|i: int| 0 <= i < self.size ==> eqm(#[trigger] b[i] as int, eval(a, self.point(i)), self.p.p as int)
    }
}
pub open spec fn below(s: Seq<u64>, b: int) -> bool { forall|k: int| 0 <= k < s.len() ==> (#[trigger] s[k]) < b }

proof fn lemma_butterfly(x: int, y: int, w: int, t: int, p: int)
    requires 0 < p, t % p == (y * w) % p,
    ensures
        ((x % (2 * p)) + 2 * p - t) % p == (x - w * y) % p,
        ((x % (2 * p)) + t) % p == (x + w * y) % p,
{
    lemma_fundamental_div_mod(x, 2 * p);
    let q = x / (2 * p);
    let r = x % (2 * p);
    assert(r == x + (-2 * q) * p) by(nonlinear_arith) requires x == (2 * p) * q + r;
    eqm_of(r, x, -2 * q, p);
    eqm_get(t, y * w, p);
    assert(w * y == y * w) by(nonlinear_arith);
    eqm_add(r, x, t, w * y, p);
    eqm_of(r + 2 * p - t, r - t, 2, p);
    eqm_trans(r + 2 * p - t, r - t, x - w * y, p);
    reveal(eqm);
}
proof fn lemma_inv_butterfly(x: int, y: int, z: int, t: int, p: int)
    requires 0 < p, t % p == ((2 * p + x - y) * z) % p,
    ensures
        ((y + x) % (2 * p)) % p == (x + y) % p,
        t % p == ((x - y) * z) % p,
{
    lemma_fundamental_div_mod(x + y, 2 * p);
    let q = (x + y) / (2 * p);
    let r = (x + y) % (2 * p);
    assert(r == (x + y) + (-2 * q) * p) by(nonlinear_arith) requires x + y == (2 * p) * q + r;
    eqm_of(r, x + y, -2 * q, p);
    eqm_of(2 * p + x - y, x - y, 2, p);
    eqm_mulc(2 * p + x - y, x - y, z, p);
    eqm_get(t, (2 * p + x - y) * z, p);
    eqm_trans(t, (2 * p + x - y) * z, (x - y) * z, p);
    reveal(eqm);
}

//@ fn crates/fhe-math/src/ntt/native.rs NttOperator::reduce3
//@ ret r
//@ spec
    requires self.wfb(), a < 4 * self.p.p,
    ensures r == a as int % (self.p.p as int), r < self.p.p, eqm(r as int, a as int, self.p.p as int),
//@ start
    proof {
        let p = self.p.p as int;
        lemma_fundamental_div_mod(a as int, 2 * p);
        let q = a as int / (2 * p);
        let r = a as int % (2 * p);
        assert(r == a as int + (-2 * q) * p) by(nonlinear_arith) requires a as int == (2 * p) * q + r;
        eqm_of(r, a as int, -2 * q, p);
        eqm_self(a as int, p);
        reveal(eqm);
    }
//@ end
//@ fn crates/fhe-math/src/ntt/native.rs NttOperator::reduce3_vt
//@ ret r
//@ spec
    requires self.wfb(), a < 4 * self.p.p,
    ensures r == a as int % (self.p.p as int), r < self.p.p, eqm(r as int, a as int, self.p.p as int),
//@ start
    proof {
        let p = self.p.p as int;
        lemma_fundamental_div_mod(a as int, 2 * p);
        let q = a as int / (2 * p);
        let r = a as int % (2 * p);
        assert(r == a as int + (-2 * q) * p) by(nonlinear_arith) requires a as int == (2 * p) * q + r;
        eqm_of(r, a as int, -2 * q, p);
        eqm_self(a as int, p);
        reveal(eqm);
    }
//@ end
//@ fn crates/fhe-math/src/ntt/native.rs NttOperator::butterfly
//@ spec
    requires self.wfb(), *old(x) < 4 * self.p.p, *old(y) < 4 * self.p.p, w < self.p.p,
        w_shoup == shoup_of(w as int, self.p.p as int),
    ensures *final(x) < 4 * self.p.p, *final(y) < 4 * self.p.p,
        eqm(*final(x) as int, *old(x) + w * *old(y), self.p.p as int),
        eqm(*final(y) as int, *old(x) - w * *old(y), self.p.p as int),
//@ start
    proof {
        reveal(eqm);
        let (x0, y0, w0, p) = (*old(x) as int, *old(y) as int, w as int, self.p.p as int);
        assert forall|t: int| #![trigger t % p] t % p == (y0 * w0) % p implies
            ((x0 % (2 * p)) + 2 * p - t) % p == (x0 - w0 * y0) % p && ((x0 % (2 * p)) + t) % p == (x0 + w0 * y0) % p by {
            lemma_butterfly(x0, y0, w0, t, p);
        }
    }
//@ end
//@ fn crates/fhe-math/src/ntt/native.rs NttOperator::butterfly_vt
//@ spec
    requires self.wfb(), *old(x) < 4 * self.p.p, *old(y) < 4 * self.p.p, w < self.p.p,
        w_shoup == shoup_of(w as int, self.p.p as int),
    ensures *final(x) < 4 * self.p.p, *final(y) < 4 * self.p.p,
        eqm(*final(x) as int, *old(x) + w * *old(y), self.p.p as int),
        eqm(*final(y) as int, *old(x) - w * *old(y), self.p.p as int),
//@ start
    proof {
        reveal(eqm);
        let (x0, y0, w0, p) = (*old(x) as int, *old(y) as int, w as int, self.p.p as int);
        assert forall|t: int| #![trigger t % p] t % p == (y0 * w0) % p implies
            ((x0 % (2 * p)) + 2 * p - t) % p == (x0 - w0 * y0) % p && ((x0 % (2 * p)) + t) % p == (x0 + w0 * y0) % p by {
            lemma_butterfly(x0, y0, w0, t, p);
        }
    }
//@ end
//@ fn crates/fhe-math/src/ntt/native.rs NttOperator::inv_butterfly
//@ spec
    requires self.wfb(), *old(x) < 2 * self.p.p, *old(y) < 2 * self.p.p, z < self.p.p,
        z_shoup == shoup_of(z as int, self.p.p as int),
    ensures *final(x) < 2 * self.p.p, *final(y) < 2 * self.p.p,
        eqm(*final(x) as int, *old(x) + *old(y), self.p.p as int),
        eqm(*final(y) as int, (*old(x) - *old(y)) * z, self.p.p as int),
//@ start
    proof {
        reveal(eqm);
        let (x0, y0, w0, p) = (*old(x) as int, *old(y) as int, z as int, self.p.p as int);
        assert forall|t: int| #![trigger t % p] t % p == ((2 * p + x0 - y0) * w0) % p implies
            ((y0 + x0) % (2 * p)) % p == (x0 + y0) % p && t % p == ((x0 - y0) * w0) % p by {
            lemma_inv_butterfly(x0, y0, w0, t, p);
        }
    }
//@ end
//@ fn crates/fhe-math/src/ntt/native.rs NttOperator::inv_butterfly_vt
//@ spec
    requires self.wfb(), *old(x) < 2 * self.p.p, *old(y) < 2 * self.p.p, z < self.p.p,
        z_shoup == shoup_of(z as int, self.p.p as int),
    ensures *final(x) < 2 * self.p.p, *final(y) < 2 * self.p.p,
        eqm(*final(x) as int, *old(x) + *old(y), self.p.p as int),
        eqm(*final(y) as int, (*old(x) - *old(y)) * z, self.p.p as int),
//@ start
    proof {
        reveal(eqm);
        let (x0, y0, w0, p) = (*old(x) as int, *old(y) as int, z as int, self.p.p as int);
        assert forall|t: int| #![trigger t % p] t % p == ((2 * p + x0 - y0) * w0) % p implies
            ((y0 + x0) % (2 * p)) % p == (x0 + y0) % p && t % p == ((x0 - y0) * w0) % p by {
            lemma_inv_butterfly(x0, y0, w0, t, p);
        }
    }
//@ end

pub proof fn lemma_half(x: usize)
    ensures x >> 1usize == x / 2, x < 0x8000_0000_0000_0000 ==> x << 1usize == 2 * x,
{
    assert(x >> 1usize == x / 2) by(bit_vector);
    assert(x < 0x8000_0000_0000_0000usize ==> x << 1usize == 2 * x) by(bit_vector);
}
pub proof fn lemma_lv(lg: nat, e: nat)
    requires e <= lg < 62,
    ensures
        0 < pow2(e), 0 < pow2((lg - e) as nat), pow2(e) * pow2((lg - e) as nat) == pow2(lg),
        pow2(e) <= pow2(lg) <= 0x2000_0000_0000_0000, pow2((lg - e) as nat) <= pow2(lg),
        e < lg ==> pow2((lg - e) as nat) == 2 * pow2((lg - e - 1) as nat) && pow2(e + 1) == 2 * pow2(e)
            && pow2(e) * (2 * pow2((lg - e - 1) as nat)) == pow2(lg) && pow2((lg - e - 1) as nat) > 0,
        pow2(0) == 1,
        e < lg && pow2((lg - e - 1) as nat) == 1 ==> e + 1 == lg,
{
    lemma_pow2_pos(e);
    lemma_pow2_pos((lg - e) as nat);
    lemma_pow2_adds(e, (lg - e) as nat);
    lemma2_to64_rest();
    lemma2_to64();
    if lg < 61 { lemma_pow2_strictly_increases(lg, 61); }
    if e < lg { lemma_pow2_strictly_increases(e, lg); }
    if 0 < e { lemma_pow2_strictly_increases((lg - e) as nat, lg); }
    if e < lg {
        lemma_pow2_unfold((lg - e) as nat);
        lemma_pow2_unfold(e + 1);
        lemma_pow2_pos((lg - e - 1) as nat);
        if e + 1 < lg { lemma_pow2_strictly_increases(0, (lg - e - 1) as nat); }
    }
}

//@ fn crates/fhe-math/src/ntt/native.rs NttOperator::forward
//@ spec
    requires self.wfx(), old(a)@.len() == self.size, below(old(a)@, 4 * self.p.p),
    ensures final(a)@.len() == self.size, canon(final(a)@, self.p.p as int),
        self.is_fwd(final(a)@, vals(old(a)@)),
//@ start
    let ghost lg = lgc(self.size as int);
    let ghost p = self.p.p as int;
    let ghost n = self.size as int;
    let ghost om = self.omegas@;
    let ghost aa = vals(a@);
    let ghost mut e: nat = 0;
    proof {
        lemma_lv(lg, 0);
        lemma_half(self.size);
        assert forall|x: int| 0 <= x < n implies eqm(#[trigger] a@[x] as int, at(aa, om, n, x, n), p) by {
            lemma_at_start(aa, om, n, x);
            eqm_refl(aa[x], p);
        }
    }
//@ loop 0
    invariant
        e <= lg, k == pow2(e), l == pow2((lg - e) as nat) / 2,
        a@.len() == n, below(a@, 4 * self.p.p), lvl(a@, aa, om, n, pow2((lg - e) as nat) as int, p),
        e == lg ==> canon(a@, p),
    decreases l,
//@ loop-start 0
    proof { lemma_lv(lg, e); }
    let ghost a0 = a@;
    let ghost m = pow2(e) as int;
    let ghost li = l as int;
    proof { lemma_half(l); }
    assert(e < lg);
    proof {
        lemma_frel_start(a0, om, n, m, li, p);
        lemma_divs(n, m, li, 0, 0);
    }
//@ loop 1
    invariant
        i_1 <= n_1, n_1 == m, k == m + i_1,
        a@.len() == n, below(a@, 4 * self.p.p),
        frel(a@, a0, om, n, m, li, p, i_1 as int, 0),
        l == 1 ==> forall|x: int| 0 <= x < 2 * i_1 ==> #[trigger] a@[x] < p,
    decreases n_1 - i_1,
//@ loop-start 1
    proof { lemma_divs(n, m, li, i_1 as int, 0); lemma_divs(n, m, li, i_1 as int, li - 1); }
    let ghost a1 = a@;
    let ghost x0 = i_1 * (2 * li);
    assert(i_1 * v_c1 == x0);
//@ loop 2
    invariant
        i_2 <= n_2, n_2 == l,
        a@.len() == n, below(a@, 4 * self.p.p),
        frel(a@, a0, om, n, m, li, p, i_1 as int, i_2 as int),
    decreases n_2 - i_2,
//@ loop-start 2
    let ghost a2 = a@;
//@ loop-end 2
    proof { lemma_frel_step(a2, a@, a0, om, n, m, li, p, i_1 as int, i_2 as int); }
//@ loop-end 1
    proof {
        reveal(eqm);
        if l == 1 { lemma_frel_step(a1, a@, a0, om, n, m, li, p, i_1 as int, 0); }
        lemma_frel_next(a@, a0, om, n, m, li, p, i_1 as int);
    }
//@ loop-end 0
    proof {
        lemma_lvl_fwd(a@, a0, aa, om, n, m, li, p);
        e = e + 1;
        lemma_lv(lg, e);
    }
//@ loop-after 0
    proof {
        lemma_lv(lg, e);
        assert(e == lg);
        assert forall|x: int| 0 <= x < n implies eqm(#[trigger] a@[x] as int, eval(aa, self.point(x)), p) by {
            lemma_at_end(aa, om, n, x);
        }
    }
//@ end

//@ fn crates/fhe-math/src/ntt/native.rs NttOperator::forward_vt_lazy
//@ spec
    requires self.wfx(), old(a_ptr)@.len() == self.size, below(old(a_ptr)@, 4 * self.p.p),
    ensures final(a_ptr)@.len() == self.size, below(final(a_ptr)@, 4 * self.p.p),
        self.is_fwd(final(a_ptr)@, vals(old(a_ptr)@)),
//@ start
    let ghost lg = lgc(self.size as int);
    let ghost p = self.p.p as int;
    let ghost n = self.size as int;
    let ghost om = self.omegas@;
    let ghost aa = vals(a_ptr@);
    let ghost mut e: nat = 0;
    proof {
        lemma_lv(lg, 0);
        lemma_half(self.size);
        assert forall|x: int| 0 <= x < n implies eqm(#[trigger] a_ptr@[x] as int, at(aa, om, n, x, n), p) by {
            lemma_at_start(aa, om, n, x);
            eqm_refl(aa[x], p);
        }
    }
//@ loop 0
    invariant
        e <= lg, k == pow2(e), m == pow2(e), l == pow2((lg - e) as nat) / 2,
        a_ptr@.len() == n, below(a_ptr@, 4 * self.p.p), lvl(a_ptr@, aa, om, n, pow2((lg - e) as nat) as int, p),
    decreases l,
//@ loop-start 0
    proof { lemma_lv(lg, e); lemma_half(l); lemma_half(m); }
    let ghost a0 = a_ptr@;
    let ghost mi = pow2(e) as int;
    let ghost li = l as int;
    assert(e < lg);
    proof {
        lemma_frel_start(a0, om, n, mi, li, p);
        lemma_divs(n, mi, li, 0, 0);
    }
//@ loop 1
    invariant
        0 <= i_1 <= n_1, n_1 == m, k == mi + i_1,
        a_ptr@.len() == n, below(a_ptr@, 4 * self.p.p),
        frel(a_ptr@, a0, om, n, mi, li, p, i_1 as int, 0),
    decreases n_1 - i_1,
//@ loop-start 1
    proof {
        lemma_divs(n, mi, li, i_1 as int, 0); lemma_divs(n, mi, li, i_1 as int, li - 1);
        assert(2 * i_1 * l == i_1 * (2 * li)) by(nonlinear_arith) requires li == l;
    }
    let ghost a1 = a_ptr@;
    let ghost x0 = i_1 * (2 * li);
//@ loop 2
    invariant
        s <= i_2 <= n_2, n_2 == s + l, s == x0,
        a_ptr@.len() == n, below(a_ptr@, 4 * self.p.p),
        frel(a_ptr@, a0, om, n, mi, li, p, i_1 as int, i_2 - s),
    decreases n_2 - i_2,
//@ loop-start 2
    let ghost a2 = a_ptr@;
//@ loop-end 2
    proof { lemma_frel_step(a2, a_ptr@, a0, om, n, mi, li, p, i_1 as int, i_2 - s); }
//@ loop-end 1
    proof {
        if l == 1 { lemma_frel_step(a1, a_ptr@, a0, om, n, mi, li, p, i_1 as int, 0); }
        lemma_frel_next(a_ptr@, a0, om, n, mi, li, p, i_1 as int);
    }
//@ loop-end 0
    proof {
        lemma_lvl_fwd(a_ptr@, a0, aa, om, n, mi, li, p);
        e = e + 1;
        lemma_lv(lg, e);
    }
//@ loop-after 0
    proof {
        lemma_lv(lg, e);
        assert(e == lg);
        assert forall|x: int| 0 <= x < n implies eqm(#[trigger] a_ptr@[x] as int, eval(aa, self.point(x)), p) by {
            lemma_at_end(aa, om, n, x);
        }
    }
//@ end

//@ fn crates/fhe-math/src/ntt/native.rs NttOperator::forward_vt
//@ spec
    requires self.wfx(), old(a_ptr)@.len() == self.size, below(old(a_ptr)@, 4 * self.p.p),
    ensures final(a_ptr)@.len() == self.size, canon(final(a_ptr)@, self.p.p as int),
        self.is_fwd(final(a_ptr)@, vals(old(a_ptr)@)),
//@ loop-before 0
    let ghost a1 = a_ptr@;
    proof { reveal(eqm); }
//@ loop 0
    invariant
        i_0 <= n_0, n_0 == self.size, a_ptr@.len() == self.size, below(a_ptr@, 4 * self.p.p),
        forall|k: int| 0 <= k < i_0 ==> #[trigger] a_ptr@[k] < self.p.p,
        forall|k: int| 0 <= k < self.size ==> #[trigger] eqm(a_ptr@[k] as int, a1[k] as int, self.p.p as int),
//@ loop-start 0
    proof { eqm_refl(0, self.p.p as int); }
    let ghost a2 = a_ptr@;
//@ loop-end 0
    proof {
        assert forall|k: int| 0 <= k < self.size implies #[trigger] eqm(a_ptr@[k] as int, a1[k] as int, self.p.p as int) by {
            assert(eqm(a2[k] as int, a1[k] as int, self.p.p as int));
            if k == i_0 { eqm_trans(a_ptr@[k] as int, a2[k] as int, a1[k] as int, self.p.p as int); }
        }
    }
//@ loop-after 0
    proof {
        assert forall|x: int| 0 <= x < self.size implies eqm(#[trigger] a_ptr@[x] as int, eval(vals(old(a_ptr)@), self.point(x)), self.p.p as int) by {
            assert(eqm(a_ptr@[x] as int, a1[x] as int, self.p.p as int));
            eqm_trans(a_ptr@[x] as int, a1[x] as int, eval(vals(old(a_ptr)@), self.point(x)), self.p.p as int);
        }
    }
//@ end

pub proof fn lemma_b_start(b: Seq<u64>, om: Seq<u64>, n: int, p: int)
    requires 0 < p, b.len() == n, 0 < n,
    ensures
        leaves(b, b, om, n, 1, p),
        forall|a: Seq<int>| #![trigger lvlb(b, a, om, n, 1, p)] a.len() == n && (forall|i: int| 0 <= i < n ==> eqm(#[trigger] b[i] as int, eval(a, cst(om, n + i)), p))
            ==> lvlb(b, a, om, n, 1, p),
{
    assert forall|i: int| 0 <= i < n implies #[trigger] leaf1(b, b, om, n, 1, p, i) by {
        lemma_leaf_start(om, n, i, p);
        lemma_fundamental_div_mod_converse(i, 1, i, 0);
        let c = cst(om, n + i);
        assert(ev(b, i, 1, c) == ev(b, i, 0, c) + b[i + 1 - 1] * pow(c, 0));
        lemma_pow0(c);
        eqm_refl(b[i] as int, p);
        assert((i / 1) * 1 == i);
    }
    assert forall|a: Seq<int>| #![trigger lvlb(b, a, om, n, 1, p)] a.len() == n && (forall|i: int| 0 <= i < n ==> eqm(#[trigger] b[i] as int, eval(a, cst(om, n + i)), p))
        implies lvlb(b, a, om, n, 1, p) by {
        assert forall|x: int| 0 <= x < n implies eqm(#[trigger] b[x] as int, 1 * at(a, om, n, x, 1), p) by {
            lemma_at_end(a, om, n, x);
        }
    }
}
pub proof fn lemma_ev_scale(r: Seq<u64>, s: Seq<u64>, f: int, t: nat, c: int, p: int)
    requires 0 < p, t <= s.len(), t <= r.len(), forall|x: int| 0 <= x < t ==> eqm(#[trigger] r[x] as int, s[x] * f, p),
    ensures eqm(rem(vals(r), 1, c, 0, t), ev(s, 0, t, c) * f, p),
    decreases t,
{
    if t == 0 { eqm_refl(0, p); assert(0 * f == 0); } else {
        let q = (t - 1) as nat;
        lemma_ev_scale(r, s, f, q, c, p);
        let pc = pow(c, q);
        assert((t - 1) * 1 == q);
        assert(vals(r)[0 + (t - 1) * 1] == r[q as int] as int);
        eqm_mulc(r[q as int] as int, s[q as int] * f, pc, p);
        assert((s[q as int] * f) * pc == (s[q as int] * pc) * f) by(nonlinear_arith);
        eqm_add(rem(vals(r), 1, c, 0, q), ev(s, 0, q, c) * f, r[q as int] * pc, (s[q as int] * pc) * f, p);
        assert((ev(s, 0, q, c) + s[q as int] * pc) * f == ev(s, 0, q, c) * f + (s[q as int] * pc) * f) by(nonlinear_arith);
    }
}
/// from the state after the last level and the multiplication by 1/n
pub proof fn lemma_b_end(r: Seq<u64>, s: Seq<u64>, b: Seq<u64>, om: Seq<u64>, n: int, f: int, p: int)
    requires 0 < p, 0 < n, r.len() == n, leaves(s, b, om, n, n, p), eqm(n * f, 1, p),
        forall|x: int| 0 <= x < n ==> eqm(#[trigger] r[x] as int, s[x] * f, p),
    ensures
        forall|i: int| 0 <= i < n ==> eqm(#[trigger] b[i] as int, eval(vals(r), cst(om, n + i)), p),
        forall|a: Seq<int>| #![trigger lvlb(s, a, om, n, n, p)] a.len() == n && lvlb(s, a, om, n, n, p) ==> forall|x: int| 0 <= x < n ==> eqm(#[trigger] r[x] as int, a[x], p),
{
    assert forall|i: int| 0 <= i < n implies eqm(#[trigger] b[i] as int, eval(vals(r), cst(om, n + i)), p) by {
        let c = cst(om, n + i);
        assert(leaf1(s, b, om, n, n, p, i));
        lemma_fundamental_div_mod_converse(i, n, 0, i);
        lemma_ev_scale(r, s, f, n as nat, c, p);
        let v = ev(s, 0, n as nat, c);
        assert((i / n) * n == 0);
        eqm_mulc(v, n * b[i], f, p);
        assert((n * b[i]) * f == b[i] * (n * f)) by(nonlinear_arith);
        eqm_mulc(n * f, 1, b[i] as int, p);
        eqm_trans(eval(vals(r), c), v * f, b[i] * (n * f), p);
        eqm_trans(eval(vals(r), c), b[i] * (n * f), b[i] as int, p);
        eqm_sym(eval(vals(r), c), b[i] as int, p);
    }
    assert forall|a: Seq<int>| #![trigger lvlb(s, a, om, n, n, p)] a.len() == n && lvlb(s, a, om, n, n, p) implies forall|x: int| 0 <= x < n ==> eqm(#[trigger] r[x] as int, a[x], p) by {
        assert forall|x: int| 0 <= x < n implies eqm(#[trigger] r[x] as int, a[x], p) by {
            lemma_at_start(a, om, n, x);
            assert(eqm(s[x] as int, n * a[x], p));
            eqm_mulc(s[x] as int, n * a[x], f, p);
            assert((n * a[x]) * f == a[x] * (n * f)) by(nonlinear_arith);
            eqm_mulc(n * f, 1, a[x], p);
            eqm_trans(r[x] as int, s[x] * f, a[x] * (n * f), p);
            eqm_trans(r[x] as int, a[x] * (n * f), a[x], p);
        }
    }
}

//@ fn crates/fhe-math/src/ntt/native.rs NttOperator::backward
//@ spec
    requires self.wfx(), old(a)@.len() == self.size, below(old(a)@, 2 * self.p.p),
    ensures final(a)@.len() == self.size, canon(final(a)@, self.p.p as int),
        // right inverse: the values of the result at the points are the input
        self.is_fwd(old(a)@, vals(final(a)@)),
        // left inverse: whatever the input is the transform of is the result
        forall|b: Seq<int>| self.is_fwd(old(a)@, b) ==> forall|x: int| 0 <= x < self.size ==> #[trigger] eqm(final(a)@[x] as int, b[x], self.p.p as int),
//@ start
    let ghost lg = lgc(self.size as int);
    let ghost p = self.p.p as int;
    let ghost n = self.size as int;
    let ghost om = self.omegas@;
    let ghost ze = self.zetas_inv@;
    let ghost bb = a@;
    let ghost mut e: nat = lg;   // blocks: 2^e of length 2^(lg-e)
    proof {
        lemma_lv(lg, lg);
        lemma_lv(lg, 0);
        lemma_lv(lg, (lg - 1) as nat);
        lemma_half(self.size);
        lemma_b_start(bb, om, n, p);
        assert forall|b: Seq<int>| #![trigger self.is_fwd(bb, b)] self.is_fwd(bb, b) implies lvlb(a@, b, om, n, 1, p) by {
            assert forall|i: int| 0 <= i < n implies eqm(#[trigger] bb[i] as int, eval(b, cst(om, n + i)), p) by {
                assert(eqm(bb[i] as int, eval(b, self.point(i)), p));
            }
        }
    }
//@ loop 0
    invariant
        e <= lg, l == pow2((lg - e) as nat), l <= self.size, l == self.size <==> e == 0,
        k == n - pow2(e) * 1,
        
        a@.len() == n, below(a@, 2 * self.p.p),
        leaves(a@, bb, om, n, l as int, p),
        forall|b: Seq<int>| #![trigger self.is_fwd(bb, b)] self.is_fwd(bb, b) ==> lvlb(a@, b, om, n, l as int, p),
    decreases self.size - l,
//@ loop-start 0
    let ghost ee = (e - 1) as nat;
    proof { lemma_lv(lg, e); lemma_lv(lg, ee); lemma_half(l);  }
    let ghost a0 = a@;
    let ghost mi = pow2(ee) as int;
    let ghost li = l as int;
    let ghost k0 = k as int;
    assert(n == mi * (2 * li) && k0 == n - 2 * mi) by(nonlinear_arith) requires n == pow2(ee) * (2 * pow2((lg - ee - 1) as nat)), mi == pow2(ee), li == pow2((lg - ee - 1) as nat), k0 == n - pow2(e) * 1, pow2(e) == 2 * pow2(ee);
    proof {
        lemma_brel_start(a0, ze, n, k0, mi, li, p);
        lemma_divs(n, mi, li, 0, 0);
    }
//@ loop 1
    invariant
        0 <= i_1 <= n_1, n_1 == mi, k == k0 + i_1,
        a@.len() == n, below(a@, 2 * self.p.p),
        brel(a@, a0, ze, n, k0, li, p, i_1 as int, 0),
    decreases n_1 - i_1,
//@ loop-start 1
    proof {
        lemma_divs(n, mi, li, i_1 as int, 0); lemma_divs(n, mi, li, i_1 as int, li - 1);
        assert(2 * i_1 * l == i_1 * (2 * li)) by(nonlinear_arith) requires li == l;
    }
    let ghost a1 = a@;
    let ghost x0 = i_1 * (2 * li);
    assert(i_1 * v_c1 == x0);
//@ loop 2
    invariant
        i_2 <= n_2, n_2 == l,
        a@.len() == n, below(a@, 2 * self.p.p),
        brel(a@, a0, ze, n, k0, li, p, i_1 as int, i_2 as int),
    decreases n_2 - i_2,
//@ loop-start 2
    let ghost a2 = a@;
//@ loop-end 2
    proof { lemma_brel_step(a2, a@, a0, ze, n, k0, mi, li, p, i_1 as int, i_2 as int); }
//@ loop-end 1
    proof {
        if l == 1 { lemma_brel_step(a1, a@, a0, ze, n, k0, mi, li, p, i_1 as int, 0); }
        lemma_brel_next(a@, a0, ze, n, k0, mi, li, p, i_1 as int);
    }
//@ loop-end 0
    proof {
        assert(zlvl(ze, om, n, ee, p));
        assert forall|b: Seq<int>| #![trigger self.is_fwd(bb, b)] self.is_fwd(bb, b) implies lvlb(a@, b, om, n, 2 * li, p) by {
            lemma_lvl_bwd(a@, a0, b, om, ze, n, k0, mi, li, p);
        }
        lemma_leaves(a@, a0, bb, om, ze, n, k0, mi, li, p);
        e = ee;
        if e > 0 { lemma_lv(lg, (e - 1) as nat); }
    }
//@ loop-after 0
    proof { if e > 0 { lemma_lv(lg, e); lemma_lv(lg, (e - 1) as nat); } }
    assert(l == n);
//@ loop-before 3
    let ghost s3 = a@;
//@ loop 3
    invariant
        i_3 <= n_3, n_3 == n, a@.len() == n, 
        forall|x: int| 0 <= x < i_3 ==> #[trigger] a@[x] < p,
        forall|x: int| 0 <= x < i_3 ==> eqm(#[trigger] a@[x] as int, s3[x] * self.size_inv, p),
        forall|x: int| i_3 <= x < n ==> #[trigger] a@[x] == s3[x],
//@ loop-start 3
    proof { reveal(eqm); lemma_mod_twice(s3[i_3 as int] * self.size_inv, p); }
//@ loop-after 3
    proof {
        lemma_b_end(a@, s3, bb, om, n, self.size_inv as int, p);
        assert forall|i: int| 0 <= i < n implies eqm(#[trigger] bb[i] as int, eval(vals(a@), self.point(i)), p) by {}
        assert forall|b: Seq<int>| self.is_fwd(bb, b) implies forall|x: int| 0 <= x < n ==> #[trigger] eqm(a@[x] as int, b[x], p) by {
            assert(lvlb(s3, b, om, n, n, p));
        }
    }
//@ end

//@ fn crates/fhe-math/src/ntt/native.rs NttOperator::backward_vt
//@ spec
    requires self.wfx(), old(a_ptr)@.len() == self.size, below(old(a_ptr)@, 2 * self.p.p),
    ensures final(a_ptr)@.len() == self.size, canon(final(a_ptr)@, self.p.p as int),
        // right inverse: the values of the result at the points are the input
        self.is_fwd(old(a_ptr)@, vals(final(a_ptr)@)),
        // left inverse: whatever the input is the transform of is the result
        forall|b: Seq<int>| self.is_fwd(old(a_ptr)@, b) ==> forall|x: int| 0 <= x < self.size ==> #[trigger] eqm(final(a_ptr)@[x] as int, b[x], self.p.p as int),
//@ start
    let ghost lg = lgc(self.size as int);
    let ghost p = self.p.p as int;
    let ghost n = self.size as int;
    let ghost om = self.omegas@;
    let ghost ze = self.zetas_inv@;
    let ghost bb = a_ptr@;
    let ghost mut e: nat = lg;   // blocks: 2^e of length 2^(lg-e)
    proof {
        lemma_lv(lg, lg);
        lemma_lv(lg, 0);
        lemma_lv(lg, (lg - 1) as nat);
        lemma_half(self.size);
        lemma_b_start(bb, om, n, p);
        assert forall|b: Seq<int>| #![trigger self.is_fwd(bb, b)] self.is_fwd(bb, b) implies lvlb(a_ptr@, b, om, n, 1, p) by {
            assert forall|i: int| 0 <= i < n implies eqm(#[trigger] bb[i] as int, eval(b, cst(om, n + i)), p) by {
                assert(eqm(bb[i] as int, eval(b, self.point(i)), p));
            }
        }
    }
//@ loop 0
    invariant
        e <= lg, l == pow2((lg - e) as nat), l <= self.size, l == self.size <==> e == 0,
        k == n - pow2(e) * 1,
        m == pow2(e) / 2,
        a_ptr@.len() == n, below(a_ptr@, 2 * self.p.p),
        leaves(a_ptr@, bb, om, n, l as int, p),
        forall|b: Seq<int>| #![trigger self.is_fwd(bb, b)] self.is_fwd(bb, b) ==> lvlb(a_ptr@, b, om, n, l as int, p),
    decreases m,
//@ loop-start 0
    let ghost ee = (e - 1) as nat;
    proof { lemma_lv(lg, e); lemma_lv(lg, ee); lemma_half(l); lemma_half(m); }
    let ghost a0 = a_ptr@;
    let ghost mi = pow2(ee) as int;
    let ghost li = l as int;
    let ghost k0 = k as int;
    assert(n == mi * (2 * li) && k0 == n - 2 * mi) by(nonlinear_arith) requires n == pow2(ee) * (2 * pow2((lg - ee - 1) as nat)), mi == pow2(ee), li == pow2((lg - ee - 1) as nat), k0 == n - pow2(e) * 1, pow2(e) == 2 * pow2(ee);
    proof {
        lemma_brel_start(a0, ze, n, k0, mi, li, p);
        lemma_divs(n, mi, li, 0, 0);
    }
//@ loop 1
    invariant
        0 <= i_1 <= n_1, n_1 == mi, k == k0 + i_1,
        a_ptr@.len() == n, below(a_ptr@, 2 * self.p.p),
        brel(a_ptr@, a0, ze, n, k0, li, p, i_1 as int, 0),
    decreases n_1 - i_1,
//@ loop-start 1
    proof {
        lemma_divs(n, mi, li, i_1 as int, 0); lemma_divs(n, mi, li, i_1 as int, li - 1);
        assert(2 * i_1 * l == i_1 * (2 * li)) by(nonlinear_arith) requires li == l;
    }
    let ghost a1 = a_ptr@;
    let ghost x0 = i_1 * (2 * li);
    
//@ loop 2
    invariant
        s <= i_2 <= n_2, n_2 == s + l, s == x0,
        a_ptr@.len() == n, below(a_ptr@, 2 * self.p.p),
        brel(a_ptr@, a0, ze, n, k0, li, p, i_1 as int, i_2 - s),
    decreases n_2 - i_2,
//@ loop-start 2
    let ghost a2 = a_ptr@;
//@ loop-end 2
    proof { lemma_brel_step(a2, a_ptr@, a0, ze, n, k0, mi, li, p, i_1 as int, i_2 - s); }
//@ loop-end 1
    proof {
        if l == 1 { lemma_brel_step(a1, a_ptr@, a0, ze, n, k0, mi, li, p, i_1 as int, 0); }
        lemma_brel_next(a_ptr@, a0, ze, n, k0, mi, li, p, i_1 as int);
    }
//@ loop-end 0
    proof {
        assert(zlvl(ze, om, n, ee, p));
        assert forall|b: Seq<int>| #![trigger self.is_fwd(bb, b)] self.is_fwd(bb, b) implies lvlb(a_ptr@, b, om, n, 2 * li, p) by {
            lemma_lvl_bwd(a_ptr@, a0, b, om, ze, n, k0, mi, li, p);
        }
        lemma_leaves(a_ptr@, a0, bb, om, ze, n, k0, mi, li, p);
        e = ee;
        if e > 0 { lemma_lv(lg, (e - 1) as nat); }
    }
//@ loop-after 0
    proof { if e > 0 { lemma_lv(lg, e); lemma_lv(lg, (e - 1) as nat); } }
    assert(l == n);
//@ loop-before 3
    let ghost s3 = a_ptr@;
//@ loop 3
    invariant
        i_3 <= n_3, n_3 == n, a_ptr@.len() == n, 
        forall|x: int| 0 <= x < i_3 ==> #[trigger] a_ptr@[x] < p,
        forall|x: int| 0 <= x < i_3 ==> eqm(#[trigger] a_ptr@[x] as int, s3[x] * self.size_inv, p),
        forall|x: int| i_3 <= x < n ==> #[trigger] a_ptr@[x] == s3[x],
//@ loop-start 3
    proof { reveal(eqm); lemma_mod_twice(s3[i_3 as int] * self.size_inv, p); }
//@ loop-after 3
    proof {
        lemma_b_end(a_ptr@, s3, bb, om, n, self.size_inv as int, p);
        assert forall|i: int| 0 <= i < n implies eqm(#[trigger] bb[i] as int, eval(vals(a_ptr@), self.point(i)), p) by {}
        assert forall|b: Seq<int>| self.is_fwd(bb, b) implies forall|x: int| 0 <= x < n ==> #[trigger] eqm(a_ptr@[x] as int, b[x], p) by {
            assert(lvlb(s3, b, om, n, n, p));
        }
    }
//@ end
