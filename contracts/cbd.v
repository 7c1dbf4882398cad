//@ import common
//@ import tcode
// ---------------------------------------------------------------------------
// fhe-util/src/lib.rs : sample_vec_cbd. The fresh random words w drawn by the
// call form one bit stream; sample i is the weight of stream bits
// [s*i, s*i+2v) minus the weight of [s*i+2v, s*i+4v), s the stride: no bit is
// used twice, and the samples are independent CBD variables of variance v.
// ---------------------------------------------------------------------------
use vstd::arithmetic::power2::*;
use vstd::arithmetic::div_mod::*;
use vstd::arithmetic::mul::*;

/// The caller's random number generator, with the words it has produced.
pub struct VRng { pub words: Ghost<Seq<u64>> }
impl VRng {
    #[verifier::external_body]
    pub fn next_u64(&mut self) -> (r: u64)
        ensures final(self).words@ == old(self).words@.push(r),
    { unimplemented!() }
}

/// Hamming weight
pub open spec fn popn(x: nat) -> nat
    decreases x
{ if x == 0 { 0 } else { x % 2 + popn(x / 2) } }

pub assume_specification [u128::count_ones] (x: u128) -> (r: u32)
    ensures r == popn(x as nat);

pub proof fn lemma_pop_shift(x: nat, k: nat)
    ensures popn(x * pow2(k)) == popn(x),
    decreases k
{
    lemma2_to64();
    if k > 0 {
        lemma_pop_shift(x, (k - 1) as nat);
        lemma_pow2_unfold(k);
        let y = x * pow2((k - 1) as nat);
        assert(x * pow2(k) == 2 * y) by(nonlinear_arith) requires pow2(k) == 2 * pow2((k - 1) as nat), y == x * pow2((k - 1) as nat);
        if y > 0 { assert((2 * y) % 2 == 0 && (2 * y) / 2 == y); }
    } else { assert(x * 1 == x); }
}
pub proof fn lemma_pop_bound(x: nat, k: nat)
    requires x < pow2(k),
    ensures popn(x) <= k,
    decreases k
{
    lemma2_to64();
    if k > 0 && x > 0 {
        lemma_pow2_unfold(k);
        lemma_pop_bound(x / 2, (k - 1) as nat);
    }
}

pub open spec fn stream(w: Seq<u64>) -> nat { val(d64(w), 64) }
pub open spec fn bits(w: Seq<u64>, pos: nat, len: nat) -> nat { ((stream(w) as int / pow2(pos) as int) % pow2(len) as int) as nat }
pub open spec fn cbd(w: Seq<u64>, pos: nat, v: nat) -> int {
    popn(bits(w, pos, 2 * v)) - popn(bits(w, pos + 2 * v, 2 * v))
}
pub open spec fn stride(v: nat) -> nat { if v <= 16 { 4 * v } else { 128 } }

/// S' = S + x*2^h with p <= h:  S'/2^p = S/2^p + x*2^(h-p)
pub proof fn lemma_above(s: nat, x: nat, h: nat, p: nat)
    requires p <= h,
    ensures (s + x * pow2(h)) as int / pow2(p) as int == s as int / pow2(p) as int + x * pow2((h - p) as nat),
{
    lemma_pow2_pos(p);
    lemma_pow2_adds(p, (h - p) as nat);
    let y = x * pow2((h - p) as nat);
    assert(x * pow2(h) == pow2(p) * y) by(nonlinear_arith)
        requires y == x * pow2((h - p) as nat), pow2(h) == pow2(p) * pow2((h - p) as nat);
    lemma_hoist_over_denominator(s as int, y as int, pow2(p));
    assert(y * pow2(p) == pow2(p) * y) by(nonlinear_arith);
}
pub proof fn lemma_bits_push(w: Seq<u64>, x: u64, pos: nat, len: nat)
    requires pos + len <= 64 * w.len(),
    ensures bits(w.push(x), pos, len) == bits(w, pos, len),
{
    lemma_val_push64(w, x, 64);
    let h = (64 * w.len()) as nat;
    lemma_above(stream(w), x as nat, h, pos);
    let k = (h - pos) as nat;
    lemma_pow2_adds(len, (k - len) as nat);
    lemma_pow2_pos(len);
    let y = x * pow2((k - len) as nat);
    assert(x * pow2(k) == pow2(len) * y) by(nonlinear_arith) requires y == x * pow2((k - len) as nat), pow2(k) == pow2(len) * pow2((k - len) as nat);
    lemma_mod_multiples_vanish(y as int, stream(w) as int / pow2(pos) as int, pow2(len) as int);
}
pub proof fn lemma_stream_bound(w: Seq<u64>)
    ensures stream(w) < pow2(64 * w.len()),
{
    lemma2_to64_rest();
    lemma_val_bound(d64(w), 64);
}
/// all samples already produced keep their value when a word is appended
pub proof fn lemma_keep(out: Seq<i64>, w: Seq<u64>, x: u64, v: nat, n: nat)
    requires out.len() == n, n * stride(v) <= 64 * w.len(), 1 <= v <= 32, forall|j: int| 0 <= j < n ==> (#[trigger] out[j]) == cbd(w, (stride(v) * j) as nat, v),
    ensures forall|j: int| 0 <= j < n ==> (#[trigger] out[j]) == cbd(w.push(x), (stride(v) * j) as nat, v),
{
    assert forall|j: int| 0 <= j < n implies (#[trigger] out[j]) == cbd(w.push(x), (stride(v) * j) as nat, v) by {
        let p = (stride(v) * j) as nat;
        assert(stride(v) * j + stride(v) <= n * stride(v)) by(nonlinear_arith) requires j + 1 <= n;
        lemma_bits_push(w, x, p, 2 * v);
        lemma_bits_push(w, x, p + 2 * v, 2 * v);
    }
}
/// the two masked halves of the pool
pub proof fn lemma_halves(pool: u128, v: usize, number_bits: usize, mask_add: u128, mask_sub: u128, w: Seq<u64>, pos: nat)
    requires 1 <= v <= 32, number_bits == 4 * v,
        mask_add == (u128::MAX >> ((128 - number_bits) as usize)) >> ((2 * v) as usize),
        mask_sub == mask_add << ((2 * v) as usize),
        pool == stream(w) as int / pow2(pos) as int,
    ensures popn((pool & mask_add) as nat) - popn((pool & mask_sub) as nat) == cbd(w, pos, v as nat),
        popn((pool & mask_add) as nat) <= 2 * v, popn((pool & mask_sub) as nat) <= 2 * v,
{
    let k = (2 * v) as usize;
    let m = (u64::MAX >> ((64 - k) as usize)) as u128;
    assert((u128::MAX >> ((128 - number_bits) as usize)) >> k == (u64::MAX >> ((64 - k) as usize)) as u128) by(bit_vector)
        requires number_bits == 2 * k, 1 <= k <= 64;
    lemma_take(pool, k);
    let hi = pool >> k;
    assert((pool & (m << k)) == (((pool >> k) & m) << k)) by(bit_vector) requires 1 <= k <= 64, m == (u64::MAX >> ((64 - k) as usize)) as u128;
    lemma_take(hi, k);
    let h = hi & m;
    lemma_pow2_pos(k as nat);
    lemma_mod_bound(hi as int, pow2(k as nat) as int);
    lemma_mod_bound(pool as int, pow2(k as nat) as int);
    if k < 64 {
        lemma_insert(0, h, k, k as nat);
    } else {
        lemma2_to64_rest();
        assert((h << k) == mul(h, 0x1_0000_0000_0000_0000u128)) by(bit_vector) requires k == 64, h <= 0xffff_ffff_ffff_ffff;
    }
    lemma_pop_shift(h as nat, k as nat);
    lemma_pop_bound(h as nat, k as nat);
    lemma_pop_bound((pool & mask_add) as nat, k as nat);
    lemma_pow2_pos(pos);
    lemma_div_denominator(stream(w) as int, pow2(pos) as int, pow2(k as nat) as int);
    lemma_pow2_adds(pos, k as nat);
}

pub open spec fn sv(o: Vec<i64>) -> Seq<i64> { o@ }
pub open spec fn step_ok(p: u128, w: Seq<u64>, used: nat, nb: nat, variance: usize, number_bits: usize, mask_add: u128, mask_sub: u128) -> bool {
    &&& popn((p & mask_add) as nat) - popn((p & mask_sub) as nat) == cbd(w, used, variance as nat)
    &&& popn((p & mask_add) as nat) <= 2 * variance && popn((p & mask_sub) as nat) <= 2 * variance
    &&& (p >> number_bits) == stream(w) as int / pow2(used + number_bits as nat) as int
    &&& (p >> number_bits) < pow2((nb - number_bits) as nat)
}
pub proof fn lemma_step(p: u128, w: Seq<u64>, used: nat, nb: nat, variance: usize, number_bits: usize, mask_add: u128, mask_sub: u128)
    requires 1 <= variance <= 16, number_bits == 4 * variance, number_bits <= nb, p < pow2(nb),
        mask_add == (u128::MAX >> ((128 - number_bits) as usize)) >> ((2 * variance) as usize),
        mask_sub == mask_add << ((2 * variance) as usize),
        p == stream(w) as int / pow2(used) as int,
    ensures step_ok(p, w, used, nb, variance, number_bits, mask_add, mask_sub),
{
    lemma_halves(p, variance, number_bits, mask_add, mask_sub, w, used);
    lemma_take(p, number_bits);
    lemma_pow2_pos(used); lemma_pow2_pos(number_bits as nat);
    lemma_div_denominator(stream(w) as int, pow2(used) as int, pow2(number_bits as nat) as int);
    lemma_pow2_adds(used, number_bits as nat);
    lemma_pow2_adds(number_bits as nat, (nb - number_bits) as nat);
    let q = (p >> number_bits) as int; let r = pow2((nb - number_bits) as nat) as int; let b = pow2(number_bits as nat) as int;
    lemma_mod_bound(p as int, b);
    assert(q < r) by(nonlinear_arith) requires q * b <= p, p < b * r, b > 0;
}

/// what a successful call guarantees
pub open spec fn cbd_ok(w: Seq<u64>, out: Seq<i64>, n: nat, v: nat) -> bool {
    &&& out.len() == n
    &&& 64 * w.len() - 64 < n * stride(v) && n * stride(v) <= 64 * w.len()
    &&& forall|j: int| 0 <= j < n ==> (#[trigger] out[j]) == cbd(w, (stride(v) * j) as nat, v) && -2 * v <= out[j] && out[j] <= 2 * v
}

//@ fn crates/fhe-util/src/lib.rs sample_vec_cbd
//@ ret r
//@ sig
pub fn sample_vec_cbd(vector_size: usize, variance: usize, rng: &mut VRng) -> (r: core::result::Result<Vec<i64>, &'static str>)
//@ spec
    ensures
        r is Ok <==> 1 <= variance <= 32,
        r is Err ==> final(rng).words@ == old(rng).words@,
        old(rng).words@.is_prefix_of(final(rng).words@),
        r matches Ok(out) ==> cbd_ok(final(rng).words@.skip(old(rng).words@.len() as int), out@, vector_size as nat, variance as nat),
//@ start
    let ghost w0 = rng.words@;
    let ghost mut w: Seq<u64> = Seq::empty();
    let ghost v = variance as nat;
    proof { lemma2_to64(); lemma2_to64_rest(); lemma_stream_bound(w); assert(w0 + w =~= w0); assert(64 * w.len() == 0); }
//@ loop 0
    invariant
        1 <= v <= 16, v == variance, rng.words@ == w0 + w, out@.len() == i_0, l_0 == 0, n_0 == vector_size,
        number_bits == 4 * v, stride(v) == 4 * v,
        mask_add == (u128::MAX >> ((128 - number_bits) as usize)) >> ((2 * variance) as usize),
        mask_sub == mask_add << ((2 * variance) as usize),
        0 <= current_pool_nbits < 64, current_pool_nbits == 64 * w.len() - 4 * v * i_0,
        current_pool == stream(w) as int / pow2((4 * v * i_0) as nat) as int,
        current_pool < pow2(current_pool_nbits as nat),
        forall|j: int| 0 <= j < i_0 ==> (#[trigger] out@[j]) == cbd(w, (stride(v) * j) as nat, v) && -2 * v <= out@[j] && out@[j] <= 2 * v,
//@ loop-before 0
    let ghost _ty = sv(out);
//@ loop-start 0
    let ghost used = (4 * v * i_0) as nat;
    let ghost nb0 = current_pool_nbits;
    proof {
        assert(i_0 * stride(v) == 4 * v * i_0) by(nonlinear_arith) requires stride(v) == 4 * v;
        assert(4 * v * (i_0 + 1) == 4 * v * i_0 + 4 * v) by(nonlinear_arith);
        assert(stride(v) * i_0 == 4 * v * i_0) by(nonlinear_arith) requires stride(v) == 4 * v;
        if current_pool_nbits < number_bits {
            assert forall|x: u64| #![trigger rng.words@.push(x)] ({
                let p2 = current_pool | ((x as u128) << current_pool_nbits);
                &&& step_ok(p2, w.push(x), used, (nb0 + 64) as nat, variance, number_bits, mask_add, mask_sub)
                &&& (rng.words@.push(x) =~= w0 + w.push(x))
                &&& (forall|j: int| 0 <= j < i_0 ==> (#[trigger] out@[j]) == cbd(w.push(x), (stride(v) * j) as nat, v))
            }) by {
                lemma_insert(current_pool, x as u128, current_pool_nbits, 64);
                lemma_val_push64(w, x, 64);
                lemma_above(stream(w), x as nat, (64 * w.len()) as nat, used);
                assert((64 * w.len() - used) as nat == nb0);
                lemma_keep(out@, w, x, v, i_0 as nat);
                lemma_step(current_pool | ((x as u128) << current_pool_nbits), w.push(x), used, (nb0 + 64) as nat, variance, number_bits, mask_add, mask_sub);
            }
        } else {
            lemma_step(current_pool, w, used, nb0 as nat, variance, number_bits, mask_add, mask_sub);
        }
    }
//@ loop-end 0
    proof {
        if nb0 < number_bits { w = w.push(rng.words@.last()); }
    }
//@ loop 1
    invariant
        17 <= v <= 32, v == variance, rng.words@ == w0 + w, out@.len() == i_1, l_1 == 0, n_1 == vector_size,
        number_bits == 4 * v, stride(v) == 128,
        mask_add == (u128::MAX >> ((128 - number_bits) as usize)) >> ((2 * variance) as usize),
        mask_sub == mask_add << ((2 * variance) as usize),
        w.len() == 2 * i_1,
        forall|j: int| 0 <= j < i_1 ==> (#[trigger] out@[j]) == cbd(w, (stride(v) * j) as nat, v) && -2 * v <= out@[j] && out@[j] <= 2 * v,
//@ loop-before 1
    let ghost _ty = sv(out);
//@ loop-start 1
    proof {
        let used = (128 * i_1) as nat;
        assert(i_1 * stride(v) == 128 * i_1) by(nonlinear_arith) requires stride(v) == 128;
        assert(stride(v) * i_1 == 128 * i_1) by(nonlinear_arith) requires stride(v) == 128;
        assert forall|x: u64, y: u64| #![trigger rng.words@.push(x).push(y)] ({
            let p2 = (x as u128) | ((y as u128) << 64);
            let w2 = w.push(x).push(y);
            &&& popn((p2 & mask_add) as nat) - popn((p2 & mask_sub) as nat) == cbd(w2, used, v)
            &&& popn((p2 & mask_add) as nat) <= 2 * v && popn((p2 & mask_sub) as nat) <= 2 * v
            &&& (rng.words@.push(x).push(y) =~= w0 + w2)
            &&& (forall|j: int| 0 <= j < i_1 ==> (#[trigger] out@[j]) == cbd(w2, (stride(v) * j) as nat, v))
        }) by {
            let p2 = (x as u128) | ((y as u128) << 64);
            assert(p2 == add(x as u128, mul(y as u128, 0x1_0000_0000_0000_0000))) by(bit_vector) requires p2 == (x as u128) | ((y as u128) << 64);
            assert(mul(y as u128, 0x1_0000_0000_0000_0000) == y * 0x1_0000_0000_0000_0000);
            lemma_val_push64(w, x, 64);
            lemma_val_push64(w.push(x), y, 64);
            lemma2_to64_rest();
            let h = (64 * w.len()) as nat;
            lemma_pow2_adds(h, 64);
            assert(x * pow2(h) + y * pow2(h + 64) == p2 * pow2(h)) by(nonlinear_arith)
                requires pow2(h + 64) == pow2(h) * 0x1_0000_0000_0000_0000, p2 == x + y * 0x1_0000_0000_0000_0000;
            assert(h == used);
            lemma_above(stream(w), p2 as nat, h, h);
            lemma_stream_bound(w);
            lemma_basic_div(stream(w) as int, pow2(h) as int);
            lemma2_to64();
            assert(pow2((h - h) as nat) == 1) by { assert((h - h) as nat == 0nat); }
            assert(p2 * 1 == p2);
            assert(stream(w.push(x).push(y)) == stream(w) + p2 * pow2(h)) by {
                assert(stream(w.push(x)) == stream(w) + x * pow2(h));
                assert((64 * w.push(x).len()) as nat == h + 64);
                assert(stream(w.push(x).push(y)) == stream(w.push(x)) + y * pow2(h + 64));
            }
            assert(p2 as int == stream(w.push(x).push(y)) as int / pow2(h) as int);
            lemma_halves(p2, variance, number_bits, mask_add, mask_sub, w.push(x).push(y), used);
            lemma_keep(out@, w, x, v, i_1 as nat);
            lemma_keep(out@, w.push(x), y, v, i_1 as nat);
        }
    }
    let ghost wl = rng.words@.len();
//@ loop-end 1
    proof {
        w = w.push(rng.words@[wl as int]).push(rng.words@[wl as int + 1]);
    }
//@ loop-after 0
    proof { 
        assert(vector_size * stride(v) == stride(v) * vector_size) by(nonlinear_arith);
        assert(stride(v) * vector_size == 4 * v * vector_size) by(nonlinear_arith) requires stride(v) == 4 * v;
        assert(rng.words@ == w0 + w);
        assert(cbd_ok(w, sv(out), vector_size as nat, variance as nat));
        assert(rng.words@.skip(w0.len() as int) =~= w);
    }
//@ loop-after 1
    proof { 
        assert(vector_size * stride(v) == stride(v) * vector_size) by(nonlinear_arith);
        assert(stride(v) * vector_size == 128 * vector_size) by(nonlinear_arith) requires stride(v) == 128;
        assert(rng.words@ == w0 + w);
        assert(cbd_ok(w, sv(out), vector_size as nat, variance as nat));
        assert(rng.words@.skip(w0.len() as int) =~= w);
    }
//@ end
