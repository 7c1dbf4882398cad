//@ import common
// ---------------------------------------------------------------------------
// fhe-util/src/lib.rs : bit packing. A sequence of n-bit digits is the integer
// val(s, n) = sum s[i] * 2^(n*i); packing keeps the integer and fixes the length,
// and digits of a given length are unique, so packing is lossless and canonical.
// ---------------------------------------------------------------------------
use vstd::arithmetic::power2::*;
use vstd::arithmetic::div_mod::*;
use vstd::arithmetic::mul::*;
use vstd::std_specs::bits::*;

pub assume_specification [usize::div_ceil] (a: usize, b: usize) -> (r: usize)
    requires b != 0,
    ensures r == (a + b - 1) / (b as int);

pub open spec fn val(s: Seq<nat>, n: nat) -> nat
    decreases s.len()
{
    if s.len() == 0 { 0 } else { val(s.drop_last(), n) + s.last() * pow2(n * (s.len() - 1) as nat) }
}
pub open spec fn d64(s: Seq<u64>) -> Seq<nat> { s.map_values(|x: u64| x as nat) }
pub open spec fn d8(s: Seq<u8>) -> Seq<nat> { s.map_values(|x: u8| x as nat) }
pub open spec fn digits(s: Seq<nat>, n: nat) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) < pow2(n) }
pub open spec fn ceil_div(a: int, b: int) -> int { (a + b - 1) / b }

pub proof fn lemma_val_push(s: Seq<nat>, x: nat, n: nat)
    ensures val(s.push(x), n) == val(s, n) + x * pow2(n * s.len()),
{
    assert(s.push(x).drop_last() =~= s);
}
pub proof fn lemma_val_push64(s: Seq<u64>, x: u64, n: nat)
    ensures val(d64(s.push(x)), n) == val(d64(s), n) + x * pow2(n * s.len()), d64(s.push(x)).len() == s.len() + 1,
{
    assert(d64(s.push(x)) =~= d64(s).push(x as nat));
    lemma_val_push(d64(s), x as nat, n);
}
pub proof fn lemma_val_push8(s: Seq<u8>, x: u8)
    ensures val(d8(s.push(x)), 8) == val(d8(s), 8) + x * pow2(8 * s.len()), d8(s.push(x)).len() == s.len() + 1,
{
    assert(d8(s.push(x)) =~= d8(s).push(x as nat));
    lemma_val_push(d8(s), x as nat, 8);
}
pub proof fn lemma_val_bound(s: Seq<nat>, n: nat)
    requires digits(s, n),
    ensures val(s, n) < pow2(n * s.len()),
    decreases s.len()
{
    if s.len() == 0 { lemma2_to64(); assert(n * 0 == 0); }
    else {
        lemma_val_bound(s.drop_last(), n);
        let k = (n * (s.len() - 1)) as nat;
        lemma_pow2_adds(n, k);
        assert(n + k == n * s.len()) by(nonlinear_arith) requires k == n * (s.len() - 1);
        assert(s.last() < pow2(n));
        lemma_pow2_pos(k);
        let x = s.last();
        assert((x + 1) * pow2(k) <= pow2(n) * pow2(k)) by(nonlinear_arith) requires x + 1 <= pow2(n);
        assert((x + 1) * pow2(k) == x * pow2(k) + pow2(k)) by(nonlinear_arith);
    }
}
/// Digits of a given length are determined by the integer.
pub proof fn lemma_val_unique(a: Seq<nat>, b: Seq<nat>, n: nat)
    requires digits(a, n), digits(b, n), a.len() == b.len(), val(a, n) == val(b, n),
    ensures a =~= b,
    decreases a.len()
{
    if a.len() > 0 {
        let k = (n * (a.len() - 1)) as nat;
        lemma_val_bound(a.drop_last(), n);
        lemma_val_bound(b.drop_last(), n);
        lemma_pow2_pos(k);
        let p = pow2(k);
        let (x, y) = (a.last(), b.last());
        let (u, v) = (val(a.drop_last(), n), val(b.drop_last(), n));
        assert(u + x * p == v + y * p);
        assert(x == y) by(nonlinear_arith) requires u + x * p == v + y * p, u < p, v < p, p > 0;
        lemma_val_unique(a.drop_last(), b.drop_last(), n);
        assert(a =~= a.drop_last().push(a.last()));
        assert(b =~= b.drop_last().push(b.last()));
    }
}
/// Padding with zeros does not change the integer.
pub proof fn lemma_val_pad(s: Seq<nat>, n: nat, z: nat)
    ensures val(s + Seq::new(z, |i: int| 0nat), n) == val(s, n),
    decreases z
{
    let zs = Seq::new(z, |i: int| 0nat);
    if z == 0 { assert(s + zs =~= s); }
    else {
        let t = Seq::new((z - 1) as nat, |i: int| 0nat);
        lemma_val_pad(s, n, (z - 1) as nat);
        assert(s + zs =~= (s + t).push(0));
        lemma_val_push(s + t, 0, n);
        assert(0 * pow2(n * (s + t).len()) == 0);
    }
}
/// What one packing call guarantees.
pub open spec fn packed(a: Seq<nat>, n: nat, b: Seq<nat>, m: nat) -> bool {
    b.len() == ceil_div((a.len() * n) as int, m as int) && digits(b, m) && val(b, m) == val(a, n)
}
/// Packing a with width n to width m and back returns a followed by zeros.
pub proof fn lemma_round_trip(a: Seq<nat>, n: nat, b: Seq<nat>, m: nat, c: Seq<nat>)
    requires 1 <= n, 1 <= m, digits(a, n), packed(a, n, b, m), packed(b, m, c, n),
    ensures c.len() >= a.len(), c =~= a + Seq::new((c.len() - a.len()) as nat, |i: int| 0nat),
{
    let bits = (a.len() * n) as int;
    lemma_fundamental_div_mod(bits + m - 1, m as int);
    lemma_mod_bound(bits + m - 1, m as int);
    assert(b.len() * m >= bits) by(nonlinear_arith)
        requires bits + m - 1 == m * b.len() + (bits + m - 1) % (m as int), (bits + m - 1) % (m as int) < m;
    let x = (b.len() * m) as int;
    lemma_fundamental_div_mod(x + n - 1, n as int);
    lemma_mod_bound(x + n - 1, n as int);
    assert(c.len() * n >= x) by(nonlinear_arith)
        requires x + n - 1 == n * c.len() + (x + n - 1) % (n as int), (x + n - 1) % (n as int) < n;
    assert(c.len() >= a.len()) by(nonlinear_arith) requires c.len() * n >= a.len() * n, n >= 1;
    let z = (c.len() - a.len()) as nat;
    lemma_val_pad(a, n, z);
    let t = a + Seq::new(z, |i: int| 0nat);
    lemma_pow2_pos(n);
    assert(digits(t, n));
    lemma_val_unique(c, t, n);
}
/// Packing directly between two widths gives the same digits as going through bytes.
pub proof fn lemma_same_stream(a: Seq<nat>, n: nat, b: Seq<nat>, c: Seq<nat>, m: nat)
    requires packed(a, n, b, m), packed(a, n, c, m),
    ensures b =~= c,
{ lemma_val_unique(b, c, m); }

// ---- machine-level steps --------------------------------------------------
proof fn lemma_shl1(s: nat)
    requires s < 128,
    ensures (1u128 << (s as u128)) == pow2(s),
    decreases s
{
    if s == 0 { lemma2_to64(); assert(1u128 << 0u128 == 1) by(bit_vector); }
    else {
        lemma_shl1((s - 1) as nat);
        lemma_pow2_unfold(s);
        let t = s as u128;
        assert((1u128 << t) == mul(2, 1u128 << ((t - 1) as u128))) by(bit_vector) requires 0 < t < 128;
        assert((1u128 << ((t - 1) as u128)) <= 0x4000_0000_0000_0000_0000_0000_0000_0000u128) by(bit_vector) requires 0 < t < 128;
    }
}
/// inserting v above the s pending bits
pub proof fn lemma_insert(c: u128, v: u128, s: usize, n: nat)
    requires s < 64, c < pow2(s as nat), n <= 64, v < pow2(n),
    ensures (c | (v << s)) == c + v * pow2(s as nat), (c | (v << s)) < pow2(s as nat + n), (v << s) == v * pow2(s as nat),
{
    lemma_shl1(s as nat);
    lemma2_to64(); lemma2_to64_rest();
    if n < 64 { lemma_pow2_strictly_increases(n, 64); }
    let t = s as u128;
    assert((v << s) == (v << t)) by(bit_vector) requires t == s as u128, s < 64;
    let b = 1u128 << t;
    assert((c | (v << t)) == add(c, mul(v, b))) by(bit_vector) requires t < 64, c < b, v <= 0xffff_ffff_ffff_ffff, b == 1u128 << t;
    assert((v << t) == mul(v, b)) by(bit_vector) requires t < 64, v <= 0xffff_ffff_ffff_ffff, b == 1u128 << t;
    assert(b <= 0x8000_0000_0000_0000) by(bit_vector) requires t < 64, b == 1u128 << t;
    assert(v * b <= 0xffff_ffff_ffff_ffff * b) by(nonlinear_arith) requires v <= 0xffff_ffff_ffff_ffff, b >= 0;
    lemma_pow2_adds(s as nat, n);
    assert(c + v * b < b * pow2(n)) by(nonlinear_arith) requires c < b, v + 1 <= pow2(n), b > 0;
}
/// taking the low n bits out
pub proof fn lemma_take(c: u128, n: usize)
    requires 1 <= n <= 64,
    ensures
        (c & ((u64::MAX >> ((64 - n) as usize)) as u128)) == c as int % pow2(n as nat) as int,
        (c >> n) == c as int / pow2(n as nat) as int,
        (c & ((u64::MAX >> ((64 - n) as usize)) as u128)) <= u64::MAX,
        c as int == (c as int / pow2(n as nat) as int) * pow2(n as nat) + c as int % pow2(n as nat) as int,
        0 <= c as int % pow2(n as nat) as int, 
{
    let m = (u64::MAX >> ((64 - n) as usize)) as u128;
    let k = n as u128;
    assert((c >> n) == (c >> k)) by(bit_vector) requires k == n as u128, n <= 64;
    assert(sub(c, mul(c >> k, 1u128 << k)) == c & m) by(bit_vector) requires 1 <= n <= 64, k == n as u128, m == (u64::MAX >> ((64 - n) as usize)) as u128;
    assert((c & m) < (1u128 << k)) by(bit_vector) requires 1 <= n <= 64, k == n as u128, m == (u64::MAX >> ((64 - n) as usize)) as u128;
    assert((c & m) <= 0xffff_ffff_ffff_ffff) by(bit_vector) requires 1 <= n <= 64, m == (u64::MAX >> ((64 - n) as usize)) as u128;
    lemma_shl1(n as nat);
    vstd::bits::lemma_u128_shr_is_div(c, k);
    lemma_fundamental_div_mod(c as int, pow2(n as nat) as int);
    lemma_mod_bound(c as int, pow2(n as nat) as int);
    let q = c >> k;
    let b = 1u128 << k;
    assert(q * b <= c) by(nonlinear_arith) requires q == c as int / b as int, b > 0;
    assert(q * b == b * q) by(nonlinear_arith);
    assert(mul(q, b) == q * b);
    assert(c - q * b < b) by(nonlinear_arith) requires q == c as int / b as int, b > 0;
    assert(c as int == q * b + (c & m));
}
pub proof fn lemma_take8(c: u128)
    ensures (c as u8) == c as int % pow2(8) as int, (c >> 8) == c as int / pow2(8) as int,
        c as int == (c as int / pow2(8) as int) * pow2(8) + c as int % pow2(8) as int, 0 <= c as int % (pow2(8) as int), c as int % (pow2(8) as int) < pow2(8),
        pow2(8) == 256,
{
    lemma2_to64();
    assert((c as u8) == c % 256) by(bit_vector);
    assert((c >> 8) == c / 256) by(bit_vector);
}
/// one output digit: out * 2^0.. bookkeeping
pub proof fn lemma_emit(o: int, w: nat, c: int, q: int, d: int, m: nat, cn: nat, tot: int)
    requires q * pow2(m) + d == c, m <= cn, 0 <= d, 0 <= q, 0 <= c < pow2(cn),
        o + pow2(w) * c == tot,
    ensures (o + d * pow2(w)) + pow2(w + m) * q == tot, q < pow2((cn - m) as nat),
{
    lemma_pow2_adds(w, m);
    lemma_pow2_adds(m, (cn - m) as nat);
    lemma_pow2_pos(m);
    assert(pow2(w) * c == d * pow2(w) + pow2(w) * pow2(m) * q) by(nonlinear_arith) requires q * pow2(m) + d == c;
    let r = pow2((cn - m) as nat);
    assert(q < r) by(nonlinear_arith) requires q * pow2(m) + d < pow2(m) * r, 0 <= d, pow2(m) > 0;
}
/// one input digit
pub proof fn lemma_feed(o: int, w: nat, c: int, cn: nat, v: int, tot: int, nidx: nat)
    requires o + pow2(w) * c == tot, w + cn == nidx,
    ensures o + pow2(w) * (c + v * pow2(cn)) == tot + v * pow2(nidx),
{
    lemma_pow2_adds(w, cn);
    assert(pow2(w) * (c + v * pow2(cn)) == pow2(w) * c + v * (pow2(w) * pow2(cn))) by(nonlinear_arith);
}
pub proof fn lemma_ceil(w: int, cn: int, m: int, len: int)
    requires 0 <= cn < m, w == m * len,
    ensures cn > 0 ==> ceil_div(w + cn, m) == len + 1, cn == 0 ==> ceil_div(w + cn, m) == len,
{
    if cn > 0 {
        assert(w + cn + m - 1 == (len + 1) * m + (cn - 1)) by(nonlinear_arith) requires w == m * len;
        lemma_fundamental_div_mod_converse(w + cn + m - 1, m, len + 1, cn - 1);
    } else {
        assert(w + m - 1 == len * m + (m - 1)) by(nonlinear_arith) requires w == m * len;
        lemma_fundamental_div_mod_converse(w + m - 1, m, len, m - 1);
    }
}
pub proof fn lemma_lz_bits(v: u64, n: nat)
    requires v < pow2(n), n <= 64,
    ensures 64 - u64_leading_zeros(v) <= n,
{
    axiom_u64_leading_zeros(v);
    if n < 64 {
        let lz = u64_leading_zeros(v);
        if 64 - lz > n {
            let k = (63 - lz) as u64;
            vstd::bits::lemma_u64_shr_is_div(v, k);
            lemma_pow2_pos(k as nat);
            if k as nat > n { lemma_pow2_strictly_increases(n, k as nat); }
            lemma_basic_div(v as int, pow2(k as nat) as int);
            assert(v >> k == 0);
            assert(0u64 & 1 == 0) by(bit_vector);
        }
    }
}

//@ fn crates/fhe-util/src/lib.rs transcode_to_bytes
//@ ret r
//@ spec
    requires 1 <= nbits <= 64, digits(d64(a@), nbits as nat), a@.len() * nbits + 8 <= usize::MAX,
    ensures packed(d64(a@), nbits as nat, d8(r@), 8),
//@ start
    let ghost n = nbits as nat;
    proof { lemma2_to64(); lemma2_to64_rest();
      assert(val(d64(a@.take(0)), n) == 0); assert(n * 0 == 0);
      assert forall|x: u128, y: u128| #![trigger y & x] y & x == x & y by { assert(y & x == x & y) by(bit_vector); }
    }
//@ loop 0
    invariant
        1 <= nbits <= 64, n == nbits, digits(d64(a@), n), a@.len() * nbits + 8 <= usize::MAX,
        mask == (u64::MAX >> ((64 - nbits) as usize)) as u128,
        0 <= current_index <= a@.len(), current_value_nbits < 8,
        8 * out@.len() + current_value_nbits == n * current_index,
        current_value < pow2(current_value_nbits as nat),
        val(d8(out@), 8) + pow2(8 * out@.len()) * current_value == val(d64(a@.take(current_index as int)), n),
    decreases a@.len() - current_index,
//@ loop-start 0
    proof {
        let v = a@[current_index as int];
        assert(d64(a@)[current_index as int] == v);
        lemma_lz_bits(v, n);
        lemma_take(v as u128, nbits);
        lemma_small_mod(v as nat, pow2(n));
        lemma_insert(current_value, v as u128, current_value_nbits, n);
        lemma_feed(val(d8(out@), 8) as int, (8 * out@.len()) as nat, current_value as int, current_value_nbits as nat, v as int, val(d64(a@.take(current_index as int)), n) as int, (n * current_index) as nat);
        assert(a@.take(current_index as int + 1) =~= a@.take(current_index as int).push(v));
        lemma_val_push64(a@.take(current_index as int), v, n);
        assert(n * (current_index + 1) == n * current_index + n) by(nonlinear_arith);
        assert(n * (current_index + 1) <= n * a@.len()) by(nonlinear_arith) requires current_index + 1 <= a@.len();
        assert(n * a@.len() == a@.len() * nbits) by(nonlinear_arith) requires n == nbits;
    }
//@ loop 1
    invariant
        1 <= nbits <= 64, n == nbits, 0 < current_index <= a@.len(), current_value_nbits < 72,
        8 * out@.len() + current_value_nbits == n * current_index,
        current_value < pow2(current_value_nbits as nat),
        val(d8(out@), 8) + pow2(8 * out@.len()) * current_value == val(d64(a@.take(current_index as int)), n),
    decreases current_value_nbits,
//@ loop-start 1
    proof {
        lemma_take8(current_value);
        lemma_emit(val(d8(out@), 8) as int, (8 * out@.len()) as nat, current_value as int, current_value as int / 256, current_value as int % 256, 8, current_value_nbits as nat, val(d64(a@.take(current_index as int)), n) as int);
        lemma_val_push8(out@, current_value as u8);
    }
//@ loop-after 0
    proof {
        assert(a@.take(a@.len() as int) =~= a@);
        assert(n * a@.len() == a@.len() * nbits) by(nonlinear_arith) requires n == nbits;
        lemma_ceil((8 * out@.len()) as int, current_value_nbits as int, 8, out@.len() as int);
        lemma_take8(current_value);
        lemma2_to64();
        if current_value_nbits > 0 {
            lemma_pow2_strictly_increases(current_value_nbits as nat, 8);
            lemma_val_push8(out@, current_value as u8);
            lemma_small_mod(current_value as nat, 256);
            assert(pow2(8 * out@.len()) * current_value == current_value * pow2(8 * out@.len())) by(nonlinear_arith);
        } else {
            assert(pow2(8 * out@.len()) * 0 == 0);
        }
        assert forall|s: Seq<u8>| #[trigger] digits(d8(s), 8) by { }
    }
//@ end

//@ fn crates/fhe-util/src/lib.rs transcode_from_bytes
//@ ret r
//@ spec
    requires 1 <= nbits <= 64, b@.len() * 8 + 64 <= usize::MAX,
    ensures packed(d8(b@), 8nat, d64(r@), nbits as nat),
//@ start
    let ghost n = 8nat;
    let ghost m = nbits as nat;
    proof { lemma2_to64(); lemma2_to64_rest();
      assert(val(d8(b@.take(0)), n) == 0); assert(n * 0 == 0); assert(m * 0 == 0);
      lemma_pow2_pos(m);
      assert forall|x: u128, y: u128| #![trigger y & x] y & x == x & y by { assert(y & x == x & y) by(bit_vector); }
    }
//@ loop 0
    invariant
        m == nbits, n == 8, 1 <= nbits <= 64, b@.len() * 8 + 64 <= usize::MAX,
        mask == (u64::MAX >> ((64 - nbits) as usize)) as u128,
        0 <= current_index <= b@.len(), current_value_nbits < m,
        m * out@.len() + current_value_nbits == n * current_index,
        current_value < pow2(current_value_nbits as nat),
        digits(d64(out@), m),
        val(d64(out@), m) + pow2(m * out@.len()) * current_value == val(d8(b@.take(current_index as int)), n),
    decreases b@.len() - current_index,
//@ loop-start 0
    proof {
        let v = b@[current_index as int];
        assert(d8(b@)[current_index as int] == v);
        lemma_small_mod(v as nat, 256); lemma_val_push8(b@.take(current_index as int), v);
        lemma_insert(current_value, v as u128, current_value_nbits, n);
        lemma_feed(val(d64(out@), m) as int, (m * out@.len()) as nat, current_value as int, current_value_nbits as nat, v as int, val(d8(b@.take(current_index as int)), n) as int, (n * current_index) as nat);
        assert(b@.take(current_index as int + 1) =~= b@.take(current_index as int).push(v));
        assert(n * (current_index + 1) == n * current_index + n) by(nonlinear_arith);
        assert(n * (current_index + 1) <= n * b@.len()) by(nonlinear_arith) requires current_index + 1 <= b@.len();
        assert(n * b@.len() == b@.len() * 8) by(nonlinear_arith) requires n == 8nat;
    }
//@ loop 1
    invariant
        m == nbits, n == 8, 1 <= nbits <= 64, b@.len() * 8 + 64 <= usize::MAX, mask == (u64::MAX >> ((64 - nbits) as usize)) as u128,
        0 < current_index <= b@.len(), current_value_nbits < 128,
        m * out@.len() + current_value_nbits == n * current_index,
        current_value < pow2(current_value_nbits as nat),
        digits(d64(out@), m),
        val(d64(out@), m) + pow2(m * out@.len()) * current_value == val(d8(b@.take(current_index as int)), n),
    decreases current_value_nbits,
//@ loop-start 1
    proof {
        lemma_take(current_value, nbits);
        let q = current_value as int / pow2(m) as int;
        let d = current_value as int % (pow2(m) as int);
        lemma_pow2_pos(m); lemma_mod_bound(current_value as int, pow2(m) as int);
        lemma_div_pos_is_pos(current_value as int, pow2(m) as int);
        lemma_emit(val(d64(out@), m) as int, (m * out@.len()) as nat, current_value as int, q, d, m, current_value_nbits as nat, val(d8(b@.take(current_index as int)), n) as int);
        lemma_val_push64(out@, d as u64, m);
        assert(d64(out@.push(d as u64)) =~= d64(out@).push(d as nat));
        assert(m * (out@.len() + 1) == m * out@.len() + m) by(nonlinear_arith);
    }
//@ loop-after 0
    proof {
        assert(b@.take(b@.len() as int) =~= b@);
        assert(n * b@.len() == b@.len() * 8) by(nonlinear_arith) requires n == 8nat;
        lemma_ceil((m * out@.len()) as int, current_value_nbits as int, m as int, out@.len() as int);
        lemma2_to64(); lemma2_to64_rest();
        if current_value_nbits > 0 {
            lemma_pow2_strictly_increases(current_value_nbits as nat, m);
            if m < 64 { lemma_pow2_strictly_increases(m, 64); }
            lemma_val_push64(out@, current_value as u64, m);
            assert(d64(out@.push(current_value as u64)) =~= d64(out@).push(current_value as nat));
            assert(pow2(m * out@.len()) * current_value == current_value * pow2(m * out@.len())) by(nonlinear_arith);
        } else {
            assert(pow2(m * out@.len()) * 0 == 0);
        }
    }
//@ end

//@ fn crates/fhe-util/src/lib.rs transcode_bidirectional
//@ ret r
//@ spec
    requires 1 <= input_nbits <= 64, 1 <= output_nbits <= 64, digits(d64(a@), input_nbits as nat), a@.len() * input_nbits + 64 <= usize::MAX,
    ensures packed(d64(a@), input_nbits as nat, d64(r@), output_nbits as nat),
//@ start
    let ghost n = input_nbits as nat;
    let ghost m = output_nbits as nat;
    proof { lemma2_to64(); lemma2_to64_rest();
      assert(val(d64(a@.take(0)), n) == 0); assert(n * 0 == 0); assert(m * 0 == 0);
      lemma_pow2_pos(m);
      assert forall|x: u128, y: u128| #![trigger y & x] y & x == x & y by { assert(y & x == x & y) by(bit_vector); }
    }
//@ loop 0
    invariant
        m == output_nbits, n == input_nbits, 1 <= input_nbits <= 64, 1 <= output_nbits <= 64, digits(d64(a@), n), a@.len() * input_nbits + 64 <= usize::MAX,
        input_mask == (u64::MAX >> ((64 - input_nbits) as usize)) as u128, output_mask == (u64::MAX >> ((64 - output_nbits) as usize)) as u128,
        0 <= current_index <= a@.len(), current_value_nbits < m,
        m * out@.len() + current_value_nbits == n * current_index,
        current_value < pow2(current_value_nbits as nat),
        digits(d64(out@), m),
        val(d64(out@), m) + pow2(m * out@.len()) * current_value == val(d64(a@.take(current_index as int)), n),
    decreases a@.len() - current_index,
//@ loop-start 0
    proof {
        let v = a@[current_index as int];
        assert(d64(a@)[current_index as int] == v);
        lemma_lz_bits(v, n); lemma_take(v as u128, input_nbits); lemma_small_mod(v as nat, pow2(n)); lemma_val_push64(a@.take(current_index as int), v, n);
        lemma_insert(current_value, v as u128, current_value_nbits, n);
        lemma_feed(val(d64(out@), m) as int, (m * out@.len()) as nat, current_value as int, current_value_nbits as nat, v as int, val(d64(a@.take(current_index as int)), n) as int, (n * current_index) as nat);
        assert(a@.take(current_index as int + 1) =~= a@.take(current_index as int).push(v));
        assert(n * (current_index + 1) == n * current_index + n) by(nonlinear_arith);
        assert(n * (current_index + 1) <= n * a@.len()) by(nonlinear_arith) requires current_index + 1 <= a@.len();
        assert(n * a@.len() == a@.len() * input_nbits) by(nonlinear_arith) requires n == input_nbits;
    }
//@ loop 1
    invariant
        m == output_nbits, n == input_nbits, 1 <= input_nbits <= 64, 1 <= output_nbits <= 64, digits(d64(a@), n), a@.len() * input_nbits + 64 <= usize::MAX, input_mask == (u64::MAX >> ((64 - input_nbits) as usize)) as u128, output_mask == (u64::MAX >> ((64 - output_nbits) as usize)) as u128,
        0 < current_index <= a@.len(), current_value_nbits < 128,
        m * out@.len() + current_value_nbits == n * current_index,
        current_value < pow2(current_value_nbits as nat),
        digits(d64(out@), m),
        val(d64(out@), m) + pow2(m * out@.len()) * current_value == val(d64(a@.take(current_index as int)), n),
    decreases current_value_nbits,
//@ loop-start 1
    proof {
        lemma_take(current_value, output_nbits);
        let q = current_value as int / pow2(m) as int;
        let d = current_value as int % (pow2(m) as int);
        lemma_pow2_pos(m); lemma_mod_bound(current_value as int, pow2(m) as int);
        lemma_div_pos_is_pos(current_value as int, pow2(m) as int);
        lemma_emit(val(d64(out@), m) as int, (m * out@.len()) as nat, current_value as int, q, d, m, current_value_nbits as nat, val(d64(a@.take(current_index as int)), n) as int);
        lemma_val_push64(out@, d as u64, m);
        assert(d64(out@.push(d as u64)) =~= d64(out@).push(d as nat));
        assert(m * (out@.len() + 1) == m * out@.len() + m) by(nonlinear_arith);
    }
//@ loop-after 0
    proof {
        assert(a@.take(a@.len() as int) =~= a@);
        assert(n * a@.len() == a@.len() * input_nbits) by(nonlinear_arith) requires n == input_nbits;
        lemma_ceil((m * out@.len()) as int, current_value_nbits as int, m as int, out@.len() as int);
        lemma2_to64(); lemma2_to64_rest();
        if current_value_nbits > 0 {
            lemma_pow2_strictly_increases(current_value_nbits as nat, m);
            if m < 64 { lemma_pow2_strictly_increases(m, 64); }
            lemma_val_push64(out@, current_value as u64, m);
            assert(d64(out@.push(current_value as u64)) =~= d64(out@).push(current_value as nat));
            assert(pow2(m * out@.len()) * current_value == current_value * pow2(m * out@.len())) by(nonlinear_arith);
        } else {
            assert(pow2(m * out@.len()) * 0 == 0);
        }
    }
//@ end
