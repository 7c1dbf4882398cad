//@ import zqs
// ---------------------------------------------------------------------------
// fhe-math/src/zq/mod.rs : vector operations (element-wise, frame included)
// ---------------------------------------------------------------------------
use vstd::arithmetic::div_mod::*;

/// every element is a canonical residue
pub open spec fn canon(s: Seq<u64>, p: int) -> bool { forall|k: int| 0 <= k < s.len() ==> (#[trigger] s[k]) < p }

//@ fn crates/fhe-math/src/zq/mod.rs Modulus::add_vec
//@ spec
    requires self.wf(), old(a)@.len() == b@.len(), canon(old(a)@, self.p as int), canon(b@, self.p as int),
    ensures final(a)@.len() == old(a)@.len(), canon(final(a)@, self.p as int),
        forall|k: int| 0 <= k < b@.len() ==> (#[trigger] final(a)@[k]) == ((old(a)@[k] + b@[k]) % (self.p as int)),
//@ start
    let ghost a0 = a@;
//@ loop 0
    invariant
        a@.len() == a0.len(),
        forall|k: int| i_0 <= k < a0.len() ==> (#[trigger] a@[k]) == a0[k],
        forall|k: int| 0 <= k < i_0 ==> (#[trigger] a@[k]) < self.p && a@[k] == ((a0[k] + b@[k]) % (self.p as int)),
//@ end

//@ fn crates/fhe-math/src/zq/mod.rs Modulus::add_vec_vt
//@ spec
    requires self.wf(), old(a)@.len() == b@.len(), canon(old(a)@, self.p as int), canon(b@, self.p as int),
    ensures final(a)@.len() == old(a)@.len(), canon(final(a)@, self.p as int),
        forall|k: int| 0 <= k < b@.len() ==> (#[trigger] final(a)@[k]) == ((old(a)@[k] + b@[k]) % (self.p as int)),
//@ start
    let ghost a0 = a@;
    proof {
        let l = a@.len() as int;
        lemma_fundamental_div_mod(l, 16);
        assert forall|x: int, y: int| #![trigger (x - y) % (self.p as int)] (x - y + self.p) % (self.p as int) == (x - y) % (self.p as int) by { lemma_mod_shift(x - y, 1, self.p as int); }
    }
//@ loop 0
    invariant
        a@.len() == a0.len(), n_0 == a0.len() as int / 16,
        forall|k: int| 16 * i_0 <= k < a0.len() ==> (#[trigger] a@[k]) == a0[k],
        forall|k: int| 0 <= k < 16 * i_0 ==> (#[trigger] a@[k]) < self.p && a@[k] == ((a0[k] + b@[k]) % (self.p as int)),
//@ loop 1
    invariant
        i_0 < n_0, a@.len() == a0.len(), n_0 == a0.len() as int / 16, l_1 == 0, n_1 == 16,
        forall|k: int| 16 * i_0 + i_1 <= k < a0.len() ==> (#[trigger] a@[k]) == a0[k],
        forall|k: int| 0 <= k < 16 * i_0 + i_1 ==> (#[trigger] a@[k]) < self.p && a@[k] == ((a0[k] + b@[k]) % (self.p as int)),
//@ loop 2
    invariant
        a@.len() == a0.len(), n_2 == a0.len() as int % 16, 
        forall|k: int| 16 * (a0.len() as int / 16) + i_2 <= k < a0.len() ==> (#[trigger] a@[k]) == a0[k],
        forall|k: int| 0 <= k < 16 * (a0.len() as int / 16) + i_2 ==> (#[trigger] a@[k]) < self.p && a@[k] == ((a0[k] + b@[k]) % (self.p as int)),
//@ end

//@ fn crates/fhe-math/src/zq/mod.rs Modulus::sub_vec
//@ spec
    requires self.wf(), old(a)@.len() == b@.len(), canon(old(a)@, self.p as int), canon(b@, self.p as int),
    ensures final(a)@.len() == old(a)@.len(), canon(final(a)@, self.p as int),
        forall|k: int| 0 <= k < b@.len() ==> (#[trigger] final(a)@[k]) == ((old(a)@[k] - b@[k]) % (self.p as int)),
//@ start
    let ghost a0 = a@;
//@ loop 0
    invariant
        a@.len() == a0.len(),
        forall|k: int| i_0 <= k < a0.len() ==> (#[trigger] a@[k]) == a0[k],
        forall|k: int| 0 <= k < i_0 ==> (#[trigger] a@[k]) < self.p && a@[k] == ((a0[k] - b@[k]) % (self.p as int)),
//@ end

//@ fn crates/fhe-math/src/zq/mod.rs Modulus::sub_vec_vt
//@ spec
    requires self.wf(), old(a)@.len() == b@.len(), canon(old(a)@, self.p as int), canon(b@, self.p as int),
    ensures final(a)@.len() == old(a)@.len(), canon(final(a)@, self.p as int),
        forall|k: int| 0 <= k < b@.len() ==> (#[trigger] final(a)@[k]) == ((old(a)@[k] - b@[k]) % (self.p as int)),
//@ start
    let ghost a0 = a@;
    proof {
        let l = a@.len() as int;
        lemma_fundamental_div_mod(l, 16);
        assert forall|x: int, y: int| #![trigger (x - y) % (self.p as int)] (x - y + self.p) % (self.p as int) == (x - y) % (self.p as int) by { lemma_mod_shift(x - y, 1, self.p as int); }
    }
//@ loop 0
    invariant
        a@.len() == a0.len(), n_0 == a0.len() as int / 16,
        forall|k: int| 16 * i_0 <= k < a0.len() ==> (#[trigger] a@[k]) == a0[k],
        forall|k: int| 0 <= k < 16 * i_0 ==> (#[trigger] a@[k]) < self.p && a@[k] == ((a0[k] - b@[k]) % (self.p as int)),
//@ loop 1
    invariant
        i_0 < n_0, a@.len() == a0.len(), n_0 == a0.len() as int / 16, l_1 == 0, n_1 == 16,
        forall|k: int| 16 * i_0 + i_1 <= k < a0.len() ==> (#[trigger] a@[k]) == a0[k],
        forall|k: int| 0 <= k < 16 * i_0 + i_1 ==> (#[trigger] a@[k]) < self.p && a@[k] == ((a0[k] - b@[k]) % (self.p as int)),
//@ loop 2
    invariant
        a@.len() == a0.len(), n_2 == a0.len() as int % 16, 
        forall|k: int| 16 * (a0.len() as int / 16) + i_2 <= k < a0.len() ==> (#[trigger] a@[k]) == a0[k],
        forall|k: int| 0 <= k < 16 * (a0.len() as int / 16) + i_2 ==> (#[trigger] a@[k]) < self.p && a@[k] == ((a0[k] - b@[k]) % (self.p as int)),
//@ end

//@ fn crates/fhe-math/src/zq/mod.rs Modulus::mul_vec
//@ spec
    requires self.wf(), old(a)@.len() == b@.len(), canon(old(a)@, self.p as int), canon(b@, self.p as int),
    ensures final(a)@.len() == old(a)@.len(), canon(final(a)@, self.p as int),
        forall|k: int| 0 <= k < b@.len() ==> (#[trigger] final(a)@[k]) == ((old(a)@[k] * b@[k]) % (self.p as int)),
//@ start
    let ghost a0 = a@;
//@ loop 0
    invariant
        a@.len() == a0.len(),
        forall|k: int| i_0 <= k < a0.len() ==> (#[trigger] a@[k]) == a0[k],
        forall|k: int| 0 <= k < i_0 ==> (#[trigger] a@[k]) < self.p && a@[k] == ((a0[k] * b@[k]) % (self.p as int)),
//@ loop 1
    invariant
        a@.len() == a0.len(),
        forall|k: int| i_1 <= k < a0.len() ==> (#[trigger] a@[k]) == a0[k],
        forall|k: int| 0 <= k < i_1 ==> (#[trigger] a@[k]) < self.p && a@[k] == ((a0[k] * b@[k]) % (self.p as int)),
//@ end

//@ fn crates/fhe-math/src/zq/mod.rs Modulus::mul_vec_vt
//@ spec
    requires self.wf(), old(a)@.len() == b@.len(), canon(old(a)@, self.p as int), canon(b@, self.p as int),
    ensures final(a)@.len() == old(a)@.len(), canon(final(a)@, self.p as int),
        forall|k: int| 0 <= k < b@.len() ==> (#[trigger] final(a)@[k]) == ((old(a)@[k] * b@[k]) % (self.p as int)),
//@ start
    let ghost a0 = a@;
//@ loop 0
    invariant
        a@.len() == a0.len(),
        forall|k: int| i_0 <= k < a0.len() ==> (#[trigger] a@[k]) == a0[k],
        forall|k: int| 0 <= k < i_0 ==> (#[trigger] a@[k]) < self.p && a@[k] == ((a0[k] * b@[k]) % (self.p as int)),
//@ loop 1
    invariant
        a@.len() == a0.len(),
        forall|k: int| i_1 <= k < a0.len() ==> (#[trigger] a@[k]) == a0[k],
        forall|k: int| 0 <= k < i_1 ==> (#[trigger] a@[k]) < self.p && a@[k] == ((a0[k] * b@[k]) % (self.p as int)),
//@ end

//@ fn crates/fhe-math/src/zq/mod.rs Modulus::scalar_mul_vec
//@ spec
    requires self.wf(), b < self.p,
    ensures final(a)@.len() == old(a)@.len(),
        forall|k: int| 0 <= k < old(a)@.len() ==> (#[trigger] final(a)@[k]) < self.p && final(a)@[k] == ((old(a)@[k] * b) % (self.p as int)),
//@ start
    let ghost a0 = a@;
//@ loop 0
    invariant
        a@.len() == a0.len(),
        forall|k: int| i_0 <= k < a0.len() ==> (#[trigger] a@[k]) == a0[k],
        forall|k: int| 0 <= k < i_0 ==> (#[trigger] a@[k]) < self.p && a@[k] == ((a0[k] * b) % (self.p as int)),
//@ end

//@ fn crates/fhe-math/src/zq/mod.rs Modulus::reduce_vec
//@ spec
    requires self.wf(),
    ensures final(a)@.len() == old(a)@.len(),
        forall|k: int| 0 <= k < old(a)@.len() ==> (#[trigger] final(a)@[k]) < self.p && final(a)@[k] == (old(a)@[k] as int % (self.p as int)),
//@ start
    let ghost a0 = a@;
//@ loop 0
    invariant
        a@.len() == a0.len(),
        forall|k: int| i_0 <= k < a0.len() ==> (#[trigger] a@[k]) == a0[k],
        forall|k: int| 0 <= k < i_0 ==> (#[trigger] a@[k]) < self.p && a@[k] == (a0[k] as int % (self.p as int)),
//@ end

//@ fn crates/fhe-math/src/zq/mod.rs Modulus::neg_vec
//@ spec
    requires self.wf(), canon(old(a)@, self.p as int),
    ensures final(a)@.len() == old(a)@.len(),
        forall|k: int| 0 <= k < old(a)@.len() ==> (#[trigger] final(a)@[k]) < self.p && final(a)@[k] == ((-old(a)@[k]) % (self.p as int)),
//@ start
    let ghost a0 = a@;
//@ loop 0
    invariant
        a@.len() == a0.len(),
        forall|k: int| i_0 <= k < a0.len() ==> (#[trigger] a@[k]) == a0[k],
        forall|k: int| 0 <= k < i_0 ==> (#[trigger] a@[k]) < self.p && a@[k] == ((-a0[k]) % (self.p as int)),
//@ end

//@ fn crates/fhe-math/src/zq/mod.rs Modulus::scalar_mul_vec_vt
//@ spec
    requires self.wf(), b < self.p,
    ensures final(a)@.len() == old(a)@.len(),
        forall|k: int| 0 <= k < old(a)@.len() ==> (#[trigger] final(a)@[k]) < self.p && final(a)@[k] == ((old(a)@[k] * b) % (self.p as int)),
//@ start
    let ghost a0 = a@;
//@ loop 0
    invariant
        a@.len() == a0.len(),
        forall|k: int| i_0 <= k < a0.len() ==> (#[trigger] a@[k]) == a0[k],
        forall|k: int| 0 <= k < i_0 ==> (#[trigger] a@[k]) < self.p && a@[k] == ((a0[k] * b) % (self.p as int)),
//@ end

//@ fn crates/fhe-math/src/zq/mod.rs Modulus::reduce_vec_vt
//@ spec
    requires self.wf(),
    ensures final(a)@.len() == old(a)@.len(),
        forall|k: int| 0 <= k < old(a)@.len() ==> (#[trigger] final(a)@[k]) < self.p && final(a)@[k] == (old(a)@[k] as int % (self.p as int)),
//@ start
    let ghost a0 = a@;
//@ loop 0
    invariant
        a@.len() == a0.len(),
        forall|k: int| i_0 <= k < a0.len() ==> (#[trigger] a@[k]) == a0[k],
        forall|k: int| 0 <= k < i_0 ==> (#[trigger] a@[k]) < self.p && a@[k] == (a0[k] as int % (self.p as int)),
//@ end

//@ fn crates/fhe-math/src/zq/mod.rs Modulus::neg_vec_vt
//@ spec
    requires self.wf(), canon(old(a)@, self.p as int),
    ensures final(a)@.len() == old(a)@.len(),
        forall|k: int| 0 <= k < old(a)@.len() ==> (#[trigger] final(a)@[k]) < self.p && final(a)@[k] == ((-old(a)@[k]) % (self.p as int)),
//@ start
    let ghost a0 = a@;
//@ loop 0
    invariant
        a@.len() == a0.len(),
        forall|k: int| i_0 <= k < a0.len() ==> (#[trigger] a@[k]) == a0[k],
        forall|k: int| 0 <= k < i_0 ==> (#[trigger] a@[k]) < self.p && a@[k] == ((-a0[k]) % (self.p as int)),
//@ end

//@ fn crates/fhe-math/src/zq/mod.rs Modulus::lazy_reduce_vec
//@ spec
    requires self.wf(),
    ensures final(a)@.len() == old(a)@.len(),
        forall|k: int| 0 <= k < old(a)@.len() ==> (#[trigger] final(a)@[k]) < 2 * self.p && final(a)@[k] as int % (self.p as int) == old(a)@[k] as int % (self.p as int),
//@ start
    let ghost a0 = a@;
//@ loop 0
    invariant
        a@.len() == a0.len(),
        forall|k: int| i_0 <= k < a0.len() ==> (#[trigger] a@[k]) == a0[k],
        forall|k: int| 0 <= k < i_0 ==> (#[trigger] a@[k]) < 2 * self.p && a@[k] as int % (self.p as int) == a0[k] as int % (self.p as int),
//@ loop 1
    invariant
        a@.len() == a0.len(),
        forall|k: int| i_1 <= k < a0.len() ==> (#[trigger] a@[k]) == a0[k],
        forall|k: int| 0 <= k < i_1 ==> (#[trigger] a@[k]) < 2 * self.p && a@[k] as int % (self.p as int) == a0[k] as int % (self.p as int),
//@ end

//@ fn crates/fhe-math/src/zq/mod.rs Modulus::shoup_vec
//@ ret r
//@ vec 0 u64
//@ spec
    requires self.wf(), canon(a@, self.p as int),
    ensures r@.len() == a@.len(),
        forall|k: int| 0 <= k < a@.len() ==> (#[trigger] r@[k]) == (shoup_of(a@[k] as int, self.p as int)),
//@ loop 0
    invariant
        n_0 == a@.len(), out_0@.len() == i_0,
        forall|k: int| 0 <= k < i_0 ==> (#[trigger] out_0@[k]) == (shoup_of(a@[k] as int, self.p as int)),
//@ end

//@ fn crates/fhe-math/src/zq/mod.rs Modulus::center_vec
//@ ret r
//@ vec 0 i64
//@ spec
    requires self.wf(), canon(a@, self.p as int),
    ensures r@.len() == a@.len(),
        forall|k: int| 0 <= k < a@.len() ==> (#[trigger] r@[k]) == (center_of(a@[k] as int, self.p as int)),
//@ loop 0
    invariant
        n_0 == a@.len(), out_0@.len() == i_0,
        forall|k: int| 0 <= k < i_0 ==> (#[trigger] out_0@[k]) == (center_of(a@[k] as int, self.p as int)),
//@ end

//@ fn crates/fhe-math/src/zq/mod.rs Modulus::reduce_vec_i64
//@ ret r
//@ vec 0 u64
//@ spec
    requires self.wf(),
    ensures r@.len() == a@.len(),
        forall|k: int| 0 <= k < a@.len() ==> (#[trigger] r@[k]) < self.p && (#[trigger] r@[k]) == (a@[k] as int % (self.p as int)),
//@ loop 0
    invariant
        n_0 == a@.len(), out_0@.len() == i_0,
        forall|k: int| 0 <= k < i_0 ==> (#[trigger] out_0@[k]) < self.p && (#[trigger] out_0@[k]) == (a@[k] as int % (self.p as int)),
//@ end

//@ fn crates/fhe-math/src/zq/mod.rs Modulus::reduce_vec_new
//@ ret r
//@ vec 0 u64
//@ spec
    requires self.wf(),
    ensures r@.len() == a@.len(),
        forall|k: int| 0 <= k < a@.len() ==> (#[trigger] r@[k]) < self.p && (#[trigger] r@[k]) == (a@[k] as int % (self.p as int)),
//@ loop 0
    invariant
        n_0 == a@.len(), out_0@.len() == i_0,
        forall|k: int| 0 <= k < i_0 ==> (#[trigger] out_0@[k]) < self.p && (#[trigger] out_0@[k]) == (a@[k] as int % (self.p as int)),
//@ end

//@ fn crates/fhe-math/src/zq/mod.rs Modulus::reduce_vec_i64_vt
//@ ret r
//@ vec 0 u64
//@ spec
    requires self.wf(),
    ensures r@.len() == a@.len(),
        forall|k: int| 0 <= k < a@.len() ==> (#[trigger] r@[k]) < self.p && (#[trigger] r@[k]) == (a@[k] as int % (self.p as int)),
//@ loop 0
    invariant
        n_0 == a@.len(), out_0@.len() == i_0,
        forall|k: int| 0 <= k < i_0 ==> (#[trigger] out_0@[k]) < self.p && (#[trigger] out_0@[k]) == (a@[k] as int % (self.p as int)),
//@ end

//@ fn crates/fhe-math/src/zq/mod.rs Modulus::reduce_vec_new_vt
//@ ret r
//@ vec 0 u64
//@ spec
    requires self.wf(),
    ensures r@.len() == a@.len(),
        forall|k: int| 0 <= k < a@.len() ==> (#[trigger] r@[k]) < self.p && (#[trigger] r@[k]) == (a@[k] as int % (self.p as int)),
//@ loop 0
    invariant
        n_0 == a@.len(), out_0@.len() == i_0,
        forall|k: int| 0 <= k < i_0 ==> (#[trigger] out_0@[k]) < self.p && (#[trigger] out_0@[k]) == (a@[k] as int % (self.p as int)),
//@ end

//@ fn crates/fhe-math/src/zq/mod.rs Modulus::mul_shoup_vec
//@ spec
    requires self.wf(), old(a)@.len() == b@.len(), b_shoup@.len() == b@.len(), canon(b@, self.p as int),
        forall|k: int| 0 <= k < b@.len() ==> (#[trigger] b_shoup@[k]) == shoup_of(b@[k] as int, self.p as int),
    ensures final(a)@.len() == old(a)@.len(), canon(final(a)@, self.p as int),
        forall|k: int| 0 <= k < b@.len() ==> (#[trigger] final(a)@[k]) == (old(a)@[k] * b@[k]) % (self.p as int),
//@ start
    let ghost a0 = a@;
//@ loop 0
    invariant
        a@.len() == a0.len(),
        forall|k: int| i_0 <= k < a0.len() ==> (#[trigger] a@[k]) == a0[k],
        forall|k: int| 0 <= k < i_0 ==> (#[trigger] a@[k]) < self.p && a@[k] == (a0[k] * b@[k]) % (self.p as int),
//@ end

//@ fn crates/fhe-math/src/zq/mod.rs Modulus::mul_shoup_vec_vt
//@ spec
    requires self.wf(), old(a)@.len() == b@.len(), b_shoup@.len() == b@.len(), canon(b@, self.p as int),
        forall|k: int| 0 <= k < b@.len() ==> (#[trigger] b_shoup@[k]) == shoup_of(b@[k] as int, self.p as int),
    ensures final(a)@.len() == old(a)@.len(), canon(final(a)@, self.p as int),
        forall|k: int| 0 <= k < b@.len() ==> (#[trigger] final(a)@[k]) == (old(a)@[k] * b@[k]) % (self.p as int),
//@ start
    let ghost a0 = a@;
//@ loop 0
    invariant
        a@.len() == a0.len(),
        forall|k: int| i_0 <= k < a0.len() ==> (#[trigger] a@[k]) == a0[k],
        forall|k: int| 0 <= k < i_0 ==> (#[trigger] a@[k]) < self.p && a@[k] == (a0[k] * b@[k]) % (self.p as int),
//@ end

