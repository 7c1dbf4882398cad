# generates the two contracts of KeySwitchingKey::generate_c0* in contracts/kskgen.v (after the marker)
p='/verif/contracts/kskgen.v'; s=open(p).read()
M='// ---- generated by tools/mkksk.py\n'; N='// ---- end of the generated part\n'
GEN='''//@ fn crates/fhe/src/bfv/keys/key_switching_key.rs KeySwitchingKey::%(name)s
//@ ret r
//@ subst sk.coeffs.as_ref() => &*sk.coeffs
%(substs)s//@ subst a_s *= &s; => proof { ap = a_s; } a_s *= &s; proof { assert(a_s == pmul(ap, s)); mp = a_s; }
//@ subst b -= &a_s_pb; => proof { ep = b; bp = a_s_pb; } b -= &a_s_pb;
%(sub2)s
//@ sig
    fn %(name)s(sk: &SecretKey, from: &Poly<PowerBasis>, c1: &[Poly<NttShoup>], rng: &mut VRng%(arg)s) -> (r: Result<Vec<Poly<NttShoup>>>)
//@ spec
    requires sk.wf(), from.wf(), %(req)s
        c1@.len() > 0 ==> same(&*from.ctx, &*c1@[0].ctx) && halves_in(c1@, &c1@[0].ctx) && c1@[0].d() == sk.par.deg(),
    ensures r is Ok <==> c1@.len() > 0 && 1 <= sk.par.variance <= 32,
        r matches Ok(v) ==> v@.len() == c1@.len() && halves_in(v@, &c1@[0].ctx) && (forall|l: int| 0 <= l < v@.len() ==> (#[trigger] v@[l]).vt())
            && %(post)s,
//@ start
    let ghost bb = 2 * sk.par.variance as int;
    let ghost mut ap: Poly<Ntt> = arbitrary();
    let ghost mut mp: Poly<Ntt> = arbitrary();
    let ghost mut ep: Poly<PowerBasis> = arbitrary();
    let ghost mut bp: Poly<PowerBasis> = arbitrary();
    let ghost mut fp: Poly<PowerBasis> = arbitrary();
    let ghost mut wp: Poly<PowerBasis> = arbitrary();
    broadcast use lemma_fwd_auto;
%(pre)s//@ after-let s
    proof { assert(pad(sk.s(), s.d()) =~= sk.s()); assert(s.isx(sk.s())); }
%(mid)s//@ loop 0
    invariant
        n_0 == c1@.len(), out_0@.len() == i_0, s.wf(), s.ctx == c1@[0].ctx, s.isx(sk.s()), g0.len() >= n_0, %(inv)s
        done_rows(out_0@, c1@, &c1@[0].ctx, from, sk.s(), g0, bb),
        i_0 > 0 ==> 1 <= sk.par.variance <= 32,
//@ loop-start 0
    proof { let _ = c1@[i_0 as int]; %(ls)s }
//@ loop-end 0
    proof {
        let (k0, k1) = (v_item, c1@[i_0 as int]);
        assert forall|f: Seq<int>| #[trigger] from.coefs(f) implies row_key(&k0, &k1, sk.s(), g0[i_0 as int], f, bb) by {
            lemma_row_key(&k0, &k1, &ap, &s, &bp, &ep, &fp, from, sk.s(), f, g0[i_0 as int], bb);
        }
    }
//@ ret-hint
    proof {
        if r_ is Ok {
            let v = r_->Ok_0@;
            assert(done_rows(v, c1@, &c1@[0].ctx, from, sk.s(), g0, bb));
%(end)s        }
    }
//@ end
'''
a=GEN%dict(name="generate_c0",arg="",
 substs="//@ subst gi * from => from.vscale(gi)\n",
 sub2="//@ subst b += &g_i_from; => proof { fp = g_i_from; } b += &g_i_from; proof { wp = b; }",
 req="sk.par.wf(), c1@.len() <= sk.par.lv(),",
 post="exists|g: Seq<int>| #[trigger] gadget(g, sk.par.moduli@.take(c1@.len() as int)) && forall|f: Seq<int>| #[trigger] from.coefs(f) ==> keys_for(v@, c1@, sk.s(), g, f, b0(sk))",
 pre="    let ghost mut g0: Seq<int> = arbitrary();\n    proof { if c1@.len() > 0 { let l = sk.par.lv() - c1@.len(); assert(sk.par.wf_l(l)); } }\n",
 mid='''//@ after-let rns
    proof {
        g0 = gar(&rns);
        assert forall|l: int, j: int| 0 <= l < rns.n() && 0 <= j < rns.n() implies #[trigger] g0[l] % (#[trigger] rns.moduli_u64@[j] as int) == (if l == j { 1int } else { 0int }) by { lemma_garner(&rns, l, j); }
        assert(rns.moduli_u64@ =~= sk.par.moduli@.take(c1@.len() as int));
    }
''',
 inv="rns.wf(), g0 == gar(&rns), rns.n() == n_0,",
 ls="",
 end='''            assert(gadget(g0, sk.par.moduli@.take(c1@.len() as int)));
            assert forall|f: Seq<int>| #[trigger] from.coefs(f) implies keys_for(v, c1@, sk.s(), g0, f, b0(sk)) by {
                assert forall|l: int| 0 <= l < v.len() implies row_key(#[trigger] &v[l], &c1@[l], sk.s(), g0[l], f, bb) by {}
            }
''')
b=GEN%dict(name="generate_c0_decomposition",arg=", log_base: usize",mid="",
 substs="//@ subst from * &power => from.vscale(&power)\n",
 sub2="//@ subst b += &(from.vscale(&power)); => let v_gf = from.vscale(&power); proof { fp = v_gf; } b += &v_gf; proof { wp = b; }",
 req="c1@.len() > 0 ==> log_base * (c1@.len() - 1) < 64,",
 post="forall|f: Seq<int>| #[trigger] from.coefs(f) ==> keys_for(v@, c1@, sk.s(), powers(log_base as int, v@.len() as int), f, b0(sk))",
 pre="    let ghost g0 = powers(log_base as int, c1@.len() as int);\n",
 inv="",
 ls="assert(i_0 * log_base <= log_base * (c1@.len() - 1)) by (nonlinear_arith) requires i_0 <= c1@.len() - 1, log_base >= 0; assert(log_base * i_0 == i_0 * log_base) by (nonlinear_arith); lemma_pow2_shift((i_0 * log_base) as nat);",
 end='''            assert forall|f: Seq<int>| #[trigger] from.coefs(f) implies keys_for(v, c1@, sk.s(), g0, f, b0(sk)) by {
                assert forall|l: int| 0 <= l < v.len() implies row_key(#[trigger] &v[l], &c1@[l], sk.s(), g0[l], f, bb) by {}
            }
''')
i=s.index(M); j=s.index(N)
open(p,'w').write(s[:i]+M+a+b+s[j:])
