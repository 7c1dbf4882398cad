use crate::cfg::Cfg;
use crate::contract::{self, FnC, Item, Unit};
use crate::rewrite::{FileIndex, Rw};
use quote::ToTokens;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use syn::{Block, Signature};

fn norm(t: impl ToTokens) -> String {
    t.to_token_stream().to_string().replace(' ', "")
}

struct FileData {
    ast: syn::File,
}

fn load_file(repo: &str, f: &str, cache: &mut HashMap<String, FileData>) -> Result<(), String> {
    if cache.contains_key(f) {
        return Ok(());
    }
    let p = format!("{repo}/{f}");
    let t = std::fs::read_to_string(&p).map_err(|e| format!("{p}: {e}"))?;
    let ast = syn::parse_file(&t).map_err(|e| format!("{p}: {e}"))?;
    cache.insert(f.to_string(), FileData { ast });
    Ok(())
}

/// All functions of a file keyed by `Type::name`, `Trait@Type::name`, `name`.
fn index(ast: &syn::File, cfg: &Cfg) -> FileIndex {
    fn walk(items: &[syn::Item], cfg: &Cfg, fns: &mut HashMap<String, (Signature, Block)>) {
        for it in items {
            match it {
                syn::Item::Fn(f) if cfg.enabled(&f.attrs) => {
                    fns.insert(f.sig.ident.to_string(), (f.sig.clone(), (*f.block).clone()));
                }
                syn::Item::Impl(i) if cfg.enabled(&i.attrs) => {
                    let ty = norm(&i.self_ty);
                    let pre = match &i.trait_ {
                        Some((_, p, _)) => format!("{}@{}", norm(p), ty),
                        None => ty,
                    };
                    for x in &i.items {
                        if let syn::ImplItem::Fn(f) = x {
                            if cfg.enabled(&f.attrs) {
                                fns.insert(
                                    format!("{pre}::{}", f.sig.ident),
                                    (f.sig.clone(), f.block.clone()),
                                );
                            }
                        }
                    }
                }
                syn::Item::Mod(m) if cfg.enabled(&m.attrs) => {
                    if let Some((_, items)) = &m.content {
                        walk(items, cfg, fns);
                    }
                }
                _ => {}
            }
        }
    }
    let mut fns = HashMap::new();
    walk(&ast.items, cfg, &mut fns);
    FileIndex { fns }
}

fn print_body(b: &Block) -> String {
    let f: syn::File = syn::parse_quote!(fn v_x() #b);
    let s = prettyplease::unparse(&f);
    let a = s.find('{').unwrap();
    let z = s.rfind('}').unwrap();
    s[a + 1..z].to_string()
}

/// Replace the loop/position markers with contract text.
fn place_marks(body: &str, c: &FnC, errs: &mut Vec<String>, nloops: usize) -> String {
    let mut out = String::new();
    let mut used = BTreeSet::new();
    let get = |t: &str| -> Option<usize> {
        let a = t.find('(')?;
        let z = t.find(')')?;
        t[a + 1..z].parse().ok()
    };
    for line in body.lines() {
        let t = line.trim();
        if t.starts_with("__verif_panic!") {
            out.push_str(c.panics.as_deref().unwrap_or(""));
            continue;
        }
        if t.starts_with("__verif_let!") {
            let a = t.find('(').unwrap();
            let z = t.find(')').unwrap();
            if let Some(x) = c.lets.get(t[a + 1..z].trim()) {
                out.push_str(x);
            }
            continue;
        }
        if t.starts_with("__verif_") {
            let k = get(t).unwrap();
            used.insert(k);
            if t.starts_with("__verif_loop!") {
                // strip the trailing '{' of what has been emitted so far
                let p = out.rfind('{').unwrap();
                out.truncate(p);
                out.push('\n');
                let mut inv = c.inv.get(&k).cloned().unwrap_or_default();
                let has_dec = inv.contains("decreases");
                let (i, n, l) = (format!("i_{k}"), format!("n_{k}"), format!("l_{k}"));
                let counted = body.contains(&format!("let mut {i}"));
                let ranged = body.contains(&format!("let {l} ="));
                if counted {
                    let mut auto = String::from("    invariant\n");
                    if ranged {
                        auto.push_str(&format!("        {l} <= {i}, {i} <= {n} || {i} == {l},\n"));
                    } else {
                        auto.push_str(&format!("        {i} <= {n},\n"));
                    }
                    if let Some(r) = inv.trim_start().strip_prefix("invariant") {
                        auto.push_str(r);
                    } else {
                        auto.push_str(&inv);
                    }
                    inv = auto;
                    if !has_dec {
                        inv.push_str(&format!("\n    decreases {n} - {i},\n"));
                    }
                }
                out.push_str(&inv);
                out.push_str("{\n");
            } else {
                let m = if t.starts_with("__verif_start!") {
                    &c.lstart
                } else if t.starts_with("__verif_end!") {
                    &c.lend
                } else if t.starts_with("__verif_before!") {
                    &c.lbefore
                } else {
                    &c.lafter
                };
                if let Some(x) = m.get(&k) {
                    out.push_str(x);
                }
            }
        } else {
            out.push_str(line);
            out.push('\n');
        }
    }
    for k in c.inv.keys() {
        if !used.contains(k) {
            errs.push(format!("lost anchor: loop {k} (function has {nloops} loops)"));
        }
    }
    out
}

fn print_sig(sig: &Signature, name: &str, ret: &Option<String>) -> String {
    let gen = sig.generics.params.to_token_stream().to_string();
    let gen = if gen.is_empty() { String::new() } else { format!("<{gen}>") };
    let wh = sig.generics.where_clause.to_token_stream().to_string();
    let mut ins = vec![];
    for i in &sig.inputs {
        let s = i.to_token_stream().to_string();
        ins.push(s.replace("* mut u64", "&mut [u64]").replace("* const u64", "&[u64]"));
    }
    let out = match (&sig.output, ret) {
        (syn::ReturnType::Default, _) => String::new(),
        (syn::ReturnType::Type(_, t), Some(r)) => format!(" -> ({r}: {})", t.to_token_stream()),
        (syn::ReturnType::Type(_, t), None) => format!(" -> {}", t.to_token_stream()),
    };
    format!("pub fn {name}{gen}({}){out} {wh}", ins.join(", "))
}

fn fn_name(c: &FnC) -> (String, String) {
    // (impl type or "", fn name)
    let p = c.as_name.clone().unwrap_or_else(|| c.path.clone());
    match p.rfind("::") {
        Some(i) => (p[..i].to_string(), p[i + 2..].to_string()),
        None => (String::new(), p),
    }
}

fn rename_self(t: proc_macro2::TokenStream) -> proc_macro2::TokenStream {
    use proc_macro2::{Group, Ident, TokenTree};
    t.into_iter()
        .map(|x| match x {
            TokenTree::Group(g) => {
                let mut h = Group::new(g.delimiter(), rename_self(g.stream()));
                h.set_span(g.span());
                TokenTree::Group(h)
            }
            TokenTree::Ident(i) if i == "self" => TokenTree::Ident(Ident::new("v_self", i.span())),
            x => x,
        })
        .collect()
}
fn split_impl(ty: &str) -> (String, String) {
    // "<R:Foo>Poly<R>" -> ("<R:Foo>", "Poly<R>")
    if ty.starts_with('<') {
        let mut d = 0;
        for (i, ch) in ty.char_indices() {
            match ch {
                '<' => d += 1,
                '>' => {
                    d -= 1;
                    if d == 0 {
                        return (ty[..=i].to_string(), ty[i + 1..].to_string());
                    }
                }
                _ => {}
            }
        }
    }
    (String::new(), ty.to_string())
}

fn jesc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => {}
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn jlist<'a>(v: impl IntoIterator<Item = &'a String>) -> String {
    let x: Vec<String> = v.into_iter().map(|s| jesc(s)).collect();
    format!("[{}]", x.join(","))
}

pub fn emit(
    repo: &str,
    cdir: &str,
    units: &[String],
    skip: &BTreeSet<String>,
    probes: bool,
) -> (String, String) {
    // transitive imports
    let mut order: Vec<Unit> = vec![];
    fn add(cdir: &str, n: &str, order: &mut Vec<Unit>) {
        if order.iter().any(|u| u.name == n) {
            return;
        }
        let u = contract::load(cdir, n);
        for i in u.imports.clone() {
            add(cdir, &i, order);
        }
        order.push(u);
    }
    for u in units {
        add(cdir, u, &mut order);
    }
    let mut known: BTreeSet<String> = BTreeSet::new();
    for u in &order {
        for it in &u.items {
            match it {
                Item::Fn(c) => {
                    known.insert(c.path.clone());
                    if let Some(a) = &c.as_name {
                        known.insert(a.clone());
                    }
                }
                Item::Text(t) => {
                    // names declared in the prelude: `//known: Type::f`
                    for l in t.lines() {
                        if let Some(k) = l.trim().strip_prefix("//known:") {
                            for w in k.split_whitespace() {
                                known.insert(w.to_string());
                            }
                        }
                    }
                }
                _ => {}
            }
        }
    }
    let mut cache = HashMap::new();
    let mut out = String::from("#![feature(allocator_api)]\n#![allow(unused_imports, unused_variables, unused_mut, dead_code, unused_parens, unused_braces, unused_assignments, non_snake_case, unused_must_use, unreachable_code, path_statements)]\nuse vstd::prelude::*;\n");
    let mut map: Vec<String> = vec![];
    let mut all_rules: BTreeSet<String> = BTreeSet::new();
    for u in &order {
        let selected = units.contains(&u.name);
        out.push_str(&format!("pub mod {} {{\n#[allow(unused_imports)] use vstd::prelude::*;\n", u.name));
        // import everything transitively imported
        for v in &order {
            if v.name == u.name {
                break;
            }
            out.push_str(&format!("#[allow(unused_imports)] use crate::{}::*;\n", v.name));
        }
        out.push_str("verus! {\n");
        for it in &u.items {
            match it {
                Item::Text(t) => out.push_str(t),
                Item::Const { file, name } => {
                    let r = load_file(repo, file, &mut cache);
                    let mut txt = None;
                    if r.is_ok() {
                        txt = find_const(&cache[file].ast.items, name);
                    }
                    match txt {
                        Some(t) => out.push_str(&t),
                        None => map.push(format!(
                            "{{\"unit\":{},\"fn\":{},\"status\":\"lost\",\"errs\":[\"const not found\"]}}",
                            jesc(&u.name),
                            jesc(name)
                        )),
                    }
                }
                Item::Struct { file, name, substs, drop } => {
                    let r = load_file(repo, file, &mut cache);
                    let mut txt = None;
                    if r.is_ok() {
                        txt = find_struct(&cache[file].ast.items, name, drop);
                    }
                    match txt {
                        Some(mut t) => {
                            for (a, b) in substs {
                                t = t.replace(a, b);
                            }
                            out.push_str(&t);
                        }
                        None => map.push(format!(
                            "{{\"unit\":{},\"fn\":{},\"status\":\"lost\",\"errs\":[\"struct not found\"]}}",
                            jesc(&u.name),
                            jesc(name)
                        )),
                    }
                }
                Item::Fn(c) => {
                    let (ty, name) = fn_name(c);
                    let key = format!("{}::{}", u.name, if ty.is_empty() { name.clone() } else { format!("{ty}::{name}") });
                    let mut errs: Vec<String> = vec![];
                    let cfg = Cfg { on: {
                        let mut v = vec!["debug_assertions".to_string()];
                        v.extend(c.cfg.iter().cloned());
                        v
                    } };
                    let mut found = None;
                    match load_file(repo, &c.file, &mut cache) {
                        Ok(()) => {
                            let ix = index(&cache[&c.file].ast, &cfg);
                            match ix.fns.get(&c.path).cloned() {
                                Some(x) => found = Some((x, ix)),
                                None => errs.push(format!("lost anchor: function {} not in {}", c.path, c.file)),
                            }
                        }
                        Err(e) => errs.push(e),
                    }
                    let mut rules = BTreeSet::new();
                    let mut inlined = BTreeSet::new();
                    let mut body = String::new();
                    let mut sig = c.sig.clone().unwrap_or_default();
                    let mut srctext = String::new();
                    if let Some(((s, b), ix)) = found {
                        srctext = format!("{} {}", s.to_token_stream(), b.to_token_stream());
                        let self_ty = c.path.rsplit_once("::").map(|x| x.0.to_string()).unwrap_or_default();
                        let self_ty = self_ty.rsplit_once('@').map(|x| x.1.to_string()).unwrap_or(self_ty);
                        let mut rw = Rw {
                            env: vec![HashMap::new()],
                            nloops: 0,
                            fresh: 0,
                            idx: &ix,
                            known: &known,
                            self_ty,
                            rules: BTreeSet::new(),
                            errs: vec![],
                            cfg,
                            depth: 0,
                            inlined: BTreeSet::new(),
                            arity: 0,
                            refs: c.refs.iter().cloned().collect(),
                            iters: c.iters.iter().cloned().collect(),
                            lets: c.lets.keys().cloned().collect(),
                            panics: c.panics.is_some(),
                            dbgpanics: c.dbgpanics,
                            ops: c.ops,
                        };
                        let mut s = s;
                        let mut b2 = b.clone();
                        if let Some(syn::FnArg::Receiver(r)) = s.inputs.first_mut() {
                            if r.reference.is_none() && r.mutability.is_some() {
                                r.mutability = None;
                                let t = rename_self(b2.to_token_stream());
                                b2 = syn::parse2(t).unwrap();
                                b2.stmts.insert(0, syn::parse_quote!(let mut v_self = self;));
                                rw.rules.insert("`mut self` receivers to a mutable local".into());
                            }
                        }
                        if b2.to_token_stream().to_string().contains("Zeroizing") && crate::rewrite::zeroizing(&mut b2) {
                            rw.rules.insert("Zeroizing::new(x) to x, its as_ref()/as_mut() to references (the wrapper only wipes memory on drop)".into());
                        }
                        if crate::rewrite::tail_collect(&mut b2) {
                            rw.rules.insert("a tail `chain.collect()` into a Result to Ok(chain.collect::<Result<Vec<_>>>()?)".into());
                        }
                        if !c.pderefs.is_empty() {
                            crate::rewrite::pderefs(&mut b2, &c.pderefs);
                            rw.rules.insert("**x on a &Modulus to x.p (its Deref target)".into());
                        }
                        if !c.derefs.is_empty() {
                            crate::rewrite::derefs(&mut b2, &c.derefs);
                            rw.rules.insert("x.iter()/len()/x[i].. on a Ciphertext to its field c (its Deref target); through DerefMut the seed is cleared first (deref_mut is under contract)".into());
                        }
                        let ok = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                            syn::visit_mut::VisitMut::visit_block_mut(&mut rw, &mut b2)
                        }));
                        if ok.is_err() {
                            rw.errs.push("the rewriter does not support this body".into());
                        }
                        let n = rw.nloops;
                        errs.extend(rw.errs);
                        rules = rw.rules;
                        inlined = rw.inlined;
                        let txt = print_body(&b2);
                        body = place_marks(&txt, c, &mut errs, n);
                        if c.sig.is_none() {
                            sig = print_sig(&s, &name, &c.ret);
                        }
                        if s.unsafety.is_some() || s.constness.is_some() {
                            rules.insert("`const`/`unsafe` qualifiers of functions dropped".into());
                        }
                    }
                    for (k, t) in &c.vecs {
                        body = body.replace(
                            &format!("let mut out_{k} = Vec::new();"),
                            &format!("let mut out_{k}: Vec<{t}> = Vec::new();"),
                        );
                    }
                    for (a, b) in &c.substs {
                        // a space of the anchor also stands for a line break of the printed text
                        if !body.contains(a.as_str()) && a.contains(' ') {
                            while let Some((x, y)) = ws_find(&body, a) {
                                body.replace_range(x..y, a);
                                if ws_find(&body, a) == Some((x, x + a.len())) {
                                    break;
                                }
                            }
                        }
                        if !body.contains(a.as_str()) && !sig.contains(a.as_str()) && !body.is_empty() {
                            errs.push(format!("lost anchor: text {a:?} to substitute not found"));
                        }
                        body = body.replace(a.as_str(), b);
                        sig = sig.replace(a.as_str(), b);
                        rules.insert(format!("{key}: text {a:?} replaced by {b:?}"));
                    }
                    let lost = !errs.is_empty();
                    let external = !selected || lost || skip.contains(&key);
                    if sig.trim().is_empty() {
                        // function vanished: nothing to emit
                        map.push(format!(
                            "{{\"unit\":{},\"fn\":{},\"status\":\"lost\",\"errs\":{}}}",
                            jesc(&u.name),
                            jesc(&key),
                            jlist(&errs)
                        ));
                        continue;
                    }
                    all_rules.extend(rules.iter().cloned());
                    let (ig, ity) = split_impl(&ty);
                    let l0 = out.lines().count() + 1;
                    if !ty.is_empty() {
                        out.push_str(&format!("impl{ig} {ity} {{\n"));
                    }
                    if external || probes {
                        out.push_str("#[verifier::external_body]\n");
                    } else {
                        out.push_str("#[verifier::loop_isolation(false)]\n");
                        out.push_str(&c.attrs);
                    }
                    out.push_str(&format!("{sig}\n{}", c.spec));
                    if external || probes {
                        out.push_str("{ unimplemented!() }\n");
                    } else {
                        let ret_hint = if c.ret_hint.trim().is_empty() { None } else { Some(&c.ret_hint) };
                        match ret_hint {
                            Some(h) => out.push_str(&format!(
                                "{{\n{}let r_ = {{\n{}\n}};\n{}\nr_\n}}\n",
                                c.start, body, h
                            )),
                            None => out.push_str(&format!("{{\n{}{}\n}}\n", c.start, body)),
                        }
                    }
                    let has_req = c.spec.contains("requires");
                    let mut probe = String::new();
                    if probes && selected && !lost && !c.noprobe && !skip.contains(&key) {
                        // must-fail reachability probe: same precondition, `assert(false)`
                        let psig = sig.replacen(&format!("fn {name}"), &format!("fn probe__{name}"), 1);
                        let req = if has_req { extract_requires(&c.spec) } else { String::new() };
                        out.push_str(&format!("{psig}\n{req}{{ assert(false); loop decreases 0int {{ assume(false); }} }}\n"));
                        probe = format!("probe__{name}");
                    }
                    if !ty.is_empty() {
                        out.push_str("}\n");
                    }
                    let l1 = out.lines().count();
                    let status = if lost { "lost" } else if !selected { "imported" } else if external { "skipped" } else { "verify" };
                    map.push(format!(
                        "{{\"unit\":{},\"fn\":{},\"file\":{},\"src\":{},\"status\":{},\"errs\":{},\"l0\":{l0},\"l1\":{l1},\"inlined\":{},\"probe\":{},\"hash\":{}}}",
                        jesc(&u.name),
                        jesc(&key),
                        jesc(&c.file),
                        jesc(&c.path),
                        jesc(status),
                        jlist(&errs),
                        jlist(&inlined),
                        jesc(&probe),
                        jesc(&format!("{:016x}", fnv(&srctext)))
                    ));
                }
            }
        }
        out.push_str("} // verus!\n}\n");
    }
    out.push_str("fn main() {}\n");
    let m = format!("{{\"fns\":[\n{}\n],\"rules\":{}}}\n", map.join(",\n"), jlist(&all_rules));
    (out, m)
}

fn fnv(s: &str) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

fn extract_requires(spec: &str) -> String {
    let a = spec.find("requires").unwrap();
    let rest = &spec[a..];
    let end = ["ensures", "decreases", "no_unwind", "opens_invariants"]
        .iter()
        .filter_map(|k| rest.find(k))
        .min()
        .unwrap_or(rest.len());
    let r = rest[..end].to_string();
    // the probe has no notion of the final state
    r
}

fn find_struct(items: &[syn::Item], name: &str, drop: &[String]) -> Option<String> {
    for it in items {
        if let syn::Item::Struct(s) = it {
            if s.ident == name {
                let mut fs = vec![];
                if let syn::Fields::Unnamed(u) = &s.fields {
                    let ts: Vec<String> = u.unnamed.iter().map(|f| format!("pub {}", norm_ty(&f.ty))).collect();
                    return Some(format!("pub struct {name}({});\n", ts.join(", ")));
                }
                for f in &s.fields {
                    let n = f.ident.as_ref()?.to_string();
                    if drop.contains(&n) {
                        continue;
                    }
                    fs.push(format!("    pub {n}: {},", norm_ty(&f.ty)));
                }
                let g = s.generics.params.to_token_stream().to_string();
                let g = if g.is_empty() { g } else { format!("<{g}>") };
                return Some(format!("pub struct {name}{g} {{\n{}\n}}\n", fs.join("\n")));
            }
        }
    }
    None
}

fn norm_ty(t: &syn::Type) -> String {
    t.to_token_stream().to_string().replace(' ', "").replace("&mut", "&mut ")
}

fn find_const(items: &[syn::Item], name: &str) -> Option<String> {
    let (ty, n) = match name.rsplit_once("::") {
        Some((a, b)) => (Some(a), b),
        None => (None, name),
    };
    for it in items {
        match (it, ty) {
            (syn::Item::Const(c), None) if c.ident == n => {
                return Some(format!(
                    "pub const {n}: {} = {};\n",
                    c.ty.to_token_stream(),
                    c.expr.to_token_stream()
                ));
            }
            (syn::Item::Impl(i), Some(t)) if norm(&i.self_ty) == t => {
                for x in &i.items {
                    if let syn::ImplItem::Const(c) = x {
                        if c.ident == n {
                            return Some(format!(
                                "impl {t} {{ pub const {n}: {} = {}; }}\n",
                                c.ty.to_token_stream(),
                                c.expr.to_token_stream()
                            ));
                        }
                    }
                }
            }
            _ => {}
        }
    }
    None
}

#[allow(dead_code)]
fn unused(_: BTreeMap<u8, u8>) {}

/// the text that matches `pat`, a space of which matches any run of white space
fn ws_find(s: &str, pat: &str) -> Option<(usize, usize)> {
    let b = s.as_bytes();
    let p = pat.as_bytes();
    'outer: for i in 0..b.len() {
        let (mut j, mut k) = (i, 0);
        while k < p.len() {
            if p[k] == b' ' {
                if j >= b.len() || !b[j].is_ascii_whitespace() {
                    continue 'outer;
                }
                while j < b.len() && b[j].is_ascii_whitespace() {
                    j += 1;
                }
                k += 1;
            } else {
                if j >= b.len() || b[j] != p[k] {
                    continue 'outer;
                }
                j += 1;
                k += 1;
            }
        }
        return Some((i, j));
    }
    None
}
