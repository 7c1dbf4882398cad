//! Syntactic rewriting of function bodies into the Verus subset.  Every rule
//! is semantics preserving on the executable part; the rules that were applied
//! are recorded and end up in the evidence.
use crate::cfg::Cfg;
use proc_macro2::{Span, TokenStream};
use quote::{format_ident, quote, ToTokens};
use std::collections::{BTreeSet, HashMap};
use syn::visit_mut::{self, VisitMut};
use syn::{parse_quote, punctuated::Punctuated, Block, Expr, Pat, Stmt, Token};

#[derive(Clone, Debug)]
pub struct SliceRef {
    pub base: Expr,
    pub off: Option<Expr>,
    pub len: Expr,
}

#[derive(Clone, Debug)]
pub enum Virt {
    /// shadowed: an ordinary local
    None,
    /// a reference to this place
    Elem { place: Expr, mutable: bool },
    /// another name for this expression (which is itself a reference/value)
    Alias(Expr),
    /// a sub-slice of `base`
    Slice(SliceRef),
    /// fixed size chunks of a slice
    Chunks { s: SliceRef, n: Expr },
    /// a non-escaping closure, inlined at its calls
    Closure(syn::ExprClosure),
    /// `if c { closure } else { closure }`
    CondClosure(Expr, syn::ExprClosure, syn::ExprClosure),
    /// a range of rows of a matrix
    Mat(SliceRef),
    /// a mutable view of column `col` of a matrix
    ColMut { base: Expr, col: Expr, lo: Option<Expr> },
}

#[derive(Clone, Debug)]
enum It {
    Range { lo: Expr, hi: Expr },
    Slice { s: SliceRef, mutable: bool },
    Chunks { s: SliceRef, n: Expr },
    Zip(Vec<It>),
    Enumerate(Box<It>),
    Rev(Box<It>),
    Take(Box<It>, Expr),
    Skip(Box<It>, Expr),
    Map(Box<It>, syn::ExprClosure),
    Copied(Box<It>),
    /// one column of a matrix
    Col { base: Expr, col: Expr, mutable: bool },
    /// the columns of a matrix
    Cols { base: Expr, mutable: bool, lo: Option<Expr> },
}

#[derive(Clone, Debug)]
enum Item {
    Elem { place: Expr, mutable: bool },
    Val(Expr),
    Slice(SliceRef),
    Tuple(Vec<Item>),
    Mapped(Box<Item>, syn::ExprClosure),
    ColMut { base: Expr, col: Expr, lo: Option<Expr> },
}

pub struct FileIndex {
    pub fns: HashMap<String, (syn::Signature, Block)>,
}

pub struct Rw<'a> {
    pub env: Vec<HashMap<String, Virt>>,
    pub nloops: usize,
    pub fresh: usize,
    pub idx: &'a FileIndex,
    pub known: &'a BTreeSet<String>,
    pub self_ty: String,
    pub rules: BTreeSet<String>,
    pub errs: Vec<String>,
    pub cfg: Cfg,
    pub depth: usize,
    pub inlined: BTreeSet<String>,
    /// number of components of the `let` pattern being initialised (for multiunzip)
    pub arity: usize,
    /// containers whose elements are not Copy: a loop variable over them stays a reference
    pub refs: BTreeSet<String>,
    /// parameters that are (cloneable) iterators, taken as slices of their items
    pub iters: BTreeSet<String>,
    /// locals after whose `let` the contract places proof text
    pub lets: BTreeSet<String>,
    /// `assert!`/`panic!` may fire (under the contract's `panics` condition)
    pub panics: bool,
    pub dbgpanics: bool,
    pub ops: bool,
}

/// Spell out the `Deref`/`DerefMut` of ciphertexts.
struct PDerefs<'a>(&'a [String]);
impl VisitMut for PDerefs<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        syn::visit_mut::visit_expr_mut(self, e);
        if let Expr::Unary(u) = e {
            if let (syn::UnOp::Deref(_), Expr::Unary(v)) = (&u.op, &*u.expr) {
                if let (syn::UnOp::Deref(_), Expr::Path(p)) = (&v.op, &*v.expr) {
                    if p.path.get_ident().is_some_and(|i| self.0.iter().any(|n| i == n)) {
                        let x = &v.expr;
                        *e = syn::parse_quote!(#x.p);
                    }
                }
            }
        }
    }
}
/// `**x` where x: &Modulus
pub fn pderefs(b: &mut Block, names: &[String]) {
    VisitMut::visit_block_mut(&mut PDerefs(names), b);
}
/// A `collect()` that is the value of the function and collects Results.
pub fn tail_collect(b: &mut syn::Block) -> bool {
    fn fallible(e: &Expr) -> bool {
        match e {
            Expr::MethodCall(m) => m.method == "ok_or" || m.method == "ok_or_else",
            Expr::Call(c) => path_ident(strip(&c.func)).map_or(false, |i| i == "Ok" || i == "Err"),
            Expr::Block(b) => matches!(b.block.stmts.last(), Some(Stmt::Expr(e, None)) if fallible(e)),
            _ => false,
        }
    }
    fn go(e: &mut Expr) -> bool {
        match e {
            Expr::If(i) => {
                let a = tail_collect(&mut i.then_branch);
                let b = i.else_branch.as_mut().map_or(false, |(_, x)| go(x));
                a || b
            }
            Expr::Block(b) => tail_collect(&mut b.block),
            Expr::Match(m) => {
                let mut r = false;
                for a in &mut m.arms {
                    r |= go(&mut a.body);
                }
                r
            }
            Expr::MethodCall(m) if m.method == "collect" => {
                let ty = m.turbofish.as_ref().map(|t| t.to_token_stream().to_string());
                let f = match &ty {
                    Some(t) => t.contains("Result"),
                    None => matches!(strip(&m.receiver), Expr::MethodCall(f) if f.method == "map" && f.args.len() == 1
                        && matches!(strip(&f.args[0]), Expr::Closure(c) if fallible(&c.body))),
                };
                if f {
                    let r = m.receiver.clone();
                    *e = syn::parse_quote!(Ok(#r.collect::<Result<Vec<_>>>()?));
                }
                f
            }
            _ => false,
        }
    }
    match b.stmts.last_mut() {
        Some(Stmt::Expr(e, None)) => go(e),
        _ => false,
    }
}

/// `Zeroizing<T>` only wipes its memory on drop: the wrapper is dropped.
pub fn zeroizing(b: &mut Block) -> bool {
    struct Z {
        names: BTreeSet<String>,
        hit: bool,
    }
    fn is_new(e: &Expr) -> Option<Expr> {
        if let Expr::Call(c) = strip(e) {
            let f = c.func.to_token_stream().to_string().replace(' ', "");
            if (f == "Zeroizing::new" || f.starts_with("Zeroizing::<")) && f.ends_with("::new") && c.args.len() == 1 {
                return Some(c.args[0].clone());
            }
        }
        None
    }
    impl Z {
        fn z(&self, e: &Expr) -> bool {
            match strip(e) {
                Expr::MethodCall(m) if m.method == "clone" && m.args.is_empty() => self.z(&m.receiver),
                x => is_new(x).is_some() || path_ident(x).map_or(false, |n| self.names.contains(&n)),
            }
        }
    }
    impl VisitMut for Z {
        fn visit_local_mut(&mut self, l: &mut syn::Local) {
            let mut ids = vec![];
            pat_idents(&l.pat, &mut ids);
            let z = l.init.as_ref().map_or(false, |i| self.z(&i.expr));
            visit_mut::visit_local_mut(self, l);
            for i in ids {
                if z { self.names.insert(i); } else { self.names.remove(&i); }
            }
        }
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            if let Expr::Unary(u) = e {
                if let (syn::UnOp::Deref(_), Expr::MethodCall(m)) = (&u.op, strip(&u.expr)) {
                    if (m.method == "as_mut" || m.method == "as_ref") && m.args.is_empty() && self.z(&m.receiver) {
                        let mut r = (*m.receiver).clone();
                        self.visit_expr_mut(&mut r);
                        self.hit = true;
                        *e = r;
                        return;
                    }
                }
            }
            if let Expr::MethodCall(m) = e {
                if (m.method == "as_mut" || m.method == "as_ref") && m.args.is_empty() && self.z(&m.receiver) {
                    let mut r = (*m.receiver).clone();
                    let mutable = m.method == "as_mut";
                    self.visit_expr_mut(&mut r);
                    self.hit = true;
                    *e = if mutable { parse_quote!(&mut #r) } else { parse_quote!(&#r) };
                    return;
                }
            }
            if let Some(a) = is_new(e) {
                self.hit = true;
                *e = a;
                self.visit_expr_mut(e);
                return;
            }
            visit_mut::visit_expr_mut(self, e);
        }
        fn visit_macro_mut(&mut self, m: &mut syn::Macro) {
            if let Ok(mut a) = m.parse_body_with(Punctuated::<Expr, Token![,]>::parse_terminated) {
                a.iter_mut().for_each(|e| self.visit_expr_mut(e));
                m.tokens = a.to_token_stream();
            }
        }
    }
    let mut z = Z { names: BTreeSet::new(), hit: false };
    z.visit_block_mut(b);
    z.hit
}
pub fn derefs(b: &mut Block, names: &[String]) {
    struct D<'a> {
        names: &'a [String],
        hit: Vec<String>,
    }
    impl<'a> D<'a> {
        fn is(&self, e: &Expr) -> Option<String> {
            path_ident(strip(e)).filter(|n| self.names.contains(n))
        }
        fn lhs(&mut self, e: &Expr) {
            if let Expr::Index(ix) = strip(e) {
                if let Some(n) = self.is(&ix.expr) {
                    self.hit.push(n);
                }
            }
        }
    }
    impl<'a> VisitMut for D<'a> {
        fn visit_block_mut(&mut self, b: &mut Block) {
            let mut out = vec![];
            for mut st in std::mem::take(&mut b.stmts) {
                let save = std::mem::take(&mut self.hit);
                self.visit_stmt_mut(&mut st);
                let mut hit = std::mem::replace(&mut self.hit, save);
                hit.dedup();
                for n in hit {
                    let n = id(&n);
                    out.push(parse_quote!(#n.seed = None;));
                }
                out.push(st);
            }
            b.stmts = out;
        }
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            match e {
                Expr::MethodCall(m) => {
                    if let Some(n) = self.is(&m.receiver) {
                        let i = id(&n);
                        match m.method.to_string().as_str() {
                            "iter" | "len" | "is_empty" | "get" | "first" | "last" | "split_last" | "split_first" | "to_vec" => {
                                *m.receiver = parse_quote!(#i.c);
                            }
                            "iter_mut" | "get_mut" | "swap" | "reverse" => {
                                *m.receiver = parse_quote!(#i.c);
                                self.hit.push(n);
                            }
                            _ => {}
                        }
                    }
                }
                Expr::Assign(a) => {
                    let l = (*a.left).clone();
                    self.lhs(&l)
                }
                Expr::Binary(b) if is_assign_op(&b.op) => {
                    let l = (*b.left).clone();
                    self.lhs(&l)
                }
                Expr::Reference(r) if r.mutability.is_some() => {
                    let l = (*r.expr).clone();
                    self.lhs(&l)
                }
                _ => {}
            }
            visit_mut::visit_expr_mut(self, e);
            if let Expr::Index(ix) = e {
                if let Some(n) = self.is(&ix.expr) {
                    let i = id(&n);
                    *ix.expr = parse_quote!(#i.c);
                }
            }
        }
        fn visit_macro_mut(&mut self, m: &mut syn::Macro) {
            if let Ok(mut a) = m.parse_body_with(Punctuated::<Expr, Token![,]>::parse_terminated) {
                a.iter_mut().for_each(|e| self.visit_expr_mut(e));
                m.tokens = a.to_token_stream();
            }
        }
    }
    D { names, hit: vec![] }.visit_block_mut(b);
}
fn is_assign_op(o: &syn::BinOp) -> bool {
    use syn::BinOp::*;
    matches!(o, AddAssign(_) | SubAssign(_) | MulAssign(_) | DivAssign(_) | RemAssign(_) | BitAndAssign(_) | BitOrAssign(_) | BitXorAssign(_) | ShlAssign(_) | ShrAssign(_))
}

fn id(s: &str) -> syn::Ident {
    syn::Ident::new(s, Span::call_site())
}

fn path_ident(e: &Expr) -> Option<String> {
    if let Expr::Path(p) = e {
        if p.qself.is_none() {
            return p.path.get_ident().map(|i| i.to_string());
        }
    }
    None
}

fn strip(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => strip(&p.expr),
        Expr::Group(p) => strip(&p.expr),
        Expr::Unsafe(u) if u.block.stmts.len() == 1 => {
            if let Stmt::Expr(x, None) = &u.block.stmts[0] {
                strip(x)
            } else {
                e
            }
        }
        Expr::Block(u) if u.block.stmts.len() == 1 && u.label.is_none() => {
            if let Stmt::Expr(x, None) = &u.block.stmts[0] {
                strip(x)
            } else {
                e
            }
        }
        _ => e,
    }
}

fn is_place(e: &Expr) -> bool {
    match strip(e) {
        Expr::Path(_) => true,
        Expr::Field(f) => is_place(&f.base),
        Expr::Index(i) => is_place(&i.expr) && is_simple(&i.index),
        Expr::Unary(u) if matches!(u.op, syn::UnOp::Deref(_)) => is_place(&u.expr),
        _ => false,
    }
}

/// a boolean field of Poly
fn is_flag(e: &Expr) -> bool {
    matches!(strip(e), Expr::Field(f) if matches!(&f.member, syn::Member::Named(n) if n == "allow_variable_time_computations" || n == "has_lazy_coefficients"))
}
fn is_simple(e: &Expr) -> bool {
    match strip(e) {
        Expr::Lit(_) | Expr::Path(_) => true,
        Expr::Binary(b) => is_simple(&b.left) && is_simple(&b.right),
        Expr::Field(f) => is_simple(&f.base),
        _ => false,
    }
}

/// `Error::X`, `Error::X {..}`, `Error::X(..)`, `SomethingError::X {..}.into()`
fn is_error_value(e: &Expr) -> bool {
    fn path(p: &syn::Path) -> bool {
        let v: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
        let n = v.len();
        n >= 2 && v[n - 2].ends_with("Error") && v[n - 1] != "InvalidModulus" && v[n - 1] != "Other" && v[n - 1].chars().next().unwrap().is_uppercase()
    }
    match strip(e) {
        Expr::Path(p) => path(&p.path),
        Expr::Struct(s) => path(&s.path),
        Expr::Call(c) => matches!(strip(&c.func), Expr::Path(p) if path(&p.path) || (p.path.segments.len() >= 2 && p.path.segments[p.path.segments.len() - 2].ident.to_string().ends_with("Error") && p.path.segments.last().unwrap().ident.to_string().starts_with("invalid_"))),
        Expr::MethodCall(m) => m.method == "into" && m.args.is_empty() && is_error_value(&m.receiver),
        _ => false,
    }
}

/// `s![.., X]` -> X
fn col_arg(e: &Expr) -> Option<Expr> {
    if let Expr::Macro(m) = strip(e) {
        if m.mac.path.is_ident("s") {
            let v = m.mac.parse_body_with(Punctuated::<Expr, Token![,]>::parse_terminated).ok()?;
            if v.len() == 2 && v[0].to_token_stream().to_string() == ".." {
                return Some(v[1].clone());
            }
        }
    }
    None
}

/// `A.slice[_mut](s![lo..hi, ..])` -> (A, lo, hi)
fn row_window(e: &Expr) -> Option<(Expr, Option<Expr>, Option<Expr>)> {
    if let Expr::MethodCall(c) = strip(e) {
        if (c.method == "slice" || c.method == "slice_mut") && c.args.len() == 1 {
            if let Expr::Macro(m) = strip(&c.args[0]) {
                if m.mac.path.is_ident("s") {
                    let v = m.mac.parse_body_with(Punctuated::<Expr, Token![,]>::parse_terminated).ok()?;
                    if v.len() == 2 && v[1].to_token_stream().to_string() == ".." {
                        if let Expr::Range(r) = strip(&v[0]) {
                            if matches!(r.limits, syn::RangeLimits::HalfOpen(_)) {
                                return Some(((*c.receiver).clone(), r.start.clone().map(|x| *x), r.end.clone().map(|x| *x)));
                            }
                        }
                    }
                }
            }
        }
    }
    None
}
fn has_continue(b: &Block) -> bool {
    #[allow(dead_code)]
    struct V(bool, usize);
    impl<'a> syn::visit::Visit<'a> for V {
        fn visit_expr_continue(&mut self, _: &'a syn::ExprContinue) {
            self.0 = true;
        }
        fn visit_expr_while(&mut self, _: &'a syn::ExprWhile) {}
        fn visit_expr_for_loop(&mut self, _: &'a syn::ExprForLoop) {}
        fn visit_expr_loop(&mut self, _: &'a syn::ExprLoop) {}
        fn visit_expr_closure(&mut self, _: &'a syn::ExprClosure) {}
    }
    let mut v = V(false, 0);
    syn::visit::Visit::visit_block(&mut v, b);
    v.0
}

fn has_return(b: &Block) -> bool {
    struct V(bool);
    impl<'a> syn::visit::Visit<'a> for V {
        fn visit_expr_return(&mut self, _: &'a syn::ExprReturn) {
            self.0 = true;
        }
        fn visit_expr_try(&mut self, _: &'a syn::ExprTry) {
            self.0 = true;
        }
        fn visit_expr_closure(&mut self, _: &'a syn::ExprClosure) {}
    }
    let mut v = V(false);
    syn::visit::Visit::visit_block(&mut v, b);
    v.0
}

fn pat_idents(p: &Pat, out: &mut Vec<String>) {
    match p {
        Pat::Ident(i) => out.push(i.ident.to_string()),
        Pat::Tuple(t) => t.elems.iter().for_each(|e| pat_idents(e, out)),
        Pat::TupleStruct(t) => t.elems.iter().for_each(|e| pat_idents(e, out)),
        Pat::Slice(t) => t.elems.iter().for_each(|e| pat_idents(e, out)),
        Pat::Reference(r) => pat_idents(&r.pat, out),
        Pat::Paren(r) => pat_idents(&r.pat, out),
        Pat::Type(r) => pat_idents(&r.pat, out),
        Pat::Struct(s) => s.fields.iter().for_each(|f| pat_idents(&f.pat, out)),
        Pat::Or(o) => o.cases.iter().for_each(|e| pat_idents(e, out)),
        _ => {}
    }
}

impl<'a> Rw<'a> {
    fn rule(&mut self, s: &str) {
        self.rules.insert(s.into());
    }
    fn err(&mut self, s: String) {
        self.errs.push(s);
    }
    fn tmp(&mut self, p: &str) -> syn::Ident {
        self.fresh += 1;
        format_ident!("v_{}{}", p, self.fresh)
    }
    fn look(&self, n: &str) -> Option<Virt> {
        for s in self.env.iter().rev() {
            if let Some(v) = s.get(n) {
                return match v {
                    Virt::None => None,
                    v => Some(v.clone()),
                };
            }
        }
        None
    }
    fn bind(&mut self, n: &str, v: Virt) {
        self.env.last_mut().unwrap().insert(n.into(), v);
    }
    fn shadow(&mut self, p: &Pat) {
        let mut v = vec![];
        pat_idents(p, &mut v);
        for n in v {
            self.bind(&n, Virt::None);
        }
    }
    fn add_off(off: &Option<Expr>, i: Expr) -> Expr {
        match off {
            None => i,
            Some(o) => parse_quote!(#o + (#i)),
        }
    }
    fn sub_place(s: &SliceRef, i: Expr) -> Expr {
        let b = &s.base;
        let ix = Self::add_off(&s.off, i);
        parse_quote!(#b[#ix])
    }

    /// Interpret an (unvisited) expression as a slice-like thing.
    fn slice_of(&mut self, e: &Expr, setup: &mut Vec<Stmt>) -> Option<SliceRef> {
        let e = strip(e).clone();
        if let Some(n) = path_ident(&e) {
            match self.look(&n) {
                Some(Virt::Slice(s)) => return Some(s),
                Some(Virt::Elem { place, .. }) | Some(Virt::Alias(place)) => {
                    return Some(SliceRef { len: parse_quote!(#place.len()), base: place, off: None })
                }
                Some(_) => return None,
                None => {}
            }
        }
        if let Expr::Reference(r) = &e {
            return self.slice_of(&r.expr, setup);
        }
        if let Expr::MethodCall(m) = &e {
            let n = m.method.to_string();
            if m.args.is_empty()
                && matches!(n.as_str(), "as_slice" | "as_mut_slice" | "as_ref" | "as_mut" | "to_slice")
            {
                return self.slice_of(&m.receiver, setup);
            }
        }
        // x[a..b] on a slice
        if let Expr::Index(ix) = &e {
            if let Expr::Range(r) = strip(&ix.index) {
                let s = self.slice_of(&ix.expr, setup)?;
                let lo = r.start.clone().map(|x| *x).unwrap_or(parse_quote!(0usize));
                let hi = r.end.clone().map(|x| *x).unwrap_or(s.len.clone());
                let mut lo = lo;
                let mut hi = hi;
                self.visit_expr_mut(&mut lo);
                self.visit_expr_mut(&mut hi);
                let (tl, th) = (self.tmp("lo"), self.tmp("hi"));
                let l = &s.len;
                setup.push(parse_quote!(let #tl: usize = #lo;));
                setup.push(parse_quote!(let #th: usize = #hi;));
                setup.push(parse_quote!(if !(#tl <= #th && #th <= #l) { vpanic(); }));
                let off = Self::add_off(&s.off, parse_quote!(#tl));
                return Some(SliceRef { base: s.base, off: Some(off), len: parse_quote!((#th - #tl)) });
            }
        }
        let mut v = e.clone();
        self.visit_expr_mut(&mut v);
        if is_place(&v) {
            Some(SliceRef { len: parse_quote!(#v.len()), base: v, off: None })
        } else {
            let t = self.tmp("s");
            setup.push(parse_quote!(let #t = #v;));
            Some(SliceRef { base: parse_quote!(#t), off: None, len: parse_quote!(#t.len()) })
        }
    }

    /// the only row of a matrix view (its element iterator then is that row's)
    fn mat_row(&mut self, id: &str, setup: &mut Vec<Stmt>) -> Option<Expr> {
        if let Some(Virt::Mat(s)) = self.look(id) {
            self.rule("elements of a one-row matrix view are those of the row (one row is an obligation)");
            let l = &s.len;
            setup.push(parse_quote!(if !(#l == 1) { vpanic(); }));
            let (b, off) = (&s.base, s.off.clone().unwrap_or(parse_quote!(0)));
            return Some(parse_quote!(#b[#off]));
        }
        None
    }

    fn analyze(&mut self, e: &Expr, setup: &mut Vec<Stmt>) -> Option<It> {
        let e = strip(e).clone();
        match &e {
            Expr::Range(r) => {
                let mut lo = r.start.clone().map(|b| *b)?;
                let mut hi = r.end.clone().map(|b| *b)?;
                self.visit_expr_mut(&mut lo);
                self.visit_expr_mut(&mut hi);
                if matches!(r.limits, syn::RangeLimits::Closed(_)) {
                    hi = parse_quote!((#hi) + 1);
                }
                Some(It::Range { lo, hi })
            }
            Expr::Macro(m) if m.mac.path.is_ident("izip") => {
                let args = m
                    .mac
                    .parse_body_with(Punctuated::<Expr, Token![,]>::parse_terminated)
                    .ok()?;
                let mut v = vec![];
                for a in args {
                    v.push(self.analyze(&a, setup)?);
                }
                if v.len() == 1 {
                    return v.pop();
                }
                Some(It::Zip(v))
            }
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                match (n.as_str(), m.args.len()) {
                    ("iter" | "into_iter" | "iter_mut", 0) if path_ident(strip(&m.receiver)).map_or(false, |i| matches!(self.look(&i), Some(Virt::Mat(_)))) => {
                        let id = path_ident(strip(&m.receiver))?;
                        let row = self.mat_row(&id, setup)?;
                        Some(It::Slice { s: SliceRef { len: parse_quote!(#row.len()), base: row, off: None }, mutable: n == "iter_mut" })
                    }
                    ("iter" | "into_iter", 0) => {
                        if let Some(id) = path_ident(strip(&m.receiver)) {
                            if let Some(Virt::Chunks { s, n }) = self.look(&id) {
                                return Some(It::Chunks { s, n });
                            }
                        }
                        if let Expr::Range(_) = strip(&m.receiver) {
                            return self.analyze(&m.receiver, setup);
                        }
                        let s = self.slice_of(&m.receiver, setup)?;
                        Some(It::Slice { s, mutable: false })
                    }
                    ("iter_mut", 0) => {
                        if let Some(id) = path_ident(strip(&m.receiver)) {
                            if let Some(Virt::Chunks { s, n }) = self.look(&id) {
                                return Some(It::Chunks { s, n });
                            }
                        }
                        let s = self.slice_of(&m.receiver, setup)?;
                        Some(It::Slice { s, mutable: true })
                    }
                    ("outer_iter" | "rows", 0) | ("outer_iter_mut" | "rows_mut", 0) => {
                        self.rule("ndarray rows: A.outer_iter()/rows() iterated as A.rows[i]");
                        let mutable = n.ends_with("mut");
                        if let Some((mut x, lo, hi)) = row_window(&m.receiver) {
                            self.visit_expr_mut(&mut x);
                            if !is_place(&x) {
                                return None;
                            }
                            self.rule("ndarray A.slice[_mut](s![lo.., ..]) as the rows from lo on");
                            let mut lo = lo.unwrap_or(parse_quote!(0usize));
                            let mut hi = hi.unwrap_or(parse_quote!(#x.rows.len()));
                            self.visit_expr_mut(&mut lo);
                            self.visit_expr_mut(&mut hi);
                            let (tl, th) = (self.tmp("lo"), self.tmp("hi"));
                            setup.push(parse_quote!(let #tl: usize = #lo;));
                            setup.push(parse_quote!(let #th: usize = #hi;));
                            setup.push(parse_quote!(if !(#tl <= #th && #th <= #x.rows.len()) { vpanic(); }));
                            return Some(It::Slice { s: SliceRef { base: parse_quote!(#x.rows), off: Some(parse_quote!(#tl)), len: parse_quote!((#th - #tl)) }, mutable });
                        }
                        if let Some(id) = path_ident(strip(&m.receiver)) {
                            if let Some(Virt::Mat(s)) = self.look(&id) {
                                return Some(It::Slice { s, mutable });
                            }
                        }
                        let mut r = (*m.receiver).clone();
                        self.visit_expr_mut(&mut r);
                        if !is_place(&r) {
                            let t = self.tmp("m");
                            setup.push(parse_quote!(let #t = #r;));
                            r = parse_quote!(#t);
                        }
                        let s = SliceRef {
                            base: parse_quote!(#r.rows),
                            off: None,
                            len: parse_quote!(#r.rows.len()),
                        };
                        Some(It::Slice { s, mutable })
                    }
                    ("axis_iter" | "axis_iter_mut", 1) => {
                        let a = m.args[0].to_token_stream().to_string().replace(' ', "");
                        let mutable = n.ends_with("mut");
                        if a == "Axis(0)" {
                            let mut m2 = m.clone();
                            m2.args.clear();
                            m2.method = id(if mutable { "outer_iter_mut" } else { "outer_iter" });
                            return self.analyze(&Expr::MethodCall(m2), setup);
                        }
                        if a != "Axis(1)" {
                            return None;
                        }
                        self.rule("ndarray columns: A.axis_iter[_mut](Axis(1)) as A.vcol(j) / A.vset_col(j, ..) for j < A.ncols()");
                        let (mut r, win) = match row_window(&m.receiver) {
                            Some((x, lo, None)) => (x, lo),
                            Some(_) => return None,
                            None => ((*m.receiver).clone(), None),
                        };
                        self.visit_expr_mut(&mut r);
                        if !is_place(&r) {
                            return None;
                        }
                        let lo = match win {
                            Some(mut l) => {
                                self.rule("ndarray A.slice[_mut](s![lo.., ..]) as the rows from lo on");
                                self.visit_expr_mut(&mut l);
                                let t = self.tmp("lo");
                                setup.push(parse_quote!(let #t: usize = #l;));
                                Some(parse_quote!(#t))
                            }
                            None => None,
                        };
                        Some(It::Cols { base: r, mutable, lo })
                    }
                    ("slice" | "slice_mut" | "column" | "column_mut", 1) => {
                        let col = if n.starts_with("column") { m.args[0].clone() } else { col_arg(&m.args[0])? };
                        self.rule("ndarray A.slice(s![.., j]) iterated as A.rows[i][j]");
                        let mut r = (*m.receiver).clone();
                        self.visit_expr_mut(&mut r);
                        if !is_place(&r) {
                            return None;
                        }
                        let mut col = col;
                        self.visit_expr_mut(&mut col);
                        let t = self.tmp("j");
                        setup.push(parse_quote!(let #t: usize = #col;));
                        Some(It::Col { base: parse_quote!(#r.rows), col: parse_quote!(#t), mutable: n.ends_with("mut") })
                    }
                    ("clone", 0) if path_ident(strip(&m.receiver)).map_or(false, |i| self.iters.contains(&i)) => {
                        self.analyze(&m.receiver, setup)
                    }
                    ("chunks_exact" | "chunks_exact_mut", 1) => {
                        let s = self.slice_of(&m.receiver, setup)?;
                        let mut n = m.args[0].clone();
                        self.visit_expr_mut(&mut n);
                        let t = self.tmp("c");
                        setup.push(parse_quote!(let #t: usize = #n;));
                        setup.push(parse_quote!(if #t == 0 { vpanic(); }));
                        Some(It::Chunks { s, n: parse_quote!(#t) })
                    }
                    ("enumerate", 0) => Some(It::Enumerate(Box::new(self.analyze(&m.receiver, setup)?))),
                    ("rev", 0) => Some(It::Rev(Box::new(self.analyze(&m.receiver, setup)?))),
                    ("copied" | "cloned", 0) => {
                        Some(It::Copied(Box::new(self.analyze(&m.receiver, setup)?)))
                    }
                    ("zip", 1) => {
                        let a = self.analyze(&m.receiver, setup)?;
                        let b = self.analyze(&m.args[0], setup)?;
                        Some(It::Zip(vec![a, b]))
                    }
                    ("take", 1) => {
                        let a = self.analyze(&m.receiver, setup)?;
                        let mut n = m.args[0].clone();
                        self.visit_expr_mut(&mut n);
                        Some(It::Take(Box::new(a), n))
                    }
                    ("skip", 1) => {
                        let a = self.analyze(&m.receiver, setup)?;
                        let mut n = m.args[0].clone();
                        self.visit_expr_mut(&mut n);
                        let t = self.tmp("k");
                        setup.push(parse_quote!(let #t: usize = #n;));
                        Some(It::Skip(Box::new(a), parse_quote!(#t)))
                    }
                    ("map", 1) => {
                        let a = self.analyze(&m.receiver, setup)?;
                        if let Expr::Closure(c) = strip(&m.args[0]) {
                            Some(It::Map(Box::new(a), c.clone()))
                        } else if let Expr::Path(p) = strip(&m.args[0]) {
                            Some(It::Map(Box::new(a), parse_quote!(|v_m| #p(v_m))))
                        } else {
                            None
                        }
                    }
                    _ => {
                        // some method returning a slice/vec: only with explicit iter()
                        None
                    }
                }
            }
            Expr::Path(_) | Expr::Reference(_) | Expr::Field(_) => {
                if let Some(id) = path_ident(&e) {
                    if let Some(Virt::Chunks { s, n }) = self.look(&id) {
                        return Some(It::Chunks { s, n });
                    }
                    if let Some(Virt::Elem { place, mutable: false }) = self.look(&id) {
                        // a tuple/slice element
                        return Some(It::Slice {
                            s: SliceRef { len: parse_quote!(#place.len()), base: place, off: None },
                            mutable: false,
                        });
                    }
                }
                let mutable = matches!(&e, Expr::Reference(r) if r.mutability.is_some());
                let s = self.slice_of(&e, setup)?;
                Some(It::Slice { s, mutable })
            }
            _ => None,
        }
    }

    fn it_len(it: &It) -> Expr {
        match it {
            It::Range { lo, hi } => parse_quote!(vlen_range(#lo, #hi)),
            It::Slice { s, .. } => s.len.clone(),
            It::Chunks { s, n } => {
                let l = &s.len;
                parse_quote!((#l) / (#n))
            }
            It::Zip(v) => {
                let mut e = Self::it_len(&v[0]);
                for x in &v[1..] {
                    let y = Self::it_len(x);
                    e = parse_quote!(vmin(#e, #y));
                }
                e
            }
            It::Enumerate(i) | It::Rev(i) | It::Map(i, _) | It::Copied(i) => Self::it_len(i),
            It::Take(i, n) => {
                let e = Self::it_len(i);
                parse_quote!(vmin(#e, #n))
            }
            It::Col { base, .. } => parse_quote!(#base.len()),
            It::Cols { base, .. } => parse_quote!(#base.ncols()),
            It::Skip(i, n) => {
                let e = Self::it_len(i);
                parse_quote!(vlen_range(#n, #e))
            }
        }
    }

    fn it_item(it: &It, i: &Expr, n: &Expr) -> Item {
        match it {
            It::Range { lo, .. } => {
                if lo.to_token_stream().to_string() == "0" {
                    Item::Val(i.clone())
                } else {
                    Item::Val(parse_quote!(#lo + #i))
                }
            }
            It::Slice { s, mutable } => {
                Item::Elem { place: Self::sub_place(s, i.clone()), mutable: *mutable }
            }
            It::Chunks { s, n } => {
                let off = Self::add_off(&s.off, parse_quote!(#i * #n));
                Item::Slice(SliceRef { base: s.base.clone(), off: Some(off), len: n.clone() })
            }
            It::Zip(v) => Item::Tuple(v.iter().map(|x| Self::it_item(x, i, n)).collect()),
            It::Enumerate(x) => {
                Item::Tuple(vec![Item::Val(i.clone()), Self::it_item(x, i, n)])
            }
            It::Rev(x) => {
                let l = Self::it_len(x);
                let j: Expr = parse_quote!((#l - 1 - #i));
                Self::it_item(x, &j, n)
            }
            It::Take(x, _) => Self::it_item(x, i, n),
            It::Skip(x, k) => {
                let j: Expr = parse_quote!((#k + #i));
                Self::it_item(x, &j, n)
            }
            It::Map(x, c) => Item::Mapped(Box::new(Self::it_item(x, i, n)), c.clone()),
            It::Col { base, col, mutable } => Item::Elem { place: parse_quote!(#base[#i][#col]), mutable: *mutable },
            It::Cols { base, mutable: false, lo: None } => Item::Val(parse_quote!(&#base.vcol(#i))),
            It::Cols { base, mutable: false, lo: Some(l) } => Item::Val(parse_quote!(&#base.vcol_from(#l, #i))),
            It::Cols { base, mutable: true, lo } => Item::ColMut { base: base.clone(), col: i.clone(), lo: lo.clone() },
            It::Copied(x) => match Self::it_item(x, i, n) {
                Item::Elem { place, .. } => Item::Val(place),
                o => o,
            },
        }
    }

    /// Value of an item (emitting setup).
    fn item_val(&mut self, it: Item, out: &mut Vec<Stmt>) -> Expr {
        match it {
            Item::Val(e) => e,
            Item::Elem { place, mutable } => {
                if mutable {
                    parse_quote!(&mut #place)
                } else {
                    parse_quote!(&#place)
                }
            }
            Item::Slice(_) => {
                self.err("slice item used as value".into());
                parse_quote!(())
            }
            Item::ColMut { .. } => {
                self.err("column view used as value".into());
                parse_quote!(())
            }
            Item::Tuple(v) => {
                let es: Vec<Expr> = v.into_iter().map(|x| self.item_val(x, out)).collect();
                parse_quote!((#(#es),*))
            }
            Item::Mapped(x, c) => self.apply_closure(&c, vec![*x], out),
        }
    }

    fn apply_closure(&mut self, c: &syn::ExprClosure, args: Vec<Item>, out: &mut Vec<Stmt>) -> Expr {
        if c.inputs.len() != args.len() {
            self.err("closure arity".into());
            return parse_quote!(());
        }
        for (p, a) in c.inputs.iter().zip(args) {
            self.bind_pat(p, a, out);
        }
        let mut b = (*c.body).clone();
        self.visit_expr_mut(&mut b);
        b
    }

    fn bind_pat(&mut self, p: &Pat, it: Item, out: &mut Vec<Stmt>) {
        match (p, it) {
            (Pat::Paren(pp), it) => self.bind_pat(&pp.pat, it, out),
            (Pat::Type(pp), it) => self.bind_pat(&pp.pat, it, out),
            (p, Item::Mapped(x, c)) => {
                let e = self.apply_closure(&c, vec![*x], out);
                self.shadow(p);
                out.push(parse_quote!(let #p = #e;));
            }
            (Pat::Wild(_), _) => {}
            (Pat::Ident(i), Item::Elem { place, mutable }) if i.subpat.is_none() => {
                self.bind(&i.ident.to_string(), Virt::Elem { place, mutable });
            }
            (Pat::Ident(i), Item::ColMut { base, col, lo }) => self.bind(&i.ident.to_string(), Virt::ColMut { base, col, lo }),
            (Pat::Ident(i), Item::Slice(s)) => self.bind(&i.ident.to_string(), Virt::Slice(s)),
            (Pat::Ident(_), Item::Val(e)) => {
                self.shadow(p);
                out.push(parse_quote!(let #p = #e;));
            }
            (Pat::Reference(r), Item::Elem { place, .. }) => {
                let q = &r.pat;
                self.shadow(q);
                out.push(parse_quote!(let #q = #place;));
            }
            (Pat::Tuple(t), Item::Tuple(v)) if t.elems.len() == v.len() => {
                for (q, x) in t.elems.iter().zip(v) {
                    self.bind_pat(q, x, out);
                }
            }
            (Pat::Tuple(t), Item::Elem { place, mutable }) => {
                // destructuring a reference to a tuple
                for (k, q) in t.elems.iter().enumerate() {
                    let ix = syn::Index::from(k);
                    self.bind_pat(q, Item::Elem { place: parse_quote!(#place.#ix), mutable }, out);
                }
            }
            (p, Item::Val(e)) => {
                self.shadow(p);
                out.push(parse_quote!(let #p = #e;));
            }
            (p, it) => self.err(format!("unsupported pattern {} for {:?}", p.to_token_stream(), it)),
        }
    }

    fn marks(&self, k: usize) -> (Stmt, Stmt, Stmt, Stmt, Stmt) {
        let k = proc_macro2::Literal::usize_unsuffixed(k);
        (
            parse_quote!(__verif_before!(#k);),
            parse_quote!(__verif_loop!(#k);),
            parse_quote!(__verif_start!(#k);),
            parse_quote!(__verif_end!(#k);),
            parse_quote!(__verif_after!(#k);),
        )
    }

    /// Build the counting loop over `it`; `body` emits the loop body given the item.
    fn build_loop(
        &mut self,
        it: It,
        setup: Vec<Stmt>,
        pre: Vec<Stmt>,
        post: Vec<Stmt>,
        result: Option<Expr>,
        body: &mut dyn FnMut(&mut Self, Item, &mut Vec<Stmt>),
    ) -> Expr {
        let k = self.nloops;
        self.nloops += 1;
        let (iv, nv) = (format_ident!("i_{}", k), format_ident!("n_{}", k));
        let (before, inv, start, end, after) = self.marks(k);
        let ie: Expr = parse_quote!(#iv);
        let ne: Expr = parse_quote!(#nv);
        let mut stmts = setup;
        let direct = matches!(it, It::Range { .. });
        let item;
        if let (true, It::Range { lo, hi }) = (direct, &it) {
            let lv = format_ident!("l_{}", k);
            stmts.push(parse_quote!(let #lv = #lo;));
            stmts.push(parse_quote!(let #nv = #hi;));
            stmts.push(parse_quote!(let mut #iv = #lv;));
            item = Item::Val(ie.clone());
        } else {
            let l = Self::it_len(&it);
            stmts.push(parse_quote!(let #nv: usize = #l;));
            stmts.push(parse_quote!(let mut #iv: usize = 0;));
            item = Self::it_item(&it, &ie, &ne);
        }
        stmts.extend(pre);
        self.env.push(HashMap::new());
        let mut b = vec![inv, start];
        body(self, item, &mut b);
        self.env.pop();
        b.push(end);
        b.push(parse_quote!(#iv += 1;));
        stmts.push(before);
        stmts.push(parse_quote!(while #iv < #nv { #(#b)* }));
        stmts.push(after);
        stmts.extend(post);
        match result {
            Some(r) => parse_quote!({ #(#stmts)* #r }),
            None => parse_quote!({ #(#stmts)* }),
        }
    }

    /// `successors(Some(init), |x| Some(e)).take(n)`
    fn successors(&self, e: &Expr) -> Option<(Expr, syn::ExprClosure, Expr)> {
        let m = if let Expr::MethodCall(m) = strip(e) { m } else { return None };
        if m.method != "take" || m.args.len() != 1 {
            return None;
        }
        let c = if let Expr::Call(c) = strip(&m.receiver) { c } else { return None };
        let f = c.func.to_token_stream().to_string().replace(' ', "");
        if !(f == "successors" || f.ends_with("::successors")) || c.args.len() != 2 {
            return None;
        }
        let some = |e: &Expr| -> Option<Expr> {
            if let Expr::Call(c) = strip(e) {
                if c.func.to_token_stream().to_string() == "Some" && c.args.len() == 1 {
                    return Some(c.args[0].clone());
                }
            }
            None
        };
        let init = some(&c.args[0])?;
        let cl = if let Expr::Closure(c) = strip(&c.args[1]) { c.clone() } else { return None };
        some(&cl.body)?;
        Some((init, cl, m.args[0].clone()))
    }

    fn is_collect_result(m: &syn::ExprMethodCall) -> bool {
        m.method == "collect" && m.turbofish.as_ref().map_or(false, |t| t.to_token_stream().to_string().contains("Result"))
    }
    /// `chain.collect::<Result<Vec<_>>>()` followed by `?` or `.unwrap()`
    fn collect_result(&mut self, m: &syn::ExprMethodCall, unwrap: bool) -> Option<Expr> {
        let save = (self.nloops, self.fresh);
        let mut setup = vec![];
        let it = match self.analyze(&m.receiver, &mut setup) {
            Some(i) => i,
            None => {
                (self.nloops, self.fresh) = save;
                return None;
            }
        };
        self.rule("chain.collect::<Result<Vec<_>>>() followed by ? or unwrap(): loop returning (or failing at) the first Err");
        let k = self.nloops;
        let ov = format_ident!("out_{}", k);
        let ov2 = ov.clone();
        Some(self.build_loop(
            it,
            setup,
            vec![parse_quote!(let mut #ov = Vec::new();)],
            vec![],
            Some(parse_quote!(#ov)),
            &mut |s, item, out| {
                let e = s.item_val(item, out);
                if unwrap {
                    out.push(parse_quote!(#ov2.push((#e).unwrap());));
                } else {
                    out.push(parse_quote!(let v_item = match #e { Ok(v_ok) => v_ok, Err(v_err) => return Err(v_err) };));
                    out.push(parse_quote!(#ov2.push(v_item);));
                }
            },
        ))
    }

    fn try_iter_terminal(&mut self, m: &syn::ExprMethodCall) -> Option<Expr> {
        let n = m.method.to_string();
        let save = (self.nloops, self.fresh);
        let mut setup = vec![];
        match (n.as_str(), m.args.len()) {
            ("for_each", 1) => {
                let c = if let Expr::Closure(c) = strip(&m.args[0]) { c.clone() } else { return None };
                let it = match self.analyze(&m.receiver, &mut setup) {
                    Some(i) => i,
                    None => {
                        (self.nloops, self.fresh) = save;
                        return None;
                    }
                };
                self.rule("iterator chains (izip!/iter/zip/for_each/map/collect) to index loops");
                Some(self.build_loop(it, setup, vec![], vec![], None, &mut |s, item, out| {
                    let e = s.apply_closure(&c, vec![item], out);
                    out.push(Stmt::Expr(e, Some(Default::default())));
                }))
            }
            ("unzip" | "multiunzip", 0) => {
                // `chain.collect::<Result<Vec<_>>>()?.into_iter().unzip()` stops at the first Err
                let mut recv = (*m.receiver).clone();
                let mut fallible = false;
                if let Expr::MethodCall(mi) = strip(&recv) {
                    if mi.method == "into_iter" && mi.args.is_empty() {
                        if let Expr::Try(t) = strip(&mi.receiver) {
                            if let Expr::MethodCall(mc) = strip(&t.expr) {
                                let tf = mc.turbofish.as_ref().map(|t| t.to_token_stream().to_string()).unwrap_or_default();
                                if mc.method == "collect" && tf.contains("Result") {
                                    fallible = true;
                                    recv = (*mc.receiver).clone();
                                    self.rule("chain.collect::<Result<Vec<_>>>()?.into_iter().unzip(): loop returning the first Err");
                                }
                            }
                        }
                    }
                }
                let arity = if n == "unzip" { 2 } else { self.arity };
                if arity < 2 || arity > 8 {
                    return None;
                }
                let m = &recv;
                let it = match self.analyze(m, &mut setup) {
                    Some(i) => i,
                    None => {
                        (self.nloops, self.fresh) = save;
                        return None;
                    }
                };
                self.rule("iterator chains (izip!/iter/zip/for_each/map/collect) to index loops");
                let k = self.nloops;
                let ov: Vec<syn::Ident> = (0..arity).map(|j| format_ident!("out{}_{}", ((b'a' + j as u8) as char).to_string(), k)).collect();
                let ov2 = ov.clone();
                Some(self.build_loop(
                    it,
                    setup,
                    ov.iter().map(|o| parse_quote!(let mut #o = Vec::new();)).collect(),
                    vec![],
                    Some(parse_quote!((#(#ov),*))),
                    &mut |s, item, out| {
                        let e = s.item_val(item, out);
                        let ts: Vec<syn::Ident> = ov2.iter().map(|_| s.tmp("u")).collect();
                        if fallible {
                            out.push(parse_quote!(let (#(#ts),*) = match #e { Ok(v_ok) => v_ok, Err(v_err) => return Err(v_err) };));
                        } else {
                            out.push(parse_quote!(let (#(#ts),*) = #e;));
                        }
                        for (o, t) in ov2.iter().zip(ts) {
                            out.push(parse_quote!(#o.push(#t);));
                        }
                    },
                ))
            }
            ("collect" | "collect_vec", 0) if self.successors(&m.receiver).is_some() => {
                let (mut init, c, mut cnt) = self.successors(&m.receiver)?;
                self.visit_expr_mut(&mut init);
                self.visit_expr_mut(&mut cnt);
                self.rule("successors(Some(a), |x| Some(f(x))).take(n).collect() to a loop keeping the next item");
                let k = self.nloops;
                let ov = format_ident!("out_{}", k);
                let nx = format_ident!("next_{}", k);
                let (ov2, nx2) = (ov.clone(), nx.clone());
                Some(self.build_loop(
                    It::Take(Box::new(It::Range { lo: parse_quote!(0), hi: cnt.clone() }), cnt),
                    setup,
                    vec![parse_quote!(let mut #ov = Vec::new();), parse_quote!(let mut #nx = #init;)],
                    vec![],
                    Some(parse_quote!(#ov)),
                    &mut |s, _item, out| {
                        out.push(parse_quote!(#ov2.push(#nx2);));
                        let e = s.apply_closure(&c, vec![Item::Elem { place: parse_quote!(#nx2), mutable: false }], out);
                        let e = match strip(&e) {
                            Expr::Call(cc) if cc.args.len() == 1 => cc.args[0].clone(),
                            _ => e.clone(),
                        };
                        out.push(parse_quote!(#nx2 = #e;));
                    },
                ))
            }
            ("collect" | "collect_vec", 0) if matches!(strip(&m.receiver), Expr::MethodCall(f) if f.method == "flat_map" && f.args.len() == 1 && matches!(strip(&f.args[0]), Expr::Closure(_))) => {
                let (recv, c) = match strip(&m.receiver) {
                    Expr::MethodCall(f) => match strip(&f.args[0]) {
                        Expr::Closure(c) => ((*f.receiver).clone(), c.clone()),
                        _ => return None,
                    },
                    _ => return None,
                };
                let it = match self.analyze(&recv, &mut setup) {
                    Some(i) => i,
                    None => {
                        (self.nloops, self.fresh) = save;
                        return None;
                    }
                };
                self.rule("chain.flat_map(|x| vector).collect() to a loop appending each vector");
                let k = self.nloops;
                let ov = format_ident!("out_{}", k);
                let ov2 = ov.clone();
                Some(self.build_loop(
                    it,
                    setup,
                    vec![parse_quote!(let mut #ov = Vec::new();)],
                    vec![],
                    Some(parse_quote!(#ov)),
                    &mut |s, item, out| {
                        let e = s.apply_closure(&c, vec![item], out);
                        let t = s.tmp("u");
                        out.push(parse_quote!(let #t = #e;));
                        out.push(parse_quote!(#ov2.extend_from_slice(&#t);));
                    },
                ))
            }
            ("collect" | "collect_vec", 0) if matches!(strip(&m.receiver), Expr::MethodCall(f) if f.method == "filter_map" && f.args.len() == 1 && matches!(strip(&f.args[0]), Expr::Closure(_))) => {
                let (recv, c) = match strip(&m.receiver) {
                    Expr::MethodCall(f) => match strip(&f.args[0]) {
                        Expr::Closure(c) => ((*f.receiver).clone(), c.clone()),
                        _ => return None,
                    },
                    _ => return None,
                };
                let it = match self.analyze(&recv, &mut setup) {
                    Some(i) => i,
                    None => {
                        (self.nloops, self.fresh) = save;
                        return None;
                    }
                };
                self.rule("chain.filter_map(|x| option).collect() to a loop pushing the present values");
                let k = self.nloops;
                let ov = format_ident!("out_{}", k);
                let ov2 = ov.clone();
                Some(self.build_loop(
                    it,
                    setup,
                    vec![parse_quote!(let mut #ov = Vec::new();)],
                    vec![],
                    Some(parse_quote!(#ov)),
                    &mut |s, item, out| {
                        let e = s.apply_closure(&c, vec![item], out);
                        out.push(Stmt::Expr(parse_quote!(match #e { Some(v_some) => #ov2.push(v_some), None => {} }), Some(Default::default())));
                    },
                ))
            }
            ("collect" | "collect_vec", 0) => {
                if let Some(t) = &m.turbofish {
                    let s = t.to_token_stream().to_string();
                    if s.contains("Result") || s.contains("Option") || s.contains("Map") || s.contains("Set") {
                        return None;
                    }
                }
                let it = match self.analyze(&m.receiver, &mut setup) {
                    Some(i) => i,
                    None => {
                        (self.nloops, self.fresh) = save;
                        return None;
                    }
                };
                self.rule("iterator chains (izip!/iter/zip/for_each/map/collect) to index loops");
                let k = self.nloops;
                let ov = format_ident!("out_{}", k);
                let ov2 = ov.clone();
                Some(self.build_loop(
                    it,
                    setup,
                    vec![parse_quote!(let mut #ov = Vec::new();)],
                    vec![],
                    Some(parse_quote!(#ov)),
                    &mut |s, item, out| {
                        let e = s.item_val(item, out);
                        out.push(parse_quote!(#ov2.push(#e);));
                    },
                ))
            }
            ("fold", 2) => {
                let c = if let Expr::Closure(c) = strip(&m.args[1]) { c.clone() } else { return None };
                let it = match self.analyze(&m.receiver, &mut setup) {
                    Some(i) => i,
                    None => {
                        (self.nloops, self.fresh) = save;
                        return None;
                    }
                };
                let mut init = m.args[0].clone();
                self.visit_expr_mut(&mut init);
                self.rule("iterator chains (izip!/iter/zip/for_each/map/collect) to index loops");
                let k = self.nloops;
                let av = format_ident!("acc_{}", k);
                let av2 = av.clone();
                Some(self.build_loop(
                    it,
                    setup,
                    vec![parse_quote!(let mut #av = #init;)],
                    vec![],
                    Some(parse_quote!(#av)),
                    &mut |s, item, out| {
                        let e = s.apply_closure(&c, vec![Item::Val(parse_quote!(#av2)), item], out);
                        out.push(parse_quote!(#av2 = #e;));
                    },
                ))
            }
            ("sum" | "product", 0) if m.turbofish.is_some() => {
                let ty = m.turbofish.as_ref()?.args.first()?.to_token_stream().to_string();
                let it = match self.analyze(&m.receiver, &mut setup) {
                    Some(i) => i,
                    None => {
                        (self.nloops, self.fresh) = save;
                        return None;
                    }
                };
                let add = n == "sum";
                let init: Expr = match (ty.as_str(), add) {
                    ("BigUint", true) => parse_quote!(BigUint::from(0u64)),
                    ("BigUint", false) => parse_quote!(BigUint::from(1u64)),
                    ("usize", true) => parse_quote!(0usize),
                    ("usize", false) => parse_quote!(1usize),
                    ("u64", true) => parse_quote!(0u64),
                    ("u64", false) => parse_quote!(1u64),
                    _ => {
                        (self.nloops, self.fresh) = save;
                        return None;
                    }
                };
                self.rule("iterator sum/product to an accumulating loop");
                let k = self.nloops;
                let av = format_ident!("acc_{}", k);
                let av2 = av.clone();
                Some(self.build_loop(
                    it,
                    setup,
                    vec![parse_quote!(let mut #av = #init;)],
                    vec![],
                    Some(parse_quote!(#av)),
                    &mut |s, item, out| {
                        let e = match item {
                            Item::Elem { place, .. } => place,
                            i => s.item_val(i, out),
                        };
                        out.push(if add { parse_quote!(#av2 = #av2 + (#e);) } else { parse_quote!(#av2 = #av2 * (#e);) });
                    },
                ))
            }
            ("min" | "max", 0) => {
                let it = match self.analyze(&m.receiver, &mut setup) {
                    Some(i) => i,
                    None => {
                        (self.nloops, self.fresh) = save;
                        return None;
                    }
                };
                self.rule("iterator min/max (of numbers) to a loop keeping the least/greatest item");
                let less = n == "min";
                let k = self.nloops;
                let av = format_ident!("acc_{}", k);
                let av2 = av.clone();
                Some(self.build_loop(
                    it,
                    setup,
                    vec![parse_quote!(let mut #av = None;)],
                    vec![],
                    Some(parse_quote!(#av)),
                    &mut |s, item, out| {
                        let e = s.item_val(item, out);
                        out.push(parse_quote!(let v_item = #e;));
                        out.push(if less {
                            parse_quote!(#av2 = match #av2 { None => Some(v_item), Some(v_best) => Some(if v_item < v_best { v_item } else { v_best }) };)
                        } else {
                            parse_quote!(#av2 = match #av2 { None => Some(v_item), Some(v_best) => Some(if v_item < v_best { v_best } else { v_item }) };)
                        });
                    },
                ))
            }
            ("count", 0) if matches!(strip(&m.receiver), Expr::MethodCall(f) if f.method == "take_while" && f.args.len() == 1 && matches!(strip(&f.args[0]), Expr::Closure(_))) => {
                let (recv, c) = match strip(&m.receiver) {
                    Expr::MethodCall(f) => match strip(&f.args[0]) {
                        Expr::Closure(c) => ((*f.receiver).clone(), c.clone()),
                        _ => return None,
                    },
                    _ => return None,
                };
                let it = match self.analyze(&recv, &mut setup) {
                    Some(i) => i,
                    None => {
                        (self.nloops, self.fresh) = save;
                        return None;
                    }
                };
                self.rule("chain.take_while(pure predicate).count() to a loop counting until the first item that fails");
                let k = self.nloops;
                let av = format_ident!("acc_{}", k);
                let st = format_ident!("stop_{}", k);
                let (av2, st2) = (av.clone(), st.clone());
                Some(self.build_loop(
                    it,
                    setup,
                    vec![parse_quote!(let mut #av: usize = 0;), parse_quote!(let mut #st: bool = false;)],
                    vec![],
                    Some(parse_quote!(#av)),
                    &mut |s, item, out| {
                        let e = s.apply_closure(&c, vec![item], out);
                        out.push(parse_quote!(if !(#e) { #st2 = true; }));
                        out.push(parse_quote!(if !#st2 { #av2 = #av2 + 1; }));
                    },
                ))
            }
            ("all" | "any", 1) => {
                let c: syn::ExprClosure = match strip(&m.args[0]) {
                    Expr::Closure(c) => c.clone(),
                    Expr::Path(p) if p.path.segments.len() == 2 => {
                        let f = &p.path.segments[1].ident;
                        parse_quote!(|v_x| v_x.#f())
                    }
                    _ => return None,
                };
                if let Expr::MethodCall(ch) = strip(&m.receiver) {
                    if ch.method == "chain" && ch.args.len() == 1 {
                        let (mut a, mut b) = (m.clone(), m.clone());
                        a.receiver = ch.receiver.clone();
                        b.receiver = Box::new(ch.args[0].clone());
                        let (mut a, mut b) = (Expr::MethodCall(a), Expr::MethodCall(b));
                        self.rule("a.chain(b).all(f) to a.all(f) && b.all(f) (any: ||)");
                        self.visit_expr_mut(&mut a);
                        self.visit_expr_mut(&mut b);
                        return Some(if n == "all" { parse_quote!((#a && #b)) } else { parse_quote!((#a || #b)) });
                    }
                }
                let it = match self.analyze(&m.receiver, &mut setup) {
                    Some(i) => i,
                    None => {
                        (self.nloops, self.fresh) = save;
                        return None;
                    }
                };
                self.rule("iterator all/any to index loops without short circuit (pure predicates)");
                let k = self.nloops;
                let av = format_ident!("acc_{}", k);
                let av2 = av.clone();
                let all = n == "all";
                let init: Expr = if all { parse_quote!(true) } else { parse_quote!(false) };
                Some(self.build_loop(
                    it,
                    setup,
                    vec![parse_quote!(let mut #av: bool = #init;)],
                    vec![],
                    Some(parse_quote!(#av)),
                    &mut |s, item, out| {
                        let e = s.apply_closure(&c, vec![item], out);
                        if all {
                            out.push(parse_quote!(if !(#e) { #av2 = false; }));
                        } else {
                            out.push(parse_quote!(if #e { #av2 = true; }));
                        }
                    },
                ))
            }
            _ => None,
        }
    }

    fn copy_in_out(&mut self, args: &mut Punctuated<Expr, Token![,]>) -> Option<(Vec<Stmt>, Vec<Stmt>)> {
        // decide whether any argument is a virtual mutable element
        let mut idxs = vec![];
        let mut cols = vec![];
        for (i, a) in args.iter().enumerate() {
            let a = strip(a);
            if let Some(Virt::ColMut { base, col, lo }) = path_ident(a).and_then(|n| self.look(&n)) {
                cols.push((i, base, col, lo));
                continue;
            }
            if let Some(n) = path_ident(a) {
                if let Some(Virt::Elem { mutable: true, place }) = self.look(&n) {
                    idxs.push((i, place));
                }
            } else if let Expr::Reference(r) = a {
                if r.mutability.is_some() {
                    match strip(&r.expr) {
                        Expr::Index(ix) => {
                            let mut p = Expr::Index(ix.clone());
                            self.visit_expr_mut(&mut p);
                            idxs.push((i, p));
                        }
                        Expr::Unary(u) if matches!(u.op, syn::UnOp::Deref(_)) => {
                            if let Some(n) = path_ident(strip(&u.expr)) {
                                if let Some(Virt::Elem { mutable: true, place }) = self.look(&n) {
                                    idxs.push((i, place));
                                }
                            }
                        }
                        _ => {}
                    }
                }
            }
        }
        if !cols.is_empty() && idxs.is_empty() {
            self.rule("a column view as an argument: copied out, passed, copied back");
            let (mut pre, mut post): (Vec<Stmt>, Vec<Stmt>) = (vec![], vec![]);
            for (i, base, col, lo) in cols {
                let t = self.tmp("e");
                match lo {
                    Some(l) => {
                        pre.push(parse_quote!(let mut #t = #base.vcol_from(#l, #col);));
                        post.push(parse_quote!(#base.vset_col_from(#l, #col, &#t);));
                    }
                    None => {
                        pre.push(parse_quote!(let mut #t = #base.vcol(#col);));
                        post.push(parse_quote!(#base.vset_col(#col, &#t);));
                    }
                }
                args[i] = parse_quote!(&mut #t);
            }
            return Some((pre, post));
        }
        if idxs.len() < 2 {
            // a single element: rustc/Verus can borrow the place directly
            return None;
        }
        self.rule("calls with several &mut slice elements: copy in / copy out (disjointness checked)");
        let mut pre = vec![];
        let mut post = vec![];
        for (i, place) in idxs {
            let t = self.tmp("e");
            pre.push(parse_quote!(let mut #t = #place;));
            post.push(parse_quote!(#place = #t;));
            args[i] = parse_quote!(&mut #t);
        }
        Some((pre, post))
    }

    fn try_inline(&mut self, key: &str, recv: Option<Expr>, args: Vec<Expr>) -> Option<Expr> {
        if self.depth > 3 {
            return None;
        }
        let (sig, block) = self.idx.fns.get(key)?.clone();
        if has_return(&block) {
            return None;
        }
        self.rule("calls of helpers without a contract are inlined");
        self.inlined.insert(key.into());
        let mut scope: HashMap<String, Virt> = HashMap::new();
        let mut pre: Vec<Stmt> = vec![];
        let mut ai = args.into_iter();
        for inp in &sig.inputs {
            match inp {
                syn::FnArg::Receiver(_) => {
                    let r = recv.clone()?;
                    if path_ident(&r).as_deref() != Some("self") {
                        let r = if let Expr::Reference(x) = &r { (*x.expr).clone() } else { r };
                        scope.insert("self".into(), Virt::Alias(r));
                    }
                }
                syn::FnArg::Typed(t) => {
                    let a = ai.next()?;
                    let is_ref = matches!(&*t.ty, syn::Type::Reference(_));
                    let mut_ref = matches!(&*t.ty, syn::Type::Reference(r) if r.mutability.is_some());
                    let name = if let Pat::Ident(i) = &*t.pat { Some(i.ident.to_string()) } else { None };
                    match (is_ref, name) {
                        (true, Some(n)) => {
                            let a2 = strip(&a).clone();
                            if let Expr::Reference(r) = &a2 {
                                if is_place(&r.expr) {
                                    scope.insert(n, Virt::Elem { place: (*r.expr).clone(), mutable: mut_ref });
                                    continue;
                                }
                            } else if is_place(&a2) {
                                scope.insert(n, Virt::Alias(a2));
                                continue;
                            }
                            let p = &t.pat;
                            scope.insert(n, Virt::None);
                            pre.push(parse_quote!(let #p = #a;));
                        }
                        (_, _) => {
                            let p = &t.pat;
                            let ty = &t.ty;
                            let mut v = vec![];
                            pat_idents(p, &mut v);
                            for n in v {
                                scope.insert(n, Virt::None);
                            }
                            pre.push(parse_quote!(let #p: #ty = #a;));
                        }
                    }
                }
            }
        }
        // evaluate the body in a fresh environment
        let saved = std::mem::take(&mut self.env);
        self.env.push(scope);
        self.depth += 1;
        let mut b = block;
        self.visit_block_mut(&mut b);
        self.depth -= 1;
        self.env = saved;
        let s = &b.stmts;
        // rename parameters to avoid capturing caller names in later arguments:
        // arguments are evaluated first, into temporaries, then bound.
        let mut tmps: Vec<Stmt> = vec![];
        let mut binds: Vec<Stmt> = vec![];
        for st in pre {
            if let Stmt::Local(l) = &st {
                let t = self.tmp("a");
                let init = &l.init.as_ref().unwrap().expr;
                let p = &l.pat;
                tmps.push(parse_quote!(let #t = #init;));
                binds.push(parse_quote!(let #p = #t;));
            }
        }
        Some(parse_quote!({ #(#tmps)* #(#binds)* #(#s)* }))
    }

    fn rewrite_macro(&mut self, m: &syn::Macro) -> Option<Expr> {
        let name = m.path.segments.last().unwrap().ident.to_string();
        let may = self.panics && (self.dbgpanics || !name.starts_with("debug_"));
        let fail: Expr = if may && m.tokens.to_string().contains("ptr_eq") {
            self.rule("assert!(Arc::ptr_eq(..)): an abort that never returns");
            parse_quote!(vabort())
        } else if may {
            self.rule("assert!/panic! of a documented refusal: an abort that never returns, with the obligation that the operands are incompatible");
            parse_quote!({ __verif_panic!(); vabort() })
        } else {
            parse_quote!(vpanic())
        };
        let parse = || m.parse_body_with(Punctuated::<Expr, Token![,]>::parse_terminated);
        match name.as_str() {
            "debug_assert" | "assert" => {
                let a = parse().ok()?;
                let mut c = a[0].clone();
                self.visit_expr_mut(&mut c);
                self.rule("assert!/debug_assert!/panic! become proof obligations (vpanic requires false)");
                Some(parse_quote!(if !(#c) { #fail; }))
            }
            "debug_assert_eq" | "assert_eq" | "debug_assert_ne" | "assert_ne" => {
                let a = parse().ok()?;
                let mut x = a[0].clone();
                let mut y = a[1].clone();
                self.visit_expr_mut(&mut x);
                self.visit_expr_mut(&mut y);
                self.rule("assert!/debug_assert!/panic! become proof obligations (vpanic requires false)");
                // comparing through references to vectors/slices
                let is_slicey = |e: &Expr| matches!(strip(e), Expr::Reference(_));
                if is_slicey(&x) && is_slicey(&y) {
                    let f = if name.ends_with("eq") { id("vslice_eq") } else { id("vslice_ne") };
                    let (x, y) = (deref_all(&x), deref_all(&y));
                    return Some(parse_quote!(if !#f(&#x, &#y) { #fail; }));
                }
                if name.ends_with("eq") {
                    Some(parse_quote!(if !(#x == #y) { #fail; }))
                } else {
                    Some(parse_quote!(if #x == #y { #fail; }))
                }
            }
            "panic" | "unreachable" | "todo" | "unimplemented" => {
                self.rule("assert!/debug_assert!/panic! become proof obligations (vpanic requires false)");
                Some(fail)
            }
            "vec" => {
                let toks = m.tokens.clone();
                if let Ok(a) = parse() {
                    let mut v: Vec<Expr> = a.into_iter().collect();
                    v.iter_mut().for_each(|e| self.visit_expr_mut(e));
                    return Some(parse_quote!(vec![#(#v),*]));
                }
                let _ = toks;
                let rep = |i: syn::parse::ParseStream| -> syn::Result<(Expr, Expr)> {
                    let a: Expr = i.parse()?;
                    let _: Token![;] = i.parse()?;
                    let b: Expr = i.parse()?;
                    Ok((a, b))
                };
                if let Ok((mut a, mut b)) = m.parse_body_with(rep) {
                    self.visit_expr_mut(&mut a);
                    self.visit_expr_mut(&mut b);
                    return Some(parse_quote!(vec![#a; #b]));
                }
                None
            }
            "izip" => None,
            _ => None,
        }
    }

    /// name of the container an element place belongs to: `self.garner[i]` -> garner
    fn root_name(e: &Expr) -> Option<String> {
        match strip(e) {
            Expr::Index(i) => match strip(&i.expr) {
                Expr::Field(f) => match &f.member {
                    syn::Member::Named(n) => Some(n.to_string()),
                    _ => None,
                },
                Expr::Path(_) => path_ident(strip(&i.expr)),
                _ => None,
            },
            _ => None,
        }
    }

    fn ident_subst(&mut self, n: &str) -> Option<Expr> {
        match self.look(n)? {
            Virt::Elem { place, mutable } => {
                if Self::root_name(&place).map_or(false, |r| self.refs.contains(&r)) {
                    Some(if mutable { parse_quote!((&mut #place)) } else { parse_quote!((&#place)) })
                } else {
                    Some(place)
                }
            }
            Virt::Alias(e) => Some(e),
            _ => None,
        }
    }

    /// arguments in call position: bare references
    fn visit_arg(&mut self, a: &mut Expr) {
        if let Some(n) = path_ident(strip(a)) {
            match self.look(&n) {
                Some(Virt::Elem { place, mutable }) => {
                    *a = if mutable { parse_quote!(&mut #place) } else { parse_quote!(&#place) };
                    return;
                }
                Some(Virt::Slice(sl)) => {
                    self.rule("sub-slice passed to a call to vsub(x, a, b) (bounds obligation)");
                    let (b, l) = (&sl.base, &sl.len);
                    *a = match &sl.off {
                        Some(o) => parse_quote!(vsub(&#b, #o, (#o) + (#l))),
                        None => parse_quote!(vsub(&#b, 0usize, #l)),
                    };
                    return;
                }
                Some(Virt::Chunks { .. }) => {
                    self.err(format!("virtual slice {n} escapes into a call"));
                    return;
                }
                _ => {}
            }
        }
        if let Expr::Reference(r) = strip(a) {
            if let (None, Expr::Index(ix)) = (r.mutability, strip(&r.expr)) {
                if let Expr::Range(rg) = strip(&ix.index) {
                    if !matches!(rg.limits, syn::RangeLimits::Closed(_)) {
                        let mut b = (*ix.expr).clone();
                        self.visit_expr_mut(&mut b);
                        let mut lo = rg.start.clone().map(|x| *x).unwrap_or(parse_quote!(0usize));
                        let mut hi = rg.end.clone().map(|x| *x).unwrap_or(parse_quote!(#b.len()));
                        self.visit_expr_mut(&mut lo);
                        self.visit_expr_mut(&mut hi);
                        self.rule("&x[a..b] to vsub(x, a, b) (bounds obligation)");
                        *a = parse_quote!(vsub(&#b, #lo, #hi));
                        return;
                    }
                }
            }
        }
        self.visit_expr_mut(a);
    }

    fn type_key(&self, p: &syn::Path) -> Option<String> {
        let s = p.to_token_stream().to_string().replace(' ', "");
        if let Some(r) = s.strip_prefix("Self::") {
            Some(format!("{}::{}", self.self_ty, r))
        } else {
            Some(s)
        }
    }
}

fn deref_all(e: &Expr) -> Expr {
    match strip(e) {
        Expr::Reference(r) => deref_all(&r.expr),
        x => x.clone(),
    }
}

impl<'a> VisitMut for Rw<'a> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        self.env.push(HashMap::new());
        let stmts = std::mem::take(&mut b.stmts);
        let mut out: Vec<Stmt> = vec![];
        for st in stmts {
            self.stmt(st, &mut out);
        }
        b.stmts = out;
        self.env.pop();
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // cfg'd expressions are handled at statement level
        if is_error_value(e) {
            self.rule("error values: the variant and its payload are collapsed to Error::Other");
            *e = parse_quote!(Error::Other);
            return;
        }
        match e {
            Expr::Unsafe(u) => {
                self.rule("`unsafe` blocks kept as plain blocks");
                let b = u.block.clone();
                *e = if b.stmts.len() == 1 {
                    if let Stmt::Expr(x, None) = &b.stmts[0] {
                        let x = x.clone();
                        parse_quote!((#x))
                    } else {
                        Expr::Block(syn::ExprBlock { attrs: vec![], label: None, block: b })
                    }
                } else {
                    Expr::Block(syn::ExprBlock { attrs: vec![], label: None, block: b })
                };
                self.visit_expr_mut(e);
                return;
            }
            Expr::Macro(m) => {
                if let Some(r) = self.rewrite_macro(&m.mac.clone()) {
                    *e = r;
                } else if m.mac.path.is_ident("izip") {
                    self.err("izip! outside a supported chain".into());
                }
                return;
            }
            Expr::Try(t) if matches!(strip(&t.expr), Expr::MethodCall(m) if Self::is_collect_result(m)) => {
                let m = if let Expr::MethodCall(m) = strip(&t.expr) { m.clone() } else { unreachable!() };
                if let Some(r) = self.collect_result(&m, false) {
                    *e = r;
                    return;
                }
            }
            Expr::MethodCall(u) if (u.method == "unwrap" || u.method == "expect") && matches!(strip(&u.receiver), Expr::MethodCall(m) if Self::is_collect_result(m)) => {
                let m = if let Expr::MethodCall(m) = strip(&u.receiver) { m.clone() } else { unreachable!() };
                if let Some(r) = self.collect_result(&m, true) {
                    *e = r;
                    return;
                }
            }
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                if n == "dispatch" && m.args.len() == 1 {
                    if let Expr::Closure(c) = strip(&m.args[0]) {
                        self.rule("arch.dispatch(|| E) (pulp SIMD dispatch) to E");
                        let b = (*c.body).clone();
                        *e = b;
                        self.visit_expr_mut(e);
                        return;
                    }
                }
                let m2 = m.clone();
                if let Some(r) = self.try_iter_terminal(&m2) {
                    *e = r;
                    return;
                }
                // x.len() on virtual slices etc.
                if n == "len" && m.args.is_empty() {
                    if let Some(id) = path_ident(strip(&m.receiver)) {
                        if let Some(Virt::Slice(s)) = self.look(&id) {
                            *e = s.len;
                            return;
                        }
                    }
                }
                if n == "as_slice" || n == "as_slice_mut" {
                    // row.as_slice().unwrap() is handled by the unwrap rule below
                }
                if (n == "as_mut_ptr" || n == "as_ptr") && m.args.is_empty() {
                    if let Some(id) = path_ident(strip(&m.receiver)) {
                        if let Some(Virt::Elem { place, .. }) = self.look(&id) {
                            self.rule("pointer to the start of a matrix row to the row slice (the callee's contract asks for its full length)");
                            *e = if n == "as_ptr" {
                                parse_quote!(#place.as_slice())
                            } else {
                                parse_quote!(#place.as_mut_slice())
                            };
                            return;
                        }
                    }
                }
                if n == "unwrap" || n == "expect" {
                    if let Expr::MethodCall(inner) = strip(&m.receiver) {
                        let inn = inner.method.to_string();
                        if (inn == "as_slice" || inn == "as_slice_mut") && inner.args.is_empty() {
                            if let Some(id) = path_ident(strip(&inner.receiver)) {
                                let mut ms = vec![];
                                if let Some(row) = self.mat_row(&id, &mut ms) {
                                    *e = if inn == "as_slice" {
                                        parse_quote!({ #(#ms)* #row.as_slice() })
                                    } else {
                                        parse_quote!({ #(#ms)* #row.as_mut_slice() })
                                    };
                                    return;
                                }
                                if let Some(Virt::Elem { place, .. }) = self.look(&id) {
                                    self.rule("ndarray row.as_slice[_mut]().unwrap() to the row vector (rows are contiguous)");
                                    *e = if inn == "as_slice" {
                                        parse_quote!(#place.as_slice())
                                    } else {
                                        parse_quote!(#place.as_mut_slice())
                                    };
                                    return;
                                }
                            }
                        }
                        if inn == "get" && inner.args.len() == 1 {
                            // X.get(i).expect(..) / unwrap() is &X[i] with the bounds obligation
                            self.rule("x.get(i).unwrap()/expect(..) to &x[i] (bounds obligation)");
                            let mut r = (*inner.receiver).clone();
                            let mut i = inner.args[0].clone();
                            self.visit_expr_mut(&mut r);
                            self.visit_expr_mut(&mut i);
                            *e = parse_quote!(&#r[#i]);
                            return;
                        }
                    }
                    if n == "expect" {
                        m.method = id("unwrap");
                        m.args.clear();
                    }
                }
                if n == "assign" && m.args.len() == 1 {
                    if let (Some((mut x, lo, hi)), Expr::Reference(ar)) = (row_window(&m.receiver), strip(&m.args[0])) {
                        if let Some((mut y, lo2, hi2)) = row_window(&ar.expr) {
                            self.rule("ndarray A.slice_mut(s![a..b, ..]).assign(&B.slice(s![c..d, ..])) as A.vassign_rows(a, b, &B, c, d)");
                            self.visit_expr_mut(&mut x);
                            self.visit_expr_mut(&mut y);
                            let mut f = |s: &mut Self, v: Option<Expr>, d: Expr| { let mut v = v.unwrap_or(d); s.visit_expr_mut(&mut v); v };
                            let (a, c) = (f(self, lo, parse_quote!(0usize)), f(self, lo2, parse_quote!(0usize)));
                            let (b, d) = (f(self, hi, parse_quote!(#x.nrows())), f(self, hi2, parse_quote!(#y.nrows())));
                            *e = parse_quote!(#x.vassign_rows(#a, #b, &#y, #c, #d));
                            return;
                        }
                    }
                    if let Some(Virt::ColMut { base, col, lo: None }) = path_ident(strip(&m.receiver)).and_then(|i| self.look(&i)) {
                        if let Expr::Reference(r) = strip(&m.args[0]) {
                            if let Expr::Call(c) = strip(&r.expr) {
                                let f = c.func.to_token_stream().to_string().replace(' ', "");
                                if f.starts_with("ArrayView") && f.ends_with("::from") && c.args.len() == 1 {
                                    let mut a = c.args[0].clone();
                                    self.visit_arg(&mut a);
                                    *e = parse_quote!(#base.vset_col(#col, #a));
                                    return;
                                }
                            }
                        }
                    }
                }
                if (n == "copy_from_slice" || n == "clone_from_slice") && m.args.len() == 1 {
                    if let Expr::Index(ix) = strip(&m.receiver) {
                        if let Expr::Range(rg) = strip(&ix.index) {
                            if !matches!(rg.limits, syn::RangeLimits::Closed(_)) {
                                if let Some(pi) = path_ident(strip(&ix.expr)) {
                                    if self.look(&pi).is_none() {
                                        let mut b = (*ix.expr).clone();
                                        self.visit_expr_mut(&mut b);
                                        let mut lo = rg.start.clone().map(|x| *x).unwrap_or(parse_quote!(0usize));
                                        let mut hi = rg.end.clone().map(|x| *x).unwrap_or(parse_quote!(#b.len()));
                                        self.visit_expr_mut(&mut lo);
                                        self.visit_expr_mut(&mut hi);
                                        let mut a = m.args[0].clone();
                                        self.visit_arg(&mut a);
                                        self.rule("x[a..b].copy_from_slice(y) to vcopy(x, a, b, y) (bounds and length obligations)");
                                        *e = if n == "copy_from_slice" { parse_quote!(vcopy(&mut *#b, #lo, #hi, #a)) } else { parse_quote!(vclone(&mut *#b, #lo, #hi, #a)) };
                                        return;
                                    }
                                }
                            }
                        }
                    }
                }
                if (n == "copy_from_slice" || n == "clone_from_slice") && m.args.len() == 1 {
                    if let Expr::MethodCall(r) = strip(&m.receiver) {
                        let is_slice = r.method == "as_mut_slice" || (r.method == "unwrap" && matches!(strip(&r.receiver), Expr::MethodCall(q) if q.method == "as_slice_mut"));
                        if is_slice {
                            let mut b = (*m.receiver).clone();
                            self.visit_expr_mut(&mut b);
                            let mut a = m.args[0].clone();
                            self.visit_arg(&mut a);
                            self.rule("row.clone_from_slice(y) to vfill(row, y) (length obligation)");
                            *e = parse_quote!(vfill(#b, #a));
                            return;
                        }
                    }
                }
                if n == "to_vec" && m.args.is_empty() {
                    if let Expr::Index(ix) = strip(&m.receiver) {
                        if matches!(strip(&ix.index), Expr::Range(_)) {
                            let r = m.receiver.clone();
                            let mut a: Expr = parse_quote!(&#r);
                            self.visit_arg(&mut a);
                            *e = parse_quote!(#a.to_vec());
                            return;
                        }
                    }
                }
                if n == "into_boxed_slice" && m.args.is_empty() {
                    let mut r = (*m.receiver).clone();
                    self.visit_expr_mut(&mut r);
                    *e = parse_quote!(vboxed(#r));
                    return;
                }
                if n == "get_unchecked" && m.args.len() == 1 {
                    self.rule("get_unchecked(i) to &x[i] (bounds obligation)");
                    let mut r = (*m.receiver).clone();
                    let mut i = m.args[0].clone();
                    self.visit_expr_mut(&mut r);
                    self.visit_expr_mut(&mut i);
                    *e = parse_quote!((&#r[#i]));
                    return;
                }
                if n == "get_unchecked_mut" && m.args.len() == 1 {
                    self.rule("get_unchecked(i) to &x[i] (bounds obligation)");
                    let mut r = (*m.receiver).clone();
                    let mut i = m.args[0].clone();
                    self.visit_expr_mut(&mut r);
                    self.visit_expr_mut(&mut i);
                    *e = parse_quote!((&mut #r[#i]));
                    return;
                }
                if n == "map" && m.args.len() == 1 {
                    if let (Expr::MethodCall(rm), Expr::Closure(cl)) = (strip(&m.receiver), strip(&m.args[0])) {
                        let rn = rm.method.to_string();
                        if matches!(rn.as_str(), "ok_or" | "ok_or_else" | "map_err") && cl.inputs.len() == 1 {
                            self.rule("result.map(|x| e) to a match");
                            let mut r = (*m.receiver).clone();
                            self.visit_expr_mut(&mut r);
                            self.env.push(HashMap::new());
                            let p = cl.inputs[0].clone();
                            self.shadow(&p);
                            let mut b = (*cl.body).clone();
                            self.visit_expr_mut(&mut b);
                            self.env.pop();
                            *e = parse_quote!((match #r { Ok(#p) => Ok(#b), Err(v_err) => Err(v_err) }));
                            return;
                        }
                    }
                }
                if n == "contains" && m.args.len() == 1 {
                    if let Expr::Range(rg) = strip(&m.receiver) {
                        if let (Some(lo), Some(hi), Expr::Reference(x)) = (&rg.start, &rg.end, strip(&m.args[0])) {
                            let (mut lo, mut hi, mut x) = ((**lo).clone(), (**hi).clone(), (*x.expr).clone());
                            self.visit_expr_mut(&mut lo);
                            self.visit_expr_mut(&mut hi);
                            self.visit_expr_mut(&mut x);
                            if is_place(&x) {
                                self.rule("(a..=b).contains(&x) to a <= x && x <= b");
                                *e = if matches!(rg.limits, syn::RangeLimits::Closed(_)) {
                                    parse_quote!((#lo <= #x && #x <= #hi))
                                } else {
                                    parse_quote!((#lo <= #x && #x < #hi))
                                };
                                return;
                            }
                        }
                    }
                }
                if n == "then_some" && m.args.len() == 1 {
                    let (mut c, mut v) = ((*m.receiver).clone(), m.args[0].clone());
                    self.visit_expr_mut(&mut c);
                    self.visit_arg(&mut v);
                    self.rule("cond.then_some(v) to if cond { Some(v) } else { None }");
                    *e = parse_quote!((if #c { Some(#v) } else { None }));
                    return;
                }
                if n == "transpose" && m.args.is_empty() {
                    if let Expr::MethodCall(mm) = strip(&m.receiver) {
                        if let (true, Some(Expr::Closure(cl))) = (mm.method == "map", mm.args.first().map(strip)) {
                            if cl.inputs.len() == 1 {
                                self.rule("option.map(|x| result).transpose() to a match");
                                let mut r = (*mm.receiver).clone();
                                self.visit_expr_mut(&mut r);
                                self.env.push(HashMap::new());
                                let p = cl.inputs[0].clone();
                                self.shadow(&p);
                                let mut b = (*cl.body).clone();
                                self.visit_expr_mut(&mut b);
                                self.env.pop();
                                *e = parse_quote!((match #r { Some(#p) => match #b { Ok(v_ok) => Ok(Some(v_ok)), Err(v_err) => Err(v_err) }, None => Ok(None) }));
                                return;
                            }
                        }
                    }
                }
                if n == "and_then" && m.args.len() == 1 {
                    if let (Expr::MethodCall(rm), Expr::Closure(cl)) = (strip(&m.receiver), strip(&m.args[0])) {
                        if matches!(rm.method.to_string().as_str(), "get" | "first" | "last" | "as_ref" | "checked_sub" | "checked_add" | "checked_mul") && cl.inputs.len() == 1 {
                            self.rule("option.and_then(|x| e) to a match");
                            let mut r = (*m.receiver).clone();
                            self.visit_expr_mut(&mut r);
                            self.env.push(HashMap::new());
                            let p = cl.inputs[0].clone();
                            self.shadow(&p);
                            let mut b = (*cl.body).clone();
                            if let Expr::MethodCall(mb) = strip(&b).clone() {
                                if mb.method == "map" && mb.args.len() == 1 && mb.args[0].to_token_stream().to_string().replace(' ', "") == "Arc::new" {
                                    if let Expr::Call(_) = strip(&mb.receiver) {
                                        let rb = (*mb.receiver).clone();
                                        b = parse_quote!((match #rb { Some(v_some) => Some(Arc::new(v_some)), None => None }));
                                    }
                                }
                            }
                            self.visit_expr_mut(&mut b);
                            self.env.pop();
                            *e = parse_quote!((match #r { Some(#p) => #b, None => None }));
                            return;
                        }
                    }
                }
                if n == "is_some_and" && m.args.len() == 1 {
                    if let Expr::Closure(cl) = strip(&m.args[0]) {
                        if cl.inputs.len() == 1 {
                            self.rule("option.is_some_and(|x| e) to a match");
                            let mut r = (*m.receiver).clone();
                            self.visit_expr_mut(&mut r);
                            self.env.push(HashMap::new());
                            let p = cl.inputs[0].clone();
                            self.shadow(&p);
                            let mut b = (*cl.body).clone();
                            self.visit_expr_mut(&mut b);
                            self.env.pop();
                            *e = parse_quote!((match #r { Some(#p) => #b, None => false }));
                            return;
                        }
                    }
                }
                if (n == "ok_or" || n == "ok_or_else") && m.args.len() == 1 {
                    self.rule("option.ok_or[_else](e) to a match");
                    let mut r = (*m.receiver).clone();
                    self.visit_expr_mut(&mut r);
                    let mut a = match strip(&m.args[0]) {
                        Expr::Closure(c) => (*c.body).clone(),
                        a => a.clone(),
                    };
                    self.visit_expr_mut(&mut a);
                    *e = parse_quote!((match #r { Some(v_ok) => Ok(v_ok), None => Err(#a) }));
                    return;
                }
                if n == "map_err" && m.args.len() == 1 {
                    let a = match strip(&m.args[0]) {
                        Expr::Closure(c) => (*c.body).clone(),
                        a => a.clone(),
                    };
                    let t = a.to_token_stream().to_string().replace(' ', "");
                    if is_error_value(strip(&a)) || t.starts_with("Error::") {
                        self.rule("result.map_err(f) to a match (error values are collapsed)");
                        let mut r = (*m.receiver).clone();
                        self.visit_expr_mut(&mut r);
                        *e = parse_quote!((match #r { Ok(v_ok) => Ok(v_ok), Err(_) => Err(Error::Other) }));
                        return;
                    }
                }
                if n == "map" && m.args.len() == 1 {
                    if let (Expr::MethodCall(rm), Expr::Closure(cl)) = (strip(&m.receiver), strip(&m.args[0])) {
                        let rn = rm.method.to_string();
                        if matches!(rn.as_str(), "get" | "first" | "last" | "checked_sub" | "checked_add" | "checked_mul" | "as_ref") && cl.inputs.len() == 1 {
                            self.rule("option.map(|x| e) to a match");
                            let mut r = (*m.receiver).clone();
                            self.visit_expr_mut(&mut r);
                            self.env.push(HashMap::new());
                            let p = cl.inputs[0].clone();
                            self.shadow(&p);
                            let mut b = (*cl.body).clone();
                            self.visit_expr_mut(&mut b);
                            self.env.pop();
                            *e = parse_quote!((match #r { Some(#p) => Some(#b), None => None }));
                            return;
                        }
                    }
                }
                if n == "count" && m.args.is_empty() {
                    let mut setup = vec![];
                    let save = (self.nloops, self.fresh);
                    if let Some(it) = self.analyze(&m.receiver, &mut setup) {
                        let l = Self::it_len(&it);
                        *e = if setup.is_empty() { l } else { parse_quote!({ #(#setup)* #l }) };
                        return;
                    }
                    (self.nloops, self.fresh) = save;
                }
                if n == "next" && m.args.is_empty() {
                    if let Expr::MethodCall(c) = strip(&m.receiver) {
                        if let Some(id) = path_ident(strip(&c.receiver)) {
                            if c.method == "clone" && self.iters.contains(&id) {
                                let i = syn::Ident::new(&id, Span::call_site());
                                *e = parse_quote!((if #i.len() > 0 { Some(&#i[0]) } else { None }));
                                return;
                            }
                        }
                    }
                }
                if n == "unwrap" && m.args.is_empty() {
                    if let Expr::MethodCall(mm) = strip(&m.receiver) {
                        let mn = mm.method.to_string();
                        if (mn == "min" || mn == "max") && mm.args.is_empty() {
                            if let Expr::MethodCall(it) = strip(&mm.receiver) {
                                if it.method == "iter" {
                                    self.rule("v.iter().min()/max().unwrap() to a spec'd helper");
                                    let mut r = (*it.receiver).clone();
                                    self.visit_expr_mut(&mut r);
                                    let f = id(if mn == "min" { "vec_min" } else { "vec_max" });
                                    *e = parse_quote!(&#f(&#r));
                                    return;
                                }
                            }
                        }
                    }
                }
                // copy in/out
                let mut args = m.args.clone();
                if let Some((pre, post)) = self.copy_in_out(&mut args) {
                    m.args = args;
                    let mut call = Expr::MethodCall(m.clone());
                    self.visit_expr_mut(&mut call);
                    *e = parse_quote!({ #(#pre)* let v_r = #call; #(#post)* v_r });
                    return;
                }
                let mut recv = (*m.receiver).clone();
                self.visit_expr_mut(&mut recv);
                m.args.iter_mut().for_each(|a| self.visit_arg(a));
                *m.receiver = recv.clone();
                // inline un-contracted helpers of the same type
                if path_ident(&recv).as_deref() == Some("self") {
                    let key = format!("{}::{}", self.self_ty, n);
                    if !self.known.contains(&key) && self.idx.fns.contains_key(&key) {
                        let args: Vec<Expr> = m.args.iter().cloned().collect();
                        if let Some(r) = self.try_inline(&key, Some(recv), args) {
                            *e = r;
                        }
                    }
                }
                return;
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = strip(&c.func) {
                    let s = p.path.to_token_stream().to_string().replace(' ', "");
                    if s.ends_with("slice::from_raw_parts_mut") || s.ends_with("slice::from_raw_parts") {
                        self.rule("slice::from_raw_parts[_mut](p, n): p taken as a slice of exactly n elements (the unsafe contract)");
                        let mut a = c.args[0].clone();
                        self.visit_expr_mut(&mut a);
                        *e = a;
                        return;
                    }
                    if let Some(n) = path_ident(strip(&c.func)) {
                        if let Some(Virt::Closure(cl)) = self.look(&n) {
                            self.rule("local closures inlined at their calls");
                            let mut args = vec![];
                            let mut pre: Vec<Stmt> = vec![];
                            for a in c.args.iter() {
                                let mut a = a.clone();
                                self.visit_arg(&mut a);
                                args.push(a);
                            }
                            self.env.push(HashMap::new());
                            let items = args.into_iter().map(Item::Val).collect();
                            let body = self.apply_closure(&cl, items, &mut pre);
                            self.env.pop();
                            *e = parse_quote!({ #(#pre)* #body });
                            return;
                        }
                    }
                }
                if let Some(n) = path_ident(strip(&c.func)) {
                    if let Some(Virt::CondClosure(cond, ca, cb)) = self.look(&n) {
                        self.rule("local closures inlined at their calls");
                        let mut args = vec![];
                        for a in c.args.iter() {
                            let mut a = a.clone();
                            self.visit_arg(&mut a);
                            args.push(a);
                        }
                        let mut br: Vec<Expr> = vec![];
                        for cl in [ca, cb] {
                            let mut pre: Vec<Stmt> = vec![];
                            self.env.push(HashMap::new());
                            let items = args.iter().cloned().map(Item::Val).collect();
                            let body = self.apply_closure(&cl, items, &mut pre);
                            self.env.pop();
                            br.push(parse_quote!({ #(#pre)* #body }));
                        }
                        let (x, y) = (&br[0], &br[1]);
                        *e = parse_quote!((if #cond #x else #y));
                        return;
                    }
                }
                let mut args = c.args.clone();
                if let Some((pre, post)) = self.copy_in_out(&mut args) {
                    c.args = args;
                    let mut call = Expr::Call(c.clone());
                    self.visit_expr_mut(&mut call);
                    *e = parse_quote!({ #(#pre)* let v_r = #call; #(#post)* v_r });
                    return;
                }
                c.args.iter_mut().for_each(|a| self.visit_arg(a));
                if let Expr::Path(p) = strip(&c.func).clone() {
                    if let Some(key) = self.type_key(&p.path) {
                        if !self.known.contains(&key) && self.idx.fns.contains_key(&key) {
                            let mut args: Vec<Expr> = c.args.iter().cloned().collect();
                            let has_self = self.idx.fns[&key]
                                .0
                                .inputs
                                .first()
                                .map_or(false, |i| matches!(i, syn::FnArg::Receiver(_)));
                            let recv = if has_self { Some(args.remove(0)) } else { None };
                            if let Some(r) = self.try_inline(&key, recv, args) {
                                *e = r;
                            }
                        }
                    }
                }
                return;
            }
            Expr::Unary(u) if matches!(u.op, syn::UnOp::Deref(_)) => {
                if let Some(n) = path_ident(strip(&u.expr)) {
                    match self.look(&n) {
                        Some(Virt::Elem { place, .. }) => {
                            *e = place;
                            return;
                        }
                        _ => {}
                    }
                }
                // *&x -> x
                visit_mut::visit_expr_mut(self, e);
                if let Expr::Unary(u) = e {
                    if let Expr::Reference(r) = strip(&u.expr) {
                        let x = (*r.expr).clone();
                        *e = x;
                    }
                }
                return;
            }
            Expr::Index(ix) => {
                if let Some(n) = path_ident(strip(&ix.expr)) {
                    match self.look(&n) {
                        Some(Virt::Slice(s)) => {
                            let mut i = (*ix.index).clone();
                            self.visit_expr_mut(&mut i);
                            *e = Self::sub_place(&s, i);
                            return;
                        }
                        Some(Virt::Chunks { .. }) => {
                            self.err("indexing chunks".into());
                            return;
                        }
                        _ => {}
                    }
                }
            }
            Expr::Assign(asg) if matches!((strip(&asg.left), strip(&asg.right)), (Expr::Tuple(l), Expr::Tuple(r)) if l.elems.len() == r.elems.len()) => {
                let (l, r) = match (strip(&asg.left), strip(&asg.right)) {
                    (Expr::Tuple(l), Expr::Tuple(r)) => (l.clone(), r.clone()),
                    _ => unreachable!(),
                };
                self.rule("(a, b) = (x, y) to temporaries and single assignments");
                let mut pre: Vec<Stmt> = vec![];
                let mut post: Vec<Stmt> = vec![];
                for (x, y) in l.elems.iter().zip(r.elems.iter()) {
                    let (mut x, mut y) = (x.clone(), y.clone());
                    self.visit_expr_mut(&mut x);
                    self.visit_expr_mut(&mut y);
                    let t = self.tmp("t");
                    pre.push(parse_quote!(let #t = #y;));
                    post.push(parse_quote!(#x = #t;));
                }
                *e = parse_quote!({ #(#pre)* #(#post)* });
                return;
            }
            Expr::Cast(c) if matches!(&*c.ty, syn::Type::Reference(_)) => {
                if let Some(n) = path_ident(strip(&c.expr)) {
                    if let Some(Virt::Elem { place, .. }) = self.look(&n) {
                        self.rule("x as &T (reborrow) to &x");
                        *e = parse_quote!((&#place));
                        return;
                    }
                }
            }
            Expr::Binary(b)
                if matches!(b.op, syn::BinOp::BitAndAssign(_) | syn::BinOp::BitOrAssign(_) | syn::BinOp::BitAnd(_) | syn::BinOp::BitOr(_))
                    && is_flag(&b.left)
                    && is_place(strip(&b.right)) =>
            {
                self.rule("& | on boolean fields to && || (the right side is a place)");
                let (l, r) = (b.left.clone(), b.right.clone());
                *e = match b.op {
                    syn::BinOp::BitAndAssign(_) => parse_quote!(#l = #l && #r),
                    syn::BinOp::BitOrAssign(_) => parse_quote!(#l = #l || #r),
                    syn::BinOp::BitAnd(_) => parse_quote!((#l && #r)),
                    _ => parse_quote!((#l || #r)),
                };
            }
            Expr::Binary(b) if self.ops && matches!(b.op, syn::BinOp::Add(_) | syn::BinOp::Sub(_) | syn::BinOp::Mul(_)) => {
                let (mut l, mut r) = ((*b.left).clone(), (*b.right).clone());
                self.visit_expr_mut(&mut l);
                self.visit_expr_mut(&mut r);
                let isref = |x: &Expr| matches!(strip(x), Expr::Reference(_));
                if isref(&l) || isref(&r) {
                    self.rule("binary operators on references to polynomials to the inherent functions of the same contract (vadd, vsub, vmul)");
                    let f = id(match b.op {
                        syn::BinOp::Add(_) => "vadd",
                        syn::BinOp::Sub(_) => "vsub",
                        _ => "vmul",
                    });
                    let peel = |x: &Expr| -> Expr {
                        match strip(x) {
                            Expr::Reference(r) => (*r.expr).clone(),
                            y => y.clone(),
                        }
                    };
                    let (l, r) = (peel(&l), peel(&r));
                    *e = parse_quote!((#l).#f(&#r));
                } else {
                    *b.left = l;
                    *b.right = r;
                }
                return;
            }
            Expr::Binary(b) if matches!(b.op, syn::BinOp::Eq(_) | syn::BinOp::Ne(_)) => {
                let byref = |x: &Expr| matches!(strip(x), Expr::Reference(_)) || path_ident(strip(x)).map_or(false, |n| n == "self")
                    || matches!(strip(x), Expr::MethodCall(m) if m.method == "ctx" && m.args.is_empty());
                let numeric = |x: &Expr| matches!(strip(x), Expr::Lit(_));
                if (byref(&b.left) || byref(&b.right)) && !numeric(&b.left) && !numeric(&b.right) {
                    self.rule("comparison of references to comparison of the values referred to");
                    let peel = |x: &Expr| -> Expr {
                        match strip(x) {
                            Expr::Reference(r) => (*r.expr).clone(),
                            y => parse_quote!(*#y),
                        }
                    };
                    let (mut l, mut r, ne) = (peel(&b.left), peel(&b.right), matches!(b.op, syn::BinOp::Ne(_)));
                    self.visit_expr_mut(&mut l);
                    self.visit_expr_mut(&mut r);
                    *e = if ne { parse_quote!(!(#l == #r)) } else { parse_quote!(#l == #r) };
                    return;
                }
            }
            Expr::Path(p) if p.path.segments.len() == 2 && p.path.segments[1].ident == "REPRESENTATION" => {
                self.rule("associated constant R::REPRESENTATION to the spec'd call vrep::<R>()");
                let r = p.path.segments[0].ident.clone();
                *e = parse_quote!(vrep::<#r>());
                return;
            }
            Expr::Path(_) => {
                if let Some(n) = path_ident(e) {
                    if let Some(x) = self.ident_subst(&n) {
                        *e = x;
                    } else if let Some(Virt::Slice(_)) = self.look(&n) {
                        self.err(format!("virtual slice {n} used as a value"));
                    }
                }
                return;
            }
            Expr::ForLoop(f) => {
                let f = f.clone();
                if f.label.is_some() || has_continue(&f.body) {
                    self.err("for loop with label/continue".into());
                    return;
                }
                let mut setup = vec![];
                let save = (self.nloops, self.fresh);
                match self.analyze(&f.expr, &mut setup) {
                    Some(it) => {
                        self.rule("for loops over ranges/slices to while loops with an explicit counter");
                        let pat = (*f.pat).clone();
                        let body = f.body.clone();
                        *e = self.build_loop(it, setup, vec![], vec![], None, &mut |s, item, out| {
                            s.bind_pat(&pat, item, out);
                            let mut b = body.clone();
                            s.visit_block_mut(&mut b);
                            out.extend(b.stmts);
                            if let Some(Stmt::Expr(_, semi)) = out.last_mut() {
                                if semi.is_none() {
                                    *semi = Some(Default::default());
                                }
                            }
                        });
                    }
                    None => {
                        (self.nloops, self.fresh) = save;
                        self.err(format!("unsupported for loop over {}", f.expr.to_token_stream()));
                    }
                }
                return;
            }
            Expr::While(w) => {
                let k = self.nloops;
                self.nloops += 1;
                let (before, inv, start, end, after) = self.marks(k);
                let mut cond = (*w.cond).clone();
                self.visit_expr_mut(&mut cond);
                let mut b = w.body.clone();
                if has_continue(&b) {
                    self.err("while loop with continue".into());
                }
                self.visit_block_mut(&mut b);
                semi_tail(&mut b);
                let s = &b.stmts;
                *e = parse_quote!({ #before while #cond { #inv #start #(#s)* #end } #after });
                return;
            }
            Expr::Loop(_) => {
                let k = self.nloops;
                self.nloops += 1;
                let (before, inv, start, end, after) = self.marks(k);
                if let Expr::Loop(w) = e {
                    let mut b = w.body.clone();
                    self.visit_block_mut(&mut b);
                    semi_tail(&mut b);
                    let s = &b.stmts;
                    *e = parse_quote!({ #before loop { #inv #start #(#s)* #end } #after });
                }
                return;
            }
            Expr::Closure(_) => {
                // leave; may be unsupported by Verus
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

impl<'a> Rw<'a> {
    fn stmt(&mut self, st: Stmt, out: &mut Vec<Stmt>) {
        match st {
            Stmt::Local(mut l) => {
                if !self.cfg.enabled(&l.attrs) {
                    return;
                }
                l.attrs.clear();
                if let Some(init) = &mut l.init {
                    if init.diverge.is_none() && self.special_let(&l.pat, &init.expr.clone(), out) {
                        return;
                    }
                }
                self.arity = match if let Pat::Type(t) = &l.pat { &*t.pat } else { &l.pat } { Pat::Tuple(t) => t.elems.len(), _ => 0 };
                if let Some(init) = &mut l.init {
                    let mut e = (*init.expr).clone();
                    if let Expr::Reference(r) = &e {
                        let _ = r;
                    }
                    self.visit_expr_mut(&mut e);
                    *init.expr = e;
                    if let Some((_, d)) = &mut init.diverge {
                        self.visit_expr_mut(d);
                    }
                }
                self.shadow(&l.pat);
                let nm = match if let Pat::Type(t) = &l.pat { &*t.pat } else { &l.pat } { Pat::Ident(i) => Some(i.ident.clone()), _ => None };
                out.push(Stmt::Local(l));
                if let Some(nm) = nm {
                    if self.depth == 0 && self.lets.contains(&nm.to_string()) {
                        out.push(parse_quote!(__verif_let!(#nm);));
                    }
                }
            }
            Stmt::Item(i) => {
                // nested items (const/fn/use)
                if !matches!(i, syn::Item::Use(_)) {
                    out.push(Stmt::Item(i));
                }
            }
            Stmt::Expr(mut e, semi) => {
                if let Some(attrs) = expr_attrs(&e) {
                    if !self.cfg.enabled(attrs) {
                        return;
                    }
                }
                clear_attrs(&mut e);
                self.visit_expr_mut(&mut e);
                out.push(Stmt::Expr(e, semi));
            }
            Stmt::Macro(m) => {
                if !self.cfg.enabled(&m.attrs) {
                    return;
                }
                if let Some(r) = self.rewrite_macro(&m.mac) {
                    out.push(Stmt::Expr(r, Some(Default::default())));
                } else {
                    out.push(Stmt::Macro(m));
                }
            }
        }
    }

    /// `let` forms that introduce virtual slices.  Returns true when consumed.
    fn special_let(&mut self, pat: &Pat, init: &Expr, out: &mut Vec<Stmt>) -> bool {
        let e = strip(init).clone();
        let pat = if let Pat::Type(t) = pat { &t.pat } else { pat };
        if let (Pat::Ident(pi), Expr::Closure(c)) = (pat, &e) {
            if pi.mutability.is_none() {
                self.bind(&pi.ident.to_string(), Virt::Closure(c.clone()));
                return true;
            }
        }
        if let (Pat::Ident(pi), Expr::If(i)) = (pat, &e) {
            if let Some((_, el)) = &i.else_branch {
                let t: Expr = Expr::Block(syn::ExprBlock { attrs: vec![], label: None, block: i.then_branch.clone() });
                if let (Expr::Closure(a), Expr::Closure(b)) = (strip(&t), strip(el)) {
                    let mut c = (*i.cond).clone();
                    self.visit_expr_mut(&mut c);
                    let tc = self.tmp("c");
                    out.push(parse_quote!(let #tc: bool = #c;));
                    self.bind(&pi.ident.to_string(), Virt::CondClosure(parse_quote!(#tc), a.clone(), b.clone()));
                    return true;
                }
            }
        }
        if let (Pat::Tuple(t), Expr::MethodCall(m)) = (pat, &e) {
            if m.method == "split_at" && m.args.len() == 2 && t.elems.len() == 2 {
                if let Expr::MethodCall(v) = strip(&m.receiver) {
                    if v.method == "view_mut" || v.method == "view" {
                        self.rule("ndarray split_at(Axis(0), k): two ranges of the rows");
                        let mut r = (*v.receiver).clone();
                        self.visit_expr_mut(&mut r);
                        let mut k = m.args[1].clone();
                        self.visit_expr_mut(&mut k);
                        let ax = m.args[0].to_token_stream().to_string().replace(' ', "");
                        if !is_place(&r) || ax != "Axis(0)" {
                            self.err("unsupported matrix split".into());
                            return false;
                        }
                        let tk = self.tmp("k");
                        out.push(parse_quote!(let #tk: usize = #k;));
                        out.push(parse_quote!(if !(#tk <= #r.rows.len()) { vpanic(); }));
                        let a = SliceRef { base: parse_quote!(#r.rows), off: None, len: parse_quote!(#tk) };
                        let b = SliceRef { base: parse_quote!(#r.rows), off: Some(parse_quote!(#tk)), len: parse_quote!((#r.rows.len() - #tk)) };
                        for (p, s) in t.elems.iter().zip([a, b]) {
                            if let Pat::Ident(i) = p {
                                self.bind(&i.ident.to_string(), Virt::Mat(s));
                            }
                        }
                        return true;
                    }
                }
            }
        }
        if let (Pat::Ident(pi), Expr::Call(c)) = (pat, &e) {
            let s = c.func.to_token_stream().to_string().replace(' ', "");
            if s.ends_with("slice::from_raw_parts_mut") || s.ends_with("slice::from_raw_parts") {
                let mut a = c.args[0].clone();
                let mut n = c.args[1].clone();
                self.visit_expr_mut(&mut a);
                self.visit_expr_mut(&mut n);
                self.rule("slice::from_raw_parts[_mut](p, n): p taken as a slice of exactly n elements (the unsafe contract)");
                out.push(parse_quote!(if !(#a.len() == #n) { vpanic(); }));
                self.bind(&pi.ident.to_string(), Virt::Alias(a));
                return true;
            }
        }
        if let Expr::MethodCall(m) = &e {
            let n = m.method.to_string();
            match n.as_str() {
                "split_at_mut" | "split_at" => {
                    if let Pat::Tuple(t) = pat {
                        let mut setup = vec![];
                        if let Some(s) = self.slice_of(&m.receiver, &mut setup) {
                            self.rule("split_at/split_at_mut/as_chunks/chunks_exact: index arithmetic into the parent slice");
                            out.extend(setup);
                            let mut k = m.args[0].clone();
                            self.visit_expr_mut(&mut k);
                            let tk = self.tmp("k");
                            let l = &s.len;
                            out.push(parse_quote!(let #tk: usize = #k;));
                            out.push(parse_quote!(if !(#tk <= #l) { vpanic(); }));
                            let left = SliceRef { base: s.base.clone(), off: s.off.clone(), len: parse_quote!(#tk) };
                            let right = SliceRef {
                                base: s.base.clone(),
                                off: Some(Self::add_off(&s.off, parse_quote!(#tk))),
                                len: parse_quote!((#l - #tk)),
                            };
                            self.bind_pat(&t.elems[0], Item::Slice(left), out);
                            self.bind_pat(&t.elems[1], Item::Slice(right), out);
                            return true;
                        }
                    }
                }
                "as_chunks" | "as_chunks_mut" => {
                    if let (Pat::Tuple(t), Some(tf)) = (pat, &m.turbofish) {
                        let mut setup = vec![];
                        if let Some(s) = self.slice_of(&m.receiver, &mut setup) {
                            self.rule("split_at/split_at_mut/as_chunks/chunks_exact: index arithmetic into the parent slice");
                            out.extend(setup);
                            let a = &tf.args[0];
                            let n: Expr = match a {
                                syn::GenericArgument::Const(e) => e.clone(),
                                syn::GenericArgument::Type(t) => parse_quote!(#t),
                                _ => return false,
                            };
                            let l = &s.len;
                            let tq = self.tmp("q");
                            out.push(parse_quote!(let #tq: usize = (#l / #n) * #n;));
                            if let Pat::Ident(i) = &t.elems[0] {
                                self.bind(
                                    &i.ident.to_string(),
                                    Virt::Chunks { s: s.clone(), n: n.clone() },
                                );
                            }
                            let rem = SliceRef {
                                base: s.base.clone(),
                                off: Some(Self::add_off(&s.off, parse_quote!(#tq))),
                                len: parse_quote!((#l - #tq)),
                            };
                            self.bind_pat(&t.elems[1], Item::Slice(rem), out);
                            return true;
                        }
                    }
                }
                "get_disjoint_unchecked_mut" | "get_disjoint_mut" => {
                    if let (Pat::Slice(t), Some(Expr::Array(ar))) = (pat, m.args.first().map(strip)) {
                        let mut setup = vec![];
                        if let Some(s) = self.slice_of(&m.receiver, &mut setup) {
                            self.rule("get_disjoint[_unchecked]_mut: element places, with in-bounds and distinctness obligations");
                            out.extend(setup);
                            let mut names = vec![];
                            for x in ar.elems.iter() {
                                let mut x = x.clone();
                                self.visit_expr_mut(&mut x);
                                let tx = self.tmp("d");
                                out.push(parse_quote!(let #tx: usize = #x;));
                                let l = &s.len;
                                out.push(parse_quote!(if !(#tx < #l) { vpanic(); }));
                                for o in &names {
                                    out.push(parse_quote!(if #tx == #o { vpanic(); }));
                                }
                                names.push(tx);
                            }
                            for (p, tx) in t.elems.iter().zip(names) {
                                let place = Self::sub_place(&s, parse_quote!(#tx));
                                self.bind_pat(p, Item::Elem { place, mutable: true }, out);
                            }
                            return true;
                        }
                    }
                }
                _ => {}
            }
        }
        // let x = &mut a[..] style sub-slices
        if let (Pat::Ident(pi), Expr::Reference(r)) = (pat, &e) {
            if let Expr::Index(ix) = strip(&r.expr) {
                if matches!(strip(&ix.index), Expr::Range(_)) {
                    let mut setup = vec![];
                    if let Some(s) = self.slice_of(&r.expr, &mut setup) {
                        out.extend(setup);
                        self.bind(&pi.ident.to_string(), Virt::Slice(s));
                        return true;
                    }
                }
            }
        }
        false
    }
}

fn expr_attrs(e: &Expr) -> Option<&Vec<syn::Attribute>> {
    Some(match e {
        Expr::Block(x) => &x.attrs,
        Expr::Call(x) => &x.attrs,
        Expr::MethodCall(x) => &x.attrs,
        Expr::If(x) => &x.attrs,
        Expr::Assign(x) => &x.attrs,
        Expr::Unsafe(x) => &x.attrs,
        Expr::Macro(x) => &x.attrs,
        Expr::Return(x) => &x.attrs,
        Expr::ForLoop(x) => &x.attrs,
        Expr::While(x) => &x.attrs,
        Expr::Match(x) => &x.attrs,
        Expr::Binary(x) => &x.attrs,
        _ => return None,
    })
}

fn clear_attrs(e: &mut Expr) {
    match e {
        Expr::Block(x) => x.attrs.clear(),
        Expr::Call(x) => x.attrs.clear(),
        Expr::MethodCall(x) => x.attrs.clear(),
        Expr::If(x) => x.attrs.clear(),
        Expr::Assign(x) => x.attrs.clear(),
        Expr::Unsafe(x) => x.attrs.clear(),
        Expr::Macro(x) => x.attrs.clear(),
        Expr::Return(x) => x.attrs.clear(),
        Expr::ForLoop(x) => x.attrs.clear(),
        Expr::While(x) => x.attrs.clear(),
        Expr::Match(x) => x.attrs.clear(),
        Expr::Binary(x) => x.attrs.clear(),
        _ => {}
    }
}

#[allow(dead_code)]
fn ts(e: &impl ToTokens) -> TokenStream {
    quote!(#e)
}

/// A block used as a statement: its tail expression becomes a statement.
fn semi_tail(b: &mut Block) {
    if let Some(Stmt::Expr(_, semi)) = b.stmts.last_mut() {
        if semi.is_none() {
            *semi = Some(Default::default());
        }
    }
}
