//! Evaluation of `#[cfg(...)]` for one fixed configuration.
use syn::{punctuated::Punctuated, Attribute, Meta, Token};

#[derive(Clone, Default)]
pub struct Cfg {
    /// set flags: "debug_assertions", "feature=tfhe-ntt", "target_feature=avx2"
    pub on: Vec<String>,
}

impl Cfg {
    pub fn has(&self, s: &str) -> bool {
        self.on.iter().any(|x| x == s)
    }
    pub fn eval(&self, m: &Meta) -> bool {
        match m {
            Meta::Path(p) => self.has(&p.get_ident().map(|i| i.to_string()).unwrap_or_default()),
            Meta::NameValue(nv) => {
                let k = nv.path.get_ident().map(|i| i.to_string()).unwrap_or_default();
                if let syn::Expr::Lit(l) = &nv.value {
                    if let syn::Lit::Str(s) = &l.lit {
                        return self.has(&format!("{k}={}", s.value()));
                    }
                }
                false
            }
            Meta::List(l) => {
                let name = l.path.get_ident().map(|i| i.to_string()).unwrap_or_default();
                let args = l
                    .parse_args_with(Punctuated::<Meta, Token![,]>::parse_terminated)
                    .unwrap_or_default();
                match name.as_str() {
                    "all" => args.iter().all(|a| self.eval(a)),
                    "any" => args.iter().any(|a| self.eval(a)),
                    "not" => !args.iter().any(|a| self.eval(a)),
                    _ => false,
                }
            }
        }
    }
    pub fn enabled(&self, attrs: &[Attribute]) -> bool {
        attrs.iter().all(|a| {
            if a.path().is_ident("cfg") {
                if let Ok(m) = a.parse_args::<Meta>() {
                    return self.eval(&m);
                }
            }
            true
        })
    }
}
