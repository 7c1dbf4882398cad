//! Parser for `contracts/*.v` files: Verus text plus `//@` directives.
use std::collections::BTreeMap;

#[derive(Default, Clone, Debug)]
pub struct FnC {
    pub file: String,
    pub path: String,
    pub as_name: Option<String>,
    pub cfg: Vec<String>,
    pub ret: Option<String>,
    pub sig: Option<String>,
    pub spec: String,
    pub start: String,
    pub attrs: String,
    pub inv: BTreeMap<usize, String>,
    pub lstart: BTreeMap<usize, String>,
    pub lend: BTreeMap<usize, String>,
    pub lbefore: BTreeMap<usize, String>,
    pub lafter: BTreeMap<usize, String>,
    /// generic substitutions: drop generics etc.
    pub substs: Vec<(String, String)>,
    pub refs: Vec<String>,
    pub iters: Vec<String>,
    /// proof text placed after `let NAME`
    pub lets: BTreeMap<String, String>,
    pub noprobe: bool,
    pub vecs: Vec<(usize, String)>,
    pub ret_hint: String,
    /// proof text at every `assert!`/`panic!` that may fire (documented refusal)
    pub panics: Option<String>,
    /// debug assertions count as refusals too
    pub dbgpanics: bool,
    /// names whose `Deref` target is their field `c`
    pub derefs: Vec<String>,
    /// references to a Modulus: `**x` is `x.p`
    pub pderefs: Vec<String>,
    /// binary operators on references become the inherent calls vadd/vsub/vmul
    pub ops: bool,
}

#[derive(Clone, Debug)]
pub enum Item {
    Text(String),
    Fn(FnC),
    Struct { file: String, name: String, substs: Vec<(String, String)>, drop: Vec<String> },
    /// `//@ const FILE [Type::]NAME`
    Const { file: String, name: String },
}

#[derive(Default, Clone, Debug)]
pub struct Unit {
    pub name: String,
    pub imports: Vec<String>,
    pub items: Vec<Item>,
}

pub fn load(cdir: &str, name: &str) -> Unit {
    let p = format!("{cdir}/{name}.v");
    let t = std::fs::read_to_string(&p).unwrap_or_else(|e| panic!("{p}: {e}"));
    let mut u = Unit { name: name.into(), ..Default::default() };
    let mut text = String::new();
    let mut cur: Option<FnC> = None;
    let mut sect: (String, usize) = ("".into(), 0);
    let mut letname = String::new();
    for line in t.lines() {
        let tl = line.trim_start();
        if let Some(d) = tl.strip_prefix("//@") {
            let w: Vec<&str> = d.split_whitespace().collect();
            match w[0] {
                "import" => u.imports.push(w[1].into()),
                "fn" => {
                    assert!(cur.is_none(), "{p}: nested fn at {line}");
                    u.items.push(Item::Text(std::mem::take(&mut text)));
                    let mut f = FnC { file: w[1].into(), path: w[2].into(), ..Default::default() };
                    for x in &w[3..] {
                        if let Some(n) = x.strip_prefix("as=") {
                            f.as_name = Some(n.into());
                        } else if let Some(n) = x.strip_prefix("cfg=") {
                            f.cfg = n.split(',').map(|s| s.to_string()).collect();
                        } else if *x == "noprobe" {
                            f.noprobe = true;
                        } else {
                            panic!("{p}: bad fn option {x}");
                        }
                    }
                    cur = Some(f);
                    sect = ("".into(), 0);
                }
                "struct" => {
                    u.items.push(Item::Text(std::mem::take(&mut text)));
                    let mut substs = vec![];
                    let mut drop = vec![];
                    for x in &w[3..] {
                        if let Some(n) = x.strip_prefix("drop=") {
                            drop = n.split(',').map(|s| s.to_string()).collect();
                        } else {
                            let (a, b) = x.split_once("=>").expect("subst a=>b");
                            substs.push((a.into(), b.into()));
                        }
                    }
                    u.items.push(Item::Struct { file: w[1].into(), name: w[2].into(), substs, drop });
                }
                "const" => {
                    u.items.push(Item::Text(std::mem::take(&mut text)));
                    u.items.push(Item::Const { file: w[1].into(), name: w[2].into() });
                }
                "end" => {
                    u.items.push(Item::Fn(cur.take().unwrap_or_else(|| panic!("{p}: end"))));
                }
                "ret" => cur.as_mut().unwrap().ret = Some(w[1].into()),
                "vec" => {
                    let k: usize = w[1].parse().unwrap();
                    cur.as_mut().unwrap().vecs.push((k, w[2..].join(" ")));
                }
                "subst" => {
                    let rest = d.trim_start().strip_prefix("subst").unwrap().trim();
                    let (a, b) = rest.split_once("=>").expect("subst a => b");
                    cur.as_mut().unwrap().substs.push((a.trim().into(), b.trim().into()));
                }
                "iters" => cur.as_mut().unwrap().iters.extend(w[1..].iter().map(|x| x.to_string())),
                "ops" => cur.as_mut().unwrap().ops = true,
                "pderefs" => cur.as_mut().unwrap().pderefs.extend(w[1..].iter().map(|x| x.to_string())),
                "derefs" => cur.as_mut().unwrap().derefs.extend(w[1..].iter().map(|x| x.to_string())),
                "refs" => cur.as_mut().unwrap().refs.extend(w[1..].iter().map(|x| x.to_string())),
                s @ ("sig" | "spec" | "start" | "attrs" | "ret-hint" | "panics") => {
                    if s == "panics" && w.get(1).map(|x| x.to_string()).as_deref() == Some("debug") {
                        cur.as_mut().unwrap().dbgpanics = true;
                    }
                    sect = (s.into(), 0)
                }
                "after-let" => {
                    sect = ("after-let".into(), 0);
                    letname = w[1].to_string();
                }
                s @ ("loop" | "loop-start" | "loop-end" | "loop-before" | "loop-after") => {
                    sect = (s.into(), w[1].parse().unwrap())
                }
                x => panic!("{p}: unknown directive {x}"),
            }
            continue;
        }
        if let Some(f) = cur.as_mut() {
            let dst = match sect.0.as_str() {
                "sig" => f.sig.get_or_insert_with(String::new),
                "spec" => &mut f.spec,
                "start" => &mut f.start,
                "attrs" => &mut f.attrs,
                "after-let" => f.lets.entry(letname.clone()).or_default(),
                "ret-hint" => &mut f.ret_hint,
                "panics" => f.panics.get_or_insert_with(String::new),
                "loop" => f.inv.entry(sect.1).or_default(),
                "loop-start" => f.lstart.entry(sect.1).or_default(),
                "loop-end" => f.lend.entry(sect.1).or_default(),
                "loop-before" => f.lbefore.entry(sect.1).or_default(),
                "loop-after" => f.lafter.entry(sect.1).or_default(),
                _ => {
                    if line.trim().is_empty() || line.trim_start().starts_with("//") {
                        continue;
                    }
                    panic!("{p}: text outside section: {line}")
                }
            };
            dst.push_str(line);
            dst.push('\n');
        } else {
            text.push_str(line);
            text.push('\n');
        }
    }
    u.items.push(Item::Text(text));
    u
}
