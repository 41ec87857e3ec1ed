//! Chooses which programs are worth compiling and running. Nothing here is a verdict: a program whose
//! generated code looks unlike what the model expects, or contains a shape of code not yet run, is put
//! in front of the queue; the executions decide.
use crate::batch::Module;
use crate::graph::{Graph, Item, Tref};
use crate::pipe::{TK, TN};
use crate::streams::tn_node;
use proc_macro2::{TokenStream, TokenTree};
use quote::ToTokens;
use std::collections::{BTreeMap, BTreeSet};
use std::hash::{Hash, Hasher};
use vref::elab::{infer, Node};

pub struct Screen {
    /// why the program looks suspicious
    pub odd: Option<String>,
    pub features: Vec<u64>,
}

fn flat(ts: TokenStream, out: &mut Vec<TokenTree>) {
    for t in ts {
        if let TokenTree::Group(g) = &t {
            flat(g.stream(), out);
        } else {
            out.push(t);
        }
    }
}

fn lits(ts: TokenStream) -> (Vec<String>, Vec<char>) {
    let mut v = vec![];
    flat(ts, &mut v);
    let (mut s, mut c) = (vec![], vec![]);
    for t in v {
        if let TokenTree::Literal(_) = t {
            match syn::parse2::<syn::Lit>(TokenStream::from(t)) {
                Ok(syn::Lit::Str(x)) => s.push(x.value()),
                Ok(syn::Lit::Char(x)) => c.push(x.value()),
                _ => (),
            }
        }
    }
    (s, c)
}

fn skeleton(ts: TokenStream) -> u64 {
    fn go(ts: TokenStream, names: &mut BTreeMap<String, usize>, out: &mut Vec<String>) {
        for t in ts {
            match t {
                TokenTree::Group(g) => {
                    out.push(format!("{:?}", g.delimiter()));
                    go(g.stream(), names, out);
                    out.push("end".into());
                }
                TokenTree::Ident(i) => {
                    let n = names.len();
                    let k = *names.entry(i.to_string()).or_insert(n);
                    out.push(format!("#{}", k));
                }
                TokenTree::Literal(_) => out.push("L".into()),
                TokenTree::Punct(p) => out.push(p.as_char().to_string()),
            }
            // one of many like it: Some('a') | Some('b'), 'a', 'b'
            for w in [6usize, 2] {
                let n = out.len();
                if n >= 2 * w && out[n - w..] == out[n - 2 * w..n - w] && out[n - w..].iter().any(|x| x == "L") {
                    out.truncate(n - w);
                }
            }
        }
    }
    let mut out = vec![];
    go(ts, &mut BTreeMap::new(), &mut out);
    let mut h = std::collections::hash_map::DefaultHasher::new();
    out.hash(&mut h);
    h.finish()
}

/// Nodes of the grammar with the types they were given.
fn pairs<'a>(g: &Graph, n: &'a TN, t: &Tref, out: &mut Vec<(&'a TN, String)>) {
    let t = g.resolve(t);
    let x = match &t {
        Tref::Name(x) => x,
        _ => return,
    };
    match (&n.k, g.items.get(x)) {
        (TK::Lit(_), _) => out.push((n, x.clone())),
        (TK::Cat(v), Some(Item::Struct(fs))) if v.len() == fs.len() => {
            out.push((n, x.clone()));
            for (y, f) in v.iter().zip(fs) {
                pairs(g, y, &f.1, out);
            }
        }
        (TK::Alt(v), Some(Item::Enum(fs))) if v.len() == fs.len() => {
            out.push((n, x.clone()));
            for (y, f) in v.iter().zip(fs) {
                pairs(g, y, &f.1, out);
            }
        }
        (TK::Fix(b), _) => pairs(g, b, &t, out),
        _ => (),
    }
}

fn types_differ(a: &TN, b: &Node) -> bool {
    let (x, y) = (a.children(), b.children());
    a.ty != b.ty || x.len() != y.len() || x.iter().zip(y).any(|(p, q)| types_differ(p, q))
}

fn pattern(p: &syn::Pat) -> Vec<char> {
    let ends = |e: &syn::Expr| lits(e.to_token_stream()).1.first().copied();
    match p {
        syn::Pat::Or(o) => o.cases.iter().flat_map(pattern).collect(),
        syn::Pat::TupleStruct(t) => t.pat.elems.iter().flat_map(pattern).collect(),
        syn::Pat::Ident(i) => i.subpat.iter().flat_map(|s| pattern(&s.1)).collect(),
        syn::Pat::Range(g) => match (ends(&g.lo), ends(&g.hi)) {
            (Some(a), Some(b)) if (b as u32).saturating_sub(a as u32) < 20_000 => (a..=b).collect(),
            (Some(a), Some(b)) => vec![a, b],
            _ => vec![],
        },
        p => lits(p.to_token_stream()).1,
    }
}

/// The match of a choice: for each variant the characters that lead to it.
fn arms(f: &syn::ItemImpl, variants: &[String]) -> Option<Vec<BTreeSet<char>>> {
    for i in &f.items {
        let m = match i {
            syn::ImplItem::Method(m) => m,
            _ => continue,
        };
        for s in &m.block.stmts {
            if let syn::Stmt::Expr(syn::Expr::Match(m)) = s {
                let mut out = vec![BTreeSet::new(); variants.len()];
                for a in &m.arms {
                    let cs = pattern(&a.pat);
                    let mut body = vec![];
                    flat(a.body.to_token_stream(), &mut body);
                    for t in body {
                        if let TokenTree::Ident(x) = t {
                            if let Some(k) = variants.iter().position(|v| x == v) {
                                out[k].extend(cs.iter().copied());
                                break;
                            }
                        }
                    }
                }
                return Some(out);
            }
        }
    }
    None
}

fn odd(m: &Module, impls: &BTreeMap<String, Vec<syn::ItemImpl>>) -> Option<String> {
    if m.tn.show() != m.root.show() {
        return Some("expansion".into());
    }
    if let Err(_) = m.graph.structure(&m.tn) {
        return Some("structure".into());
    }
    let mut n = tn_node(&m.tn);
    let mut fs = vec![];
    infer(&mut n, &mut vec![], 0, &mut fs);
    if !fs.is_empty() {
        return Some("typing".into());
    }
    if types_differ(&m.tn, &n) {
        return Some("types".into());
    }
    let mut ps = vec![];
    pairs(&m.graph, &m.tn, &Tref::Name("Ast".into()), &mut ps);
    let none = vec![];
    for (n, name) in ps {
        let im = impls.get(&name).unwrap_or(&none);
        match &n.k {
            TK::Lit(s) => {
                let mut any = false;
                for i in im {
                    let (ss, cs) = lits(i.to_token_stream());
                    any |= ss.contains(s);
                    if ss.iter().any(|x| x != s && x != "{}") || cs.iter().any(|c| c.to_string() != *s) {
                        return Some("literal".into());
                    }
                }
                if !any {
                    return Some("literal".into());
                }
            }
            TK::Cat(_) => {
                if let Some(Item::Struct(fs)) = m.graph.items.get(&name) {
                    let names: Vec<String> = fs.iter().enumerate().map(|(k, f)| f.0.clone().unwrap_or(k.to_string())).collect();
                    for i in im {
                        let shown = i.trait_.as_ref().map_or(false, |t| t.1.segments.last().map_or(false, |s| s.ident == "Display"));
                        let mut v = vec![];
                        flat(i.to_token_stream(), &mut v);
                        let uses: Vec<String> = v.windows(3).filter(|w| w[0].to_string() == "self" && w[1].to_string() == ".").map(|w| w[2].to_string()).collect();
                        if shown && !uses.is_empty() && uses != names {
                            return Some("order".into());
                        }
                    }
                }
            }
            TK::Alt(v) => {
                if let Some(Item::Enum(fs)) = m.graph.items.get(&name) {
                    let names: Vec<String> = fs.iter().map(|f| f.0.clone()).collect();
                    let found = im.iter().filter(|i| i.trait_.as_ref().map_or(false, |t| t.1.segments.last().map_or(false, |s| s.ident == "Parse"))).find_map(|i| arms(i, &names));
                    if let Some(a) = found {
                        if v.iter().zip(&a).any(|(x, y)| x.ty.first != *y) {
                            return Some("choice".into());
                        }
                    }
                }
            }
            _ => (),
        }
    }
    None
}

pub fn screen(m: &Module) -> Screen {
    let f: syn::File = match syn::parse_str(&m.code) {
        Ok(f) => f,
        Err(_) => return Screen { odd: Some("unreadable".into()), features: vec![] },
    };
    let mut impls: BTreeMap<String, Vec<syn::ItemImpl>> = BTreeMap::new();
    let mut features = BTreeSet::new();
    for i in f.items {
        features.insert(skeleton(i.to_token_stream()));
        if let syn::Item::Impl(i) = i {
            // From<X> for char belongs to X
            let mut who = i.self_ty.to_token_stream().to_string();
            if who == "char" {
                if let Some(s) = i.trait_.as_ref().and_then(|t| t.1.segments.last()) {
                    if let syn::PathArguments::AngleBracketed(a) = &s.arguments {
                        who = a.args.to_token_stream().to_string();
                    }
                }
            }
            impls.entry(who).or_default().push(i);
        }
    }
    // where things stand in each other
    fn places(n: &TN, above: (u8, usize), out: &mut BTreeSet<u64>) {
        let kind = match &n.k {
            TK::Eps => 0u8,
            TK::Lit(s) => if s.is_empty() { 1 } else if s.chars().count() == 1 { 2 } else { 3 },
            TK::Cat(_) => 4,
            TK::Alt(_) => 5,
            TK::Fix(_) => 6,
            TK::Var(i) => 7 + (*i).min(6) as u8,
        };
        let mut h = std::collections::hash_map::DefaultHasher::new();
        (above, kind, n.ty.null).hash(&mut h);
        out.insert(h.finish());
        for (i, c) in n.children().into_iter().enumerate() {
            places(c, (kind, i.min(3)), out);
        }
    }
    places(&m.tn, (255, 0), &mut features);
    Screen { odd: odd(m, &impls), features: features.into_iter().collect() }
}
