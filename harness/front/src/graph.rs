//! Reads the type declarations of generated code and compares them with the grammar.
use crate::pipe::{TK, TN};
use proc_macro2::TokenStream;
use std::collections::{BTreeMap, BTreeSet};
use vref::elab::{unraw, Node, C};
use vref::heck_names::{camel, snake};

#[derive(Debug)]
pub enum Item {
    Unit,
    /// names (None: tuple) and types
    Struct(Vec<(Option<String>, Tref)>),
    Enum(Vec<(String, Tref)>),
    Alias(Tref),
}

#[derive(Debug, Clone, PartialEq)]
pub enum Tref {
    Name(String),
    Boxed(Box<Tref>),
}

pub struct Graph {
    pub items: BTreeMap<String, Item>,
}

fn tref(t: &syn::Type) -> Result<Tref, String> {
    if let syn::Type::Path(p) = t {
        let seg = p.path.segments.last().ok_or("empty path")?;
        if let syn::PathArguments::AngleBracketed(a) = &seg.arguments {
            if let (Some(syn::GenericArgument::Type(t)), true) = (a.args.first(), seg.ident == "Box") {
                return Ok(Tref::Boxed(Box::new(tref(t)?)));
            }
            return Err("unexpected generic type".into());
        }
        return Ok(Tref::Name(seg.ident.to_string()));
    }
    if let syn::Type::Paren(p) = t {
        return tref(&p.elem);
    }
    if let syn::Type::Group(p) = t {
        return tref(&p.elem);
    }
    Err("unexpected type".into())
}

impl Graph {
    /// Every complaint is a reason the module cannot compile.
    pub fn read(code: &TokenStream) -> Result<Graph, String> {
        let f: syn::File = syn::parse2(code.clone()).map_err(|e| format!("generated code is not a Rust file: {}", e))?;
        let mut g = Graph { items: BTreeMap::new() };
        for it in &f.items {
            let (name, item) = match it {
                syn::Item::Struct(s) => {
                    let mut fields = vec![];
                    let mut seen = BTreeSet::new();
                    for f in &s.fields {
                        let n = f.ident.as_ref().map(|i| i.to_string());
                        if let Some(n) = &n {
                            if !seen.insert(unraw(n).to_string()) {
                                return Err(format!("field `{}` twice in `{}`", n, s.ident));
                            }
                        }
                        fields.push((n, tref(&f.ty)?));
                    }
                    (s.ident.to_string(), if fields.is_empty() { Item::Unit } else { Item::Struct(fields) })
                }
                syn::Item::Enum(e) => {
                    let mut vs = vec![];
                    let mut seen = BTreeSet::new();
                    for v in &e.variants {
                        if !seen.insert(v.ident.to_string()) {
                            return Err(format!("variant `{}` twice in `{}`", v.ident, e.ident));
                        }
                        let mut it = v.fields.iter();
                        match (it.next(), it.next()) {
                            (Some(f), None) => vs.push((v.ident.to_string(), tref(&f.ty)?)),
                            _ => return Err(format!("variant `{}` without one payload", v.ident)),
                        }
                    }
                    (e.ident.to_string(), Item::Enum(vs))
                }
                syn::Item::Type(t) => (t.ident.to_string(), Item::Alias(tref(&t.ty)?)),
                _ => continue,
            };
            if g.items.insert(name.clone(), item).is_some() {
                return Err(format!("type `{}` declared twice", name));
            }
        }
        for (n, it) in &g.items {
            let refs: Vec<&Tref> = match it {
                Item::Unit => vec![],
                Item::Struct(v) => v.iter().map(|x| &x.1).collect(),
                Item::Enum(v) => v.iter().map(|x| &x.1).collect(),
                Item::Alias(t) => vec![t],
            };
            for r in refs {
                let mut r = r;
                while let Tref::Boxed(b) = r {
                    r = b;
                }
                if let Tref::Name(x) = r {
                    if x != "Epsilon" && !g.items.contains_key(x) {
                        return Err(format!("`{}` uses undeclared type `{}`", n, x));
                    }
                }
            }
        }
        if !g.items.contains_key("Ast") {
            return Err("no root type `Ast`".into());
        }
        g.sized()?;
        Ok(g)
    }
    fn sized(&self) -> Result<(), String> {
        // no cycle through unboxed references
        let mut state: BTreeMap<&str, u8> = BTreeMap::new();
        fn go<'a>(g: &'a Graph, n: &'a str, state: &mut BTreeMap<&'a str, u8>) -> Result<(), String> {
            match state.get(n) {
                Some(1) => return Err(format!("type `{}` has infinite size", n)),
                Some(_) => return Ok(()),
                None => {}
            }
            state.insert(n, 1);
            if let Some(it) = g.items.get(n) {
                let refs: Vec<&Tref> = match it {
                    Item::Unit => vec![],
                    Item::Struct(v) => v.iter().map(|x| &x.1).collect(),
                    Item::Enum(v) => v.iter().map(|x| &x.1).collect(),
                    Item::Alias(t) => vec![t],
                };
                for r in refs {
                    if let Tref::Name(x) = r {
                        go(g, x, state)?;
                    }
                }
            }
            state.insert(n, 2);
            Ok(())
        }
        for n in self.items.keys() {
            go(self, n, &mut state)?;
        }
        Ok(())
    }
    /// Follows aliases.
    pub fn resolve(&self, t: &Tref) -> Tref {
        let mut t = t.clone();
        for _ in 0..10_000 {
            match &t {
                Tref::Name(n) => match self.items.get(n) {
                    Some(Item::Alias(u)) => t = u.clone(),
                    _ => return t,
                },
                Tref::Boxed(_) => return t,
            }
        }
        t
    }
    fn root(&self) -> Tref {
        self.resolve(&Tref::Name("Ast".into()))
    }

    /// Structure: every node of the grammar has the type it must have, literals keep their identity,
    /// and recursion goes to the enclosing recursion.
    pub fn structure(&self, n: &TN) -> Result<usize, String> {
        let mut lits: (BTreeMap<String, String>, BTreeMap<String, String>) = Default::default();
        let mut count = 0;
        self.walk(n, &self.root(), &mut vec![], &mut lits, &mut count)?;
        Ok(count)
    }
    fn walk(
        &self,
        n: &TN,
        t: &Tref,
        ctx: &mut Vec<Tref>,
        lits: &mut (BTreeMap<String, String>, BTreeMap<String, String>),
        count: &mut usize,
    ) -> Result<(), String> {
        *count += 1;
        let t = self.resolve(t);
        let item = match &t {
            Tref::Name(x) => self.items.get(x),
            _ => None,
        };
        let bad = |what: &str| Err(format!("{} is generated as {:?} = {:?}, not {}", n.show(), t, item, what));
        match (&n.k, item) {
            (TK::Eps, _) => {
                if t != Tref::Name("Epsilon".into()) {
                    return bad("Epsilon");
                }
            }
            (TK::Lit(s), Some(Item::Unit)) => {
                if let Tref::Name(x) = &t {
                    let a = lits.0.entry(x.clone()).or_insert_with(|| s.clone());
                    if a != s {
                        return Err(format!("literals {:?} and {:?} share type {}", a, s, x));
                    }
                }
            }
            (TK::Lit(_), _) => return bad("a unit struct"),
            (TK::Cat(v), Some(Item::Struct(fs))) => {
                if v.len() != fs.len() {
                    return bad("a struct with as many fields as parts");
                }
                for (x, (_, ft)) in v.iter().zip(fs) {
                    self.walk(x, ft, ctx, lits, count)?;
                }
            }
            (TK::Cat(_), _) => return bad("a struct"),
            (TK::Alt(v), Some(Item::Enum(fs))) => {
                if v.len() != fs.len() {
                    return bad("an enum with as many variants as branches");
                }
                for (x, (_, ft)) in v.iter().zip(fs) {
                    self.walk(x, ft, ctx, lits, count)?;
                }
            }
            (TK::Alt(_), _) => return bad("an enum"),
            (TK::Fix(b), _) => {
                ctx.push(t.clone());
                let r = self.walk(b, &t, ctx, lits, count);
                ctx.pop();
                r?;
            }
            (TK::Var(i), _) => match &t {
                Tref::Boxed(inner) => {
                    let want = &ctx[ctx.len() - 1 - i];
                    let got = self.resolve(inner);
                    if got != *want {
                        return Err(format!("recursion '{} goes to {:?} instead of {:?}", i, got, want));
                    }
                }
                _ => return bad("a box"),
            },
        }
        Ok(())
    }

    /// Structurally identical sub-expressions share one type. Parts that are epsilon are left out
    /// (each one is a sub-expression of its own); recursions count as identical with their names.
    pub fn sharing(&self, n: &TN) -> Result<usize, String> {
        let mut by: BTreeMap<String, &str> = BTreeMap::new();
        let eps = Tref::Name("Epsilon".into());
        for (name, it) in &self.items {
            let (kind, ts): (&str, Vec<&Tref>) = match it {
                Item::Struct(v) => ("sequence", v.iter().map(|x| &x.1).collect()),
                Item::Enum(v) => ("alternation", v.iter().map(|x| &x.1).collect()),
                _ => continue,
            };
            if ts.contains(&&eps) {
                continue;
            }
            if let Some(other) = by.insert(format!("{} of {:?}", kind, ts), name) {
                return Err(format!("`{}` and `{}` are the same {}: {:?}", other, name, kind, ts));
            }
        }
        let mut by = BTreeMap::new();
        let mut count = 0;
        self.sharing_walk(n, &self.root(), &mut vec![], &mut by, &mut count)?;
        Ok(count)
    }
    fn sharing_walk(&self, n: &TN, t: &Tref, ctx: &mut Vec<Tref>, by: &mut BTreeMap<String, Tref>, count: &mut usize) -> Result<(), String> {
        fn body(n: &TN, depth: usize, ctx: &[Tref], out: &mut String) {
            out.push_str(&format!("{:?}{}", n.name, n.kind));
            match &n.k {
                TK::Eps => out.push('_'),
                TK::Lit(s) => out.push_str(&format!("{:?}", s)),
                TK::Cat(v) | TK::Alt(v) => {
                    out.push_str(if matches!(n.k, TK::Cat(_)) { ".(" } else { "|(" });
                    v.iter().for_each(|x| body(x, depth, ctx, out));
                    out.push(')');
                }
                TK::Fix(b) => {
                    out.push('!');
                    body(b, depth + 1, ctx, out);
                }
                TK::Var(i) if *i <= depth => out.push_str(&format!("'{}", i)),
                TK::Var(i) => out.push_str(&format!("'{}{:?}", i, ctx[ctx.len() - (i - depth)])),
            }
        }
        let t = self.resolve(t);
        let key = match &n.k {
            TK::Lit(s) => Some(format!("literal {:?}", s)),
            TK::Fix(b) => {
                let mut s = String::from("recursion ");
                body(b, 0, ctx, &mut s);
                Some(s)
            }
            _ => None,
        };
        if let Some(k) = key {
            *count += 1;
            match by.get(&k) {
                Some(o) if *o != t => return Err(format!("{} occurs with the types {:?} and {:?}", n.show(), o, t)),
                Some(_) => {}
                None => {
                    by.insert(k, t.clone());
                }
            }
        }
        let item = match &t {
            Tref::Name(x) => self.items.get(x),
            _ => None,
        };
        match (&n.k, item) {
            (TK::Cat(v), Some(Item::Struct(fs))) => {
                for (x, f) in v.iter().zip(fs) {
                    self.sharing_walk(x, &f.1, ctx, by, count)?;
                }
            }
            (TK::Alt(v), Some(Item::Enum(fs))) => {
                for (x, f) in v.iter().zip(fs) {
                    self.sharing_walk(x, &f.1, ctx, by, count)?;
                }
            }
            (TK::Fix(b), _) => {
                ctx.push(t.clone());
                let r = self.sharing_walk(b, &t, ctx, by, count);
                ctx.pop();
                r?;
            }
            _ => {}
        }
        Ok(())
    }

    /// Type names: each type is named after one of the sub-expressions it stands for, and numbers
    /// of a name are given out in order.
    pub fn type_names(&self, n: &TN) -> Result<(usize, usize), String> {
        let mut by: BTreeMap<String, (&'static str, BTreeSet<Option<String>>)> = BTreeMap::new();
        let mut root = Tref::Name("Ast".into());
        if let Some(Item::Alias(t)) = self.items.get("Ast") {
            root = t.clone();
        }
        self.type_names_walk(n, &root, &mut by);
        let mut stats = (0, 0);
        for (t, (prefix, names)) in &by {
            stats.0 += 1;
            let number = |base: &str, tail: bool| -> Option<usize> {
                let mut rest = t.strip_prefix(base)?;
                if tail {
                    rest = rest.trim_end_matches('_');
                }
                if rest.is_empty() || rest.starts_with('0') || !rest.bytes().all(|b| b.is_ascii_digit()) {
                    return None;
                }
                rest.parse().ok()
            };
            let mut why = vec![];
            let ok = names.iter().any(|n| match n {
                None => number(prefix, true).is_some(),
                Some(n) => {
                    let base = camel(unraw(n));
                    [base.clone(), format!("_{}", base)].iter().any(|base| match number(base, false) {
                        None => false,
                        Some(k) => match (1..k.min(100_000)).find(|j| !self.items.contains_key(&format!("{}{}", base, j))) {
                            None => {
                                stats.1 += 1;
                                true
                            }
                            Some(j) => {
                                why.push(format!("number {} of `{}` is free", j, base));
                                false
                            }
                        },
                    })
                }
            });
            if !ok {
                return Err(format!("type `{}` stands for sub-expressions named {:?} {}", t, names, why.join(", ")));
            }
        }
        Ok(stats)
    }
    fn type_names_walk(&self, n: &TN, t: &Tref, by: &mut BTreeMap<String, (&'static str, BTreeSet<Option<String>>)>) {
        let x = match t {
            Tref::Name(x) => x,
            _ => return,
        };
        let prefix = match &n.k {
            TK::Lit(_) => "Lit",
            TK::Cat(_) => "Cat",
            TK::Alt(_) => "Alt",
            TK::Fix(_) => "Fix",
            TK::Eps | TK::Var(_) => return,
        };
        by.entry(x.clone()).or_insert_with(|| (prefix, BTreeSet::new())).1.insert(n.name.clone());
        match (&n.k, self.items.get(x)) {
            (TK::Cat(v), Some(Item::Struct(fs))) => v.iter().zip(fs).for_each(|(x, f)| self.type_names_walk(x, &f.1, by)),
            (TK::Alt(v), Some(Item::Enum(fs))) => v.iter().zip(fs).for_each(|(x, f)| self.type_names_walk(x, &f.1, by)),
            (TK::Fix(b), Some(Item::Alias(t))) => self.type_names_walk(b, t, by),
            _ => (),
        }
    }

    /// Member names against the reference naming rules.
    pub fn names(&self, n: &Node) -> Result<(usize, usize), String> {
        let mut shapes: BTreeMap<String, Vec<&Node>> = BTreeMap::new();
        fn collect<'a>(n: &'a Node, m: &mut BTreeMap<String, Vec<&'a Node>>) {
            if matches!(n.k, C::Cat(..) | C::Alt(..)) {
                m.entry(shape(n)).or_default().push(n);
            }
            n.children().into_iter().for_each(|c| collect(c, m));
        }
        collect(n, &mut shapes);
        let mut stats = (0, 0);
        let mut seen = BTreeSet::new();
        self.names_walk(n, &self.root(), &shapes, &mut stats, &mut seen)?;
        Ok(stats)
    }
    fn names_walk<'a>(
        &self,
        n: &'a Node,
        t: &Tref,
        shapes: &BTreeMap<String, Vec<&'a Node>>,
        stats: &mut (usize, usize),
        seen: &mut BTreeSet<(String, *const Node)>,
    ) -> Result<(), String> {
        let t = self.resolve(t);
        let item = match &t {
            Tref::Name(x) => self.items.get(x),
            _ => None,
        };
        let bad = || Err(format!("{} is generated as {:?} = {:?}", n.show(), t, item));
        match (&n.k, item) {
            (C::Cat(v, _), Some(Item::Struct(fs))) if fs.len() == v.len() => {
                let got: Vec<Option<String>> = fs.iter().map(|f| f.0.clone()).collect();
                let same = &shapes[&shape(n)];
                let mut why = vec![];
                if !same.iter().any(|m| match fields_ok(m, &got) {
                    Ok(exact) => {
                        stats.0 += 1;
                        stats.1 += exact as usize;
                        true
                    }
                    Err(e) => {
                        why.push(e);
                        false
                    }
                }) {
                    return Err(format!("fields {:?} of {}: {}", got, n.show(), why.join("; or ")));
                }
                for (x, f) in v.iter().zip(fs) {
                    self.names_walk(x, &f.1, shapes, stats, seen)?;
                }
                Ok(())
            }
            (C::Alt(v, _), Some(Item::Enum(fs))) if fs.len() == v.len() => {
                let got: Vec<String> = fs.iter().map(|f| f.0.clone()).collect();
                let same = &shapes[&shape(n)];
                let mut why = vec![];
                if !same.iter().any(|m| match variants_ok(m, &got) {
                    Ok(exact) => {
                        stats.0 += 1;
                        stats.1 += exact as usize;
                        true
                    }
                    Err(e) => {
                        why.push(e);
                        false
                    }
                }) {
                    return Err(format!("variants {:?} of {}: {}", got, n.show(), why.join("; or ")));
                }
                for (x, f) in v.iter().zip(fs) {
                    self.names_walk(x, &f.1, shapes, stats, seen)?;
                }
                Ok(())
            }
            (C::Cat(..), _) | (C::Alt(..), _) => bad(),
            (C::Fix(b), _) => self.names_walk(b, &t, shapes, stats, seen),
            _ => Ok(()),
        }
    }
}

/// Structure with recursion targets and empty-literal spelling left out: what the compiler may share.
pub fn shape(n: &Node) -> String {
    match &n.k {
        C::Var(_) => "'".into(),
        C::Cat(v, _) => format!("({})", v.iter().map(shape).collect::<Vec<_>>().join(".")),
        C::Alt(v, _) => format!("({})", v.iter().map(shape).collect::<Vec<_>>().join("|")),
        C::Fix(b) => format!("!{}", shape(b)),
        _ => n.show(),
    }
}

/// The names a node may carry: empty means none.
pub fn tops(n: &Node) -> BTreeSet<String> {
    let top = match n.cands.iter().map(|c| c.0).max() {
        Some(t) => t,
        None => return BTreeSet::new(),
    };
    n.cands.iter().filter(|c| c.0 == top).map(|c| unraw(&c.1).to_string()).collect()
}

/// Checks a member list. Ok(true): exactly determined; Ok(false): the rules leave a choice or two
/// members collide.
fn members_ok(parts: &[&Node], got: &[String], conv: &dyn Fn(&str) -> String, default: &str) -> Result<bool, String> {
    let allowed: Vec<BTreeSet<String>> = parts.iter().map(|p| tops(p).iter().map(|s| conv(s)).collect()).collect();
    let mut exact = true;
    let mut plain: Vec<String> = vec![];
    let mut count: BTreeMap<String, usize> = BTreeMap::new();
    for (i, a) in allowed.iter().enumerate() {
        if a.len() > 1 || a.iter().any(|s| s.is_empty() || s.starts_with(|c: char| c.is_ascii_digit())) {
            exact = false;
        }
        // the next number free from what came before
        let (name, from) = match a.iter().next() {
            None => (default.to_string(), i),
            Some(s) => (s.clone(), count.get(s).copied().unwrap_or(0)),
        };
        let mut k = from + 1;
        while plain.contains(&format!("{}{}", name, k)) {
            k += 1;
        }
        plain.push(format!("{}{}", name, k));
        if !a.is_empty() {
            count.insert(name, k);
        }
    }
    if exact {
        return if plain == got { Ok(true) } else { Err(format!("expected {:?}", plain)) };
    }
    for (i, g) in got.iter().enumerate() {
        let ok = if allowed[i].is_empty() {
            g.starts_with(default)
        } else {
            allowed[i].iter().any(|s| s.is_empty() || s.starts_with(|c: char| c.is_ascii_digit()) || g.starts_with(s.as_str()))
        };
        if !ok {
            return Err(format!("member {} is `{}`, expected one of {:?}", i, g, allowed[i]));
        }
    }
    Ok(false)
}

fn fields_ok(n: &Node, got: &[Option<String>]) -> Result<bool, String> {
    let parts = n.children();
    let any = parts.iter().any(|p| !p.cands.is_empty());
    if !any {
        return if got.iter().all(|g| g.is_none()) { Ok(true) } else { Err("expected no field names".into()) };
    }
    let names: Option<Vec<String>> = got.iter().cloned().collect();
    match names {
        None => Err("expected field names".into()),
        Some(g) => members_ok(&parts, &g, &snake, "part"),
    }
}

fn variants_ok(n: &Node, got: &[String]) -> Result<bool, String> {
    members_ok(&n.children(), got, &camel, "Branch")
}
