//! What it means for two things the compiler and the runtime hand out to be equal. The oracle never
//! compares the things themselves: it writes each out, and the writings are compared.
use crate::pipe;
use crate::streams::{mixed, printed, well};
use chewed::{IterWrapper, LineCol, ParseError, Parser, TakeError};
use chomp::chomp::ast::{self, Expression, NamedExpression};
use chomp::chomp::name::{Content, Name};
use chomp::chomp::typed::{
    lower::{Backend, GenerateCode},
    Alt, Cat, Epsilon, Fix, Literal, TypedExpression, Variable,
};
use harn::{guard, Run, Stats};
use proc_macro2::{Ident, Span};
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeSet, HashMap, HashSet};
use std::hash::{Hash, Hasher};
use vref::elab::elab;
use vref::gen;
use vref::rng::Rng;
use vref::syntax::{print, Layout};

const FUEL: usize = 2_000;

fn hash_of<T: Hash>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

fn unraw(n: &Name) -> String {
    let s = n.to_string();
    s.strip_prefix("r#").map(String::from).unwrap_or(s)
}

/// All an expression means: its shape, literals, indices and the names it binds, not where it is
/// written nor what it is labelled.
fn writing(n: &NamedExpression) -> String {
    let list = |c: char, first: &NamedExpression, rest: &[(Span, NamedExpression)]| {
        let mut s = format!("({}", c);
        for e in std::iter::once(first).chain(rest.iter().map(|x| &x.1)) {
            s.push(' ');
            s.push_str(&writing(e));
        }
        s.push(')');
        s
    };
    match &n.expr {
        Expression::Epsilon(_) => "_".into(),
        Expression::Literal(l) => format!("{:?}", l),
        Expression::Cat(c) => list('.', &c.first, &c.rest),
        Expression::Alt(c) => list('|', &c.first, &c.rest),
        Expression::Fix(f) => format!("(! {})", writing(&f.inner)),
        Expression::Variable(v) => format!("'{}", v.index),
        Expression::Call(c) => {
            let mut s = format!("(@ {}", writing(&c.on));
            for e in &c.args {
                s.push(' ');
                s.push_str(&writing(e));
            }
            s.push(')');
            s
        }
        Expression::Lambda(l) => format!("(/{}/ {})", l.args.iter().map(unraw).collect::<Vec<_>>().join(","), writing(&l.inner)),
        Expression::Let(l) => format!("(let {} {} {})", unraw(&l.name), writing(&l.bound), writing(&l.body)),
    }
}

fn parts<'a>(n: &'a NamedExpression, out: &mut Vec<&'a NamedExpression>) {
    out.push(n);
    match &n.expr {
        Expression::Cat(ast::Cat { first, rest }) | Expression::Alt(ast::Alt { first, rest }) => {
            parts(first, out);
            rest.iter().for_each(|x| parts(&x.1, out));
        }
        Expression::Fix(f) => parts(&f.inner, out),
        Expression::Call(c) => {
            parts(&c.on, out);
            c.args.iter().for_each(|x| parts(x, out));
        }
        Expression::Lambda(l) => parts(&l.inner, out),
        Expression::Let(l) => {
            parts(&l.bound, out);
            parts(&l.body, out);
        }
        _ => {}
    }
}

/// The expression `k` steps into the tree, if there is one.
fn at<'a>(n: &'a mut NamedExpression, k: &mut usize) -> Option<&'a mut NamedExpression> {
    if *k == 0 {
        return Some(n);
    }
    *k -= 1;
    match &mut n.expr {
        Expression::Cat(ast::Cat { first, rest }) | Expression::Alt(ast::Alt { first, rest }) => {
            if let Some(x) = at(first, k) {
                return Some(x);
            }
            rest.iter_mut().find_map(|x| at(&mut x.1, k))
        }
        Expression::Fix(f) => at(&mut f.inner, k),
        Expression::Call(c) => {
            if let Some(x) = at(&mut c.on, k) {
                return Some(x);
            }
            c.args.iter_mut().find_map(|x| at(x, k))
        }
        Expression::Lambda(l) => at(&mut l.inner, k),
        Expression::Let(l) => {
            if let Some(x) = at(&mut l.bound, k) {
                return Some(x);
            }
            at(&mut l.body, k)
        }
        _ => None,
    }
}

fn bare(expr: Expression) -> NamedExpression {
    NamedExpression { name: None, span: Span::call_site(), expr }
}

fn other_name(n: &Name, r: &mut Rng, variable: bool) -> Name {
    let mut s = unraw(n);
    match r.below(4) {
        0 => s.push('_'),
        1 => s.push('x'),
        2 => s = s.to_uppercase(),
        _ => s = format!("q{}", s),
    }
    if variable {
        Name::new_variable(s)
    } else {
        Name::new_let(s)
    }
}

/// One small change somewhere in a tree; it need not change what the tree means.
fn surgery(n: &mut NamedExpression, r: &mut Rng) {
    let mut v = vec![];
    parts(n, &mut v);
    let mut k = r.below(v.len());
    let n = match at(n, &mut k) {
        Some(n) => n,
        None => return,
    };
    match r.below(12) {
        0 => return n.name = None,
        1 => return n.name = Some(Name::new_label("relabelled".to_string())),
        2 => return n.span = Span::call_site(),
        3 => return *n = bare(ast::Epsilon.into()),
        _ => {}
    }
    let swap = r.chance(1, 6);
    let old = std::mem::replace(&mut n.expr, ast::Epsilon.into());
    n.expr = match old {
        Expression::Literal(mut l) => {
            match r.below(4) {
                0 => l.push('a'),
                1 => {
                    l.pop();
                }
                2 => l = l.to_uppercase(),
                _ => {
                    let mut v: Vec<char> = l.chars().collect();
                    if !v.is_empty() {
                        let i = r.below(v.len());
                        v[i] = crate::rt::alike(v[i], r);
                    }
                    l = v.into_iter().collect();
                }
            }
            Expression::Literal(l)
        }
        Expression::Variable(mut v) => {
            v.index = if r.chance(1, 2) { v.index + r.range(1, 3) } else { v.index.saturating_sub(1) };
            Expression::Variable(v)
        }
        Expression::Cat(c) if swap => ast::Alt { first: c.first, rest: c.rest }.into(),
        Expression::Alt(c) if swap => ast::Cat { first: c.first, rest: c.rest }.into(),
        Expression::Cat(mut c) => {
            list_surgery(&mut c.first, &mut c.rest, r);
            c.into()
        }
        Expression::Alt(mut c) => {
            list_surgery(&mut c.first, &mut c.rest, r);
            c.into()
        }
        Expression::Fix(f) => f.inner.expr,
        Expression::Call(mut c) => {
            match r.below(3) {
                0 => {
                    c.args.pop();
                }
                1 => c.args.push(bare(ast::Epsilon.into())),
                _ => c.args.reverse(),
            }
            c.into()
        }
        Expression::Lambda(mut l) => {
            match r.below(4) {
                0 => {
                    l.args.pop();
                }
                1 => l.args.push(Name::new_variable("more".to_string())),
                2 => l.args.reverse(),
                _ => {
                    if !l.args.is_empty() {
                        let i = r.below(l.args.len());
                        l.args[i] = other_name(&l.args[i], r, true);
                    }
                }
            }
            l.into()
        }
        Expression::Let(mut l) => {
            if r.chance(1, 2) {
                l.name = other_name(&l.name, r, false);
            } else {
                std::mem::swap(&mut l.bound, &mut l.body);
            }
            l.into()
        }
        e => ast::Fix { inner: Box::new(bare(e)) }.into(),
    };
}

fn list_surgery(first: &mut NamedExpression, rest: &mut Vec<(Span, NamedExpression)>, r: &mut Rng) {
    match r.below(5) {
        0 if rest.len() > 1 => {
            rest.pop();
        }
        1 if rest.len() > 1 => {
            let i = r.below(rest.len());
            rest.remove(i);
        }
        2 => rest.push((Span::call_site(), bare(ast::Epsilon.into()))),
        3 => rest.reverse(),
        _ if !rest.is_empty() => {
            let i = r.below(rest.len());
            std::mem::swap(first, &mut rest[i].1);
        }
        _ => {}
    }
}

/// Compares every pair with what the writings say.
fn pairs<'a, T: PartialEq + Clone>(what: &str, v: &'a [(T, String)], st: &mut Stats, r: &mut Rng, text: &dyn Fn() -> String) {
    let mut judge = |i: usize, j: usize| {
        let (a, b) = (&v[i], &v[j]);
        let want = a.1 == b.1;
        st.add(if want { "pairs that are equal" } else { "pairs that differ" }, 1);
        let got = a.0 == b.0;
        if got != want || (a.0 != b.0) == got {
            st.violation(
                format!("two {} that {} compare {}", what, if want { "mean the same" } else { "differ" }, if got { "equal" } else { "unequal" }),
                format!("one: {}\nother: {}\n{}", a.1, b.1, text()),
            );
        }
    };
    if v.len() <= 24 {
        for i in 0..v.len() {
            for j in 0..v.len() {
                judge(i, j);
            }
        }
    } else {
        let mut by: HashMap<&str, usize> = HashMap::new();
        for i in 0..v.len() {
            // one that means the same, if any, and some others, both ways round
            let mut js = vec![i, r.below(v.len()), r.below(v.len()), (i + 1) % v.len()];
            if let Some(j) = by.insert(&v[i].1, i) {
                js.push(j);
            }
            for j in js {
                judge(i, j);
                judge(j, i);
            }
        }
    }
    for x in v.iter().take(4) {
        #[allow(clippy::redundant_clone)]
        if x.0.clone() != x.0 {
            st.violation(format!("a copy of one of the {} differs from it", what), format!("{}\n{}", x.1, text()));
        }
    }
}

fn trees(i: usize, r: &mut Rng, st: &mut Stats) {
    let c = if i % 3 == 0 { mixed(r, false) } else { printed(if i % 3 == 1 { gen::applied(r, false) } else { well(r, false) }, r, Layout::plain(), "well") };
    let p = match &c.prog {
        Some(p) => p.clone(),
        None => return,
    };
    // the same again, laid out otherwise; and something that differs little
    let mut texts = vec![c.text.clone()];
    {
        let mut q = p.clone();
        texts.push(print(&mut q, Layout::random(r, false), r));
        let mut q = p.clone();
        gen::labels(&mut q, r, 30, 0, false);
        texts.push(print(&mut q, Layout::plain(), r));
        let mut q = p.clone();
        match r.below(3) {
            0 => gen::relettered(&mut q, r),
            1 => gen::rename(&mut q, r, 0, false),
            _ => {
                let o = gen::Opts::random(r, false);
                gen::damage(&mut q, r, &o)
            }
        }
        texts.push(print(&mut q, Layout::plain(), r));
    }
    pipe::reset_spans();
    let mut whole: Vec<NamedExpression> = vec![];
    for t in &texts {
        let small = vref::syntax::parse(t).map_or(false, |p| elab(&p, FUEL).is_ok());
        harn::note(t);
        let got = guard(|| {
            let conv = pipe::convert(pipe::parse(t).ok()?).ok()?;
            let red = if small { pipe::reduce(conv.clone()).ok() } else { None };
            Some((conv, red))
        });
        if let Ok(Some((conv, red))) = got {
            whole.push(conv);
            whole.extend(red);
        }
    }
    if whole.is_empty() {
        st.hit("no tree (judged by C07)");
        return;
    }
    for _ in 0..6 {
        let mut t = r.pick(&whole).clone();
        surgery(&mut t, r);
        if r.chance(1, 4) {
            surgery(&mut t, r);
        }
        whole.push(t);
    }
    let text = || texts.iter().map(|t| format!("program:\n{}", t)).collect::<Vec<_>>().join("\n");
    st.case(&c.text, whole.len() > 6);
    let tops: Vec<(NamedExpression, String)> = whole.iter().map(|t| (t.clone(), writing(t))).collect();
    if tops.iter().map(|t| t.1.len()).sum::<usize>() > 60_000 {
        st.hit("skipped: too large");
        return;
    }
    pairs("expressions", &tops, st, r, &text);
    let mut subs: Vec<&NamedExpression> = vec![];
    whole.iter().for_each(|t| parts(t, &mut subs));
    r.shuffle(&mut subs);
    subs.truncate(60);
    let subs: Vec<(NamedExpression, String)> = subs.into_iter().map(|t| (t.clone(), writing(t))).collect();
    pairs("expressions", &subs, st, r, &text);
}

// -------------------------------------------------------------------------------- typed expressions

#[derive(Default)]
struct Collect {
    out: Vec<TypedExpression>,
}

impl Collect {
    fn walk(&mut self, t: TypedExpression) {
        self.out.push(t.clone());
        t.gen(self)
    }
}

impl Backend for Collect {
    type Id = ();
    type Code = ();
    fn gen_epsilon(&mut self, _: Option<Name>, _: Span, _: Epsilon) {}
    fn gen_literal(&mut self, _: Option<Name>, _: Span, _: Literal) {}
    fn gen_cat(&mut self, _: Option<Name>, _: Span, c: Cat) {
        c.into_iter().for_each(|x| self.walk(x))
    }
    fn gen_alt(&mut self, _: Option<Name>, _: Span, c: Alt) {
        c.into_iter().for_each(|x| self.walk(x))
    }
    fn gen_fix(&mut self, _: Option<Name>, _: Span, f: Fix) {
        self.walk(f.unwrap())
    }
    fn gen_variable(&mut self, _: Option<Name>, _: Span, _: Variable) {}
    fn emit_code(self, _: Option<Name>, _: Span, _: ()) {}
}

/// Shape, literals, indices, types and names of a typed expression.
fn typed_writing(t: &pipe::TN) -> String {
    let name = match &t.name {
        Some(n) => format!("{}:{}", t.kind, n.strip_prefix("r#").unwrap_or(n)),
        None => "-".into(),
    };
    let ty = match &t.k {
        pipe::TK::Fix(_) => String::new(),
        _ => format!("{:?}", (t.ty.null, t.ty.first.iter().collect::<BTreeSet<_>>(), t.ty.flast.iter().collect::<BTreeSet<_>>())),
    };
    let inner = match &t.k {
        pipe::TK::Eps => "_".into(),
        pipe::TK::Lit(l) => format!("{:?}", l),
        pipe::TK::Var(i) => format!("'{}", i),
        pipe::TK::Cat(v) => format!("(. {})", v.iter().map(typed_writing).collect::<Vec<_>>().join(" ")),
        pipe::TK::Alt(v) => format!("(| {})", v.iter().map(typed_writing).collect::<Vec<_>>().join(" ")),
        pipe::TK::Fix(b) => format!("(! {})", typed_writing(b)),
    };
    format!("{}{{{} {}}}", inner, name, ty)
}

fn typed(i: usize, r: &mut Rng, st: &mut Stats) {
    let p = match i % 4 {
        0 => crate::checks::twins(r),
        1 => gen::lookalikes(r, false),
        _ => well(r, false),
    };
    let mut q = p.clone();
    let mut texts = vec![print(&mut q, Layout::plain(), r)];
    let mut q = p.clone();
    texts.push(print(&mut q, Layout::random(r, false), r));
    let mut q = p.clone();
    if r.chance(1, 2) {
        gen::labels(&mut q, r, 30, 0, false);
    } else {
        gen::relettered(&mut q, r);
    }
    texts.push(print(&mut q, Layout::plain(), r));
    let mut v: Vec<TypedExpression> = vec![];
    pipe::reset_spans();
    for t in &texts {
        match vref::syntax::parse(t).map(|p| elab(&p, FUEL)) {
            Ok(Ok(o)) if o.accepted() => {}
            _ => continue,
        }
        harn::note(t);
        if let Ok(Some(t)) = guard(|| pipe::infer(pipe::reduce(pipe::convert(pipe::parse(t).ok()?).ok()?).ok()?).ok()) {
            let mut c = Collect::default();
            c.walk(t);
            let top = c.out[0].clone();
            r.shuffle(&mut c.out);
            c.out.truncate(24);
            v.push(top);
            v.extend(c.out);
        }
    }
    if v.len() < 2 {
        st.hit("not typed (judged by C05)");
        return;
    }
    st.case(&texts[0], v.len() > 6);
    let v: Vec<(TypedExpression, String)> = v.into_iter().map(|t| (t.clone(), typed_writing(&pipe::spy(t)))).collect();
    let text = || texts.iter().map(|t| format!("program:\n{}", t)).collect::<Vec<_>>().join("\n");
    pairs("typed expressions", &v, st, r, &text);
    hashes("typed expressions", &v, st, &text);
}

/// Equals hash alike, and a set finds exactly the different ones.
fn hashes<T: Hash + Eq + Clone>(what: &str, v: &[(T, String)], st: &mut Stats, text: &dyn Fn() -> String) {
    let mut seen: HashMap<&str, u64> = HashMap::new();
    for (t, w) in v {
        let h = hash_of(t);
        st.add("hashes compared", 1);
        if let Some(o) = seen.insert(w, h) {
            if o != h {
                st.violation(format!("two equal {} hash differently", what), format!("{}\n{}", w, text()));
                return;
            }
        }
    }
    let set: HashSet<T> = v.iter().map(|x| x.0.clone()).collect();
    if set.len() != seen.len() {
        st.violation(
            format!("a hash set of {} {} holds {}, should hold {}", v.len(), what, set.len(), seen.len()),
            format!("{}\n{}", v.iter().map(|x| x.1.clone()).collect::<Vec<_>>().join("\n"), text()),
        );
    }
}

// ------------------------------------------------------------------------------------------- names

const WORDS: &[&str] = &[
    "a", "b", "A", "ab", "Ab", "aB", "a_b", "a__b", "_a", "_A", "a_", "a1", "a10", "type", "fn", "match", "loop", "Type", "typ", "r", "rtype", "é", "É", "e",
    "ё", "ﬁ", "fi", "straße", "strasse", "σ", "ς", "Σ", "K", "k", "K", "x", "X", "Label", "label", "async", "dyn", "try", "opt", "Opt", "union", "default",
];

fn names(_: usize, r: &mut Rng, st: &mut Stats) {
    let mut v: Vec<(Name, String)> = vec![];
    let mut made = vec![];
    let mut words: Vec<String> = (0..r.range(2, 6)).map(|_| r.pick(WORDS).to_string()).collect();
    for _ in 0..r.below(3) {
        words.push(gen::label_name(r, 2, false));
    }
    for _ in 0..r.range(2, 18) {
        let w = r.pick(&words).clone();
        let w = w.strip_prefix("r#").unwrap_or(&w).to_string();
        let raw = syn::parse_str::<Ident>(&format!("r#{}", w)).ok();
        let plain = syn::parse_str::<Ident>(&w).ok();
        let content: Content = match r.below(3) {
            0 if plain.is_some() => plain.unwrap().into(),
            1 if raw.is_some() => raw.unwrap().into(),
            _ => w.clone().into(),
        };
        made.push(format!("{:?}", content));
        let (k, n) = match r.below(3) {
            0 => ("label", Name::new_label(content.clone())),
            1 => ("let", Name::new_let(content.clone())),
            _ => ("variable", Name::new_variable(content.clone())),
        };
        // an identifier that comes in another normal form is not the same text
        v.push((n, format!("{} {}", k, w)));
        for o in &words {
            let o = o.strip_prefix("r#").unwrap_or(o);
            let got = content == o;
            st.add("names compared with text", 1);
            if got != (w == o) {
                st.violation(
                    format!("the name {:?} compares {} with the text {:?}", w, if got { "equal" } else { "unequal" }, o),
                    format!("made as {:?}", content),
                );
            }
        }
    }
    st.case(&made.join(" "), true);
    let text = || format!("names: {}", made.join(" "));
    pairs("names", &v, st, r, &text);
    hashes("names", &v, st, &text);
    let c: Vec<(Content, String)> = v.iter().map(|(n, w)| (n.content.clone(), w.split_once(' ').unwrap().1.to_string())).collect();
    pairs("name contents", &c, st, r, &text);
    hashes("name contents", &c, st, &text);
}

// ---------------------------------------------------------------------------- positions and errors

fn positions(_: usize, r: &mut Rng, st: &mut Stats) {
    let n = r.range(1, 60);
    let d: Vec<char> = (0..n)
        .map(|_| match r.below(6) {
            0 => '\n',
            1 => *r.pick(&['\r', '\t', '\u{b}', '\u{c}', '\u{85}', '\u{2028}']),
            2 => crate::rt::any_char(r),
            _ => *r.pick(&['a', 'b', ' ']),
        })
        .collect();
    let text: String = d.iter().collect();
    st.case(&text, n > 2);
    let mut s = IterWrapper::new(text.chars());
    let mut at: Vec<LineCol> = vec![s.pos()];
    while s.next().is_some() {
        at.push(s.pos());
    }
    let order: Vec<(usize, LineCol)> = at.iter().copied().enumerate().collect();
    if at[0] != LineCol::default() {
        st.violation("a stream does not start at the default position", format!("{:?}", at[0]));
    }
    for _ in 0..40 {
        let (i, a) = *r.pick(&order);
        let (j, b) = *r.pick(&order);
        st.add("positions compared", 1);
        if a.cmp(&b) != i.cmp(&j) || a.partial_cmp(&b) != Some(i.cmp(&j)) || (a == b) != (i == j) || (i == j && hash_of(&a) != hash_of(&b)) {
            st.violation(
                format!("positions {} and {} after {} and {} characters are ordered {:?}", a, b, i, j, a.cmp(&b)),
                format!("input: {:?}", text),
            );
        }
    }
    let mut mixed = at.clone();
    r.shuffle(&mut mixed);
    mixed.sort();
    if mixed != at {
        st.violation("sorted positions are not in the order of the stream", format!("input: {:?}\nsorted: {:?}", text, mixed));
    }
    // errors: equal exactly when all they say is equal
    const SETS: &[&[char]] = &[&[], &['a'], &['a', 'b'], &['b', 'a'], &['b']];
    const STRS: &[&str] = &["", "a", "ab", "b", "A"];
    let mut v: Vec<(ParseError, String)> = vec![];
    for _ in 0..r.range(2, 14) {
        let p = *r.pick(&at[..at.len().min(3)]);
        let e: ParseError = match r.below(4) {
            0 => TakeError::BadBranch(p, *r.pick(&['a', 'b', 'A']), *r.pick(SETS)).into(),
            1 => TakeError::BadString(p, r.pick(STRS).to_string(), *r.pick(STRS)).into(),
            2 => TakeError::EndOfStream(p).into(),
            _ => ParseError::InputContinues(p),
        };
        let w = match &e {
            ParseError::TakeError(TakeError::BadBranch(p, c, s)) => format!("branch {}:{} {:?} {:?}", p.line, p.col, c, s),
            ParseError::TakeError(TakeError::BadString(p, a, b)) => format!("string {}:{} {:?} {:?}", p.line, p.col, a, b),
            ParseError::TakeError(TakeError::EndOfStream(p)) => format!("end {}:{}", p.line, p.col),
            ParseError::InputContinues(p) => format!("more {}:{}", p.line, p.col),
        };
        v.push((e, w));
    }
    let text = || String::new();
    pairs("errors", &v, st, r, &text);
    hashes("errors", &v, st, &text);
}

pub fn c30(run: Run) -> ! {
    run.par("expressions", run.scale(12_000, 25), trees);
    run.par("typed", run.scale(6_000, 25), typed);
    run.par("names", run.scale(40_000, 25), names);
    run.par("positions", run.scale(20_000, 25), positions);
    run.finish(
        "expressions of converted and expanded programs, of the same programs laid out and labelled otherwise, of changed ones and of trees changed in one place, compared in pairs, both ways, with what their writings say; likewise typed expressions with their names and types, names made in every way, stream positions and errors; equal ones must hash alike and a hash set must hold exactly the different ones; non-trivial: several trees, names or characters",
        &["a raw identifier is spelled as its plain form", "a typed expression's own name and what binds it count, where it stands in the text does not"],
    )
}
