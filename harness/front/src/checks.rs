//! Monitors on the compiler, in process.
use crate::graph::{self, Graph};
use crate::pipe::{self, Diag, Kind, TK, TN};
use crate::streams::{self, *};
use harn::{guard, Run, Stats};
use vref::elab::{self, elab, infer, Fault, Node, Stage, C};
use vref::gen;
use vref::lang::{words, Lang, G};
use vref::rng::Rng;
use vref::syntax::{self, print, Layout, Prog};

const FUEL: usize = 6_000;

fn real(text: &str, gen: bool) -> Result<Option<pipe::Full>, String> {
    pipe::reset_spans();
    harn::note(text);
    guard(|| match pipe::parse(text) {
        Ok(s) => Some(pipe::full(s, gen)),
        Err(_) => None,
    })
}

/// The real pipeline, where a panic counts as rejection by another monitor (C08).
/// Programs whose expansion is not small according to the model are not given to it.
fn calm(text: &str, gen: bool, st: &mut Stats) -> Option<pipe::Full> {
    if !syntax::parse(text).map_or(false, |p| elab(&p, FUEL).is_ok()) {
        st.hit("skipped: not modelled or expansion too large");
        return None;
    }
    match real(text, gen) {
        Ok(Some(f)) => Some(f),
        Ok(None) => {
            st.hit("not parsed");
            None
        }
        Err(_) => {
            st.hit("front end panicked (judged by C08)");
            None
        }
    }
}

fn faults(fs: &[Fault]) -> String {
    fs.iter().map(|f| format!("{:?}", f)).collect::<Vec<_>>().join("; ")
}

// ------------------------------------------------------------------------------------------ C03

fn ambiguous(n: &Node, cap: usize) -> Option<Result<(usize, usize), (String, String)>> {
    let l = Lang::new(n)?;
    for len in [14, 10, 8, 6, 5, 4, 3, 2] {
        if let Some(w) = words(&l, len, cap) {
            let mut total = 0;
            for (i, m) in w.iter().enumerate() {
                total += m.len();
                if let Some((word, _)) = m.iter().find(|x| *x.1 >= 2) {
                    return Some(Err((word.iter().collect(), format!("{:?}", l.g[i]))));
                }
            }
            return Some(Ok((len, total)));
        }
    }
    None
}

pub fn c03(run: Run) -> ! {
    let judge = |text: &str, prog: Option<&Prog>, tag: &str, st: &mut Stats| {
        let f = match calm(text, false, st) {
            Some(f) => f,
            None => return,
        };
        if let Some(Ok(tn)) = &f.typed {
            st.hit(&format!("accepted: {}", tag));
            let mut nodes = vec![tn_node(tn)];
            if let Some(Ok(o)) = prog.map(|p| elab(p, FUEL)) {
                if let Some(root) = o.root {
                    if root.show() != tn.show() {
                        nodes.push(root);
                    }
                }
            }
            for n in nodes {
                match ambiguous(&n, 30_000) {
                    Some(Ok((len, total))) => {
                        st.add("words with exactly one derivation", total as u64);
                        st.hit(&format!("enumerated to length {}", len));
                        st.case(&format!("{} | words up to {} of {}", tag, len, n.show()), total > 0 && n.size() > 2);
                    }
                    Some(Err((w, at))) => {
                        st.violation(
                            format!("accepted grammar {} derives {:?} in two ways", n.show(), w),
                            format!("program:\n{}\n\nambiguous at {}", text, at),
                        );
                    }
                    None => st.hit("too large to enumerate"),
                }
            }
        } else {
            st.hit(&format!("rejected: {}", tag));
            if let Some(Ok(o)) = prog.map(|p| elab(p, FUEL)) {
                if let (Some(n), Some(Stage::Type)) = (&o.root, o.stage()) {
                    if let Some(Err(_)) = ambiguous(n, 4_000) {
                        st.hit("rejected and really ambiguous");
                    }
                }
            }
        }
    };
    run.par("generated", run.scale(6_000, 40), |_, r, st| {
        let c = match r.below(6) {
            0 | 1 => {
                let p = border(r);
                printed(p, r, Layout::plain(), "border")
            }
            2 => {
                let p = damaged(r, false);
                printed(p, r, Layout::plain(), "damaged")
            }
            _ => mixed(r, false),
        };
        judge(&c.text, c.prog.as_ref(), c.tag, st);
    });
    // Small grammars next to the border of the typing discipline. The model only sorts them: one it
    // takes for ill-typed and the compiler accepts is enumerated, the rest are sampled.
    run.par("next to the border (chunks of 100)", run.scale(1_500, 40), |_, r, st| {
        for _ in 0..100 {
            let mut p = if r.chance(1, 2) { near(r) } else { border_plain(r) };
            let typed = match elab(&p, FUEL) {
                Ok(o) if o.accepted() => {
                    st.hit("border: well-typed in the model");
                    true
                }
                Ok(o) if o.stage() == Some(Stage::Type) => {
                    st.hit("border: ill-typed in the model");
                    false
                }
                _ => continue,
            };
            if typed && !r.chance(1, 100) {
                continue;
            }
            let text = print(&mut p, Layout::plain(), r);
            judge(&text, Some(&p), "next to the border", st);
        }
    });
    exhaustive(&run, |text, p, st| judge(text, Some(p), "exhaustive", st));
    run.finish(
        "programs accepted by the real compiler whose expanded grammar has all its words up to a length (2..14, as large as a 30000-word cap allows) enumerated with derivation counts at every node; non-trivial: more than two nodes and at least one word",
        &["ambiguity is decided up to the enumerated word length"],
    )
}

/// All small core grammars, as plain programs.
fn exhaustive(run: &Run, f: impl Fn(&str, &Prog, &mut Stats) + Sync) {
    let mut all = vec![];
    for n in 1..=if run.thorough { 7 } else { 5 } {
        all.extend(gen::exhaustive(n, &["a", "b", "ab"], 0, 2));
    }
    if run.thorough {
        for n in 1..=5 {
            all.extend(gen::exhaustive(n, &["a", "b", "c", "ab", "ba", ""], 0, 2));
        }
    }
    let chunk = 200;
    run.par("exhaustive small grammars (chunks of 200)", (all.len() + chunk - 1) / chunk, |i, r, st| {
        for e in all[i * chunk..((i + 1) * chunk).min(all.len())].iter() {
            if run.over() {
                return;
            }
            let mut p = Prog { lets: vec![], goal: e.clone(), sp: (0, 0) };
            let text = print(&mut p, Layout::plain(), r);
            f(&text, &p, st);
        }
    });
}

// ------------------------------------------------------------------------------------------ C04

fn flat<'a>(n: &'a TN, out: &mut Vec<&'a TN>) {
    out.push(n);
    n.children().into_iter().for_each(|c| flat(c, out));
}
fn flat_node<'a>(n: &'a Node, out: &mut Vec<&'a Node>) {
    out.push(n);
    n.children().into_iter().for_each(|c| flat_node(c, out));
}

fn types_of(tn: &TN, text: &str, st: &mut Stats, semantic: bool) {
    let mut n = tn_node(tn);
    let mut fs = vec![];
    infer(&mut n, &mut vec![], 0, &mut fs);
    let (mut a, mut b) = (vec![], vec![]);
    flat(tn, &mut a);
    flat_node(&n, &mut b);
    for (x, y) in a.iter().zip(&b) {
        st.hit("node types compared");
        if x.ty != y.ty {
            st.violation(
                format!("type of {} in {} is {:?}, the least solution is {:?}", x.show(), tn.show(), x.ty, y.ty),
                format!("program:\n{}", text),
            );
            return;
        }
    }
    if !semantic {
        return;
    }
    let l = match Lang::new(&n) {
        Some(l) => l,
        None => return,
    };
    for len in [10, 8, 6, 4, 3] {
        if let Some(w) = words(&l, len, 8_000) {
            for i in 0..l.g.len() {
                let t = a[l.pre[i]];
                for word in w[i].keys() {
                    st.hit("words checked against types");
                    let bad = if word.is_empty() {
                        !t.ty.null
                    } else {
                        !t.ty.first.contains(&word[0])
                            || (1..word.len()).any(|k| w[i].contains_key(&word[..k]) && !t.ty.flast.contains(&word[k]))
                    };
                    if bad {
                        st.violation(
                            format!("type {:?} of {} does not cover its word {:?}", t.ty, t.show(), word.iter().collect::<String>()),
                            format!("program:\n{}\ngrammar {}", text, tn.show()),
                        );
                        return;
                    }
                }
            }
            break;
        }
    }
}

pub fn c04(run: Run) -> ! {
    let judge = |text: &str, tag: &str, st: &mut Stats, semantic: bool| {
        if let Some(f) = calm(text, false, st) {
            if let Some(Ok(tn)) = &f.typed {
                let mut v = vec![];
                flat(tn, &mut v);
                let recs = v.iter().filter(|x| matches!(x.k, TK::Fix(_))).count();
                st.add("recursive nodes", recs as u64);
                st.case(&format!("{} {}", tag, tn.show()), tn.children().len() > 0);
                types_of(tn, text, st, semantic);
            }
        }
    };
    run.par("generated", run.scale(6_000, 40), |i, r, st| {
        let c = if r.chance(1, 3) {
            let p = well(r, false);
            printed(p, r, Layout::plain(), "well")
        } else if r.chance(1, 2) {
            let (p, tag) = streams::zoo(r, false, i % 3 == 0);
            printed(p, r, Layout::plain(), tag)
        } else if r.chance(1, 2) {
            let p = border(r);
            printed(p, r, Layout::plain(), "border")
        } else {
            mixed(r, false)
        };
        judge(&c.text, c.tag, st, i % 2 == 0);
    });
    exhaustive(&run, |text, _, st| judge(text, "exhaustive", st, false));
    run.finish(
        "every node type of every accepted program, compared with the least solution computed independently and with enumerated words of that node; non-trivial: the grammar is not a single literal",
        &["word coverage is checked up to word length 10"],
    )
}

// ------------------------------------------------------------------------------------------ C05

pub fn matches_fault(k: &Kind, f: &Fault) -> bool {
    match (k, f) {
        (Kind::Undeclared(n), Fault::Undeclared { name, .. }) => elab::unraw(n) == elab::unraw(name),
        (Kind::NotFunction, Fault::NotFunction { .. }) => true,
        (Kind::ArgCount(a, b), Fault::ArgCount { want, got, .. }) => a == want && b == got,
        (Kind::FirstNullable, Fault::FirstNullable { .. }) => true,
        (Kind::FlastOverlap, Fault::FlastOverlap { .. }) => true,
        (Kind::BothNullable, Fault::BothNullable { .. }) => true,
        (Kind::FirstOverlap, Fault::FirstOverlap { .. }) => true,
        (Kind::Guarded(_), Fault::Guarded { .. }) => true,
        (Kind::UnexpectedLambda, Fault::UnexpectedFunction { .. }) => true,
        (Kind::ExpectedLambda, Fault::ExpectedFunction { .. }) => true,
        _ => false,
    }
}

pub fn c05(run: Run) -> ! {
    let judge = |text: &str, p: &Prog, tag: &str, st: &mut Stats| {
        let o = match elab(p, FUEL) {
            Ok(o) => o,
            Err(_) => {
                st.hit("skipped: expansion too large");
                return;
            }
        };
        let f = match calm(text, false, st) {
            Some(f) => f,
            None => return,
        };
        let d = f.diag();
        st.case(&format!("{} {}", tag, text), true);
        match (d, o.accepted()) {
            (None, true) => st.hit("accepted by both"),
            (Some(d), false) => {
                st.hit(&format!("rejected: {}", format!("{:?}", d.kind).split('(').next().unwrap()));
                if !o.all.iter().any(|x| matches_fault(&d.kind, x)) {
                    st.violation(
                        format!("rejected for {:?}, which does not occur in the program", d.kind),
                        format!("program:\n{}\n\nmessage: {}\nfaults of the program: {}", text, d.msg, faults(&o.all)),
                    );
                }
            }
            (Some(d), true) => st.violation(
                format!("well-typed program rejected: {}", d.msg),
                format!("program:\n{}\nexpanded: {}", text, o.root.map(|r| r.show()).unwrap_or_default()),
            ),
            (None, false) => st.violation(
                format!("ill-typed program accepted; faults: {}", faults(&o.faults)),
                format!("program:\n{}\nexpanded: {}", text, o.root.map(|r| r.show()).unwrap_or_default()),
            ),
        }
    };
    run.par("generated", run.scale(20_000, 50), |_, r, st| {
        let c = if r.chance(1, 4) {
            let p = border(r);
            printed(p, r, Layout::plain(), "border")
        } else {
            mixed(r, false)
        };
        if c.tag == "scrambled" {
            return;
        }
        if let Some(p) = &c.prog {
            judge(&c.text, p, c.tag, st);
        }
    });
    exhaustive(&run, |text, p, st| judge(text, p, "exhaustive", st));
    run.finish(
        "programs (well-typed by construction, damaged, random, borderline, bundled, and every core grammar of at most 5 nodes over 3 literals; 7 in the thorough tier) whose verdict and reason are compared with an independent typing of their expansion; every case is non-trivial",
        &["programs whose expansion exceeds 6000 steps are skipped"],
    )
}

// ------------------------------------------------------------------------------------------ C06

pub fn c06(run: Run) -> ! {
    let judge = |text: &str, p: &Prog, tag: &str, st: &mut Stats| {
        let o = match elab(p, FUEL) {
            Ok(o) => o,
            Err(_) => {
                st.hit("skipped: expansion too large");
                return;
            }
        };
        if o.stage() == Some(Stage::Convert) {
            return;
        }
        // up to the expansion only: typing takes time exponential in the nesting of fix
        harn::note(text);
        pipe::reset_spans();
        let reduced = match guard(|| pipe::convert(pipe::parse(text).ok()?).ok().map(pipe::reduce)) {
            Ok(r) => r,
            Err(_) => {
                st.hit("front end panicked (judged by C08)");
                return;
            }
        };
        let root = o.root.as_ref().unwrap();
        match &reduced {
            None => st.hit("not converted (judged by C07)"),
            Some(Ok(e)) => {
                let got = pipe::show_reduced(e);
                if o.stage() == Some(Stage::Reduce) {
                    st.violation(
                        format!("a wrong call is expanded silently: {}", faults(&o.faults)),
                        format!("program:\n{}\nreal expansion: {}", text, got),
                    );
                    return;
                }
                let want = root.show();
                st.add("calls expanded", o.calls as u64);
                st.case(&format!("{} {}", tag, text), o.calls > 0 || !p.lets.is_empty());
                // what is under a misused fix is not defined
                if want.contains("<badfix>") {
                    return;
                }
                if got != want {
                    st.violation(format!("expansion is {}, should be {}", got, want), format!("program:\n{}", text));
                }
            }
            Some(Err(d)) => {
                st.hit(&format!("expansion refused: {}", format!("{:?}", d.kind).split('(').next().unwrap()));
                st.case(&format!("{} {}", tag, text), true);
                if !o.faults.iter().any(|x| matches_fault(&d.kind, x)) {
                    st.violation(
                        format!("expansion refused for {:?} ({})", d.kind, d.msg),
                        format!("program:\n{}\nfaults of the program: {}\nshould be {}", text, faults(&o.faults), root.show()),
                    );
                }
            }
        }
    };
    // the same expansions with functions applied on the spot turned into nested lets
    let nested = |text: &str, p: &Prog, r: &mut Rng, st: &mut Stats| {
        let o = match elab(p, FUEL) {
            Ok(o) => o,
            Err(_) => return,
        };
        if o.stage() == Some(Stage::Convert) || o.stage() == Some(Stage::Reduce) {
            return;
        }
        harn::note(text);
        pipe::reset_spans();
        let got = guard(|| {
            let mut e = pipe::convert(pipe::parse(text).ok()?).ok()?;
            let n = pipe::nest_lets(&mut e, r);
            let shown = pipe::show(&e);
            Some((n, shown, pipe::reduce(e).map(|e| pipe::show_reduced(&e)).map_err(|d| d.msg)))
        });
        match got {
            Ok(Some((n, tree, out))) if n > 0 => {
                st.add("nested lets", n as u64);
                let want = o.root.as_ref().unwrap().show();
                if want.contains("<badfix>") {
                    return;
                }
                match out {
                    Ok(g) if g == want => {}
                    Ok(g) => st.violation(format!("expansion of nested lets is {}, should be {}", g, want), format!("program before calls were made lets:\n{}\ntree: {}", text, tree)),
                    Err(m) => st.violation(format!("expansion of nested lets refused: {}", m), format!("program before calls were made lets:\n{}\ntree: {}\nshould be {}", text, tree, want)),
                }
            }
            Ok(_) => {}
            Err(e) => st.violation(format!("expansion of nested lets panics: {}", e), format!("program before some calls were made lets:\n{}", text)),
        }
    };
    run.par("generated", run.scale(30_000, 50), |i, r, st| {
        let lay = Layout::plain();
        let c = if i % 12 == 0 {
            printed(gen::applied_far(r, false, 40), r, lay, "far inside")
        } else if i % 3 == 0 && i % 2 == 0 {
            printed(gen::applied(r, false), r, lay, "applied")
        } else if i % 3 == 0 {
            let mut o = gen::Opts::random(r, false);
            o.abstr = r.range(3, 14);
            o.size = r.range(2, 12);
            o.names = r.range(0, 1) as u8;
            let mut p = gen::program(r, &o);
            if r.chance(1, 3) {
                gen::damage(&mut p, r, &o);
            }
            printed(p, r, lay, "abstract")
        } else if i % 3 == 1 {
            let p = lambda_terms(r);
            printed(p, r, lay, "functional")
        } else {
            mixed(r, false)
        };
        if c.tag == "scrambled" {
            return;
        }
        if let Some(p) = &c.prog {
            judge(&c.text, p, c.tag, st);
            if c.text.len() < 4000 {
                nested(&c.text, p, r, st);
            }
        }
    });
    run.finish(
        "programs with lets, functions, higher-order templates, numerals, currying, shadowed and reused names, and wrong calls; the real expansion is compared as a De Bruijn tree with a lexically scoped environment evaluator; non-trivial: at least one let or call",
        &["programs whose expansion exceeds 6000 steps are skipped", "the tree under a fix of something that is not a one-argument function is not compared"],
    )
}

/// Typed functional programs: simple types over a ground sort, so that calls are mostly right and
/// expansion terminates.
fn lambda_terms(r: &mut Rng) -> Prog {
    use syntax::*;
    #[derive(Clone, PartialEq, Debug)]
    enum T {
        O,
        F(Vec<T>, Box<T>),
    }
    fn ty(r: &mut Rng, d: usize) -> T {
        if d == 0 || r.chance(1, 2) {
            T::O
        } else {
            let n = r.range(1, 3);
            T::F((0..n).map(|_| ty(r, d - 1)).collect(), Box::new(ty(r, d - 1)))
        }
    }
    const N: &[&str] = &["x", "y", "z", "f", "g", "h", "k", "w"];
    fn go(r: &mut Rng, t: &T, sc: &mut Vec<(String, T)>, size: usize) -> E {
        // visible bindings of the right type, or functions returning it
        let vis: Vec<(String, T)> = {
            let mut seen = std::collections::BTreeSet::new();
            sc.iter().rev().filter(|x| seen.insert(x.0.clone())).cloned().collect()
        };
        let direct: Vec<&(String, T)> = vis.iter().filter(|x| x.1 == *t).collect();
        let fun: Vec<&(String, T)> = vis.iter().filter(|x| matches!(&x.1, T::F(_, b) if **b == *t)).collect();
        if size > 1 && !fun.is_empty() && r.chance(2, 5) {
            let f = (*r.pick(&fun)).clone();
            if let T::F(a, _) = &f.1 {
                let mut v = vec![id(&f.0)];
                for x in a {
                    v.push(go(r, x, sc, (size - 1) / a.len()));
                }
                return call(v);
            }
        }
        if !direct.is_empty() && r.chance(if size > 3 { 1 } else { 3 }, 4) {
            return id(&(*r.pick(&direct)).0.clone());
        }
        // beta redex
        if size > 3 && r.chance(1, 6) {
            let n = r.range(1, 2);
            let ats: Vec<T> = (0..n).map(|_| ty(r, 1)).collect();
            let f = go(r, &T::F(ats.clone(), Box::new(t.clone())), sc, size / 2);
            let mut v = vec![f];
            for a in &ats {
                v.push(go(r, a, sc, size / (2 * n)));
            }
            return call(v);
        }
        match t {
            T::F(a, b) => {
                let names: Vec<String> = a.iter().map(|_| r.pick(N).to_string()).collect();
                let k = sc.len();
                sc.extend(names.iter().cloned().zip(a.iter().cloned()));
                let body = go(r, b, sc, size.saturating_sub(1));
                sc.truncate(k);
                mk(K::Lam(names, Box::new(body)))
            }
            T::O => {
                if size <= 1 {
                    return if r.chance(1, 5) { eps() } else { lit(&r.pick(&['a', 'b', 'c', 'd']).to_string()) };
                }
                match r.below(5) {
                    0 | 1 => {
                        let x = r.pick(N).to_string();
                        let k = sc.len();
                        sc.push((x.clone(), T::O));
                        let b = go(r, &T::O, sc, size - 1);
                        sc.truncate(k);
                        fix(lam(&[&x], b))
                    }
                    2 | 3 => {
                        let n = r.range(2, 3);
                        cat((0..n).map(|_| go(r, &T::O, sc, (size - 1) / n)).collect())
                    }
                    _ => {
                        let n = r.range(2, 3);
                        alt((0..n).map(|_| go(r, &T::O, sc, (size - 1) / n)).collect())
                    }
                }
            }
        }
    }
    let mut sc = vec![];
    let mut lets = vec![];
    for _ in 0..r.range(0, 4) {
        let t = ty(r, 2);
        let size = r.range(1, 10);
        let name = r.pick(N).to_string();
        let e = go(r, &t, &mut sc, size);
        // let f args = body, or let f = /args/ body
        let l = match e.k {
            K::Lam(a, b) if r.chance(2, 3) => Let { name: name.clone(), args: a, e: *b, sp: (0, 0) },
            k => Let { name: name.clone(), args: vec![], e: mk(k), sp: (0, 0) },
        };
        lets.push(l);
        sc.push((name, t));
    }
    let size = r.range(1, 16);
    let goal = go(r, &T::O, &mut sc, size);
    Prog { lets, goal, sp: (0, 0) }
}

// ------------------------------------------------------------------------------------------ C07

fn undeclared(p: &Prog) -> Vec<String> {
    match elab(p, 1) {
        Ok(o) => o
            .faults
            .iter()
            .filter_map(|f| match f {
                Fault::Undeclared { name, .. } => Some(elab::unraw(name).to_string()),
                _ => None,
            })
            .collect(),
        Err(_) => vec![],
    }
}

pub fn c07(run: Run) -> ! {
    run.par("generated", run.scale(25_000, 50), |i, r, st| {
        let c = match i % 4 {
            0 | 1 => {
                let p = if i % 16 == 0 { gen::applied_far(r, false, 60) } else { gen::wild_prog(r, false) };
                printed(p, r, Layout::plain(), "wild")
            }
            2 => {
                let p = scopes(r);
                printed(p, r, Layout::plain(), "scopes")
            }
            _ => mixed(r, false),
        };
        if c.tag == "scrambled" {
            return;
        }
        let p = match &c.prog {
            Some(p) => p,
            None => return,
        };
        pipe::reset_spans();
        harn::note(&c.text);
        let got = match guard(|| pipe::parse(&c.text).ok().map(pipe::convert)) {
            Ok(Some(g)) => g,
            Ok(None) => {
                st.hit("not parsed");
                return;
            }
            Err(_) => {
                st.hit("front end panicked (judged by C08)");
                return;
            }
        };
        let want = elab::resolve(p);
        let uses = gen::idents(p).len();
        st.case(&c.text, uses > 0);
        match (got, want) {
            (Ok(e), Some(w)) => {
                let g = pipe::show(&e);
                st.hit("resolved");
                if g != w {
                    st.violation(format!("names resolve to {}, should be {}", g, w), format!("program:\n{}", c.text));
                }
            }
            (Err(d), None) => {
                st.hit("undeclared");
                let und = undeclared(p);
                match &d.kind {
                    Kind::Undeclared(n) if und.iter().any(|u| u == elab::unraw(n)) => {}
                    k => st.violation(
                        format!("conversion fails with {:?} but the undeclared names are {:?}", k, und),
                        format!("program:\n{}", c.text),
                    ),
                }
            }
            (Ok(e), None) => st.violation(
                format!("undeclared name accepted: {:?}", undeclared(p)),
                format!("program:\n{}\nconverted: {}", c.text, pipe::show(&e)),
            ),
            (Err(d), Some(w)) => st.violation(format!("conversion fails: {}", d.msg), format!("program:\n{}\nshould be {}", c.text, w)),
        }
    });
    run.finish(
        "programs with few names bound again and again by lets, let parameters and lambdas, in plain and raw spelling, with undeclared uses; the converted De Bruijn tree is compared with an independent resolver; non-trivial: mentions a name",
        &["identifiers are compared in the spelling given (no Unicode normalisation)"],
    )
}

/// Heavily shadowed scopes.
fn scopes(r: &mut Rng) -> Prog {
    use syntax::*;
    const N: &[&str] = &["x", "y", "r#x", "r#match", "opt", "r#opt", "é", "fn", "r#fn", "type", "r#type", "x_", "X"];
    let few: Vec<&str> = (0..r.range(1, 4)).map(|_| *r.pick(N)).collect();
    // names that may be binders without r#
    let binder = |r: &mut Rng| -> String {
        loop {
            let s = *r.pick(&few);
            if !gen::is_keyword(s) {
                return s.to_string();
            }
            let raw = format!("r#{}", s);
            return raw;
        }
    };
    fn go(r: &mut Rng, size: usize, few: &[&str], binder: &dyn Fn(&mut Rng) -> String) -> E {
        if size <= 1 {
            if r.chance(1, 5) {
                return lit("a");
            }
            let s = *r.pick(few);
            return id(&if gen::is_keyword(s) { format!("r#{}", s) } else { s.to_string() });
        }
        match r.below(5) {
            0 | 1 => {
                let a: Vec<String> = (0..r.range(1, 3)).map(|_| binder(r)).collect();
                mk(K::Lam(a, Box::new(go(r, size - 1, few, binder))))
            }
            2 => fix(go(r, size - 1, few, binder)),
            k => {
                let v = vec![go(r, size / 2, few, binder), go(r, size / 2, few, binder)];
                if k == 3 {
                    cat(v)
                } else {
                    call(v)
                }
            }
        }
    }
    let mut lets = vec![];
    for _ in 0..r.range(0, 4) {
        let name = binder(r);
        let args = (0..r.below(3)).map(|_| binder(r)).collect();
        let size = r.range(1, 6);
        lets.push(Let { name, args, e: go(r, size, &few, &binder), sp: (0, 0) });
    }
    let size = r.range(1, 8);
    let goal = go(r, size, &few, &binder);
    Prog { lets, goal, sp: (0, 0) }
}

// ------------------------------------------------------------------------------------------ C08

pub fn c08(run: Run) -> ! {
    let judge = |c: Case, st: &mut Stats| {
        pipe::reset_spans();
        harn::note(&c.text);
        let parsed = match guard(|| pipe::parse(&c.text)) {
            Ok(Ok(s)) => s,
            Ok(Err(e)) => {
                st.hit("syntax errors");
                let _ = e.to_string();
                st.case(&c.text, false);
                return;
            }
            Err(m) => {
                st.violation(format!("parser panics: {}", m), format!("program:\n{}", c.text));
                return;
            }
        };
        // expansion must be finite and modest: decided by the model
        let bounded = match &c.prog {
            Some(p) => elab(p, FUEL).is_ok(),
            None => false,
        };
        let res = guard(|| {
            if bounded {
                let f = pipe::full(parsed, true);
                f.diag().map(|d| format!("{:?}", d.kind).split('(').next().unwrap().to_string())
            } else {
                pipe::convert(parsed).err().map(|_| "unmodelled".into())
            }
        });
        match res {
            Ok(None) => {
                st.hit(&format!("{}: {}", c.tag, if bounded { "code" } else { "converted only" }));
                st.case(&c.text, true)
            }
            Ok(Some(k)) => {
                st.hit(&format!("{}: error {}", c.tag, k));
                st.case(&c.text, true)
            }
            Err(m) => st.violation(format!("compiler panics: {}", m), format!("program:\n{}", c.text)),
        }
    };
    run.par("generated", run.scale(30_000, 30), |i, r, st| {
        let c = match i % 5 {
            0 => {
                let base = mixed(r, false).text;
                let text = scramble(&base, r);
                Case { prog: syntax::parse(&text).ok(), text, tag: "scrambled", comments: true }
            }
            1 => {
                let mut o = gen::Opts::random(r, false);
                o.names = 2;
                o.labels = 25;
                let p = gen::program(r, &o);
                let lay = Layout::random(r, false);
                printed(p, r, lay, "odd names")
            }
            2 => {
                let p = gen::wild_prog(r, false);
                let lay = Layout::random(r, false);
                printed(p, r, lay, "wild")
            }
            _ => mixed(r, false),
        };
        judge(c, st);
    });
    // every short string of two alphabets, where a term, a parameter, a label and a statement stand
    const PLACES: &[(&str, &str)] = &[("match ", ";"), ("match \"a\"", ";"), ("match /", "/x;"), ("let x", "=_;match _;"), ("match _:", ";"), ("", "")];
    let printable: Vec<char> = (' '..='~').collect();
    let tricky: Vec<char> = "bcr\"'#\\a0.ex_".chars().collect();
    let mut short: Vec<String> = vec![];
    for a in &printable {
        short.push(a.to_string());
        for b in &printable {
            short.push(format!("{}{}", a, b));
        }
    }
    let deep = if run.thorough { 5u32 } else { 4 };
    for n in 3..=deep {
        for mut k in 0..tricky.len().pow(n) {
            let mut t = String::new();
            for _ in 0..n {
                t.push(tricky[k % tricky.len()]);
                k /= tricky.len();
            }
            short.push(t);
        }
    }
    let chunks: Vec<&[String]> = short.chunks(200).collect();
    run.par("short texts (chunks of 200, in six places)", chunks.len(), |i, _, st| {
        for s in chunks[i] {
            for (a, b) in PLACES {
                let text = format!("{}{}{}", a, s, b);
                judge(Case { prog: syntax::parse(&text).ok(), text, tag: "short", comments: true }, st);
            }
        }
    });
    run.par("large", run.scale(96, 12), |_, r, st| {
        let mut p = gen::large(r, false);
        if r.chance(1, 4) {
            let o = gen::Opts::random(r, false);
            gen::damage(&mut p, r, &o);
        }
        judge(printed(p, r, Layout::plain(), "large"), st);
    });
    run.finish(
        "program texts (well-typed with odd names, damaged, random, scrambled character by character) run through parse, conversion, expansion, typing and code generation with overflow checks on; a panic or abort is a violation; non-trivial: the text parsed",
        &["programs whose expansion exceeds 6000 steps, or which the reference parser cannot read, are only converted", "stack exhaustion is outside the property (threads have 1 GB of stack)"],
    )
}

// ------------------------------------------------------------------------------------------ C09 / C25 / C20 on the declared types

pub fn dense(r: &mut Rng) -> Prog {
    // many repeats of a few shapes under different recursions
    let mut o = gen::Opts::random(r, false);
    o.reuse = 60;
    o.alpha.truncate(8);
    o.size = r.range(6, 50);
    o.abstr = r.below(6);
    gen::program(r, &o)
}

/// `F(outer)` twice or more: the same open sub-grammar under different recursions.
pub fn twins(r: &mut Rng) -> Prog {
    use syntax::*;
    // body(x, y, ...) uses the enclosing variables; put under k different outer fixes
    let k = r.range(2, 4);
    let depth = r.range(1, 3);
    let mut branches = vec![];
    let shapes = ["plain", "fix", "opt", "crossed", "deep", "deep"];
    let shape = *r.pick(&shapes);
    let depth = if shape == "crossed" { r.range(2, 3) } else { depth };
    let inner_seed = r.fork();
    // told apart from the first character on, or only by how they end (all else, types included, alike)
    let alike = r.chance(1, 2);
    for i in 0..k {
        let mut rr = Rng(inner_seed.0);
        let vars: Vec<String> = (0..depth).map(|d| format!("o{}", d)).collect();
        let body = twin_body(&mut rr, shape, &vars);
        let mut e = body;
        for d in (0..depth).rev() {
            let open = format!("{}{}", if alike { "<" } else { ["<", "[", "(", "{"][i] }, d);
            let close = format!("{}{}", [">", "]", ")", "}"][i], d);
            // !(/o/ "open" . body . "close")
            e = fix(lam(&[&vars[d]], cat(vec![lit(&open), e, lit(&close)])));
        }
        if alike {
            e = cat(vec![lit(&i.to_string()), e]);
        }
        branches.push(e);
    }
    let goal = match r.below(3) {
        0 => alt(branches),
        1 => cat(branches),
        _ => {
            let b0 = branches[0].clone();
            cat(vec![b0, alt(branches)])
        }
    };
    let o = gen::Opts { size: 1, alpha: vec!['a'], reuse: 0, long_lits: false, abstr: r.below(3), labels: *r.pick(&[0, 10]), names: r.below(3) as u8, shared: false, wide: false };
    gen::program_of(goal, r, &o)
}

fn twin_body(r: &mut Rng, shape: &str, vars: &[String]) -> syntax::E {
    use syntax::*;
    if shape == "deep" {
        // recursions in recursions, the outer ones used at any level, often only at the last
        fn level(r: &mut Rng, at: usize, last: usize, vars: &[String], next: &mut u8) -> syntax::E {
            let mut head = || {
                *next += 1;
                lit(&(*next as char).to_string())
            };
            let mut v = vec![head()];
            if at < last {
                let h = head();
                v.push(cat(vec![h, level(r, at + 1, last, vars, next)]));
            }
            let mut head = || {
                *next += 1;
                lit(&(*next as char).to_string())
            };
            for k in 0..=at {
                if r.chance(1, 3) {
                    v.push(cat(vec![head(), id(&format!("k{}", k))]));
                }
            }
            if at == last || r.chance(1, 4) {
                v.push(cat(vec![head(), id(r.pick(vars))]));
            }
            if r.chance(1, 3) {
                v.rotate_left(1);
            }
            fix(lam(&[&format!("k{}", at)], alt(v)))
        }
        let last = r.below(4);
        return level(r, 0, last, vars, &mut (b'`'));
    }
    let v = id(r.pick(vars));
    let w = id(r.pick(vars));
    match shape {
        "plain" => {
            if r.chance(1, 2) {
                alt(vec![lit("a"), cat(vec![lit("b"), v])])
            } else {
                alt(vec![lit("a"), cat(vec![lit("b"), v]), cat(vec![lit("c"), w, lit("d")])])
            }
        }
        "fix" => {
            if r.chance(1, 2) {
                fix(lam(&["q"], alt(vec![lit("a"), cat(vec![lit("b"), id("q")]), cat(vec![lit("c"), v])])))
            } else {
                fix(lam(&["q"], alt(vec![lit("a"), cat(vec![lit("b"), fix(lam(&["p"], alt(vec![lit("e"), cat(vec![lit("f"), id("q")]), cat(vec![lit("g"), id("p")]), cat(vec![lit("h"), w])])))]), cat(vec![lit("c"), v])])))
            }
        }
        "crossed" => {
            // the same shape with its variables exchanged; labels, so that names do not tell them apart
            let named = r.chance(2, 3);
            let inner = r.chance(3, 4);
            let f = |x: &str, y: &str| {
                let (x, y) = if named { (lab(id(x), "l"), lab(id(y), "m")) } else { (id(x), id(y)) };
                let mut v = vec![cat(vec![lit("p"), x]), cat(vec![lit("q"), y]), lit("n")];
                if inner {
                    v.push(cat(vec![lit("r"), id("k")]));
                    fix(lam(&["k"], cat(vec![lit("-"), alt(v)])))
                } else {
                    cat(vec![lit("-"), alt(v)])
                }
            };
            let mut v = vec![];
            for (i, c) in ["1", "2", "3", "4"].iter().enumerate() {
                let x = if i < 2 { &vars[(i + 1) % 2] } else { r.pick(vars) };
                let y = if i < 2 { &vars[i % 2] } else { r.pick(vars) };
                v.push(cat(vec![lit(c), f(x, y)]));
            }
            v.push(lit("5"));
            alt(v)
        }
        _ => cat(vec![lit("a"), alt(vec![eps(), v]), lit("z"), alt(vec![eps(), cat(vec![lit(","), w])])]),
    }
}

fn graph_case(i: usize, r: &mut Rng) -> Case {
    match i % 7 {
        6 => {
            let p = gen::lookalikes(r, false);
            printed(p, r, Layout::plain(), "lookalikes")
        }
        0 => {
            let p = dense(r);
            printed(p, r, Layout::plain(), "dense")
        }
        1 => {
            let p = twins(r);
            printed(p, r, Layout::plain(), "twins")
        }
        2 => {
            let mut o = gen::Opts::random(r, false);
            o.names = 2;
            o.labels = 25;
            o.abstr = r.range(2, 10);
            let p = gen::program(r, &o);
            printed(p, r, Layout::plain(), "odd names")
        }
        _ => mixed(r, false),
    }
}

pub fn c09_fast(run: &Run) {
    run.par("declared types", run.scale(8_000, 50), |i, r, st| {
        let c = graph_case(i, r);
        if let Some(f) = calm(&c.text, true, st) {
            if let Some(code) = &f.code {
                match Graph::read(code) {
                    Ok(g) => {
                        st.add("type items read", g.items.len() as u64);
                        st.case(&c.text, g.items.len() > 2);
                    }
                    Err(e) => st.violation(e.clone(), format!("program:\n{}\n\n{}", c.text, code)),
                }
            }
        }
    });
}

pub fn c25_fast(run: &Run) {
    run.par("declared types", run.scale(8_000, 50), |i, r, st| {
        let c = graph_case(i, r);
        if let Some(f) = calm(&c.text, true, st) {
            if let (Some(code), Some(Ok(tn))) = (&f.code, &f.typed) {
                if let Ok(g) = Graph::read(code) {
                    match g.structure(tn) {
                        Ok(n) => {
                            st.add("grammar nodes matched with types", n as u64);
                            if n > g.items.len() {
                                st.hit("programs with sharing");
                            }
                            st.case(&c.text, n > 4);
                        }
                        Err(e) => st.violation(e, format!("program:\n{}\n\nexpanded: {}\n\n{}", c.text, tn.show(), code)),
                    }
                } else {
                    st.hit("unreadable code (judged by C09)");
                }
            }
        }
    });
}

pub fn c20_fast(run: &Run) {
    run.par("declared types", run.scale(10_000, 50), |i, r, st| {
        let c = match i % 4 {
            0 => {
                let mut o = gen::Opts::random(r, false);
                o.labels = *r.pick(&[10, 25, 50]);
                o.abstr = r.range(1, 12);
                o.names = r.below(3) as u8;
                let p = gen::program(r, &o);
                printed(p, r, Layout::plain(), "named")
            }
            _ => graph_case(i / 4, r),
        };
        let p = match &c.prog {
            Some(p) if c.tag != "scrambled" => p,
            _ => return,
        };
        let o = match elab(p, FUEL) {
            Ok(o) if o.accepted() => o,
            _ => return,
        };
        let f = match calm(&c.text, true, st) {
            Some(f) => f,
            None => return,
        };
        let root = o.root.as_ref().unwrap();
        if let (Some(code), Some(Ok(tn))) = (&f.code, &f.typed) {
            if tn.show() != root.show() {
                st.hit("expansion differs (judged by C06)");
                return;
            }
            // names carried by the tree
            let (mut a, mut b) = (vec![], vec![]);
            flat(tn, &mut a);
            flat_node(root, &mut b);
            for (x, y) in a.iter().zip(&b).skip(1) {
                let tops = graph::tops(y);
                let ok = match &x.name {
                    None => tops.is_empty(),
                    Some(n) => tops.contains(elab::unraw(n)),
                };
                st.hit("node names compared");
                if !ok {
                    st.violation(
                        format!("{} carries name {:?}, should be one of {:?}", x.show(), x.name, tops),
                        format!("program:\n{}", c.text),
                    );
                    return;
                }
            }
            if let Ok(g) = Graph::read(code) {
                match g.structure(tn).and_then(|_| g.sharing(tn)) {
                    Ok(n) => st.add("literals and recursions checked for sharing", n as u64),
                    Err(e) => {
                        st.violation(e, format!("program:\n{}\n\nexpanded: {}\n\n{}", c.text, root.show(), code));
                        return;
                    }
                }
                match g.type_names(tn) {
                    Ok((all, named)) => {
                        st.add("type names checked", all as u64);
                        st.add("of these, names of their own", named as u64);
                    }
                    Err(e) => {
                        st.violation(e, format!("program:\n{}\n\nexpanded: {}\n\n{}", c.text, root.show(), code));
                        return;
                    }
                }
                match g.names(root) {
                    Ok((all, exact)) => {
                        st.add("member lists checked", all as u64);
                        st.add("of these, exactly determined", exact as u64);
                        st.case(&c.text, exact > 0);
                    }
                    Err(e) => st.violation(e, format!("program:\n{}\n\nexpanded: {}\n\n{}", c.text, root.show(), code)),
                }
            } else {
                st.hit("unreadable code (judged by C09)");
            }
        }
    });
}

// ------------------------------------------------------------------------------------------ C10

pub fn c10_fast(run: &Run) {
    run.par("regenerated", run.scale(3_000, 50), |i, r, st| {
        let c = graph_case(i, r);
        let other = graph_case(i + 1, r);
        let gen = |t: &str, reset: bool| -> Option<String> {
            if reset {
                pipe::reset_spans();
            }
            guard(|| pipe::parse(t).ok().and_then(|s| pipe::full(s, true).code).map(|c| c.to_string())).ok().flatten()
        };
        let a = match gen(&c.text, true) {
            Some(a) => a,
            None => return,
        };
        let b = gen(&c.text, false);
        gen(&other.text, false);
        let d = gen(&c.text, false);
        let t = c.text.clone();
        let e = if i % 8 == 0 { std::thread::Builder::new().stack_size(1 << 28).spawn(move || gen(&t, true)).unwrap().join().unwrap_or(None) } else { gen(&c.text, true) };
        st.add("recompilations", 3);
        st.case(&c.text, a.len() > 2000);
        for x in [&b, &d, &e] {
            if x.as_deref() != Some(&a[..]) {
                st.violation("the same program gives different code", format!("program:\n{}\n\nfirst:\n{}\n\nthen:\n{:?}", c.text, a, x));
                return;
            }
        }
    });
}

// ------------------------------------------------------------------------------------------ C17

pub fn c17(run: Run) -> ! {
    run.par("generated", run.scale(12_000, 50), |i, r, st| {
        let mut p = match i % 4 {
            0 => well(r, false),
            1 => streams::zoo(r, false, true).0,
            _ => gen::wild_prog(r, false),
        };
        let a = print(&mut p.clone(), Layout::plain(), r);
        let lays: Vec<Layout> = (0..3)
            .map(|_| Layout {
                ws: r.below(3) as u8,
                parens: *r.pick(&[0, 2, 3, 5]),
                comments: r.chance(1, 3),
                escapes: r.chance(1, 3),
                shared: false,
            })
            .collect();
        let texts: Vec<String> = std::iter::once(a.clone()).chain(lays.into_iter().map(|l| print(&mut p, l, r))).collect();
        let want = elab::resolve(&p);
        let mut first: Option<String> = None;
        for t in &texts {
            pipe::reset_spans();
            harn::note(t);
            let res = guard(|| {
                pipe::parse(t).map(|s| {
                    let toks = quote::ToTokens::to_token_stream(&s);
                    let e = pipe::convert(s);
                    let back = syn::parse2::<chomp::nibble::Statement>(toks.clone());
                    let again = back.map(|s| pipe::convert(s).map(|e| pipe::show_named(&e, false)).map_err(|d| d.msg));
                    // through text as well
                    let text = syn::parse_str::<chomp::nibble::Statement>(&toks.to_string());
                    let third = text.map(|s| pipe::convert(s).map(|e| pipe::show_named(&e, false)).map_err(|d| d.msg));
                    (e.map(|e| (pipe::show(&e), pipe::show_named(&e, false))).map_err(|d| d.msg), again, third)
                })
            });
            let (e, again, third) = match res {
                Ok(Ok(x)) => x,
                Ok(Err(err)) => {
                    st.violation(format!("legal program refused: {}", err), format!("program:\n{}\n\nsame as:\n{}", t, a));
                    return;
                }
                Err(_) => {
                    st.hit("front end panicked (judged by C08)");
                    return;
                }
            };
            st.hit("texts parsed");
            let named = e.clone().map(|x| x.1);
            for (how, x) in [("tokens", again), ("printed tokens", third)] {
                match x {
                    Ok(x) => {
                        if x != named {
                            st.violation(
                                format!("printing and parsing again ({}) changes the program", how),
                                format!("program:\n{}\n\nbefore: {:?}\nafter:  {:?}", t, named, x),
                            );
                            return;
                        }
                    }
                    Err(x) => {
                        st.violation(format!("printed program ({}) does not parse: {}", how, x), format!("program:\n{}", t));
                        return;
                    }
                }
            }
            match (&e, &want) {
                (Ok(x), Some(w)) => {
                    if x.0 != *w {
                        st.violation(format!("program means {}, its grouping says {}", x.0, w), format!("program:\n{}", t));
                        return;
                    }
                }
                (Err(_), None) => {}
                _ => {
                    st.hit("name resolution differs (judged by C07)");
                    return;
                }
            }
            let key = format!("{:?}", e.map(|x| x.1).map_err(|_| ()));
            match &first {
                None => first = Some(key),
                Some(f) if *f != key => {
                    st.violation("layout changes the program", format!("one:\n{}\n\nother:\n{}\n\n{}\n{}", a, t, f, key));
                    return;
                }
                _ => {}
            }
        }
        st.case(&a, p.nodes() > 3);
    });
    run.finish(
        "random syntax trees printed in four layouts (minimal, plain, wild white space, redundant parentheses, comments, escapes); each is parsed by the real parser, compared with the tree's own grouping, with the other layouts, and with itself after printing to tokens and text; non-trivial: more than three nodes",
        &[],
    )
}

// ------------------------------------------------------------------------------------------ C19

/// Equal up to enclosing parentheses and white space.
fn same_place(text: &str, got: (usize, usize), want: (usize, usize)) -> bool {
    fn trim(text: &str, mut s: (usize, usize)) -> (usize, usize) {
        let ws = |c: char| c.is_whitespace() || c == '\u{200e}' || c == '\u{200f}';
        loop {
            let t = &text[s.0..s.1];
            let a = t.trim_start_matches(ws);
            let b = a.trim_end_matches(ws);
            let n = (s.0 + (t.len() - a.len()), s.0 + (t.len() - a.len()) + b.len());
            let t = &text[n.0..n.1];
            if t.starts_with('(') && t.ends_with(')') && t.len() >= 2 {
                // the two parentheses match each other?
                let mut d = 0;
                let mut instr = false;
                let mut esc = false;
                let mut ok = true;
                for (i, c) in t.char_indices() {
                    if instr {
                        if esc {
                            esc = false
                        } else if c == '\\' {
                            esc = true
                        } else if c == '"' {
                            instr = false
                        }
                    } else if c == '"' {
                        instr = true
                    } else if c == '(' {
                        d += 1
                    } else if c == ')' {
                        d -= 1;
                        if d == 0 && i + 1 != t.len() {
                            ok = false;
                            break;
                        }
                    }
                }
                if ok {
                    s = (n.0 + 1, n.1 - 1);
                    continue;
                }
            }
            return n;
        }
    }
    if got.1 > text.len() || got.0 > got.1 || !text.is_char_boundary(got.0) || !text.is_char_boundary(got.1) {
        return false;
    }
    trim(text, got) == trim(text, want)
}

fn fault_places(f: &Fault) -> Vec<(usize, usize)> {
    match f {
        Fault::Undeclared { sp, .. }
        | Fault::NotFunction { sp }
        | Fault::ArgCount { sp, .. }
        | Fault::FirstNullable { sp }
        | Fault::FlastOverlap { sp }
        | Fault::BothNullable { sp }
        | Fault::FirstOverlap { sp } => vec![*sp],
        Fault::UnexpectedFunction { sps } | Fault::ExpectedFunction { sps } | Fault::Guarded { sps, .. } => sps.clone(),
    }
}

pub fn c19(run: Run) -> ! {
    run.par("rejected programs", run.scale(20_000, 50), |_, r, st| {
        let lay = Layout { ws: r.below(3) as u8, parens: *r.pick(&[0, 0, 4]), comments: false, escapes: false, shared: false };
        let p = match r.below(6) {
            0 => gen::wild_prog(r, false),
            1 => border(r),
            2 | 3 => streams::zoo(r, false, true).0,
            _ => damaged(r, false),
        };
        let c = printed(p, r, lay, "");
        let p = c.prog.as_ref().unwrap();
        let o = match elab(p, FUEL) {
            Ok(o) => o,
            Err(_) => return,
        };
        if o.accepted() {
            return;
        }
        let f = match calm(&c.text, false, st) {
            Some(f) => f,
            None => return,
        };
        let d = match f.diag() {
            Some(d) => d,
            None => {
                st.hit("accepted (judged by C05)");
                return;
            }
        };
        let mine: Vec<&Fault> = o.all.iter().filter(|x| matches_fault(&d.kind, x)).collect();
        if mine.is_empty() {
            st.hit("another reason (judged by C05)");
            return;
        }
        st.case(&c.text, true);
        st.hit(&format!("located: {}", format!("{:?}", d.kind).split('(').next().unwrap()));
        let places: Vec<(usize, usize)> = mine.iter().flat_map(|f| fault_places(f)).flat_map(|s| vref::elab::widened(p, s)).collect();
        // byte ranges of the printed text; the parser numbers from its own source map
        let got = d.range;
        if !places.iter().any(|w| same_place(&c.text, got, *w)) {
            let cut = |s: (usize, usize)| c.text.get(s.0..s.1).map(|x| x.to_string()).unwrap_or_else(|| format!("{:?}", s));
            st.violation(
                format!("{} reported at {:?}, the fault is at one of {:?}", d.msg, cut(got), places.iter().map(|p| cut(*p)).collect::<Vec<_>>()),
                format!("program:\n{}\n\nrange {:?}, candidates {:?}", c.text, got, places),
            );
        }
    });
    run.par("syntax errors", run.scale(6_000, 50), |_, r, st| {
        let base = mixed(r, false).text;
        let text = scramble(&base, r);
        pipe::reset_spans();
        if let Ok(Err(e)) = guard(|| pipe::parse(&text)) {
            let s = e.span();
            let (a, b) = (s.start(), s.end());
            st.hit("syntax errors located");
            st.case(&text, true);
            // 1-based line, 0-based column in characters
            let lines: Vec<usize> = text.split('\n').map(|l| l.chars().count()).collect();
            let inside = |l: usize, c: usize| l >= 1 && l <= lines.len() && c <= lines[l - 1] + 1;
            // a lexical error or an error at the end has the call-site position 1:0
            if !inside(a.line, a.column) || !inside(b.line, b.column) {
                st.violation(format!("syntax error located at {:?}..{:?}, outside the text", a, b), format!("program:\n{}\n\n{}", text, e));
            }
        }
    });
    run.finish(
        "rejected programs printed with known source ranges; the reported range must be that of a construct at fault (up to enclosing parentheses and white space); syntax errors must lie inside the text; every case is non-trivial",
        &["for a misplaced function, variable or fix that reached its place through definitions, any occurrence on the way counts as its place"],
    )
}

// ------------------------------------------------------------------------------------------ C26 (compile time)

fn ints(s: &str) -> Vec<usize> {
    s.split(|c: char| !c.is_ascii_digit()).filter(|x| !x.is_empty()).filter_map(|x| x.parse().ok()).collect()
}

pub fn c26_static(run: &Run) {
    run.par("compile-time messages", run.scale(14_000, 50), |_, r, st| {
        let p = match r.below(7) {
            0 => gen::wild_prog(r, false),
            1 => border(r),
            2 => lambda_damaged(r),
            3 => gen::miscounted(r, false),
            4 | 5 => streams::zoo(r, false, true).0,
            _ => damaged(r, false),
        };
        let c = printed(p, r, Layout::plain(), "");
        let p = c.prog.as_ref().unwrap();
        let o = match elab(p, FUEL) {
            Ok(o) => o,
            Err(_) => return,
        };
        let f = match calm(&c.text, false, st) {
            Some(f) => f,
            None => return,
        };
        let d: &Diag = match f.diag() {
            Some(d) => d,
            None => return,
        };
        let mine: Vec<&Fault> = o.all.iter().filter(|x| same_kind(&d.kind, x)).collect();
        if mine.is_empty() {
            st.hit("another reason (judged by C05)");
            return;
        }
        st.case(&c.text, true);
        st.hit(&format!("message: {}", format!("{:?}", d.kind).split('(').next().unwrap()));
        let m = d.msg.to_lowercase();
        let quoted = |m: &str| -> Vec<String> { m.split('`').skip(1).step_by(2).map(|s| elab::unraw(s).to_string()).collect() };
        let ok = match &d.kind {
            Kind::Undeclared(_) => {
                let q = quoted(&d.msg);
                q.len() == 1 && mine.iter().any(|f| matches!(f, Fault::Undeclared { name, .. } if elab::unraw(name) == q[0]))
            }
            Kind::ArgCount(..) => mine.iter().any(|f| matches!(f, Fault::ArgCount { want, got, .. } if ints(&d.msg) == vec![*want, *got])),
            Kind::Guarded(_) => {
                let q = quoted(&d.msg);
                mine.iter().any(|f| match f {
                    Fault::Guarded { names, .. } => q.len() == 1 && names.iter().any(|n| elab::unraw(n) == q[0]),
                    _ => false,
                })
            }
            Kind::FirstNullable => m.contains("nullable") && !m.contains("both"),
            Kind::BothNullable => m.contains("nullable") && m.contains("both"),
            Kind::FlastOverlap => m.contains("flast"),
            Kind::FirstOverlap => m.contains("first") && !m.contains("flast"),
            _ => !m.is_empty(),
        };
        if !ok {
            st.violation(format!("message `{}` does not state the fault", d.msg), format!("program:\n{}\n\nfaults: {}", c.text, faults(&o.all)));
        } else if d.syn_msg != d.msg {
            st.violation(format!("reported as `{}` instead of `{}`", d.syn_msg, d.msg), format!("program:\n{}", c.text));
        }
    });
}

/// as `matches_fault`, leaving the facts in the message open
fn same_kind(k: &Kind, f: &Fault) -> bool {
    match (k, f) {
        (Kind::Undeclared(_), Fault::Undeclared { .. }) | (Kind::ArgCount(..), Fault::ArgCount { .. }) => true,
        _ => matches_fault(k, f),
    }
}

fn lambda_damaged(r: &mut Rng) -> Prog {
    let mut p = lambda_terms(r);
    // drop or add an argument somewhere
    fn go(e: &mut syntax::E, r: &mut Rng, left: &mut usize) {
        if let syntax::K::Call(v) = &mut e.k {
            if *left > 0 && r.chance(1, 2) {
                *left -= 1;
                if v.len() > 2 && r.chance(1, 2) {
                    v.pop();
                } else {
                    for _ in 0..r.range(1, 3) {
                        v.push(syntax::lit("x"));
                    }
                }
            }
        }
        e.children_mut().into_iter().for_each(|c| go(c, r, left));
    }
    let mut left = 1;
    for e in p.exprs_mut() {
        go(e, r, &mut left);
    }
    p
}

#[allow(dead_code)]
pub fn unused(_: &G, _: &C) {
    let _ = streams::CORPUS;
}
