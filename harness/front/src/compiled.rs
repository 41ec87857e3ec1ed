//! Checks on compiled parsers.
use crate::batch::*;
use crate::checks;
use crate::screen;
use crate::streams::{self, printed, Case};
use harn::{Run, Stats};
use std::collections::BTreeSet;
use std::sync::Mutex;
use vref::gen;
use vref::lang::{Lang, Rec};
use vref::pos::line_col;
use vref::rng::Rng;
use vref::syntax::{self, Layout, Prog};

#[derive(Clone, Copy, PartialEq)]
pub enum Mix {
    /// language-level properties
    General,
    /// repeated sub-grammars
    Sharing,
    /// odd names and labels
    Names,
    /// single-character alternatives
    Classes,
}

fn case(mix: Mix, i: usize, r: &mut Rng) -> Case {
    let lay = if r.chance(1, 4) { Layout::random(r, false) } else { Layout::plain() };
    let dense = |r: &mut Rng| printed(checks::dense(r), r, Layout::plain(), "dense");
    let twins = |r: &mut Rng| printed(checks::twins(r), r, Layout::plain(), "twins");
    let alike = |r: &mut Rng| printed(gen::lookalikes(r, false), r, Layout::plain(), "lookalikes");
    if i % 40 == 37 && mix != Mix::Classes {
        return printed(gen::large(r, false), r, Layout::plain(), "large");
    }
    if matches!(i % 40, 15 | 35) && mix != Mix::Classes {
        return printed(gen::twin_rows(r, false), r, Layout::plain(), "rows");
    }
    if matches!(i % 40, 17 | 27) && mix != Mix::Classes {
        return printed(gen::rows(r, false), r, Layout::plain(), "rows");
    }
    if i % 20 == 7 && mix == Mix::General {
        return printed(class_prog(r), r, lay, "classes");
    }
    if i % 20 == 18 && mix == Mix::General {
        let mut p = streams::well(r, false);
        gen::broken(&mut p, r);
        return printed(p, r, lay, "line breaks");
    }
    match mix {
        Mix::General => match i % 10 {
            0 => dense(r),
            1 => twins(r),
            2 => printed(streams::border(r), r, Layout::plain(), "border"),
            3 if i < 100 && i / 10 < streams::CORPUS.len() => {
                let t = streams::CORPUS[i / 10];
                Case { text: t.into(), prog: syntax::parse(t).ok(), tag: "corpus", comments: true }
            }
            4 | 5 => alike(r),
            6 if i % 20 == 6 => streams::spelled(r),
            _ => printed(streams::well(r, false), r, lay, "well"),
        },
        Mix::Sharing => match i % 6 {
            0 | 1 => twins(r),
            2 | 3 => dense(r),
            4 => alike(r),
            _ => printed(streams::well(r, false), r, lay, "well"),
        },
        Mix::Names => match i % 5 {
            0 => dense(r),
            1 => printed(streams::well(r, false), r, lay, "well"),
            _ => {
                let mut o = gen::Opts::random(r, false);
                o.names = 2;
                o.labels = 25;
                o.abstr = r.range(2, 10);
                printed(gen::program(r, &o), r, lay, "odd names")
            }
        },
        Mix::Classes => printed(class_prog(r), r, lay, "classes"),
    }
}

/// Character classes, nested and named, used alone or inside a larger grammar.
pub fn class_prog(r: &mut Rng) -> Prog {
    use syntax::*;
    let mut alpha: Vec<char> = gen::POOLS.iter().flat_map(|p| p.iter().copied()).collect::<BTreeSet<_>>().into_iter().collect();
    alpha.extend(['\u{E000}', '\u{FFFF}', '\u{200E}', '\u{202E}', '\'', '\u{10000}']);
    if r.chance(1, 4) {
        alpha = r.pick(gen::POOLS).to_vec();
    } else if r.chance(1, 4) {
        alpha = gen::POOLS[8].to_vec();
    }
    r.shuffle(&mut alpha);
    // characters in a row, or in a row only when cut to 8 or 16 bits
    let row = r.chance(1, 3);
    if row {
        let (mut at, step) = (*r.pick(&[0x61u32, 0x30, 0x41, 0x2c, 0xfb, 0x3b1]), *r.pick(&[0, 0x80, 0x100, 0x100, 0x10000]));
        alpha.clear();
        for _ in 0..r.range(4, 9) {
            alpha.extend(char::from_u32(at));
            at += 1 + if r.chance(1, 3) { step } else { 0 };
        }
        if r.chance(1, 3) {
            r.shuffle(&mut alpha);
        }
        let c = r.range(0x2000, 0x2010) as u32;
        alpha.extend(char::from_u32(c));
    }
    // now and then a class as wide as those of real grammars, in no order
    let wide = !row && r.chance(1, 8);
    let n = if wide { *r.pick(&[16usize, 17, 27, 33, 40, 64, 65, 100, 130, 256, 257]) } else if row { 10 } else { r.range(2, 10) };
    if wide {
        let from = *r.pick(&[0x20u32, 0xa1, 0x3041, 0x1f600]);
        let mut more: Vec<char> = (from..from + 300).filter_map(char::from_u32).filter(|c| !alpha.contains(c)).collect();
        match r.below(3) {
            0 => (),
            1 => more.reverse(),
            _ => r.shuffle(&mut more),
        }
        alpha.truncate(r.below(8));
        alpha.extend(more);
        if r.chance(1, 2) {
            alpha.truncate(n);
            r.shuffle(&mut alpha);
        }
    }
    alpha.truncate(n);
    let mut it = alpha.into_iter();
    fn class(r: &mut Rng, it: &mut dyn Iterator<Item = char>, n: usize, d: usize) -> Option<E> {
        let mut v = vec![];
        for _ in 0..n {
            if d > 0 && r.chance(1, 3) {
                if let Some(x) = { let k = r.range(1, 3); class(r, it, k, d - 1) } {
                    v.push(x);
                }
            } else if let Some(c) = it.next() {
                v.push(lit(&c.to_string()));
            }
        }
        match v.len() {
            0 => None,
            1 => v.pop(),
            _ => Some(alt(v)),
        }
    }
    let k = if wide { n } else { r.range(1, 6) };
    let depth = if wide && r.chance(1, 2) { 0 } else { 2 };
    let a = if row || !wide && r.chance(1, 2) {
        // groups of any size
        let n = if row { 10 } else { r.range(2, 12) };
        let all: Vec<char> = it.by_ref().take(n).collect();
        let mut v: Vec<E> = vec![];
        let mut rest = &all[..];
        while !rest.is_empty() {
            let (g, more) = rest.split_at(r.range(1, rest.len()));
            rest = more;
            let mut g: Vec<E> = g.iter().map(|c| lit(&c.to_string())).collect();
            v.push(if g.len() == 1 { g.pop().unwrap() } else { alt(g) });
        }
        if v.len() == 1 { v.pop().unwrap() } else { alt(v) }
    } else {
        class(r, &mut it, k, depth).unwrap_or_else(|| lit("a"))
    };
    let k = r.range(1, 3);
    let b = class(r, &mut it, k, 1);
    let goal = match (r.below(4), b) {
        (0, Some(b)) => cat(vec![a, b]),
        (1, Some(b)) => fix(lam(&["c"], alt(vec![cat(vec![a, alt(vec![eps(), id("c")])]), b]))),
        (2, Some(b)) => alt(vec![a, b]),
        _ => a,
    };
    let names = r.below(3) as u8;
    let o = gen::Opts { size: 6, alpha: vec!['a'], reuse: 0, long_lits: false, abstr: r.below(6), labels: *r.pick(&[0, 25]), names, shared: false, wide: false };
    gen::program_of(goal, r, &o)
}

pub struct Want {
    pub mix: Mix,
    pub count: usize,
    pub productive: bool,
    /// the most generated types per module
    pub types: usize,
    pub inputs: usize,
    pub long: bool,
    pub both: bool,
    /// programs screened first
    pub screen: usize,
}

/// A module made of a case, if it suits the check.
fn admit(w: &Want, i: usize, c: &Case, r: &mut Rng, st: &mut Stats) -> Option<Module> {
    let p = c.prog.as_ref()?;
    let route = if i % 2 == 0 { Route::Macro } else { Route::Cli };
    let m = Module::new(&c.text, p, c.tag, route, st)?;
    let big = c.tag == "corpus";
    if m.root.size() < 3 && !r.chance(1, 20) || !big && (m.graph.items.len() > if matches!(c.tag, "large" | "classes" | "rows") { 320 } else { w.types } || m.root.size() > 1500) || m.graph.items.len() > 400 {
        return None;
    }
    if w.productive && !m.lang().all_productive() {
        return None;
    }
    Some(m)
}

/// Gives a module what it is run on.
fn equip(w: &Want, i: usize, mut m: Module, more: usize, r: &mut Rng) -> Option<Module> {
    if w.mix == Mix::Classes {
        for (t, s) in classes(&m) {
            let mut v: Vec<String> = s.iter().map(|c| c.to_string()).collect();
            v.push(String::new());
            v.push("☃".into());
            let f: String = v[..v.len().min(2)].concat();
            v.push(f);
            m.classes.push((t, s, v));
        }
        if m.classes.is_empty() {
            return None;
        }
    }
    if w.inputs > 0 {
        m.inputs = inputs(&m.lang(), r, w.inputs * more, w.long && i % 4 == 0);
    }
    Some(m)
}

fn push(w: &Want, at: usize, m: Module, out: &Mutex<Vec<(usize, Module)>>, st: &mut Stats) {
    let twin = if w.both {
        let p = match syntax::parse(&m.text) {
            Ok(p) => p,
            Err(_) => return,
        };
        let mut n = match Module::new(&m.text, &p, m.tag, if m.route == Route::Macro { Route::Cli } else { Route::Macro }, st) {
            Some(m) => m,
            None => return,
        };
        n.inputs = m.inputs.clone();
        Some(n)
    } else {
        None
    };
    st.hit(&format!("programs: {}", m.tag));
    let mut o = out.lock().unwrap();
    o.push((2 * at, m));
    if let Some(n) = twin {
        o.push((2 * at + 1, n));
    }
}

pub fn modules(run: &Run, w: &Want) -> Vec<Module> {
    let out = Mutex::new(vec![]);
    // screening: many programs compiled in process, the odd and the new-looking ones kept
    let seen: Mutex<Vec<(usize, Case, screen::Screen)>> = Mutex::new(vec![]);
    run.par("programs screened", if run.thorough { w.screen * 6 } else { w.screen }, |i, r, st| {
        let c = case(w.mix, 100 + i, r);
        if let Some(m) = admit(w, i, &c, r, st) {
            let mut s = screen::screen(&m);
            if w.both && s.odd.is_none() && crate::cli::unlike_library(&c.text) {
                s.odd = Some("command output".into());
            }
            st.hit("programs screened");
            if let Some(o) = &s.odd {
                st.hit(&format!("set in front: {}", o));
            }
            seen.lock().unwrap().push((i, c, s));
        }
    });
    let mut seen = seen.into_inner().unwrap();
    seen.sort_by_key(|x| x.0);
    let mut picked: Vec<(usize, Case, bool)> = vec![];
    let mut known: std::collections::BTreeMap<u64, usize> = Default::default();
    let mut odd: std::collections::BTreeMap<String, usize> = Default::default();
    let most = w.count / 3;
    let mut shapes = 0;
    for (i, c, s) in seen {
        if let Some(o) = &s.odd {
            let k = odd.entry(o.clone()).or_insert(0);
            *k += 1;
            if *k <= 24 {
                picked.push((i, c, true));
            }
            continue;
        }
        let fresh = s.features.iter().filter(|f| !known.contains_key(f)).count();
        if fresh > 0 && picked.len() < most {
            shapes += fresh;
            for f in s.features {
                *known.entry(f).or_insert(0) += 1;
            }
            picked.push((i, c, false));
        }
    }
    let plain = picked.iter().filter(|p| !p.2).count();
    run.with(|st| {
        st.add("code shapes and placements first met in a chosen program", shapes as u64);
        st.add("programs chosen for new shapes", plain as u64);
    });
    let n = picked.len();
    let picked: Vec<_> = picked.into_iter().map(|x| Mutex::new(Some(x))).collect();
    run.par("programs chosen by screening", n, |k, r, st| {
        let (i, c, odd) = picked[k].lock().unwrap().take().unwrap();
        if let Some(p) = &c.prog {
            let route = if i % 2 == 0 { Route::Macro } else { Route::Cli };
            if let Some(m) = Module::new(&c.text, p, c.tag, route, st) {
                if let Some(m) = equip(w, i, m, if odd { 3 } else { 1 }, r) {
                    push(w, 1_000_000 + k, m, &out, st);
                }
            }
        }
    });
    run.par("programs chosen", w.count - plain.min(w.count), |i, r, st| {
        for attempt in 0..60 {
            let c = case(w.mix, if attempt == 0 || (matches!(i % 40, 15 | 17 | 35 | 37) || i % 20 == 7) && attempt < 12 { i } else { i.max(100) / 10 * 10 + r.below(10) }, r);
            let m = match admit(w, i, &c, r, st) {
                Some(m) => m,
                None => continue,
            };
            let l = m.lang();
            // mostly languages with real recursion
            let endless = l.g.iter().any(|g| matches!(g, vref::lang::G::Var(f) if l.height[*f] != usize::MAX));
            if matches!(w.mix, Mix::General | Mix::Sharing) && !endless && !matches!(c.tag, "corpus" | "rows" | "classes") && attempt < 50 && !r.chance(1, 5) {
                continue;
            }
            if let Some(m) = equip(w, i, m, 1, r) {
                push(w, i, m, &out, st);
                return;
            }
        }
        st.hit("no suitable program found");
    });
    let mut v = out.into_inner().unwrap();
    v.sort_by_key(|x| x.0);
    v.into_iter().map(|x| x.1).collect()
}

fn show(s: &str) -> String {
    if s.chars().count() > 200 {
        format!("{:?}... ({} characters)", s.chars().take(200).collect::<String>(), s.chars().count())
    } else {
        format!("{:?}", s)
    }
}
fn ctx(m: &Module, s: &str, o: &Obs) -> String {
    format!("program ({:?} route):\n{}\n\nexpanded: {}\n\ninput: {:?}\n\nobserved: {:?}", m.route, m.text, m.root.show(), s, o)
}

/// Runs modules and judges every execution.
pub fn drive(run: &Run, w: &Want, per: usize, judge: impl Fn(&Module, &Lang, &str, &Obs, &mut Stats) + Sync, died: bool) {
    let mods = modules(run, w);
    let done = build(run, "compiled parsers", mods, per, true);
    let total = done.len();
    let done: Vec<_> = done.into_iter().map(|x| Mutex::new(Some(x))).collect();
    let judged = std::sync::atomic::AtomicUsize::new(0);
    run.par("modules judged", total, |k, _, st| {
        let (m, f) = done[k].lock().unwrap().take().unwrap();
        let obs = match f {
            Fate::Built(o, _) => o,
            Fate::Broken(e) => {
                st.hit("modules that do not compile (judged by C09)");
                let _ = e;
                return;
            }
            Fate::NoConversion(..) => return,
            Fate::Died(o, at, how) => {
                if died {
                    let s = at.and_then(|i| m.inputs.get(i).cloned()).unwrap_or_default();
                    st.violation(format!("the generated parser dies on {}: {}", show(&s), how), format!("program ({:?} route):\n{}\n\ninput: {:?}", m.route, m.text, s));
                } else {
                    st.hit("parsers that died (judged by C01)");
                }
                o
            }
        };
        let l = m.lang();
        judged.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        for o in &obs {
            if st.violations.len() >= 3 {
                return;
            }
            if let Some(s) = m.inputs.get(o.input) {
                judge(&m, &l, s, o, st);
            }
        }
    });
    let j = judged.into_inner();
    run.with(|st| {
        st.add("modules compiled and run", j as u64);
        if j * 2 < total || total == 0 {
            st.errors.push(format!("only {} of {} modules could be run", j, total));
        }
    });
}

fn general(run: &Run, productive: bool, inputs: usize, long: bool) -> Want {
    Want { mix: Mix::General, count: run.scale(240, 20), productive, types: 50, inputs, long, both: false, screen: 2500 }
}

// ------------------------------------------------------------------------------------------ C01

fn membership(m: &Module, l: &Lang, s: &str, o: &Obs, st: &mut Stats) {
    let cs: Vec<char> = s.chars().collect();
    let want = match (Oracle { l, productive: false }).accepts(&cs) {
        Some(w) => w,
        None => return,
    };
    let got = o.parse.kind == "ok";
    st.hit(if want { "sentences" } else { "non-sentences" });
    st.case(&format!("{} on {:?}", m.root.show(), s), m.root.size() > 2 && !s.is_empty());
    if o.parse.kind == "panic" {
        st.violation(format!("the generated parser panics ({}) on {}", o.parse.got, show(s)), ctx(m, s, o));
    } else if got != want {
        st.violation(
            format!("{} is {} the language but the generated parser {} it", show(s), if want { "in" } else { "not in" }, if got { "accepts" } else { "rejects" }),
            ctx(m, s, o),
        );
    } else if o.ended && !o.str_same {
        st.violation(format!("parse_str and parse of the same text {} differ", show(s)), ctx(m, s, o));
    }
}

pub fn c01(run: Run) -> ! {
    drive(&run, &general(&run, false, 120, true), 12, membership, true);
    run.finish(
        "executions of compiled parsers (macro and command-line output) under an instrumented stream, on sampled sentences, covering sentences, near misses, prefixes, concatenations and all short words; the verdict is compared with a recogniser of the expanded grammar; non-trivial: grammar of more than two nodes and non-empty input",
        &["the language is that of the reference expansion", "parsers run on a 1 GiB stack"],
    )
}

// ------------------------------------------------------------------------------------------ C02

fn lossless(m: &Module, l: &Lang, s: &str, o: &Obs, st: &mut Stats) {
    if o.take.kind == "ok" {
        let cs: Vec<char> = s.chars().collect();
        let used: String = cs.iter().take(o.take_used).collect();
        if o.taken != used {
            st.violation(format!("the tree taken from {} displays as {}, having consumed {}", show(s), show(&o.taken), show(&used)), ctx(m, s, o));
            return;
        }
        st.hit("trees taken from a stream");
    }
    if o.parse.kind != "ok" {
        return;
    }
    let d = match &o.show {
        Some(d) => d,
        None => return,
    };
    if d != s {
        st.violation(format!("the tree of {} displays as {}", show(s), show(d)), ctx(m, s, o));
        return;
    }
    let cs: Vec<char> = s.chars().collect();
    if cs.len() > 700 {
        st.hit("long trees displayed");
        return;
    }
    let mut r = Rec::new(l, &cs);
    let der = match r.derive(l.root, 0, cs.len()) {
        Some(d) => d,
        None => {
            st.hit("accepted non-sentences (judged by C01)");
            return;
        }
    };
    let t = match o.tree.as_ref().and_then(|t| read_tree(t)) {
        Some(t) => t,
        None => {
            st.hit("unreadable debug output");
            return;
        }
    };
    match same_tree(&der, &m.graph, &crate::graph::Tref::Name("Ast".into()), &t) {
        Ok(n) => {
            st.add("tree nodes compared", n as u64);
            st.case(&format!("{} on {:?}", m.root.show(), s), n > 3);
        }
        Err(e) => st.violation(format!("on {}: {}", show(s), e), ctx(m, s, o)),
    }
}

pub fn c02(run: Run) -> ! {
    drive(&run, &general(&run, false, 120, true), 12, lossless, false);
    run.with(|st| {
        let (a, b) = (st.counters.get("unreadable debug output").copied().unwrap_or(0), st.counters.get("tree nodes compared").copied().unwrap_or(0));
        if a > b {
            st.errors.push("trees could not be read".into());
        }
    });
    run.finish(
        "accepted inputs of compiled parsers: the display of the tree against the text consumed, and the tree shown by Debug, walked along the generated types, against the derivation found by the reference recogniser; non-trivial: more than three tree nodes",
        &["trees of inputs over 700 characters are only displayed"],
    )
}

// ------------------------------------------------------------------------------------------ C11

fn errors(m: &Module, l: &Lang, s: &str, o: &Obs, st: &mut Stats) {
    let cs: Vec<char> = s.chars().collect();
    if cs.len() > 700 || o.parse.kind == "panic" {
        return;
    }
    let or = Oracle { l, productive: true };
    let want = match or.expect(&cs) {
        Some(w) => w,
        None => return,
    };
    let e = &o.parse;
    if want == Expect::Accept || e.kind == "ok" {
        if (want == Expect::Accept) != (e.kind == "ok") {
            st.hit("wrong verdicts (judged by C01)");
        }
        return;
    }
    let at = match want {
        Expect::Eos => cs.len(),
        Expect::Cont(p) | Expect::Bad(p) => p,
        Expect::Accept => return,
    };
    let pos = line_col(&cs, at);
    let fail = |what: String, st: &mut Stats| {
        st.violation(
            format!("on {}: {} (the longest prefix that can be continued has {} characters, at {}:{})", show(s), what, at, pos.0, pos.1),
            ctx(m, s, o),
        )
    };
    st.hit(&format!("rejected: {}", e.kind));
    st.case(&format!("{} on {:?}", m.root.show(), s), at > 0 || m.root.size() > 4);
    if e.pos != pos {
        return fail(format!("the error is at {}:{}", e.pos.0, e.pos.1), st);
    }
    match want {
        Expect::Eos if e.kind != "eos" => return fail(format!("reported {} instead of the end of the stream", e.kind), st),
        Expect::Cont(_) if e.kind != "cont" => return fail(format!("reported {} instead of trailing input", e.kind), st),
        Expect::Bad(_) if e.kind != "branch" && e.kind != "string" => return fail(format!("reported {} instead of a bad character", e.kind), st),
        _ => {}
    }
    if let Expect::Bad(p) = want {
        let mut can: Vec<char> = vec![];
        if e.kind == "branch" {
            if e.got != cs[p].to_string() {
                return fail(format!("blames {:?}, the character there is {:?}", e.got, cs[p]), st);
            }
            can = e.want.chars().collect();
            if can.is_empty() {
                return fail("nothing is listed as expected".into(), st);
            }
            // all the characters some alternation can begin with
            let listed: BTreeSet<char> = can.iter().copied().collect();
            let (null, first) = l.firsts();
            let whole = (0..l.g.len()).any(|i| matches!(l.g[i], vref::lang::G::Alt(_)) && !null[i] && first[i] == listed);
            if !whole {
                return fail(format!("the characters listed as expected, {:?}, are not those any alternation begins with", e.want), st);
            }
            st.hit("lists of expected characters matched with an alternation");
            if listed.len() > 64 {
                st.hit("lists of more than 64 expected characters");
            }
        } else {
            let got: Vec<char> = e.got.chars().collect();
            let lit: Vec<char> = e.want.chars().collect();
            let k = got.len().saturating_sub(1);
            let ok = got.last() == Some(&cs[p]) && p >= k && cs[p - k..p] == got[..k] && lit.len() > k && lit[..k] == got[..k];
            if !ok {
                return fail(format!("blames string {:?} against {:?}", e.got, e.want), st);
            }
            can.push(lit[k]);
        }
        let mut pre: Vec<char> = cs[..p].to_vec();
        for c in can {
            pre.push(c);
            st.hit("expected characters tried");
            if !or.viable(&pre) {
                return fail(format!("{:?} is listed as expected but cannot continue the prefix", c), st);
            }
            pre.pop();
        }
    }
    // the same from a longer stream
    let t = &o.take;
    match want {
        Expect::Cont(_) => {
            if t.kind != "ok" {
                return fail(format!("taking a value fails with {}", t.kind), st);
            }
        }
        _ => {
            if t != e {
                return fail(format!("taking reports {:?} where parsing reports {:?}", t, e), st);
            }
        }
    }
}

pub fn c11(run: Run) -> ! {
    drive(&run, &general(&run, true, 130, false), 12, errors, false);
    run.finish(
        "rejected inputs of compiled parsers whose grammar is productive everywhere: kind, position, offending text and every expected character of the error against the longest viable prefix of the reference recogniser; non-trivial: a non-empty prefix or a grammar of more than four nodes",
        &["inputs of at most 700 characters"],
    )
}

// ------------------------------------------------------------------------------------------ C12

fn streaming(m: &Module, l: &Lang, s: &str, o: &Obs, st: &mut Stats) {
    let cs: Vec<char> = s.chars().collect();
    if o.parse.kind == "panic" {
        if o.parse.got.contains("step budget") {
            st.violation(format!("no end on {}: more than {} stream operations", show(s), 20_000 + 3_000 * cs.len()), ctx(m, s, o));
        }
        return;
    }
    let fail = |what: String, st: &mut Stats| st.violation(format!("on {}: {}", show(s), what), ctx(m, s, o));
    let vars = l.g.iter().filter(|g| matches!(g, vref::lang::G::Var(_))).count();
    let bound = 2 * (l.g.len() + 2) * (vars + 2) * (cs.len() + 1);
    st.hit("executions");
    st.add("characters consumed", o.consumed as u64);
    st.add("lookahead operations", o.peeks as u64);
    st.case(&format!("{} on {:?}", m.root.show(), s), o.consumed > 0);
    if o.ahead > 1 {
        return fail(format!("{} characters were read beyond those consumed", o.ahead), st);
    }
    if o.take_pulls > o.take_used + 1 {
        return fail(format!("taking pulled {} characters but consumed {}", o.take_pulls, o.take_used), st);
    }
    if o.peeks > bound {
        return fail(format!("{} lookahead operations for {} characters and a grammar of {} nodes", o.peeks, cs.len(), l.g.len()), st);
    }
    if o.consumed > cs.len() {
        return fail("more was consumed than there is".into(), st);
    }
    // nothing is consumed that does not match
    if cs.len() <= 700 && l.all_productive() {
        let mut r = Rec::new(l, &cs);
        let p = r.reach(l.root, 0);
        if o.consumed > p {
            return fail(format!("{} characters were consumed, only {} can be matched", o.consumed, p), st);
        }
        if o.parse.kind == "ok" && o.consumed != cs.len() {
            return fail("parsing succeeded without consuming everything".into(), st);
        }
        if !r.looped && o.take.kind == "ok" {
            let ends = r.ends(l.root, 0);
            if !ends.contains(&o.take_used) {
                return fail(format!("a value was taken from {} characters, which are not a sentence", o.take_used), st);
            }
            st.hit("values taken");
            if o.take_used < cs.len() {
                st.hit("values taken from a longer stream");
            }
        }
        // taking succeeds exactly when the longest viable prefix is a sentence
        if !r.looped && o.take.kind != "panic" {
            let should = r.ends(l.root, 0).contains(&p);
            if should != (o.take.kind == "ok") && !(o.take.kind == "ok") {
                return fail(format!("no value was taken although the first {} characters are a sentence that cannot be continued", p), st);
            }
        }
    }
    if o.take.kind != "panic" {
        let rest: String = cs.iter().skip(o.take_used).collect();
        if o.rest != rest {
            return fail(format!("after taking {} characters the rest of the stream is {}, should be {}", o.take_used, show(&o.rest), show(&rest)), st);
        }
    }
}

pub fn c12(run: Run) -> ! {
    drive(&run, &general(&run, true, 110, true), 12, streaming, true);
    run.finish(
        "executions of compiled parsers under a stream that counts every pull, read and peek: lookahead beyond the consumed characters, lookahead operations against a bound from the grammar's size, consumed characters against the longest viable prefix, and the stream left behind by take; non-trivial: something was consumed",
        &["bound on lookahead: 2 (nodes + 2) (variables + 2) per character"],
    )
}

// ------------------------------------------------------------------------------------------ C28

fn values(m: &Module, _: &Lang, s: &str, o: &Obs, st: &mut Stats) {
    if o.parse.kind != "ok" || !o.ended {
        return;
    }
    if !o.value.is_empty() {
        st.violation(format!("the value of {}: {}", show(s), o.value), ctx(m, s, o));
        return;
    }
    let eq: Vec<usize> = o.eqs.iter().filter_map(|e| e.trim_end_matches(|c| c == '?' || c == '#').parse().ok()).collect();
    st.add("pairs compared", o.kept.len() as u64);
    st.case(&format!("{} on {:?}", m.root.show(), s), m.root.size() > 2);
    for e in &o.eqs {
        if e.contains('?') {
            st.violation(format!("equality is not symmetric between {} and {}", show(s), show(&m.inputs[eq[0]])), ctx(m, s, o));
            return;
        }
        if e.contains('#') {
            st.violation(format!("equal values of {} have different hashes", show(s)), ctx(m, s, o));
            return;
        }
    }
    for j in &o.kept {
        let same = m.inputs[*j] == s;
        if same {
            st.hit("pairs of the same text");
        }
        if same != eq.contains(j) {
            st.violation(
                format!("values of {} and {} are {}", show(s), show(&m.inputs[*j]), if same { "different" } else { "equal" }),
                ctx(m, s, o),
            );
            return;
        }
    }
}

pub fn c28(run: Run) -> ! {
    drive(&run, &general(&run, false, 100, false), 12, values, false);
    run.finish(
        "values of compiled parsers: clone, second parse, and all pairs of up to 24 kept values compared for equality (both ways) and hash against equality of the texts; non-trivial: grammar of more than two nodes",
        &[],
    )
}

// ------------------------------------------------------------------------------------------ C25

pub fn c25_run(run: &Run) {
    let w = Want { mix: Mix::Sharing, count: run.scale(80, 24), productive: false, types: 80, inputs: 100, long: false, both: false, screen: 2500 };
    drive(run, &w, 10, |m, l, s, o, st| {
        membership(m, l, s, o, st);
        if st.violations.is_empty() {
            lossless(m, l, s, o, st);
        }
    }, true);
}

// ------------------------------------------------------------------------------------------ C09

pub fn c09_compile(run: &Run) {
    let w = Want { mix: Mix::Names, count: run.scale(220, 20), productive: false, types: 120, inputs: 0, long: false, both: false, screen: 2500 };
    let mods = modules(run, &w);
    let done = build(run, "modules checked by rustc", mods, 14, false);
    run.with(|st| {
        for (m, f) in done {
            match f {
                Fate::Broken(e) => st.violation(format!("generated code does not compile: {}", e), format!("program ({:?} route):\n{}\n\n{}", m.route, m.text, m.code)),
                _ => {
                    st.hit(&format!("modules compiled: {:?} route", m.route));
                    st.case(&m.text, m.graph.items.len() > 2);
                }
            }
        }
    });
}

// ------------------------------------------------------------------------------------------ C10

pub fn c10_routes(run: &Run) {
    let w = Want { mix: Mix::General, count: run.scale(50, 24), productive: false, types: 60, inputs: 60, long: false, both: true, screen: 800 };
    let mut mods = modules(run, &w);
    // what the command really writes, whatever it is
    let slots: Vec<Mutex<&mut Module>> = mods.iter_mut().filter(|m| m.route == Route::Cli).map(Mutex::new).collect();
    run.par("programs given to the command", slots.len(), |i, _, st| {
        let mut m = slots[i].lock().unwrap();
        match crate::cli::written(&m.text) {
            Ok((out, fine)) => {
                st.hit(if fine { "code written by the command" } else { "the command failed" });
                m.code = out;
            }
            Err(e) => st.errors.push(e),
        }
    });
    drop(slots);
    let n = mods.len();
    let done = build(run, "compiled parsers", mods, 12, true);
    run.with(|st| {
        let mut by: std::collections::BTreeMap<String, Vec<(Module, Fate)>> = Default::default();
        for (m, f) in done {
            by.entry(m.text.clone()).or_default().push((m, f));
        }
        let mut pairs = 0;
        for (text, v) in by {
            let a = v.iter().find(|x| x.0.route == Route::Macro);
            let b = v.iter().find(|x| x.0.route == Route::Cli);
            let (a, b) = match (a, b) {
                (Some(a), Some(b)) => (a, b),
                _ => continue,
            };
            match (&a.1, &b.1) {
                (Fate::Built(x, _), Fate::Built(y, _)) => {
                    pairs += 1;
                    if x.len() != y.len() {
                        st.hit("runs cut short");
                        continue;
                    }
                    for (p, q) in x.iter().zip(y) {
                        st.case(&format!("{} on {:?}", a.0.root.show(), a.0.inputs[p.input]), true);
                        if p != q {
                            st.violation(
                                format!("the macro and the command generate parsers that differ on {}", show(&a.0.inputs[p.input])),
                                format!("program:\n{}\n\nmacro: {:?}\n\ncommand: {:?}", text, p, q),
                            );
                            break;
                        }
                    }
                }
                (Fate::Broken(e), Fate::Built(..)) | (Fate::Built(..), Fate::Broken(e)) => {
                    st.violation(format!("the program compiles by one route only: {}", e), format!("program:\n{}", text))
                }
                _ => st.hit("not comparable"),
            }
        }
        st.add("programs compiled by both routes", pairs);
        if pairs * 4 < n as u64 {
            st.errors.push("too few programs compiled by both routes".into());
        }
    });
}

// ------------------------------------------------------------------------------------------ C21

pub fn c21(run: Run) -> ! {
    let w = Want { mix: Mix::Classes, count: run.scale(150, 24), productive: false, types: 60, inputs: 0, long: false, both: false, screen: 2500 };
    let mods = modules(&run, &w);
    let done = build(&run, "compiled parsers", mods, 14, true);
    run.with(|st| {
        let mut ran = 0;
        for (m, f) in done {
            let log = match f {
                Fate::Built(_, l) => l,
                Fate::NoConversion(t, e) => {
                    st.violation(format!("type {} does not convert to a character: {}", t, e), format!("program ({:?} route):\n{}\n\n{}", m.route, m.text, m.code));
                    continue;
                }
                Fate::Broken(_) => {
                    st.hit("modules that do not compile (judged by C09)");
                    continue;
                }
                Fate::Died(_, _, how) => {
                    st.violation(format!("conversion dies: {}", how), format!("program ({:?} route):\n{}", m.route, m.text));
                    continue;
                }
            };
            for ((t, set, ins), (_, got)) in m.classes.iter().zip(&log) {
                if got.len() != ins.len() {
                    st.hit("runs cut short");
                    continue;
                }
                ran += 1;
                for (s, (kind, out)) in ins.iter().zip(got) {
                    let c: Vec<char> = s.chars().collect();
                    let member = c.len() == 1 && set.contains(&c[0]);
                    st.hit(if member { "members converted" } else { "non-members" });
                    st.case(&format!("{} {:?}: {:?}", m.root.show(), set, s), member && set.len() > 1);
                    let ok = match &kind[..] {
                        "ok" => member && *out == format!("{}|{}", s, s),
                        "err" => !member,
                        _ => false,
                    };
                    if !ok {
                        st.violation(
                            format!("type {} on {:?}: {} {:?}", t, s, kind, out),
                            format!("program ({:?} route):\n{}\n\n{}", m.route, m.text, m.code),
                        );
                    }
                }
            }
        }
        st.add("character classes run", ran);
        if ran == 0 {
            st.errors.push("no class was run".into());
        }
    });
    run.finish(
        "every character class among the generated types of compiled programs, on each of its members and on non-members: text, display and conversion must be the same character; non-trivial: a member of a class of several",
        &["classes reached through a fix are not required to convert"],
    )
}

// ------------------------------------------------------------------------------------------ C27

/// Token-level damage, which always lexes.
fn shuffled_tokens(text: &str, r: &mut Rng) -> Option<String> {
    use proc_macro2::{TokenStream, TokenTree};
    let ts: TokenStream = text.parse().ok()?;
    let mut v: Vec<TokenTree> = ts.into_iter().collect();
    if v.is_empty() {
        return None;
    }
    for _ in 0..r.range(1, 2) {
        let i = r.below(v.len());
        match r.below(4) {
            0 => {
                v.remove(i);
            }
            1 => {
                let t = v[i].clone();
                v.insert(i, t);
            }
            2 => {
                let j = r.below(v.len());
                v.swap(i, j);
            }
            _ => v.truncate(i),
        }
        if v.is_empty() {
            return None;
        }
    }
    Some(v.into_iter().map(|t| t.to_string()).collect::<Vec<_>>().join(" "))
}

/// Programs that stop short, or hardly begin.
const SHORT: &[&str] = &[
    "", " ", "\n\n", "// nothing\n", "/* nothing */", "match", "match;", "match ;", "match x", "match \"a\"", "match \"a\" :", "match \"a\" : b", "let", "let;", "let x", "let x =", "let x = ;",
    "let x = \"a\"", "let x = \"a\";", "let x = \"a\"; let y = x;", "let x = \"a\"; match", "match x;", "match _;", "match \"\";", "match \"a\";", "match \"a\"; match \"b\";", "match \"a\"; let x = \"b\";",
    "match \"a\"; ;", ";", "x", "\"a\"", "()", "match ();", "match !;", "match !();", "match / / ;", "match /x/;", "match /x/ x;", "match !(/x/);", "match (\"a\";)", "match \"a\" . ;", "match . \"a\";", "match | \"a\";",
    "match \"a\" | ;", "let x x = x; match x;", "let x x = x; match x \"a\";", "match \"a\" \"b\";", "match !(/x/ x);", "match !(/x y/ x);", "match !\"a\";", "let _ = \"a\"; match \"b\";", "match 'a';", "match 1;",
    "match b\"a\";", "match #;", "match \"a\" : ;", "match \"a\" : \"b\";", "let let = \"a\"; match let;", "let match = \"a\"; match match;", "match \"a\" : match;", "let fn if = if; match \"a\";",
];

/// Rejected programs with something long in them: names, texts, lines, lists, the way to the mistake.
fn long_reject(i: usize, r: &mut Rng) -> String {
    let n = [40, 150, 300, 700, 1100, 2500][i % 6] + r.below(50);
    let name: String = (0..n).map(|_| (b'a' + r.below(26) as u8) as char).collect();
    match i / 6 {
        0 => match i % 3 {
            0 => format!("match {};", name),
            1 => format!("let {} = \"a\";\nmatch {}(\"b\");", name, name),
            _ => format!("match \"a\" : {} | {:?} : x | \"a\";", name, "b".repeat(n)),
        },
        1 => format!("{}match \"a\" | \"a\";{}", "\n".repeat(n), "\n".repeat(n % 7)),
        2 => format!("match {} | {:?};", (0..n).map(|k| format!("{:?}", char::from_u32(0x4e00 + k as u32).unwrap().to_string())).collect::<Vec<_>>().join(" | "), "\u{4e00}"),
        _ => match i % 3 {
            0 => format!("let f a = a;\nmatch f{};", " \"a\"".repeat(n / 4)),
            1 => format!("{}match d{} | d0;", (0..n / 4).map(|k| format!("let d{} = {:?};\n", k, format!("x{}", k))).collect::<String>(), n / 4 - 1),
            _ => format!("match {:?} . {:?} : {} . (\"b\" | _) . \"b\";", "a".repeat(n), "\u{e9}\\\"".repeat(n / 4), name),
        },
    }
}

pub fn c27(run: Run) -> ! {
    use crate::{batch, pipe};
    let per = 60;
    let n = run.scale(24, 40);
    let base = run.root.join("work").join("batch").join("C27");
    let _ = std::fs::remove_dir_all(&base);
    run.par("crates of macro calls", n, |k, r, st| {
        // None: accepted; otherwise the library's message and the lines it points at
        let mut progs: Vec<(String, Option<(String, Option<(usize, usize)>)>, &'static str)> = vec![];
        let mut tries = 0;
        while progs.len() < per && tries < 40 * per {
            tries += 1;
            let (text, prog, tag) = match r.below(12) {
                _ if k == 1 && tries <= 24 => {
                    let t = long_reject(tries, r);
                    let p = syntax::parse(&t).ok();
                    (t, p, "long")
                }
                _ if k == 0 && tries <= SHORT.len() => (SHORT[tries - 1].to_string(), syntax::parse(SHORT[tries - 1]).ok(), "short"),
                10 | 11 => {
                    let (p, tag) = streams::zoo(r, false, true);
                    let lay = if r.chance(1, 2) { Layout::random(r, false) } else { Layout::plain() };
                    let c = printed(p, r, lay, tag);
                    (c.text, c.prog, tag)
                }
                0..=3 => {
                    let lay = if r.chance(1, 2) { Layout::random(r, false) } else { Layout::plain() };
                    let c = printed(streams::damaged(r, false), r, lay, "damaged");
                    (c.text, c.prog, "damaged")
                }
                4 | 5 => {
                    let c = printed(gen::wild_prog(r, false), r, Layout::plain(), "wild");
                    (c.text, c.prog, "wild")
                }
                6 => {
                    let c = printed(streams::border(r), r, Layout::plain(), "border");
                    (c.text, c.prog, "border")
                }
                7 => {
                    let lay = Layout::random(r, false);
                    let c = printed(streams::well(r, false), r, lay, "well");
                    (c.text, c.prog, "well")
                }
                _ => {
                    let b = printed(streams::well(r, false), r, Layout::plain(), "").text;
                    match shuffled_tokens(&b, r) {
                        Some(t) => {
                            let p = syntax::parse(&t).ok();
                            (t, p, "tokens")
                        }
                        None => continue,
                    }
                }
            };
            if text.len() > 3000 && tag != "long" {
                continue;
            }
            // what the library says
            let line = |at: usize| 1 + text.as_bytes()[..at.min(text.len())].iter().filter(|b| **b == b'\n').count();
            pipe::reset_spans();
            harn::note(&text);
            let said = match harn::guard(|| pipe::parse(&text)) {
                Err(p) => Some((format!("panic: {}", p), None)),
                Ok(Err(e)) => {
                    // a program that stops short has no place of its own
                    let g = e.span().byte_range();
                    let at = if g.end == 0 || g.start >= text.trim_end().len() { None } else { Some((line(g.start), line(g.end))) };
                    Some((e.to_string(), at))
                }
                Ok(Ok(s)) => {
                    let finite = prog.as_ref().map_or(false, |p| vref::elab::elab(p, batch::FUEL).is_ok());
                    if !finite {
                        continue;
                    }
                    match harn::guard(|| pipe::full(s, true)) {
                        Ok(f) => f.diag().map(|d| (d.msg.clone(), if d.nowhere { None } else { Some((line(d.range.0), line(d.range.1))) })),
                        // rejected or not, the macro must not panic on it
                        Err(p) => Some((format!("panic: {}", p), None)),
                    }
                }
            };
            progs.push((text, said, tag));
        }
        let dir = base.join(format!("c{}", k));
        let mut main = String::from("#![allow(warnings, text_direction_codepoint_in_literal, text_direction_codepoint_in_comment)]\n");
        let wrote = std::fs::create_dir_all(&dir).and_then(|_| {
            for (i, p) in progs.iter().enumerate() {
                main += &format!("#[path = \"m{}.rs\"]\npub mod m{};\n", i, i);
                std::fs::write(
                    dir.join(format!("m{}.rs", i)),
                    format!("#![allow(warnings, text_direction_codepoint_in_literal, text_direction_codepoint_in_comment)]\n::chomp_macro::nibble! {{\n{}\n}}\n", p.0),
                )?;
            }
            std::fs::write(dir.join("main.rs"), &main)
        });
        if let Err(e) = wrote {
            st.errors.push(e.to_string());
            return;
        }
        let errs = batch::rustc(&dir, "main.rs", "chunk.rmeta", true);
        let _ = std::fs::remove_dir_all(&dir);
        let errs = match errs {
            Ok(e) => e,
            Err(e) => {
                st.errors.push(e);
                return;
            }
        };
        let mut by: Vec<Vec<&batch::Error>> = progs.iter().map(|_| vec![]).collect();
        for e in &errs {
            match e.1.rsplit('/').next().unwrap_or("").strip_prefix('m').and_then(|x| x.strip_suffix(".rs")).and_then(|x| x.parse::<usize>().ok()) {
                Some(i) if i < by.len() => by[i].push(e),
                _ => {
                    st.violation(format!("a rejected program is reported outside every macro call: {}", e.0), format!("{:?}\n\nprograms:\n{}", e, progs.iter().map(|p| p.0.clone()).collect::<Vec<_>>().join("\n----\n")));
                    return;
                }
            }
        }
        for ((text, said, tag), got) in progs.iter().zip(&by) {
            let lines = text.lines().count().max(1);
            match said {
                None => {
                    st.hit("accepted programs expanded");
                    // later passes do not run when some macro failed: expansion is what is observed
                    if let Some(e) = got.first() {
                        st.violation(format!("the library accepts the program, the macro reports: {}", e.0), format!("program:\n{}\n\n{:?}", text, got));
                    }
                }
                Some((m, at)) => {
                    st.hit(&format!("rejected programs: {}", tag));
                    st.case(text, true);
                    let what = match got.first() {
                        Some(e) if e.0.contains("panicked") => Some("the macro panics".to_string()),
                        _ if m.starts_with("panic: ") => None,
                        None => Some("the library rejects the program, the macro reports nothing".to_string()),
                        Some(e) if e.0 != *m => Some(format!("the macro reports {:?}, the library says {:?}", e.0, m)),
                        Some(e) if e.2 < 2 || e.4 > lines + 4 => Some(format!("reported at lines {}-{}, outside the macro call", e.2, e.4)),
                        Some(e) if e.2 < 3 && at.is_some() => Some("reported at the macro call as a whole, not in its input".to_string()),
                        Some(e) => {
                            if let Some((a, b)) = at {
                                st.hit(if e.2 == a + 2 { "reported on the line the library points at" } else { "reported elsewhere" });
                                if e.2 < a + 2 || e.2 > b + 2 {
                                    Some(format!("reported on line {} of the input, the library points at lines {}-{}", e.2 - 2, a, b))
                                } else {
                                    None
                                }
                            } else {
                                None
                            }
                        }
                    };
                    if let Some(w) = what {
                        st.violation(w, format!("program:\n{}\n\nlibrary: {} {:?}\n\nrustc: {:?}", text, m, at, got));
                    }
                }
            }
        }
    });
    let _ = std::fs::remove_dir_all(&base);
    run.finish(
        "macro calls with rejected programs (damaged, random, borderline, tokens shuffled) and accepted ones among them, compiled by rustc: each rejected program must give the library's own message inside its own macro call, each accepted one none; non-trivial: rejected",
        &["expansion is observed; later passes of rustc do not run in crates with rejected programs (C09 covers them)", "a library rejection may be reported with further errors after its own"],
    )
}
