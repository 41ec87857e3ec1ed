//! Workloads: program texts with, where known, their syntax trees and source ranges.
use vref::elab::{Node, C};
use vref::gen::{self, Opts};
use vref::rng::Rng;
use vref::syntax::{self, print, Layout, Prog};

pub struct Case {
    pub text: String,
    pub prog: Option<Prog>,
    pub tag: &'static str,
    pub comments: bool,
}

pub const CORPUS: &[&str] = &[
    include_str!("../../corpus/nibble_exp.nb"),
    include_str!("../../corpus/ratata.nb"),
    include_str!("../../corpus/regex.nb"),
    include_str!("../../corpus/regex_fix.nb"),
    include_str!("../../corpus/sheep.nb"),
    include_str!("../../corpus/194.nb"),
    include_str!("../../corpus/387.nb"),
    include_str!("../../corpus/1548.nb"),
    include_str!("../../corpus/autonibble.nb"),
    include_str!("../../corpus/json.nb"),
    include_str!("../../corpus/arith.nb"),
];

pub fn printed(mut p: Prog, r: &mut Rng, lay: Layout, tag: &'static str) -> Case {
    let comments = lay.comments;
    let text = print(&mut p, lay, r);
    Case { text, prog: Some(p), tag, comments }
}

pub fn well(r: &mut Rng, shared: bool) -> Prog {
    let o = Opts::random(r, shared);
    gen::program(r, &o)
}

/// Literals full of line breaks and blanks, spelled in every way the reader accepts.
pub fn spelled(r: &mut Rng) -> Case {
    let mut o = Opts::random(r, false);
    o.size = r.range(2, 16);
    o.alpha = gen::POOLS[5].to_vec();
    o.alpha.extend(['b', 'c', '"', '\\']);
    r.shuffle(&mut o.alpha);
    o.alpha.truncate(r.range(4, 10));
    if !o.alpha.contains(&'\n') {
        o.alpha.push('\n');
    }
    o.long_lits = true;
    let mut lay = Layout::random(r, false);
    lay.escapes = true;
    lay.comments = false;
    let mut p = gen::program(r, &o);
    if r.chance(1, 2) {
        gen::fragments(&mut p, r);
    }
    printed(p, r, lay, "spelled")
}

pub fn damaged(r: &mut Rng, shared: bool) -> Prog {
    let mut o = Opts::random(r, shared);
    if r.chance(1, 2) {
        o.size = o.size.min(14);
        o.alpha.truncate(3);
    }
    let mut p = gen::program(r, &o);
    gen::damage(&mut p, r, &o);
    p
}

/// Small core expressions over few characters, no regard to the typing rules: on the border
/// between accepted and rejected.
pub fn border(r: &mut Rng) -> Prog {
    border_in(r, false)
}

/// Sequences of optional, repeated and plain parts over few letters.
fn chain(r: &mut Rng) -> syntax::E {
    use syntax::*;
    let letters = *r.pick(&[&["a", "b"][..], &["a", "b", "c"], &["a", "b", "c", "d"], &["a", "b", "c", "d", "e", "f"]]);
    fn part(r: &mut Rng, ls: &[&str]) -> E {
        let x = lit(*r.pick(ls));
        let y = lit(*r.pick(ls));
        match r.below(9) {
            0 | 1 => x,
            2 => alt(vec![eps(), x]),
            3 => cat(vec![x, alt(vec![eps(), y])]),
            4 => cat(vec![x, fix(lam(&["s"], alt(vec![eps(), cat(vec![y, id("s")])])))]),
            5 => fix(lam(&["s"], alt(vec![eps(), cat(vec![x, id("s")])]))),
            6 => fix(lam(&["s"], cat(vec![x, alt(vec![eps(), id("s")])]))),
            7 => alt(vec![x, y]),
            _ => alt(vec![cat(vec![x, y]), eps()]),
        }
    }
    let n = r.range(3, 6);
    let mut v: Vec<E> = (0..n).map(|_| part(r, letters)).collect();
    if r.chance(3, 4) {
        // mostly begun by something of its own
        v[0] = lit("0");
    }
    let c = cat(v);
    match r.below(8) {
        0 => alt(vec![c, part(r, letters)]),
        1 => fix(lam(&["t"], cat(vec![c, alt(vec![lit("1"), cat(vec![lit("2"), id("t")])])]))),
        2 => cat(vec![lit("3"), c, lit("a")]),
        _ => c,
    }
}

fn border_expr(r: &mut Rng) -> (syntax::E, usize) {
    if r.chance(1, 4) {
        return (chain(r), 9);
    }
    let n = r.range(2, 9);
    let lits = *r.pick(&[&["a", "b"][..], &["a", "b", "ab"], &["a", "b", "c", ""], &["a", "bb", "ba", "c"], &["a", "b", "c", "d"]]);
    fn go(r: &mut Rng, size: usize, lits: &[&str], scope: &mut Vec<String>) -> syntax::E {
        if size <= 1 {
            return match r.below(6) {
                0 => syntax::eps(),
                1 | 2 if !scope.is_empty() => syntax::id(&r.pick(scope).clone()),
                _ => syntax::lit(r.pick(lits)),
            };
        }
        match r.below(5) {
            0 => {
                let x = format!("r{}", scope.len());
                scope.push(x.clone());
                let b = go(r, size - 1, lits, scope);
                scope.pop();
                syntax::fix(syntax::lam(&[&x], b))
            }
            k => {
                let m = if r.chance(1, 4) { 3 } else { 2 };
                let v: Vec<_> = (0..m).map(|_| go(r, (size - 1) / m, lits, scope)).collect();
                if k < 3 {
                    syntax::cat(v)
                } else {
                    syntax::alt(v)
                }
            }
        }
    }
    (go(r, n, lits, &mut vec![]), n)
}

pub fn border_in(r: &mut Rng, shared: bool) -> Prog {
    let (goal, n) = border_expr(r);
    let o = Opts { size: n, alpha: vec!['a', 'b'], reuse: 0, long_lits: false, abstr: r.below(3), labels: 0, names: 0, shared, wide: false };
    let mut p = gen::program_of(goal, r, &o);
    if r.chance(1, 3) {
        gen::relettered(&mut p, r);
    }
    p
}

/// The same without definitions or functions.
pub fn border_plain(r: &mut Rng) -> Prog {
    let mut p = Prog { lets: vec![], goal: border_expr(r).0, sp: (0, 0) };
    if r.chance(1, 3) {
        gen::relettered(&mut p, r);
    }
    p
}

/// A small well-typed grammar over few characters, changed in one or two places.
pub fn near(r: &mut Rng) -> Prog {
    let mut alpha = vec!['a', 'b', 'c', 'd'];
    alpha.truncate(r.range(2, 4));
    let o = Opts { size: r.range(5, 16), alpha, reuse: 0, long_lits: false, abstr: 0, labels: 0, names: 0, shared: false, wide: false };
    let goal = gen::Gen::new(r, o.clone()).core();
    let mut p = Prog { lets: vec![], goal, sp: (0, 0) };
    for _ in 0..r.range(1, 2) {
        gen::damage(&mut p, r, &o);
    }
    if r.chance(1, 3) {
        gen::relettered(&mut p, r);
    }
    p
}

/// Textual damage to a program.
pub fn scramble(s: &str, r: &mut Rng) -> String {
    const TOK: &[&str] = &[
        "let ", "match ", ";", "=", ".", "|", "!", "/", ":", "(", ")", "_", "\"", "\"a\"", "\"\"", "x", "/x/", "\\", "'", "{", "}", "[", "\u{0}",
        "\"\\u{d800}\"", "\"\\u{110000}\"", "\"\\x41\"", "\"\\x80\"", "\"\\u{}\"", "r\"a\"", "b\"a\"", "c\"a\"", "cr#\"a\"#", "br\"a\"", "b'a'", "0x", "1e", "1e+", "0b2", "1_f64", "\"a\"u8", "'\\u{41}'", "1", "1.0", "r#x", "r#", "'a'", "'a", "#", "::", "..",
        "é", "\u{2028}", "\u{FEFF}", "//", "/*", "*/", "\n", " ", "==", "|=", "||", "_x", "__", "\"\\", "\"\\\n  a\"", "\"\\u{1_0}\"", "\"\\u{0000041}\"", "r#\"a\"#",
    ];
    let mut v: Vec<char> = s.chars().collect();
    for _ in 0..r.range(1, 4) {
        let i = r.below(v.len() + 1);
        match r.below(7) {
            0 if i < v.len() => {
                v.remove(i);
            }
            1 => {
                let j = (i + r.range(1, 12)).min(v.len());
                v.drain(i..j);
            }
            2 | 3 => {
                let t: Vec<char> = r.pick(TOK).chars().collect();
                v.splice(i..i, t);
            }
            4 => {
                let j = (i + r.range(1, 20)).min(v.len());
                let t: Vec<char> = v[i..j].to_vec();
                let k = r.below(v.len() + 1);
                v.splice(k..k, t);
            }
            5 => v.truncate(i),
            _ if i < v.len() => v[i] = r.pick(TOK).chars().next().unwrap(),
            _ => {}
        }
    }
    v.into_iter().collect()
}

pub fn corpus(r: &mut Rng) -> &'static str {
    // small ones far more often
    let i = if r.chance(1, 12) { r.below(CORPUS.len()) } else { r.below(7) };
    CORPUS[i]
}

/// One of every family of programs, each as likely as the next; `faults` adds damage to half of them.
pub fn zoo(r: &mut Rng, shared: bool, faults: bool) -> (Prog, &'static str) {
    let (mut p, tag) = match r.below(32) {
        0..=2 => (gen::rows(r, shared), "rows"),
        3 if !shared => (gen::twin_rows(r, shared), "rows"),
        4..=7 if !shared => (crate::compiled::class_prog(r), "classes"),
        8..=11 => (gen::lookalikes(r, shared), "lookalikes"),
        12 => (gen::applied_far(r, shared, 4), "far inside"),
        13..=15 => (gen::applied(r, shared), "applied"),
        16..=18 if !shared => (crate::checks::dense(r), "dense"),
        19..=21 if !shared => (crate::checks::twins(r), "twins"),
        22 if !shared => (spelled(r).prog.unwrap(), "spelled"),
        23 => (gen::large(r, shared), "large"),
        24..=26 => {
            let mut o = Opts::random(r, shared);
            o.names = 2;
            o.abstr = r.range(2, 10);
            (gen::program(r, &o), "odd names")
        }
        27 => {
            let mut p = well(r, shared);
            if r.chance(1, 3) {
                gen::broken(&mut p, r);
            } else {
                gen::relettered(&mut p, r);
            }
            (p, "relettered")
        }
        _ => (well(r, shared), "well"),
    };
    if faults && tag != "large" && r.chance(1, 2) {
        let mut o = Opts::random(r, shared);
        let own = gen::letters(&p);
        if !own.is_empty() && r.chance(3, 4) {
            o.alpha = own;
        }
        gen::damage(&mut p, r, &o);
    }
    if shared {
        p.exprs_mut().into_iter().for_each(gen::no_empty);
    }
    (p, tag)
}

/// The mixed stream: mostly well-typed, with damage of every sort.
pub fn mixed(r: &mut Rng, shared: bool) -> Case {
    let k = r.below(20);
    let lay = Layout::random(r, shared);
    if r.chance(1, 100) {
        return printed(gen::large(r, shared), r, lay, "large");
    }
    if r.chance(1, 6) {
        let (p, tag) = zoo(r, shared, true);
        return printed(p, r, lay, tag);
    }
    match k {
        0..=7 => {
            if !shared && r.chance(1, 12) {
                return spelled(r);
            }
            let p = if r.chance(1, 6) { gen::lookalikes(r, shared) } else { well(r, shared) };
            printed(p, r, lay, "well")
        }
        8..=12 => {
            let p = damaged(r, shared);
            printed(p, r, lay, "damaged")
        }
        13..=14 => {
            if r.chance(1, 3) {
                let p = if r.chance(1, 3) { gen::miscounted(r, shared) } else { gen::applied(r, shared) };
                return printed(p, r, lay, "applied");
            }
            let p = gen::wild_prog(r, shared);
            printed(p, r, lay, "wild")
        }
        15..=16 => {
            let mut p = border_in(r, shared);
            if shared {
                p.exprs_mut().into_iter().for_each(gen::no_empty);
            }
            printed(p, r, lay, "border")
        }
        17 => {
            let text = corpus(r).to_string();
            Case { prog: syntax::parse(&text).ok(), text, tag: "corpus", comments: true }
        }
        _ => {
            let base = if r.chance(1, 2) {
                let p = if r.chance(1, 2) { well(r, shared) } else { gen::wild_prog(r, shared) };
                printed(p, r, lay, "").text
            } else {
                corpus(r).to_string()
            };
            let text = scramble(&base, r);
            Case { prog: syntax::parse(&text).ok(), text, tag: "scrambled", comments: true }
        }
    }
}

pub fn tn_node(t: &crate::pipe::TN) -> Node {
    use crate::pipe::TK;
    let k = match &t.k {
        TK::Eps => C::Eps,
        TK::Lit(s) => C::Lit(s.clone()),
        TK::Cat(v) => C::Cat(v.iter().map(tn_node).collect(), vec![(0, 0); v.len().saturating_sub(1)]),
        TK::Alt(v) => C::Alt(v.iter().map(tn_node).collect(), vec![(0, 0); v.len().saturating_sub(1)]),
        TK::Fix(b) => C::Fix(Box::new(tn_node(b))),
        TK::Var(i) => C::Var(*i),
    };
    Node::new(k)
}
