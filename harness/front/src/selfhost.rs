//! The self-hosted front end against the reference one, and its literals against Rust's.
use crate::pipe;
use crate::streams::{self, mixed, printed};
use chewed::{IterWrapper, Parser};
use chomp::chomp::ast::{Expression, NamedExpression};
use chomp::nibble::convert::{Context, Convert};
use harn::{guard, note, Run, Stats};
use vref::gen;
use vref::rng::Rng;
use vref::syntax::{self, Layout};

pub fn own(text: &str) -> Result<NamedExpression, String> {
    let ast = IterWrapper::new(text.chars()).parse::<autonibble::Ast>().map_err(|e| e.to_string())?;
    ast.convert(&mut Context::default()).map_err(|e| e.to_string())
}

fn reference(text: &str) -> Result<NamedExpression, String> {
    pipe::reset_spans();
    let s = pipe::parse(text).map_err(|e| e.to_string())?;
    pipe::convert(s).map_err(|d| d.msg)
}

fn root_name(n: &NamedExpression) -> Option<String> {
    match &n.expr {
        Expression::Let(l) => root_name(&l.body),
        _ => n.name.as_ref().map(|n| n.to_string()),
    }
}

fn agree(text: &str, st: &mut Stats) {
    note(text);
    let a = match guard(|| own(text)) {
        Ok(a) => a,
        Err(_) => {
            st.hit("self-hosted front end panicked (judged by C16)");
            return;
        }
    };
    let b = match guard(|| reference(text)) {
        Ok(b) => b,
        Err(_) => {
            st.hit("reference front end panicked (judged by C08)");
            return;
        }
    };
    match (&a, &b) {
        (Ok(x), Ok(y)) => {
            st.hit("accepted by both");
            let (sx, sy) = (pipe::show_named(x, true), pipe::show_named(y, true));
            if sx != sy {
                st.violation("the front ends build different programs", format!("program:\n{}\n\nself-hosted: {}\nreference:   {}", text, sx, sy));
                return;
            }
            let (rx, ry) = (root_name(x), root_name(y));
            if rx != ry && !(rx.is_none() && ry.as_deref() == Some("Ast")) {
                st.violation(format!("the front ends name the goal {:?} and {:?}", rx, ry), format!("program:\n{}", text));
            }
        }
        (Err(x), Err(y)) => {
            st.hit(if x.contains("undeclared") && y.contains("undeclared") { "undeclared for both" } else { "rejected by both" });
            if x.contains("undeclared") && y.contains("undeclared") && x != y {
                st.hit("undeclared names differ");
                st.violation(format!("self-hosted says {:?}, reference {:?}", x, y), format!("program:\n{}", text));
            }
        }
        (Ok(_), Err(e)) => st.violation(format!("only the self-hosted front end accepts, the reference one says {:?}", e), format!("program:\n{}", text)),
        (Err(e), Ok(_)) => st.violation(format!("only the reference front end accepts, the self-hosted one says {:?}", e), format!("program:\n{}", text)),
    }
}

/// A shared program with a few tokens removed, doubled, swapped or inserted.
fn tokens_damaged(r: &mut Rng) -> streams::Case {
    let p = match r.below(3) {
        0 => gen::wild_prog(r, true),
        _ => streams::well(r, true),
    };
    let lay = Layout { ws: 1, parens: *r.pick(&[0, 4]), comments: false, escapes: false, shared: true };
    let text = printed(p, r, lay, "").text;
    let mut v: Vec<String> = text.split_inclusive(|c| c == ' ' || c == '\n').map(String::from).collect();
    for _ in 0..r.range(1, 3) {
        if v.is_empty() {
            break;
        }
        let i = r.below(v.len());
        match r.below(5) {
            0 => {
                v.remove(i);
            }
            1 => v.insert(i, v[i].clone()),
            2 => {
                let j = r.below(v.len());
                v.swap(i, j)
            }
            3 => v.insert(i, r.pick(&["| ", ". ", ": ", "/ ", "( ", ") ", "! ", "_ ", "x ", "; ", "= ", "\"a\" ", "let ", "match ", "/ x / "]).to_string()),
            _ => v[i] = v[i].trim_end().to_string(),
        }
    }
    streams::Case { text: v.concat(), prog: None, tag: "scrambled", comments: false }
}

pub fn c15(run: Run) -> ! {
    run.par("bundled grammars", streams::CORPUS.len(), |i, _, st| {
        let t = streams::CORPUS[i];
        if syntax::shared_text(t) {
            st.case(t, true);
            agree(t, st);
        } else {
            st.hit("bundled grammar outside the shared syntax");
        }
    });
    run.par("shared programs", run.scale(16_000, 50), |i, r, st| {
        let c = match i % 5 {
            4 => tokens_damaged(r),
            0 => {
                let mut o = gen::Opts::random(r, true);
                o.labels = 30;
                o.names = 2;
                o.abstr = r.range(0, 10);
                let p = gen::program(r, &o);
                let lay = Layout::random(r, true);
                printed(p, r, lay, "labelled")
            }
            1 => {
                let p = gen::wild_prog(r, true);
                let lay = Layout::random(r, true);
                printed(p, r, lay, "wild")
            }
            _ => mixed(r, true),
        };
        if !syntax::shared_text(&c.text) && c.tag != "scrambled" && c.tag != "corpus" {
            // shared by construction; the recogniser of shared texts is stricter about exotic white space
            st.hit("shared by construction only");
        } else if !syntax::shared_text(&c.text) {
            st.hit("outside the shared syntax");
            return;
        }
        st.case(&c.text, c.text.len() > 20);
        st.hit(&format!("stream: {}", c.tag));
        agree(&c.text, st);
    });
    run.finish(
        "texts inside the syntax both front ends share (printed programs right and wrong, bundled grammars, texts damaged character by character that keep to the shared tokens) go through both; acceptance, structure, literals, binders, names and labels are compared; non-trivial: longer than 20 characters",
        &["a text is shared when an independent lexer finds only ASCII tokens, no comments or keywords as parameters, and space wherever the self-hosted grammar demands it"],
    )
}

// ---------------------------------------------------------------------------------------------- C16

fn literal_of(n: &NamedExpression) -> Option<String> {
    match &n.expr {
        Expression::Literal(l) => Some(l.to_string()),
        _ => None,
    }
}

/// The literal in source form and what it denotes (None: not a literal of the syntax).
fn literal(r: &mut Rng) -> (String, Option<String>) {
    let (mut src, mut val, mut ok) = (String::new(), String::new(), true);
    let n = if r.chance(1, 40) { r.range(5, 400) } else { r.range(1, 5) };
    for _ in 0..n {
        match r.below(if n > 5 { 9 } else { 10 }) {
            0..=2 => {
                let c = loop {
                    let c = char::from(r.range(0x20, 0x7e) as u8);
                    if c != '"' && c != '\\' {
                        break c;
                    }
                };
                src.push(c);
                val.push(c);
            }
            3..=4 => {
                let (e, c) = *r.pick(&[('"', '"'), ('\'', '\''), ('n', '\n'), ('r', '\r'), ('t', '\t'), ('\\', '\\'), ('0', '\0')]);
                src.push('\\');
                src.push(e);
                val.push(c);
            }
            5..=6 => {
                let v = r.below(0x80) as u8;
                src += &if r.chance(1, 2) { format!("\\x{:02x}", v) } else { format!("\\x{:02X}", v) };
                val.push(v as char);
            }
            7..=8 => {
                let v = match r.below(8) {
                    0 => r.below(0x80),
                    1 => r.below(0x800),
                    2 => *r.pick(&[0, 0x7f, 0x80, 0xff, 0xd7ff, 0xe000, 0xffff, 0x10000, 0x10ffff, 0xfdd0, 0xa, 0xaaaaa, 0xabcde]),
                    3 => 0xd800 + r.below(0x800),
                    4 => 0x110000 + r.below(0xffffff - 0x110000 + 1),
                    5 => r.below(0x10000),
                    _ => r.below(0x110000),
                } as u32;
                let d = format!("{:x}", v);
                let d = if r.chance(1, 2) { d.to_uppercase() } else { d };
                let pad = r.below(7 - d.len());
                src += &format!("\\u{{{}{}}}", "0".repeat(pad), d);
                match char::from_u32(v) {
                    Some(c) => val.push(c),
                    None => ok = false,
                }
            }
            _ => {
                if r.chance(1, 3) {
                    ok = false;
                    src += *r.pick(&["\\x80", "\\xff", "\\u{}", "\\u{0000000}", "\\u{1234567}", "\\q", "\\x4", "\\u{g}", "\\u41", "\\X41", "\\U{41}", "\\xG0", "\\a", "\\b", "\\u{12"]);
                    src.push('z');
                } else {
                    src.push('a');
                    val.push('a');
                }
            }
        }
    }
    (src, if ok { Some(val) } else { None })
}

pub fn c16(run: Run) -> ! {
    // every escape on its own
    run.par("single escapes", 0x2000, |i, _, st| {
        let lo = (i * 0x88) as u32;
        for v in lo..(lo + 0x88).min(0x110800) {
            if !run.thorough && v > 0x3000 && v % 7 != (run.seed % 7) as u32 && !(0xd780..0xe080).contains(&v) && v < 0x10ff00 {
                continue;
            }
            let src = format!("match \"\\u{{{:x}}}\";", v);
            one(&src, char::from_u32(v).map(|c| c.to_string()), st);
            st.hit("unicode escapes");
        }
    });
    run.par("byte escapes and characters", 256, |i, _, st| {
        for src in [format!("\\x{:02x}", i), format!("\\x{:02X}", i)] {
            one(&format!("match \"{}\";", src), if i < 128 { Some((i as u8 as char).to_string()) } else { None }, st);
        }
        if i >= 0x20 && i < 0x7f && i != 0x22 && i != 0x5c {
            let c = i as u8 as char;
            one(&format!("match \"{}\";", c), Some(c.to_string()), st);
        }
        if (0x21..0x7f).contains(&i) {
            let c = i as u8 as char;
            let want = match c {
                'n' => Some('\n'),
                'r' => Some('\r'),
                't' => Some('\t'),
                '0' => Some('\0'),
                '\\' | '\'' | '"' => Some(c),
                _ => None,
            };
            one(&format!("match \"\\{}\";", c), want.map(|c| c.to_string()), st);
        }
    });
    run.par("mixed literals", run.scale(40_000, 30), |_, r, st| {
        let (src, val) = literal(r);
        let text = format!("match \"{}\";", src);
        if let Some(v) = &val {
            // what Rust itself makes of it
            let rust = syn::parse_str::<syn::LitStr>(&format!("\"{}\"", src)).map(|l| l.value()).ok();
            if rust.as_deref() != Some(&v[..]) {
                st.errors.push(format!("model and Rust disagree on {:?}: {:?} {:?}", src, v, rust));
                return;
            }
        }
        one(&text, val, st);
    });
    run.par("hostile texts", run.scale(20_000, 50), |i, r, st| {
        let text = match i % 5 {
            0 => {
                let n = r.below(40);
                (0..n).map(|_| crate::rt::any_char(r)).collect()
            }
            1 => {
                const FRAG: &[&str] = &["let ", "match ", "\"", "\\", "u{", "}", "a", "aaaaaaa", "d800", "110000", "x", "7f", "8", ";", "=", "/", "(", ")", "!", "_", "|", ".", ":", " ", "\n", "é", "ffffff", "0"];
                let n = r.range(1, 25);
                (0..n).map(|_| *r.pick(FRAG)).collect()
            }
            2 => {
                let t = mixed(r, true).text;
                streams::scramble(&t, r)
            }
            3 => mixed(r, false).text,
            _ => {
                let t = mixed(r, true).text;
                let (l, _) = literal(r);
                // put a literal in place of one
                match t.find('"') {
                    Some(a) => format!("{}\"{}\"{}", &t[..a], l, &t[a..].splitn(3, '"').nth(2).unwrap_or("")),
                    None => t,
                }
            }
        };
        note(&text);
        st.case(&text, text.len() > 3);
        match guard(|| own(&text)) {
            Ok(Ok(_)) => st.hit("hostile text accepted"),
            Ok(Err(_)) => st.hit("hostile text rejected"),
            Err(e) => st.violation(format!("the self-hosted front end panics: {}", e), format!("text:\n{}", text)),
        }
    });
    run.finish(
        "literals built escape by escape with the value Rust gives them (checked against syn), plus hostile texts, go through the self-hosted front end with overflow checks on; the literal of the program must be that value, malformed ones must be an error, nothing may panic; non-trivial: longer than 3 characters",
        &["stack exhaustion is outside the property (threads have 1 GB of stack)"],
    )
}

fn one(text: &str, want: Option<String>, st: &mut Stats) {
    note(text);
    st.case(text, true);
    let got = match guard(|| own(text)) {
        Ok(g) => g,
        Err(e) => {
            st.violation(format!("the self-hosted front end panics: {}", e), format!("text:\n{}", text));
            return;
        }
    };
    match (&got, &want) {
        (Ok(n), Some(w)) => {
            st.hit("literals decoded");
            if literal_of(n).as_deref() != Some(&w[..]) {
                st.violation(format!("{} decodes to {:?}, must be {:?}", text, literal_of(n), w), String::new())
            }
        }
        (Err(_), None) => st.hit("malformed literals rejected"),
        (Ok(n), None) => st.violation(format!("{} is accepted as {:?}", text, literal_of(n)), String::new()),
        (Err(e), Some(w)) => st.violation(format!("{} (denoting {:?}) is rejected: {}", text, w, e), String::new()),
    }
}
