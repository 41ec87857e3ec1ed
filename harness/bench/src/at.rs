//! Where the parsers of chomp-bench say that a text goes wrong.
use crate::{arith, json};
use chewed::{IterWrapper, ParseError, Parser, TakeError};
use harn::{guard, note, Run, Stats};

/// What is wrong with a text, and at which of its characters.
#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Fault {
    /// all of it is the beginning of a document, but no document
    End,
    /// a document precedes this character, and no longer text begins with what precedes and it
    Continues(usize),
    /// what precedes this character is the beginning of a document, but not with it
    Character(usize),
}

type Report = Result<Result<(), ParseError>, String>;

fn report(who: &str, got: Report, text: &str, fault: Fault, fault_of: fn(&str) -> Option<Fault>, panics: bool, st: &mut Stats) {
    let c: Vec<char> = text.chars().collect();
    let (at, want) = match fault {
        Fault::End => (c.len(), "the end of the text".to_string()),
        Fault::Continues(i) => (i, "more text than there should be".to_string()),
        Fault::Character(i) => (i, format!("the character {:?}", c[i])),
    };
    let (line, col) = vref::pos::line_col(&c, at);
    let (kind, pos) = match &got {
        Err(_) if panics => return st.hit("set aside: arithmetic that panics"),
        Err(p) => return st.violation(format!("the {} parser panics ({}) instead of reporting {}", who, p, want), format!("text: {:?}", text)),
        Ok(Ok(())) => return st.violation(format!("the {} parser accepts a text that should fail at {}", who, want), format!("text: {:?}", text)),
        Ok(Err(e)) => match e {
            ParseError::InputContinues(p) => (matches!(fault, Fault::Continues(_)), p),
            ParseError::TakeError(TakeError::EndOfStream(p)) => (fault == Fault::End, p),
            ParseError::TakeError(TakeError::BadBranch(p, x, _)) => (matches!(fault, Fault::Character(i) if c[i] == *x), p),
            ParseError::TakeError(TakeError::BadString(p, s, _)) => (matches!(fault, Fault::Character(i) if s.chars().last() == Some(c[i]) && c[..=i].ends_with(&s.chars().collect::<Vec<_>>())), p),
        },
    };
    st.hit(match fault {
        Fault::End => "errors at the end of the text",
        Fault::Continues(_) => "errors after a whole document",
        Fault::Character(_) => "errors at a character",
    });
    if !kind || (pos.line, pos.col) != (line, col) {
        st.violation(
            format!("the {} parser's error is not {} at {}:{}", who, want, line, col),
            format!("text: {:?}\nerror: {:?}", text, got.as_ref().unwrap().as_ref().unwrap_err()),
        );
    }
    // what it would have had instead may come there
    let would: Vec<String> = match &got {
        Ok(Err(ParseError::TakeError(TakeError::BadBranch(_, _, set)))) => set.iter().map(|x| x.to_string()).collect(),
        Ok(Err(ParseError::TakeError(TakeError::BadString(_, s, w)))) => {
            // the text so far without what of the string was there
            let had = s.chars().count().saturating_sub(1);
            st.hit("expected strings followed");
            vec![w.chars().skip(had).collect()]
        }
        _ => return,
    };
    for w in would {
        let t: String = c[..at].iter().copied().chain(w.chars()).collect();
        st.hit("expected characters followed");
        if !json::unpaired(&t) && matches!(fault_of(&t), Some(Fault::Character(_) | Fault::Continues(_))) {
            return st.violation(
                format!("the {} parser's error expects {:?}, which cannot come there", who, w),
                format!("text: {:?}\nerror: {:?}", text, got.as_ref().unwrap().as_ref().unwrap_err()),
            );
        }
    }
}

fn json_text(text: &str, st: &mut Stats) {
    if json::unpaired(text) {
        return st.hit("set aside: unpaired surrogates");
    }
    let Some(fault) = json::fault(text) else { return st.hit("documents, with nothing to report") };
    st.case(text, text.len() > 1);
    note(text);
    let before: String = match fault {
        Fault::End => text.to_string(),
        Fault::Continues(i) | Fault::Character(i) => text.chars().take(i).collect(),
    };
    let hand = guard(|| IterWrapper::new(text.chars()).parse::<chomp_bench::json::Value>().map(|_| ()));
    report("hand-written JSON", hand, text, fault, json::fault, false, st);
    // the generated grammar has fewer characters
    if json::shared(&before) {
        let nib = guard(|| IterWrapper::new(text.chars()).parse::<chomp_bench::json::nibble::Ast>().map(|_| ()));
        report("generated JSON", nib, text, fault, json::fault, false, st);
    }
}

fn arith_text(text: &str, st: &mut Stats) {
    let Some(fault) = arith::fault(text) else { return st.hit("expressions, with nothing to report") };
    st.case(text, text.len() > 1);
    note(text);
    // this one calculates as it goes
    let hand = guard(|| chomp_bench::arith::parse_expr(&mut IterWrapper::new(text.chars())).map(|_| ()));
    report("hand-written arithmetic", hand, text, fault, arith::fault, true, st);
    let nib = guard(|| IterWrapper::new(text.chars()).parse::<chomp_bench::arith::nibble::Ast>().map(|_| ()));
    report("generated arithmetic", nib, text, fault, arith::fault, false, st);
}

/// Every text over the alphabet up to a length, after a beginning.
fn every(run: &Run, name: &str, alphabet: &'static [char], len: usize, starts: &'static [&'static str], f: fn(&str, &mut Stats)) {
    run.par(name, alphabet.len() * starts.len(), |i, _, st| {
        let mut rest = vec![format!("{}", alphabet[i % alphabet.len()])];
        if i % alphabet.len() == 0 {
            rest.push(String::new());
        }
        while let Some(t) = rest.pop() {
            f(&format!("{}{}", starts[i / alphabet.len()], t), st);
            if !t.is_empty() && t.chars().count() < len {
                rest.extend(alphabet.iter().map(|c| format!("{}{}", t, c)));
            }
        }
    });
}

/// A character put in, taken out, doubled, replaced or cut at.
fn around(text: &str, x: char, f: fn(&str, &mut Stats), st: &mut Stats) {
    let c: Vec<char> = text.chars().collect();
    for at in 0..=c.len() {
        let (a, b): (String, String) = (c[..at].iter().collect(), c[at..].iter().collect());
        f(&a, st);
        f(&format!("{}{}", a, x), st);
        f(&format!("{}{}{}", a, x, b), st);
        f(&format!("{}{}{}", a, x, b.chars().skip(1).collect::<String>()), st);
        f(&format!("{}{}", a, b.chars().skip(1).collect::<String>()), st);
    }
}

pub fn c32(run: Run) -> ! {
    let deep = run.thorough as usize;
    every(&run, "JSON: every short text", &['0', '1', '-', '.', 'e', '"', '[', ']', '{', '}', ',', ':', ' ', '\\', 'n', 'u', '\n'], 4 + deep, &["", "\n\r\n"], json_text);
    every(&run, "JSON: every short number", &['0', '7', '-', '+', '.', 'e', 'E', 'x'], 5 + deep, &["", "[", "\r "], json_text);
    every(&run, "JSON: every short string", &['"', '\\', 'u', 'b', 'x', '0', '9', '\n', '\r', '/', 'D', 'é'], 4 + deep, &["\"", "{\"", "\"\\u00"], json_text);
    every(&run, "JSON: every short structure", &['[', ']', '{', '}', ',', ':', '0', '"', ' ', '\n'], 5 + deep, &["", "[", "{", "{\"\":"], json_text);
    every(&run, "JSON: every short word", &['n', 'u', 'l', 't', 'r', 'e', 'f', 'a', 's', ' '], 5, &["", "[true", "nul"], json_text);
    every(&run, "expressions: every short text", &['0', '7', '+', '-', '*', '/', '(', ')', ' ', 'x'], 5 + deep, &[""], arith_text);
    every(&run, "expressions: every short text after a beginning", &['0', '+', '-', '/', '(', ')', ' ', '\n'], 4 + deep, &["((1 - 2", "-", "1 * (", "(1)\n", " 1 "], arith_text);
    // each character at each place
    run.par("JSON: one character anywhere", 95 + json::OTHER.len(), |i, r, st| {
        let x = if i < 95 { (b' ' + i as u8) as char } else { json::OTHER[i - 95] };
        let mut all: Vec<String> = json::DOCUMENTS.iter().map(|d| d.to_string()).collect();
        for _ in 0..run.scale(6, 6) {
            let d = r.below(5);
            let wide = r.chance(1, 3);
            all.push(json::grown_in(r, d, wide, &mut Stats::default()).0.chars().take(120).collect());
        }
        for d in all {
            around(&d, x, json_text, st);
        }
    });
    run.par("expressions: one character anywhere", 95 + json::OTHER.len(), |i, r, st| {
        let x = if i < 95 { (b' ' + i as u8) as char } else { json::OTHER[i - 95] };
        for _ in 0..run.scale(12, 6) {
            let t: String = arith::grow(r).chars().take(120).collect();
            around(&t, x, arith_text, st);
        }
    });
    run.par("JSON: edited documents and mixtures", run.scale(40_000, 30), |_, r, st| {
        let d = r.below(5);
        let wide = r.chance(1, 4);
        let (t, _) = json::grown_in(r, d, wide, &mut Stats::default());
        let t = json::edited(r, &t);
        json_text(&t, st);
        json_text(&json::mixture(r), st);
    });
    run.par("expressions: edited", run.scale(40_000, 30), |_, r, st| {
        let t = arith::grow(r);
        let t = arith::mutate(r, &t);
        arith_text(&t, st);
    });
    run.par("deep and long", run.scale(120, 10), |i, r, st| {
        let n = [3, 30, 300, 1000][i % 4];
        let t = if r.chance(1, 2) { arith::deep(r, n) } else { arith::long(r, n) };
        let t: Vec<char> = t.chars().collect();
        let at = r.below(t.len() + 1);
        let x = *r.pick(&["", ")", "(", "x", "\n", "*", " 1", "-"]);
        arith_text(&format!("{}{}{}", t[..at].iter().collect::<String>(), x, t[at..].iter().collect::<String>()), st);
        arith_text(&t[..at].iter().collect::<String>(), st);
        let open: String = (0..n.min(300)).map(|_| *r.pick(&["[", "{\"a\":", "[0,", "[\n", "{\"b\"\r\n:1,\"\":"])).collect();
        for x in ["", "]", "}", ",", "0", "0]", "0}", "\"", "x", "\u{b}", "nul", "-]", "{,", "[,"] {
            json_text(&format!("{}{}", open, x), st);
        }
    });
    run.finish(
        "every short text over several alphabets, every character put in, in place of another or at the end at every place of documents and expressions, edited ones, mixtures and deep ones are given to the generated and hand-written parsers; the error's kind, position and character are compared with where a strict reader stops, and the characters and strings it expects are put there and read; non-trivial: more than one character",
        &[
            "texts with unpaired surrogate escapes are set aside, and for the generated JSON parser those with characters its grammar lacks before the fault",
            "the hand-written evaluator calculates as it reads: where that overflows or divides by zero before the fault, it is not judged",
            "that an error lists everything that may come there is not judged, nor are LALRPOP's errors, which are about its tokens",
        ],
    )
}
