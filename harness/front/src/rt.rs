//! Monitors for the runtime crate: the stream wrapper, the helpers of `Parser`, its error messages.
use chewed::{Epsilon, IterWrapper, LineCol, Parse, ParseError, Parser, TakeError};
use harn::{guard, note, Run, Stats};
use std::cell::Cell;
use std::fmt;
use std::rc::Rc;
use vref::pos::line_col;
use vref::rng::Rng;

const BREAKS: &[char] = &['\n', '\u{b}', '\u{c}', '\u{85}', '\u{2028}', '\u{2029}', '\r', '\r', '\n'];
const NEAR: &[char] = &['\0', '\t', '\u{8}', '\u{e}', '\u{84}', '\u{86}', '\u{2027}', '\u{202a}', '\u{1c}', '\u{1d}', '\u{1e}', '\u{1f}', ' ', '\u{a0}', '\u{feff}', '\u{200b}', '\u{ad}'];
const WIDE: &[char] = &['é', '\u{301}', 'ß', 'Ω', '日', '本', '\u{1f600}', '\u{10ffff}', '\u{d7ff}', '\u{e000}', '\u{7f}', '\u{80}', '\u{7ff}', '\u{800}', '\u{ffff}', '\u{10000}'];

pub fn any_char(r: &mut Rng) -> char {
    match r.below(10) {
        0..=2 => *r.pick(BREAKS),
        3 => *r.pick(NEAR),
        4..=5 => *r.pick(WIDE),
        6 => loop {
            if let Some(c) = char::from_u32(r.below(0x110000) as u32) {
                return c;
            }
        },
        _ => *r.pick(&['a', 'b', 'c', '0', '1', ',', ']', ' ', 'é']),
    }
}

fn lc(p: LineCol) -> (usize, usize) {
    (p.line, p.col)
}

/// The input of a wrapper; counts what was pulled from it and how often it was asked past its end.
struct Source {
    data: Rc<Vec<char>>,
    at: usize,
    pulls: Rc<Cell<usize>>,
}
impl Iterator for Source {
    type Item = char;
    fn next(&mut self) -> Option<char> {
        self.pulls.set(self.pulls.get() + 1);
        let c = self.data.get(self.at).copied();
        self.at += 1;
        c
    }
}

fn show(cs: &[char]) -> String {
    format!("{:?}", cs.iter().collect::<String>())
}

/// One interleaving of operations: 0 next, 1 peek. The position is asked for after each.
fn interleave(data: &[char], ops: &[u8], st: &mut Stats, boxed: bool) -> Result<(), String> {
    let pulls = Rc::new(Cell::new(0));
    let src = Source { data: Rc::new(data.to_vec()), at: 0, pulls: pulls.clone() };
    if boxed {
        let it: Box<dyn Iterator<Item = char>> = Box::new(src);
        run_ops(IterWrapper::new(it), data, ops, &pulls, st)
    } else {
        run_ops(IterWrapper::new(src), data, ops, &pulls, st)
    }
}

fn run_ops<P: Parser>(mut p: P, data: &[char], ops: &[u8], pulls: &Cell<usize>, st: &mut Stats) -> Result<(), String> {
    let mut read = 0;
    if lc(p.pos()) != (1, 0) {
        return Err(format!("a fresh stream is at {:?}", lc(p.pos())));
    }
    for (k, op) in ops.iter().enumerate() {
        let (what, got) = match op {
            0 => ("next", p.next()),
            _ => ("peek", p.peek()),
        };
        let want = data.get(read).copied();
        if got != want {
            return Err(format!("{} number {} gave {:?}, the stream has {:?}", what, k, got, want));
        }
        if *op == 0 && want.is_some() {
            read += 1;
        }
        if want.is_none() {
            st.hit(if *op == 0 { "next at the end" } else { "peek at the end" });
        }
        for _ in 0..2 {
            let got = lc(p.pos());
            let want = line_col(data, read);
            if got != want {
                return Err(format!("position after reading {} of {} is {:?}, must be {:?} ({} number {})", read, show(data), got, want, what, k));
            }
        }
        if pulls.get() > read + 1 && want.is_some() {
            st.hit("pulled further than one ahead (judged by C12)");
        }
        st.add("operations observed", 1);
    }
    Ok(())
}

/// Reads a whole long stream, keeping the model's position as it goes.
fn far(data: &[char], st: &mut Stats) -> Result<(), String> {
    let mut p = IterWrapper::new(data.iter().copied());
    let (mut line, mut col) = (1usize, 0usize);
    for (k, c) in data.iter().enumerate() {
        if k % 3 == 0 && p.peek() != Some(*c) {
            return Err(format!("peek after {} characters is not the next one", k));
        }
        if p.next() != Some(*c) {
            return Err(format!("character {} is not the stream's", k));
        }
        if *c == '\r' && data.get(k + 1) == Some(&'\n') {
            col += 1;
        } else if BREAKS.contains(c) {
            line += 1;
            col = 0;
        } else {
            col += 1;
        }
        if lc(p.pos()) != (line, col) {
            return Err(format!("position after reading {} characters is {:?}, must be {:?}", k + 1, lc(p.pos()), (line, col)));
        }
    }
    if p.peek().is_some() || p.next().is_some() || lc(p.pos()) != (line, col) {
        return Err("the end of the stream is not stable".into());
    }
    st.add("operations observed", data.len() as u64);
    Ok(())
}

pub fn c13(run: Run) -> ! {
    // every sequence of up to 4 characters over the break classes, every interleaving up to 7
    let letters = ['x', '\n', '\r', '\u{2028}', 'é'];
    let mut seqs: Vec<Vec<char>> = vec![vec![]];
    let mut layer = seqs.clone();
    for _ in 0..(if run.thorough { 6 } else { 4 }) {
        layer = layer.iter().flat_map(|s| letters.iter().map(move |c| { let mut t = s.clone(); t.push(*c); t })).collect();
        seqs.extend(layer.clone());
    }
    let longest = if run.thorough { 10 } else { 7 };
    run.par("all short streams and interleavings", seqs.len(), |i, _, st| {
        let s = &seqs[i];
        st.case(&show(s), true);
        note(&show(s));
        for bits in 0..(1u32 << longest) {
            let ops: Vec<u8> = (0..longest).map(|k| (bits >> k & 1) as u8).collect();
            match guard(|| interleave(s, &ops, st, false)) {
                Ok(Ok(())) => (),
                Ok(Err(e)) | Err(e) => {
                    st.violation(e, format!("stream {}\noperations (0 next, 1 peek) {:?}", show(s), ops));
                    return;
                }
            }
        }
    });
    run.par("long streams", run.scale(4000, 60), |i, r, st| {
        let n = if r.chance(1, 40) { r.below(5000) } else { r.below(60) };
        let s: Vec<char> = (0..n).map(|_| any_char(r)).collect();
        let mut ops = vec![];
        let burst = r.range(1, 6);
        while ops.len() < n + n / 2 + 6 {
            ops.push(0);
            if r.chance(1, 2) {
                ops.extend(std::iter::repeat(1).take(r.below(burst)));
            }
        }
        note(&show(&s));
        st.case(&show(&s), n > 0);
        match guard(|| interleave(&s, &ops, st, i % 3 == 0)) {
            Ok(Ok(())) => (),
            Ok(Err(e)) | Err(e) => st.violation(e, format!("stream {}\noperations (0 next, 1 peek) {:?}", show(&s), ops)),
        }
    });
    run.par("very long streams", run.scale(24, 10), |i, r, st| {
        // few breaks: columns beyond 16 bits; many breaks: lines beyond 16 bits
        let n = r.range(66_000, 200_000);
        let few = r.chance(1, 2);
        let s: Vec<char> = (0..n)
            .map(|_| if few { if r.chance(1, 400_000) { '\n' } else { *r.pick(&['a', 'é', '\u{1F600}', '\t']) } } else { *r.pick(&['\n', '\r', '\u{2028}', 'x', '\n']) })
            .collect();
        let who = format!("{} characters, {}", n, if few { "hardly a line break" } else { "mostly line breaks" });
        st.case(&who, true);
        note(&format!("{} (case {})", who, i));
        match guard(|| far(&s, st)) {
            Ok(Ok(())) => (),
            Ok(Err(e)) | Err(e) => st.violation(e, format!("{}; first 40: {}", who, show(&s[..40]))),
        }
    });
    run.finish(
        "a recorded run of next/peek/pos calls on the real stream wrapper is compared call by call with the input sequence and the line/column model; a case is one stream (the short ones with every interleaving), non-trivial when not empty",
        &["the wrapped iterator keeps returning None after its end"],
    )
}

// ---------------------------------------------------------------------------------------------- C14

/// A second implementation of `Parser`, so that the helpers are exercised on their own.
pub struct Tape {
    data: Rc<Vec<char>>,
    pub at: usize,
}
impl Parser for Tape {
    fn next(&mut self) -> Option<char> {
        let c = self.data.get(self.at).copied();
        if c.is_some() {
            self.at += 1;
        }
        c
    }
    fn peek(&mut self) -> Option<char> {
        self.data.get(self.at).copied()
    }
    fn pos(&self) -> LineCol {
        let (line, col) = line_col(&self.data, self.at);
        LineCol { line, col }
    }
}

trait Stream: Parser {
    fn left(&mut self) -> Vec<char>;
}
impl Stream for Tape {
    fn left(&mut self) -> Vec<char> {
        let v = self.data[self.at..].to_vec();
        self.at = self.data.len();
        v
    }
}
impl<I: Iterator<Item = char>> Stream for IterWrapper<I> {
    fn left(&mut self) -> Vec<char> {
        let mut v = vec![];
        while let Some(c) = self.next() {
            v.push(c);
            if v.len() > 100_000 {
                break;
            }
        }
        v
    }
}

#[derive(Debug, PartialEq, Clone)]
enum Err1 {
    Branch((usize, usize), char, Vec<char>),
    Str((usize, usize), String, String),
    End((usize, usize)),
}
fn err(e: &TakeError) -> Err1 {
    match e {
        TakeError::BadBranch(p, c, s) => Err1::Branch(lc(*p), *c, s.to_vec()),
        TakeError::BadString(p, g, s) => Err1::Str(lc(*p), g.clone(), s.to_string()),
        TakeError::EndOfStream(p) => Err1::End(lc(*p)),
    }
}

/// Where the model stands in the stream.
struct Model<'a> {
    d: &'a [char],
    at: usize,
}
impl Model<'_> {
    fn p(&self) -> (usize, usize) {
        line_col(self.d, self.at)
    }
    fn str(&mut self, s: &str) -> Result<(), Err1> {
        let mut seen = String::new();
        for c in s.chars() {
            match self.d.get(self.at) {
                None => return Err(Err1::End(self.p())),
                Some(&g) if g == c => {
                    seen.push(c);
                    self.at += 1
                }
                Some(&g) => {
                    seen.push(g);
                    return Err(Err1::Str(self.p(), seen, s.into()));
                }
            }
        }
        Ok(())
    }
    fn chars(&mut self, set: &[char], n: usize) -> Result<String, Err1> {
        let mut out = String::new();
        for _ in 0..n {
            match self.d.get(self.at) {
                None => return Err(Err1::End(self.p())),
                Some(&g) if set.contains(&g) => {
                    out.push(g);
                    self.at += 1
                }
                Some(&g) => return Err(Err1::Branch(self.p(), g, set.to_vec())),
            }
        }
        Ok(out)
    }
    fn skip(&mut self, set: &[char]) -> String {
        let mut out = String::new();
        while let Some(c) = self.d.get(self.at).filter(|c| set.contains(c)) {
            out.push(*c);
            self.at += 1;
        }
        out
    }
}

#[derive(Clone, Debug)]
enum Item {
    Str(&'static str),
    Chars(&'static [char], usize),
    Skip(&'static [char]),
}

#[derive(Clone, Debug)]
enum Op {
    Next,
    Peek,
    Str(&'static str),
    Skip(&'static [char]),
    Chars(&'static [char], usize),
    List(Item, char, char, &'static [char], &'static [char]),
    Take(u8),
}

/// A hand-written value for `Parser::take`: a word of digits between brackets.
#[derive(Debug, PartialEq, Clone)]
struct Word(String);
impl fmt::Display for Word {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "<{}>", self.0)
    }
}
const DIG: &[char] = &['0', '1'];
impl Parse for Word {
    fn take<P: Parser + ?Sized>(input: &mut P) -> Result<Self, TakeError> {
        input.consume_str("<")?;
        let mut w = String::new();
        while let Some(c) = input.peek().filter(|c| DIG.contains(c)) {
            w.push(c);
            input.next();
        }
        input.consume_str(">")?;
        Ok(Word(w))
    }
}
fn model_word(m: &mut Model) -> Result<String, Err1> {
    m.str("<")?;
    let w = m.skip(DIG);
    m.str(">")?;
    Ok(w)
}

fn run_item<P: Parser + ?Sized>(p: &mut P, it: &Item) -> Result<String, TakeError> {
    match it {
        Item::Str(s) => p.consume_str(s).map(|()| s.to_string()),
        Item::Chars(set, n) => {
            let mut b = vec!['\0'; *n];
            p.take_chars_from(set, &mut b).map(|()| b.iter().collect())
        }
        Item::Skip(set) => {
            let mut n = String::new();
            p.skip_while(|c| {
                let y = set.contains(&c);
                if y {
                    n.push(c)
                }
                y
            });
            Ok(n)
        }
    }
}
fn model_item(m: &mut Model, it: &Item) -> Result<String, Err1> {
    match it {
        Item::Str(s) => m.str(s).map(|()| s.to_string()),
        Item::Chars(set, n) => m.chars(set, *n),
        Item::Skip(set) => Ok(m.skip(set)),
    }
}

fn drive<P: Stream>(mut p: P, d: &[char], ops: &[Op], st: &mut Stats) -> Result<(), String> {
    let mut m = Model { d, at: 0 };
    for (k, op) in ops.iter().enumerate() {
        let bad = |what: String| Err(format!("step {} {:?} at {}: {}", k, op, show(&d[..]), what));
        match op {
            Op::Next => {
                let w = d.get(m.at).copied();
                m.at += w.is_some() as usize;
                let g = p.next();
                if g != w {
                    return bad(format!("read {:?}, not {:?}", g, w));
                }
            }
            Op::Peek => {
                let g = p.peek();
                if g != d.get(m.at).copied() {
                    return bad(format!("peeked {:?}", g));
                }
            }
            Op::Str(s) => {
                let w = m.str(s);
                let g = p.consume_str(s).map_err(|e| err(&e));
                st.hit(match &w {
                    Ok(()) => "fixed string matched",
                    Err(Err1::End(_)) => "fixed string cut by the end",
                    _ => "fixed string mismatched",
                });
                if !s.is_ascii() {
                    st.hit("fixed string not ASCII")
                }
                if g != w {
                    return bad(format!("gave {:?}, must give {:?}", g, w));
                }
            }
            Op::Skip(set) => {
                m.skip(set);
                p.skip_while(|c| set.contains(&c));
                st.hit("skips");
            }
            Op::Chars(set, n) => {
                let w = m.chars(set, *n);
                let mut b = vec!['\u{fffd}'; *n];
                let g = p.take_chars_from(set, &mut b).map(|()| b.iter().collect::<String>()).map_err(|e| err(&e));
                st.hit(if w.is_ok() { "buffer filled" } else { "buffer not filled" });
                if g != w {
                    return bad(format!("gave {:?}, must give {:?}", g, w));
                }
            }
            Op::Take(kind) => {
                let w = if *kind == 0 { Ok(String::new()) } else { model_word(&mut m) };
                let g = match kind {
                    0 => p.take::<Epsilon>().map(|e| e.to_string()),
                    1 => p.take::<Word>().map(|w| w.0),
                    _ => p.take::<Box<Word>>().map(|w| w.0.clone()),
                }
                .map_err(|e| err(&e));
                if g != w {
                    return bad(format!("gave {:?}, must give {:?}", g, w));
                }
                st.hit("values taken");
            }
            Op::List(it, sep, stop, ss, first) => {
                // the model: items until the stop character, or the first malformed point
                let mut items: Vec<String> = vec![];
                let mut open_end = false;
                let wrong = loop {
                    match d.get(m.at) {
                        None => {
                            open_end = true;
                            break None;
                        }
                        Some(c) if c == stop => break None,
                        _ => (),
                    }
                    match model_item(&mut m, it) {
                        Err(e) => break Some(e),
                        Ok(x) => items.push(x),
                    }
                    match d.get(m.at) {
                        None => break Some(Err1::End(m.p())),
                        Some(c) if c == sep => {
                            m.at += 1;
                            match d.get(m.at) {
                                None => break Some(Err1::End(m.p())),
                                Some(c) if first.contains(c) => (),
                                Some(&c) => break Some(Err1::Branch(m.p(), c, first.to_vec())),
                            }
                        }
                        Some(c) if c == stop => (),
                        Some(&c) => break Some(Err1::Branch(m.p(), c, ss.to_vec())),
                    }
                };
                let mut got: Vec<String> = vec![];
                let mut gerr = None;
                let it2 = it.clone();
                let mut over = false;
                {
                    let mut iter = p.iter_strict(|q: &mut P| run_item(q, &it2), *sep, *stop, ss, first);
                    loop {
                        match iter.next() {
                            None => break,
                            Some(Ok(x)) => got.push(x),
                            Some(Err(e)) => {
                                gerr = Some(err(&e));
                                break;
                            }
                        }
                        if got.len() > d.len() + 2 {
                            over = true;
                            break;
                        }
                    }
                }
                st.hit(match (&wrong, open_end) {
                    (None, false) => "well-formed lists",
                    (None, true) => "lists cut before an item",
                    _ => "malformed lists",
                });
                st.add("list items", items.len() as u64);
                if over {
                    return bad("does not end".into());
                }
                let items_ok = match &wrong {
                    None => got == items,
                    Some(_) => got.len() + 1 >= items.len() && items.starts_with(&got),
                };
                let err_ok = gerr == wrong || (open_end && gerr == Some(Err1::End(m.p())));
                if !items_ok || !err_ok {
                    return bad(format!("yielded {:?} then {:?}, must yield {:?} then {:?}", got, gerr, items, wrong));
                }
            }
        }
        if lc(p.pos()) != m.p() {
            return bad(format!("left the stream at {:?}, must leave it at {:?}", lc(p.pos()), m.p()));
        }
        st.add("helper calls observed", 1);
    }
    let rest = p.left();
    if rest != d[m.at..] {
        return Err(format!("{:?} on {}: {} is left, must be {}", ops, show(d), show(&rest), show(&d[m.at..])));
    }
    Ok(())
}

struct Pool {
    strs: Vec<&'static str>,
    sets: Vec<&'static [char]>,
}

fn pool(seed: u64) -> Pool {
    let mut r = Rng::new(seed, 0xc14);
    let mut strs: Vec<&'static str> = vec!["", "a", "é", "aé", "éa", "日本語", "\r\n", "\n", "ab\u{1f600}c", "\u{1f600}\u{1f601}", "true", "null", "aab"];
    for k in 0..240 {
        // letters with case, inside and outside ASCII
        let letters = k >= 200;
        let n = if r.chance(1, 6) { r.range(7, 80) } else { r.range(0, 6) };
        let s: String = (0..n)
            .map(|_| if letters { char::from_u32(*r.pick(&[0x41u32, 0x61, 0xc0, 0x391, 0x410, 0x10400]) + r.below(26) as u32).unwrap() } else { any_char(&mut r) })
            .collect();
        strs.push(Box::leak(s.into_boxed_str()));
    }
    let mut sets: Vec<&'static [char]> = vec![&[], &['a'], &['a', 'b', 'c'], &['0', '1'], &['é', 'a'], &['\n', '\r', ' '], &['日', '\u{1f600}', 'a', '0']];
    for _ in 0..60 {
        let n = if r.chance(1, 4) { r.range(9, 140) } else { r.range(1, 8) };
        let s: Vec<char> = (0..n).map(|_| any_char(&mut r)).collect();
        sets.push(Box::leak(s.into_boxed_slice()));
    }
    Pool { strs, sets }
}

/// A character easily taken for another one: its other cases, its neighbours, what is left of it in
/// eight or sixteen bits, what it is composed of.
pub fn alike(c: char, r: &mut Rng) -> char {
    let n = c as u32;
    let v = [
        c.to_uppercase().next(),
        c.to_lowercase().next(),
        c.to_uppercase().next().and_then(|c| c.to_lowercase().next()),
        char::from_u32(n + 1),
        char::from_u32(n.wrapping_sub(1)),
        char::from_u32(n & 0xff),
        char::from_u32(n & 0xffff),
        char::from_u32(n & 0x7f),
        char::from_u32(n ^ 0x20),
        char::from_u32(n + 0x100),
        char::from_u32(n + 0x10000),
        char::from_u32(0xfee0 + n),
    ];
    for _ in 0..8 {
        if let Some(x) = *r.pick(&v) {
            if x != c {
                return x;
            }
        }
    }
    '\u{fffd}'
}

/// A number of repetitions: mostly few, at times many, now and then very many.
fn amount(r: &mut Rng, few: usize) -> usize {
    if r.chance(1, 12) {
        r.below(90)
    } else if r.chance(1, 400) {
        r.below(9000)
    } else {
        r.below(few)
    }
}

/// A plan of operations and a stream on which it mostly, not always, succeeds.
fn plan(r: &mut Rng, pl: &Pool) -> (Vec<char>, Vec<Op>) {
    let mut d: Vec<char> = vec![];
    let mut ops = vec![];
    let from = |r: &mut Rng, set: &[char]| if set.is_empty() { 'a' } else { *r.pick(set) };
    for _ in 0..r.range(1, 6) {
        let hurt = r.chance(1, 5);
        match r.below(9) {
            0 => {
                d.push(any_char(r));
                ops.push(Op::Next)
            }
            1 => ops.push(Op::Peek),
            2 | 3 => {
                let s = *r.pick(&pl.strs);
                let mut cs: Vec<char> = s.chars().collect();
                if hurt && !cs.is_empty() {
                    let i = r.below(cs.len());
                    if r.chance(1, 3) {
                        cs.truncate(i);
                    } else {
                        cs[i] = if r.chance(1, 2) { alike(cs[i], r) } else { any_char(r) };
                    }
                }
                d.extend(cs);
                ops.push(Op::Str(s));
            }
            4 => {
                let set = *r.pick(&pl.sets);
                for _ in 0..amount(r, 5) {
                    d.push(from(r, set));
                }
                ops.push(Op::Skip(set));
            }
            5 => {
                let set = *r.pick(&pl.sets);
                let n = amount(r, 6);
                let from_on = if r.chance(1, 2) { 0 } else { r.below(n + 1) };
                for i in 0..n {
                    let c = from(r, set);
                    let wrong = i >= from_on && r.chance(1, if from_on > 0 { 6 } else { 12 });
                    d.push(if wrong { any_char(r) } else if i >= from_on && r.chance(1, 24) { alike(c, r) } else { c });
                }
                ops.push(Op::Chars(set, n));
            }
            6 => {
                let kind = r.below(3) as u8;
                if kind > 0 {
                    d.push('<');
                    for _ in 0..r.below(4) {
                        d.push(*r.pick(DIG));
                    }
                    d.push(if hurt { any_char(r) } else { '>' });
                }
                ops.push(Op::Take(kind));
            }
            _ => {
                let it = match r.below(3) {
                    0 => Item::Str(*r.pick(&pl.strs)),
                    1 => Item::Chars(*r.pick(&pl.sets), if r.chance(1, 20) { r.below(40) } else { r.below(3) }),
                    _ => Item::Skip(*r.pick(&pl.sets)),
                };
                let firsts: Vec<char> = match &it {
                    Item::Str(s) => s.chars().take(1).collect(),
                    Item::Chars(s, _) | Item::Skip(s) => s.to_vec(),
                };
                let free = |r: &mut Rng, not: &[char]| loop {
                    let c = if r.chance(1, 2) { *r.pick(&[',', ';', ']', '}', '、', '\n']) } else { any_char(r) };
                    if !not.contains(&c) {
                        return c;
                    }
                };
                let sep = free(r, &firsts);
                let mut not = firsts.clone();
                not.push(sep);
                let stop = free(r, &not);
                let firsts: Vec<char> = if r.chance(1, 6) { firsts.into_iter().skip(1).collect() } else { firsts };
                let first: &'static [char] = Box::leak(firsts.into_boxed_slice());
                let ss: &'static [char] = Box::leak(vec![sep, stop].into_boxed_slice());
                let n = amount(r, 5).min(1200);
                let noise = if n > 20 { 3 * n } else { 15 };
                for i in 0..n {
                    match &it {
                        Item::Str(s) => d.extend(s.chars()),
                        Item::Chars(s, n) => {
                            for _ in 0..*n {
                                d.push(from(r, s))
                            }
                        }
                        Item::Skip(s) => {
                            for _ in 0..r.range(1, 3) {
                                d.push(from(r, s))
                            }
                        }
                    }
                    if i + 1 < n || r.chance(1, 10) {
                        d.push(sep);
                    }
                    if r.chance(1, noise) {
                        d.push(any_char(r));
                    }
                }
                if !r.chance(1, 10) {
                    d.push(stop);
                }
                ops.push(Op::List(it, sep, stop, ss, first));
            }
        }
    }
    if r.chance(1, 6) && !d.is_empty() {
        let n = r.below(d.len());
        d.truncate(n);
    }
    if r.chance(1, 4) {
        d.push(any_char(r));
    }
    (d, ops)
}

pub fn c14(run: Run) -> ! {
    let pl = pool(run.seed);
    run.par("plans of helper calls", run.scale(60_000, 30), |i, r, st| {
        let (d, ops) = plan(r, &pl);
        let key = format!("{} {:?}", show(&d), ops);
        note(&key);
        st.case(&key, !ops.is_empty());
        let res = if i % 2 == 0 {
            guard(|| drive(IterWrapper::new(d.clone().into_iter()), &d, &ops, st))
        } else {
            guard(|| drive(Tape { data: Rc::new(d.clone()), at: 0 }, &d, &ops, st))
        };
        match res {
            Ok(Ok(())) => (),
            Ok(Err(e)) => st.violation(e, format!("stream {}\nplan {:?}", show(&d), ops)),
            Err(e) => st.violation(format!("panic: {}", e), format!("stream {}\nplan {:?}", show(&d), ops)),
        }
    });
    run.par("whole-input parsing", run.scale(10_000, 30), |_, r, st| {
        let n = r.below(4);
        let mut s: String = format!("<{}>", (0..n).map(|_| *r.pick(DIG)).collect::<String>());
        match r.below(4) {
            0 => {
                let cs: Vec<char> = s.chars().collect();
                s = cs[..r.below(cs.len() + 1)].iter().collect();
            }
            1 => s.push(any_char(r)),
            2 => s.insert(0, any_char(r)),
            _ => (),
        }
        let d: Vec<char> = s.chars().collect();
        note(&s);
        st.case(&s, true);
        let mut m = Model { d: &d, at: 0 };
        let took = model_word(&mut m);
        let want_take = took.clone();
        let want_parse = match took {
            Err(e) => Err(Some(e)),
            Ok(w) if m.at == d.len() => Ok(w),
            Ok(_) => Err(None),
        };
        let at = m.p();
        let res = guard(|| {
            let fold = |r: Result<Word, ParseError>| match r {
                Ok(w) => Ok(w.0),
                Err(ParseError::TakeError(e)) => Err(Some(err(&e))),
                Err(ParseError::InputContinues(p)) => {
                    if lc(p) == at {
                        Err(None)
                    } else {
                        Err(Some(Err1::End(lc(p))))
                    }
                }
            };
            let a = fold(Word::parse_str(&s));
            let b = fold(IterWrapper::new(s.chars()).parse::<Word>());
            let c = fold(IterWrapper::new(s.chars()).parse::<Box<Word>>().map(|b| *b));
            let t = Word::take_str(&s).map(|w| w.0).map_err(|e| err(&e));
            let e0 = Epsilon::parse_str(&s).is_ok();
            (a, b, c, t, e0)
        });
        match res {
            Err(e) => st.violation(format!("panic: {} on {:?}", e, s), String::new()),
            Ok((a, b, c, t, e0)) => {
                if a != want_parse || b != want_parse || c != want_parse || t != want_take || e0 != s.is_empty() {
                    st.violation(
                        format!("parsing {:?} gave {:?} / {:?} / {:?} / {:?} (empty: {}), must be {:?} / {:?}", s, a, b, c, t, e0, want_parse, want_take),
                        String::new(),
                    )
                }
            }
        }
    });
    run.finish(
        "each helper call on the real runtime (through the stream wrapper and through a second Parser implementation) is compared with a model over the character array: result, error value, position afterwards, and what is left in the stream; a case is one plan of calls on one stream",
        &["when a list is malformed after an item, whether that last item is yielded before the error is left open"],
    )
}

// ---------------------------------------------------------------------------------------------- C26, run time

/// Rust character and string literals in a message, decoded.
fn literals(s: &str) -> Vec<(char, String)> {
    let cs: Vec<char> = s.chars().collect();
    let mut out = vec![];
    let mut i = 0;
    while i < cs.len() {
        if cs[i] == '\'' || cs[i] == '"' {
            let q = cs[i];
            let mut t = String::new();
            let mut j = i + 1;
            loop {
                match cs.get(j) {
                    None => return out,
                    // the character ' may stand unescaped in a character literal of itself
                    Some(&c) if c == q && !(q == '\'' && t.is_empty() && cs.get(j + 1) == Some(&'\'')) => break,
                    Some('\\') => {
                        j += 1;
                        match cs.get(j) {
                            Some('n') => t.push('\n'),
                            Some('r') => t.push('\r'),
                            Some('t') => t.push('\t'),
                            Some('0') => t.push('\0'),
                            Some('u') => {
                                let mut v = 0;
                                j += 2;
                                while let Some(d) = cs.get(j).and_then(|c| c.to_digit(16)) {
                                    v = v * 16 + d;
                                    j += 1;
                                }
                                t.push(char::from_u32(v).unwrap_or('\u{fffd}'));
                            }
                            Some(c) => t.push(*c),
                            None => return out,
                        }
                    }
                    Some(&c) => t.push(c),
                }
                j += 1;
            }
            out.push((q, t));
            i = j;
        }
        i += 1;
    }
    out
}

pub fn c26_runtime(run: &Run) {
    let pl = pool(run.seed ^ 7);
    run.par("runtime messages", run.scale(8000, 50), |_, r, st| {
        let big = |r: &mut Rng| match r.below(8) {
            0 => (r.u() >> r.below(63)) as usize,
            1 => *r.pick(&[0, 1, 9, 10, 99, 100, 127, 128, 255, 256, 999, 1000, 32_768, 65_535, 65_536, 4_294_967_295, 4_294_967_296, usize::MAX]),
            _ => r.below(2000),
        };
        let p = LineCol { line: big(r).max(1), col: big(r) };
        let (e, want): (ParseError, Vec<(char, String)>) = match r.below(4) {
            0 => {
                let set = *r.pick(&pl.sets);
                let c = any_char(r);
                let mut w = vec![('\'', c.to_string())];
                w.extend(set.iter().map(|c| ('\'', c.to_string())));
                (TakeError::BadBranch(p, c, set).into(), w)
            }
            1 => {
                let s = *r.pick(&pl.strs);
                let g: String = (0..r.range(1, 4)).map(|_| any_char(r)).collect();
                (TakeError::BadString(p, g.clone(), s).into(), vec![('"', g), ('"', s.to_string())])
            }
            2 => (TakeError::EndOfStream(p).into(), vec![]),
            _ => (ParseError::InputContinues(p), vec![]),
        };
        let res = guard(|| (e.to_string(), if let ParseError::TakeError(t) = &e { Some(t.to_string()) } else { None }));
        let (msg, inner) = match res {
            Ok(m) => m,
            Err(x) => {
                st.violation(format!("printing an error panics: {}", x), format!("{:?}", e));
                return;
            }
        };
        st.case(&msg, true);
        st.hit("runtime messages checked");
        let head = format!("{}:{}:", p.line, p.col);
        let body = match msg.strip_prefix(&head) {
            Some(b) => b,
            None => {
                st.violation(format!("message {:?} does not start with {}", msg, head), format!("{:?}", e));
                return;
            }
        };
        if inner.map_or(false, |i| i != msg) {
            st.violation(format!("the two error types print {:?} differently", msg), format!("{:?}", e));
        }
        let got: Vec<String> = literals(body).into_iter().map(|x| x.1).collect();
        let want: Vec<String> = want.into_iter().map(|x| x.1).collect();
        // the offending text first, then what was expected
        if got != want {
            st.violation(format!("message {:?} shows {:?}, must show {:?}", msg, got, want), format!("{:?}", e));
        }
        let lower = body.to_lowercase();
        if want.len() < 2 && !lower.contains("end of input") {
            st.violation(format!("message {:?} does not speak of the end of input", msg), format!("{:?}", e));
        }
    });
}
