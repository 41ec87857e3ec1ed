use crate::at::Fault;
use chewed::{IterWrapper, Parser};
use chomp_bench::json::Value;
use harn::{guard, note, Run, Stats};
use std::collections::BTreeMap;
use vref::rng::Rng;

#[derive(Debug, Clone)]
pub enum Ref {
    Null,
    Bool(bool),
    Num(f64),
    Str(String),
    Arr(Vec<Ref>),
    Obj(BTreeMap<String, Ref>),
}

/// Where two values differ.
fn differ(want: &Ref, got: &Value, exact_zero: bool) -> Option<String> {
    match (want, got) {
        (Ref::Null, Value::Null) => None,
        (Ref::Bool(a), Value::Bool(b)) if a == b => None,
        (Ref::Num(a), Value::Number(b)) if a.to_bits() == b.to_bits() || (!exact_zero && *a == 0.0 && *b == 0.0) => None,
        (Ref::Str(a), Value::String(b)) if a == b => None,
        (Ref::Arr(a), Value::Array(b)) => {
            if a.len() != b.len() {
                return Some(format!("{} elements instead of {}", b.len(), a.len()));
            }
            a.iter().zip(b).enumerate().find_map(|(i, (a, b))| differ(a, b, exact_zero).map(|d| format!("[{}]: {}", i, d)))
        }
        (Ref::Obj(a), Value::Object(b)) => {
            if a.len() != b.len() {
                return Some(format!("{} members instead of {}", b.len(), a.len()));
            }
            a.iter().find_map(|(k, a)| match b.get(k) {
                None => Some(format!("no member {:?}", k)),
                Some(b) => differ(a, b, exact_zero).map(|d| format!(".{:?}: {}", k, d)),
            })
        }
        _ => Some(format!("{} instead of {}", clip(&format!("{:?}", got)), clip(&format!("{:?}", want)))),
    }
}
fn clip(s: &str) -> String {
    s.chars().take(200).collect()
}

// ---- RFC 8259, strictly ----

struct P<'a> {
    s: &'a [char],
    i: usize,
}
impl<'a> P<'a> {
    fn ws(&mut self) {
        while matches!(self.s.get(self.i), Some(' ' | '\t' | '\n' | '\r')) {
            self.i += 1
        }
    }
    fn eat(&mut self, c: char) -> bool {
        let y = self.s.get(self.i) == Some(&c);
        self.i += y as usize;
        y
    }
    fn word(&mut self, w: &str) -> Option<()> {
        w.chars().all(|c| self.eat(c)).then_some(())
    }
    fn digits(&mut self) -> Option<()> {
        let a = self.i;
        while matches!(self.s.get(self.i), Some('0'..='9')) {
            self.i += 1
        }
        (self.i > a).then_some(())
    }
    fn number(&mut self) -> Option<f64> {
        let a = self.i;
        self.eat('-');
        if !self.eat('0') {
            self.digits()?;
        }
        if self.eat('.') {
            self.digits()?;
        }
        if self.eat('e') || self.eat('E') {
            let _ = self.eat('+') || self.eat('-');
            self.digits()?;
        }
        let t: String = self.s[a..self.i].iter().collect();
        t.parse().ok()
    }
    fn hex(&mut self) -> Option<u32> {
        let mut v = 0;
        for _ in 0..4 {
            v = v * 16 + self.s.get(self.i)?.to_digit(16)?;
            self.i += 1;
        }
        Some(v)
    }
    fn string(&mut self) -> Option<String> {
        let mut o = String::new();
        if !self.eat('"') {
            return None;
        }
        loop {
            let c = *self.s.get(self.i)?;
            self.i += 1;
            match c {
                '"' => return Some(o),
                '\\' => {
                    let e = *self.s.get(self.i)?;
                    self.i += 1;
                    o.push(match e {
                        '"' | '\\' | '/' => e,
                        'b' => '\u{8}',
                        'f' => '\u{c}',
                        'n' => '\n',
                        'r' => '\r',
                        't' => '\t',
                        'u' => {
                            let h = self.hex()?;
                            if (0xd800..0xdc00).contains(&h) {
                                self.word("\\u")?;
                                let l = self.hex()?;
                                if !(0xdc00..0xe000).contains(&l) {
                                    return None;
                                }
                                char::from_u32(0x10000 + ((h - 0xd800) << 10) + (l - 0xdc00))?
                            } else {
                                char::from_u32(h)?
                            }
                        }
                        _ => {
                            self.i -= 1;
                            return None;
                        }
                    })
                }
                c if (c as u32) < 0x20 => {
                    self.i -= 1;
                    return None;
                }
                c => o.push(c),
            }
        }
    }
    fn value(&mut self) -> Option<Ref> {
        self.ws();
        let v = match *self.s.get(self.i)? {
            'n' => self.word("null").map(|_| Ref::Null)?,
            't' => self.word("true").map(|_| Ref::Bool(true))?,
            'f' => self.word("false").map(|_| Ref::Bool(false))?,
            '"' => Ref::Str(self.string()?),
            '[' => {
                self.i += 1;
                let mut v = vec![];
                self.ws();
                if !self.eat(']') {
                    loop {
                        v.push(self.value()?);
                        if self.eat(']') {
                            break;
                        }
                        if !self.eat(',') {
                            return None;
                        }
                    }
                }
                Ref::Arr(v)
            }
            '{' => {
                self.i += 1;
                let mut m = BTreeMap::new();
                self.ws();
                if !self.eat('}') {
                    loop {
                        self.ws();
                        let k = self.string()?;
                        self.ws();
                        if !self.eat(':') {
                            return None;
                        }
                        let v = self.value()?;
                        m.insert(k, v);
                        if self.eat('}') {
                            break;
                        }
                        if !self.eat(',') {
                            return None;
                        }
                    }
                }
                Ref::Obj(m)
            }
            _ => Ref::Num(self.number()?),
        };
        self.ws();
        Some(v)
    }
}
/// Where and how the text fails to be a document.
pub fn fault(t: &str) -> Option<Fault> {
    let s: Vec<char> = t.chars().collect();
    let mut p = P { s: &s, i: 0 };
    match (p.value(), p.i == s.len()) {
        (Some(_), true) => None,
        (Some(_), false) => Some(Fault::Continues(p.i)),
        (None, true) => Some(Fault::End),
        (None, false) => Some(Fault::Character(p.i)),
    }
}
pub fn reference(t: &str) -> Option<Ref> {
    let s: Vec<char> = t.chars().collect();
    let mut p = P { s: &s, i: 0 };
    let v = p.value()?;
    (p.i == s.len()).then_some(v)
}

type Answer = Result<Result<Value, String>, String>;
fn nibble(t: &str) -> Answer {
    guard(|| IterWrapper::new(t.chars()).parse::<chomp_bench::json::nibble::Ast>().map(Value::from).map_err(|e| e.to_string()))
}
fn hand(t: &str) -> Answer {
    guard(|| IterWrapper::new(t.chars()).parse::<Value>().map_err(|e| e.to_string()))
}
fn lalr(t: &str) -> Answer {
    thread_local!(static P: chomp_bench::json::lalr::ValueParser = chomp_bench::json::lalr::ValueParser::new());
    guard(|| P.with(|p| p.parse(t).map_err(|e| e.to_string())))
}

/// The character set of the generated grammar.
pub fn shared(t: &str) -> bool {
    t.chars().all(|c| matches!(c, ' '..='~' | '\t' | '\n' | '\r'))
}

// ---- documents with their meaning ----

struct G<'a> {
    r: &'a mut Rng,
    out: String,
    ws: usize,
    budget: usize,
    /// any character in strings, not only those of the generated grammar
    wide: bool,
    seen: BTreeMap<&'static str, u64>,
}
impl<'a> G<'a> {
    fn hit(&mut self, k: &'static str) {
        *self.seen.entry(k).or_default() += 1
    }
    fn ws(&mut self) {
        while self.ws > 0 && self.r.chance(self.ws, self.ws + 3) {
            let c = *self.r.pick(&[' ', ' ', '\t', '\n', '\r']);
            self.out.push(c)
        }
    }
    fn u(&mut self, v: u32) {
        self.out.push_str("\\u");
        let h = format!("{:04x}", v);
        for c in h.chars() {
            let c = if self.r.chance(1, 2) { c.to_ascii_uppercase() } else { c };
            self.out.push(c);
        }
    }
    fn escaped(&mut self, c: char) {
        let mut b = [0u16; 2];
        let n = c.encode_utf16(&mut b).len();
        for i in 0..n {
            self.u(b[i] as u32);
        }
        self.hit(if n == 2 { "surrogate pairs" } else { "unicode escapes" });
    }
    fn character(&mut self) -> char {
        match self.r.below(8) {
            0 => {
                let (e, c) = *self.r.pick(&[('"', '"'), ('\\', '\\'), ('/', '/'), ('b', '\u{8}'), ('f', '\u{c}'), ('n', '\n'), ('r', '\r'), ('t', '\t')]);
                self.out.push('\\');
                self.out.push(e);
                self.hit("short escapes");
                c
            }
            1 => {
                let c = loop {
                    let c = match self.r.below(6) {
                        0 => self.r.below(0x80),
                        1 => self.r.below(0x10000),
                        2 => 0x10000 + self.r.below(0x100000),
                        3 => *self.r.pick(&[0, 0xd7ff, 0xe000, 0xffff, 0x10000, 0x103ff, 0x10400, 0x10ffff, 0xfffd, 0x22, 0x5c]),
                        4 => 0x10000 + (self.r.below(0x400) << 10) + *self.r.pick(&[0, 1, 0x3ff]),
                        _ => self.r.below(0x20),
                    };
                    if let Some(c) = char::from_u32(c as u32) {
                        break c;
                    }
                };
                self.escaped(c);
                c
            }
            _ if self.wide && self.r.chance(1, 3) => {
                let c = loop {
                    let c = any_char(self.r);
                    if c > '~' {
                        break c;
                    }
                };
                self.out.push(c);
                c
            }
            _ => loop {
                let c = (b' ' + self.r.below(95) as u8) as char;
                if c != '"' && c != '\\' {
                    self.out.push(c);
                    return c;
                }
            },
        }
    }
    fn string(&mut self) -> String {
        let mut s = String::new();
        self.out.push('"');
        let n = if self.r.chance(1, 500) { self.r.range(50, 400) } else { *self.r.pick(&[0, 1, 1, 2, 3, 8, 20]) };
        for _ in 0..n {
            let c = self.character();
            s.push(c);
        }
        self.out.push('"');
        s
    }
    fn digits(&mut self, n: usize) {
        for _ in 0..n {
            let d = self.r.below(10) as u8;
            self.out.push((b'0' + d) as char);
        }
    }
    fn number(&mut self) -> f64 {
        let a = self.out.len();
        if self.r.chance(1, 3) {
            self.out.push('-')
        }
        if self.r.chance(1, 3) {
            self.out.push('0')
        } else {
            let d = 1 + self.r.below(9) as u8;
            self.out.push((b'0' + d) as char);
            let n = *self.r.pick(&[0, 0, 1, 2, 5, 16, 17, 25]);
            self.digits(n);
        }
        if self.r.chance(1, 3) {
            self.out.push('.');
            let n = *self.r.pick(&[1, 1, 2, 3, 17, 30]);
            self.digits(n);
            self.hit("fractions");
        }
        if self.r.chance(1, 3) {
            let c = *self.r.pick(&["e", "E", "e+", "E+", "e-", "E-"]);
            self.out.push_str(c);
            let e = *self.r.pick(&[0, 1, 2, 5, 10, 22, 23, 100, 280]);
            let z = *self.r.pick(&["", "", "0", "00"]);
            self.out.push_str(z);
            self.out.push_str(&e.to_string());
            self.hit("exponents");
        }
        self.out[a..].parse().unwrap()
    }
    fn key(&mut self, m: &BTreeMap<String, Ref>) -> String {
        if !m.is_empty() && self.r.chance(1, 5) {
            // an earlier key once more, spelt another way
            let k = m.keys().nth(self.r.below(m.len())).unwrap().clone();
            self.out.push('"');
            for c in k.chars() {
                if (' '..='~').contains(&c) && c != '"' && c != '\\' && self.r.chance(1, 2) {
                    self.out.push(c)
                } else {
                    self.escaped(c)
                }
            }
            self.out.push('"');
            self.hit("repeated keys");
            k
        } else {
            self.string()
        }
    }
    fn value(&mut self, depth: usize) -> Ref {
        self.budget = self.budget.saturating_sub(1);
        let n = if self.budget == 0 { 0 } else { *self.r.pick(&[0, 1, 1, 2, 3, 5]) };
        match self.r.below(if depth > 0 { 11 } else { 6 }) {
            0 => {
                self.out.push_str("null");
                Ref::Null
            }
            1 => {
                let b = self.r.chance(1, 2);
                self.out.push_str(if b { "true" } else { "false" });
                Ref::Bool(b)
            }
            2 | 3 => Ref::Num(self.number()),
            4 | 5 => Ref::Str(self.string()),
            6 | 7 | 8 => {
                self.out.push('[');
                let mut v = vec![];
                self.ws();
                for i in 0..n {
                    if i > 0 {
                        self.out.push(',');
                        self.ws();
                    }
                    v.push(self.value(depth - 1));
                    self.ws();
                }
                self.out.push(']');
                if n == 0 {
                    self.hit(if self.out.ends_with("[]") { "empty arrays" } else { "empty arrays with space inside" });
                }
                Ref::Arr(v)
            }
            _ => {
                self.out.push('{');
                let mut m = BTreeMap::new();
                self.ws();
                for i in 0..n {
                    if i > 0 {
                        self.out.push(',');
                        self.ws();
                    }
                    let k = self.key(&m);
                    self.ws();
                    self.out.push(':');
                    self.ws();
                    let v = self.value(depth - 1);
                    m.insert(k, v);
                    self.ws();
                }
                self.out.push('}');
                if n == 0 {
                    self.hit(if self.out.ends_with("{}") { "empty objects" } else { "empty objects with space inside" });
                }
                Ref::Obj(m)
            }
        }
    }
}

fn judge(text: &str, want: &Ref, exact_zero: bool, who: &[(&str, fn(&str) -> Answer)], st: &mut Stats) {
    note(text);
    for (w, f) in who {
        let bad = match f(text) {
            Err(p) => Some(format!("panics ({})", p)),
            Ok(Err(e)) => Some(format!("reports {}", e)),
            Ok(Ok(v)) => differ(want, &v, exact_zero).map(|d| format!("returns another value, {}", d)),
        };
        if let Some(b) = bad {
            st.violation(format!("the {} parser {} on a document", w, clip(&b)), format!("document: {:?}\nmeaning: {:?}", text, want));
        }
    }
}
const ALL: [(&str, fn(&str) -> Answer); 3] = [("nibble", nibble), ("hand-written", hand), ("LALRPOP", lalr)];

/// One document around a given piece.
fn grown(r: &mut Rng, depth: usize, st: &mut Stats) -> (String, Ref) {
    grown_in(r, depth, false, st)
}
pub fn grown_in(r: &mut Rng, depth: usize, wide: bool, st: &mut Stats) -> (String, Ref) {
    let ws = *r.pick(&[0, 1, 1, 4]);
    let budget = *r.pick(&[3, 10, 40]);
    let mut g = G { r, out: String::new(), ws, budget, wide, seen: BTreeMap::new() };
    g.ws();
    let v = g.value(depth);
    g.ws();
    for (k, n) in &g.seen {
        st.add(k, *n);
    }
    (g.out, v)
}

pub fn c23(run: Run) -> ! {
    run.par("documents", run.scale(30_000, 40), |_, r, st| {
        let d = r.below(6);
        let (t, v) = grown(r, d, st);
        match reference(&t) {
            Some(v2) if format!("{:?}", v2) == format!("{:?}", v) => {}
            o => panic!("the reference parser disagrees with the generator on {:?}: {:?}", t, o),
        }
        st.case(&t, t.len() > 4);
        judge(&t, &v, true, &ALL, st);
    });
    run.par("documents with other characters", run.scale(8_000, 40), |_, r, st| {
        let d = r.below(5);
        let (t, v) = grown_in(r, d, true, st);
        match reference(&t) {
            Some(v2) if format!("{:?}", v2) == format!("{:?}", v) => {}
            o => panic!("the reference parser disagrees with the generator on {:?}: {:?}", t, o),
        }
        st.case(&t, t.len() > 4);
        judge(&t, &v, true, if shared(&t) { &ALL } else { &ALL[1..] }, st);
    });
    // every code unit by itself, every pairing of the ends of the surrogate ranges
    run.par("all four-digit escapes", 64, |i, r, st| {
        for u in (i * 0x400..(i + 1) * 0x400).filter(|u| !(0xd800..0xe000).contains(u)) {
            let (h, w) = if r.chance(1, 2) { (format!("{:04x}", u), 'x') } else { (format!("{:04X}", u), 'X') };
            let t = format!("\"{}\\u{}{}\"", w, h, w);
            let c = char::from_u32(u as u32).unwrap();
            st.case(&t, true);
            judge(&t, &Ref::Str(format!("{}{}{}", w, c, w)), true, &ALL, st);
        }
    });
    run.par("surrogate pairs", 64, |i, r, st| {
        for k in 0..if run.thorough { 1024 } else { 32 } {
            let hi = 0xd800 + i * 16 + k % 16;
            let lo = 0xdc00 + if k < 32 { [0, 0x3ff][k / 16] } else { r.below(0x400) };
            let t = format!("\"\\u{:04x}\\u{:04X}\"", hi, lo);
            let c = char::from_u32((0x10000 + ((hi - 0xd800) << 10) + (lo - 0xdc00)) as u32).unwrap();
            st.case(&t, true);
            judge(&t, &Ref::Str(c.to_string()), true, &ALL, st);
        }
    });
    run.par("every printable character raw", 95, |i, _, st| {
        let c = (b' ' + i as u8) as char;
        if c != '"' && c != '\\' {
            for t in [format!("\"{}\"", c), format!("{{\"{}{}\":\"a{}\"}}", c, c, c)] {
                st.case(&t, true);
                let v = reference(&t).unwrap();
                judge(&t, &v, true, &ALL, st);
            }
        }
    });
    run.par("long and deep documents", run.scale(24, 10), |i, r, st| {
        let n = [50, 300, 1500][i % 3];
        let (t, v) = match i % 2 {
            0 => {
                let (mut t, mut v) = grown(r, 0, st);
                for _ in 0..n {
                    if r.chance(1, 2) {
                        t = format!("[{}]", t);
                        v = Ref::Arr(vec![v]);
                    } else {
                        t = format!("{{\"k\": {}}}", t);
                        v = Ref::Obj(std::iter::once(("k".to_string(), v)).collect());
                    }
                }
                (t, v)
            }
            _ => {
                let (ts, vs): (Vec<String>, Vec<Ref>) = (0..n).map(|_| grown(r, 1, st)).unzip();
                (format!("[{}]", ts.join(",")), Ref::Arr(vs))
            }
        };
        st.case(&t, true);
        judge(&t, &v, true, &ALL, st);
    });
    run.par("long strings and rows", run.scale(24, 10), |i, r, st| {
        let n = [300, 5_000, 70_000][i / 4 % 3] + r.below(200);
        let mut g = G { r, out: String::new(), ws: 0, budget: 3, wide: false, seen: BTreeMap::new() };
        let v = match i % 4 {
            0 => {
                g.out.push('"');
                let s: String = (0..n).map(|_| g.character()).collect();
                g.out.push('"');
                Ref::Str(s)
            }
            1 => {
                g.out.push('{');
                let mut v = BTreeMap::new();
                for k in 0..n.min(6000) {
                    if k > 0 {
                        g.out.push(',');
                    }
                    g.out.push_str(&format!("\"k{}\":{}", k, k % 7));
                    v.insert(format!("k{}", k), Ref::Num((k % 7) as f64));
                }
                g.out.push('}');
                Ref::Obj(v)
            }
            2 => {
                g.out.push('[');
                let mut v = vec![];
                for k in 0..n {
                    if k > 0 {
                        g.out.push(',');
                    }
                    g.out.push_str(&k.to_string());
                    v.push(Ref::Num(k as f64));
                }
                g.out.push(']');
                Ref::Arr(v)
            }
            _ => {
                // white space in bulk
                for _ in 0..n {
                    let c = *g.r.pick(&[' ', '\t', '\n', '\r']);
                    g.out.push(c)
                }
                g.out.push('0');
                for _ in 0..n {
                    g.out.push(' ')
                }
                Ref::Num(0.0)
            }
        };
        let t = g.out;
        st.case(&t, true);
        judge(&t, &v, true, &ALL, st);
    });
    let dir = std::path::Path::new("/repo/chomp-bench/benches/json/data");
    let files: Vec<_> = std::fs::read_dir(dir).map(|d| d.filter_map(|e| e.ok()).map(|e| e.path()).collect()).unwrap_or_default();
    run.par("bundled inputs", files.len(), |i, _, st| {
        if let Ok(t) = std::fs::read_to_string(&files[i]) {
            if let (true, Some(v)) = (shared(&t), reference(&t)) {
                st.hit("bundled inputs");
                judge(&t, &v, true, &ALL, st);
            }
        }
    });
    run.finish(
        "documents grown together with their meaning (all escapes, every four-digit escape, surrogate pairs, repeated keys in other spellings, empty containers with and without space, long and deep ones) given to the three parsers; each value is compared member by member and numbers bit by bit; non-trivial: longer than four characters",
        &["documents are over printable ASCII and the four white space characters, the set the generated grammar covers", "escaped lone surrogates and numbers beyond the range of doubles are outside the claim"],
    )
}

fn real(v: &Ref) -> Value {
    match v {
        Ref::Null => Value::Null,
        Ref::Bool(b) => Value::Bool(*b),
        Ref::Num(n) => Value::Number(*n),
        Ref::Str(s) => Value::String(s.clone()),
        Ref::Arr(a) => Value::Array(a.iter().map(real).collect()),
        Ref::Obj(o) => Value::Object(o.iter().map(|(k, v)| (k.clone(), real(v))).collect()),
    }
}
fn any_char(r: &mut Rng) -> char {
    loop {
        let c = match r.below(10) {
            0 | 1 => r.below(0x20),
            2 | 3 | 4 => 0x20 + r.below(0x60),
            5 => *r.pick(&[0x22, 0x5c, 0x2f, 0x7f, 0x85, 0xa0, 0x2028, 0xfeff, 0xffff, 0x10000, 0x10ffff, 0xd7ff, 0xe000]),
            6 => 0x80 + r.below(0x780),
            7 => r.below(0x10000),
            8 => 0x10000 + r.below(0x100000),
            _ => *r.pick(&[0x22, 0x5c, 0x75, 0x6e]),
        };
        if let Some(c) = char::from_u32(c as u32) {
            return c;
        }
    }
}
fn any_string(r: &mut Rng, plain: bool) -> String {
    (0..*r.pick(&[0, 1, 1, 2, 5, 15]))
        .map(|_| loop {
            let c = any_char(r);
            if !plain || (' '..='~').contains(&c) {
                return c;
            }
        })
        .collect()
}
fn any_number(r: &mut Rng) -> f64 {
    loop {
        let n = match r.below(8) {
            0 => r.below(100) as f64,
            1 => -(r.below(1000) as f64) / 8.0,
            2 => *r.pick(&[0.0, -0.0, f64::MAX, f64::MIN, f64::MIN_POSITIVE, 5e-324, f64::EPSILON, 0.1, 1e15, 1e16, 1e17, 1e21, 1e-7, 9007199254740993.0]),
            3 => r.u() as f64,
            4 => (r.u() as i64) as f64,
            _ => f64::from_bits(r.u()),
        };
        if n.is_finite() {
            return n;
        }
    }
}
fn any_value(r: &mut Rng, depth: usize, plain: bool) -> Ref {
    match r.below(if depth > 0 { 9 } else { 5 }) {
        0 => Ref::Null,
        1 => Ref::Bool(r.chance(1, 2)),
        2 => Ref::Num(any_number(r)),
        3 | 4 => Ref::Str(any_string(r, plain)),
        5 | 6 => Ref::Arr((0..r.below(5)).map(|_| any_value(r, depth - 1, plain)).collect()),
        _ => Ref::Obj((0..r.below(5)).map(|_| (any_string(r, plain), any_value(r, depth - 1, plain))).collect()),
    }
}

fn show(v: &Ref, st: &mut Stats) {
    let d = format!("{:?}", v);
    note(&d);
    st.case(&d, d.len() > 6);
    let val = real(v);
    let t = match guard(|| val.to_string()) {
        Ok(t) => t,
        Err(p) => return st.violation(format!("displaying a value panics: {}", p), format!("value: {}", d)),
    };
    let back = match reference(&t) {
        None => return st.violation("a displayed value is not a JSON document", format!("value: {}\nshown: {:?}", d, t)),
        Some(b) => b,
    };
    if let Some(x) = differ(&back, &val, false) {
        return st.violation(format!("a displayed value denotes another one: {}", clip(&x)), format!("value: {}\nshown: {:?}", d, t));
    }
    if shared(&t) {
        st.hit("read back by all three parsers");
        judge(&t, v, false, &ALL, st);
    } else {
        st.hit("read back by the parsers for all of Unicode");
        judge(&t, v, false, &ALL[1..], st);
    }
}

pub fn c24(run: Run) -> ! {
    run.par("values", run.scale(40_000, 40), |_, r, st| {
        let plain = r.chance(1, 3);
        let depth = r.below(5);
        let v = any_value(r, depth, plain);
        show(&v, st);
    });
    run.par("large values", run.scale(12, 10), |i, r, st| {
        let n = [300, 5_000, 40_000][i / 3 % 3] + r.below(200);
        let v = match i % 3 {
            0 => Ref::Str((0..n).map(|_| any_char(r)).collect()),
            1 => Ref::Arr((0..n).map(|_| any_value(r, 0, true)).collect()),
            _ => Ref::Obj((0..n.min(6000)).map(|k| (format!("{}{}", any_string(r, true), k), any_value(r, 0, true))).collect()),
        };
        show(&v, st);
    });
    run.par("deep values", run.scale(8, 10), |_, r, st| {
        let mut v = any_value(r, 0, true);
        for _ in 0..r.range(100, 600) {
            v = if r.chance(1, 2) { Ref::Arr(vec![v]) } else { Ref::Obj(std::iter::once(("k".to_string(), v)).collect()) };
        }
        show(&v, st);
    });
    run.par("every character of the basic plane, samples beyond", 256, |i, r, st| {
        for k in 0..256 {
            if let Some(c) = char::from_u32((i * 256 + k) as u32) {
                let v = if r.chance(1, 2) {
                    Ref::Str(format!("{}a", c))
                } else {
                    Ref::Obj(std::iter::once((format!("k{}", c), Ref::Null)).collect())
                };
                show(&v, st);
            }
        }
        for _ in 0..16 {
            let c = char::from_u32((0x10000 + r.below(0x100000)) as u32).unwrap();
            show(&Ref::Str(c.to_string()), st);
        }
    });
    run.par("numbers", run.scale(20_000, 40), |_, r, st| {
        let n = any_number(r);
        show(&Ref::Num(n), st);
    });
    run.finish(
        "values over all of Unicode and all finite doubles, every character of the basic plane in a string or a key, are displayed, read by a strict reader of RFC 8259 and by the repository's parsers, and compared with the original; non-trivial: more than a bare literal",
        &["zero and negative zero are the same number"],
    )
}

// ---- texts that may not be documents ----

/// Half of a surrogate pair by itself: RFC 8259's grammar has it, but it denotes no character.
pub fn unpaired(t: &str) -> bool {
    let c: Vec<char> = t.chars().collect();
    let half = |i: usize| -> Option<u32> {
        if c.get(i) != Some(&'\\') || c.get(i + 1) != Some(&'u') {
            return None;
        }
        let v = (2..6).try_fold(0, |v, k| Some(v * 16 + c.get(i + k)?.to_digit(16)?))?;
        (0xd800..0xe000).contains(&v).then_some(v)
    };
    let mut i = 0;
    while i < c.len() {
        match half(i) {
            None => i += if c[i] == '\\' { 2 } else { 1 },
            Some(h) => match half(i + 6) {
                Some(l) if h < 0xdc00 && l >= 0xdc00 => i += 12,
                _ => return true,
            },
        }
    }
    false
}

/// Each parser returns a value exactly when the text is a document, and never panics.
/// White space and what is taken for it, control characters, the edges of encodings.
pub const OTHER: [char; 40] = [
    '\t', '\n', '\r', '\u{b}', '\u{c}', '\0', '\u{1}', '\u{8}', '\u{e}', '\u{1b}', '\u{1c}', '\u{1d}', '\u{1e}', '\u{1f}', '\u{7f}', '\u{80}', '\u{85}', '\u{9f}', '\u{a0}',
    '\u{ad}', 'é', 'İ', '\u{300}', '٣', '\u{2000}', '\u{2009}', '\u{200b}', '\u{200d}', '\u{200e}', '\u{2028}', '\u{2029}', '\u{202f}', '−', '\u{3000}', '０', '“', '\u{feff}', '\u{fffd}', '\u{ffff}',
    '\u{1f600}',
];

fn decide(text: &str, st: &mut Stats) {
    if unpaired(text) {
        return st.hit("set aside: unpaired surrogates");
    }
    let doc = reference(text);
    if let (Some(v), false) = (&doc, shared(text)) {
        // the generated grammar has no other characters
        st.hit("documents with other characters");
        st.case(text, true);
        return judge(text, v, true, &ALL[1..], st);
    }
    st.case(text, text.len() > 1);
    st.hit(if doc.is_some() { "documents" } else { "not documents" });
    match doc {
        Some(v) => judge(text, &v, true, &ALL, st),
        None => {
            note(text);
            for (w, f) in ALL {
                match f(text) {
                    Err(p) => st.violation(format!("the {} parser panics ({}) on a text that is no document", w, clip(&p)), format!("text: {:?}", text)),
                    Ok(Ok(v)) => st.violation(format!("the {} parser accepts a text that is no document", w), format!("text: {:?}\nvalue: {}", text, clip(&format!("{:?}", v)))),
                    Ok(Err(_)) => {}
                }
            }
        }
    }
}

/// What a parser asks for after a text it would have more of.
fn wants_more(a: &Answer) -> bool {
    matches!(a, Ok(Err(e)) if e.ends_with("Unexpected end of input") || e.starts_with("Unrecognized EOF"))
}

/// Texts that begin no document but that a parser would go on with: every way on from them, as far as the parser goes along.
fn go_on(from: &str, st: &mut Stats) {
    let mut todo = vec![(from.to_string(), 0)];
    let mut spent = 0;
    while let Some((t, d)) = todo.pop() {
        if unpaired(&t) {
            continue;
        }
        if d == 0 {
            decide(&t, st);
        }
        let open: Vec<_> = ALL.iter().filter(|(w, f)| (*w != "nibble" || shared(&t)) && wants_more(&f(&t))).collect();
        if open.is_empty() || d > 10 {
            continue;
        }
        st.hit("texts a parser goes on with that begin no document");
        for x in (0..128u8).map(char::from).chain(OTHER) {
            spent += 1;
            if spent > 60_000 {
                return;
            }
            let n = format!("{}{}", t, x);
            if open.iter().any(|(_, f)| matches!(f(&n), Ok(Ok(_)))) {
                decide(&n, st);
                if !st.violations.is_empty() {
                    return;
                }
            }
            todo.push((n, d + 1));
        }
    }
}

/// Whether the text is the beginning of a document (or all of one), surrogates aside.
fn begins(t: &str) -> bool {
    let s: Vec<char> = t.chars().collect();
    let mut p = P { s: &s, i: 0 };
    p.value();
    // a reader that fails stops at the character it cannot take
    p.i == s.len()
}

pub const DOCUMENTS: [&str; 14] = [
        "null", "true", "false", "-10.25e+31", "0", "\"a\\n\\u12aF\\\\\"", "[]", "{}", "[1,\"\",null]", "{\"a\":1,\"b\":[{}]}", " [ 0 , 1.5e3 ] ", "{ \"k\" : true , \"l\" : -0 }",
    "[false,[true],{\"\":{}}]", "\t3E-4\r\n",
];
const PIECES: [&str; 50] = [
    "null", "true", "false", "0", "1", "10", "-0", "-12", "1.5", "0.25e3", "2E-7", "3e+1", "\"\"", "\"a\"", "\"k\\n\"", "\"\\u0041\"", "\"\\ud83d\\uDE00\"",
    "[", "]", "{", "}", ":", ",", " ", "\t", "\n", "\r", "nul", "tru", "e", "-", ".", "+", "1.", ".5", "01", "-01", "1e", "1e+", "\"", "\\", "'a'", "\"\\x\"",
    "\"\\u12\"", "\"\\u+123\"", "\"\t\"", "NaN", "Infinity", "//", "TRUE",
];
const STRUCTURE: [&str; 24] = ["[", "[", "]", "]", "{", "}", "{\"a\":", "\"k\":", ",", ",", ":", "1", "1", "0", "\"\"", "\"b\"", "null", "true", " ", "[]", "{}", "-1", "1.0", "\n"];

/// Pieces of JSON and of what is nearly JSON, one after another.
pub fn mixture(r: &mut Rng) -> String {
    let structure = r.chance(1, 2);
    let n = 1 + r.below(if structure { 12 } else { 7 });
    (0..n).map(|_| if structure { *r.pick(&STRUCTURE) } else { *r.pick(&PIECES) }).collect()
}
pub fn edited(r: &mut Rng, t: &str) -> String {
    const ANY: &[u8] = b"[]{}:,\"\\/-+.eE0123456789abcdfntru \t\n\r'xXDd_~!";
    let mut c: Vec<char> = t.chars().collect();
    for _ in 0..*r.pick(&[1, 1, 1, 2, 3]) {
        let n = c.len();
        let at = r.below(n + 1);
        let x = *r.pick(ANY) as char;
        match r.below(9) {
            0 | 1 => c.insert(at, x),
            2 | 3 if at < n => c[at] = x,
            4 if at < n => {
                c.remove(at);
            }
            5 if at < n => c.insert(at, c[at]),
            6 => c.truncate(at),
            7 if at + 1 < n => c.swap(at, at + 1),
            _ => {
                let p: Vec<char> = r.pick(&PIECES).chars().collect();
                c.splice(at..at, p);
            }
        }
    }
    c.into_iter().collect()
}

/// Every text over the alphabet up to a length, between two ends.
fn every(run: &Run, name: &str, alphabet: &'static [char], len: usize, ends: &'static [(&'static str, &'static str)]) {
    run.par(name, alphabet.len() * ends.len(), |i, _, st| {
        let (a, b) = ends[i / alphabet.len()];
        let mut rest = vec![alphabet[i % alphabet.len()].to_string()];
        if i % alphabet.len() == 0 {
            rest.push(String::new());
        }
        while let Some(t) = rest.pop() {
            decide(&format!("{}{}{}", a, t, b), st);
            if !t.is_empty() && t.chars().count() < len {
                rest.extend(alphabet.iter().map(|c| format!("{}{}", t, c)));
            }
        }
    });
}

pub fn c29(run: Run) -> ! {
    let deep = run.thorough as usize;
    every(&run, "every short text", &['0', '1', '-', '.', 'e', '"', '[', ']', '{', '}', ',', ':', ' ', '\\', 'n', 'u'], 4 + deep, &[("", "")]);
    every(&run, "every short number", &['0', '7', '-', '+', '.', 'e', 'E'], 5 + deep, &[("", ""), ("[", "]"), ("1", "")]);
    every(&run, "every short string", &['"', '\\', 'u', 'b', 'x', '0', '9', '\n', '/', '~', 'D', ' '], 4 + deep, &[("\"", "\""), ("{\"", "\":0}"), ("\"\\u00", "\"")]);
    every(&run, "every short structure", &['[', ']', '{', '}', ',', ':', '0', ' '], 5 + deep, &[("[", "]"), ("{", "}"), ("{\"\":", "}"), ("", "")]);
    // each character at each place of a few documents
    run.par("one character anywhere", 95 + OTHER.len(), |i, _, st| {
        let x = if i < 95 { (b' ' + i as u8) as char } else { OTHER[i - 95] };
        for d in [
            "null", "true", "false", "-10.25e+31", "0", "\"a\\n\\u12aF\\\\\"", "\"\\ud834\\udd1e\"", "[]", "{}", "[1,\"\",null]", "{\"a\":1,\"b\":[{}]}", " [ 0 , 1.5e3 ] ",
            "{ \"k\" : true , \"l\" : -0 }",
        ] {
            let c: Vec<char> = d.chars().collect();
            for at in 0..=c.len() {
                let (a, b): (String, String) = (c[..at].iter().collect(), c[at..].iter().collect());
                decide(&format!("{}{}{}", a, x, b), st);
                if at < c.len() {
                    let b: String = c[at + 1..].iter().collect();
                    decide(&format!("{}{}{}", a, x, b), st);
                    if i == 0 {
                        decide(&format!("{}{}", a, b), st);
                        decide(&a, st);
                    }
                }
            }
        }
    });
    // wherever a parser goes on with what begins no document, so do we
    run.par("beginnings and a character", 128 + OTHER.len(), |i, r, st| {
        let x = if i < 128 { i as u8 as char } else { OTHER[i - 128] };
        let mut all: Vec<String> = DOCUMENTS.iter().map(|d| d.to_string()).collect();
        for _ in 0..run.scale(6, 6) {
            let d = r.below(4);
            all.push(grown_in(r, d, false, &mut Stats::default()).0);
        }
        for d in all {
            let c: Vec<char> = d.chars().take(80).collect();
            for at in 0..=c.len() {
                let t: String = c[..at].iter().chain(Some(&x)).collect();
                if !begins(&t) {
                    go_on(&t, st);
                }
            }
        }
    });
    run.par("edited documents", run.scale(40_000, 40), |_, r, st| {
        let d = r.below(5);
        let wide = r.chance(1, 4);
        let (t, _) = grown_in(r, d, wide, &mut Stats::default());
        let t = edited(r, &t);
        decide(&t, st);
    });
    run.par("pieces", run.scale(40_000, 40), |_, r, st| {
        let n = 1 + r.below(7);
        let t: String = (0..n).map(|_| *r.pick(&PIECES)).collect();
        decide(&t, st);
        let n = 2 + r.below(12);
        let t: String = (0..n).map(|_| *r.pick(&STRUCTURE)).collect();
        decide(&t, st);
    });
    // deeply nested, with one bracket wrong
    run.par("nesting", run.scale(600, 20), |_, r, st| {
        let n = 1 + r.below(60);
        let mut open = String::new();
        let mut close = vec![];
        for _ in 0..n {
            if r.chance(1, 2) {
                open.push('[');
                close.push("]");
            } else {
                open.push_str("{\"a\":");
                close.push("}");
            }
        }
        close.reverse();
        decide(&format!("{}0{}", open, close.concat()), st);
        let at = r.below(n);
        let was = close[at];
        close[at] = *r.pick(&["", "]", "}", "]]", ",", "}}"]);
        decide(&format!("{}0{}", open, close.concat()), st);
        close[at] = was;
        let more = *r.pick(&["]", "}", ",", "0", "\"", "null"]);
        decide(&format!("{}0{}{}", open, close.concat(), more), st);
        // wide, with the last parts wrong
        let n = 1 + r.below(60);
        let e = *r.pick(&["0", "\"\"", "[]", "null"]);
        for tail in ["", ",", ",,0", " 0", ":0", ",0"] {
            decide(&format!("[{}{}]", vec![e; n].join(","), tail), st);
            decide(&format!("{{{}{}}}", vec![format!("\"k\":{}", e); n].join(","), tail), st);
        }
    });
    run.finish(
        "every short text over several alphabets, every character at every place of some documents, whatever a parser goes on with after a text that begins no document, edited documents and mixtures of JSON and near-JSON pieces are given to all three parsers, whose acceptance is compared with a strict reader of RFC 8259; non-trivial: more than one character",
        &["texts with unpaired surrogate escapes, which denote no character, are set aside"],
    )
}
