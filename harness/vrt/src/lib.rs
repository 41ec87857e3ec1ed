//! Runs generated parsers under an instrumented stream and logs what was observed. Nothing is
//! judged here.
use chewed::{IterWrapper, LineCol, Parse, ParseError, Parser, TakeError};
use std::cell::RefCell;
use std::collections::hash_map::DefaultHasher;
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

/// What the stream saw.
#[derive(Default, Clone, Debug)]
pub struct Seen {
    /// characters pulled from the underlying iterator
    pub pulls: usize,
    /// characters handed out by `next`
    pub consumed: usize,
    /// calls of `next` that returned nothing
    pub empty_nexts: usize,
    pub peeks: usize,
    /// the most characters ever pulled beyond those consumed
    pub ahead: usize,
    pub steps: usize,
}

struct Counting {
    it: std::vec::IntoIter<char>,
    seen: Rc<RefCell<Seen>>,
}
impl Iterator for Counting {
    type Item = char;
    fn next(&mut self) -> Option<char> {
        let c = self.it.next();
        if c.is_some() {
            self.seen.borrow_mut().pulls += 1;
        }
        c
    }
}

/// The runtime's own stream between two counters.
pub struct Probe {
    inner: IterWrapper<Counting>,
    seen: Rc<RefCell<Seen>>,
    budget: usize,
}
impl Probe {
    pub fn new(s: &[char], budget: usize) -> (Probe, Rc<RefCell<Seen>>) {
        let seen = Rc::new(RefCell::new(Seen::default()));
        let it = Counting { it: s.to_vec().into_iter(), seen: seen.clone() };
        (Probe { inner: IterWrapper::new(it), seen: seen.clone(), budget }, seen)
    }
    fn step(&self) {
        let mut s = self.seen.borrow_mut();
        s.steps += 1;
        if s.steps > self.budget {
            drop(s);
            panic!("vrt: step budget exhausted");
        }
    }
    fn after(&self) {
        let mut s = self.seen.borrow_mut();
        let a = s.pulls.saturating_sub(s.consumed);
        s.ahead = s.ahead.max(a);
    }
}
impl Parser for Probe {
    fn next(&mut self) -> Option<char> {
        self.step();
        let c = self.inner.next();
        {
            let mut s = self.seen.borrow_mut();
            if c.is_some() {
                s.consumed += 1;
            } else {
                s.empty_nexts += 1;
            }
        }
        self.after();
        c
    }
    fn peek(&mut self) -> Option<char> {
        self.step();
        let c = self.inner.peek();
        self.seen.borrow_mut().peeks += 1;
        self.after();
        c
    }
    fn pos(&self) -> LineCol {
        self.inner.pos()
    }
}

pub fn hex(s: &str) -> String {
    if s.is_empty() {
        return "-".into();
    }
    s.bytes().map(|b| format!("{:02x}", b)).collect()
}
pub fn unhex(s: &str) -> String {
    if s == "-" {
        return String::new();
    }
    let b: Vec<u8> = (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect();
    String::from_utf8(b).unwrap()
}

fn pos(p: &LineCol) -> String {
    format!("{}:{}", p.line, p.col)
}
fn take_err(e: &TakeError) -> String {
    match e {
        TakeError::BadBranch(p, c, set) => format!("branch {} {} {}", pos(p), hex(&c.to_string()), hex(&set.iter().collect::<String>())),
        TakeError::BadString(p, got, want) => format!("string {} {} {}", pos(p), hex(got), hex(want)),
        TakeError::EndOfStream(p) => format!("eos {} - -", pos(p)),
    }
}
fn parse_err(e: &ParseError) -> String {
    match e {
        ParseError::TakeError(e) => take_err(e),
        ParseError::InputContinues(p) => format!("cont {} - -", pos(p)),
    }
}

fn hash<T: Hash>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

fn caught<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        let m = e.downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| e.downcast_ref::<String>().cloned()).unwrap_or_else(|| "?".into());
        m
    })
}

pub struct Out(Box<dyn Write>);
impl Out {
    fn line(&mut self, s: &str) {
        writeln!(self.0, "{}", s).unwrap();
        self.0.flush().unwrap();
    }
}

/// Modes: `deep` also logs trees, equality and hashes.
pub fn run<T: Parse + Clone + Debug + Eq + Hash + std::fmt::Display>(name: &str, inputs: &[String], out: &mut Out) {
    let mut kept: Vec<(usize, T, u64)> = vec![];
    for (i, s) in inputs.iter().enumerate() {
        let cs: Vec<char> = s.chars().collect();
        let budget = 20_000 + 3_000 * cs.len();
        out.line(&format!("begin {} {}", name, i));
        // parse
        let (p, seen) = Probe::new(&cs, budget);
        let r = caught(|| T::parse(p));
        let sn = seen.borrow().clone();
        let nums = format!("{} {} {} {} {}", sn.consumed, sn.pulls, sn.ahead, sn.peeks, sn.empty_nexts);
        let r = match r {
            Ok(r) => r,
            Err(m) => {
                out.line(&format!("parse panic {} - - {}", nums, hex(&m)));
                continue;
            }
        };
        match &r {
            Ok(_) => out.line(&format!("parse ok - - - {}", nums)),
            Err(e) => out.line(&format!("parse {} {} {}", parse_err(e), nums, hex(&e.to_string()))),
        }
        // take, then the rest of the stream
        let (mut p, seen) = Probe::new(&cs, budget);
        let t = caught(|| T::take(&mut p));
        match t {
            Err(m) => out.line(&format!("take panic {}", hex(&m))),
            Ok(t) => {
                let (used, lead) = (seen.borrow().consumed, seen.borrow().pulls);
                let at = pos(&p.pos());
                let mut rest = String::new();
                let mut guard = 0;
                while let Some(c) = p.inner.next() {
                    rest.push(c);
                    guard += 1;
                    if guard > cs.len() + 5 {
                        break;
                    }
                }
                match &t {
                    Ok(v) => out.line(&format!("take ok {} - - {} {} {} {}", at, used, lead, hex(&rest), hex(&v.to_string()))),
                    Err(e) => out.line(&format!("take {} {} {} {} -", take_err(e), used, lead, hex(&rest))),
                }
            }
        }
        // the plain entry points
        let a = caught(|| T::parse_str(s));
        let same = match (&a, &r) {
            (Ok(a), r) => a == r,
            _ => false,
        };
        out.line(&format!("str {}", same));
        if let Ok(v) = r {
            let d = v.to_string();
            out.line(&format!("show {}", hex(&d)));
            let dbg = format!("{:?}", v);
            out.line(&format!("tree {}", if dbg.len() < 40_000 { hex(&dbg) } else { "long".into() }));
            // ordinary values
            let c = v.clone();
            let mut notes = vec![];
            if c != v || v != c {
                notes.push("clone differs");
            }
            if hash(&c) != hash(&v) {
                notes.push("clone hashes differently");
            }
            let h = hash(&v);
            match T::parse_str(s) {
                Ok(w) => {
                    if w != v || v != w {
                        notes.push("second parse differs");
                    }
                    if hash(&w) != h {
                        notes.push("second parse hashes differently");
                    }
                }
                Err(_) => notes.push("second parse fails"),
            }
            if v != v {
                notes.push("not equal to itself");
            }
            let mut eqs = vec![];
            for (j, w, hw) in &kept {
                if *w == v || v == *w {
                    eqs.push(format!("{}{}{}", j, if *w == v && v == *w { "" } else { "?" }, if *hw == h { "" } else { "#" }));
                }
            }
            drop(v);
            if c.to_string() != d || format!("{:?}", c) != dbg || hash(&c) != h {
                notes.push("clone changed when its original was dropped");
            }
            out.line(&format!("value {} {}", hex(&notes.join("; ")), if eqs.is_empty() { "-".into() } else { eqs.join(",") }));
            let against: Vec<String> = kept.iter().map(|k| k.0.to_string()).collect();
            out.line(&format!("kept {}", if against.is_empty() { "-".into() } else { against.join(",") }));
            if kept.len() < 24 {
                kept.push((i, c, h));
            }
        }
        out.line("end");
    }
}

/// Character conversion of one type.
pub fn chars<T: Parse + Into<char>>(name: &str, inputs: &[String], out: &mut Out) {
    for (i, s) in inputs.iter().enumerate() {
        out.line(&format!("begin {} {}", name, i));
        match caught(|| T::parse_str(s).map(|v| {
            let shown = v.to_string();
            let c: char = v.into();
            (shown, c)
        })) {
            Ok(Ok((d, c))) => out.line(&format!("char ok {} {}", hex(&d), hex(&c.to_string()))),
            Ok(Err(_)) => out.line("char err - -"),
            Err(m) => out.line(&format!("char panic {} -", hex(&m))),
        }
        out.line("end");
    }
}

pub type Entry = (&'static str, fn(&str, &[String], &mut Out));

/// Input file: lines `entry hex`. Log goes to the second argument.
pub fn main(entries: &'static [Entry]) {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    let text = std::fs::read_to_string(&a[1]).unwrap();
    let f = std::fs::File::create(&a[2]).unwrap();
    std::thread::Builder::new()
        .stack_size(1 << 30)
        .spawn(move || {
            let mut out = Out(Box::new(f));
            for (n, f) in entries {
                let inputs: Vec<String> = text.lines().filter_map(|l| l.split_once(' ')).filter(|x| x.0 == *n).map(|x| unhex(x.1)).collect();
                f(n, &inputs, &mut out);
            }
            out.line("done");
        })
        .unwrap()
        .join()
        .unwrap();
}
