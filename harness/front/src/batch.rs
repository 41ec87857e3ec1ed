//! Programs whose generated parsers are really compiled and run. The parsers run in processes of
//! their own under the instrumented stream of `vrt`; their logs are judged here.
use crate::graph::{Graph, Item, Tref};
use crate::pipe::{self, TN};
use harn::{guard, Run, Stats};
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use vref::elab::{elab, Fault, Node, C};
use vref::lang::{Lang, Rec, D};
use vref::rng::Rng;
use vref::syntax::Prog;

pub const FUEL: usize = 6_000;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Route {
    Macro,
    Cli,
}

pub struct Module {
    pub text: String,
    pub tag: &'static str,
    pub route: Route,
    pub root: Node,
    pub tn: TN,
    pub code: String,
    pub graph: Graph,
    pub inputs: Vec<String>,
    /// types that must convert to characters, with their members
    pub classes: Vec<(String, BTreeSet<char>, Vec<String>)>,
}

impl Module {
    /// Accepted by the compiler and by the reference; `None` otherwise.
    pub fn new(text: &str, prog: &Prog, tag: &'static str, route: Route, st: &mut Stats) -> Option<Module> {
        let o = match elab(prog, FUEL) {
            Ok(o) if o.accepted() => o,
            // should the compiler accept it, its parser is still to accept the language
            Ok(o) if o.faults.iter().all(|f| matches!(f, Fault::FlastOverlap { .. } | Fault::FirstOverlap { .. } | Fault::BothNullable { .. })) => o,
            _ => return None,
        };
        let fine = o.accepted();
        let root = o.root?;
        pipe::reset_spans();
        harn::note(text);
        let f = match guard(|| pipe::parse(text).ok().map(|s| pipe::full(s, true))) {
            Ok(Some(f)) => f,
            _ => return None,
        };
        let tn = match f.typed {
            Some(Ok(t)) => t,
            _ => {
                if fine {
                    st.hit("rejected by the compiler, accepted by the reference (judged by C05)");
                }
                return None;
            }
        };
        let code = f.code?;
        let graph = match Graph::read(&code) {
            Ok(g) => g,
            Err(_) => {
                st.hit("unreadable code (judged by C09)");
                return None;
            }
        };
        Some(Module { text: text.into(), tag, route, root, tn, code: format!("{:#}", code), graph, inputs: vec![], classes: vec![] })
    }
    pub fn lang(&self) -> Lang {
        Lang::new(&self.root).unwrap()
    }
    pub fn source(&self) -> String {
        match self.route {
            Route::Macro => format!("::chomp_macro::nibble! {{\n{}\n}}\n", self.text),
            Route::Cli => self.code.clone(),
        }
    }
}

// ------------------------------------------------------------------------------------------ inputs

/// Sentences, near misses, prefixes, longer streams, and all short words.
pub fn inputs(l: &Lang, r: &mut Rng, n: usize, long: bool) -> Vec<String> {
    let mut out: Vec<String> = vec![String::new()];
    let alpha = l.alphabet();
    let mut sents: Vec<String> = vec![];
    for (s, _) in l.covering(r, n / 5) {
        if s.chars().count() <= 400 {
            sents.push(s);
        }
    }
    for i in 0..n / 4 {
        let b = match i % 8 {
            0 => 2,
            1..=4 => r.range(3, 30),
            5 | 6 => r.range(20, 120),
            _ => r.range(100, 400),
        };
        if let Some((s, _)) = l.sample(r, b) {
            if s.chars().count() <= 600 {
                sents.push(s);
            }
        }
    }
    if long {
        for _ in 0..2 {
            if let Some((s, _)) = l.sample(r, 4000) {
                let k = s.chars().count();
                if k > 600 && k < 6000 {
                    sents.push(s.clone());
                    let mut m: Vec<char> = s.chars().collect();
                    m.truncate(k - r.range(1, k / 2));
                    sents.push(m.into_iter().collect());
                }
            }
        }
    }
    let short: Vec<String> = sents.iter().filter(|s| s.chars().count() <= 300).cloned().collect();
    out.extend(sents.iter().cloned());
    for _ in 0..n / 3 {
        if short.is_empty() {
            break;
        }
        let s = r.pick(&short).clone();
        match r.below(4) {
            0 => {
                let t = r.pick(&short).clone();
                out.push(format!("{}{}", s, t));
            }
            1 => {
                let c: Vec<char> = s.chars().collect();
                let k = r.below(c.len() + 1);
                out.push(c[..k].iter().collect());
            }
            _ => out.push(vref::lang::mutate(&s, &alpha, r)),
        }
    }
    // what may follow a value in a longer stream
    for k in 0..n / 8 {
        if short.is_empty() {
            break;
        }
        let s = r.pick(&short).clone();
        let t = match k % 4 {
            0 => "\n".to_string(),
            1 => r.pick(&["\r", "\r\n", "\u{85}", "\u{2028}", " ", "\u{FEFF}", "\u{301}", "\0", "\u{200D}", "\u{10FFFF}"]).to_string(),
            2 => s.chars().last().map_or("\n".into(), |c| c.to_string()),
            _ => s.chars().next().map_or("\r".into(), |c| c.to_string()),
        };
        out.push(s + &t);
    }
    // one character replaced by one easily taken for it
    for _ in 0..n / 10 {
        if short.is_empty() {
            break;
        }
        let mut c: Vec<char> = r.pick(&short).chars().collect();
        if !c.is_empty() {
            let k = r.below(c.len());
            c[k] = crate::rt::alike(c[k], r);
            out.push(c.into_iter().collect());
        }
    }
    // every word over a small part of the alphabet
    let mut small = alpha.clone();
    r.shuffle(&mut small);
    small.truncate(3);
    let mut layer = vec![String::new()];
    let mut words = vec![];
    while words.len() < n / 4 && !small.is_empty() && layer.len() < 2000 {
        let mut next = vec![];
        for w in &layer {
            for c in &small {
                next.push(format!("{}{}", w, c));
            }
        }
        words.extend(next.iter().cloned());
        layer = next;
    }
    words.truncate(n / 4);
    out.extend(words);
    // random strings
    for _ in 0..n / 12 {
        let k = r.range(1, 8);
        let s: String = (0..k).map(|_| if alpha.is_empty() || r.chance(1, 5) { *r.pick(&['é', '\u{1F600}', '\n', '\r', '"', '\\', 'Z', '\u{2028}']) } else { *r.pick(&alpha) }).collect();
        out.push(s);
    }
    // repeats, for equality
    for _ in 0..3 {
        if let Some(s) = sents.first() {
            let t = if short.is_empty() { s.clone() } else { r.pick(&short).clone() };
            out.push(t);
        }
    }
    out
}

/// Types that must convert to characters.
pub fn classes(m: &Module) -> Vec<(String, BTreeSet<char>)> {
    fn class(n: &Node, g: &Graph, t: &Tref, out: &mut BTreeMap<String, BTreeSet<char>>) -> Option<BTreeSet<char>> {
        let t = g.resolve(t);
        let (name, item) = match &t {
            Tref::Name(x) => (x.clone(), g.items.get(x)),
            _ => return None,
        };
        match (&n.k, item) {
            (C::Lit(s), Some(Item::Unit)) => {
                let c: Vec<char> = s.chars().collect();
                if c.len() == 1 {
                    let s: BTreeSet<char> = c.into_iter().collect();
                    out.insert(name, s.clone());
                    return Some(s);
                }
                None
            }
            (C::Alt(v, _), Some(Item::Enum(fs))) => {
                let mut all = Some(BTreeSet::new());
                for (x, f) in v.iter().zip(fs) {
                    let s = class(x, g, &f.1, out);
                    all = match (all, s) {
                        (Some(mut a), Some(s)) if !matches!(x.k, C::Fix(_) | C::Var(_)) => {
                            a.extend(s);
                            Some(a)
                        }
                        _ => None,
                    };
                }
                if let Some(a) = &all {
                    out.insert(name, a.clone());
                }
                all
            }
            (C::Cat(v, _), Some(Item::Struct(fs))) => {
                for (x, f) in v.iter().zip(fs) {
                    class(x, g, &f.1, out);
                }
                None
            }
            (C::Fix(b), _) => {
                class(b, g, &t, out);
                None
            }
            _ => None,
        }
    }
    let mut out = BTreeMap::new();
    class(&m.root, &m.graph, &Tref::Name("Ast".into()), &mut out);
    out.into_iter().collect()
}

// ------------------------------------------------------------------------------------------ building

struct Libs {
    deps: String,
    libs: Vec<(String, String)>,
}
fn libs() -> Libs {
    let v = std::env::var("VERIF_LIBS").expect("VERIF_LIBS");
    let mut l = Libs { deps: String::new(), libs: vec![] };
    for p in v.split(';').filter(|p| !p.is_empty()) {
        let (k, x) = p.split_once('=').unwrap();
        if k == "deps" {
            l.deps = x.into()
        } else {
            l.libs.push((k.into(), x.into()))
        }
    }
    l
}

pub enum Fate {
    /// with the run's log, if it was run
    Built(Vec<Obs>, Vec<(String, Vec<(String, String)>)>),
    /// the module itself does not compile
    Broken(String),
    /// it compiles, but the named class does not convert
    NoConversion(String, String),
    /// the process died: input (if known) and how
    Died(Vec<Obs>, Option<usize>, String),
}

/// What one execution showed.
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Obs {
    pub input: usize,
    pub parse: Res,
    pub consumed: usize,
    pub pulls: usize,
    pub ahead: usize,
    pub peeks: usize,
    pub msg: String,
    pub take: Res,
    pub take_used: usize,
    pub take_pulls: usize,
    pub rest: String,
    pub taken: String,
    pub str_same: bool,
    pub show: Option<String>,
    pub tree: Option<String>,
    pub value: String,
    pub eqs: Vec<String>,
    pub kept: Vec<usize>,
    pub ended: bool,
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Res {
    /// ok, eos, branch, string, cont, panic
    pub kind: String,
    pub pos: (usize, usize),
    pub got: String,
    pub want: String,
}

fn unhex(s: &str) -> String {
    if s == "-" {
        return String::new();
    }
    let b: Vec<u8> = (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap_or(b'?')).collect();
    String::from_utf8_lossy(&b).into_owned()
}
pub fn hex(s: &str) -> String {
    if s.is_empty() {
        return "-".into();
    }
    s.bytes().map(|b| format!("{:02x}", b)).collect()
}

type ClassLog = Vec<(String, String)>;

/// entry -> observations, whether complete
fn read_log(text: &str) -> (BTreeMap<String, (Vec<Obs>, ClassLog)>, Option<(String, usize)>, bool) {
    let mut out: BTreeMap<String, (Vec<Obs>, ClassLog)> = BTreeMap::new();
    let mut cur = Obs::default();
    let mut name = String::new();
    let mut open = None;
    let mut done = false;
    let mut class = None;
    let res = |w: &[&str]| -> Res {
        let pos = w.get(1).and_then(|p| p.split_once(':')).map(|(a, b)| (a.parse().unwrap_or(0), b.parse().unwrap_or(0))).unwrap_or((0, 0));
        Res { kind: w[0].into(), pos, got: unhex(w.get(2).unwrap_or(&"-")), want: unhex(w.get(3).unwrap_or(&"-")) }
    };
    for line in text.lines() {
        let w: Vec<&str> = line.split(' ').collect();
        match w[0] {
            "begin" => {
                name = w[1].into();
                cur = Obs { input: w[2].parse().unwrap(), ..Obs::default() };
                class = None;
                open = Some((name.clone(), cur.input));
            }
            "parse" if w[1] == "panic" => {
                cur.parse = Res { kind: "panic".into(), pos: (0, 0), got: unhex(w.last().unwrap()), want: String::new() };
                let e = out.entry(name.clone()).or_default();
                cur.ended = true;
                e.0.push(cur.clone());
                open = None;
            }
            "parse" => {
                cur.parse = res(&w[1..]);
                let n: Vec<usize> = w[5..10].iter().map(|x| x.parse().unwrap_or(usize::MAX)).collect();
                cur.consumed = n[0];
                cur.pulls = n[1];
                cur.ahead = n[2];
                cur.peeks = n[3];
                if let Some(m) = w.get(10) {
                    cur.msg = unhex(m);
                }
            }
            "take" if w[1] == "panic" => cur.take = Res { kind: "panic".into(), pos: (0, 0), got: unhex(w[2]), want: String::new() },
            "take" => {
                cur.take = res(&w[1..]);
                cur.take_used = w[5].parse().unwrap_or(usize::MAX);
                cur.take_pulls = w[6].parse().unwrap_or(usize::MAX);
                cur.rest = unhex(w[7]);
                cur.taken = unhex(w[8]);
            }
            "str" => cur.str_same = w[1] == "true",
            "show" => cur.show = Some(unhex(w[1])),
            "tree" => cur.tree = if w[1] == "long" { None } else { Some(unhex(w[1])) },
            "value" => {
                cur.value = unhex(w[1]);
                cur.eqs = if w[2] == "-" { vec![] } else { w[2].split(',').map(String::from).collect() };
            }
            "kept" => cur.kept = if w[1] == "-" { vec![] } else { w[1].split(',').map(|x| x.parse().unwrap()).collect() },
            "char" => class = Some((w[1].to_string(), format!("{}|{}", unhex(w[2]), unhex(w[3])))),
            "end" => {
                let e = out.entry(name.clone()).or_default();
                match class.take() {
                    Some(c) => e.1.push(c),
                    None => {
                        cur.ended = true;
                        e.0.push(cur.clone());
                    }
                }
                open = None;
            }
            "done" => done = true,
            _ => {}
        }
    }
    (out, open, done)
}

/// Minimal JSON reader for rustc's diagnostics.
pub enum J {
    Null,
    Bool(bool),
    Num(f64),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}
impl J {
    pub fn get(&self, k: &str) -> &J {
        if let J::Obj(v) = self {
            for (a, b) in v {
                if a == k {
                    return b;
                }
            }
        }
        &J::Null
    }
    pub fn str(&self) -> &str {
        if let J::Str(s) = self {
            s
        } else {
            ""
        }
    }
    pub fn num(&self) -> usize {
        if let J::Num(n) = self {
            *n as usize
        } else {
            0
        }
    }
    pub fn arr(&self) -> &[J] {
        if let J::Arr(v) = self {
            v
        } else {
            &[]
        }
    }
    pub fn parse(s: &str) -> Option<J> {
        let c: Vec<char> = s.chars().collect();
        let mut i = 0;
        let v = Self::val(&c, &mut i)?;
        Some(v)
    }
    fn ws(c: &[char], i: &mut usize) {
        while *i < c.len() && c[*i].is_ascii_whitespace() {
            *i += 1;
        }
    }
    fn val(c: &[char], i: &mut usize) -> Option<J> {
        Self::ws(c, i);
        match c.get(*i)? {
            '{' => {
                *i += 1;
                let mut v = vec![];
                loop {
                    Self::ws(c, i);
                    match c.get(*i)? {
                        '}' => {
                            *i += 1;
                            return Some(J::Obj(v));
                        }
                        ',' => *i += 1,
                        _ => {
                            let k = Self::val(c, i)?.str().to_string();
                            Self::ws(c, i);
                            *i += 1;
                            v.push((k, Self::val(c, i)?));
                        }
                    }
                }
            }
            '[' => {
                *i += 1;
                let mut v = vec![];
                loop {
                    Self::ws(c, i);
                    match c.get(*i)? {
                        ']' => {
                            *i += 1;
                            return Some(J::Arr(v));
                        }
                        ',' => *i += 1,
                        _ => v.push(Self::val(c, i)?),
                    }
                }
            }
            '"' => {
                *i += 1;
                let mut s = String::new();
                loop {
                    match c.get(*i)? {
                        '"' => {
                            *i += 1;
                            return Some(J::Str(s));
                        }
                        '\\' => {
                            *i += 1;
                            match c.get(*i)? {
                                'n' => s.push('\n'),
                                't' => s.push('\t'),
                                'r' => s.push('\r'),
                                'b' => s.push('\u{8}'),
                                'f' => s.push('\u{c}'),
                                'u' => {
                                    let h: String = c.get(*i + 1..*i + 5)?.iter().collect();
                                    let mut n = u32::from_str_radix(&h, 16).ok()?;
                                    *i += 4;
                                    if (0xD800..0xDC00).contains(&n) && c.get(*i + 1) == Some(&'\\') {
                                        let h: String = c.get(*i + 3..*i + 7)?.iter().collect();
                                        let m = u32::from_str_radix(&h, 16).ok()?;
                                        n = 0x10000 + ((n - 0xD800) << 10) + m.checked_sub(0xDC00)?;
                                        *i += 6;
                                    }
                                    s.push(char::from_u32(n).unwrap_or('?'));
                                }
                                x => s.push(*x),
                            }
                            *i += 1;
                        }
                        x => {
                            s.push(*x);
                            *i += 1;
                        }
                    }
                }
            }
            _ => {
                let st = *i;
                while *i < c.len() && !",]} \n\t\r".contains(c[*i]) {
                    *i += 1;
                }
                let w: String = c[st..*i].iter().collect();
                Some(match &w[..] {
                    "null" => J::Null,
                    "true" => J::Bool(true),
                    "false" => J::Bool(false),
                    x => J::Num(x.parse().ok()?),
                })
            }
        }
    }
}

/// The place in a source file a span comes from, out of macro expansions.
fn place(span: &J) -> (String, usize, usize, usize, usize) {
    let mut s = span;
    loop {
        let e = s.get("expansion");
        match e {
            J::Obj(_) if !s.get("file_name").str().ends_with(".rs") || s.get("file_name").str().contains("macros") => s = e.get("span"),
            _ => {
                return (
                    s.get("file_name").str().to_string(),
                    s.get("line_start").num(),
                    s.get("column_start").num(),
                    s.get("line_end").num(),
                    s.get("column_end").num(),
                )
            }
        }
    }
}

/// A compiler error: message, file, line, column, end line, end column.
pub type Error = (String, String, usize, usize, usize, usize);

pub fn rustc(dir: &Path, src: &str, out: &str, metadata: bool) -> Result<Vec<Error>, String> {
    let l = libs();
    let mut c = Command::new("rustc");
    c.current_dir(dir)
        .args(["--edition", "2018", "-C", "debuginfo=0", "-C", "debug-assertions", "-C", "overflow-checks", "--error-format=json", "--crate-name", "chunk"])
        .args(["-L", &format!("dependency={}", l.deps)]);
    for (k, p) in &l.libs {
        c.args(["--extern", &format!("{}={}", k, p)]);
    }
    if metadata {
        c.args(["--emit=metadata", "--crate-type=lib"]);
    }
    c.args([src, "-o", out]).env_remove("RUSTFLAGS").env_remove("RUST_BACKTRACE").stdin(Stdio::null());
    let o = c.output().map_err(|e| format!("rustc: {}", e))?;
    let err = String::from_utf8_lossy(&o.stderr);
    if o.status.success() {
        return Ok(vec![]);
    }
    let mut errs = vec![];
    for line in err.lines() {
        let j = match J::parse(line) {
            Some(j) => j,
            None => continue,
        };
        if j.get("level").str() != "error" {
            if j.get("level").str().contains("internal") {
                return Err(format!("rustc failed: {}", j.get("message").str()));
            }
            continue;
        }
        let msg = j.get("message").str().to_string();
        if j.get("spans").arr().is_empty() {
            if msg.starts_with("aborting due to") {
                continue;
            }
            errs.push((msg, String::new(), 0, 0, 0, 0));
            continue;
        }
        let spans = j.get("spans").arr();
        let prim = spans.iter().find(|s| matches!(s.get("is_primary"), J::Bool(true))).unwrap_or(&spans[0]);
        let p = place(prim);
        errs.push((msg, p.0, p.1, p.2, p.3, p.4));
    }
    if errs.is_empty() {
        return Err(format!("rustc failed without a diagnostic ({:?}): {}", o.status, err.chars().take(400).collect::<String>()));
    }
    Ok(errs)
}

/// Runs under limits; the status and how it ended.
fn execute(dir: &Path, exe: &str, a: &[&str], cpu: usize) -> Result<(), String> {
    let o = Command::new("sh")
        .current_dir(dir)
        .args(["-c", &format!("ulimit -t {}; ulimit -c 0; exec \"$0\" \"$@\"", cpu), exe])
        .args(a)
        .stdin(Stdio::null())
        .output()
        .map_err(|e| e.to_string())?;
    if o.status.success() {
        return Ok(());
    }
    let e = String::from_utf8_lossy(&o.stderr);
    Err(format!("{:?} {}", o.status, e.chars().take(300).collect::<String>().trim()))
}

/// Compiles one chunk of modules, setting aside those that do not compile, and runs it.
fn chunk(dir: &Path, mods: &mut [&mut Module], fates: &mut Vec<Option<Fate>>, run_it: bool) -> Result<(), String> {
    std::fs::create_dir_all(dir).map_err(|e| e.to_string())?;
    for (i, m) in mods.iter().enumerate() {
        let mut src = String::from("#![allow(warnings)]\n");
        if m.route == Route::Macro {
            // the program's own text is the user's
            src += "#![allow(text_direction_codepoint_in_literal, text_direction_codepoint_in_comment)]\n";
        }
        src += &m.source();
        std::fs::write(dir.join(format!("m{}.rs", i)), src).map_err(|e| e.to_string())?;
    }
    for round in 0..=mods.len() + 3 {
        let mut main = String::from("#![recursion_limit = \"4096\"]\n#![allow(warnings)]\n#![allow(text_direction_codepoint_in_literal, text_direction_codepoint_in_comment)]\n");
        let mut lines: Vec<(usize, Option<usize>)> = vec![];
        let mut body = String::new();
        for (i, m) in mods.iter().enumerate() {
            if fates[i].is_some() {
                continue;
            }
            main += &format!("#[path = \"m{}.rs\"]\npub mod m{};\n", i, i);
            if run_it {
                body += &format!("(\"m{}\", ::vrt::run::<m{}::Ast> as _),\n", i, i);
                lines.push((i, None));
                for (k, c) in m.classes.iter().enumerate() {
                    body += &format!("(\"m{}c{}\", ::vrt::chars::<m{}::{}> as _),\n", i, k, i, c.0);
                    lines.push((i, Some(k)));
                }
            } else {
                body += &format!("m{}::Ast,\n", i);
                lines.push((i, None));
            }
        }
        let before = main.lines().count();
        if run_it {
            main += "const ENTRIES: &[::vrt::Entry] = &[\n";
        } else {
            main += "pub type Roots = (\n";
        }
        main += &body;
        main += if run_it { "];\nfn main() { ::vrt::main(ENTRIES) }\n" } else { ");\n" };
        std::fs::write(dir.join("main.rs"), &main).map_err(|e| e.to_string())?;
        let errs = rustc(dir, "main.rs", if run_it { "chunk" } else { "chunk.rmeta" }, !run_it)?;
        if errs.is_empty() {
            break;
        }
        let mut hit = false;
        for (msg, file, line, ..) in &errs {
            let base = file.rsplit('/').next().unwrap_or("");
            if let Some(i) = base.strip_prefix('m').and_then(|x| x.strip_suffix(".rs")).and_then(|x| x.parse::<usize>().ok()) {
                if fates[i].is_none() {
                    fates[i] = Some(Fate::Broken(format!("{} (line {})", msg, line)));
                    hit = true;
                }
            } else if base == "main.rs" && *line > before + 1 && *line <= before + 1 + lines.len() {
                let (i, c) = lines[*line - before - 2];
                if fates[i].is_none() {
                    fates[i] = Some(match c {
                        None => Fate::Broken(msg.clone()),
                        Some(k) => Fate::NoConversion(mods[i].classes[k].0.clone(), msg.clone()),
                    });
                    hit = true;
                }
            }
        }
        if !hit {
            return Err(format!("unattributed compiler error in round {}: {:?}", round, errs.first()));
        }
        if fates.iter().all(|f| f.is_some()) {
            return Ok(());
        }
    }
    if !run_it {
        for f in fates.iter_mut() {
            if f.is_none() {
                *f = Some(Fate::Built(vec![], vec![]));
            }
        }
        return Ok(());
    }
    let mut text = String::new();
    for (i, m) in mods.iter().enumerate() {
        for s in &m.inputs {
            text += &format!("m{} {}\n", i, hex(s));
        }
        for (k, c) in m.classes.iter().enumerate() {
            for s in &c.2 {
                text += &format!("m{}c{} {}\n", i, k, hex(s));
            }
        }
    }
    std::fs::write(dir.join("inputs"), text).map_err(|e| e.to_string())?;
    let end = execute(dir, "./chunk", &["inputs", "log"], 240);
    let log = std::fs::read_to_string(dir.join("log")).unwrap_or_default();
    let (mut seen, open, done) = read_log(&log);
    if end.is_err() && (open.is_none() || done) {
        return Err(format!("the process of compiled parsers ended with {:?}", end));
    }
    for (i, m) in mods.iter().enumerate() {
        if fates[i].is_some() {
            continue;
        }
        let obs = seen.remove(&format!("m{}", i)).unwrap_or_default().0;
        let cls: Vec<_> = m.classes.iter().enumerate().map(|(k, c)| (c.0.clone(), seen.remove(&format!("m{}c{}", i, k)).unwrap_or_default().1)).collect();
        fates[i] = Some(match (&end, &open) {
            (Err(e), Some((n, k))) if *n == format!("m{}", i) || n.starts_with(&format!("m{}c", i)) => Fate::Died(obs, if n.contains('c') { None } else { Some(*k) }, e.clone()),
            (Err(_), Some(_)) if obs.len() < m.inputs.len() => Fate::Built(vec![], vec![]),
            _ => Fate::Built(obs, cls),
        });
    }
    Ok(())
}

/// Compiles and runs modules, `per` to a crate.
pub fn build(run: &Run, label: &str, mods: Vec<Module>, per: usize, run_it: bool) -> Vec<(Module, Fate)> {
    let base: PathBuf = run.root.join("work").join("batch").join(&run.prop);
    let _ = std::fs::remove_dir_all(&base);
    let n = (mods.len() + per - 1) / per.max(1);
    let slots: Vec<std::sync::Mutex<Option<Vec<Module>>>> = {
        let mut v: Vec<Vec<Module>> = (0..n).map(|_| vec![]).collect();
        for (i, m) in mods.into_iter().enumerate() {
            v[i % n].push(m);
        }
        v.into_iter().map(|x| std::sync::Mutex::new(Some(x))).collect()
    };
    let out = std::sync::Mutex::new(vec![]);
    run.par(&format!("{} (crates)", label), n, |k, _, st| {
        let mut ms = slots[k].lock().unwrap().take().unwrap();
        let dir = base.join(format!("c{}", k));
        let mut fates: Vec<Option<Fate>> = ms.iter().map(|_| None).collect();
        let r = {
            let mut refs: Vec<&mut Module> = ms.iter_mut().collect();
            chunk(&dir, &mut refs, &mut fates, run_it)
        };
        let _ = std::fs::remove_dir_all(&dir);
        if let Err(e) = r {
            st.errors.push(e);
            return;
        }
        let mut o = out.lock().unwrap();
        for (m, f) in ms.into_iter().zip(fates) {
            if let Some(f) = f {
                o.push((k, m, f));
            }
        }
    });
    let _ = std::fs::remove_dir_all(&base);
    let mut o = out.into_inner().unwrap();
    o.sort_by_key(|x| x.0);
    o.into_iter().map(|(_, m, f)| (m, f)).collect()
}

// ------------------------------------------------------------------------------------------ trees

/// What `{:?}` of a generated value shows.
#[derive(Debug, Clone, PartialEq)]
pub struct Tree {
    pub name: String,
    pub kids: Vec<Tree>,
}

pub fn read_tree(s: &str) -> Option<Tree> {
    let c: Vec<char> = s.chars().collect();
    let mut i = 0;
    let t = read_at(&c, &mut i)?;
    if i == c.len() {
        Some(t)
    } else {
        None
    }
}
fn read_at(c: &[char], i: &mut usize) -> Option<Tree> {
    let st = *i;
    while *i < c.len() && !" (){},:".contains(c[*i]) {
        *i += 1;
    }
    let name: String = c[st..*i].iter().collect();
    if name.is_empty() {
        return None;
    }
    let mut kids = vec![];
    if c.get(*i) == Some(&'(') {
        *i += 1;
        loop {
            kids.push(read_at(c, i)?);
            match c.get(*i)? {
                ')' => {
                    *i += 1;
                    break;
                }
                ',' => *i += 2,
                _ => return None,
            }
        }
    } else if c.get(*i) == Some(&' ') && c.get(*i + 1) == Some(&'{') {
        *i += 3;
        loop {
            while *c.get(*i)? != ':' {
                *i += 1;
            }
            *i += 2;
            kids.push(read_at(c, i)?);
            match c.get(*i)? {
                ' ' => {
                    *i += 2;
                    break;
                }
                ',' => *i += 2,
                _ => return None,
            }
        }
    }
    Some(Tree { name, kids })
}

/// Compares a printed value with a derivation.
pub fn same_tree(d: &D, g: &Graph, t: &Tref, v: &Tree) -> Result<usize, String> {
    let mut t = g.resolve(t);
    while let Tref::Boxed(b) = t {
        t = g.resolve(&b);
    }
    let item = match &t {
        Tref::Name(x) => g.items.get(x),
        _ => None,
    };
    let name = match &t {
        Tref::Name(x) => x.clone(),
        _ => String::new(),
    };
    let bad = |want: &str| Err(format!("the tree has {:?} where the derivation has {} (type {})", v.name, want, name));
    match d {
        D::Eps => {
            if v.name != "Epsilon" || !v.kids.is_empty() {
                return bad("nothing");
            }
            Ok(1)
        }
        D::Lit(_) => {
            if v.name != name || !v.kids.is_empty() {
                return bad("a literal");
            }
            Ok(1)
        }
        D::Cat(_, ds) => match item {
            Some(Item::Struct(fs)) if fs.len() == ds.len() && v.name == name && v.kids.len() == ds.len() => {
                let mut n = 1;
                for ((d, f), k) in ds.iter().zip(fs).zip(&v.kids) {
                    n += same_tree(d, g, &f.1, k)?;
                }
                Ok(n)
            }
            _ => bad(&format!("a sequence of {}", ds.len())),
        },
        D::Alt(_, i, d) => match item {
            Some(Item::Enum(fs)) if *i < fs.len() && v.kids.len() == 1 => {
                if v.name != fs[*i].0 {
                    return bad(&format!("branch {} ({})", i, fs[*i].0));
                }
                Ok(1 + same_tree(d, g, &fs[*i].1, &v.kids[0])?)
            }
            _ => bad("an alternative"),
        },
        D::Rec(_, d) => same_tree(d, g, &t, v),
    }
}

// ------------------------------------------------------------------------------------------ judging

/// What should happen.
#[derive(Debug, Clone, PartialEq)]
pub enum Expect {
    Accept,
    /// longest viable prefix
    Eos,
    Cont(usize),
    Bad(usize),
}

pub struct Oracle<'a> {
    pub l: &'a Lang,
    pub productive: bool,
}
impl Oracle<'_> {
    pub fn accepts(&self, cs: &[char]) -> Option<bool> {
        let mut r = Rec::new(self.l, cs);
        let a = r.accepts();
        if r.looped {
            None
        } else {
            Some(a)
        }
    }
    /// needs every entry productive
    pub fn expect(&self, cs: &[char]) -> Option<Expect> {
        let mut r = Rec::new(self.l, cs);
        if r.accepts() {
            return Some(Expect::Accept);
        }
        let p = r.reach(self.l.root, 0);
        let sentence = r.ends(self.l.root, 0).contains(&p);
        if r.looped {
            return None;
        }
        Some(if sentence {
            Expect::Cont(p)
        } else if p == cs.len() {
            Expect::Eos
        } else {
            Expect::Bad(p)
        })
    }
    pub fn viable(&self, cs: &[char]) -> bool {
        vref::lang::viable(self.l, cs)
    }
}
