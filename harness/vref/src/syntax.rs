//! Surface syntax of nibble: tree, printer (records byte ranges), and an independent parser.
use crate::rng::Rng;

pub type Sp = (usize, usize);

#[derive(Clone, Debug, PartialEq)]
pub struct E {
    pub k: K,
    pub sp: Sp,
}

#[derive(Clone, Debug, PartialEq)]
pub enum K {
    Eps,
    Lit(String),
    Id(String),
    Fix(Box<E>),
    Call(Vec<E>),
    Cat(Vec<E>, Vec<Sp>),
    Alt(Vec<E>, Vec<Sp>),
    Lab(Box<E>, String),
    Lam(Vec<String>, Box<E>),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Let {
    pub name: String,
    pub args: Vec<String>,
    pub e: E,
    pub sp: Sp,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Prog {
    pub lets: Vec<Let>,
    pub goal: E,
    pub sp: Sp,
}

pub fn mk(k: K) -> E {
    E { k, sp: (0, 0) }
}
pub fn id(s: &str) -> E {
    mk(K::Id(s.to_string()))
}
pub fn lit(s: &str) -> E {
    mk(K::Lit(s.to_string()))
}
pub fn eps() -> E {
    mk(K::Eps)
}
pub fn cat(v: Vec<E>) -> E {
    let n = v.len();
    assert!(n >= 2);
    mk(K::Cat(v, vec![(0, 0); n - 1]))
}
pub fn alt(v: Vec<E>) -> E {
    let n = v.len();
    assert!(n >= 2);
    mk(K::Alt(v, vec![(0, 0); n - 1]))
}
pub fn fix(e: E) -> E {
    mk(K::Fix(Box::new(e)))
}
pub fn lam(a: &[&str], e: E) -> E {
    mk(K::Lam(a.iter().map(|s| s.to_string()).collect(), Box::new(e)))
}
pub fn call(v: Vec<E>) -> E {
    assert!(v.len() >= 2);
    mk(K::Call(v))
}
pub fn lab(e: E, l: &str) -> E {
    mk(K::Lab(Box::new(e), l.to_string()))
}

impl E {
    pub fn children(&self) -> Vec<&E> {
        match &self.k {
            K::Eps | K::Lit(_) | K::Id(_) => vec![],
            K::Fix(e) | K::Lab(e, _) | K::Lam(_, e) => vec![e],
            K::Call(v) | K::Cat(v, _) | K::Alt(v, _) => v.iter().collect(),
        }
    }
    pub fn children_mut(&mut self) -> Vec<&mut E> {
        match &mut self.k {
            K::Eps | K::Lit(_) | K::Id(_) => vec![],
            K::Fix(e) | K::Lab(e, _) | K::Lam(_, e) => vec![e],
            K::Call(v) | K::Cat(v, _) | K::Alt(v, _) => v.iter_mut().collect(),
        }
    }
    pub fn size(&self) -> usize {
        1 + self.children().iter().map(|c| c.size()).sum::<usize>()
    }
    /// nth node in preorder
    pub fn nth_mut(&mut self, n: &mut usize) -> Option<&mut E> {
        if *n == 0 {
            return Some(self);
        }
        *n -= 1;
        for c in self.children_mut() {
            if let Some(e) = c.nth_mut(n) {
                return Some(e);
            }
        }
        None
    }
    pub fn nth(&self, n: &mut usize) -> Option<&E> {
        if *n == 0 {
            return Some(self);
        }
        *n -= 1;
        for c in self.children() {
            if let Some(e) = c.nth(n) {
                return Some(e);
            }
        }
        None
    }
    /// Structural equality ignoring source ranges.
    pub fn same(&self, o: &E) -> bool {
        let head = match (&self.k, &o.k) {
            (K::Eps, K::Eps) => true,
            (K::Lit(a), K::Lit(b)) | (K::Id(a), K::Id(b)) => a == b,
            (K::Lab(_, a), K::Lab(_, b)) => a == b,
            (K::Lam(a, _), K::Lam(b, _)) => a == b,
            (K::Fix(_), K::Fix(_)) | (K::Call(_), K::Call(_)) | (K::Cat(..), K::Cat(..)) | (K::Alt(..), K::Alt(..)) => true,
            _ => false,
        };
        let (a, b) = (self.children(), o.children());
        head && a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.same(y))
    }
}

impl Prog {
    pub fn size(&self) -> usize {
        self.goal.size() + self.lets.iter().map(|l| 1 + l.e.size()).sum::<usize>()
    }
    pub fn exprs_mut(&mut self) -> Vec<&mut E> {
        let mut v: Vec<&mut E> = self.lets.iter_mut().map(|l| &mut l.e).collect();
        v.push(&mut self.goal);
        v
    }
    pub fn nth_mut(&mut self, mut n: usize) -> Option<&mut E> {
        for e in self.exprs_mut() {
            let s = e.size();
            if n < s {
                return e.nth_mut(&mut n);
            }
            n -= s;
        }
        None
    }
    pub fn nodes(&self) -> usize {
        self.goal.size() + self.lets.iter().map(|l| l.e.size()).sum::<usize>()
    }
    pub fn same(&self, o: &Prog) -> bool {
        self.lets.len() == o.lets.len()
            && self.goal.same(&o.goal)
            && self.lets.iter().zip(&o.lets).all(|(a, b)| a.name == b.name && a.args == b.args && a.e.same(&b.e))
    }
}

#[derive(Clone, Debug)]
pub struct Layout {
    /// 0 minimal, 1 plain, 2 wild whitespace
    pub ws: u8,
    /// one redundant pair of parentheses about every `1/parens` nodes (0: never)
    pub parens: usize,
    /// comments allowed (not in the self-hosted syntax)
    pub comments: bool,
    /// random escapes in literals
    pub escapes: bool,
    /// restrict to the syntax both front ends share
    pub shared: bool,
}

impl Layout {
    pub fn plain() -> Self {
        Layout { ws: 1, parens: 0, comments: false, escapes: false, shared: false }
    }
    pub fn random(r: &mut Rng, shared: bool) -> Self {
        Layout {
            ws: r.below(3) as u8,
            parens: *r.pick(&[0, 0, 3, 8]),
            comments: !shared && r.chance(1, 4),
            escapes: r.chance(1, 3),
            shared,
        }
    }
}

pub struct Printer<'r> {
    pub out: String,
    lay: Layout,
    r: &'r mut Rng,
}

#[derive(Clone, Copy, PartialEq, PartialOrd)]
enum Lv {
    Term,
    Call,
    Cat,
    Lab,
    Alt,
    Expr,
}

fn level(e: &E) -> Lv {
    match e.k {
        K::Eps | K::Lit(_) | K::Id(_) | K::Fix(_) => Lv::Term,
        K::Call(_) => Lv::Call,
        K::Cat(..) => Lv::Cat,
        K::Lab(..) => Lv::Lab,
        K::Alt(..) => Lv::Alt,
        K::Lam(..) => Lv::Expr,
    }
}

fn wordish(c: char) -> bool {
    c == '_' || c == '#' || c.is_alphanumeric() || !c.is_ascii()
}

impl<'r> Printer<'r> {
    pub fn new(lay: Layout, r: &'r mut Rng) -> Self {
        Printer { out: String::new(), lay, r }
    }
    fn blank(&mut self) -> String {
        const WILD: &[&str] = &[
            " ", "  ", "\n", "\t", "\r\n", "\n\n  ", "\u{b}", "\u{c}", "\u{85}", "\u{200e}", "\u{200f}", "\u{2028}", "\u{2029}", "\r",
        ];
        if self.lay.comments && self.r.chance(1, 6) {
            return (*self.r.pick(&["/* c */", " // line | \"x\n", "/* nested /* ; */ match */", " /**/ "])).to_string();
        }
        if self.lay.ws == 2 {
            (*self.r.pick(WILD)).to_string()
        } else {
            " ".to_string()
        }
    }
    /// optional white space
    fn ows(&mut self) {
        let yes = match self.lay.ws {
            0 => false,
            1 => true,
            _ => self.r.chance(1, 2),
        };
        if yes {
            let b = self.blank();
            self.push_blank(&b);
        }
    }
    fn push_blank(&mut self, b: &str) {
        // never create `//` or `/*` by accident
        if self.out.ends_with('/') && b.starts_with('/') {
            self.out.push(' ');
        }
        self.out.push_str(b);
    }
    fn ws(&mut self) {
        let b = self.blank();
        self.push_blank(&b);
        if self.lay.ws == 2 && self.r.chance(1, 4) {
            let b = self.blank();
            self.push_blank(&b);
        }
        // a comment alone separates tokens, but keep one real blank for clarity
        if self.lay.comments {
            self.out.push(' ');
        }
    }
    fn tok(&mut self, s: &str) -> Sp {
        let first = s.chars().next().unwrap();
        if let Some(last) = self.out.chars().last() {
            let lastw = wordish(last) || last == '"';
            let firstw = wordish(first) || first == '"';
            if lastw && firstw {
                self.out.push(' ');
            }
            if last == '/' && (first == '/' || first == '*') {
                self.out.push(' ');
            }
        }
        let a = self.out.len();
        self.out.push_str(s);
        (a, self.out.len())
    }
    fn literal(&mut self, s: &str) -> String {
        // spellings only the reference front end reads
        let rust = self.lay.escapes && !self.lay.shared;
        if rust && self.r.chance(1, 6) && s.chars().all(|c| !c.is_control() || c == '\n' || c == '\t') {
            let mut h = 0;
            while s.contains(&format!("\"{}", "#".repeat(h))) {
                h += 1;
            }
            h += self.r.below(2);
            return format!("r{}\"{}\"{}", "#".repeat(h), s, "#".repeat(h));
        }
        let mut o = String::from("\"");
        for c in s.chars() {
            if rust && !c.is_whitespace() && self.r.chance(1, 12) {
                // the line goes on
                o.push_str(*self.r.pick(&["\\\n", "\\\n   ", "\\\n\n\t"]));
            }
            if rust && (c == '\n' || c == '\t') && self.r.chance(1, 2) {
                o.push(c);
                continue;
            }
            let special = match c {
                '"' => Some("\\\""),
                '\\' => Some("\\\\"),
                '\n' => Some("\\n"),
                '\r' => Some("\\r"),
                '\t' => Some("\\t"),
                '\0' => Some("\\0"),
                _ => None,
            };
            if self.lay.escapes && self.r.chance(1, 3) {
                let u = c as u32;
                let upper = self.r.chance(1, 2);
                match self.r.below(3) {
                    0 if u < 0x80 => {
                        o.push_str(&if upper { format!("\\x{:02X}", u) } else { format!("\\x{:02x}", u) });
                        continue;
                    }
                    1 => {
                        let w = self.r.range(1, 6);
                        o.push_str(&if upper { format!("\\u{{{:0w$X}}}", u, w = w) } else { format!("\\u{{{:0w$x}}}", u, w = w) });
                        continue;
                    }
                    _ => {
                        if c == '\'' {
                            o.push_str("\\'");
                            continue;
                        }
                    }
                }
            }
            match special {
                Some(x) => o.push_str(x),
                None if (c as u32) < 0x20 || c as u32 == 0x7f || (self.lay.shared && !c.is_ascii()) => {
                    o.push_str(&format!("\\u{{{:x}}}", c as u32))
                }
                None => o.push(c),
            }
        }
        o.push('"');
        o
    }
    fn expr(&mut self, e: &mut E, max: Lv) {
        let extra = self.lay.parens > 0 && self.r.chance(1, self.lay.parens);
        if level(e) > max || extra {
            self.tok("(");
            self.ows();
            self.expr(e, Lv::Expr);
            self.ows();
            self.tok(")");
            return;
        }
        let start_len = self.out.len();
        let mut sp: Option<Sp> = None;
        match &mut e.k {
            K::Eps => sp = Some(self.tok("_")),
            K::Lit(s) => {
                let s = self.literal(&s.clone());
                sp = Some(self.tok(&s));
            }
            K::Id(s) => {
                let s = s.clone();
                sp = Some(self.tok(&s));
            }
            K::Fix(i) => {
                let a = self.tok("!");
                self.ows();
                self.expr(i, Lv::Term);
                sp = Some((a.0, self.out.len()));
            }
            K::Call(v) => {
                let mut first = true;
                for x in v.iter_mut() {
                    if !first {
                        self.ws();
                    }
                    first = false;
                    self.expr(x, Lv::Term);
                }
            }
            K::Cat(v, ps) => {
                for (i, x) in v.iter_mut().enumerate() {
                    if i > 0 {
                        self.ows();
                        ps[i - 1] = self.tok(".");
                        self.ows();
                    }
                    self.expr(x, Lv::Call);
                }
            }
            K::Alt(v, ps) => {
                for (i, x) in v.iter_mut().enumerate() {
                    if i > 0 {
                        self.ows();
                        ps[i - 1] = self.tok("|");
                        self.ows();
                    }
                    self.expr(x, Lv::Lab);
                }
            }
            K::Lab(x, l) => {
                let l = l.clone();
                self.expr(x, Lv::Cat);
                self.ows();
                self.tok(":");
                self.ows();
                self.tok(&l);
            }
            K::Lam(args, b) => {
                let args = args.clone();
                self.tok("/");
                self.ows();
                for (i, a) in args.iter().enumerate() {
                    if i > 0 {
                        self.ws();
                    }
                    self.tok(a);
                }
                self.ows();
                self.tok("/");
                self.ows();
                self.expr(b, Lv::Alt);
            }
        }
        e.sp = sp.unwrap_or_else(|| {
            // skip the separator blank `tok` may have inserted
            let mut a = start_len;
            while self.out[a..].starts_with(' ') {
                a += 1;
            }
            (a, self.out.len())
        });
    }
    pub fn prog(mut self, p: &mut Prog) -> String {
        if self.lay.ws == 2 {
            self.ows();
        }
        let mut starts = vec![];
        for l in &mut p.lets {
            starts.push(self.tok("let").0);
            self.ws();
            self.tok(&l.name);
            for a in &l.args {
                self.ws();
                self.tok(a);
            }
            self.ows();
            self.tok("=");
            self.ows();
            self.expr(&mut l.e, Lv::Expr);
            self.ows();
            self.tok(";");
            if self.lay.ws == 1 {
                self.out.push('\n');
            } else {
                self.ows();
            }
        }
        let g = self.tok("match").0;
        self.ws();
        self.expr(&mut p.goal, Lv::Expr);
        self.ows();
        self.tok(";");
        let end = self.out.len();
        p.sp = (g, end);
        for (l, s) in p.lets.iter_mut().zip(starts) {
            l.sp = (s, end);
        }
        if self.lay.ws == 2 {
            self.ows();
        }
        self.out
    }
}

pub fn print(p: &mut Prog, lay: Layout, r: &mut Rng) -> String {
    Printer::new(lay, r).prog(p)
}

// ---------------------------------------------------------------------------------------------
// Independent parser (used for the bundled grammars and for mutated texts).

#[derive(Clone, Debug, PartialEq)]
enum T {
    Id(String),
    Lit(String),
    P(char),
}

fn lex(s: &str) -> Result<Vec<(T, Sp)>, String> {
    let cs: Vec<(usize, char)> = s.char_indices().collect();
    let mut i = 0;
    let mut out = vec![];
    let at = |i: usize| cs.get(i).map(|x| x.1);
    let off = |i: usize| cs.get(i).map(|x| x.0).unwrap_or(s.len());
    while i < cs.len() {
        let c = cs[i].1;
        if c.is_whitespace() || c == '\u{200e}' || c == '\u{200f}' {
            i += 1;
        } else if c == '/' && at(i + 1) == Some('/') {
            while i < cs.len() && cs[i].1 != '\n' {
                i += 1;
            }
        } else if c == '/' && at(i + 1) == Some('*') {
            let mut d = 1;
            i += 2;
            while d > 0 {
                match (at(i), at(i + 1)) {
                    (Some('/'), Some('*')) => {
                        d += 1;
                        i += 2
                    }
                    (Some('*'), Some('/')) => {
                        d -= 1;
                        i += 2
                    }
                    (Some(_), _) => i += 1,
                    (None, _) => return Err("comment".into()),
                }
            }
        } else if c == '"' {
            let a = i;
            i += 1;
            let mut v = String::new();
            loop {
                match at(i) {
                    None => return Err("string".into()),
                    Some('"') => {
                        i += 1;
                        break;
                    }
                    Some('\\') => {
                        let e = at(i + 1).ok_or("esc")?;
                        i += 2;
                        match e {
                            'n' => v.push('\n'),
                            'r' => v.push('\r'),
                            't' => v.push('\t'),
                            '0' => v.push('\0'),
                            '\\' => v.push('\\'),
                            '"' => v.push('"'),
                            '\'' => v.push('\''),
                            '\n' => {
                                while at(i).map_or(false, |c| c.is_whitespace()) {
                                    i += 1;
                                }
                            }
                            'x' => {
                                let h: String = cs[i..].iter().take(2).map(|x| x.1).collect();
                                i += 2;
                                let n = u32::from_str_radix(&h, 16).map_err(|_| "hex")?;
                                if n > 0x7f {
                                    return Err("hex".into());
                                }
                                v.push(char::from_u32(n).unwrap());
                            }
                            'u' => {
                                if at(i) != Some('{') {
                                    return Err("uni".into());
                                }
                                i += 1;
                                let mut h = String::new();
                                while let Some(c) = at(i) {
                                    if c == '}' {
                                        break;
                                    }
                                    h.push(c);
                                    i += 1;
                                }
                                i += 1;
                                let n = u32::from_str_radix(&h, 16).map_err(|_| "uni")?;
                                v.push(char::from_u32(n).ok_or("uni")?);
                            }
                            _ => return Err("esc".into()),
                        }
                    }
                    Some(c) => {
                        v.push(c);
                        i += 1;
                    }
                }
            }
            if at(i).map_or(false, |c| c == '_' || c.is_alphabetic()) {
                // a suffix: legal, with a meaning of its own
                return Err("suffix".into());
            }
            out.push((T::Lit(v), (off(a), off(i))));
        } else if c == '_' || c.is_alphabetic() {
            let a = i;
            while at(i).map_or(false, |c| c == '_' || c.is_alphanumeric()) {
                i += 1;
            }
            let w: String = cs[a..i].iter().map(|x| x.1).collect();
            let hashes = cs[i..].iter().take_while(|x| x.1 == '#').count();
            if matches!(&w[..], "b" | "br" | "c" | "cr") && at(i + hashes) == Some('"') || w == "b" && at(i) == Some('\'') {
                // literals of other kinds
                return Err("kind".into());
            }
            if w == "r" && at(i + hashes) == Some('"') {
                let from = off(i + hashes + 1);
                let close = format!("\"{}", "#".repeat(hashes));
                let n = s[from..].find(&close).ok_or("raw string")?;
                let v = s[from..from + n].to_string();
                if v.contains('\r') {
                    return Err("raw string".into());
                }
                let end = from + n + close.len();
                while off(i) < end {
                    i += 1;
                }
                out.push((T::Lit(v), (off(a), end)));
            } else if w == "r" && at(i) == Some('#') {
                i += 1;
                let b = i;
                while at(i).map_or(false, |c| c == '_' || c.is_alphanumeric()) {
                    i += 1;
                }
                let w: String = cs[b..i].iter().map(|x| x.1).collect();
                out.push((T::Id(format!("r#{}", w)), (off(a), off(i))));
            } else {
                out.push((T::Id(w), (off(a), off(i))));
            }
        } else {
            out.push((T::P(c), (off(i), off(i + 1))));
            i += 1;
        }
    }
    Ok(out)
}

struct Ps {
    t: Vec<(T, Sp)>,
    i: usize,
    end: usize,
}

impl Ps {
    fn peek(&self) -> Option<&T> {
        self.t.get(self.i).map(|x| &x.0)
    }
    fn sp(&self) -> Sp {
        self.t.get(self.i).map(|x| x.1).unwrap_or((self.end, self.end))
    }
    fn is(&self, c: char) -> bool {
        self.peek() == Some(&T::P(c))
    }
    fn eat(&mut self, c: char) -> Result<Sp, String> {
        let sp = self.sp();
        if self.is(c) {
            self.i += 1;
            Ok(sp)
        } else {
            Err(format!("expected {} at {:?}", c, sp))
        }
    }
    fn ident(&mut self) -> Result<String, String> {
        match self.peek().cloned() {
            Some(T::Id(s)) => {
                self.i += 1;
                Ok(s)
            }
            _ => Err("ident".into()),
        }
    }
    fn last_end(&self) -> usize {
        self.t[self.i - 1].1 .1
    }
    fn term(&mut self) -> Result<E, String> {
        let sp = self.sp();
        match self.peek().cloned() {
            Some(T::Id(s)) => {
                self.i += 1;
                Ok(E { k: if s == "_" { K::Eps } else { K::Id(s) }, sp })
            }
            Some(T::Lit(s)) => {
                self.i += 1;
                Ok(E { k: K::Lit(s), sp })
            }
            Some(T::P('!')) => {
                self.i += 1;
                let t = self.term()?;
                Ok(E { k: K::Fix(Box::new(t)), sp: (sp.0, self.last_end()) })
            }
            Some(T::P('(')) => {
                self.i += 1;
                let e = self.expr()?;
                self.eat(')')?;
                Ok(e)
            }
            _ => Err("term".into()),
        }
    }
    fn call(&mut self) -> Result<E, String> {
        let s = self.sp().0;
        let mut v = vec![self.term()?];
        while matches!(self.peek(), Some(T::Id(_)) | Some(T::Lit(_)) | Some(T::P('!')) | Some(T::P('('))) {
            v.push(self.term()?);
        }
        Ok(if v.len() == 1 { v.pop().unwrap() } else { E { k: K::Call(v), sp: (s, self.last_end()) } })
    }
    fn cat(&mut self) -> Result<E, String> {
        let s = self.sp().0;
        let mut v = vec![self.call()?];
        let mut ps = vec![];
        while self.is('.') {
            ps.push(self.eat('.')?);
            v.push(self.call()?);
        }
        Ok(if v.len() == 1 { v.pop().unwrap() } else { E { k: K::Cat(v, ps), sp: (s, self.last_end()) } })
    }
    fn labelled(&mut self) -> Result<E, String> {
        let s = self.sp().0;
        let e = self.cat()?;
        if self.is(':') {
            self.i += 1;
            let l = self.ident()?;
            return Ok(E { k: K::Lab(Box::new(e), l), sp: (s, self.last_end()) });
        }
        Ok(e)
    }
    fn alt(&mut self) -> Result<E, String> {
        let s = self.sp().0;
        let mut v = vec![self.labelled()?];
        let mut ps = vec![];
        while self.is('|') {
            ps.push(self.eat('|')?);
            v.push(self.labelled()?);
        }
        Ok(if v.len() == 1 { v.pop().unwrap() } else { E { k: K::Alt(v, ps), sp: (s, self.last_end()) } })
    }
    fn expr(&mut self) -> Result<E, String> {
        if self.is('/') {
            let s = self.eat('/')?.0;
            let mut args = vec![self.ident()?];
            while !self.is('/') {
                args.push(self.ident()?);
            }
            self.eat('/')?;
            let b = self.alt()?;
            return Ok(E { k: K::Lam(args, Box::new(b)), sp: (s, self.last_end()) });
        }
        self.alt()
    }
    fn prog(&mut self) -> Result<Prog, String> {
        let mut lets = vec![];
        loop {
            let s = self.sp().0;
            match self.peek().cloned() {
                Some(T::Id(w)) if w == "let" => {
                    self.i += 1;
                    let name = self.ident()?;
                    let mut args = vec![];
                    while !self.is('=') {
                        args.push(self.ident()?);
                    }
                    self.eat('=')?;
                    let e = self.expr()?;
                    self.eat(';')?;
                    lets.push(Let { name, args, e, sp: (s, 0) });
                }
                Some(T::Id(w)) if w == "match" => {
                    self.i += 1;
                    let goal = self.expr()?;
                    self.eat(';')?;
                    if self.i != self.t.len() {
                        return Err("trailing".into());
                    }
                    let end = self.last_end();
                    for l in &mut lets {
                        l.sp.1 = end;
                    }
                    return Ok(Prog { lets, goal, sp: (s, end) });
                }
                _ => return Err("stmt".into()),
            }
        }
    }
}

pub fn parse(s: &str) -> Result<Prog, String> {
    let t = lex(s)?;
    Ps { t, i: 0, end: s.len() }.prog()
}

/// Whether a text, right or wrong, stays within the tokens and layout both front ends read the same
/// way: ASCII, no comments, no keywords as parameters, printable non-empty literals with the common
/// escapes, and space between adjacent terms and after `let` and `match`.
pub fn shared_text(s: &str) -> bool {
    let t = match lex(s) {
        Ok(t) => t,
        Err(_) => return false,
    };
    let mut end = 0;
    // the reference front end also reads `_` as a name where a name must stand
    let (mut head, mut slashes) = (0, 0);
    for (i, (tok, sp)) in t.iter().enumerate() {
        match tok {
            T::Id(w) if w == "let" && (i == 0 || t[i - 1].0 == T::P(';')) => head = 1,
            T::Id(w) if w == "_" && (head > 0 || slashes % 2 == 1 || i > 0 && t[i - 1].0 == T::P(':')) => return false,
            // a parameter: the reference front end refuses keywords there
            T::Id(w) if crate::gen::is_keyword(w) && w != "_" && (head > 1 || slashes % 2 == 1) => return false,
            T::Id(_) if head > 0 => head = 2,
            T::P('=') => head = 0,
            T::P('/') => slashes += 1,
            _ => (),
        }
        if s[end..sp.0].chars().any(|c| !matches!(c, ' ' | '\t' | '\n' | '\r' | '\u{b}' | '\u{c}')) {
            return false;
        }
        let src = &s[sp.0..sp.1];
        if !src.is_ascii() {
            return false;
        }
        match tok {
            T::Id(w) => {
                if w != "_" && !w.starts_with(|c: char| c.is_ascii_alphabetic()) || w.starts_with("r#") {
                    return false;
                }
            }
            T::Lit(v) => {
                if v.is_empty() || src.starts_with('r') || src.chars().any(|c| !(' '..='~').contains(&c)) {
                    return false;
                }
            }
            T::P(c) => {
                if c.is_ascii_digit() || matches!(c, '\'' | '#' | '\\' | '`') {
                    return false;
                }
            }
        }
        let left = i > 0 && end == sp.0 && (matches!(t[i - 1].0, T::Id(_) | T::Lit(_)) || t[i - 1].0 == T::P(')'));
        let right = matches!(tok, T::Id(_) | T::Lit(_) | T::P('(') | T::P('!'));
        let keyword = i > 0 && matches!(&t[i - 1].0, T::Id(w) if w == "let" || w == "match");
        if left && (right || keyword) {
            return false;
        }
        end = sp.1;
    }
    s[end..].chars().all(|c| matches!(c, ' ' | '\t' | '\n' | '\r' | '\u{b}' | '\u{c}'))
}
