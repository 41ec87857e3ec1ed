use crate::at::Fault;
use chewed::{IterWrapper, Parser};
use harn::{guard, note, Run, Stats};
use vref::rng::Rng;

// ---- the language: a recursive descent over `0-9+-*/() ` with exact integers ----

#[derive(Debug, Clone, PartialEq)]
pub enum Ref {
    Value(i64),
    /// an expression, but a step leaves the range or divides by zero
    Undefined,
    No,
}

struct P<'a> {
    s: &'a [char],
    i: usize,
    bad: bool,
}
impl<'a> P<'a> {
    fn ws(&mut self) {
        while self.s.get(self.i) == Some(&' ') {
            self.i += 1
        }
    }
    fn peek(&self) -> Option<char> {
        self.s.get(self.i).copied()
    }
    fn fit(&mut self, x: Option<i128>) -> i128 {
        match x {
            Some(x) if i64::try_from(x).is_ok() => x,
            _ => {
                self.bad = true;
                1
            }
        }
    }
    fn number(&mut self) -> Option<i128> {
        let a = self.i;
        let mut v: Option<i128> = Some(0);
        while let Some(d) = self.peek().and_then(|c| c.to_digit(10)) {
            v = v.and_then(|v| v.checked_mul(10)).and_then(|v| v.checked_add(d as i128));
            self.i += 1;
        }
        if a == self.i {
            return None;
        }
        Some(self.fit(v))
    }
    fn term(&mut self) -> Option<i128> {
        let v = match self.peek()? {
            '-' => {
                self.i += 1;
                self.ws();
                -self.number()?
            }
            '(' => {
                self.i += 1;
                self.ws();
                let v = self.expr()?;
                if self.peek() != Some(')') {
                    return None;
                }
                self.i += 1;
                v
            }
            _ => self.number()?,
        };
        self.ws();
        Some(v)
    }
    fn prod(&mut self) -> Option<i128> {
        let mut v = self.term()?;
        while let Some(c @ ('*' | '/')) = self.peek() {
            self.i += 1;
            self.ws();
            let w = self.term()?;
            let x = if c == '*' { v.checked_mul(w) } else { v.checked_div(w) };
            v = self.fit(x);
        }
        Some(v)
    }
    fn expr(&mut self) -> Option<i128> {
        let mut v = self.prod()?;
        while let Some(c @ ('+' | '-')) = self.peek() {
            self.i += 1;
            self.ws();
            let w = self.prod()?;
            let x = if c == '+' { v.checked_add(w) } else { v.checked_sub(w) };
            v = self.fit(x);
        }
        Some(v)
    }
}
/// Where and how the text fails to be an expression.
pub fn fault(text: &str) -> Option<Fault> {
    let s: Vec<char> = text.chars().collect();
    let mut p = P { s: &s, i: 0, bad: false };
    p.ws();
    match (p.expr(), p.i == s.len()) {
        (Some(_), true) => None,
        (Some(_), false) => Some(Fault::Continues(p.i)),
        (None, true) => Some(Fault::End),
        (None, false) => Some(Fault::Character(p.i)),
    }
}
pub fn reference(text: &str) -> Ref {
    let s: Vec<char> = text.chars().collect();
    let mut p = P { s: &s, i: 0, bad: false };
    p.ws();
    match p.expr() {
        Some(v) if p.i == s.len() => {
            if p.bad {
                Ref::Undefined
            } else {
                Ref::Value(v as i64)
            }
        }
        _ => Ref::No,
    }
}

type Answer = Result<Option<i64>, String>;
fn nibble(t: &str) -> Answer {
    guard(|| IterWrapper::new(t.chars()).parse::<chomp_bench::arith::nibble::Ast>().ok().map(i64::from))
}
fn hand(t: &str) -> Answer {
    guard(|| chomp_bench::arith::parse_expr(&mut IterWrapper::new(t.chars())).ok())
}
fn lalr(t: &str) -> Answer {
    thread_local!(static P: chomp_bench::arith::lalr::ExpressionParser = chomp_bench::arith::lalr::ExpressionParser::new());
    guard(|| P.with(|p| p.parse(t).ok()))
}

// ---- workload: an expression grown together with its value ----

struct G<'a> {
    r: &'a mut Rng,
    out: String,
    spaces: usize,
    digits: usize,
    budget: usize,
}
impl<'a> G<'a> {
    fn ws(&mut self) {
        while self.spaces > 0 && self.r.chance(self.spaces, self.spaces + 3) {
            self.out.push(' ')
        }
    }
    fn number(&mut self) {
        match self.r.below(16) {
            0 => self.out.push_str("9223372036854775807"),
            1 => {
                for _ in 0..self.r.range(1, 25) {
                    self.out.push('0')
                }
                let d = self.r.below(10);
                self.out.push_str(&d.to_string());
            }
            2 => self.out.push('0'),
            3 => self.out.push_str(&(1u64 << self.r.below(63)).to_string()),
            _ => {
                for i in 0..self.r.range(1, self.digits) {
                    let d = if i == 0 { self.r.range(0, 9) } else { self.r.below(10) };
                    self.out.push((b'0' + d as u8) as char)
                }
            }
        }
    }
    fn term(&mut self, depth: usize) {
        self.budget = self.budget.saturating_sub(1);
        if depth > 0 && self.budget > 0 && self.r.chance(2, 5) {
            self.out.push('(');
            self.ws();
            self.expr(depth - 1);
            self.out.push(')');
        } else {
            if self.r.chance(1, 4) {
                self.out.push('-');
                self.ws();
            }
            self.number();
        }
        self.ws();
    }
    fn chain(&mut self, depth: usize, mul: bool) {
        let n = if self.budget == 0 { 1 } else { [1, 1, 2, 2, 3, 4, 6][self.r.below(7)] };
        for i in 0..n {
            if i > 0 {
                let c = if mul { *self.r.pick(&['*', '/', '/']) } else { *self.r.pick(&['+', '-', '-']) };
                self.out.push(c);
                self.ws();
            }
            if mul {
                self.term(depth)
            } else {
                self.chain(depth, true)
            }
        }
    }
    fn expr(&mut self, depth: usize) {
        self.chain(depth, false)
    }
}
pub fn grow(r: &mut Rng) -> String {
    let spaces = *r.pick(&[0, 0, 1, 3]);
    let digits = *r.pick(&[1, 1, 2, 3, 18]);
    let depth = r.below(7);
    let budget = *r.pick(&[3, 10, 40]);
    let mut g = G { r, out: String::new(), spaces, digits, budget };
    g.ws();
    g.expr(depth);
    g.out
}
/// A long chain of operations kept in range by construction.
pub fn long(r: &mut Rng, n: usize) -> String {
    let mut s = String::new();
    for i in 0..n {
        if i > 0 {
            s.push_str(*r.pick(&["+", "-", " - ", "/1*", "*-1+"]));
        }
        s.push_str(&r.below(1000).to_string());
    }
    s
}
pub fn deep(r: &mut Rng, n: usize) -> String {
    let mut s = r.below(100).to_string();
    for _ in 0..n {
        s = match r.below(4) {
            0 => format!("({})", s),
            1 => format!("( {} ) ", s),
            2 => format!("({}-{})", s, r.below(10)),
            _ => format!("{}-({})", r.below(10), s),
        };
    }
    s
}
pub fn mutate(r: &mut Rng, s: &str) -> String {
    let mut v: Vec<char> = s.chars().collect();
    for _ in 0..r.range(1, 3) {
        let any = *r.pick(&['0', '7', '+', '-', '*', '/', '(', ')', ' ', 'x', '.', '_', '٣', '−', ',']);
        let at = r.below(v.len() + 1);
        match r.below(5) {
            0 => v.insert(at, any),
            1 if at < v.len() => {
                v.remove(at);
            }
            2 if at < v.len() => v[at] = any,
            3 => v.truncate(at),
            4 if at < v.len() => {
                let c = v[at];
                v.insert(at, c)
            }
            _ => v.insert(at, any),
        }
    }
    v.into_iter().collect()
}
/// Literals that fit, so that only the grammar decides.
fn literals_fit(s: &str) -> bool {
    s.split(|c: char| !c.is_ascii_digit()).all(|d| d.trim_start_matches('0').len() <= 18)
}

fn judge(text: &str, st: &mut Stats) {
    note(text);
    let want = reference(text);
    st.case(text, text.len() > 3);
    let got = [("nibble", nibble(text)), ("hand-written", hand(text)), ("LALRPOP", lalr(text))];
    st.hit(match want {
        Ref::Value(_) => "expressions with a value",
        Ref::Undefined => "expressions without a value (only their acceptance is not judged)",
        Ref::No => "texts that are no expression",
    });
    for (who, g) in got {
        let wrong = match (&want, &g) {
            (Ref::Value(v), Ok(Some(w))) => v != w,
            (Ref::Value(_), _) => true,
            (Ref::No, Ok(Some(_))) => true,
            (Ref::No, Ok(None)) => {
                st.hit("errors for texts that are no expression");
                false
            }
            (Ref::No, Err(_)) | (Ref::Undefined, _) => false,
        };
        if wrong {
            st.violation(format!("the {} evaluator answers {:?}, integer arithmetic {:?}", who, g, want), format!("text: {:?}", text));
        }
    }
}

pub fn c22(run: Run) -> ! {
    // every text of up to five characters over a small alphabet
    let alpha = ['0', '2', '7', '+', '-', '*', '/', '(', ')', ' '];
    let max = if run.thorough { 7 } else { 5 };
    let per = 2_000;
    let total: usize = (0..=max).map(|n| alpha.len().pow(n as u32)).sum();
    run.par("short texts, all", total.div_ceil(per), |i, _, st| {
        for k in i * per..((i + 1) * per).min(total) {
            let mut k = k;
            let mut n = 0;
            while k >= alpha.len().pow(n) {
                k -= alpha.len().pow(n);
                n += 1;
            }
            let mut s = String::new();
            for _ in 0..n {
                s.push(alpha[k % alpha.len()]);
                k /= alpha.len();
            }
            judge(&s, st);
        }
    });
    run.par("expressions", run.scale(30_000, 40), |_, r, st| {
        let s = grow(r);
        judge(&s, st);
        if r.chance(1, 2) {
            let m = mutate(r, &s);
            if literals_fit(&m) {
                judge(&m, st);
            }
        }
    });
    run.par("long and deep expressions", run.scale(60, 10), |i, r, st| {
        let n = [10, 100, 1000, 3000][i % 4];
        let s = if i % 8 < 4 { long(r, n) } else { deep(r, n) };
        judge(&s, st);
    });
    run.par("literals of every length, spaces in bulk", run.scale(400, 20), |_, r, st| {
        // as long as 64 bits have digits, and beyond with zeros in front
        let lit = |r: &mut Rng| {
            let n = r.range(1, 19);
            let mut s: String = (0..n).map(|_| (b'0' + r.below(10) as u8) as char).collect();
            if n == 19 && s > i64::MAX.to_string() {
                s.replace_range(0..1, "8");
            }
            format!("{}{}", "0".repeat(if r.chance(1, 4) { r.below(300) } else { 0 }), s)
        };
        let gap = |r: &mut Rng| " ".repeat(if r.chance(1, 6) { r.range(100, 3000) } else { r.below(3) });
        let mut s = gap(r);
        for i in 0..r.range(1, 4) {
            if i > 0 {
                s.push_str(*r.pick(&["+", "-", "/"]));
                s.push_str(&gap(r));
            }
            if r.chance(1, 3) {
                s.push('-');
                s.push_str(&gap(r));
            }
            let brackets = r.chance(1, 5);
            if brackets {
                s.push('(');
                s.push_str(&gap(r));
            }
            s.push_str(&lit(r));
            s.push_str(&gap(r));
            if brackets {
                s.push(')');
                s.push_str(&gap(r));
            }
        }
        judge(&s, st);
    });
    // the bundled inputs
    let dir = std::path::Path::new("/repo/chomp-bench/benches/arith/data");
    let files: Vec<_> = std::fs::read_dir(dir).map(|d| d.filter_map(|e| e.ok()).map(|e| e.path()).collect()).unwrap_or_default();
    run.par("bundled inputs", files.len(), |i, _, st| {
        if let Ok(t) = std::fs::read_to_string(&files[i]) {
            st.hit("bundled inputs");
            judge(t.trim_end_matches('\n'), st);
        }
    });
    run.finish(
        "every text of up to five (thorough: seven) characters over ten, grown expressions with spaces, leading zeros, boundary literals, nesting and long chains, and mutants of them, given to the three evaluators; each answer is compared with an exact evaluator that checks the range at every step; non-trivial: longer than three characters",
        &["whitespace other than the space is outside the claim", "an expression with a step outside 64 bits or a division by zero is not judged, nor is a panic on text that is no expression"],
    )
}
