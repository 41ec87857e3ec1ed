//! Workload generators: type-directed core grammars, abstraction (lets, functions, higher-order
//! templates), renaming with shadowing, labels, mutations, small exhaustive grammars.
use crate::elab::{self, infer, Fault, Node, Ty, C};
use crate::rng::Rng;
use crate::syntax::*;
use std::collections::BTreeSet;

pub type Set = BTreeSet<char>;

#[derive(Clone, Debug)]
pub struct Opts {
    /// target size of the core expression
    pub size: usize,
    pub alpha: Vec<char>,
    /// chance (of 100) to reuse an earlier sub-expression
    pub reuse: usize,
    pub long_lits: bool,
    /// number of abstraction steps
    pub abstr: usize,
    /// chance (of 100) per node of a label
    pub labels: usize,
    /// 0 fresh, 1 small pool with shadowing, 2 tricky names
    pub names: u8,
    pub shared: bool,
    pub wide: bool,
}

pub const POOLS: &[&[char]] = &[
    &['a', 'b', 'c', 'd'],
    &['a', 'b'],
    &['x', 'y', 'z', '0', '1', '2', '3', '4', '5', '6', '7', '8'],
    &['"', '\'', '\\', '{', '}', '%', '(', ')', '#', '/'],
    &['é', 'ß', '変', '\u{1F600}', 'a', '\u{301}', '\u{10FFFF}', '\u{FEFF}', '\u{D7FF}'],
    &['\n', '\r', '\t', '\u{b}', '\u{c}', '\u{85}', '\u{2028}', '\u{2029}', ' ', 'a'],
    &['\u{0}', '\u{1}', '\u{7f}', '\u{80}', '\u{ff}', 'a', 'b'],
    &['a', 'A', 'b', 'B', '_', '-', '.', '|', '!', ':'],
    // alike in their low bits
    &['a', 'b', 'c', '\u{e1}', '\u{161}', '\u{162}', '\u{164}', '\u{165}', '\u{2162}', '\u{10061}', '\u{10163}'],
    // alike in another case or normal form
    &['k', 'K', '\u{212A}', 's', 'ſ', 'S', 'i', 'ı', 'İ', 'I', 'é', '\u{301}', 'e'],
];

pub fn size_tail(r: &mut Rng) -> usize {
    match r.below(20) {
        0..=7 => r.range(3, 8),
        8..=15 => r.range(8, 20),
        16..=18 => r.range(20, 45),
        _ => r.range(45, 90),
    }
}

impl Opts {
    pub fn random(r: &mut Rng, shared: bool) -> Opts {
        let mut alpha: Vec<char> = r.pick(POOLS).to_vec();
        if r.chance(1, 4) {
            alpha.extend(r.pick(POOLS).iter());
        }
        if shared {
            // any character may be written, as an escape
        }
        r.shuffle(&mut alpha);
        alpha.dedup();
        let keep = r.range(2.min(alpha.len()), alpha.len());
        alpha.truncate(keep);
        Opts {
            size: size_tail(r),
            alpha,
            reuse: *r.pick(&[0, 10, 30, 50]),
            long_lits: r.chance(1, 4),
            abstr: *r.pick(&[0, 1, 2, 4, 8]),
            labels: *r.pick(&[0, 5, 25]),
            names: r.below(3) as u8,
            shared,
            wide: r.chance(1, 8),
        }
    }
}

pub struct Gen<'r> {
    pub r: &'r mut Rng,
    pub o: Opts,
    ctx: Vec<(String, Ty)>,
    pool: Vec<E>,
    fresh: usize,
}

/// Core expression (idents are the recursion variables in `names`) to a tree.
pub fn to_node(e: &E, names: &mut Vec<String>) -> Option<Node> {
    Some(Node::new(match &e.k {
        K::Eps => C::Eps,
        K::Lit(s) => C::Lit(s.clone()),
        K::Id(x) => C::Var(names.iter().rev().position(|n| n == x)?),
        K::Cat(v, p) => C::Cat(v.iter().map(|x| to_node(x, names)).collect::<Option<_>>()?, p.clone()),
        K::Alt(v, p) => C::Alt(v.iter().map(|x| to_node(x, names)).collect::<Option<_>>()?, p.clone()),
        K::Lab(x, _) => return to_node(x, names),
        K::Fix(l) => match &l.k {
            K::Lam(a, b) if a.len() == 1 => {
                names.push(a[0].clone());
                let b = to_node(b, names);
                names.pop();
                C::Fix(Box::new(b?))
            }
            _ => return None,
        },
        K::Call(_) | K::Lam(..) => return None,
    }))
}

pub fn fv(e: &E) -> BTreeSet<String> {
    let mut s = BTreeSet::new();
    fn go(e: &E, bound: &mut Vec<String>, s: &mut BTreeSet<String>) {
        match &e.k {
            K::Id(x) => {
                if !bound.iter().any(|b| elab::unraw(b) == elab::unraw(x)) {
                    s.insert(x.clone());
                }
            }
            K::Lam(a, b) => {
                let n = bound.len();
                bound.extend(a.iter().cloned());
                go(b, bound, s);
                bound.truncate(n);
            }
            _ => e.children().into_iter().for_each(|c| go(c, bound, s)),
        }
    }
    go(e, &mut vec![], &mut s);
    s
}

/// Replace free `x` by `by`; binder names are unique, so nothing is captured.
pub fn subst(e: &mut E, x: &str, by: &E) {
    match &mut e.k {
        K::Id(y) if y == x => *e = by.clone(),
        K::Lam(a, _) if a.iter().any(|b| b == x) => {}
        _ => e.children_mut().into_iter().for_each(|c| subst(c, x, by)),
    }
}

impl<'r> Gen<'r> {
    pub fn new(r: &'r mut Rng, o: Opts) -> Self {
        Gen { r, o, ctx: vec![], pool: vec![], fresh: 0 }
    }
    fn name(&mut self) -> String {
        self.fresh += 1;
        format!("v{}q", self.fresh)
    }
    fn ty(&self, e: &E, usable: usize) -> Option<Ty> {
        let mut names: Vec<String> = self.ctx.iter().map(|c| c.0.clone()).collect();
        let mut n = to_node(e, &mut names)?;
        let mut tys: Vec<Ty> = self.ctx.iter().map(|c| c.1.clone()).collect();
        let mut f: Vec<Fault> = vec![];
        let t = infer(&mut n, &mut tys, usable, &mut f);
        if f.is_empty() {
            Some(t)
        } else {
            None
        }
    }
    fn literal(&mut self, avail: &Set) -> Option<E> {
        if avail.is_empty() {
            return None;
        }
        let v: Vec<char> = avail.iter().copied().collect();
        let mut s = String::new();
        s.push(*self.r.pick(&v));
        let extra = match self.r.below(10) {
            0..=5 => 0,
            6..=8 => self.r.range(1, 3),
            _ if self.o.long_lits => self.r.range(3, 40),
            _ => self.r.range(2, 6),
        };
        for _ in 0..extra {
            let a = self.o.alpha.clone();
            s.push(*self.r.pick(&a));
        }
        Some(lit(&s))
    }
    fn leaf(&mut self, avail: &Set, null_ok: bool, usable: usize) -> Option<E> {
        let mut vars: Vec<String> = vec![];
        for (n, t) in &self.ctx[..usable] {
            if t.first.is_subset(avail) && (!t.null || null_ok) {
                vars.push(n.clone());
            }
        }
        if !vars.is_empty() && self.r.chance(1, 2) {
            return Some(id(self.r.pick(&vars)));
        }
        if null_ok && self.r.chance(1, 3) {
            return Some(if self.r.chance(1, 12) { lit("") } else { eps() });
        }
        self.literal(avail).or(if null_ok { Some(eps()) } else { None })
    }
    pub fn expr(&mut self, avail: &Set, null_ok: bool, usable: usize, size: usize) -> Option<E> {
        let e = self.expr0(avail, null_ok, usable, size)?;
        if self.o.reuse > 0 && e.size() > 1 && e.size() < 60 && self.pool.len() < 40 {
            self.pool.push(e.clone());
        }
        Some(e)
    }
    fn reuse(&mut self, avail: &Set, null_ok: bool, usable: usize) -> Option<E> {
        for _ in 0..3 {
            if self.pool.is_empty() {
                return None;
            }
            let mut e = self.r.pick(&self.pool.clone()).clone();
            let here: Vec<String> = self.ctx.iter().map(|c| c.0.clone()).collect();
            for x in fv(&e) {
                if here.is_empty() {
                    return None;
                }
                if !here.contains(&x) || self.r.chance(1, 3) {
                    let y = self.r.pick(&here).clone();
                    subst(&mut e, &x, &id(&y));
                }
            }
            if self.r.chance(1, 3) {
                let alpha = self.o.alpha.clone();
                tweak(&mut e, self.r, &alpha);
            }
            if let Some(t) = self.ty(&e, usable) {
                if t.first.is_subset(avail) && (null_ok || !t.null) {
                    return Some(e);
                }
            }
        }
        None
    }
    fn expr0(&mut self, avail: &Set, null_ok: bool, usable: usize, size: usize) -> Option<E> {
        if self.o.reuse > 0 && self.r.chance(self.o.reuse, 100) {
            if let Some(e) = self.reuse(avail, null_ok, usable) {
                return Some(e);
            }
        }
        if size <= 1 || (avail.is_empty() && !null_ok) {
            return self.leaf(avail, null_ok, usable);
        }
        match self.r.below(11) {
            0..=3 => self.cat(avail, usable, size),
            4..=6 => self.alt(avail, null_ok, usable, size),
            7..=9 if self.ctx.len() < 6 => self.fix(avail, null_ok, usable, size),
            _ => self.shape(avail, null_ok, usable, size),
        }
        .or_else(|| self.leaf(avail, null_ok, usable))
    }
    fn full(&self) -> Set {
        self.o.alpha.iter().copied().collect()
    }
    fn cat(&mut self, avail: &Set, usable: usize, size: usize) -> Option<E> {
        let n = match self.r.below(12) {
            0..=6 => 2,
            7..=9 => 3,
            10 => 4,
            _ => self.r.range(4, 13),
        };
        let part = (size / n).max(1);
        let first = self.expr(avail, false, usable, part)?;
        let mut ty = self.ty(&first, usable)?;
        if ty.null {
            return None;
        }
        let mut v = vec![first];
        let depth = self.ctx.len();
        for _ in 1..n {
            let next: Set = self.full().difference(&ty.flast).copied().collect();
            let e = match self.expr(&next, true, depth, part) {
                Some(e) => e,
                None => break,
            };
            let t = match self.ty(&e, depth) {
                Some(t) => t,
                None => continue,
            };
            if !t.first.is_disjoint(&ty.flast) {
                continue;
            }
            ty = Ty::cat(&ty, &t);
            v.push(e);
        }
        if v.len() < 2 {
            return v.pop();
        }
        Some(cat(v))
    }
    fn alt(&mut self, avail: &Set, null_ok: bool, usable: usize, size: usize) -> Option<E> {
        let mut chars: Vec<char> = avail.iter().copied().collect();
        self.r.shuffle(&mut chars);
        if self.o.wide && self.r.chance(1, 3) && chars.len() >= 2 {
            // a class of single characters
            return Some(alt(chars.iter().map(|c| lit(&c.to_string())).collect()));
        }
        let n = match self.r.below(12) {
            0..=6 => 2,
            7..=9 => 3,
            10 => 4,
            _ => self.r.range(4, 12),
        };
        let mut v = vec![];
        let nullable_at = if null_ok && self.r.chance(2, 3) { Some(self.r.below(n)) } else { None };
        let part = (size / n).max(1);
        for i in 0..n {
            let take = if i + 1 == n { chars.len() } else { (chars.len() / (n - i)).max(1).min(chars.len()) };
            let take = if chars.is_empty() { 0 } else { self.r.range(1, take.max(1)) };
            let mine: Set = chars.drain(..take).collect();
            let e = self.expr(&mine, nullable_at == Some(i), usable, part);
            if let Some(e) = e {
                v.push(e);
            }
        }
        if v.len() < 2 {
            return v.pop();
        }
        let e = alt(v);
        self.ty(&e, usable).map(|_| e)
    }
    fn fix(&mut self, avail: &Set, null_ok: bool, usable: usize, size: usize) -> Option<E> {
        for _ in 0..6 {
            let x = self.name();
            let some = |r: &mut Rng, s: &Set| -> Set { s.iter().copied().filter(|_| r.chance(2, 3)).collect() };
            let first = if self.r.chance(1, 3) { avail.clone() } else { some(self.r, avail) };
            let full = self.full();
            let flast = match self.r.below(3) {
                0 => Set::new(),
                1 => first.clone(),
                _ => some(self.r, &full),
            };
            let null = null_ok && self.r.chance(1, 2);
            self.ctx.push((x.clone(), Ty { null, first: first.clone(), flast }));
            let b = self.expr(&first, null, usable, size - 1);
            self.ctx.pop();
            let b = match b {
                Some(b) => b,
                None => continue,
            };
            if !fv(&b).contains(&x) && !self.r.chance(1, 10) {
                continue;
            }
            let e = fix(lam(&[&x], b));
            if let Some(t) = self.ty(&e, usable) {
                if t.first.is_subset(avail) && (null_ok || !t.null) {
                    return Some(e);
                }
            }
        }
        None
    }
    /// The usual combinator shapes, so that templates can be folded in later.
    fn shape(&mut self, avail: &Set, null_ok: bool, usable: usize, size: usize) -> Option<E> {
        let x = self.name();
        let i = self.expr(avail, false, usable, size / 2)?;
        let e = match self.r.below(6) {
            0 => alt(vec![eps(), i]),
            1 => fix(lam(&[&x], cat(vec![i, alt(vec![eps(), id(&x)])]))),
            2 => alt(vec![eps(), fix(lam(&[&x], cat(vec![i, alt(vec![eps(), id(&x)])])))]),
            3 => {
                let f = self.full();
                let s = self.expr(&f, false, self.ctx.len(), 2)?;
                fix(lam(&[&x], cat(vec![i, alt(vec![eps(), cat(vec![s, id(&x)])])])))
            }
            4 => {
                let n = self.r.range(2, 6);
                let mut e = i.clone();
                for _ in 1..n {
                    e = cat(vec![i.clone(), alt(vec![eps(), e])]);
                }
                e
            }
            _ => cat(vec![i.clone(), i]),
        };
        let t = self.ty(&e, usable)?;
        if t.first.is_subset(avail) && (null_ok || !t.null) {
            Some(e)
        } else {
            None
        }
    }

    /// A closed core expression that obeys the typing rules.
    pub fn core(&mut self) -> E {
        loop {
            let a = self.full();
            let size = self.o.size;
            let null = self.r.chance(1, 2);
            if let Some(e) = self.expr(&a, null, 0, size) {
                return e;
            }
        }
    }
}

// ---------------------------------------------------------------------------------------------

struct Abs<'r> {
    r: &'r mut Rng,
    fresh: usize,
}

fn at<'a>(p: &'a mut Prog, slot: usize) -> &'a mut E {
    if slot < p.lets.len() {
        &mut p.lets[slot].e
    } else {
        &mut p.goal
    }
}

impl<'r> Abs<'r> {
    fn name(&mut self) -> String {
        self.fresh += 1;
        format!("w{}q", self.fresh)
    }
    fn pick_slot(&mut self, p: &Prog) -> (usize, usize) {
        let slot = if self.r.chance(1, 2) { p.lets.len() } else { self.r.below(p.lets.len() + 1) };
        let n = if slot < p.lets.len() { p.lets[slot].e.size() } else { p.goal.size() };
        (slot, self.r.below(n))
    }
    fn lift(&mut self, p: &mut Prog) {
        let (slot, i) = self.pick_slot(p);
        let names: Vec<String> = p.lets.iter().map(|l| l.name.clone()).collect();
        let f = self.name();
        let e = at(p, slot).nth_mut(&mut { i }).unwrap();
        let mut body = e.clone();
        let free = fv(&body);
        let mut low = 0;
        let mut params = vec![];
        for x in &free {
            match names.iter().position(|n| n == x) {
                Some(j) => low = low.max(j + 1),
                None => params.push(x.clone()),
            }
        }
        if low > slot {
            return;
        }
        let at_idx = if self.r.chance(1, 2) { slot } else { self.r.range(low, slot) };
        self.r.shuffle(&mut params);
        let mut args = vec![];
        for x in &params {
            self.fresh += 1;
            let y = format!("w{}q", self.fresh);
            subst(&mut body, x, &id(&y));
            args.push(y);
        }
        let repl = if params.is_empty() {
            id(&f)
        } else {
            let mut v = vec![id(&f)];
            v.extend(params.iter().map(|x| id(x)));
            call(v)
        };
        *at(p, slot).nth_mut(&mut { i }).unwrap() = repl;
        // a let-bound lambda may be written with parameters
        let (args, body) = match body.k {
            K::Lam(a, b) if args.is_empty() && self.r.chance(1, 2) => (a, *b),
            k => (args, mk(k)),
        };
        p.lets.insert(at_idx, Let { name: f, args, e: body, sp: (0, 0) });
    }
    fn beta(&mut self, p: &mut Prog) {
        let (slot, i) = self.pick_slot(p);
        let k = self.r.range(1, 3);
        let mut params = vec![];
        let mut args = vec![];
        for _ in 0..k {
            let y = self.name();
            let e = at(p, slot).nth_mut(&mut { i }).unwrap();
            let n = e.size();
            let j = self.r.below(n);
            let sub = e.nth(&mut { j }).unwrap().clone();
            // binders inside `e` around the chosen place must not capture
            let mut bound = vec![];
            binders_to(e, j, &mut bound);
            let f = fv(&sub);
            if f.iter().any(|x| bound.contains(x)) || params.iter().any(|q| f.contains(q)) {
                continue;
            }
            if j == 0 && !params.is_empty() {
                continue;
            }
            // sometimes every equal occurrence
            *e.nth_mut(&mut { j }).unwrap() = id(&y);
            if self.r.chance(1, 2) {
                replace_same(e, &sub, &y);
            }
            params.push(y);
            args.push(sub);
        }
        if self.r.chance(1, 5) {
            // an unused parameter
            params.push(self.name());
            args.push(if self.r.chance(1, 2) { lit("unused") } else { fix(lit("!")) });
        }
        if params.is_empty() {
            return;
        }
        let curry = self.r.chance(1, 4);
        let e = at(p, slot).nth_mut(&mut { i }).unwrap();
        let body = e.clone();
        *e = if curry && params.len() > 1 {
            let mut f = body;
            for x in params.iter().rev() {
                f = lam(&[x], f);
            }
            for a in args {
                f = call(vec![f, a]);
            }
            f
        } else {
            let ps: Vec<&str> = params.iter().map(|s| s.as_str()).collect();
            let mut v = vec![lam(&ps, body)];
            v.extend(args);
            call(v)
        };
    }
    fn eta(&mut self, p: &mut Prog) {
        let (slot, i) = self.pick_slot(p);
        let e = at(p, slot).nth_mut(&mut { i }).unwrap();
        if let K::Lam(a, _) = &e.k {
            let ys: Vec<String> = (0..a.len()).map(|_| self.name()).collect();
            let e = at(p, slot).nth_mut(&mut { i }).unwrap();
            let mut v = vec![e.clone()];
            v.extend(ys.iter().map(|y| id(y)));
            let ys: Vec<&str> = ys.iter().map(|s| s.as_str()).collect();
            *e = lam(&ys, call(v));
        }
    }
    fn junk(&mut self, p: &mut Prog) {
        let f = self.name();
        let x = self.name();
        let e = match self.r.below(5) {
            0 => fix(lit("a")),
            1 => call(vec![lit("a"), lit("b")]),
            2 => alt(vec![lit("a"), lit("a")]),
            3 => lam(&[&x], call(vec![id(&x), id(&x)])),
            _ => cat(vec![eps(), lit("a")]),
        };
        let at = self.r.below(p.lets.len() + 1);
        p.lets.insert(at, Let { name: f, args: vec![], e, sp: (0, 0) });
    }
    /// Fold combinator shapes into calls of library functions.
    fn templates(&mut self, p: &mut Prog) {
        let (opt, plus, star, sep, twice, ident, konst, app, comp) = (
            self.name(), self.name(), self.name(), self.name(), self.name(), self.name(), self.name(), self.name(), self.name(),
        );
        let mut used: BTreeSet<&str> = BTreeSet::new();
        let mut todo = vec![];
        for s in 0..=p.lets.len() {
            let n = at(p, s).size();
            for i in 0..n {
                todo.push((s, i));
            }
        }
        // innermost first keeps indices of earlier nodes valid
        for (s, i) in todo.into_iter().rev() {
            if self.r.chance(1, 4) {
                continue;
            }
            let e = match at(p, s).nth_mut(&mut { i }) {
                Some(e) => e,
                None => continue,
            };
            let new = match &e.k {
                K::Alt(v, _) if v.len() == 2 && matches!(v[0].k, K::Eps) => {
                    used.insert("opt");
                    match &v[1].k {
                        K::Call(c) if c.len() == 2 && c[0] == id(&plus) && self.r.chance(1, 2) => {
                            used.insert("star");
                            Some(call(vec![id(&star), c[1].clone()]))
                        }
                        _ => Some(call(vec![id(&opt), v[1].clone()])),
                    }
                }
                K::Fix(l) => match &l.k {
                    K::Lam(a, b) if a.len() == 1 => match &b.k {
                        K::Cat(v, _) if v.len() == 2 && !fv(&v[0]).contains(&a[0]) => match &v[1].k {
                            K::Call(c) if c.len() == 2 && c[0] == id(&opt) && c[1] == id(&a[0]) => {
                                used.insert("plus");
                                Some(call(vec![id(&plus), v[0].clone()]))
                            }
                            K::Call(c) if c.len() == 2 && c[0] == id(&opt) => match &c[1].k {
                                K::Cat(w, _) if w.len() == 2 && w[1] == id(&a[0]) && !fv(&w[0]).contains(&a[0]) => {
                                    used.insert("sep");
                                    Some(call(vec![id(&sep), v[0].clone(), w[0].clone()]))
                                }
                                _ => None,
                            },
                            _ => None,
                        },
                        _ => None,
                    },
                    _ => None,
                },
                K::Cat(v, _) if v.len() == 2 && v[0].same(&v[1]) => {
                    used.insert("twice");
                    Some(call(vec![id(&twice), v[0].clone()]))
                }
                K::Id(_) | K::Lam(..) => None,
                _ if self.r.chance(1, 12) => {
                    let x = self.name();
                    match self.r.below(4) {
                        0 => {
                            used.insert("ident");
                            Some(call(vec![id(&ident), e.clone()]))
                        }
                        1 => {
                            used.insert("konst");
                            Some(call(vec![id(&konst), e.clone(), lit("dropped")]))
                        }
                        2 => {
                            used.insert("app");
                            Some(call(vec![id(&app), lam(&[&x], id(&x)), e.clone()]))
                        }
                        _ => {
                            used.insert("comp");
                            used.insert("ident");
                            Some(call(vec![id(&comp), id(&ident), lam(&[&x], id(&x)), e.clone()]))
                        }
                    }
                }
                _ => None,
            };
            if let Some(n) = new {
                let e = at(p, s).nth_mut(&mut { i }).unwrap();
                *e = n;
            }
        }
        let mut lib: Vec<Let> = vec![];
        let mut def = |name: &str, args: Vec<String>, e: E| lib.push(Let { name: name.into(), args, e, sp: (0, 0) });
        let (x, y, z) = (self.name(), self.name(), self.name());
        def(&opt, vec![x.clone()], alt(vec![eps(), id(&x)]));
        def(&plus, vec![x.clone()], fix(lam(&[&y], cat(vec![id(&x), call(vec![id(&opt), id(&y)])]))));
        def(&star, vec![x.clone()], call(vec![id(&opt), call(vec![id(&plus), id(&x)])]));
        def(&sep, vec![x.clone(), z.clone()], fix(lam(&[&y], cat(vec![id(&x), call(vec![id(&opt), cat(vec![id(&z), id(&y)])])]))));
        def(&twice, vec![x.clone()], cat(vec![id(&x), id(&x)]));
        def(&ident, vec![x.clone()], id(&x));
        def(&konst, vec![x.clone(), y.clone()], id(&x));
        def(&app, vec![x.clone(), y.clone()], call(vec![id(&x), id(&y)]));
        def(&comp, vec![x.clone(), y.clone(), z.clone()], call(vec![id(&x), call(vec![id(&y), id(&z)])]));
        if used.is_empty() {
            return;
        }
        lib.append(&mut p.lets);
        p.lets = lib;
    }
    /// `n f x` with Church numerals.
    fn church(&mut self, p: &mut Prog) {
        // find  i . (_ | i . (_ | i ...))
        fn chain(e: &E) -> Option<(E, usize)> {
            match &e.k {
                K::Cat(v, _) if v.len() == 2 => {
                    if let K::Alt(w, _) = &v[1].k {
                        if w.len() == 2 && w[0].k == K::Eps {
                            if let Some((i, n)) = chain(&w[1]) {
                                if i.same(&v[0]) {
                                    return Some((i, n + 1));
                                }
                            }
                            if w[1].same(&v[0]) {
                                return Some((v[0].clone(), 2));
                            }
                        }
                    }
                    None
                }
                _ => None,
            }
        }
        for s in 0..=p.lets.len() {
            let n = at(p, s).size();
            for i in 0..n {
                let e = at(p, s).nth(&mut { i }).unwrap();
                if let Some((it, k)) = chain(e) {
                    let (zero, suc, nn, f, x, a) = (self.name(), self.name(), self.name(), self.name(), self.name(), self.name());
                    let (f2, x2) = (self.name(), self.name());
                    if fv(&it).len() > 0 {
                        continue;
                    }
                    let mut num = id(&zero);
                    for _ in 1..k {
                        num = call(vec![id(&suc), num]);
                    }
                    let step = lam(&[&a], cat(vec![it.clone(), alt(vec![eps(), id(&a)])]));
                    let e = at(p, s).nth_mut(&mut { i }).unwrap();
                    *e = call(vec![num, step, it]);
                    let mut lib = vec![
                        Let { name: zero, args: vec![f.clone(), x.clone()], e: id(&x), sp: (0, 0) },
                        Let {
                            name: suc,
                            args: vec![nn.clone()],
                            e: lam(&[&f2, &x2], call(vec![id(&f2), call(vec![id(&nn), id(&f2), id(&x2)])])),
                            sp: (0, 0),
                        },
                    ];
                    lib.append(&mut p.lets);
                    p.lets = lib;
                    return;
                }
            }
        }
    }
}

fn binders_to(e: &E, j: usize, out: &mut Vec<String>) {
    if j == 0 {
        return;
    }
    if let K::Lam(a, _) = &e.k {
        out.extend(a.iter().cloned());
    }
    let mut j = j - 1;
    for c in e.children() {
        let s = c.size();
        if j < s {
            return binders_to(c, j, out);
        }
        j -= s;
    }
}

fn replace_same(e: &mut E, what: &E, y: &str) {
    if e.same(what) {
        *e = id(y);
        return;
    }
    e.children_mut().into_iter().for_each(|c| replace_same(c, what, y));
}

pub fn abstraction(p: &mut Prog, r: &mut Rng, steps: usize) {
    if steps == 0 {
        return;
    }
    let mut a = Abs { r, fresh: 0 };
    if a.r.chance(1, 3) {
        a.church(p);
    }
    if a.r.chance(1, 2) {
        a.templates(p);
    }
    for _ in 0..steps {
        match a.r.below(10) {
            0..=4 => a.lift(p),
            5..=7 => a.beta(p),
            8 => a.eta(p),
            _ => a.junk(p),
        }
    }
}

// ---------------------------------------------------------------------------------------------
// names

pub const SMALL: &[&str] = &["x", "y", "z", "a", "b"];
pub const PLAIN: &[&str] = &[
    "item", "list", "term", "expr", "digit", "value", "key", "open", "close", "sep", "inner", "opt", "star", "plus", "rec", "foo", "bar",
    "baz", "a", "b", "c", "x", "y", "z", "long_name_with_parts", "camelCase", "PascalCase", "UPPER", "n1", "n2",
];
pub const TRICKY: &[&str] = &[
    "foo", "Foo", "FOO", "fooBar", "foo_bar", "FooBar", "FOO_BAR", "foo1", "foo_1", "Foo1", "foo11", "foo__bar", "_foo", "foo_", "a1b", "a_1_b",
    "lit", "Lit", "cat", "Cat", "alt", "fix", "part", "Part", "branch", "Branch", "part1", "branch1", "part_1", "ast", "Ast", "epsilon",
    "Epsilon", "Box", "Self", "Parse", "Parser", "TakeError", "Result", "Ok", "Err", "Some", "None", "String", "char", "str", "u8", "std",
    "chewed", "input", "inner", "f", "self", "fmt", "take", "P", "type", "fn", "struct", "impl", "r#type", "r#match", "r#let", "r#fn",
    "__", "_1", "__1", "_a", "x_", "é", "ñandú", "変数", "Ω", "ß", "Straße", "x0", "x00", "lit1", "lit2", "cat3", "alt4", "fix1", "l1t",
    "Lit1", "xX", "XX", "Xx", "async", "await", "dyn", "union", "macro_rules", "match", "let", "i", "I", "ı", "ǆ", "_2b",
];
const KEYWORDS: &[&str] = &[
    "as", "break", "const", "continue", "crate", "else", "enum", "extern", "false", "fn", "for", "if", "impl", "in", "let", "loop", "match",
    "mod", "move", "mut", "pub", "ref", "return", "self", "Self", "static", "struct", "super", "trait", "true", "type", "unsafe", "use",
    "where", "while", "async", "await", "dyn", "abstract", "become", "box", "do", "final", "macro", "override", "priv", "typeof", "unsized",
    "virtual", "yield", "try", "_",
];

pub fn is_keyword(s: &str) -> bool {
    KEYWORDS.contains(&s)
}

fn shared_ok(s: &str) -> bool {
    s.chars().next().map_or(false, |c| c.is_ascii_alphabetic()) && s.chars().all(|c| c.is_ascii_alphanumeric() || c == '_')
}

fn any_name(r: &mut Rng, mode: u8, shared: bool, binder: bool) -> String {
    loop {
        let s = match mode {
            0 => (*r.pick(PLAIN)).to_string(),
            1 => (*r.pick(SMALL)).to_string(),
            _ if r.chance(1, 30) => {
                let n = if r.chance(1, 3) { r.range(140, 330) } else { r.range(25, 140) };
                format!("{}_{}", r.pick(PLAIN), (0..n).map(|_| *r.pick(&['a', 'b', 'q', '_', '7', 'Z'])).collect::<String>())
            }
            _ => match r.below(8) {
                0 => (*r.pick(SMALL)).to_string(),
                1 => format!("{}{}", r.pick(TRICKY), r.range(1, 12)),
                2 => format!("{}_{}", r.pick(TRICKY), r.pick(PLAIN)),
                _ => (*r.pick(TRICKY)).to_string(),
            },
        };
        if shared && !shared_ok(&s) {
            continue;
        }
        if binder && is_keyword(&s) {
            continue;
        }
        if s.starts_with("r#") && (matches!(&s[2..], "self" | "Self" | "super" | "crate" | "_" | "") ) {
            continue;
        }
        if s == "_" {
            continue;
        }
        return s;
    }
}

pub fn label_name(r: &mut Rng, mode: u8, shared: bool) -> String {
    any_name(r, mode, shared, false)
}

/// Rename binders one at a time to names from the pool, keeping the meaning (checked with
/// `resolve`), so that shadowing and reuse of names are common.
pub fn rename(p: &mut Prog, r: &mut Rng, mode: u8, shared: bool) {
    let want = match elab::resolve(p) {
        Some(w) => w,
        None => return,
    };
    let mut binders: BTreeSet<(bool, String)> = BTreeSet::new();
    fn go(e: &E, s: &mut BTreeSet<(bool, String)>) {
        if let K::Lam(a, _) = &e.k {
            s.extend(a.iter().map(|x| (true, x.clone())));
        }
        e.children().into_iter().for_each(|c| go(c, s));
    }
    for l in &p.lets {
        binders.insert((false, l.name.clone()));
        binders.extend(l.args.iter().map(|x| (true, x.clone())));
        go(&l.e, &mut binders);
    }
    go(&p.goal, &mut binders);
    let mut lets: BTreeSet<String> = BTreeSet::new();
    for l in &p.lets {
        lets.insert(l.name.clone());
    }
    for (is_param, b) in binders {
        for attempt in 0..4 {
            let mode = if attempt == 3 { 0 } else { mode };
            let mut n = any_name(r, mode, shared, is_param || lets.contains(&b) && is_param);
            if attempt == 3 {
                n = format!("{}_{}", n, r.below(10000));
            }
            let raw_some = !shared && !n.starts_with("r#") && !is_keyword(&n) && r.chance(1, 12);
            let mut q = p.clone();
            ren_prog(&mut q, &b, &n, raw_some, r);
            if elab::resolve(&q).as_ref() == Some(&want) {
                *p = q;
                break;
            }
        }
    }
}

fn ren_prog(p: &mut Prog, from: &str, to: &str, raw: bool, r: &mut Rng) {
    for l in &mut p.lets {
        if l.name == from {
            l.name = pick_raw(to, raw, r);
        }
        for a in &mut l.args {
            if a == from {
                *a = pick_raw(to, raw, r);
            }
        }
        ren(&mut l.e, from, to, raw, r);
    }
    ren(&mut p.goal, from, to, raw, r);
}
fn pick_raw(to: &str, raw: bool, r: &mut Rng) -> String {
    if raw && r.chance(1, 2) && !matches!(to, "self" | "Self" | "super" | "crate" | "_") {
        format!("r#{}", to)
    } else {
        to.to_string()
    }
}
fn ren(e: &mut E, from: &str, to: &str, raw: bool, r: &mut Rng) {
    match &mut e.k {
        K::Id(x) if x == from => *x = pick_raw(to, raw, r),
        K::Lam(a, _) => {
            for x in a.iter_mut() {
                if x == from {
                    *x = pick_raw(to, raw, r);
                }
            }
        }
        _ => {}
    }
    e.children_mut().into_iter().for_each(|c| ren(c, from, to, raw, r));
}

pub fn labels(p: &mut Prog, r: &mut Rng, pct: usize, mode: u8, shared: bool) {
    if pct == 0 {
        return;
    }
    fn go(e: &mut E, r: &mut Rng, pct: usize, mode: u8, shared: bool) {
        e.children_mut().into_iter().for_each(|c| go(c, r, pct, mode, shared));
        if r.chance(pct, 100) && !matches!(e.k, K::Lam(..)) {
            let l = label_name(r, mode, shared);
            let inner = std::mem::replace(e, eps());
            *e = lab(inner, &l);
        }
    }
    for e in p.exprs_mut() {
        go(e, r, pct, mode, shared);
    }
}

/// A program meant to be well-typed.
pub fn program(r: &mut Rng, o: &Opts) -> Prog {
    let mut core = Gen::new(r, o.clone()).core();
    if r.chance(1, 12) && !o.alpha.is_empty() {
        long_tails(&mut core, r, &o.alpha);
    }
    program_of(core, r, o)
}

pub fn program_of(core: E, r: &mut Rng, o: &Opts) -> Prog {
    let mut p = Prog { lets: vec![], goal: core, sp: (0, 0) };
    abstraction(&mut p, r, o.abstr);
    rename(&mut p, r, o.names, o.shared);
    labels(&mut p, r, o.labels, if o.names == 1 { 0 } else { o.names }, o.shared);
    flatten_labels(&mut p);
    if o.shared {
        for e in p.exprs_mut() {
            no_empty(e);
        }
    }
    p
}

/// One small change: the result looks much like the original and mostly means something else.
pub fn tweak(e: &mut E, r: &mut Rng, alpha: &[char]) {
    let n = e.size();
    let whole = e.clone();
    fn vars(e: &E, out: &mut Vec<String>) {
        if let K::Lam(a, _) = &e.k {
            out.extend(a.iter().cloned());
        }
        if let K::Id(x) = &e.k {
            out.push(x.clone());
        }
        e.children().into_iter().for_each(|c| vars(c, out));
    }
    for _ in 0..12 {
        let k = r.below(n);
        let t = match e.nth_mut(&mut { k }) {
            Some(t) => t,
            None => continue,
        };
        match (&mut t.k, r.below(4)) {
            (K::Cat(v, _), 0) | (K::Alt(v, _), 0) => {
                let (a, b) = (r.below(v.len()), r.below(v.len()));
                v.swap(a, b);
            }
            (K::Cat(v, _), 1) if v.len() > 2 => {
                // another grouping
                let i = r.below(v.len() - 1);
                let b = v.remove(i + 1);
                let a = v.remove(i);
                v.insert(i, cat(vec![a, b]));
            }
            (K::Alt(v, _), 1) if v.len() > 2 => {
                let i = r.below(v.len() - 1);
                let b = v.remove(i + 1);
                let a = v.remove(i);
                v.insert(i, alt(vec![a, b]));
            }
            (K::Cat(v, _), 2) | (K::Alt(v, _), 2) if v.len() > 2 => {
                let i = r.below(v.len());
                v.remove(i);
            }
            (K::Cat(v, _), 3) => {
                let i = r.below(v.len());
                let x = v[i].clone();
                v.insert(i, x);
            }
            (K::Lit(s), _) if !s.is_empty() => tweak_lit(s, r, alpha),
            (K::Eps, 0) => *t = lit(&r.pick(alpha).to_string()),
            (K::Id(x), _) => {
                // another variable; typing decides whether it is in scope
                let mut all = vec![];
                vars(&whole, &mut all);
                let y = r.pick(&all).clone();
                if y == *x {
                    continue;
                }
                *t = id(&y);
            }
            _ => continue,
        }
        if let K::Cat(v, p) | K::Alt(v, p) = &mut t.k {
            p.resize(v.len() - 1, (0, 0));
        }
        return;
    }
}

/// Keeps the first character, so the typing stays as it was.
fn tweak_lit(s: &mut String, r: &mut Rng, alpha: &[char]) {
    let mut cs: Vec<char> = s.chars().collect();
    match r.below(5) {
        0 => cs.push(*r.pick(alpha)),
        1 if cs.len() > 1 => {
            cs.pop();
        }
        2 if cs.len() > 2 => {
            let i = r.range(1, cs.len() - 2);
            cs.swap(i, i + 1);
        }
        3 => {
            let i = r.below(cs.len()) + 1;
            cs.insert(i, *r.pick(alpha));
        }
        _ => {
            let i = r.below(cs.len());
            if i > 0 {
                cs[i] = *r.pick(alpha);
            } else {
                let c = *cs.last().unwrap();
                cs.push(c);
            }
        }
    }
    *s = cs.into_iter().collect();
}

/// Gives literals of the same first character tails that differ in one place only.
pub fn long_tails(e: &mut E, r: &mut Rng, alpha: &[char]) {
    let len = *r.pick(&[7usize, 8, 15, 16, 24, 31, 32, 33, 48, 63, 64, 65, 100, 127, 128, 200, 255, 256, 300]);
    let tail: Vec<char> = (0..len).map(|_| *r.pick(alpha)).collect();
    let mut all: Vec<&mut String> = vec![];
    fn lits<'a>(e: &'a mut E, out: &mut Vec<&'a mut String>) {
        if let K::Lit(_) = e.k {
            if let K::Lit(s) = &mut e.k {
                if !s.is_empty() {
                    out.push(s);
                }
            }
            return;
        }
        e.children_mut().into_iter().for_each(|c| lits(c, out));
    }
    lits(e, &mut all);
    let mut done = 0;
    let few = all.len() <= 6;
    for s in all {
        if done >= 8 || !few && !r.chance(1, 2) {
            continue;
        }
        let mut t = tail.clone();
        match r.below(6) {
            0 => {}
            1 => {
                t.pop();
            }
            2 => t.push(*r.pick(alpha)),
            k => {
                let i = match k {
                    3 => len - 1,
                    4 => r.below(len),
                    _ => r.range(len / 2, len - 1),
                };
                t[i] = *r.pick(alpha);
            }
        }
        let c = s.chars().next().unwrap();
        *s = std::iter::once(c).chain(t).collect();
        done += 1;
    }
}

/// Puts pieces of text that a tool working on lines or on characters might touch into literals,
/// behind their first character.
pub fn fragments(p: &mut Prog, r: &mut Rng) {
    const PIECES: &[&str] = &[
        " \n", "\t\n", "  \n\n", "\n  ", "\n\t", "  ", "\t", "//", "/*", "*/", "// a\n", "/**/", "#", "//!", ";\n", "\n\n\n", "\u{a0}\n", "\u{feff}", "\\n", "\\", "\"", "{}", "{", "}}", "$", "%",
        "\n}", "`", "\u{2028}", "\u{85}\n", "'",
    ];
    fn go(e: &mut E, r: &mut Rng) {
        if let K::Lit(s) = &mut e.k {
            if !s.is_empty() && r.chance(1, 2) {
                let mut v: Vec<String> = s.chars().map(|c| c.to_string()).collect();
                let at = r.range(1, v.len());
                v.insert(at, r.pick(PIECES).to_string());
                *s = v.concat();
            }
            return;
        }
        e.children_mut().into_iter().for_each(|c| go(c, r));
    }
    p.lets.iter_mut().for_each(|l| go(&mut l.e, r));
    go(&mut p.goal, r);
}

/// Long sequences with content in every part, and wide choices with content in every branch,
/// mostly unnamed.
pub fn rows(r: &mut Rng, shared: bool) -> Prog {
    let n = *r.pick(&[7usize, 8, 9, 10, 12, 13, 16, 17, 20, 24, 33]);
    let cs: Vec<char> = ('a'..='z').chain('A'..='Z').chain('0'..='9').collect();
    fn inner(r: &mut Rng, from: usize, cs: &[char]) -> E {
        let c = |k: usize| lit(&cs[(from + k) % cs.len()].to_string());
        match r.below(8) {
            0 | 1 => alt(vec![c(0), c(1)]),
            2 => alt(vec![c(0), c(1), c(2)]),
            6 => cat(vec![c(0), alt(vec![eps(), c(2)])]),
            7 => cat(vec![c(0), alt(vec![cat(vec![c(2), c(0)]), eps()])]),
            3 => cat(vec![c(0), alt(vec![c(1), c(2)])]),
            4 => fix(lam(&["q"], alt(vec![c(0), cat(vec![c(1), id("q")])]))),
            _ => c(0),
        }
    }
    let step = r.below(2) * 3;
    let wide = r.chance(1, 2);
    let v: Vec<E> = (0..n)
        .map(|i| {
            if wide {
                // branches must begin apart
                let head = lit(&cs[i].to_string());
                let body = inner(r, 40 + step * i, &cs);
                if r.chance(1, 6) { head } else { cat(vec![head, body]) }
            } else {
                inner(r, step * i, &cs)
            }
        })
        .collect();
    let mut goal = if wide { alt(v) } else { cat(v) };
    match r.below(5) {
        0 if wide => goal = fix(lam(&["z"], alt(vec![lit("*"), cat(vec![lit("."), goal, id("z")])]))),
        1 => goal = cat(vec![lit("<"), goal, lit(">")]),
        2 if wide => goal = cat(vec![lit("("), goal.clone(), lit(","), goal]),
        _ => (),
    }
    let o = Opts { size: 6, alpha: vec!['a'], reuse: 0, long_lits: false, abstr: r.below(3), labels: *r.pick(&[0, 0, 0, 10]), names: 0, shared, wide: false };
    program_of(goal, r, &o)
}

/// Two or three long rows that agree up to a late place.
pub fn twin_rows(r: &mut Rng, shared: bool) -> Prog {
    let n = *r.pick(&[9usize, 12, 17, 20, 25, 33, 40, 52, 65, 80]);
    let ch = |i: usize| lit(&char::from_u32(0x4e00 + i as u32).unwrap().to_string());
    let wide = r.chance(1, 2);
    // parts, as their numbers, so that rows over few letters repeat
    let base: Vec<usize> = (0..n).map(|i| if wide { i } else { r.below(4) }).collect();
    let mut v = vec![];
    for k in 0..r.range(2, 3) {
        let mut row = base.clone();
        if k > 0 {
            let at = if r.chance(1, 2) { n - 1 } else { r.below(n) };
            match r.below(4) {
                0 => row.truncate((at).max(2)),
                1 => row.push(100 + k),
                _ => row[at] = 100 + k,
            }
        }
        let row: Vec<E> = row.into_iter().map(|c| if wide && c % 3 == 0 { cat(vec![ch(c), lit("a")]) } else { ch(c) }).collect();
        let row = if wide { alt(row) } else { cat(row) };
        v.push(cat(vec![lit(["<", "[", "("][k]), row]));
    }
    let goal = match r.below(3) {
        0 => cat(v),
        1 => fix(lam(&["again"], cat(vec![alt(v), alt(vec![eps(), cat(vec![lit("~"), id("again")])])]))),
        _ => alt(v),
    };
    let o = Opts { size: 6, alpha: vec!['a'], reuse: 0, long_lits: false, abstr: r.below(3), labels: 0, names: 0, shared, wide: false };
    program_of(goal, r, &o)
}

/// The characters of all literals.
pub fn letters(p: &Prog) -> Vec<char> {
    fn go(e: &E, s: &mut BTreeSet<char>) {
        if let K::Lit(x) = &e.k {
            s.extend(x.chars());
        }
        e.children().into_iter().for_each(|c| go(c, s));
    }
    let mut s = BTreeSet::new();
    p.lets.iter().for_each(|l| go(&l.e, &mut s));
    go(&p.goal, &mut s);
    s.into_iter().collect()
}

/// Replaces the characters of all literals one for one by those of a mixed pool.
pub fn relettered(p: &mut Prog, r: &mut Rng) {
    let pool: Vec<char> = POOLS.iter().flat_map(|p| p.iter().copied()).chain(['\u{10000}', '\u{FFFF}', '\u{E000}', '\u{1F601}', '\u{10FFFE}', '\u{7FF}', '\u{800}']).collect();
    reletter(p, pool, r)
}

/// The same program with most characters line breaks, carriage returns above all.
pub fn broken(p: &mut Prog, r: &mut Rng) {
    let mut pool = vec!['\r', '\n', '\r', '\n', '\u{b}', '\u{c}', '\u{85}', '\u{2028}', '\u{2029}'];
    r.shuffle(&mut pool);
    pool.truncate(r.range(3, 9));
    if !pool.contains(&'\r') {
        pool.push('\r');
    }
    reletter(p, pool, r)
}

fn reletter(p: &mut Prog, pool: Vec<char>, r: &mut Rng) {
    let mut pool = pool;
    pool.sort();
    pool.dedup();
    r.shuffle(&mut pool);
    let mut map = std::collections::BTreeMap::new();
    fn go(e: &mut E, pool: &mut Vec<char>, map: &mut std::collections::BTreeMap<char, char>) {
        if let K::Lit(s) = &mut e.k {
            *s = s.chars().map(|c| *map.entry(c).or_insert_with(|| pool.pop().unwrap_or(c))).collect();
            return;
        }
        e.children_mut().into_iter().for_each(|c| go(c, pool, map));
    }
    p.lets.iter_mut().for_each(|l| go(&mut l.e, &mut pool, &mut map));
    go(&mut p.goal, &mut pool, &mut map);
}

/// Several near-copies of one grammar side by side, told apart by what stands before them.
pub fn lookalikes(r: &mut Rng, shared: bool) -> Prog {
    let mut o = Opts::random(r, shared);
    o.alpha.truncate(6);
    if o.alpha.len() < 2 {
        o.alpha = vec!['a', 'b', 'c'];
    }
    o.size = r.range(2, 14);
    o.reuse = *r.pick(&[0, 30]);
    o.wide = false;
    let mut base = Gen::new(r, o.clone()).core();
    if r.chance(1, 4) {
        long_tails(&mut base, r, &o.alpha.clone());
    }
    let mut v = vec![];
    let k = r.range(2, 4);
    for i in 0..k {
        let mut e = base.clone();
        for _ in 0..40 {
            let mut f = base.clone();
            if i > 0 {
                for _ in 0..r.range(1, 2) {
                    tweak(&mut f, r, &o.alpha);
                }
            }
            if let Some(mut n) = to_node(&f, &mut vec![]) {
                let mut faults = vec![];
                infer(&mut n, &mut vec![], 0, &mut faults);
                if faults.is_empty() && (i == 0 || f.k != base.k) {
                    e = f;
                    break;
                }
            }
        }
        let open = ["<", "[", "(", "{"][i];
        let close = [">", "]", ")", "}"][i];
        v.push(match r.below(3) {
            0 => cat(vec![lit(open), e]),
            _ => cat(vec![lit(open), e, lit(close)]),
        });
    }
    let goal = match r.below(4) {
        0 => cat(v),
        1 => fix(lam(&["again"], cat(vec![alt(v), alt(vec![eps(), cat(vec![lit("~"), id("again")])])]))),
        _ => alt(v),
    };
    o.abstr = r.below(5);
    o.labels = *r.pick(&[0, 0, 10]);
    let mut goal = goal;
    if r.chance(1, 3) {
        // names take part in telling expressions apart: take them away
        name_vars(&mut goal);
    }
    program_of(goal, r, &o)
}

fn name_vars(e: &mut E) {
    if let K::Id(_) = e.k {
        *e = lab(e.clone(), "same");
        return;
    }
    e.children_mut().into_iter().for_each(name_vars);
}

/// The self-hosted syntax has no empty literal.
pub fn no_empty(e: &mut E) {
    if e.k == K::Lit(String::new()) {
        *e = eps();
    }
    e.children_mut().into_iter().for_each(no_empty);
}

fn flatten_labels(_p: &mut Prog) {}

/// Random damage: usually makes a program ill-typed, unscoped or badly applied.
pub fn damage(p: &mut Prog, r: &mut Rng, o: &Opts) {
    let times = if r.chance(3, 4) { 1 } else { r.range(2, 3) };
    for _ in 0..times {
        let n = p.nodes();
        let i = r.below(n);
        let j = r.below(n);
        let other = p.nth_mut(j).unwrap().clone();
        let all = idents(p);
        let e = p.nth_mut(i).unwrap();
        match r.below(14) {
            0 | 1 => {
                if let K::Lit(s) = &mut e.k {
                    let mut v: Vec<char> = s.chars().collect();
                    let c = *r.pick(&o.alpha);
                    if v.is_empty() || r.chance(1, 6) {
                        v.insert(0, c);
                    } else {
                        v[0] = c;
                    }
                    *s = v.into_iter().collect();
                } else {
                    *e = lit(&r.pick(&o.alpha).to_string());
                }
            }
            2 => *e = if r.chance(1, 4) && !o.shared { lit("") } else { eps() },
            3 => match &mut e.k {
                K::Cat(v, _) | K::Alt(v, _) | K::Call(v) => {
                    let n = v.len();
                    v.swap(0, r.below(n));
                }
                _ => {}
            },
            4 => {
                if !all.is_empty() {
                    let mut x = r.pick(&all).clone();
                    if r.chance(1, 5) {
                        x.push('q');
                    }
                    if !is_keyword(&x) {
                        *e = id(&x);
                    }
                }
            }
            5 => {
                if let K::Call(v) = &mut e.k {
                    if v.len() > 2 && r.chance(1, 2) {
                        v.pop();
                    } else {
                        v.push(other);
                    }
                }
            }
            6 => *e = fix(e.clone()),
            7 => {
                let x = any_name(r, 1, o.shared, true);
                let y = any_name(r, 0, o.shared, true);
                *e = if r.chance(2, 3) { lam(&[&x], e.clone()) } else { lam(&[&x, &y], e.clone()) };
            }
            8 => {
                if other.size() < 30 {
                    *e = other;
                }
            }
            9 => {
                let v = match &mut e.k {
                    K::Cat(v, p) | K::Alt(v, p) => Some((v, p)),
                    _ => None,
                };
                if let Some((v, ps)) = v {
                    let i = r.below(v.len());
                    if v.len() > 2 {
                        v.remove(i);
                        ps.pop();
                    } else {
                        *e = v[i].clone();
                    }
                }
            }
            10 => {
                e.k = match e.k.clone() {
                    K::Cat(v, p) => K::Alt(v, p),
                    K::Alt(v, p) => K::Cat(v, p),
                    k => k,
                };
            }
            11 => {
                if let K::Cat(v, p) | K::Alt(v, p) = &mut e.k {
                    let i = r.below(v.len());
                    let c = v[i].clone();
                    v.insert(r.below(v.len() + 1), c);
                    p.push((0, 0));
                }
            }
            12 => {
                if let K::Lam(a, _) = &mut e.k {
                    if a.len() > 1 && r.chance(1, 2) {
                        a.pop();
                    } else {
                        a.push(any_name(r, 1, o.shared, true));
                    }
                }
            }
            _ => {
                // call something
                if other.size() < 20 {
                    *e = call(vec![e.clone(), other]);
                }
            }
        }
    }
    if o.shared {
        for e in p.exprs_mut() {
            no_empty(e);
        }
    }
}

pub fn idents(p: &Prog) -> Vec<String> {
    let mut s = BTreeSet::new();
    fn go(e: &E, s: &mut BTreeSet<String>) {
        match &e.k {
            K::Id(x) => {
                s.insert(x.clone());
            }
            K::Lam(a, _) => s.extend(a.iter().cloned()),
            _ => {}
        }
        e.children().into_iter().for_each(|c| go(c, s));
    }
    for l in &p.lets {
        s.insert(l.name.clone());
        s.extend(l.args.iter().cloned());
        go(&l.e, &mut s);
    }
    go(&p.goal, &mut s);
    s.into_iter().collect()
}

/// A random surface expression with no regard to types or scope (grouping and layout tests).
pub fn wild(r: &mut Rng, size: usize, shared: bool, alpha: &[char], scope: &[String]) -> E {
    if size <= 1 {
        return match r.below(4) {
            0 => eps(),
            1 | 2 if !scope.is_empty() => id(r.pick(scope)),
            _ => {
                let mut s = String::new();
                let n = if r.chance(1, 10) && !shared { 0 } else { r.range(1, 4) };
                for _ in 0..n {
                    s.push(*r.pick(alpha));
                }
                lit(&s)
            }
        };
    }
    let kids = |r: &mut Rng, max: usize| {
        let n = r.range(2, max);
        let s = ((size - 1) / n).max(1);
        (0..n).map(|_| wild(r, s, shared, alpha, scope)).collect::<Vec<_>>()
    };
    match r.below(6) {
        0 => fix(wild(r, size - 1, shared, alpha, scope)),
        1 => call(kids(r, 4)),
        2 => cat(kids(r, 4)),
        3 => alt(kids(r, 4)),
        4 => {
            let l = any_name(r, 2, shared, false);
            lab(wild(r, size - 1, shared, alpha, scope), &l)
        }
        _ => {
            let n = r.range(1, 3);
            let a: Vec<String> = (0..n).map(|_| any_name(r, (r.0 % 3) as u8, shared, true)).collect();
            let mut sc = scope.to_vec();
            sc.extend(a.iter().cloned());
            let b = wild(r, size - 1, shared, alpha, &sc);
            mk(K::Lam(a, Box::new(b)))
        }
    }
}

pub fn wild_prog(r: &mut Rng, shared: bool) -> Prog {
    let o = Opts::random(r, shared);
    let mut scope: Vec<String> = vec![];
    let mut lets = vec![];
    for _ in 0..r.below(4) {
        let name = any_name(r, (r.0 % 3) as u8, shared, false);
        let args: Vec<String> = (0..r.below(3)).map(|_| any_name(r, (r.0 % 3) as u8, shared, true)).collect();
        let mut sc = scope.clone();
        sc.extend(args.iter().cloned());
        let size = r.range(1, 10);
        let e = wild(r, size, shared, &o.alpha, &sc);
        lets.push(Let { name: name.clone(), args, e, sp: (0, 0) });
        scope.push(name);
    }
    let size = r.range(1, 14);
    let mut goal = wild(r, size, shared, &o.alpha, &scope);
    if r.chance(1, 10) && !scope.is_empty() {
        goal = id(r.pick(&scope));
    }
    let mut p = Prog { lets, goal, sp: (0, 0) };
    if shared {
        for e in p.exprs_mut() {
            no_empty(e);
        }
    }
    p
}

/// Every core expression of exactly `size` nodes over the given literals, with at most `depth`
/// nested recursions; variables are named by their level.
pub fn exhaustive(size: usize, lits: &[&str], level: usize, depth: usize) -> Vec<E> {
    let mut out = vec![];
    if size == 1 {
        out.push(eps());
        out.extend(lits.iter().map(|l| lit(l)));
        out.extend((0..level).map(|i| id(&format!("r{}", i))));
        return out;
    }
    if level < depth {
        for b in exhaustive(size - 1, lits, level + 1, depth) {
            out.push(fix(lam(&[&format!("r{}", level)], b)));
        }
    }
    for l in 1..size - 1 {
        let rs = exhaustive(size - 1 - l, lits, level, depth);
        for a in exhaustive(l, lits, level, depth) {
            for b in &rs {
                out.push(cat(vec![a.clone(), b.clone()]));
                out.push(alt(vec![a.clone(), b.clone()]));
            }
        }
    }
    out
}

/// Programs large in one dimension: parts, alternatives, definitions, parameters, arguments, nesting,
/// literals, names. Sizes lie around the limits of small integer types.
pub fn large(r: &mut Rng, shared: bool) -> Prog {
    let n = *r.pick(&[60, 127, 128, 129, 255, 256, 257, 258, 300, 513]);
    let deep = *r.pick(&[20, 60, 127, 129, 255, 257, 300]);
    let ch = |i: usize| char::from_u32(0x4e00 + i as u32).unwrap().to_string();
    let ab = |i: usize| if i % 2 == 0 { "a" } else { "b" };
    let mut lets = vec![];
    let names = |n: usize, p: &str| (0..n).map(|i| format!("{}{}", p, i)).collect::<Vec<_>>();
    let goal = match r.below(19) {
        0 => cat((0..n).map(|i| lit(ab(i))).collect()),
        1 => cat((0..n).map(|i| if i > 0 && i % 3 == 1 { alt(vec![eps(), lit("c")]) } else { lit(ab(i)) }).collect()),
        2 => alt((0..n).map(|i| lit(&ch(i))).collect()),
        3 => alt((0..n).map(|i| if i == n / 2 { eps() } else { cat(vec![lit(&ch(i)), lit("a")]) }).collect()),
        4 => {
            // a chain of definitions
            for i in 0..n {
                let b = if i == 0 { lit("a") } else { cat(vec![lit(ab(i)), id(&format!("d{}", i - 1))]) };
                lets.push(Let { name: format!("d{}", i), args: vec![], e: b, sp: (0, 0) });
            }
            id(&format!("d{}", if r.chance(1, 2) { n - 1 } else { r.below(n) }))
        }
        5 => {
            // many definitions, one of them used
            for i in 0..n {
                lets.push(Let { name: format!("d{}", i), args: vec![], e: lit(&ch(i)), sp: (0, 0) });
            }
            cat(vec![id("d0"), id(&format!("d{}", r.below(n))), id(&format!("d{}", n - 1))])
        }
        6 | 7 => {
            // a function of many parameters
            let ps = names(n, "p");
            let refs: Vec<&str> = ps.iter().map(|s| s.as_str()).collect();
            let used = cat((0..r.range(2, 6)).map(|_| id(ps[r.below(n)].as_str())).collect());
            let used = cat(vec![id(&ps[0]), used, id(&ps[n - 1])]);
            let mut v = vec![];
            if r.chance(1, 2) {
                lets.push(Let { name: "f".into(), args: ps.clone(), e: used, sp: (0, 0) });
                v.push(id("f"));
            } else {
                v.push(lam(&refs, used));
            }
            let m = if r.chance(1, 3) { n - 1 + r.below(3) } else { n };
            v.extend((0..m).map(|i| lit(&ch(i))));
            call(v)
        }
        8 => {
            // recursion inside recursion, referring far out (typing takes time exponential in the depth)
            let deep = r.range(4, 13);
            let mut e = alt(vec![lit("z"), cat(vec![lit("y"), id("r0")]), cat(vec![lit("w"), id(&format!("r{}", deep / 2))])]);
            for i in (0..deep).rev() {
                e = fix(lam(&[&format!("r{}", i)], cat(vec![lit(ab(i)), e])));
            }
            e
        }
        9 => {
            // alternation and sequence in turn
            let mut e = lit("z");
            for i in 0..deep {
                e = if i % 2 == 0 { cat(vec![lit("a"), e]) } else { alt(vec![lit("b"), e]) };
            }
            e
        }
        10 => {
            let s: String = (0..*r.pick(&[255usize, 256, 257, 1000, 4096, 65_535, 65_537])).map(|i| if i % 7 == 3 { 'é' } else { 'a' }).collect();
            let s: String = if shared { s.chars().take(600).collect() } else { s };
            cat(vec![lit(&s), alt(vec![lit("b"), lit("c")])])
        }
        11 => {
            let long: String = format!("n{}", "ame_x".repeat(*r.pick(&[12usize, 52, 60, 210])));
            lets.push(Let { name: long.clone(), args: vec![], e: alt(vec![lit("a"), lit("b")]), sp: (0, 0) });
            cat(vec![id(&long), lab(lit("c"), &format!("{}y", long))])
        }
        12 => {
            // one label many times
            cat((0..n).map(|i| lab(lit(ab(i)), "same")).collect())
        }
        13 => alt((0..n).map(|i| lab(lit(&ch(i)), if i % 3 == 0 { "same" } else { "other" })).collect()),
        14 => {
            // functions handed on many times
            let k = deep.min(60);
            for i in 0..k {
                let b = if i == 0 { cat(vec![id("x"), lit("a")]) } else { call(vec![id(&format!("f{}", i - 1)), cat(vec![lit("b"), id("x")])]) };
                lets.push(Let { name: format!("f{}", i), args: vec!["x".into()], e: b, sp: (0, 0) });
            }
            call(vec![id(&format!("f{}", k - 1)), lit("c")])
        }
        15..=17 => {
            // character sets that lie between one another, apart or with one character in common
            let k = r.range(2, 4);
            let mut sets: Vec<Vec<String>> = vec![vec![]; k];
            for i in 0..n.max(127) {
                let s = if r.chance(1, 3) { i % k } else { r.below(k) };
                sets[s].push(ch(i));
            }
            if r.chance(1, 2) {
                let (a, b) = (r.below(k), r.below(k));
                if let Some(c) = sets[a].clone().get(r.below(sets[a].len().max(1))) {
                    sets[b].push(c.clone());
                }
            }
            let mut e: Vec<E> = sets.into_iter().filter(|s| s.len() > 1).map(|s| alt(s.iter().map(|c| lit(c)).collect())).collect();
            for (a, b) in [("A", "B"), ("C", "D"), ("E", "F")] {
                if e.len() < 3 {
                    e.push(alt(vec![lit(a), lit(b)]));
                }
            }
            match r.below(4) {
                0 | 1 => alt(e),
                2 => {
                    let mut v = vec![lit("a")];
                    v.extend(e.into_iter().map(|x| alt(vec![eps(), x])));
                    cat(v)
                }
                _ => {
                    let last = e.pop().unwrap();
                    let x = alt(e);
                    cat(vec![fix(lam(&["q"], cat(vec![lit("a"), alt(vec![eps(), cat(vec![x, id("q")])])]))), alt(vec![eps(), last])])
                }
            }
        }
        _ => {
            // many types of one kind
            alt((0..n.min(260)).map(|i| cat(vec![lit(&ch(i)), fix(lam(&["q"], alt(vec![eps(), cat(vec![lit(&ch(i + 600)), id("q")])]))) ])).collect())
        }
    };
    Prog { lets, goal, sp: (0, 0) }
}

/// Programs full of calls with the right number of arguments: functions of up to fourteen parameters,
/// arguments with free variables, functions handed over as arguments, names used again and again.
pub fn applied(r: &mut Rng, shared: bool) -> Prog {
    let fixes = r.below(4);
    applied_under(r, shared, fixes, 0)
}

/// As `applied`, far inside: below many binders with names of their own, recursions (as many as
/// `fixes`) and functions applied on the spot.
pub fn applied_far(r: &mut Rng, shared: bool, fixes: usize) -> Prog {
    let calls = r.below(7);
    let fixes = r.below(fixes + 1);
    applied_under(r, shared, fixes, calls)
}

fn applied_under(r: &mut Rng, shared: bool, depth: usize, calls: usize) -> Prog {
    const NAMES: &[&str] = &["a", "b", "c", "d", "e", "f", "g", "h", "x", "y", "z", "n", "m", "k"];
    const ARITIES: &[usize] = &[1, 1, 2, 2, 3, 4, 5, 6, 8, 9, 10, 14];
    type Scope = Vec<(String, usize)>;
    /// the values a name stands for at this point
    fn visible(sc: &Scope, values: bool) -> Vec<(String, usize)> {
        let mut seen = BTreeSet::new();
        sc.iter().rev().filter(|(n, k)| seen.insert(n.clone()) && (*k == 0) == values).cloned().collect()
    }
    fn leaf(r: &mut Rng, sc: &Scope) -> E {
        let v = visible(sc, true);
        if !v.is_empty() && r.chance(4, 5) {
            return id(&r.pick(&v).0);
        }
        lit(*r.pick(&["p", "q", "r", "s", "t"]))
    }
    fn params(r: &mut Rng, k: usize, fresh: bool) -> Vec<String> {
        let mut v: Vec<String> = NAMES.iter().map(|s| s.to_string()).collect();
        r.shuffle(&mut v);
        v.truncate(k);
        if fresh && k > 1 && r.chance(1, 12) {
            // the same name twice
            let i = r.below(k);
            v[i] = v[k - 1].clone();
        }
        v
    }
    fn function(r: &mut Rng, size: usize, sc: &Scope, k: usize) -> (Vec<String>, E) {
        let ps = params(r, k, true);
        let mut sc = sc.clone();
        sc.extend(ps.iter().map(|p| (p.clone(), 0)));
        (ps, value(r, size, &sc))
    }
    /// a function of k parameters, as an expression
    fn functional(r: &mut Rng, size: usize, sc: &Scope, k: usize) -> E {
        let known: Vec<_> = visible(sc, false).into_iter().filter(|f| f.1 == k).collect();
        if !known.is_empty() && r.chance(1, 2) {
            return id(&r.pick(&known).0);
        }
        let (ps, b) = function(r, size, sc, k);
        mk(K::Lam(ps, Box::new(b)))
    }
    fn value(r: &mut Rng, size: usize, sc: &Scope) -> E {
        if size <= 1 {
            return leaf(r, sc);
        }
        let few = |r: &mut Rng| {
            let n = r.range(2, 4);
            (0..n).map(|_| value(r, (size - 1) / n, sc)).collect::<Vec<_>>()
        };
        match r.below(9) {
            0 | 1 => cat(few(r)),
            2 => alt(few(r)),
            3 => {
                let x = r.pick(NAMES).to_string();
                let mut sc = sc.clone();
                sc.push((x.clone(), 0));
                fix(lam(&[&x], value(r, size - 1, &sc)))
            }
            4..=6 => {
                let k = *r.pick(ARITIES);
                let on = functional(r, size / 2, sc, k);
                let mut v = vec![on];
                v.extend((0..k).map(|_| if r.chance(1, 2) { leaf(r, sc) } else { value(r, (size / 2) / k, sc) }));
                call(v)
            }
            7 => {
                // a function among the arguments
                let k = *r.pick(&[1usize, 2, 3, 6]);
                let n = r.range(1, 6);
                let at = r.below(n);
                let ps = params(r, n, false);
                let mut inner = sc.clone();
                inner.extend(ps.iter().enumerate().map(|(i, p)| (p.clone(), if i == at { k } else { 0 })));
                let mut c = vec![id(&ps[at])];
                c.extend((0..k).map(|_| leaf(r, &inner)));
                let b = cat(vec![call(c), value(r, size / 3, &inner)]);
                let mut v = vec![mk(K::Lam(ps, Box::new(b)))];
                v.extend((0..n).map(|i| if i == at { functional(r, size / 3, sc, k) } else { leaf(r, sc) }));
                call(v)
            }
            _ => {
                let fs = visible(sc, false);
                if fs.is_empty() {
                    return cat(few(r));
                }
                let (f, k) = r.pick(&fs).clone();
                let mut v = vec![id(&f)];
                v.extend((0..k).map(|_| value(r, (size - 1) / k, sc)));
                call(v)
            }
        }
    }
    let mut sc: Scope = vec![];
    let mut lets = vec![];
    for _ in 0..r.below(5) {
        let k = if r.chance(1, 4) { 0 } else { *r.pick(ARITIES) };
        let size = r.range(2, 14);
        let (args, e) = if k == 0 { (vec![], value(r, size, &sc)) } else { function(r, size, &sc, k) };
        let name = r.pick(NAMES).to_string();
        lets.push(if r.chance(1, 3) && k > 0 {
            Let { name: name.clone(), args: vec![], e: mk(K::Lam(args, Box::new(e))), sp: (0, 0) }
        } else {
            Let { name: name.clone(), args, e, sp: (0, 0) }
        });
        sc.push((name, k));
    }
    let size = r.range(4, 24);
    // under a few recursions, so that there are variables that stay
    let far = depth > 3 || calls > 0;
    let mut levels: Vec<Option<Vec<String>>> = vec![None; depth];
    levels.extend((0..calls).map(|_| Some(vec![])));
    r.shuffle(&mut levels);
    let around = if far { (0..depth).map(|i| format!("v{}", i)).collect() } else { params(r, depth, false) };
    let mut around = around.into_iter();
    let mut inner = sc.clone();
    // each level: the names it binds, and what they are given
    let mut bound: Vec<(Vec<String>, Option<Vec<E>>)> = vec![];
    for (i, l) in levels.into_iter().enumerate() {
        let (names, given) = match l {
            None => (vec![around.next().unwrap()], None),
            Some(_) => {
                let k = r.range(1, 6);
                (
                    (0..k).map(|j| format!("w{}_{}", i, j)).collect(),
                    Some(
                        (0..k)
                            .map(|_| {
                                let size = r.range(1, 4);
                                value(r, size, &inner)
                            })
                            .collect(),
                    ),
                )
            }
        };
        inner.extend(names.iter().map(|x| (x.clone(), 0)));
        bound.push((names, given));
    }
    let mut goal = value(r, size, &inner);
    for (names, given) in bound.into_iter().rev() {
        goal = match given {
            None => fix(lam(&[&names[0]], cat(vec![lit("("), goal]))),
            Some(args) => {
                let mut v = vec![mk(K::Lam(names, Box::new(goal)))];
                v.extend(args);
                call(v)
            }
        };
    }
    let mut p = Prog { lets, goal, sp: (0, 0) };
    if shared {
        p.exprs_mut().into_iter().for_each(no_empty);
    }
    p
}

/// As `applied`, with another number of arguments in one of the calls.
pub fn miscounted(r: &mut Rng, shared: bool) -> Prog {
    for _ in 0..20 {
        let mut p = applied(r, shared);
        fn collect<'a>(e: &'a mut E, out: &mut Vec<usize>, at: &mut usize) {
            if let K::Call(_) = e.k {
                out.push(*at);
            }
            *at += 1;
            for c in e.children_mut() {
                collect(c, out, at);
            }
        }
        let mut at = vec![];
        let mut n = 0;
        for e in p.exprs_mut() {
            collect(e, &mut at, &mut n);
        }
        if at.is_empty() {
            continue;
        }
        let k = *r.pick(&at);
        if let Some(E { k: K::Call(v), .. }) = p.nth_mut(k) {
            let want = if r.chance(1, 3) { 1 } else { r.range(1, 13) };
            if want + 1 == v.len() {
                v.push(lit("u"));
            }
            v.truncate(want + 1);
            while v.len() < want + 1 {
                v.push(lit("u"));
            }
        } else {
            continue;
        }
        return p;
    }
    applied(r, shared)
}
