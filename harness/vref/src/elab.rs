//! Reference semantics of programs: lexically scoped call-by-name expansion (environments and
//! binding levels, no index shifting), then the typing rules as a fault-collecting least solution.
use crate::syntax::{Prog, Sp, E, K};
use std::collections::BTreeSet;
use std::rc::Rc;

pub const VAR: u8 = 0;
pub const LET: u8 = 1;
pub const LABEL: u8 = 2;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Fault {
    Undeclared { name: String, sp: Sp },
    NotFunction { sp: Sp },
    ArgCount { want: usize, got: usize, sp: Sp },
    UnexpectedFunction { sps: Vec<Sp> },
    ExpectedFunction { sps: Vec<Sp> },
    FirstNullable { sp: Sp },
    FlastOverlap { sp: Sp },
    BothNullable { sp: Sp },
    FirstOverlap { sp: Sp },
    Guarded { sps: Vec<Sp>, names: Vec<String> },
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Stage {
    Convert,
    Reduce,
    Type,
}

impl Fault {
    pub fn stage(&self) -> Stage {
        match self {
            Fault::Undeclared { .. } => Stage::Convert,
            Fault::NotFunction { .. } | Fault::ArgCount { .. } => Stage::Reduce,
            _ => Stage::Type,
        }
    }
}

#[derive(Clone, Debug, Default, PartialEq, Eq, Hash)]
pub struct Ty {
    pub null: bool,
    pub first: BTreeSet<char>,
    pub flast: BTreeSet<char>,
}

impl Ty {
    pub fn le(&self, o: &Ty) -> bool {
        (!self.null || o.null) && self.first.is_subset(&o.first) && self.flast.is_subset(&o.flast)
    }
    pub fn of_lit(s: &str) -> Ty {
        Ty { null: s.is_empty(), first: s.chars().take(1).collect(), flast: BTreeSet::new() }
    }
    pub fn cat(a: &Ty, b: &Ty) -> Ty {
        let mut first = a.first.clone();
        if a.null {
            first.extend(&b.first);
        }
        let mut flast = b.flast.clone();
        if b.null {
            flast.extend(&b.first);
            flast.extend(&a.flast);
        }
        Ty { null: a.null && b.null, first, flast }
    }
    pub fn alt(a: &Ty, b: &Ty) -> Ty {
        Ty {
            null: a.null || b.null,
            first: a.first.union(&b.first).copied().collect(),
            flast: a.flast.union(&b.flast).copied().collect(),
        }
    }
}

#[derive(Clone, Debug)]
pub enum C {
    Eps,
    Lit(String),
    Cat(Vec<Node>, Vec<Sp>),
    Alt(Vec<Node>, Vec<Sp>),
    Fix(Box<Node>),
    Var(usize),
    /// a function where a language is needed
    Function,
    /// fix of something that is not a one-argument function
    BadFix,
    /// a reduction fault happened here
    Broken,
}

#[derive(Clone, Debug)]
pub struct Node {
    pub k: C,
    /// name candidates: (kind, name)
    pub cands: Vec<(u8, String)>,
    /// acceptable source ranges for a fault located at this node
    pub sps: Vec<Sp>,
    pub ty: Ty,
}

impl Node {
    pub fn new(k: C) -> Node {
        Node { k, cands: vec![], sps: vec![], ty: Ty::default() }
    }
    pub fn children(&self) -> Vec<&Node> {
        match &self.k {
            C::Cat(v, _) | C::Alt(v, _) => v.iter().collect(),
            C::Fix(b) => vec![b],
            _ => vec![],
        }
    }
    pub fn size(&self) -> usize {
        1 + self.children().iter().map(|c| c.size()).sum::<usize>()
    }
    /// The name this node must carry: Ok(None) none, Ok(Some) determined, Err when the rules leave a tie.
    pub fn name(&self) -> Result<Option<&str>, ()> {
        let top = match self.cands.iter().map(|c| c.0).max() {
            None => return Ok(None),
            Some(t) => t,
        };
        let mut it = self.cands.iter().filter(|c| c.0 == top).map(|c| c.1.as_str());
        let a = it.next().unwrap();
        if it.all(|b| b == a) {
            Ok(Some(a))
        } else {
            Err(())
        }
    }
    pub fn show(&self) -> String {
        match &self.k {
            C::Eps => "_".into(),
            C::Lit(s) => format!("{:?}", s),
            C::Cat(v, _) => format!("({})", v.iter().map(|n| n.show()).collect::<Vec<_>>().join(" . ")),
            C::Alt(v, _) => format!("({})", v.iter().map(|n| n.show()).collect::<Vec<_>>().join(" | ")),
            C::Fix(b) => format!("!{}", b.show()),
            C::Var(i) => format!("'{}", i),
            C::Function => "<function>".into(),
            C::BadFix => "<badfix>".into(),
            C::Broken => "<broken>".into(),
        }
    }
}

pub fn unraw(s: &str) -> &str {
    s.strip_prefix("r#").unwrap_or(s)
}

enum Bind<'a> {
    /// expression to be evaluated in its own environment, with the name its binder gives it
    Thunk { e: &'a E, env: Env<'a>, cand: (u8, String) },
    LetFn { args: &'a [String], body: &'a E, env: Env<'a>, cand: (u8, String), sp: Sp },
    Rec { level: usize },
}

struct EnvNode<'a> {
    name: String,
    bind: Bind<'a>,
    /// nodes and functions of the tree it is replaced by where replacing is done on trees
    size: Size,
    next: Env<'a>,
}
type Env<'a> = Option<Rc<EnvNode<'a>>>;

enum Val<'a> {
    G(Node),
    Fun { args: &'a [String], body: &'a E, env: Env<'a>, cands: Vec<(u8, String)>, sps: Vec<Sp> },
}

/// Nodes and functions of a tree.
type Size = (u64, u64);
/// The nodes that expansion by replacing in trees may go through before a program counts as too big.
const WORK: u64 = 8_000_000;

pub struct Elab {
    fuel: usize,
    /// what a call-by-name expansion by replacing in trees goes through, at least
    work: u64,
    nest: usize,
    pub faults: Vec<Fault>,
    pub calls: usize,
}

#[derive(Debug)]
pub struct TooBig;

#[derive(Debug)]
pub struct Outcome {
    pub root: Option<Node>,
    /// all faults of the first stage that has any
    pub faults: Vec<Fault>,
    /// every fault found, over all stages
    pub all: Vec<Fault>,
    pub calls: usize,
}

impl Outcome {
    pub fn accepted(&self) -> bool {
        self.faults.is_empty()
    }
    pub fn stage(&self) -> Option<Stage> {
        self.faults.first().map(|f| f.stage())
    }
}

fn push<'a>(env: &Env<'a>, name: &str, bind: Bind<'a>, size: Size) -> Env<'a> {
    Some(Rc::new(EnvNode { name: unraw(name).to_string(), bind, size, next: env.clone() }))
}

/// The size of an expression in which everything bound outside has been replaced.
fn size<'a>(e: &E, env: &Env<'a>, inner: &mut Vec<String>) -> Size {
    match &e.k {
        K::Id(x) if inner.iter().any(|y| y == unraw(x)) => (1, 0),
        K::Id(x) => lookup(env, x).map_or((1, 0), |b| b.size),
        K::Lam(args, b) => {
            let n = inner.len();
            inner.extend(args.iter().map(|a| unraw(a).to_string()));
            let (k, l) = size(b, env, inner);
            inner.truncate(n);
            (k.saturating_add(1), l.saturating_add(1))
        }
        _ => e.children().into_iter().fold((1, 0), |(k, l), c| {
            let (a, b) = size(c, env, inner);
            (a.saturating_add(k), b.saturating_add(l))
        }),
    }
}

fn lookup<'a, 'b>(env: &'b Env<'a>, name: &str) -> Option<&'b EnvNode<'a>> {
    let mut e = env.as_ref();
    while let Some(n) = e {
        if n.name == unraw(name) {
            return Some(n);
        }
        e = n.next.as_ref();
    }
    None
}

impl Elab {
    fn step(&mut self) -> Result<(), TooBig> {
        if self.fuel == 0 || self.nest > 400 {
            return Err(TooBig);
        }
        self.fuel -= 1;
        Ok(())
    }

    fn spend(&mut self, work: u64) -> Result<(), TooBig> {
        self.work = self.work.saturating_add(work);
        if self.work > WORK {
            return Err(TooBig);
        }
        Ok(())
    }

    fn ground<'a>(&mut self, v: Val<'a>) -> Node {
        match v {
            Val::G(n) => n,
            Val::Fun { cands, sps, .. } => Node { k: C::Function, cands, sps, ty: Ty::default() },
        }
    }

    fn eval<'a>(&mut self, e: &'a E, env: &Env<'a>, depth: usize) -> Result<Val<'a>, TooBig> {
        self.nest += 1;
        let r = self.eval1(e, env, depth);
        self.nest -= 1;
        r
    }

    fn eval1<'a>(&mut self, e: &'a E, env: &Env<'a>, depth: usize) -> Result<Val<'a>, TooBig> {
        self.step()?;
        let node = |k| Node { k, cands: vec![], sps: vec![e.sp], ty: Ty::default() };
        Ok(Val::G(match &e.k {
            K::Eps => node(C::Eps),
            K::Lit(s) => node(C::Lit(s.clone())),
            K::Id(x) => {
                let b = match lookup(env, x) {
                    Some(b) => b,
                    None => return Ok(Val::G(node(C::Broken))), // statically reported
                };
                let occ = (VAR, x.clone());
                match &b.bind {
                    Bind::Rec { level } => {
                        let mut n = node(C::Var(depth - 1 - level));
                        n.cands.push(occ);
                        n
                    }
                    Bind::Thunk { e: e2, env: env2, cand } => {
                        let (e2, env2, cand) = (*e2, env2.clone(), cand.clone());
                        let mut v = self.eval(e2, &env2, depth)?;
                        let (cs, ss) = match &mut v {
                            Val::G(n) => (&mut n.cands, &mut n.sps),
                            Val::Fun { cands, sps, .. } => (cands, sps),
                        };
                        cs.push(cand);
                        cs.push(occ);
                        ss.push(e.sp);
                        return Ok(v);
                    }
                    Bind::LetFn { args, body, env: env2, cand, sp } => {
                        return Ok(Val::Fun {
                            args,
                            body,
                            env: env2.clone(),
                            cands: vec![cand.clone(), occ],
                            sps: vec![*sp, body.sp, e.sp],
                        })
                    }
                }
            }
            K::Lab(x, l) => {
                let mut v = self.eval(x, env, depth)?;
                let (cs, ss) = match &mut v {
                    Val::G(n) => (&mut n.cands, &mut n.sps),
                    Val::Fun { cands, sps, .. } => (cands, sps),
                };
                cs.push((LABEL, l.clone()));
                ss.push(e.sp);
                return Ok(v);
            }
            K::Lam(args, body) => {
                return Ok(Val::Fun { args, body, env: env.clone(), cands: vec![], sps: vec![e.sp] })
            }
            K::Cat(v, ps) => {
                let mut out = vec![];
                for x in v {
                    let g = self.eval(x, env, depth)?;
                    out.push(self.ground(g));
                }
                node(C::Cat(out, ps.clone()))
            }
            K::Alt(v, ps) => {
                let mut out = vec![];
                for x in v {
                    let g = self.eval(x, env, depth)?;
                    out.push(self.ground(g));
                }
                node(C::Alt(out, ps.clone()))
            }
            K::Fix(x) => match self.eval(x, env, depth)? {
                Val::Fun { args, body, env: fenv, cands, .. } => {
                    let mut inner_env = fenv;
                    for a in args {
                        inner_env = push(&inner_env, a, Bind::Rec { level: depth }, (1, 0));
                    }
                    let b = self.eval(body, &inner_env, depth + 1)?;
                    let mut b = self.ground(b);
                    b.cands.extend(cands);
                    if args.len() == 1 {
                        node(C::Fix(Box::new(b)))
                    } else {
                        node(C::BadFix)
                    }
                }
                Val::G(n) if matches!(n.k, C::Broken) => node(C::Broken),
                Val::G(_) => node(C::BadFix),
            },
            K::Call(v) => {
                let on = self.eval(&v[0], env, depth)?;
                match on {
                    Val::Fun { args, body, env: fenv, cands, .. } => {
                        if args.len() != v.len() - 1 {
                            self.faults.push(Fault::ArgCount { want: args.len(), got: v.len() - 1, sp: e.sp });
                            return Ok(Val::G(node(C::Broken)));
                        }
                        self.calls += 1;
                        let mut benv = fenv;
                        let mut given = 0u64;
                        for (p, a) in args.iter().zip(&v[1..]) {
                            let n = size(a, env, &mut vec![]);
                            given = given.saturating_add(n.0);
                            benv = push(&benv, p, Bind::Thunk { e: a, env: env.clone(), cand: (VAR, p.clone()) }, n);
                        }
                        let (nodes, functions) = size(body, &benv, &mut vec![]);
                        self.spend(nodes.saturating_mul(args.len() as u64).saturating_add(given.saturating_mul(1 + functions)))?;
                        let mut out = self.eval(body, &benv, depth)?;
                        let (cs, ss) = match &mut out {
                            Val::G(n) => (&mut n.cands, &mut n.sps),
                            Val::Fun { cands, sps, .. } => (cands, sps),
                        };
                        cs.extend(cands);
                        ss.push(e.sp);
                        return Ok(out);
                    }
                    Val::G(n) => {
                        if !matches!(n.k, C::Broken) {
                            self.faults.push(Fault::NotFunction { sp: e.sp });
                        }
                        node(C::Broken)
                    }
                }
            }
        }))
    }

    fn scope(&mut self, e: &E, sc: &mut Vec<String>) {
        match &e.k {
            K::Id(x) => {
                if !sc.iter().any(|y| y == unraw(x)) {
                    self.faults.push(Fault::Undeclared { name: x.clone(), sp: e.sp });
                }
            }
            K::Lam(args, b) => {
                let n = sc.len();
                sc.extend(args.iter().map(|a| unraw(a).to_string()));
                self.scope(b, sc);
                sc.truncate(n);
            }
            _ => {
                for c in e.children() {
                    self.scope(c, sc);
                }
            }
        }
    }
}

/// The ranges that stand for the construct at `sp`: its own, those of the labels around it, and
/// that of the goal statement it is the whole of.
pub fn widened(p: &Prog, sp: Sp) -> Vec<Sp> {
    fn go(e: &E, sp: Sp, above: &mut Vec<Sp>, out: &mut Vec<Sp>) {
        if e.sp == sp {
            out.extend(above.iter().copied());
        }
        if let K::Lab(x, _) = &e.k {
            above.push(e.sp);
            go(x, sp, above, out);
            above.pop();
        } else {
            for c in e.children() {
                go(c, sp, &mut vec![], out);
            }
        }
    }
    let mut out = vec![sp];
    for l in &p.lets {
        go(&l.e, sp, &mut vec![], &mut out);
    }
    go(&p.goal, sp, &mut vec![p.sp], &mut out);
    out
}

/// The De Bruijn tree of a program before expansion, as text: checks name resolution.
pub fn resolve(p: &Prog) -> Option<String> {
    fn go(e: &E, sc: &mut Vec<String>) -> Option<String> {
        Some(match &e.k {
            K::Eps => "_".into(),
            K::Lit(s) => format!("{:?}", s),
            K::Id(x) => {
                let i = sc.iter().rev().position(|y| y == unraw(x))?;
                format!("'{}", i)
            }
            K::Fix(b) => format!("!{}", go(b, sc)?),
            K::Lab(b, _) => go(b, sc)?,
            K::Call(v) => format!("[{}]", v.iter().map(|x| go(x, sc)).collect::<Option<Vec<_>>>()?.join(" ")),
            K::Cat(v, _) => format!("({})", v.iter().map(|x| go(x, sc)).collect::<Option<Vec<_>>>()?.join(" . ")),
            K::Alt(v, _) => format!("({})", v.iter().map(|x| go(x, sc)).collect::<Option<Vec<_>>>()?.join(" | ")),
            K::Lam(a, b) => {
                let n = sc.len();
                sc.extend(a.iter().map(|a| unraw(a).to_string()));
                let r = go(b, sc);
                sc.truncate(n);
                format!("/{}/{}", a.len(), r?)
            }
        })
    }
    let mut sc = vec![];
    let mut out = String::new();
    for l in &p.lets {
        let n = sc.len();
        sc.extend(l.args.iter().map(|a| unraw(a).to_string()));
        let b = go(&l.e, &mut sc);
        sc.truncate(n);
        let b = b?;
        out.push_str(&if l.args.is_empty() { format!("let {}; ", b) } else { format!("let /{}/{}; ", l.args.len(), b) });
        sc.push(unraw(&l.name).to_string());
    }
    out.push_str(&go(&p.goal, &mut sc)?);
    Some(out)
}

pub fn elab(p: &Prog, fuel: usize) -> Result<Outcome, TooBig> {
    let mut el = Elab { fuel, work: 0, nest: 0, faults: vec![], calls: 0 };
    let mut sc: Vec<String> = vec![];
    for l in &p.lets {
        let n = sc.len();
        sc.extend(l.args.iter().map(|a| unraw(a).to_string()));
        el.scope(&l.e, &mut sc);
        sc.truncate(n);
        sc.push(unraw(&l.name).to_string());
    }
    el.scope(&p.goal, &mut sc);
    if !el.faults.is_empty() {
        return Ok(Outcome { root: None, all: el.faults.clone(), faults: el.faults, calls: 0 });
    }
    let mut env: Env<'_> = None;
    for l in &p.lets {
        let cand = (LET, l.name.clone());
        let b = if l.args.is_empty() {
            Bind::Thunk { e: &l.e, env: env.clone(), cand }
        } else {
            Bind::LetFn { args: &l.args, body: &l.e, env: env.clone(), cand, sp: l.sp }
        };
        let mut n = size(&l.e, &env, &mut l.args.iter().map(|a| unraw(a).to_string()).collect());
        if !l.args.is_empty() {
            n = (n.0.saturating_add(1), n.1.saturating_add(1));
        }
        el.spend(n.0.saturating_mul(2))?;
        env = push(&env, &l.name, b, n);
    }
    let v = el.eval(&p.goal, &env, 0)?;
    let mut root = el.ground(v);
    if p.lets.is_empty() {
        root.cands.push((VAR, "Ast".into()));
    } else {
        // the goal's default name also applies under lets
        root.cands.push((VAR, "Ast".into()));
    }
    for l in &p.lets {
        root.sps.push(l.sp);
    }
    root.sps.push(p.sp);
    // a fix body takes the final name of its fix as a candidate
    inherit(&mut root);
    let red = el.faults.clone();
    let mut tf = vec![];
    infer(&mut root, &mut vec![], 0, &mut tf);
    let mut uniq: Vec<Fault> = vec![];
    for f in tf {
        if !uniq.contains(&f) {
            uniq.push(f);
        }
    }
    let mut all = red.clone();
    all.extend(uniq.iter().cloned());
    let faults = if !red.is_empty() { red } else { uniq };
    Ok(Outcome { root: Some(root), faults, all, calls: el.calls })
}

fn inherit(n: &mut Node) {
    if let C::Fix(b) = &mut n.k {
        let c = n.cands.clone();
        b.cands.extend(c);
    }
    match &mut n.k {
        C::Cat(v, _) | C::Alt(v, _) => v.iter_mut().for_each(inherit),
        C::Fix(b) => inherit(b),
        _ => {}
    }
}

/// `ctx`: types of the enclosing recursive variables, outermost first; the first `usable` of them
/// are behind a non-empty prefix.
pub fn infer(n: &mut Node, ctx: &mut Vec<Ty>, usable: usize, faults: &mut Vec<Fault>) -> Ty {
    let ty = match &mut n.k {
        C::Eps => Ty { null: true, ..Ty::default() },
        C::Lit(s) => Ty::of_lit(s),
        C::Cat(v, ps) => {
            let mut it = v.iter_mut();
            let mut ty = infer(it.next().unwrap(), ctx, usable, faults);
            if ty.null {
                faults.push(Fault::FirstNullable { sp: ps[0] });
            }
            let d = ctx.len();
            for (x, p) in it.zip(ps.iter()) {
                let t = infer(x, ctx, d, faults);
                if !ty.flast.is_disjoint(&t.first) {
                    faults.push(Fault::FlastOverlap { sp: *p });
                }
                ty = Ty::cat(&ty, &t);
            }
            ty
        }
        C::Alt(v, ps) => {
            let mut it = v.iter_mut();
            let mut ty = infer(it.next().unwrap(), ctx, usable, faults);
            for (x, p) in it.zip(ps.iter()) {
                let t = infer(x, ctx, usable, faults);
                if ty.null && t.null {
                    faults.push(Fault::BothNullable { sp: *p });
                }
                if !ty.first.is_disjoint(&t.first) {
                    faults.push(Fault::FirstOverlap { sp: *p });
                }
                ty = Ty::alt(&ty, &t);
            }
            ty
        }
        C::Fix(b) => {
            // warm start: the last solution, for smaller types of the enclosing variables, lies below
            let mut ty = n.ty.clone();
            loop {
                ctx.push(ty.clone());
                let t = infer(b, ctx, usable, faults);
                ctx.pop();
                if t == ty {
                    break ty;
                }
                ty = t;
            }
        }
        C::Var(i) => {
            let level = ctx.len() - 1 - *i;
            if level >= usable {
                faults.push(Fault::Guarded {
                    sps: n.sps.clone(),
                    names: n.cands.iter().map(|c| c.1.clone()).collect(),
                });
            }
            ctx[level].clone()
        }
        C::Function => {
            faults.push(Fault::UnexpectedFunction { sps: n.sps.clone() });
            Ty::default()
        }
        C::BadFix => {
            faults.push(Fault::ExpectedFunction { sps: n.sps.clone() });
            Ty::default()
        }
        C::Broken => Ty::default(),
    };
    n.ty = ty.clone();
    ty
}
