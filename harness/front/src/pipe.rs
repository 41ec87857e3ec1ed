//! Drives the real compiler in process and turns what it produces into plain data.
use chomp::chomp::ast::{self, error::ReductionError, substitute::Reduce, Expression, NamedExpression};
use chomp::chomp::name::Name;
use chomp::chomp::typed::{
    context::{Context, GetVariableError},
    error::{AltError, CatError, TypeError},
    lower::{Backend, GenerateCode},
    Alt, Cat, Epsilon, Fix, Literal, Type, TypeInfer, Typed, Variable,
};
use chomp::chomp::visit::Visitable;
use chomp::lower::RustBackend;
use chomp::nibble::convert::{self, Convert, ConvertError};
use chomp::nibble::Statement;
use proc_macro2::{Span, TokenStream};
use vref::elab::Ty;

#[derive(Clone, Debug, PartialEq)]
pub enum Kind {
    Undeclared(String),
    EmptyThing,
    NotFunction,
    ArgCount(usize, usize),
    FirstNullable,
    FlastOverlap,
    BothNullable,
    FirstOverlap,
    Guarded(Option<String>),
    Free,
    UnexpectedCall,
    UnexpectedLambda,
    UnexpectedLet,
    ExpectedLambda,
}

#[derive(Clone, Debug)]
pub struct Diag {
    pub kind: Kind,
    pub range: (usize, usize),
    /// the span is not a place in the text at all
    pub nowhere: bool,
    pub msg: String,
    pub syn_msg: String,
}

fn diag(kind: Kind, msg: String, e: syn::Error) -> Diag {
    let s = e.span();
    let r = s.byte_range();
    Diag { kind, range: (r.start, r.end), nowhere: is_nowhere(s), msg, syn_msg: e.to_string() }
}

fn is_nowhere(s: Span) -> bool {
    let r = s.byte_range();
    r.start == 0 && r.end == 0
}

pub fn reset_spans() {
    proc_macro2::extra::invalidate_current_thread_spans();
}

pub fn parse(text: &str) -> Result<Statement, syn::Error> {
    syn::parse_str::<Statement>(text)
}

pub fn convert(s: Statement) -> Result<NamedExpression, Diag> {
    s.convert(&mut convert::Context::default()).map_err(|e| {
        let msg = e.to_string();
        let kind = match &e {
            ConvertError::UndeclaredName(n) => Kind::Undeclared(n.to_string()),
            _ => Kind::EmptyThing,
        };
        diag(kind, msg, e.into())
    })
}

pub fn reduce(e: NamedExpression) -> Result<NamedExpression, Diag> {
    e.fold(&mut Reduce).map_err(|e| {
        let msg = e.to_string();
        let kind = match &e {
            ReductionError::CallNotAFunction { .. } => Kind::NotFunction,
            ReductionError::WrongArgCount { lambda, args, .. } => Kind::ArgCount(lambda.args.len(), args.len()),
        };
        diag(kind, msg, e.into())
    })
}

pub fn infer(e: NamedExpression) -> Result<chomp::chomp::typed::TypedExpression, Diag> {
    let mut context = Context::default();
    e.fold(&mut TypeInfer { context: &mut context }).map_err(|e| {
        let msg = e.to_string();
        let kind = match &e {
            TypeError::Cat(CatError::FirstNullable { .. }) => Kind::FirstNullable,
            TypeError::Cat(CatError::FirstFlastOverlap { .. }) => Kind::FlastOverlap,
            TypeError::Alt(AltError::BothNullable { .. }) => Kind::BothNullable,
            TypeError::Alt(AltError::FirstOverlap { .. }) => Kind::FirstOverlap,
            TypeError::Variable(v) => match v.inner {
                GetVariableError::FreeVariable => Kind::Free,
                GetVariableError::GuardedVariable => Kind::Guarded(v.name.as_ref().map(|n| n.to_string())),
            },
            TypeError::UnexpectedCall { .. } => Kind::UnexpectedCall,
            TypeError::UnexpectedLambda { .. } => Kind::UnexpectedLambda,
            TypeError::UnexpectedLet { .. } => Kind::UnexpectedLet,
            TypeError::ExpectedLambda { .. } => Kind::ExpectedLambda,
        };
        diag(kind, msg, e.into())
    })
}

pub fn codegen(t: chomp::chomp::typed::TypedExpression) -> TokenStream {
    let mut backend = RustBackend::default();
    let id = t.gen(&mut backend);
    backend.emit_code(None, Span::call_site(), id)
}

/// Rewrites some calls of one-argument functions to the let statements they are, which the text
/// form only has at the top.
pub fn nest_lets(n: &mut NamedExpression, r: &mut vref::rng::Rng) -> usize {
    let mut done = 0;
    match &mut n.expr {
        Expression::Cat(c) => {
            done += nest_lets(&mut c.first, r);
            for (_, e) in &mut c.rest {
                done += nest_lets(e, r);
            }
        }
        Expression::Alt(c) => {
            done += nest_lets(&mut c.first, r);
            for (_, e) in &mut c.rest {
                done += nest_lets(e, r);
            }
        }
        Expression::Fix(f) => done += nest_lets(&mut f.inner, r),
        Expression::Call(c) => {
            done += nest_lets(&mut c.on, r);
            for e in &mut c.args {
                done += nest_lets(e, r);
            }
        }
        Expression::Lambda(l) => done += nest_lets(&mut l.inner, r),
        Expression::Let(l) => {
            done += nest_lets(&mut l.bound, r);
            done += nest_lets(&mut l.body, r);
        }
        _ => {}
    }
    let swap = match &n.expr {
        Expression::Call(c) if c.args.len() == 1 => match &c.on.expr {
            Expression::Lambda(l) => l.args.len() == 1 && r.chance(2, 3),
            _ => false,
        },
        _ => false,
    };
    if swap {
        if let Expression::Call(c) = std::mem::replace(&mut n.expr, ast::Epsilon.into()) {
            if let Expression::Lambda(l) = c.on.expr {
                let name = l.args.into_iter().next().unwrap();
                let bound = Box::new(c.args.into_iter().next().unwrap());
                n.expr = ast::Let { name, bound, body: l.inner }.into();
                done += 1;
            }
        }
    }
    done
}

/// Text of a tree in the notation of `vref::elab::resolve` / `Node::show`.
pub fn show(n: &NamedExpression) -> String {
    match &n.expr {
        Expression::Epsilon(_) => "_".into(),
        Expression::Literal(l) => format!("{:?}", l),
        Expression::Cat(c) => join("(", " . ", &c.first, c.rest.iter().map(|x| &x.1)),
        Expression::Alt(c) => join("(", " | ", &c.first, c.rest.iter().map(|x| &x.1)),
        Expression::Fix(f) => format!("!{}", show(&f.inner)),
        Expression::Variable(v) => format!("'{}", v.index),
        Expression::Call(c) => format!("[{}]", std::iter::once(show(&c.on)).chain(c.args.iter().map(show)).collect::<Vec<_>>().join(" ")),
        Expression::Lambda(l) => format!("/{}/{}", l.args.len(), show(&l.inner)),
        Expression::Let(l) => format!("let {}; {}", show(&l.bound), show(&l.body)),
    }
}
fn join<'a>(open: &str, sep: &str, first: &'a NamedExpression, rest: impl Iterator<Item = &'a NamedExpression>) -> String {
    let v: Vec<String> = std::iter::once(first).chain(rest).map(show).collect();
    format!("{}{})", open, v.join(sep))
}
/// As `show` after expansion: fix bodies without their binder.
pub fn show_reduced(n: &NamedExpression) -> String {
    match &n.expr {
        Expression::Cat(c) => {
            let v: Vec<String> = std::iter::once(&*c.first).chain(c.rest.iter().map(|x| &x.1)).map(show_reduced).collect();
            format!("({})", v.join(" . "))
        }
        Expression::Alt(c) => {
            let v: Vec<String> = std::iter::once(&*c.first).chain(c.rest.iter().map(|x| &x.1)).map(show_reduced).collect();
            format!("({})", v.join(" | "))
        }
        Expression::Fix(f) => match &f.inner.expr {
            Expression::Lambda(l) if l.args.len() == 1 => format!("!{}", show_reduced(&l.inner)),
            _ => "<badfix>".into(),
        },
        Expression::Lambda(_) => "<function>".into(),
        Expression::Call(_) => "<call>".into(),
        Expression::Let(_) => "<let>".into(),
        _ => show(n),
    }
}

/// As `show`, with every name, label and parameter.
pub fn show_named(n: &NamedExpression, root: bool) -> String {
    let name = |n: &Option<Name>| match n {
        Some(n) => format!("{{{}}}", n.to_string().trim_start_matches("r#")),
        None => String::new(),
    };
    let lst = |first: &NamedExpression, rest: &Vec<(Span, NamedExpression)>, sep: &str| {
        let v: Vec<String> = std::iter::once(first).chain(rest.iter().map(|x| &x.1)).map(|x| show_named(x, false)).collect();
        format!("({})", v.join(sep))
    };
    let body = match &n.expr {
        Expression::Epsilon(_) => "_".to_string(),
        Expression::Literal(l) => format!("{:?}", l),
        Expression::Cat(c) => lst(&c.first, &c.rest, " . "),
        Expression::Alt(c) => lst(&c.first, &c.rest, " | "),
        Expression::Fix(f) => format!("!{}", show_named(&f.inner, false)),
        Expression::Variable(v) => format!("'{}", v.index),
        Expression::Call(c) => {
            format!("[{}]", std::iter::once(show_named(&c.on, false)).chain(c.args.iter().map(|a| show_named(a, false))).collect::<Vec<_>>().join(" "))
        }
        Expression::Lambda(l) => {
            let a: Vec<String> = l.args.iter().map(|a| a.to_string().trim_start_matches("r#").to_string()).collect();
            format!("/{}/{}", a.join(" "), show_named(&l.inner, false))
        }
        Expression::Let(l) => {
            return format!(
                "let {} = {}; {}",
                l.name.to_string().trim_start_matches("r#"),
                show_named(&l.bound, false),
                show_named(&l.body, root)
            )
        }
    };
    if root {
        body
    } else {
        format!("{}{}", body, name(&n.name))
    }
}

#[derive(Clone, Debug)]
pub enum TK {
    Eps,
    Lit(String),
    Cat(Vec<TN>),
    Alt(Vec<TN>),
    Fix(Box<TN>),
    Var(usize),
}

/// The typed tree the compiler hands to its code generator.
#[derive(Clone, Debug)]
pub struct TN {
    pub k: TK,
    pub ty: Ty,
    pub name: Option<String>,
    /// what the name comes from: label 2, definition 1, parameter 0
    pub kind: u8,
}

pub fn rank(n: &Option<Name>) -> u8 {
    let beats = |probe: Name| {
        let q = Some(probe.clone());
        n.is_some() && Name::merge(q, n.clone()).map_or(false, |m| m.to_string() != probe.to_string())
    };
    match (beats(Name::new_let("probe of the monitor".to_string())), beats(Name::new_variable("probe of the monitor".to_string()))) {
        (true, _) => 2,
        (_, true) => 1,
        _ => 0,
    }
}

pub fn ty(t: &Type) -> Ty {
    Ty {
        null: t.nullable(),
        first: t.first_set().clone().into_iter().collect(),
        flast: t.flast_set().clone().into_iter().collect(),
    }
}

#[derive(Default)]
struct Spy;

impl Backend for Spy {
    type Id = TN;
    type Code = TN;
    fn gen_epsilon(&mut self, name: Option<Name>, _: Span, e: Epsilon) -> TN {
        TN { k: TK::Eps, ty: ty(e.get_type()), kind: rank(&name), name: name.map(|n| n.to_string()) }
    }
    fn gen_literal(&mut self, name: Option<Name>, _: Span, l: Literal) -> TN {
        TN { k: TK::Lit(l.inner().clone()), ty: ty(l.get_type()), kind: rank(&name), name: name.map(|n| n.to_string()) }
    }
    fn gen_cat(&mut self, name: Option<Name>, _: Span, c: Cat) -> TN {
        let t = ty(c.get_type());
        TN { k: TK::Cat(c.into_iter().map(|x| x.gen(self)).collect()), ty: t, kind: rank(&name), name: name.map(|n| n.to_string()) }
    }
    fn gen_alt(&mut self, name: Option<Name>, _: Span, c: Alt) -> TN {
        let t = ty(c.get_type());
        TN { k: TK::Alt(c.into_iter().map(|x| x.gen(self)).collect()), ty: t, kind: rank(&name), name: name.map(|n| n.to_string()) }
    }
    fn gen_fix(&mut self, name: Option<Name>, _: Span, f: Fix) -> TN {
        let t = ty(f.get_type());
        TN { k: TK::Fix(Box::new(f.unwrap().gen(self))), ty: t, kind: rank(&name), name: name.map(|n| n.to_string()) }
    }
    fn gen_variable(&mut self, name: Option<Name>, _: Span, v: Variable) -> TN {
        TN { k: TK::Var(v.index()), ty: ty(v.get_type()), kind: rank(&name), name: name.map(|n| n.to_string()) }
    }
    fn emit_code(self, _: Option<Name>, _: Span, id: TN) -> TN {
        id
    }
}

pub fn spy(t: chomp::chomp::typed::TypedExpression) -> TN {
    t.gen(&mut Spy)
}

impl TN {
    pub fn show(&self) -> String {
        match &self.k {
            TK::Eps => "_".into(),
            TK::Lit(s) => format!("{:?}", s),
            TK::Cat(v) => format!("({})", v.iter().map(|n| n.show()).collect::<Vec<_>>().join(" . ")),
            TK::Alt(v) => format!("({})", v.iter().map(|n| n.show()).collect::<Vec<_>>().join(" | ")),
            TK::Fix(b) => format!("!{}", b.show()),
            TK::Var(i) => format!("'{}", i),
        }
    }
    pub fn children(&self) -> Vec<&TN> {
        match &self.k {
            TK::Cat(v) | TK::Alt(v) => v.iter().collect(),
            TK::Fix(b) => vec![b],
            _ => vec![],
        }
    }
}

pub struct Full {
    pub converted: Result<NamedExpression, Diag>,
    pub reduced: Option<Result<NamedExpression, Diag>>,
    pub typed: Option<Result<TN, Diag>>,
    pub code: Option<TokenStream>,
}

impl Full {
    pub fn diag(&self) -> Option<&Diag> {
        if let Err(d) = &self.converted {
            return Some(d);
        }
        if let Some(Err(d)) = &self.reduced {
            return Some(d);
        }
        if let Some(Err(d)) = &self.typed {
            return Some(d);
        }
        None
    }
    pub fn accepted(&self) -> bool {
        matches!(self.typed, Some(Ok(_)))
    }
}

/// Everything after the syntax tree. `gen`: also run the code generator.
pub fn full(s: Statement, gen: bool) -> Full {
    let converted = convert(s);
    let mut out = Full { converted: converted.clone(), reduced: None, typed: None, code: None };
    if let Ok(c) = converted {
        let red = reduce(c);
        if let Ok(r) = &red {
            let t = infer(r.clone());
            out.typed = Some(match t {
                Ok(t) => {
                    if gen {
                        out.code = Some(codegen(t.clone()));
                    }
                    Ok(spy(t))
                }
                Err(d) => Err(d),
            });
        }
        out.reduced = Some(red);
    }
    out
}

pub fn kind_of(a: &ast::Expression) -> &'static str {
    match a {
        Expression::Epsilon(_) => "eps",
        Expression::Literal(_) => "lit",
        Expression::Cat(_) => "cat",
        Expression::Alt(_) => "alt",
        Expression::Fix(_) => "fix",
        Expression::Variable(_) => "var",
        Expression::Call(_) => "call",
        Expression::Lambda(_) => "lambda",
        Expression::Let(_) => "let",
    }
}
