//! What passes, contexts and backends written against the library are given. The oracle reads the
//! public fields of the tree itself; visits, folds and code generation have no part in it.
use crate::pipe;
use crate::streams::{self, border, mixed, printed};
use chomp::chomp::ast::{self, error::ReductionError, substitute::Reduce, Call, Expression, Lambda, Let, NamedExpression};
use chomp::chomp::name::Name;
use chomp::chomp::typed::{
    context::Context,
    error::{AltError, CatError, TypeError},
    lower::{Backend, GenerateCode},
    Alt, Cat, Epsilon, Fix, Literal, Type, TypeInfer, Typed, TypedExpression, Variable,
};
use chomp::chomp::visit::{Folder, Mapper, Visitable, Visitor};
use harn::{guard, Run, Stats};
use proc_macro2::Span;
use vref::elab::elab;
use vref::gen;
use vref::rng::Rng;
use vref::syntax::{self, Layout};

const FUEL: usize = 2_000;
const NODES: usize = 4_000;

fn place(s: Span) -> String {
    let r = s.byte_range();
    format!("{}..{}", r.start, r.end)
}

fn called(n: Option<&Name>) -> String {
    match n {
        Some(n) => format!("{}{}", pipe::rank(&Some(n.clone())), n),
        None => "-".into(),
    }
}

/// What a node is by itself.
fn head(e: &Expression) -> String {
    match e {
        Expression::Epsilon(_) => "_".into(),
        Expression::Literal(l) => format!("{:?}", l),
        Expression::Cat(c) => format!(".{:?}", c.rest.iter().map(|x| place(x.0)).collect::<Vec<_>>()),
        Expression::Alt(c) => format!("|{:?}", c.rest.iter().map(|x| place(x.0)).collect::<Vec<_>>()),
        Expression::Fix(_) => "!".into(),
        Expression::Variable(v) => format!("'{}", v.index),
        Expression::Call(c) => format!("@{}", c.args.len()),
        Expression::Lambda(l) => format!("/{}/", l.args.iter().map(|a| called(Some(a))).collect::<Vec<_>>().join(",")),
        Expression::Let(l) => format!("let {}", called(Some(&l.name))),
    }
}

fn children(e: &Expression) -> Vec<&NamedExpression> {
    match e {
        Expression::Cat(ast::Cat { first, rest }) | Expression::Alt(ast::Alt { first, rest }) => std::iter::once(&**first).chain(rest.iter().map(|x| &x.1)).collect(),
        Expression::Fix(f) => vec![&f.inner],
        Expression::Call(c) => std::iter::once(&*c.on).chain(&c.args).collect(),
        Expression::Lambda(l) => vec![&l.inner],
        Expression::Let(l) => vec![&l.bound, &l.body],
        _ => vec![],
    }
}

fn children_mut(e: &mut Expression) -> Vec<&mut NamedExpression> {
    match e {
        Expression::Cat(ast::Cat { first, rest }) | Expression::Alt(ast::Alt { first, rest }) => {
            std::iter::once(&mut **first).chain(rest.iter_mut().map(|x| &mut x.1)).collect()
        }
        Expression::Fix(f) => vec![&mut f.inner],
        Expression::Call(c) => std::iter::once(&mut *c.on).chain(&mut c.args).collect(),
        Expression::Lambda(l) => vec![&mut l.inner],
        Expression::Let(l) => vec![&mut l.bound, &mut l.body],
        _ => vec![],
    }
}

fn line(n: &NamedExpression) -> String {
    format!("{} {} {}", head(&n.expr), called(n.name.as_ref()), place(n.span))
}

/// Every node, a parent before its parts, in order.
fn written(n: &NamedExpression, deep: usize, out: &mut Vec<String>) {
    out.push(format!("{}:{}", deep, line(n)));
    children(&n.expr).into_iter().for_each(|c| written(c, deep + 1, out));
}

fn lines(n: &NamedExpression) -> Vec<String> {
    let mut v = vec![];
    written(n, 0, &mut v);
    v
}

/// The shape alone, as `pipe::show` writes it.
fn shape(n: &NamedExpression) -> String {
    pipe::show_reduced(n)
}

fn first_difference(a: &[String], b: &[String]) -> String {
    match a.iter().zip(b).position(|(x, y)| x != y) {
        Some(i) => format!("node {}: {} instead of {}", i, a[i], b[i]),
        None => format!("{} nodes instead of {}", a.len(), b.len()),
    }
}

// --------------------------------------------------------------------------------------- visitors

/// Logs every call with what it was given and goes on to the parts.
#[derive(Default)]
struct Log {
    deep: usize,
    out: Vec<String>,
}

impl Log {
    fn note(&mut self, name: Option<&Name>, span: Span, e: Expression) {
        self.out.push(format!("{}:{} {} {}", self.deep, head(&e), called(name), place(span)));
    }
    fn into(&mut self, parts: Vec<&NamedExpression>) -> usize {
        self.deep += 1;
        let n = parts.into_iter().map(|p| p.visit(self)).sum::<usize>();
        self.deep -= 1;
        n + 1
    }
}

impl Visitor for Log {
    type Out = usize;
    fn visit_epsilon(&mut self, name: Option<&Name>, span: Span, e: &ast::Epsilon) -> usize {
        self.note(name, span, e.clone().into());
        1
    }
    fn visit_literal(&mut self, name: Option<&Name>, span: Span, l: &ast::Literal) -> usize {
        self.note(name, span, l.clone().into());
        1
    }
    fn visit_cat(&mut self, name: Option<&Name>, span: Span, c: &ast::Cat) -> usize {
        self.note(name, span, c.clone().into());
        self.into(std::iter::once(&*c.first).chain(c.rest.iter().map(|x| &x.1)).collect())
    }
    fn visit_alt(&mut self, name: Option<&Name>, span: Span, c: &ast::Alt) -> usize {
        self.note(name, span, c.clone().into());
        self.into(std::iter::once(&*c.first).chain(c.rest.iter().map(|x| &x.1)).collect())
    }
    fn visit_fix(&mut self, name: Option<&Name>, span: Span, f: &ast::Fix) -> usize {
        self.note(name, span, f.clone().into());
        // by way of the box
        self.deep += 1;
        let n = f.inner.visit(self);
        self.deep -= 1;
        n + 1
    }
    fn visit_variable(&mut self, name: Option<&Name>, span: Span, v: &ast::Variable) -> usize {
        self.note(name, span, (*v).into());
        1
    }
    fn visit_call(&mut self, name: Option<&Name>, span: Span, c: &Call) -> usize {
        self.note(name, span, c.clone().into());
        self.into(std::iter::once(&*c.on).chain(&c.args).collect())
    }
    fn visit_lambda(&mut self, name: Option<&Name>, span: Span, l: &Lambda) -> usize {
        self.note(name, span, l.clone().into());
        self.into(vec![&l.inner])
    }
    fn visit_let(&mut self, name: Option<&Name>, span: Span, l: &Let) -> usize {
        self.note(name, span, l.clone().into());
        self.into(vec![&l.bound, &l.body])
    }
}

// ---------------------------------------------------------------------------------------- folders

/// Takes everything apart and puts it together again.
struct Rebuild;

fn node(name: Option<Name>, span: Span, expr: Expression) -> NamedExpression {
    NamedExpression { name, span, expr }
}

impl Folder for Rebuild {
    type Out = NamedExpression;
    fn fold_epsilon(&mut self, name: Option<Name>, span: Span, e: ast::Epsilon) -> NamedExpression {
        node(name, span, e.into())
    }
    fn fold_literal(&mut self, name: Option<Name>, span: Span, l: ast::Literal) -> NamedExpression {
        node(name, span, l.into())
    }
    fn fold_cat(&mut self, name: Option<Name>, span: Span, c: ast::Cat) -> NamedExpression {
        let first = Box::new(c.first.fold(self));
        let rest = c.rest.into_iter().map(|(s, e)| (s, e.fold(self))).collect();
        node(name, span, ast::Cat { first, rest }.into())
    }
    fn fold_alt(&mut self, name: Option<Name>, span: Span, c: ast::Alt) -> NamedExpression {
        let first = Box::new(c.first.fold(self));
        let rest = c.rest.into_iter().map(|(s, e)| (s, e.fold(self))).collect();
        node(name, span, ast::Alt { first, rest }.into())
    }
    fn fold_fix(&mut self, name: Option<Name>, span: Span, f: ast::Fix) -> NamedExpression {
        node(name, span, ast::Fix { inner: Box::new(f.inner.fold(self)) }.into())
    }
    fn fold_variable(&mut self, name: Option<Name>, span: Span, v: ast::Variable) -> NamedExpression {
        node(name, span, v.into())
    }
    fn fold_call(&mut self, name: Option<Name>, span: Span, c: Call) -> NamedExpression {
        let on = Box::new(c.on.fold(self));
        let args = c.args.into_iter().map(|e| e.fold(self)).collect();
        node(name, span, Call { on, args }.into())
    }
    fn fold_lambda(&mut self, name: Option<Name>, span: Span, l: Lambda) -> NamedExpression {
        node(name, span, Lambda { args: l.args, inner: Box::new(l.inner.fold(self)) }.into())
    }
    fn fold_let(&mut self, name: Option<Name>, span: Span, l: Let) -> NamedExpression {
        let bound = Box::new(l.bound.fold(self));
        let body = Box::new(l.body.fold(self));
        node(name, span, Let { name: l.name, bound, body }.into())
    }
}

// ---------------------------------------------------------------------------------------- mappers

/// Numbers every node in its name and changes what the node itself holds.
#[derive(Default)]
struct Mark {
    n: usize,
}

impl Mark {
    fn name(&mut self, name: &mut Option<Name>) {
        *name = Some(Name::new_label(format!("n{}{}", self.n, name.as_ref().map_or(String::new(), |n| n.to_string()))));
        self.n += 1;
    }
    /// The same without the library.
    fn by_hand(&mut self, n: &mut NamedExpression) {
        self.name(&mut n.name);
        match &mut n.expr {
            Expression::Literal(l) => l.push('+'),
            Expression::Variable(v) => v.index += 7,
            Expression::Lambda(l) => l.args.push(Name::new_variable("more".to_string())),
            Expression::Let(l) => l.name = Name::new_let("renamed".to_string()),
            _ => {}
        }
        children_mut(&mut n.expr).into_iter().for_each(|c| self.by_hand(c));
    }
}

impl Mapper for Mark {
    type Out = ();
    fn map_epsilon(&mut self, name: &mut Option<Name>, _: Span, _: &mut ast::Epsilon) {
        self.name(name);
    }
    fn map_literal(&mut self, name: &mut Option<Name>, _: Span, l: &mut ast::Literal) {
        self.name(name);
        l.push('+');
    }
    fn map_cat(&mut self, name: &mut Option<Name>, _: Span, c: &mut ast::Cat) {
        self.name(name);
        c.first.map(self);
        c.rest.iter_mut().for_each(|x| x.1.map(self));
    }
    fn map_alt(&mut self, name: &mut Option<Name>, _: Span, c: &mut ast::Alt) {
        self.name(name);
        c.first.map(self);
        c.rest.iter_mut().for_each(|x| x.1.map(self));
    }
    fn map_fix(&mut self, name: &mut Option<Name>, _: Span, f: &mut ast::Fix) {
        self.name(name);
        f.inner.map(self);
    }
    fn map_variable(&mut self, name: &mut Option<Name>, _: Span, v: &mut ast::Variable) {
        self.name(name);
        v.index += 7;
    }
    fn map_call(&mut self, name: &mut Option<Name>, _: Span, c: &mut Call) {
        self.name(name);
        c.on.map(self);
        c.args.iter_mut().for_each(|x| x.map(self));
    }
    fn map_lambda(&mut self, name: &mut Option<Name>, _: Span, l: &mut Lambda) {
        self.name(name);
        l.args.push(Name::new_variable("more".to_string()));
        l.inner.map(self);
    }
    fn map_let(&mut self, name: &mut Option<Name>, _: Span, l: &mut Let) {
        self.name(name);
        l.name = Name::new_let("renamed".to_string());
        l.bound.map(self);
        l.body.map(self);
    }
}

// --------------------------------------------------------------------------------------- backends

/// Logs the typed program as it is handed over.
#[derive(Default)]
struct Taken {
    deep: usize,
    out: Vec<String>,
    wrong: Option<String>,
    /// what the expression in hand says of itself
    outside: Option<(String, Type)>,
}

impl Taken {
    fn give(&mut self, t: TypedExpression) {
        self.outside = Some((format!("{} {}", called(t.name.as_ref()), place(t.span)), t.get_type().clone()));
        t.gen(self)
    }
    fn note(&mut self, head: String, name: &Option<Name>, span: Span, ty: &Type) {
        let own = format!("{} {}", called(name.as_ref()), place(span));
        if let Some((o, t)) = self.outside.take() {
            if o != own {
                self.wrong.get_or_insert(format!("the backend gets {} for an expression of {}", own, o));
            }
            if t != *ty {
                self.wrong.get_or_insert(format!("the type of {} is {:?} for the backend and {:?} outside", head, ty, t));
            }
        } else {
            self.wrong.get_or_insert(format!("{} comes a second time", head));
        }
        self.out.push(format!("{}:{} {}", self.deep, head, own));
    }
    fn parts(&mut self, v: Vec<TypedExpression>) {
        self.deep += 1;
        v.into_iter().for_each(|t| self.give(t));
        self.deep -= 1;
    }
}

impl Backend for Taken {
    type Id = ();
    type Code = ();
    fn gen_epsilon(&mut self, name: Option<Name>, span: Span, e: Epsilon) {
        self.note("_".into(), &name, span, e.get_type());
    }
    fn gen_literal(&mut self, name: Option<Name>, span: Span, l: Literal) {
        let h = format!("{:?}", l.inner());
        self.note(h, &name, span, l.get_type());
        let back: ast::Literal = l.clone().into();
        if back != *l.inner() {
            self.wrong.get_or_insert(format!("a literal is {:?} and {:?}", l.inner(), back));
        }
    }
    fn gen_cat(&mut self, name: Option<Name>, span: Span, c: Cat) {
        let ty = c.get_type().clone();
        let v: Vec<_> = c.into_iter().collect();
        self.note(format!(".{}", v.len()), &name, span, &ty);
        self.parts(v);
    }
    fn gen_alt(&mut self, name: Option<Name>, span: Span, c: Alt) {
        let ty = c.get_type().clone();
        let v: Vec<_> = c.into_iter().collect();
        self.note(format!("|{}", v.len()), &name, span, &ty);
        self.parts(v);
    }
    fn gen_fix(&mut self, name: Option<Name>, span: Span, f: Fix) {
        let ty = f.get_type().clone();
        self.note("!".into(), &name, span, &ty);
        self.parts(vec![f.unwrap()]);
    }
    fn gen_variable(&mut self, name: Option<Name>, span: Span, v: Variable) {
        self.note(format!("'{}", v.index()), &name, span, v.get_type());
    }
    fn emit_code(self, _: Option<Name>, _: Span, _: ()) {}
}

/// The same, read off the expanded program. The body of a recursion is called by the strongest of
/// the names of its function, itself and the recursion, the first of equals.
fn expected(n: &NamedExpression, over: Vec<Option<Name>>, deep: usize, out: &mut Vec<String>) {
    let mut name = n.name.clone();
    if !over.is_empty() {
        let all = vec![over[0].clone(), n.name.clone(), over[1].clone()];
        name = None;
        for x in all.into_iter().flatten() {
            let better = match &name {
                None => true,
                Some(old) => pipe::rank(&Some(x.clone())) > pipe::rank(&Some(old.clone())),
            };
            if better {
                name = Some(x);
            }
        }
    }
    let h = match &n.expr {
        Expression::Cat(c) => format!(".{}", c.rest.len() + 1),
        Expression::Alt(c) => format!("|{}", c.rest.len() + 1),
        e => head(e),
    };
    out.push(format!("{}:{} {} {}", deep, h, called(name.as_ref()), place(n.span)));
    match &n.expr {
        Expression::Fix(f) => match &f.inner.expr {
            Expression::Lambda(l) => expected(&l.inner, vec![f.inner.name.clone(), name], deep + 1, out),
            _ => out.push("not a function".into()),
        },
        e => children(e).into_iter().for_each(|c| expected(c, vec![], deep + 1, out)),
    }
}

// ----------------------------------------------------------------------------------------- errors

fn all<'a>(n: &'a NamedExpression, out: &mut Vec<&'a NamedExpression>) {
    out.push(n);
    children(&n.expr).into_iter().for_each(|c| all(c, out));
}

fn open(n: &NamedExpression, deep: usize) -> bool {
    match &n.expr {
        Expression::Variable(v) => v.index >= deep,
        Expression::Lambda(l) => open(&l.inner, deep + l.args.len()),
        Expression::Let(l) => open(&l.bound, deep) || open(&l.body, deep + 1),
        e => children(e).into_iter().any(|c| open(c, deep)),
    }
}

fn alone(e: NamedExpression) -> Option<Type> {
    let mut context = Context::default();
    e.fold(&mut TypeInfer { context: &mut context }).ok().map(|t| t.get_type().clone())
}

fn overlap(a: &Type, b: &Type, flast: bool) -> bool {
    let first: Vec<char> = b.first_set().clone().into_iter().collect();
    if flast {
        a.flast_set().clone().into_iter().any(|c| first.contains(&c))
    } else {
        a.first_set().clone().into_iter().any(|c| first.contains(&c))
    }
}

/// Where a part with this operator before it stands in the program, and whether the type given for
/// all before it is that of these parts.
fn operator(root: &NamedExpression, cat: bool, punct: Span, part: Option<&TypedExpression>, before: Option<&Type>) -> Result<&'static str, String> {
    let want = part.map(|t| pipe::spy(t.clone()).show());
    let mut v = vec![];
    all(root, &mut v);
    let mut seen = vec![];
    let mut there = false;
    for n in v {
        let (first, rest) = match &n.expr {
            Expression::Cat(c) if cat => (&c.first, &c.rest),
            Expression::Alt(c) if !cat => (&c.first, &c.rest),
            _ => continue,
        };
        for (k, (s, e)) in rest.iter().enumerate() {
            if place(*s) != place(punct) {
                continue;
            }
            there = true;
            let (it, prefix) = match before {
                // the left operand itself
                None => (&**first, None),
                Some(_) => {
                    let head: Vec<_> = rest[..k].to_vec();
                    let expr = if head.is_empty() {
                        first.expr.clone()
                    } else if cat {
                        ast::Cat { first: first.clone(), rest: head }.into()
                    } else {
                        ast::Alt { first: first.clone(), rest: head }.into()
                    };
                    (e, Some(node(None, n.span, expr)))
                }
            };
            if want.as_ref().map_or(false, |w| *w != shape(it)) {
                seen.push(shape(it));
                continue;
            }
            match (prefix, before) {
                (Some(p), Some(ty)) if !open(&p, 0) => match alone(p) {
                    Some(t) if t == *ty => return Ok("operator, part and type before it"),
                    Some(t) => seen.push(format!("type before it {:?}, given {:?}", t, ty)),
                    None => seen.push("what stands before it has no type".into()),
                },
                _ => return Ok("operator and part"),
            }
        }
    }
    if !there {
        return Err(format!("no such operator stands at {}", place(punct)));
    }
    Err(format!("the part in the error is {:?}; at its operator stands {:?}", want, seen))
}

fn type_error(root: &NamedExpression, e: &TypeError) -> Result<&'static str, String> {
    let mut nodes = vec![];
    all(root, &mut nodes);
    match e {
        TypeError::Cat(CatError::FirstNullable { expr, punct }) => {
            if !expr.get_type().nullable() {
                return Err("the part called nullable is not".into());
            }
            operator(root, true, *punct, Some(expr), None)
        }
        TypeError::Cat(CatError::FirstFlastOverlap { front_ty, punct, next }) => {
            if !overlap(front_ty, next.get_type(), true) {
                return Err("the sets called overlapping do not overlap".into());
            }
            operator(root, true, *punct, Some(next), Some(front_ty))
        }
        TypeError::Alt(AltError::BothNullable { left_ty, punct, right }) => {
            if !left_ty.nullable() || !right.get_type().nullable() {
                return Err("the branches called nullable are not".into());
            }
            operator(root, false, *punct, Some(right), Some(left_ty))
        }
        TypeError::Alt(AltError::FirstOverlap { left_ty, punct, right }) => {
            if !overlap(left_ty, right.get_type(), false) {
                return Err("the sets called overlapping do not overlap".into());
            }
            operator(root, false, *punct, Some(right), Some(left_ty))
        }
        TypeError::Variable(v) => {
            let there = nodes.iter().any(|n| {
                matches!(&n.expr, Expression::Variable(x) if x.index == v.var.index) && place(n.span) == place(v.span) && {
                    // the name may be that of the recursion whose body it is
                    v.name.is_none() || n.name.is_none() || called(n.name.as_ref()) == called(v.name.as_ref()) || body_of(root, n)
                }
            });
            if there {
                Ok("variable")
            } else {
                Err(format!("no variable '{} called {} stands at {}", v.var.index, called(v.name.as_ref()), place(v.span)))
            }
        }
        TypeError::UnexpectedLambda { span, lambda } => {
            let want = shape_of(&Expression::from(lambda.clone()));
            if nodes.iter().any(|n| place(n.span) == place(*span) && shape_of(&n.expr) == want) {
                Ok("function")
            } else {
                Err(format!("the function {} does not stand at {}", want, place(*span)))
            }
        }
        TypeError::ExpectedLambda { span, fix } => {
            let want = shape_of(&Expression::from(fix.clone()));
            if nodes.iter().any(|n| place(n.span) == place(*span) && shape_of(&n.expr) == want) {
                Ok("recursion of no function")
            } else {
                Err(format!("{} does not stand at {}", want, place(*span)))
            }
        }
        TypeError::UnexpectedCall { .. } | TypeError::UnexpectedLet { .. } => Err("calls and lets are gone from an expanded program".into()),
    }
}

fn body_of(root: &NamedExpression, n: &NamedExpression) -> bool {
    let mut v = vec![];
    all(root, &mut v);
    v.iter().any(|x| match &x.expr {
        Expression::Fix(f) => matches!(&f.inner.expr, Expression::Lambda(l) if std::ptr::eq(&*l.inner, n)),
        _ => false,
    })
}

fn shape_of(e: &Expression) -> String {
    pipe::show(&node(None, Span::call_site(), e.clone()))
}

// ------------------------------------------------------------------------------------------ drive

fn walks(tree: &NamedExpression, which: &str, text: &str, st: &mut Stats) {
    let want = lines(tree);
    let mut log = Log::default();
    let n = tree.visit(&mut log);
    if log.out != want || n != want.len() {
        st.violation(format!("a visitor of the {} program is given {}", which, first_difference(&log.out, &want)), format!("program:\n{}", text));
    }
    let mut log = Log::default();
    Box::new(tree.clone()).visit(&mut log);
    if log.out != want {
        st.violation(format!("a visitor of the boxed {} program is given {}", which, first_difference(&log.out, &want)), format!("program:\n{}", text));
    }
    let again = lines(&tree.clone().fold(&mut Rebuild));
    if again != want {
        st.violation(format!("a folder that changes nothing makes of the {} program {}", which, first_difference(&again, &want)), format!("program:\n{}", text));
    }
    let mut by_map = tree.clone();
    by_map.map(&mut Mark::default());
    let mut by_hand = tree.clone();
    Mark::default().by_hand(&mut by_hand);
    let (a, b) = (lines(&by_map), lines(&by_hand));
    if a != b {
        st.violation(format!("a mapper makes of the {} program {}", which, first_difference(&a, &b)), format!("program:\n{}", text));
    }
    if tree.clone().fold(&mut Rebuild) != *tree {
        st.violation(format!("the rebuilt {} program compares unequal", which), format!("program:\n{}", text));
    }
    st.add("nodes walked", want.len() as u64);
}

/// What a context and a program yield, as text.
fn outcome(e: NamedExpression, context: &mut Context) -> (Result<TypedExpression, TypeError>, String) {
    let r = e.fold(&mut TypeInfer { context });
    let s = match &r {
        Ok(t) => pipe::spy(t.clone()).show(),
        Err(e) => format!("{} at {}", e, place(e.span())),
    };
    (r, s)
}

fn call_error(root: &NamedExpression, e: &ReductionError) -> Result<&'static str, String> {
    let mut nodes = vec![];
    all(root, &mut nodes);
    let (span, args) = match e {
        ReductionError::CallNotAFunction { on, span } => {
            if matches!(on, Expression::Lambda(_)) {
                return Err("what is called no function is one".into());
            }
            (*span, None)
        }
        ReductionError::WrongArgCount { lambda, args, span } => {
            if lambda.args.len() == args.len() {
                return Err("the numbers called different are equal".into());
            }
            (*span, Some(args.len()))
        }
    };
    if nodes.iter().any(|n| matches!(&n.expr, Expression::Call(c) if args.map_or(true, |k| k == c.args.len())) && place(n.span) == place(span)) {
        Ok("call")
    } else {
        Err(format!("no such call stands at {}", place(span)))
    }
}

fn one(text: &str, tag: &str, context: &mut Context, r: &mut Rng, st: &mut Stats) {
    if !syntax::parse(text).map_or(false, |p| elab(&p, FUEL).is_ok()) {
        st.hit("skipped: not modelled or expansion too large");
        return;
    }
    harn::note(text);
    pipe::reset_spans();
    let out = guard(|| {
        let mut core = match pipe::parse(text).ok().and_then(|p| pipe::convert(p).ok()) {
            Some(c) => c,
            None => {
                st.hit("not converted");
                return;
            }
        };
        if lines(&core).len() > NODES {
            st.hit("skipped: too many nodes");
            return;
        }
        walks(&core, "converted", text, st);
        if r.chance(1, 3) && pipe::nest_lets(&mut core, r) > 0 {
            st.hit("with nested lets");
            walks(&core, "converted", text, st);
        }
        let red = match core.clone().fold(&mut Reduce) {
            Ok(t) => t,
            Err(e) => {
                st.case(&format!("{} {}", tag, text), true);
                match call_error(&core, &e) {
                    Ok(what) => st.hit(&format!("error with its {}", what)),
                    Err(m) => st.violation(format!("error {:?}: {}", e.to_string(), m), format!("program:\n{}", text)),
                }
                return;
            }
        };
        if lines(&red).len() > NODES {
            st.hit("skipped: too many nodes");
            return;
        }
        walks(&red, "expanded", text, st);
        let (fresh, want) = outcome(red.clone(), &mut Context::default());
        let (_, got) = outcome(red.clone(), context);
        if got != want || context.depth() != 0 {
            st.violation(
                format!("a context used before yields {}, a new one {}; its depth is {} afterwards", got, want, context.depth()),
                format!("program:\n{}", text),
            );
            *context = Context::default();
        }
        st.case(&format!("{} {}", tag, text), lines(&red).len() > 3);
        match fresh {
            Ok(t) => {
                st.hit("typed");
                let mut want = vec![];
                expected(&red, vec![], 0, &mut want);
                let mut taken = Taken::default();
                taken.give(t);
                if taken.out != want {
                    st.violation(format!("a backend is given {}", first_difference(&taken.out, &want)), format!("program:\n{}", text));
                }
                if let Some(w) = taken.wrong {
                    st.violation(w, format!("program:\n{}", text));
                }
                st.add("nodes handed to a backend", want.len() as u64);
            }
            Err(e) => match type_error(&red, &e) {
                Ok(what) => st.hit(&format!("error with its {}", what)),
                Err(m) => st.violation(format!("error {:?}: {}", e.to_string(), m), format!("program:\n{}\nexpanded: {}", text, shape(&red))),
            },
        }
    });
    if out.is_err() {
        st.hit("front end panicked (judged by C08)");
        *context = Context::default();
    }
}

pub fn c31(run: Run) -> ! {
    run.par("generated", run.scale(9_000, 25), |i, r, st| {
        // several programs by one context, the failures among them
        let mut context = Context::default();
        for _ in 0..r.range(1, 5) {
            let c = match i % 4 {
                0 => {
                    let (p, tag) = streams::zoo(r, false, true);
                    printed(p, r, Layout::plain(), tag)
                }
                1 => {
                    let p = border(r);
                    let lay = Layout::random(r, false);
                    printed(p, r, lay, "border")
                }
                2 => {
                    let p = if r.chance(1, 3) { gen::miscounted(r, false) } else { streams::damaged(r, false) };
                    printed(p, r, Layout::plain(), "damaged")
                }
                _ => mixed(r, false),
            };
            one(&c.text, c.tag, &mut context, r, st);
        }
    });
    run.finish(
        "converted and expanded programs walked by a visitor, a folder and a mapper that record and rebuild, their calls compared with the public fields of the tree; typed programs handed to a recording backend and compared with the expanded ones, node by node, with names, places and types; the parts and types in errors compared with what stands at the operator they name; runs of programs typed by one context and by new ones; non-trivial: more than three nodes, or a wrong call",
        &["the type of everything before an operator is compared where it stands under no recursion it mentions"],
    )
}
