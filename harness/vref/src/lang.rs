//! The language a core expression denotes: recogniser, derivations, longest viable prefix,
//! bounded enumeration with derivation counts, sentence sampling.
use crate::elab::{Node, C};
use crate::rng::Rng;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum G {
    Eps,
    Lit(Vec<char>),
    Cat(Vec<usize>),
    Alt(Vec<usize>),
    Fix(usize),
    /// refers to the `Fix` entry
    Var(usize),
}

#[derive(Clone, Debug)]
pub struct Lang {
    pub g: Vec<G>,
    pub root: usize,
    /// per entry: least derivation height, `usize::MAX` when unproductive
    pub height: Vec<usize>,
    /// per entry: preorder path in the core tree (index into a preorder walk of `Node`)
    pub pre: Vec<usize>,
}

/// A derivation.
#[derive(Clone, Debug, PartialEq)]
pub enum D {
    Eps,
    Lit(usize),
    Cat(usize, Vec<D>),
    Alt(usize, usize, Box<D>),
    /// recursion: through a fix or one of its variables
    Rec(usize, Box<D>),
}

impl Lang {
    /// `None` when the tree still contains faults.
    pub fn new(n: &Node) -> Option<Lang> {
        let mut l = Lang { g: vec![], root: 0, height: vec![], pre: vec![] };
        let mut pre = 0;
        l.root = l.add(n, &mut vec![], &mut pre)?;
        l.height = vec![usize::MAX; l.g.len()];
        loop {
            let mut changed = false;
            for i in 0..l.g.len() {
                let h = match &l.g[i] {
                    G::Eps | G::Lit(_) => 1,
                    G::Cat(v) => v.iter().map(|x| l.height[*x]).max().unwrap().saturating_add(1),
                    G::Alt(v) => v.iter().map(|x| l.height[*x]).min().unwrap().saturating_add(1),
                    G::Fix(b) => l.height[*b].saturating_add(1),
                    G::Var(f) => l.height[*f].saturating_add(1),
                };
                if h < l.height[i] {
                    l.height[i] = h;
                    changed = true;
                }
            }
            if !changed {
                break;
            }
        }
        Some(l)
    }
    fn push(&mut self, g: G, pre: usize) -> usize {
        self.g.push(g);
        self.pre.push(pre);
        self.g.len() - 1
    }
    fn add(&mut self, n: &Node, ctx: &mut Vec<usize>, pre: &mut usize) -> Option<usize> {
        let p = *pre;
        *pre += 1;
        Some(match &n.k {
            C::Eps => self.push(G::Eps, p),
            C::Lit(s) => self.push(G::Lit(s.chars().collect()), p),
            C::Cat(v, _) => {
                let v = v.iter().map(|x| self.add(x, ctx, pre)).collect::<Option<Vec<_>>>()?;
                self.push(G::Cat(v), p)
            }
            C::Alt(v, _) => {
                let v = v.iter().map(|x| self.add(x, ctx, pre)).collect::<Option<Vec<_>>>()?;
                self.push(G::Alt(v), p)
            }
            C::Fix(b) => {
                let me = self.push(G::Fix(usize::MAX), p);
                ctx.push(me);
                let b = self.add(b, ctx, pre);
                ctx.pop();
                self.g[me] = G::Fix(b?);
                me
            }
            C::Var(i) => {
                let f = ctx[ctx.len() - 1 - i];
                self.push(G::Var(f), p)
            }
            _ => return None,
        })
    }
    pub fn all_productive(&self) -> bool {
        self.height.iter().all(|h| *h != usize::MAX)
    }
    /// Per entry, whether it has the empty word and the characters its words begin with (of a
    /// language that is productive everywhere).
    pub fn firsts(&self) -> (Vec<bool>, Vec<BTreeSet<char>>) {
        let n = self.g.len();
        let (mut null, mut first) = (vec![false; n], vec![BTreeSet::new(); n]);
        loop {
            let mut changed = false;
            for i in 0..n {
                let (e, f): (bool, BTreeSet<char>) = match &self.g[i] {
                    G::Eps => (true, BTreeSet::new()),
                    G::Lit(l) => (l.is_empty(), l.iter().take(1).copied().collect()),
                    G::Cat(v) => {
                        let mut f = BTreeSet::new();
                        let mut e = true;
                        for &x in v {
                            if e {
                                f.extend(first[x].iter().copied());
                            }
                            e &= null[x];
                        }
                        (e, f)
                    }
                    G::Alt(v) => (v.iter().any(|&x| null[x]), v.iter().flat_map(|&x| first[x].iter().copied()).collect()),
                    G::Fix(x) | G::Var(x) => (null[*x], first[*x].clone()),
                };
                if e != null[i] || f.len() != first[i].len() {
                    null[i] = e;
                    first[i] = f;
                    changed = true;
                }
            }
            if !changed {
                return (null, first);
            }
        }
    }
    pub fn alphabet(&self) -> Vec<char> {
        let mut s = BTreeSet::new();
        for g in &self.g {
            if let G::Lit(l) = g {
                s.extend(l.iter().copied());
            }
        }
        s.into_iter().collect()
    }

    /// A random derivation; sizes are heavy-tailed through `budget`.
    pub fn sample(&self, r: &mut Rng, budget: usize) -> Option<(String, D)> {
        if self.height[self.root] == usize::MAX {
            return None;
        }
        let mut s = String::new();
        let mut b = budget as isize;
        let d = self.sample_at(self.root, r, &mut b, &mut s, 0);
        Some((s, d))
    }
    fn sample_at(&self, n: usize, r: &mut Rng, b: &mut isize, out: &mut String, depth: usize) -> D {
        *b -= 1;
        match &self.g[n] {
            G::Eps => D::Eps,
            G::Lit(l) => {
                out.extend(l);
                D::Lit(n)
            }
            G::Cat(v) => D::Cat(n, v.iter().map(|x| self.sample_at(*x, r, b, out, depth + 1)).collect()),
            G::Alt(v) => {
                let ok: Vec<usize> = (0..v.len()).filter(|i| self.height[v[*i]] != usize::MAX).collect();
                let i = if *b > 0 && depth < 3000 {
                    *r.pick(&ok)
                } else {
                    let m = ok.iter().map(|i| self.height[v[*i]]).min().unwrap();
                    let best: Vec<usize> = ok.into_iter().filter(|i| self.height[v[*i]] == m).collect();
                    *r.pick(&best)
                };
                D::Alt(n, i, Box::new(self.sample_at(v[i], r, b, out, depth + 1)))
            }
            G::Fix(x) => D::Rec(n, Box::new(self.sample_at(*x, r, b, out, depth + 1))),
            G::Var(f) => match &self.g[*f] {
                G::Fix(x) => D::Rec(n, Box::new(self.sample_at(*x, r, b, out, depth + 1))),
                _ => unreachable!(),
            },
        }
    }

    /// Deterministic sample that exercises every alternative branch at least once: for each
    /// (alternative, branch), a derivation from the root that goes through it, when there is one.
    pub fn covering(&self, r: &mut Rng, limit: usize) -> Vec<(String, D)> {
        let mut out = vec![];
        // route[n] = can reach target from n
        let mut targets = vec![];
        for (i, g) in self.g.iter().enumerate() {
            if let G::Alt(v) = g {
                for b in 0..v.len() {
                    if self.height[v[b]] != usize::MAX {
                        targets.push((i, b));
                    }
                }
            }
        }
        r.shuffle(&mut targets);
        targets.truncate(limit);
        for t in targets {
            let dist = self.distances(t.0);
            if dist[self.root] == usize::MAX {
                continue;
            }
            let mut s = String::new();
            let mut done = false;
            if let Some(d) = self.steer(self.root, t, &dist, r, &mut s, &mut done) {
                out.push((s, d));
            }
        }
        out
    }
    /// least number of steps from each entry to `t` through productive siblings only
    fn distances(&self, t: usize) -> Vec<usize> {
        let mut d = vec![usize::MAX; self.g.len()];
        d[t] = 0;
        loop {
            let mut changed = false;
            for i in 0..self.g.len() {
                let m = match &self.g[i] {
                    G::Eps | G::Lit(_) => continue,
                    G::Cat(v) => {
                        if v.iter().any(|x| self.height[*x] == usize::MAX) {
                            continue;
                        }
                        v.iter().map(|x| d[*x]).min().unwrap()
                    }
                    G::Alt(v) => v.iter().filter(|x| self.height[**x] != usize::MAX).map(|x| d[*x]).min().unwrap_or(usize::MAX),
                    G::Fix(x) | G::Var(x) => d[*x],
                };
                let m = m.saturating_add(1);
                if m < d[i] {
                    d[i] = m;
                    changed = true;
                }
            }
            if !changed {
                return d;
            }
        }
    }
    fn steer(&self, n: usize, t: (usize, usize), dist: &[usize], r: &mut Rng, out: &mut String, done: &mut bool) -> Option<D> {
        if *done {
            let mut b = 6;
            return Some(self.sample_at(n, r, &mut b, out, 0));
        }
        Some(match &self.g[n] {
            G::Eps => D::Eps,
            G::Lit(l) => {
                out.extend(l);
                D::Lit(n)
            }
            G::Cat(v) => {
                let best = v.iter().map(|x| dist[*x]).min().unwrap();
                let at = v.iter().position(|x| dist[*x] == best).unwrap();
                let mut ds = vec![];
                for (i, x) in v.iter().enumerate() {
                    if i == at {
                        ds.push(self.steer(*x, t, dist, r, out, done)?);
                    } else {
                        let mut b = 4;
                        ds.push(self.sample_at(*x, r, &mut b, out, 0));
                    }
                }
                D::Cat(n, ds)
            }
            G::Alt(v) => {
                let i = if n == t.0 {
                    *done = true;
                    t.1
                } else {
                    (0..v.len()).filter(|i| self.height[v[*i]] != usize::MAX).min_by_key(|i| dist[v[*i]])?
                };
                D::Alt(n, i, Box::new(self.steer(v[i], t, dist, r, out, done)?))
            }
            G::Fix(x) => D::Rec(n, Box::new(self.steer(*x, t, dist, r, out, done)?)),
            G::Var(f) => match &self.g[*f] {
                G::Fix(x) => D::Rec(n, Box::new(self.steer(*x, t, dist, r, out, done)?)),
                _ => unreachable!(),
            },
        })
    }
}

/// Recogniser over one input for grammars whose recursion is guarded.
pub struct Rec<'a> {
    pub l: &'a Lang,
    pub s: &'a [char],
    ends: HashMap<(usize, usize), Rc<BTreeSet<usize>>>,
    reach: HashMap<(usize, usize), usize>,
    pub open: BTreeSet<(usize, usize)>,
    /// unguarded recursion met: answers are not meaningful
    pub looped: bool,
}

impl<'a> Rec<'a> {
    pub fn new(l: &'a Lang, s: &'a [char]) -> Self {
        Rec { l, s, ends: HashMap::new(), reach: HashMap::new(), open: BTreeSet::new(), looped: false }
    }
    pub fn ends(&mut self, n: usize, at: usize) -> Rc<BTreeSet<usize>> {
        if let G::Var(f) = self.l.g[n] {
            return self.ends(f, at);
        }
        if let Some(e) = self.ends.get(&(n, at)) {
            return e.clone();
        }
        if !self.open.insert((n, at)) {
            self.looped = true;
            return Rc::new(BTreeSet::new());
        }
        let l = self.l;
        let out: BTreeSet<usize> = match &l.g[n] {
            G::Eps => [at].into_iter().collect(),
            G::Lit(x) => {
                if self.s[at..].starts_with(x) {
                    [at + x.len()].into_iter().collect()
                } else {
                    BTreeSet::new()
                }
            }
            G::Cat(v) => {
                let mut cur: BTreeSet<usize> = [at].into_iter().collect();
                for x in v {
                    let mut next = BTreeSet::new();
                    for c in &cur {
                        next.extend(self.ends(*x, *c).iter().copied());
                    }
                    cur = next;
                }
                cur
            }
            G::Alt(v) => {
                let mut o = BTreeSet::new();
                for x in v {
                    o.extend(self.ends(*x, at).iter().copied());
                }
                o
            }
            G::Fix(b) => (*self.ends(*b, at)).clone(),
            G::Var(_) => unreachable!(),
        };
        self.open.remove(&(n, at));
        let out = Rc::new(out);
        self.ends.insert((n, at), out.clone());
        out
    }
    pub fn accepts(&mut self) -> bool {
        self.ends(self.l.root, 0).contains(&self.s.len())
    }
    /// Furthest point such that s[at..point] is a prefix of a word (every entry productive).
    pub fn reach(&mut self, n: usize, at: usize) -> usize {
        if let G::Var(f) = self.l.g[n] {
            return self.reach(f, at);
        }
        if let Some(e) = self.reach.get(&(n, at)) {
            return *e;
        }
        let l = self.l;
        let out = match &l.g[n] {
            G::Eps => at,
            G::Lit(x) => at + x.iter().zip(&self.s[at..]).take_while(|(a, b)| a == b).count(),
            G::Cat(v) => {
                let mut cur: BTreeSet<usize> = [at].into_iter().collect();
                let mut best = at;
                for x in v {
                    let mut next = BTreeSet::new();
                    for c in &cur {
                        best = best.max(self.reach(*x, *c));
                        next.extend(self.ends(*x, *c).iter().copied());
                    }
                    cur = next;
                }
                best
            }
            G::Alt(v) => v.iter().map(|x| self.reach(*x, at)).max().unwrap(),
            G::Fix(b) => {
                self.reach.insert((n, at), at);
                self.reach(*b, at)
            }
            G::Var(_) => unreachable!(),
        };
        self.reach.insert((n, at), out);
        out
    }
    pub fn derive(&mut self, n: usize, at: usize, end: usize) -> Option<D> {
        if !self.ends(n, at).contains(&end) {
            return None;
        }
        let l = self.l;
        match &l.g[n] {
            G::Eps => Some(D::Eps),
            G::Lit(_) => Some(D::Lit(n)),
            G::Cat(v) => {
                let ds = self.split(v, at, end)?;
                Some(D::Cat(n, ds))
            }
            G::Alt(v) => {
                for (i, x) in v.iter().enumerate() {
                    if let Some(d) = self.derive(*x, at, end) {
                        return Some(D::Alt(n, i, Box::new(d)));
                    }
                }
                None
            }
            G::Fix(b) => Some(D::Rec(n, Box::new(self.derive(*b, at, end)?))),
            G::Var(f) => match &l.g[*f] {
                G::Fix(b) => Some(D::Rec(n, Box::new(self.derive(*b, at, end)?))),
                _ => unreachable!(),
            },
        }
    }
    fn split(&mut self, v: &[usize], at: usize, end: usize) -> Option<Vec<D>> {
        if v.is_empty() {
            return if at == end { Some(vec![]) } else { None };
        }
        let es = self.ends(v[0], at);
        for e in es.iter() {
            if *e > end {
                break;
            }
            if let Some(mut rest) = self.split(&v[1..], *e, end) {
                let d = self.derive(v[0], at, *e)?;
                rest.insert(0, d);
                return Some(rest);
            }
        }
        None
    }
}

/// True when `s` is a prefix of a sentence (every entry productive).
pub fn viable(l: &Lang, s: &[char]) -> bool {
    Rec::new(l, s).reach(l.root, 0) == s.len()
}

/// All words of length at most `len` of every entry, with derivation counts saturating at 2.
/// `None` when more than `cap` words would be needed.
pub fn words(l: &Lang, len: usize, cap: usize) -> Option<Vec<BTreeMap<Vec<char>, u8>>> {
    let n = l.g.len();
    let mut w: Vec<BTreeMap<Vec<char>, u8>> = vec![BTreeMap::new(); n];
    let mut rounds = 0;
    loop {
        rounds += 1;
        if rounds > 400 {
            return None;
        }
        let mut changed = false;
        let mut total = 0;
        for i in 0..n {
            let new: BTreeMap<Vec<char>, u8> = match &l.g[i] {
                G::Eps => [(vec![], 1)].into_iter().collect(),
                G::Lit(x) => {
                    if x.len() <= len {
                        [(x.clone(), 1)].into_iter().collect()
                    } else {
                        BTreeMap::new()
                    }
                }
                G::Cat(v) => {
                    let mut cur: BTreeMap<Vec<char>, u8> = [(vec![], 1)].into_iter().collect();
                    for x in v {
                        let mut next: BTreeMap<Vec<char>, u8> = BTreeMap::new();
                        for (a, ca) in &cur {
                            for (b, cb) in &w[*x] {
                                if a.len() + b.len() <= len {
                                    let mut ab = a.clone();
                                    ab.extend(b);
                                    let e = next.entry(ab).or_insert(0);
                                    *e = (*e + ca * cb).min(2);
                                }
                            }
                            if next.len() > cap {
                                return None;
                            }
                        }
                        cur = next;
                    }
                    cur
                }
                G::Alt(v) => {
                    let mut o: BTreeMap<Vec<char>, u8> = BTreeMap::new();
                    for x in v {
                        for (a, c) in &w[*x] {
                            let e = o.entry(a.clone()).or_insert(0);
                            *e = (*e + c).min(2);
                        }
                    }
                    o
                }
                G::Fix(b) => w[*b].clone(),
                G::Var(f) => w[*f].clone(),
            };
            total += new.len();
            if total > cap * 4 {
                return None;
            }
            if new != w[i] {
                w[i] = new;
                changed = true;
            }
        }
        if !changed {
            return Some(w);
        }
    }
}

/// Strings around a sentence: one or two random edits.
pub fn mutate(s: &str, alpha: &[char], r: &mut Rng) -> String {
    const FOREIGN: &[char] = &['\u{0}', '?', 'é', '\u{1F600}', '\n', '\r', '\u{2028}', '~', 'Z', ' '];
    let mut v: Vec<char> = s.chars().collect();
    let ch = |r: &mut Rng| {
        if alpha.is_empty() || r.chance(1, 6) {
            *r.pick(FOREIGN)
        } else {
            *r.pick(alpha)
        }
    };
    for _ in 0..r.range(1, 2) {
        match r.below(8) {
            7 if !v.is_empty() => {
                let i = r.below(v.len());
                v[i] = alias(v[i], r);
            }
            0 if !v.is_empty() => {
                let i = r.below(v.len());
                v.remove(i);
            }
            1 => {
                let i = r.below(v.len() + 1);
                let c = ch(r);
                v.insert(i, c);
            }
            2 if !v.is_empty() => {
                let i = r.below(v.len());
                v[i] = ch(r);
            }
            3 if v.len() > 1 => {
                let i = r.below(v.len() - 1);
                v.swap(i, i + 1);
            }
            4 if !v.is_empty() => {
                let i = r.below(v.len());
                v.truncate(i);
            }
            5 => v.push(ch(r)),
            _ if !v.is_empty() => {
                let i = r.below(v.len());
                let c = v[i];
                v.insert(i, c);
            }
            _ => v.push(ch(r)),
        }
    }
    v.into_iter().collect()
}

/// Another character that a careless comparison takes for `c`: the same low
/// bits, the same letter in another case, its neighbour.
pub fn alias(c: char, r: &mut Rng) -> char {
    let n = c as u32;
    let mut of: Vec<u32> = vec![
        n ^ 0x100,
        n ^ 0x10000,
        n + 0x100,
        n + 0x10000,
        n ^ 0x20,
        n ^ 0x80,
        n ^ 1,
        n + 1,
        n.wrapping_sub(1),
        n & 0xff,
        n & 0x7f,
        n & 0xffff,
    ];
    of.extend(c.to_lowercase().map(u32::from));
    of.extend(c.to_uppercase().map(u32::from));
    match c {
        'k' | 'K' => of.push(0x212A),
        's' | 'S' => of.push(0x17F),
        'i' | 'I' => of.push(0x131),
        _ => {}
    }
    let of: Vec<char> = of.into_iter().filter_map(char::from_u32).filter(|d| *d != c).collect();
    if of.is_empty() { '?' } else { *r.pick(&of) }
}
