//! Operation-history explorer for token streams: every history is executed on the real API and on
//! a plain-vector model. Used outside a macro (C07, C08, C17) and inside one (C15).

use crate::cmp::{self, tree, trees, undelim, T};
use proc_macro2::token_stream::IntoIter;
use proc_macro2::{Delimiter, Group, Ident, Literal, Punct, Spacing, Span, TokenStream, TokenTree};
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};

pub const TOKENS: usize = 7;

// ---- spans: when marks are set, every token gets a span determined by its text, and keeps it ----

pub struct Marks {
    pub spans: Vec<Span>,
    pub ids: Vec<u64>,
    pub id: fn(Span) -> u64,
}
pub const MARKS: usize = 17;
thread_local! {
    static MARKED: std::cell::RefCell<Option<Marks>> = const { std::cell::RefCell::new(None) };
}
pub fn set_marks(m: Option<Marks>) {
    MARKED.with(|x| *x.borrow_mut() = m);
}
pub fn marked() -> bool {
    MARKED.with(|x| x.borrow().is_some())
}
/// Which mark a token has. A minus and the literals it may belong to share one.
fn mark(t: &T) -> usize {
    match t {
        T::I(s) => ["a", "r#b", "b", "x", "z"].iter().position(|x| x == s).expect("identifier without mark"),
        T::P('+', _) => 5,
        // with the minus before it this is one operator, to which rustc gives one span
        T::P('>', _) => 8,
        T::P('&', _) => 7,
        T::P(..) => 8,
        T::L(s) => match s.as_str() {
            "7u8" => 9,
            "\"q\"" => 10,
            "'c'" => 11,
            "5u32" => 12,
            _ => 8,
        },
        T::G(b'(', _) => 13,
        T::G(b'{', _) => 14,
        T::G(b'[', _) => 15,
        T::G(..) => 16,
    }
}
pub fn at(t: &T) -> Span {
    MARKED.with(|x| x.borrow().as_ref().map_or_else(Span::call_site, |m| m.spans[mark(t)]))
}
fn dress(mut t: TokenTree) -> TokenTree {
    if marked() {
        let s = at(&match &t {
            TokenTree::Group(g) => T::G(cmp::delim(g.delimiter()), vec![]),
            t => tree(t),
        });
        t.set_span(s);
    }
    t
}
pub fn group(d: u8, s: TokenStream) -> Group {
    let mut g = Group::new(undelim(d), s);
    if marked() {
        g.set_span(at(&T::G(d, vec![])));
    }
    g
}
fn dress_all(s: TokenStream) -> TokenStream {
    if !marked() {
        return s;
    }
    s.into_iter()
        .map(|t| match t {
            TokenTree::Group(g) => group(cmp::delim(g.delimiter()), dress_all(g.stream())).into(),
            t => dress(t),
        })
        .collect()
}
fn has_span(got: Span, t: &T) -> Result<(), String> {
    MARKED.with(|x| match &*x.borrow() {
        None => Ok(()),
        Some(m) => {
            let k = mark(t);
            let id = (m.id)(got);
            if id == m.ids[k] {
                Ok(())
            } else {
                let whose = m.ids.iter().position(|&i| i == id).map_or("no other token's".to_string(), |p| format!("that of mark {p}"));
                Err(format!("the span of {t:?} is {got:?} ({whose}), it was given {:?} (mark {k})", m.spans[k]))
            }
        }
    })
}
pub fn tree_has_spans(t: &TokenTree) -> Result<(), String> {
    let m = match t {
        TokenTree::Group(g) => {
            streams_have_spans(&g.stream())?;
            let m = T::G(cmp::delim(g.delimiter()), vec![]);
            has_span(g.span(), &m)?;
            m
        }
        t => tree(t),
    };
    has_span(t.span(), &m)
}
pub fn streams_have_spans(s: &TokenStream) -> Result<(), String> {
    s.clone().into_iter().try_for_each(|t| tree_has_spans(&t))
}

pub fn token(k: usize) -> TokenTree {
    dress(match k {
        0 => return Ident::new("a", at(&T::I("a".into()))).into(),
        1 => Literal::i32_unsuffixed(-1).into(),
        2 => Punct::new('+', Spacing::Joint).into(),
        3 => Group::new(undelim(b'['), [token(0), token(4)].into_iter().collect()).into(),
        4 => Literal::u8_suffixed(7).into(),
        5 => return Ident::new_raw("b", at(&T::I("r#b".into()))).into(),
        _ => Literal::f64_suffixed(-0.5).into(),
    })
}
pub fn model_token(k: usize) -> Vec<T> {
    let s = str::to_owned;
    match k {
        0 => vec![T::I(s("a"))],
        1 => vec![T::P('-', false), T::L(s("1"))],
        2 => vec![T::P('+', true)],
        3 => vec![T::G(b'[', vec![T::I(s("a")), T::L(s("7u8"))])],
        4 => vec![T::L(s("7u8"))],
        5 => vec![T::I(s("r#b"))],
        _ => vec![T::P('-', false), T::L(s("0.5f64"))],
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Op {
    New(usize),
    FromTree(usize, usize),
    Parse(usize),
    /// s[.0] = s[.1].clone()
    Clone(usize, usize),
    /// extend with these trees; panic before yielding item .2
    Trees(usize, &'static [usize], Option<usize>),
    /// extend with s[.1].clone().into_iter()
    TreesOf(usize, usize),
    /// extend with one stream, moved out of the other register
    Move(usize, usize),
    /// extend with clones of these registers; panic before item
    Streams(usize, &'static [usize], Option<usize>),
    /// s[.0] = collect of clones of registers
    CollectStreams(usize, &'static [usize], Option<usize>),
    /// s[.0] = s[.0] taken, reversed, collected
    CollectRev(usize),
    /// s[.0] = trees collected, panic before item
    CollectTrees(usize, &'static [usize], Option<usize>),
    /// s[.0] = group of s[.0]
    Wrap(usize, u8),
    /// extend with a group around a clone of s[.1]
    Nest(usize, usize, u8),
    /// g = Group::new(.1, s[.0].clone())
    KeepGroup(usize, u8),
    /// s[.0] = g.stream()
    Contents(usize),
    /// extend with the group itself (typed)
    ExtGroup(usize),
    ExtTyped(usize),
    /// s[.0] = contents of the first group in s[.1]
    Open(usize, usize),
    /// it = s[.0].clone().into_iter()
    Iter(usize),
    /// it = s[.0] taken, into_iter
    IterTake(usize),
    Next,
    /// it = it.clone() (old one dropped after the copy is stepped)
    IterClone,
    /// s[.0] = rest of it, iterator consumed
    Rest(usize),
    /// extend s[.0] with the rest of it
    ExtRest(usize),
    /// set spans on tokens of a clone
    Respan(usize),
    /// print, debug-print, ask for emptiness
    Observe(usize),
    /// extend with the trees of an own clone of s[.1], opened only when the first one is asked for
    LazyTrees(usize, usize),
    /// extend with clones of an own clone of s[.1], dropped in between
    LazyStreams(usize, usize),
}

pub fn ops(level: u32, panics: bool) -> Vec<Op> {
    use Op::*;
    let mut v = Vec::new();
    if panics {
        for r in 0..2 {
            for p in 0..=2 {
                v.push(Trees(r, &[0, 1, 3], Some(p)));
            }
            v.push(Trees(r, &[0, 1, 3], Some(3)));
            for p in 0..=2 {
                v.push(Streams(r, &[1, 0], Some(p)));
            }
        }
        v.push(CollectTrees(0, &[3, 1, 0], Some(0)));
        v.push(CollectTrees(0, &[3, 1, 0], Some(2)));
        v.push(CollectTrees(1, &[3, 1, 0], Some(3)));
        v.push(CollectStreams(0, &[1, 0, 1], Some(0)));
        v.push(CollectStreams(0, &[1, 0, 1], Some(1)));
        v.push(CollectStreams(1, &[0, 1, 0], Some(3)));
    }
    for r in 0..2 {
        v.push(New(r));
        v.push(FromTree(r, 1));
        v.push(FromTree(r, 3));
        v.push(Clone(r, 1 - r));
        v.push(Trees(r, &[0, 1], None));
        v.push(TreesOf(r, 1 - r));
        v.push(Move(r, 1 - r));
        v.push(Streams(r, &[0, 1], None));
        v.push(Wrap(r, b'('));
        v.push(Nest(r, 1 - r, b'{'));
        v.push(Contents(r));
        v.push(Open(r, r));
        v.push(Iter(r));
        v.push(Rest(r));
    }
    v.push(KeepGroup(0, b'0'));
    v.push(Next);
    v.push(IterClone);
    v.push(CollectStreams(0, &[0, 1], None));
    if level >= 1 {
        for r in 0..2 {
            v.push(FromTree(r, 0));
            v.push(FromTree(r, 2));
            v.push(Trees(r, &[], None));
            v.push(Trees(r, &[6, 5, 2, 4, 3], None));
            v.push(TreesOf(r, r));
            v.push(Streams(r, &[1], None));
            v.push(Streams(r, &[], None));
            v.push(CollectStreams(r, &[1, 0, 1], None));
            v.push(CollectStreams(r, &[], None));
            v.push(CollectRev(r));
            v.push(CollectTrees(r, &[1, 0], None));
            v.push(Nest(r, r, b'['));
            v.push(KeepGroup(r, b'('));
            v.push(ExtGroup(r));
            v.push(ExtTyped(r));
            v.push(Open(r, 1 - r));
            v.push(IterTake(r));
            v.push(ExtRest(r));
            v.push(Respan(r));
            v.push(Observe(r));
            v.push(LazyTrees(r, r));
            v.push(LazyTrees(r, 1 - r));
            v.push(LazyStreams(r, r));
            v.push(Parse(r));
        }
    }
    v
}

/// Iterator over items that unwinds before yielding item `fuse`, with a settable size hint lie.
struct Fused<I> {
    it: I,
    n: usize,
    fuse: Option<usize>,
}
impl<I: Iterator> Iterator for Fused<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        if self.fuse == Some(self.n) {
            resume_unwind(Box::new(()));
        }
        self.n += 1;
        self.it.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        // an exact, a low and a high hint, depending on the fuse
        match self.fuse {
            Some(1) => (0, None),
            Some(2) => (9, None),
            _ => self.it.size_hint(),
        }
    }
}
fn fused<I: IntoIterator>(it: I, fuse: Option<usize>) -> Fused<I::IntoIter> {
    Fused { it: it.into_iter(), n: 0, fuse }
}

pub struct St {
    pub s: [TokenStream; 2],
    pub it: Option<IntoIter>,
    pub g: Option<Group>,
}
#[derive(Clone, Default, PartialEq, Eq, Hash, Debug)]
pub struct M {
    pub s: [Vec<T>; 2],
    pub it: Option<Vec<T>>,
    pub g: Option<(u8, Vec<T>)>,
}

pub const PARSED: &str = "a ( b - 1 ) 'c'";
pub fn parsed_model() -> Vec<T> {
    let s = str::to_owned;
    vec![T::I(s("a")), T::G(b'(', vec![T::I(s("b")), T::P('-', false), T::L(s("1"))]), T::L(s("'c'"))]
}

fn is_prefix_ext(got: &[T], old: &[T], new: &[T]) -> bool {
    got.len() >= old.len() && got[..old.len()] == *old && got.len() <= old.len() + new.len() && got[old.len()..] == new[..got.len() - old.len()]
}

impl St {
    pub fn new() -> St {
        St { s: [TokenStream::new(), TokenStream::new()], it: None, g: None }
    }

    fn take(&mut self, r: usize) -> TokenStream {
        std::mem::replace(&mut self.s[r], TokenStream::new())
    }

    /// Executes op on the real state and the model. Err: a mismatch seen by the operation itself.
    pub fn step(&mut self, m: &mut M, op: Op) -> Result<(), String> {
        match op {
            Op::New(r) => {
                self.s[r] = TokenStream::default();
                m.s[r] = vec![];
            }
            Op::FromTree(r, k) => {
                self.s[r] = TokenStream::from(token(k));
                m.s[r] = model_token(k);
            }
            Op::Parse(r) => {
                self.s[r] = dress_all(PARSED.parse().map_err(|_| "valid source rejected".to_string())?);
                m.s[r] = parsed_model();
            }
            Op::Clone(r, q) => {
                if r == 0 && q != r {
                    let other = std::mem::take(&mut self.s[q]);
                    self.s[r].clone_from(&other);
                    self.s[q] = other;
                } else {
                    self.s[r] = self.s[q].clone();
                }
                m.s[r] = m.s[q].clone();
            }
            Op::Trees(r, ks, fuse) => {
                let items: Vec<TokenTree> = ks.iter().map(|&k| token(k)).collect();
                let new: Vec<T> = ks.iter().flat_map(|&k| model_token(k)).collect();
                self.fallible(m, r, new, fuse, |s| s.extend(fused(items, fuse)))?;
            }
            Op::TreesOf(r, q) => {
                let it = self.s[q].clone().into_iter();
                self.s[r].extend(it);
                let v = m.s[q].clone();
                m.s[r].extend(v);
            }
            Op::Move(r, q) => {
                let x = self.take(q);
                self.s[r].extend(std::iter::once(x));
                let v = std::mem::take(&mut m.s[q]);
                m.s[r].extend(v);
            }
            Op::Streams(r, qs, fuse) => {
                let items: Vec<TokenStream> = qs.iter().map(|&q| self.s[q].clone()).collect();
                let new: Vec<T> = qs.iter().flat_map(|&q| m.s[q].clone()).collect();
                self.fallible(m, r, new, fuse, |s| s.extend(fused(items, fuse)))?;
            }
            Op::CollectStreams(r, qs, fuse) => {
                let items: Vec<TokenStream> = qs.iter().map(|&q| self.s[q].clone()).collect();
                let new: Vec<T> = qs.iter().flat_map(|&q| m.s[q].clone()).collect();
                let x = catch_unwind(AssertUnwindSafe(|| fused(items, fuse).collect::<TokenStream>()));
                self.collected(m, r, x, new, fuse)?;
            }
            Op::CollectTrees(r, ks, fuse) => {
                let items: Vec<TokenTree> = ks.iter().map(|&k| token(k)).collect();
                let new: Vec<T> = ks.iter().flat_map(|&k| model_token(k)).collect();
                let x = catch_unwind(AssertUnwindSafe(|| fused(items, fuse).collect::<TokenStream>()));
                self.collected(m, r, x, new, fuse)?;
            }
            Op::CollectRev(r) => {
                let mut v: Vec<TokenTree> = self.take(r).into_iter().collect();
                v.reverse();
                self.s[r] = v.into_iter().collect();
                m.s[r].reverse();
            }
            Op::Wrap(r, d) => {
                let x = self.take(r);
                self.s[r] = TokenTree::Group(group(d, x)).into();
                let v = std::mem::take(&mut m.s[r]);
                m.s[r] = vec![T::G(d, v)];
            }
            Op::Nest(r, q, d) => {
                let g = group(d, self.s[q].clone());
                self.s[r].extend([TokenTree::Group(g)]);
                let v = m.s[q].clone();
                m.s[r].push(T::G(d, v));
            }
            Op::KeepGroup(r, d) => {
                self.g = Some(group(d, self.s[r].clone()));
                m.g = Some((d, m.s[r].clone()));
            }
            Op::Contents(r) => {
                if let Some(g) = &self.g {
                    self.s[r] = g.stream();
                    m.s[r] = m.g.as_ref().unwrap().1.clone();
                }
            }
            Op::ExtGroup(r) => {
                if let Some(g) = &self.g {
                    self.s[r].extend([g.clone(), g.clone()]);
                    let (d, v) = m.g.clone().unwrap();
                    m.s[r].push(T::G(d, v.clone()));
                    m.s[r].push(T::G(d, v));
                }
            }
            Op::ExtTyped(r) => {
                let (mut p, mut q) = (Punct::new('-', Spacing::Joint), Punct::new('>', Spacing::Alone));
                let (mut l, mut k) = (Literal::i8_suffixed(-3), Literal::string("q"));
                if marked() {
                    p.set_span(at(&T::P('-', true)));
                    q.set_span(at(&T::P('>', true)));
                    l.set_span(at(&T::L("3i8".into())));
                    k.set_span(at(&T::L("\"q\"".into())));
                }
                self.s[r].extend([Ident::new("x", at(&T::I("x".into())))]);
                self.s[r].extend([p, q]);
                self.s[r].extend([l, k]);
                m.s[r].extend([T::I("x".into()), T::P('-', true), T::P('>', false), T::P('-', false), T::L("3i8".into()), T::L("\"q\"".into())]);
            }
            Op::Open(r, q) => {
                let g = self.s[q].clone().into_iter().find_map(|t| match t {
                    TokenTree::Group(g) => Some(g),
                    _ => None,
                });
                let mg = m.s[q].iter().find_map(|t| match t {
                    T::G(_, v) => Some(v.clone()),
                    _ => None,
                });
                match (g, mg) {
                    (Some(g), Some(v)) => {
                        self.s[r] = g.stream();
                        m.s[r] = v;
                    }
                    (None, None) => {}
                    (a, _) => return Err(format!("a group is {}", if a.is_some() { "there but should not be" } else { "missing" })),
                }
            }
            Op::Iter(r) => {
                self.it = Some(self.s[r].clone().into_iter());
                m.it = Some(m.s[r].clone());
            }
            Op::IterTake(r) => {
                self.it = Some(self.take(r).into_iter());
                m.it = Some(std::mem::take(&mut m.s[r]));
            }
            Op::Next => {
                if let Some(it) = &mut self.it {
                    let left = m.it.as_ref().unwrap().len();
                    let (lo, hi) = it.size_hint();
                    if lo > left || hi.is_some_and(|h| h < left) {
                        return Err(format!("size hint ({lo}, {hi:?}) with {left} tokens left"));
                    }
                    let x = it.next();
                    x.as_ref().map_or(Ok(()), tree_has_spans)?;
                    let x = x.map(|t| tree(&t));
                    let v = m.it.as_mut().unwrap();
                    let w = if v.is_empty() { None } else { Some(v.remove(0)) };
                    if x != w {
                        return Err(format!("next() is {x:?}, expected {w:?}"));
                    }
                }
            }
            Op::IterClone => {
                if let Some(it) = &mut self.it {
                    let copy = it.clone();
                    let x = it.next().map(|t| tree(&t));
                    let w = m.it.as_ref().unwrap().first().cloned();
                    if x != w {
                        return Err(format!("next() is {x:?}, expected {w:?}"));
                    }
                    self.it = Some(copy);
                }
            }
            Op::Rest(r) => {
                if let Some(it) = self.it.take() {
                    self.s[r] = it.collect();
                    m.s[r] = m.it.take().unwrap();
                }
            }
            Op::ExtRest(r) => {
                if let Some(it) = self.it.take() {
                    self.s[r].extend(it);
                    let v = m.it.take().unwrap();
                    m.s[r].extend(v);
                }
            }
            Op::Observe(r) => {
                let s = &self.s[r];
                let before = s.to_string();
                let _ = (format!("{s:?}"), s.is_empty());
                if s.to_string() != before {
                    return Err(format!("prints as {before:?} and then as {:?}", s.to_string()));
                }
            }
            Op::LazyTrees(r, q) => {
                let mut own = Some(self.s[q].clone());
                let mut it = None;
                self.s[r].extend(std::iter::from_fn(move || {
                    if let Some(s) = own.take() {
                        it = Some(s.into_iter());
                    }
                    it.as_mut().and_then(|i| i.next())
                }));
                let v = m.s[q].clone();
                m.s[r].extend(v);
            }
            Op::LazyStreams(r, q) => {
                let mut own = Some(self.s[q].clone());
                let mut n = 0;
                self.s[r].extend(std::iter::from_fn(move || {
                    n += 1;
                    match n {
                        1 => own.clone(),
                        2 => own.take(),
                        3 => Some(TokenStream::new()),
                        _ => None,
                    }
                }));
                let v = m.s[q].clone();
                m.s[r].extend(v.iter().chain(&v).cloned());
            }
            Op::Respan(r) => {
                for mut t in self.s[r].clone() {
                    t.set_span(Span::mixed_site());
                    if let TokenTree::Group(mut g) = t {
                        g.set_span(Span::call_site());
                    }
                }
            }
        }
        Ok(())
    }

    fn fallible(&mut self, m: &mut M, r: usize, new: Vec<T>, fuse: Option<usize>, f: impl FnOnce(&mut TokenStream)) -> Result<(), String> {
        let s = &mut self.s[r];
        let x = catch_unwind(AssertUnwindSafe(|| f(s)));
        match (x, fuse) {
            (Ok(()), None) => m.s[r].extend(new),
            (Ok(()), Some(_)) => return Err("the iterator's panic was swallowed".into()),
            (Err(p), None) => {
                let _ = p;
                return Err("operation panicked".into());
            }
            (Err(_), Some(_)) => {
                let got = trees(self.s[r].clone());
                if !is_prefix_ext(&got, &m.s[r], &new) {
                    return Err(format!("after a panicking extend the stream is {got:?}, not {:?} plus a prefix of {new:?}", m.s[r]));
                }
                m.s[r] = got;
            }
        }
        Ok(())
    }
    fn collected(&mut self, m: &mut M, r: usize, x: std::thread::Result<TokenStream>, new: Vec<T>, fuse: Option<usize>) -> Result<(), String> {
        match (x, fuse) {
            (Ok(x), None) => {
                self.s[r] = x;
                m.s[r] = new;
            }
            (Ok(_), Some(_)) => return Err("the iterator's panic was swallowed".into()),
            (Err(_), None) => return Err("operation panicked".into()),
            (Err(_), Some(_)) => {}
        }
        Ok(())
    }

    /// Compares everything observable with the model.
    pub fn check(&self, m: &M) -> Result<(), String> {
        for r in 0..2 {
            if self.s[r].is_empty() != m.s[r].is_empty() {
                return Err(format!("stream {r}: is_empty is {}, contents should be {:?}", self.s[r].is_empty(), m.s[r]));
            }
            let got = trees(self.s[r].clone());
            if got != m.s[r] {
                return Err(format!("stream {r} holds {got:?}, expected {:?}", m.s[r]));
            }
        }
        match (&self.it, &m.it) {
            (Some(it), Some(v)) => {
                let (lo, hi) = it.size_hint();
                if lo > v.len() || hi.is_some_and(|h| h < v.len()) {
                    return Err(format!("size hint ({lo}, {hi:?}) with {} tokens left", v.len()));
                }
                let got: Vec<T> = it.clone().map(|t| tree(&t)).collect();
                if got != *v {
                    return Err(format!("iterator yields {got:?}, expected {v:?}"));
                }
            }
            (None, None) => {}
            _ => return Err("iterator presence differs".into()),
        }
        if let (Some(g), Some((d, v))) = (&self.g, &m.g) {
            if cmp::delim(g.delimiter()) != *d || trees(g.stream()) != *v {
                return Err(format!("group holds {:?}, expected {v:?}", trees(g.stream())));
            }
        }
        if marked() {
            for r in 0..2 {
                streams_have_spans(&self.s[r]).map_err(|e| format!("stream {r}: {e}"))?;
            }
            if let Some(it) = &self.it {
                it.clone().try_for_each(|t| tree_has_spans(&t)).map_err(|e| format!("iterator: {e}"))?;
            }
            if let Some(g) = &self.g {
                has_span(g.span(), &T::G(cmp::delim(g.delimiter()), vec![])).and_then(|()| streams_have_spans(&g.stream())).map_err(|e| format!("group: {e}"))?;
            }
        }
        Ok(())
    }
}

/// Runs one history and checks at its end (every prefix is a history of its own).
pub fn run(hist: &[Op]) -> Result<M, String> {
    let mut st = St::new();
    let mut m = M::default();
    for &op in hist {
        st.step(&mut m, op)?;
    }
    st.check(&m)?;
    Ok(m)
}

pub fn decode(ops: &[Op], mut i: u64, len: u32) -> Vec<Op> {
    let k = ops.len() as u64;
    (0..len)
        .map(|_| {
            let o = ops[(i % k) as usize];
            i /= k;
            o
        })
        .collect()
}

/// Lengths next to the powers of two from 2^9 up to 2^max, and to 2^16.
pub fn long_lengths(max: u32) -> Vec<usize> {
    let mut v: Vec<usize> = (9..=max).flat_map(|b| [(1usize << b) - 1, 1 << b, (1 << b) + 1, (1 << b) + 77]).collect();
    if max < 16 {
        v.extend([(1 << 16) - 1, 1 << 16, (1 << 16) + 1]);
    }
    v
}

/// Hands out `n` items and says any true thing about how many there are.
struct Hinted<F> {
    at: usize,
    n: usize,
    lo: usize,
    hi: Option<usize>,
    f: F,
}
impl<R, F: FnMut(usize) -> R> Iterator for Hinted<F> {
    type Item = R;
    fn next(&mut self) -> Option<R> {
        if self.at == self.n {
            return None;
        }
        self.at += 1;
        Some((self.f)(self.at - 1))
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.lo.saturating_sub(self.at), self.hi.map(|h| h - self.at))
    }
}

const HINT_SIZES: [usize; 13] = [0, 1, 2, 3, 4, 5, 7, 8, 9, 31, 64, 65, 1000];
const HINT_WAYS: [&str; 11] = ["extend with trees", "extend with streams", "extend with streams of three", "collect trees", "collect streams", "collect streams of two", "extend with groups", "extend with identifiers", "extend with punctuation", "extend with literals", "extend with negative literals"];
pub const HINT_CASES: u64 = (HINT_SIZES.len() * HINT_WAYS.len() * 3 * 5 * 3) as u64;

/// Case `i`: the items of one operation come from an iterator with one of the true size hints.
pub fn hinted(i: u64) -> (String, Result<(), String>) {
    let i = i as usize;
    let (start, i) = (i % 3, i / 3);
    let (h, i) = (i % 5, i / 5);
    let (lo, i) = (i % 3, i / 3);
    let (way, n) = (i % HINT_WAYS.len(), HINT_SIZES[i / HINT_WAYS.len()]);
    let lo = [0, n.min(1), n][lo];
    let hi = [None, Some(n), Some(n + 1), Some(2 * n + 7), Some(usize::MAX)][h];
    let case = format!("{} from an iterator of {n} items with size hint ({lo}, {hi:?}), {}", HINT_WAYS[way], ["onto nothing", "onto a stream", "onto a shared stream"][start]);
    let run = || -> Result<(), String> {
        fn it<R, F: FnMut(usize) -> R>(n: usize, lo: usize, hi: Option<usize>, f: F) -> Hinted<F> {
            Hinted { at: 0, n, lo, hi, f }
        }
        let id = |i: usize| Ident::new(&format!("t{i}"), Span::call_site());
        let tree = |i: usize| TokenTree::from(id(i));
        let of = |i: usize, k: usize| -> TokenStream { (0..k).map(|j| tree(i * k + j)).collect() };
        let mut s = match start {
            0 => TokenStream::new(),
            _ => TokenStream::from(TokenTree::from(Punct::new('=', Spacing::Alone))),
        };
        let other = (start == 2).then(|| s.clone());
        let mut want: Vec<T> = if start > 0 { vec![T::P('=', false)] } else { vec![] };
        let ids = |k: usize| -> Vec<T> { (0..k).map(|i| T::I(format!("t{i}"))).collect() };
        match way {
            0 => s.extend(it(n, lo, hi, tree)),
            1 => s.extend(it(n, lo, hi, |i| of(i, 1))),
            2 => s.extend(it(n, lo, hi, |i| of(i, 3))),
            3 => s = it(n, lo, hi, tree).collect(),
            4 => s = it(n, lo, hi, |i| of(i, 1)).collect(),
            5 => s = it(n, lo, hi, |i| of(i, 2)).collect(),
            6 => s.extend(it(n, lo, hi, |_| Group::new(Delimiter::Bracket, TokenStream::new()))),
            7 => s.extend(it(n, lo, hi, id)),
            8 => s.extend(it(n, lo, hi, |_| Punct::new('+', Spacing::Joint))),
            9 => s.extend(it(n, lo, hi, |_| Literal::u8_unsuffixed(1))),
            _ => s.extend(it(n, lo, hi, |_| Literal::i8_unsuffixed(-1))),
        }
        if (3..=5).contains(&way) {
            want.clear();
        }
        want.extend(match way {
            2 => ids(3 * n),
            5 => ids(2 * n),
            6 => vec![T::G(b'[', vec![]); n],
            8 => vec![T::P('+', true); n],
            9 => vec![T::L("1".into()); n],
            10 => (0..2 * n).map(|i| if i % 2 == 0 { T::P('-', false) } else { T::L("1".into()) }).collect(),
            _ => ids(n),
        });
        if trees(s.clone()) != want || s.is_empty() != want.is_empty() {
            return Err(format!("gives {} tokens, expected {}: {:.200}", trees(s.clone()).len(), want.len(), s.to_string()));
        }
        if other.is_some_and(|o| trees(o) != [T::P('=', false)]) {
            return Err("another handle on the stream changed".into());
        }
        Ok(())
    };
    (case, run())
}

/// Every kind of token, with what it is in a stream.
pub fn all_tokens() -> Vec<(TokenTree, Vec<T>)> {
    let mut all: Vec<(TokenTree, Vec<T>)> = Vec::new();
    for c in "~!@#$%^&*-=+|;:,<.>/?'".chars() {
        for (s, joint) in [(Spacing::Alone, false), (Spacing::Joint, true)] {
            all.push((Punct::new(c, s).into(), vec![T::P(c, joint)]));
        }
    }
    for n in ["a", "_", "self", "Self", "crate", "super", "fn", "union", "r", "b", "doc", "true", "é", "static"] {
        all.push((Ident::new(n, Span::call_site()).into(), vec![T::I(n.into())]));
    }
    for n in ["a", "fn", "r", "é"] {
        all.push((Ident::new_raw(n, Span::call_site()).into(), vec![T::I(format!("r#{n}"))]));
    }
    let neg = |t: &str| vec![T::P('-', false), T::L(t.into())];
    let one = |l: &Literal| vec![T::L(l.to_string())];
    for l in [
        Literal::u8_suffixed(7), Literal::u128_unsuffixed(u128::MAX), Literal::f32_unsuffixed(0.5), Literal::f64_suffixed(2.0),
        Literal::string("q\"\n'"), Literal::string(""), Literal::character('\''), Literal::character('"'), Literal::byte_character(0),
        Literal::byte_string(b"\0\"'"), Literal::c_string(c"x"), "r#\"a\"#".parse().unwrap(), "0x1F_u8".parse().unwrap(), "\"s\"x".parse().unwrap(),
        "1e5".parse().unwrap(), "b'x'y".parse().unwrap(), "cr\"\"".parse().unwrap(),
    ] {
        let m = one(&l);
        all.push((l.into(), m));
    }
    for (l, m) in [
        (Literal::i8_suffixed(-1), neg("1i8")), (Literal::i128_unsuffixed(i128::MIN), neg("170141183460469231731687303715884105728")),
        (Literal::f64_unsuffixed(-0.0), neg("0.0")), (Literal::f32_suffixed(-1.5), neg("1.5f32")), ("-3".parse().unwrap(), neg("3")),
    ] {
        all.push((l.into(), m));
    }
    for (d, b) in [(Delimiter::Parenthesis, b'('), (Delimiter::Bracket, b'['), (Delimiter::Brace, b'{'), (Delimiter::None, b'0')] {
        all.push((Group::new(d, TokenStream::new()).into(), vec![T::G(b, vec![])]));
        all.push((Group::new(d, "x -".parse().unwrap()).into(), vec![T::G(b, vec![T::I("x".into()), T::P('-', false)])]));
    }
    all
}

pub const WAYS: usize = 8;

/// One way of putting tokens into a stream.
pub fn put(way: usize, toks: Vec<TokenTree>) -> TokenStream {
    match way {
        0 => toks.into_iter().collect(),
        1 => toks.into_iter().map(TokenStream::from).collect(),
        2 => {
            let mut s = TokenStream::new();
            s.extend(toks);
            s
        }
        3 => {
            let mut s = TokenStream::new();
            for t in toks {
                s.extend([TokenStream::from(t)]);
            }
            s
        }
        4 => {
            let mut s = TokenStream::new();
            for t in toks {
                match t {
                    TokenTree::Group(x) => s.extend([x]),
                    TokenTree::Ident(x) => s.extend([x]),
                    TokenTree::Punct(x) => s.extend([x]),
                    TokenTree::Literal(x) => s.extend([x]),
                }
            }
            s
        }
        5 => Group::new(Delimiter::Brace, toks.into_iter().collect()).stream(),
        6 => {
            let s: TokenStream = toks.into_iter().collect();
            s.into_iter().collect()
        }
        _ => {
            let mut it = toks.into_iter();
            let mut s = TokenStream::from(it.next().unwrap());
            let keep = s.clone();
            s.extend(it);
            drop(keep);
            s
        }
    }
}
