//! Every iterator adaptor and consumer on a token stream's iterator, against a vector's iterator.
//! Used outside a macro (C07) and inside one (C15).

use crate::cmp::{tree, T};
use proc_macro2::{Delimiter, Group, Ident, Literal, Punct, Spacing, Span, TokenStream, TokenTree};

#[derive(Clone, Copy, Debug)]
pub enum Call {
    Next,
    Nth(usize),
    TakeCollect(usize),
    SkipNext(usize),
    StepBy(usize),
    CloneCount,
    CloneLast,
    CloneFold,
    CloneCollect,
    CloneNth(usize),
    Position(usize),
    Find(usize),
    Any(usize),
    All(usize),
    TryFold(usize),
    TakeWhile(usize),
    Peek,
    Chain,
    Zip,
    Partition,
    Max,
    ForEachRest,
    Hint,
}

pub fn calls() -> Vec<Call> {
    use Call::*;
    let mut v = vec![Next, CloneCount, CloneLast, CloneFold, CloneCollect, Peek, Chain, Zip, Partition, Max, ForEachRest, Hint];
    for k in [0, 1, 2, 3, 5] {
        v.push(Nth(k));
        v.push(TakeCollect(k));
        v.push(CloneNth(k));
    }
    for k in 1..=2 {
        v.extend([SkipNext(k), StepBy(k), Position(k), Find(k), Any(k), All(k), TryFold(k), TakeWhile(k)]);
    }
    v
}

pub fn item(i: usize) -> TokenTree {
    match i % 4 {
        0 => Ident::new(&format!("i{i}"), Span::call_site()).into(),
        1 => Punct::new('=', if i % 8 == 1 { Spacing::Joint } else { Spacing::Alone }).into(),
        2 => Literal::usize_unsuffixed(i).into(),
        _ => Group::new(Delimiter::Bracket, TokenStream::from(TokenTree::from(Literal::usize_suffixed(i)))).into(),
    }
}
pub fn model(i: usize) -> T {
    match i % 4 {
        0 => T::I(format!("i{i}")),
        1 => T::P('=', i % 8 == 1),
        2 => T::L(i.to_string()),
        _ => T::G(b'[', vec![T::L(format!("{i}usize"))]),
    }
}

fn is(t: &T, k: usize) -> bool {
    match k {
        1 => matches!(t, T::L(_)),
        _ => matches!(t, T::G(..)),
    }
}

/// One call on any cloneable iterator, with what it shows.
fn apply<X, I: Iterator<Item = X> + Clone>(it: &mut I, c: Call, f: impl Fn(X) -> T + Copy) -> Vec<T> {
    let num = |n: usize| vec![T::L(n.to_string())];
    let opt = |o: Option<X>| o.map(f).into_iter().collect::<Vec<T>>();
    match c {
        Call::Next => opt(it.next()),
        Call::Nth(k) => opt(it.nth(k)),
        Call::TakeCollect(k) => it.by_ref().take(k).map(f).collect(),
        Call::SkipNext(k) => opt(it.by_ref().skip(k).next()),
        Call::StepBy(k) => it.by_ref().step_by(k + 1).take(2).map(f).collect(),
        Call::CloneCount => num(it.clone().count()),
        Call::CloneLast => opt(it.clone().last()),
        Call::CloneFold => it.clone().fold(Vec::new(), |mut v, x| {
            v.push(f(x));
            v
        }),
        Call::CloneCollect => it.clone().map(f).collect(),
        Call::CloneNth(k) => {
            let mut c = it.clone();
            let mut v = opt(c.nth(k));
            v.extend(opt(c.next()));
            v
        }
        Call::Position(k) => it.position(|x| is(&f(x), k)).map(num).unwrap_or_default(),
        Call::Find(k) => it.by_ref().map(f).find(|t| is(t, k)).into_iter().collect(),
        Call::Any(k) => num(it.any(|x| is(&f(x), k)) as usize),
        Call::All(k) => num(it.all(|x| !is(&f(x), k)) as usize),
        Call::TryFold(k) => {
            let r = it.try_fold(0usize, |n, x| if is(&f(x), k) { Err(n) } else { Ok(n + 1) });
            num(match r {
                Ok(n) => n,
                Err(n) => 1000 + n,
            })
        }
        Call::TakeWhile(k) => it.by_ref().map(f).take_while(|t| !is(t, k)).collect(),
        Call::Peek => {
            let mut p = it.clone().peekable();
            let mut v: Vec<T> = Vec::new();
            if p.peek().is_some() {
                v.push(T::L("some".into()));
            }
            v.extend(p.map(f));
            v
        }
        Call::Chain => it.clone().chain(it.clone()).map(f).collect(),
        Call::Zip => it.clone().zip(it.clone().skip(1)).flat_map(|(a, b)| [f(a), f(b)]).collect(),
        Call::Partition => {
            let (a, b): (Vec<T>, Vec<T>) = it.clone().map(f).partition(|t| is(t, 1));
            a.into_iter().chain(b).collect()
        }
        Call::Max => it.clone().map(|x| format!("{:?}", f(x))).max().map(T::L).into_iter().collect(),
        Call::ForEachRest => {
            let mut v = Vec::new();
            it.by_ref().for_each(|x| v.push(f(x)));
            v
        }
        Call::Hint => {
            let (lo, hi) = it.size_hint();
            let n = it.clone().count();
            assert!(lo <= n && hi.map_or(true, |h| h >= n), "size hint ({lo}, {hi:?}) with {n} tokens left");
            vec![]
        }
    }
}

/// The stream of n items, made in one of three ways.
pub fn stream(n: usize, how: usize) -> TokenStream {
    match how {
        0 => (0..n).map(item).collect(),
        1 => {
            let mut s = TokenStream::new();
            for i in 0..n {
                s.extend([item(i)]);
            }
            s
        }
        _ => Group::new(Delimiter::Brace, (0..n).map(item).collect()).stream(),
    }
}

/// A sequence of calls on a fresh iterator. `keep`: another handle on the stream stays alive.
pub fn run(n: usize, how: usize, keep: bool, seq: &[Call]) -> Result<(), String> {
    let ts = stream(n, how);
    let other = keep.then(|| ts.clone());
    let mut it = ts.into_iter();
    let want: Vec<T> = (0..n).map(model).collect();
    let mut m = want.clone().into_iter();
    for (k, &c) in seq.iter().enumerate() {
        let got = apply(&mut it, c, |t: TokenTree| tree(&t));
        let exp = apply(&mut m, c, |t: T| t);
        if got != exp {
            return Err(format!("call {k} ({c:?}) gives {got:?}, expected {exp:?}"));
        }
    }
    let got: Vec<T> = it.map(|t| tree(&t)).collect();
    let exp: Vec<T> = m.collect();
    if got != exp {
        return Err(format!("afterwards {got:?} is left, expected {exp:?}"));
    }
    if let Some(o) = other {
        if crate::cmp::trees(o) != want {
            return Err("another handle on the stream changed".into());
        }
    }
    Ok(())
}
