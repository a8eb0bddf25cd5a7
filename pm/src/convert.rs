//! C16: conversions, constructors, spans and parsing inside a macro. The compiler's own API is the
//! model: every operation is done once through this library and once directly.

use crate::cmp::{self, T};
use crate::ctx::hash;
use crate::histories::pm_trees;
use crate::out::{guard, Out};
use crate::reflex::{End, Lexer, K};
use crate::spaces::{self, Space};
use crate::reflex::Mode;
use proc_macro2 as p2;
use std::ffi::CString;

/// A token with the identity of its spans.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum S {
    G(String, Vec<S>, [String; 3]),
    I(String, String),
    P(char, bool, String),
    L(String, String),
}

fn id(s: proc_macro::Span) -> String {
    format!("{s:?}")
}
fn id2(s: p2::Span) -> String {
    id(s.unwrap())
}

fn direct(ts: proc_macro::TokenStream) -> Vec<S> {
    ts.into_iter().map(|t| direct1(&t)).collect()
}
fn direct1(t: &proc_macro::TokenTree) -> S {
    match t {
        proc_macro::TokenTree::Group(g) => S::G(format!("{:?}", g.delimiter()), direct(g.stream()), [id(g.span()), id(g.span_open()), id(g.span_close())]),
        proc_macro::TokenTree::Ident(i) => S::I(i.to_string(), id(i.span())),
        proc_macro::TokenTree::Punct(p) => S::P(p.as_char(), p.spacing() == proc_macro::Spacing::Joint, id(p.span())),
        proc_macro::TokenTree::Literal(l) => S::L(l.to_string(), id(l.span())),
    }
}
fn lib(ts: p2::TokenStream) -> Vec<S> {
    ts.into_iter().map(|t| lib1(&t)).collect()
}
fn lib1(t: &p2::TokenTree) -> S {
    let s = match t {
        p2::TokenTree::Group(g) => {
            let d = g.delim_span();
            assert_eq!([id2(d.join()), id2(d.open()), id2(d.close())], [id2(g.span()), id2(g.span_open()), id2(g.span_close())], "the delimiter span handle differs from the group's spans");
            S::G(format!("{:?}", g.delimiter()), lib(g.stream()), [id2(g.span()), id2(g.span_open()), id2(g.span_close())])
        }
        p2::TokenTree::Ident(i) => S::I(i.to_string(), id2(i.span())),
        p2::TokenTree::Punct(p) => S::P(p.as_char(), p.spacing() == p2::Spacing::Joint, id2(p.span())),
        p2::TokenTree::Literal(l) => S::L(l.to_string(), id2(l.span())),
    };
    let whole = match &s {
        S::G(_, _, sp) => sp[0].clone(),
        S::I(_, sp) | S::P(_, _, sp) | S::L(_, sp) => sp.clone(),
    };
    assert_eq!(id2(t.span()), whole, "TokenTree::span differs from the token's own");
    s
}

fn one(ts: proc_macro::TokenStream) -> p2::TokenTree {
    let mut it = p2::TokenStream::from(ts).into_iter();
    it.next().expect("a token")
}
fn single(t: proc_macro::TokenTree) -> p2::TokenTree {
    one(proc_macro::TokenStream::from(t))
}

fn all_spans(ts: proc_macro::TokenStream, out: &mut Vec<proc_macro::Span>) {
    for t in ts {
        out.push(t.span());
        if let proc_macro::TokenTree::Group(g) = t {
            out.push(g.span_open());
            out.push(g.span_close());
            all_spans(g.stream(), out);
        }
    }
}
fn all_trees(ts: proc_macro::TokenStream, out: &mut Vec<proc_macro::TokenTree>) {
    for t in ts {
        out.push(t.clone());
        if let proc_macro::TokenTree::Group(g) = t {
            all_trees(g.stream(), out);
        }
    }
}

fn eq<A: PartialEq + std::fmt::Debug>(o: &mut Out, case: &str, got: A, want: A) {
    o.validated += 1;
    if got != want {
        o.violation(case, format!("inside a macro, {case}: got {got:?}, the compiler gives {want:?}"));
    }
}
fn pair<A: PartialEq + std::fmt::Debug>(o: &mut Out, case: &str, got: impl FnOnce() -> A, want: impl FnOnce() -> A) {
    o.case = case.to_string();
    o.validated += 1;
    match (guard(got), guard(want)) {
        (Ok(a), Ok(b)) if a == b => {}
        (Err(_), Err(_)) => {}
        (a, b) => o.violation(case, format!("inside a macro, {case}: got {a:?}, the compiler gives {b:?}")),
    }
}

/// Every way a compiler stream can pass through this library and back.
fn ways(o: &mut Out, case: &str, ts: &proc_macro::TokenStream) {
    let want = direct(ts.clone());
    let again = direct(ts.clone().into_iter().collect());
    o.state(hash(&want));
    let mut check = |name: &str, got: &dyn Fn() -> Vec<S>, want: &Vec<S>| {
        o.transitions += 1;
        o.validated += 1;
        match guard(got) {
            Ok(g) if g == *want => {}
            g => o.violation(case, format!("inside a macro, {case} by {name}: got {g:?}, the compiler gives {want:?}")),
        }
    };
    let p = || p2::TokenStream::from(ts.clone());
    check("conversion", &|| lib(p()), &want);
    check("conversion both ways", &|| direct(p().into()), &want);
    check("clone", &|| direct(p().clone().into()), &want);
    check("collecting the trees", &|| direct(p().into_iter().collect::<p2::TokenStream>().into()), &again);
    check("extending with the trees", &|| {
        let mut s = p2::TokenStream::new();
        s.extend(p());
        direct(s.into())
    }, &again);
    check("extending with each tree", &|| {
        let mut s = p2::TokenStream::new();
        for t in p() {
            s.extend([t]);
        }
        lib(s)
    }, &again);
    check("extending with the stream", &|| {
        let mut s = p2::TokenStream::new();
        s.extend([p()]);
        lib(s)
    }, &again);
    check("streams of single trees", &|| lib(p().into_iter().map(p2::TokenStream::from).collect()), &again);
    check("typed extension", &|| {
        let mut s = p2::TokenStream::new();
        for t in p() {
            match t {
                p2::TokenTree::Group(t) => s.extend([t]),
                p2::TokenTree::Ident(t) => s.extend([t]),
                p2::TokenTree::Punct(t) => s.extend([t]),
                p2::TokenTree::Literal(t) => s.extend([t]),
            }
        }
        lib(s)
    }, &again);
    for (d, d2) in DELIMS {
        let g = proc_macro::Group::new(d, ts.clone());
        let w = vec![direct1(&proc_macro::TokenTree::Group(g.clone()))];
        check("putting it in a group", &|| vec![lib1(&p2::TokenTree::Group(p2::Group::new(d2, p())))], &w);
        let w = direct(proc_macro::TokenStream::from(proc_macro::TokenTree::Group(g)));
        check("putting it in a group in a stream", &|| lib(p2::TokenTree::Group(p2::Group::new(d2, p())).into()), &w);
        check("putting it in a group, opened again", &|| lib(p2::Group::new(d2, p()).stream()), &again);
    }
    for (a, b) in p().into_iter().zip(ts.clone()) {
        let (x, y) = (a.to_string(), b.to_string());
        if x != y {
            o.violation(case, format!("inside a macro, {case}: a token prints as {x:?}, the compiler prints {y:?}"));
        }
        let inner = match (&a, &b) {
            (p2::TokenTree::Group(a), proc_macro::TokenTree::Group(b)) => (a.to_string(), b.to_string()),
            (p2::TokenTree::Ident(a), _) => (a.to_string(), y.clone()),
            (p2::TokenTree::Punct(a), _) => (a.to_string(), y.clone()),
            (p2::TokenTree::Literal(a), _) => (a.to_string(), y.clone()),
            _ => (String::new(), "another kind".into()),
        };
        if inner.0 != inner.1 {
            o.violation(case, format!("inside a macro, {case}: a token prints as {:?}, the compiler prints {:?}", inner.0, inner.1));
        }
    }
    let n = ts.clone().into_iter().count();
    let mut it = p().into_iter();
    for left in (0..=n).rev() {
        let (lo, hi) = it.size_hint();
        if lo > left || hi.is_some_and(|h| h < left) {
            o.violation(case, format!("inside a macro, {case}: size hint ({lo}, {hi:?}) with {left} tokens left"));
        }
        let _ = it.next();
    }
    let t1 = p().to_string();
    let t2 = ts.to_string();
    if t1 != t2 {
        o.violation(case, format!("inside a macro, {case} prints as {t1:?}, the compiler prints {t2:?}"));
    }
    let (t1, t2) = (format!("{:?}", p()), format!("{ts:?}"));
    if t1 != t2 {
        o.violation(case, format!("inside a macro, {case} is shown by Debug as {t1}, by the compiler as {t2}"));
    }
    if p().is_empty() != ts.is_empty() {
        o.violation(case, format!("inside a macro, {case}: is_empty differs"));
    }
}

const DELIMS: [(proc_macro::Delimiter, p2::Delimiter); 4] = [
    (proc_macro::Delimiter::Parenthesis, p2::Delimiter::Parenthesis),
    (proc_macro::Delimiter::Bracket, p2::Delimiter::Bracket),
    (proc_macro::Delimiter::Brace, p2::Delimiter::Brace),
    (proc_macro::Delimiter::None, p2::Delimiter::None),
];

fn conversions(o: &mut Out, input: &proc_macro::TokenStream) {
    let mut trees = Vec::new();
    all_trees(input.clone(), &mut trees);
    ways(o, "the macro's input", input);
    o.each("every token of the macro's input at every depth, in every way".into(), trees.len() as u64, |o, i| {
        let t = &trees[i as usize];
        o.case = format!("input token {t}");
        ways(o, &format!("input token {i} ({t})"), &proc_macro::TokenStream::from(t.clone()));
    });
    let mut spans = Vec::new();
    all_spans(input.clone(), &mut spans);
    // token alphabet with distinct spans
    let sp = |k: usize| spans[(k * 7 + 3) % spans.len()];
    let mut alpha: Vec<proc_macro::TokenTree> = Vec::new();
    let mut n = 0;
    let mut with = |mut t: proc_macro::TokenTree| {
        n += 1;
        if n % 3 != 0 {
            t.set_span(sp(n));
        }
        alpha.push(t);
    };
    with(proc_macro::Ident::new("a", proc_macro::Span::call_site()).into());
    with(proc_macro::Ident::new_raw("fn", proc_macro::Span::mixed_site()).into());
    with(proc_macro::Punct::new('+', proc_macro::Spacing::Joint).into());
    with(proc_macro::Punct::new('=', proc_macro::Spacing::Alone).into());
    with(proc_macro::Punct::new('>', proc_macro::Spacing::Joint).into());
    with(proc_macro::Punct::new('#', proc_macro::Spacing::Alone).into());
    with(proc_macro::Literal::i32_unsuffixed(-5).into());
    with(proc_macro::Literal::string("s\"\n").into());
    with(proc_macro::Literal::f64_suffixed(1.5).into());
    with(proc_macro::Group::new(proc_macro::Delimiter::None, proc_macro::TokenStream::new()).into());
    with(proc_macro::Group::new(proc_macro::Delimiter::Brace, input.clone().into_iter().skip(2).take(3).collect()).into());
    with(proc_macro::Group::new(proc_macro::Delimiter::Parenthesis, proc_macro::TokenStream::from(alpha_group(sp(20)))).into());
    alpha.extend(trees.iter().take(6).cloned());
    let k = alpha.len() as u64;
    for len in 0..=if o.thorough { 4 } else { 3 } {
        o.each(format!("every sequence of {len} out of {k} tokens with distinct spans, in every way"), k.pow(len), |o, i| {
            let mut j = i;
            let ts: proc_macro::TokenStream = (0..len)
                .map(|_| {
                    let t = alpha[(j % k) as usize].clone();
                    j /= k;
                    t
                })
                .collect();
            o.case = format!("sequence {ts}");
            ways(o, &format!("token sequence {i} of length {len} ({ts})"), &ts);
        });
    }
    let max = if o.thorough { 400 } else { 150 };
    o.each(format!("streams of every length up to {max} of tokens with distinct spans, in every way"), max, |o, n| {
        let ts: proc_macro::TokenStream = (0..n as usize).map(|i| alpha[(i * 5 + i / 7) % alpha.len()].clone()).collect();
        o.case = format!("{n} tokens");
        ways(o, &format!("a stream of {n} tokens"), &ts);
    });
    // set_span on every kind
    let pick: Vec<proc_macro::Span> = (0..5).map(sp).chain([proc_macro::Span::call_site(), proc_macro::Span::mixed_site()]).collect();
    o.each("set_span: every token kind x spans".into(), k * pick.len() as u64, |o, i| {
        let t = &alpha[(i % k) as usize];
        let s = pick[(i / k) as usize];
        let case = format!("set_span on {t}");
        pair(o, &case, || {
            let mut x = single(t.clone());
            let keep = x.clone();
            let before = lib1(&keep);
            x.set_span(s.into());
            assert_eq!(before, lib1(&keep), "a clone changed");
            lib1(&x)
        }, || {
            let mut x = proc_macro::TokenStream::from(t.clone()).into_iter().next().unwrap();
            x.set_span(s);
            direct1(&x)
        });
        let case = format!("set_span on {t}, in a stream");
        pair(o, &case, || {
            let mut x = single(t.clone());
            match &mut x {
                p2::TokenTree::Group(g) => g.set_span(s.into()),
                p2::TokenTree::Ident(g) => g.set_span(s.into()),
                p2::TokenTree::Punct(g) => g.set_span(s.into()),
                p2::TokenTree::Literal(g) => g.set_span(s.into()),
            }
            direct(p2::TokenStream::from(x).into())
        }, || {
            let mut x = proc_macro::TokenStream::from(t.clone()).into_iter().next().unwrap();
            x.set_span(s);
            direct(x.into())
        });
    });
}
fn alpha_group(s: proc_macro::Span) -> proc_macro::TokenTree {
    let mut p = proc_macro::Punct::new('-', proc_macro::Spacing::Joint);
    p.set_span(s);
    p.into()
}

fn span_queries(o: &mut Out, input: &proc_macro::TokenStream) {
    let mut spans = vec![proc_macro::Span::call_site(), proc_macro::Span::mixed_site()];
    all_spans(input.clone(), &mut spans);
    let extra: Vec<_> = spans.iter().map(|s| s.resolved_at(proc_macro::Span::mixed_site())).collect();
    spans.extend(extra);
    if let Ok(ts) = "parsed é (\n  \"text\" 'c'\n)".parse::<proc_macro::TokenStream>() {
        all_spans(ts, &mut spans);
    }
    eq(o, "Span::call_site", id2(p2::Span::call_site()), id(proc_macro::Span::call_site()));
    eq(o, "Span::mixed_site", id2(p2::Span::mixed_site()), id(proc_macro::Span::mixed_site()));
    #[cfg(procmacro2_semver_exempt)]
    eq(o, "Span::def_site is not the call site's", id2(p2::Span::def_site()) == id(proc_macro::Span::call_site()), false);
    #[cfg(all(procmacro2_semver_exempt, feature = "unst"))]
    {
        eq(o, "Span::def_site", id2(p2::Span::def_site()), id(proc_macro::Span::def_site()));
        spans.push(proc_macro::Span::def_site());
    }
    let n = spans.len() as u64;
    o.each("every query on every span".into(), n, |o, i| {
        let s = spans[i as usize];
        let q: p2::Span = s.into();
        let name = id(s);
        o.case = name.clone();
        o.transitions += 6;
        o.state(hash(&name));
        eq(o, &format!("unwrap of {name}"), id2(q), name.clone());
        #[allow(deprecated)]
        eq(o, &format!("unstable of {name}"), id(q.unstable()), name.clone());
        eq(o, &format!("Debug of {name}"), format!("{q:?}"), name.clone());
        eq(o, &format!("source_text of {name}"), q.source_text(), s.source_text());
        #[cfg(feature = "span")]
        {
            eq(o, &format!("start of {name}"), (q.start().line, q.start().column), (s.start().line(), s.start().column() - 1));
            eq(o, &format!("end of {name}"), (q.end().line, q.end().column), (s.end().line(), s.end().column() - 1));
            eq(o, &format!("file of {name}"), q.file(), s.file());
            eq(o, &format!("local_file of {name}"), q.local_file(), s.local_file());
            #[cfg(feature = "unst")]
            eq(o, &format!("byte_range of {name}"), q.byte_range(), s.byte_range());
        }
        let mut i1 = p2::Ident::new("k", q);
        let i2 = proc_macro::Ident::new("k", s);
        eq(o, &format!("span of an identifier made with {name}"), id2(i1.span()), id(i2.span()));
        i1.set_span(p2::Span::mixed_site());
        eq(o, "span after set_span", id2(i1.span()), id(proc_macro::Span::mixed_site()));
    });
    o.each("resolved_at, located_at and join of every pair of spans".into(), n * n, |o, i| {
        let (a, b) = (spans[(i / n) as usize], spans[(i % n) as usize]);
        let (p, q): (p2::Span, p2::Span) = (a.into(), b.into());
        let name = format!("{} and {}", id(a), id(b));
        o.case = name.clone();
        o.transitions += 3;
        eq(o, &format!("resolved_at of {name}"), id2(p.resolved_at(q)), id(a.resolved_at(b)));
        eq(o, &format!("located_at of {name}"), id2(p.located_at(q)), id(a.located_at(b)));
        #[cfg(feature = "unst")]
        eq(o, &format!("join of {name}"), p.join(q).map(id2), a.join(b).map(id));
        #[cfg(not(feature = "unst"))]
        let _ = p.join(q);
        #[cfg(procmacro2_semver_exempt)]
        #[cfg(feature = "unst")]
        eq(o, &format!("eq of {name}"), p.eq(&q), a.eq(&b));
    });
    #[cfg(feature = "unst")]
    {
        let mut trees = Vec::new();
        all_trees(input.clone(), &mut trees);
        for t in trees {
            if let (proc_macro::TokenTree::Literal(l), p2::TokenTree::Literal(m)) = (t.clone(), single(t)) {
                for a in 0..7 {
                    for b in 0..9 {
                        if a <= b {
                            eq(o, &format!("subspan {a}..{b} of {l}"), m.subspan(a..b).map(id2), l.subspan(a..b).map(id));
                        }
                        eq(o, &format!("subspan {a}.. of {l}"), m.subspan(a..).map(id2), l.subspan(a..).map(id));
                        eq(o, &format!("subspan ..{b} of {l}"), m.subspan(..b).map(id2), l.subspan(..b).map(id));
                        eq(o, &format!("subspan ..={b} of {l}"), m.subspan(..=b).map(id2), l.subspan(..=b).map(id));
                        if a <= b {
                            eq(o, &format!("subspan {a}..={b} of {l}"), m.subspan(a..=b).map(id2), l.subspan(a..=b).map(id));
                            let r = (std::ops::Bound::Excluded(a), std::ops::Bound::Included(b));
                            eq(o, &format!("subspan {r:?} of {l}"), m.subspan(r).map(id2), l.subspan(r).map(id));
                        }
                    }
                }
            }
        }
    }
}

fn lit(o: &mut Out, case: &str, a: impl FnOnce() -> p2::Literal, b: impl FnOnce() -> proc_macro::Literal) {
    o.transitions += 1;
    pair(o, case, || {
        let l = a();
        let t = l.to_string();
        (lib(p2::TokenTree::Literal(l).into()), t)
    }, || {
        let l = b();
        let t = l.to_string();
        (direct(proc_macro::TokenTree::Literal(l).into()), t)
    });
}

/// Where the library writes the literal itself for compilers that have no such constructor: its value.
fn value(o: &mut Out, case: &str, a: impl FnOnce() -> p2::Literal, prefix: &str, quote: char, mode: Mode, want: &[u8]) {
    o.transitions += 1;
    let site = id(proc_macro::Span::call_site());
    let got = guard(|| {
        let l = a();
        let (t, sp) = (l.to_string(), id2(l.span()));
        (lib(p2::TokenTree::Literal(l).into()), t, sp)
    });
    let ok = match &got {
        Ok((v, t, sp)) => {
            let body: Option<Vec<char>> = t.strip_prefix(prefix).and_then(|t| t.strip_prefix(quote)).and_then(|t| t.strip_suffix(quote)).map(|b| b.chars().collect());
            let mut out = Vec::new();
            *sp == site && *v == vec![S::L(t.clone(), sp.clone())] && body.map_or(false, |b| crate::reflex::unescape(&b, mode, &mut out, &mut false).is_ok()) && out == want
        }
        Err(_) => false,
    };
    if !ok {
        o.violation(case, format!("inside a macro, {case} gives {got:?}, which does not denote {want:?} at {site}"));
    }
}

macro_rules! ints {
    ($o:ident, $vals:expr; $($ty:ident $s:ident $u:ident)*) => {$({
        for v in $vals {
            let v = v as $ty;
            lit($o, &format!(concat!("Literal::", stringify!($s), "({})"), v), || p2::Literal::$s(v), || proc_macro::Literal::$s(v));
            lit($o, &format!(concat!("Literal::", stringify!($u), "({})"), v), || p2::Literal::$u(v), || proc_macro::Literal::$u(v));
        }
    })*};
}

fn constructors(o: &mut Out) {
    let mut vals: Vec<i128> = (-300..300).collect();
    for b in 0..128 {
        for d in -2..=2 {
            vals.push((1i128 << b.min(126)).wrapping_add(d));
            vals.push((-(1i128 << b.min(126))).wrapping_add(d));
        }
    }
    vals.extend([i128::MAX, i128::MIN, i64::MAX as i128, u64::MAX as i128, -1]);
    o.each("numeric constructors: every boundary value in every type".into(), vals.len() as u64, |o, i| {
        let v = [vals[i as usize]];
        ints!(o, v; u8 u8_suffixed u8_unsuffixed u16 u16_suffixed u16_unsuffixed u32 u32_suffixed u32_unsuffixed
            u64 u64_suffixed u64_unsuffixed u128 u128_suffixed u128_unsuffixed usize usize_suffixed usize_unsuffixed
            i8 i8_suffixed i8_unsuffixed i16 i16_suffixed i16_unsuffixed i32 i32_suffixed i32_unsuffixed
            i64 i64_suffixed i64_unsuffixed i128 i128_suffixed i128_unsuffixed isize isize_suffixed isize_unsuffixed);
    });
    let mut fl: Vec<f64> = vec![0.0, -0.0, 1.0, -1.0, 0.1, 1.5, f64::MAX, f64::MIN, f64::MIN_POSITIVE, 5e-324, 1e16, 1e15, 1e-5, 1e-7, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, f32::MAX as f64];
    for e in -320..309 {
        fl.push(format!("1e{e}").parse().unwrap());
        fl.push(format!("-3.7e{e}").parse().unwrap());
    }
    o.each("float constructors".into(), fl.len() as u64, |o, i| {
        let f = fl[i as usize];
        lit(o, &format!("Literal::f64_unsuffixed({f:?})"), || p2::Literal::f64_unsuffixed(f), || proc_macro::Literal::f64_unsuffixed(f));
        lit(o, &format!("Literal::f64_suffixed({f:?})"), || p2::Literal::f64_suffixed(f), || proc_macro::Literal::f64_suffixed(f));
        let f = f as f32;
        lit(o, &format!("Literal::f32_unsuffixed({f:?})"), || p2::Literal::f32_unsuffixed(f), || proc_macro::Literal::f32_unsuffixed(f));
        lit(o, &format!("Literal::f32_suffixed({f:?})"), || p2::Literal::f32_suffixed(f), || proc_macro::Literal::f32_suffixed(f));
    });
    let top = 0x110000;
    o.each("character constructor: every scalar".into(), top, |o, i| {
        if let Some(c) = char::from_u32(i as u32) {
            lit(o, &format!("Literal::character({c:?})"), || p2::Literal::character(c), || proc_macro::Literal::character(c));
        }
    });
    o.each("byte constructor: every byte".into(), 256, |o, i| {
        let b = i as u8;
        let case = format!("Literal::byte_character({b})");
        if cfg!(no_literal_byte_character) {
            value(o, &case, || p2::Literal::byte_character(b), "b", '\'', Mode::Byte, &[b]);
        } else {
            lit(o, &case, || p2::Literal::byte_character(b), || proc_macro::Literal::byte_character(b));
        }
    });
    o.each("string, byte string and C string constructors: every length up to 300".into(), 301, |o, n| {
        for unit in ["a", "é", "\n", "\"\\", "a\u{301}é"] {
            let s = unit.repeat(n as usize);
            lit(o, &format!("Literal::string({s:?})"), || p2::Literal::string(&s), || proc_macro::Literal::string(&s));
            lit(o, &format!("Literal::byte_string({s:?})"), || p2::Literal::byte_string(s.as_bytes()), || proc_macro::Literal::byte_string(s.as_bytes()));
            if !cfg!(no_literal_c_string) {
                let c = CString::new(s).unwrap();
                lit(o, &format!("Literal::c_string({c:?})"), || p2::Literal::c_string(&c), || proc_macro::Literal::c_string(&c));
            }
        }
    });
    let al: &[char] = &['a', '"', '\'', '\\', '\0', '7', '\n', '\r', '\t', 'é', '\u{301}', '\u{7f}', '\u{200b}', '😀', '{'];
    let k = al.len() as u64;
    for len in 0..=3u32 {
        o.each(format!("string, byte string and C string constructors: every word of {len} out of {k} characters and bytes"), k.pow(len), |o, i| {
            let mut j = i;
            let s: String = (0..len)
                .map(|_| {
                    let c = al[(j % k) as usize];
                    j /= k;
                    c
                })
                .collect();
            lit(o, &format!("Literal::string({s:?})"), || p2::Literal::string(&s), || proc_macro::Literal::string(&s));
            let mut b: Vec<u8> = s.bytes().collect();
            lit(o, &format!("Literal::byte_string({b:?})"), || p2::Literal::byte_string(&b), || proc_macro::Literal::byte_string(&b));
            b.iter_mut().for_each(|b| if *b == b'{' { *b = 0xff });
            lit(o, &format!("Literal::byte_string({b:?})"), || p2::Literal::byte_string(&b), || proc_macro::Literal::byte_string(&b));
            if let Ok(c) = CString::new(b) {
                let case = format!("Literal::c_string({c:?})");
                if cfg!(no_literal_c_string) {
                    value(o, &case, || p2::Literal::c_string(&c), "c", '"', Mode::C, c.to_bytes());
                } else {
                    lit(o, &case, || p2::Literal::c_string(&c), || proc_macro::Literal::c_string(&c));
                }
            }
        });
    }
    let frag = ["a", "_", "fn", "self", "Self", "super", "crate", "é", "1", "", " ", "-", "r#", "$crate", "\u{301}", "async", "'", "日", "x1", "true"];
    let k = frag.len() as u64;
    o.each(format!("identifier constructors: every word of two out of {k} pieces"), k * k, |o, i| {
        let s = format!("{}{}", frag[(i % k) as usize], frag[(i / k) as usize]);
        o.transitions += 2;
        pair(o, &format!("Ident::new({s:?})"), || {
            let i = p2::Ident::new(&s, p2::Span::mixed_site());
            (i.to_string(), lib(p2::TokenTree::Ident(i).into()))
        }, || {
            let i = proc_macro::Ident::new(&s, proc_macro::Span::mixed_site());
            (i.to_string(), direct(proc_macro::TokenTree::Ident(i).into()))
        });
        pair(o, &format!("Ident::new_raw({s:?})"), || {
            let i = p2::Ident::new_raw(&s, p2::Span::mixed_site());
            (i.to_string(), lib(p2::TokenTree::Ident(i).into()))
        }, || {
            let i = proc_macro::Ident::new_raw(&s, proc_macro::Span::mixed_site());
            (i.to_string(), direct(proc_macro::TokenTree::Ident(i).into()))
        });
    });
    // comparisons of identifiers are by text
    let names: Vec<(String, p2::Ident)> = ["a", "b", "fn", "é", "ab", "A", "r"]
        .iter()
        .flat_map(|s| {
            let a = p2::Ident::new(s, p2::Span::call_site());
            let b = p2::Ident::new_raw(s, p2::Span::mixed_site());
            let c = one(proc_macro::TokenTree::Ident(proc_macro::Ident::new(s, proc_macro::Span::mixed_site())).into());
            let p2::TokenTree::Ident(c) = c else { unreachable!() };
            [(s.to_string(), a), (format!("r#{s}"), b), (s.to_string(), c)]
        })
        .collect();
    let k = names.len() as u64;
    o.each("identifier comparison: every pair".into(), k * k, |o, i| {
        let ((s, a), (t, b)) = (&names[(i % k) as usize], &names[(i / k) as usize]);
        let case = format!("comparing {s} with {t}");
        eq(o, &case, (a == b, a == t.as_str(), a.cmp(b), a.partial_cmp(b), hash(a) == hash(b)), (s == t, s == t, s.cmp(t), s.partial_cmp(t), s == t));
    });
    o.each("punctuation constructor: every ASCII character, both spacings".into(), 256, |o, i| {
        let c = (i as u8 & 127) as char;
        let (s, t) = if i < 128 { (p2::Spacing::Alone, proc_macro::Spacing::Alone) } else { (p2::Spacing::Joint, proc_macro::Spacing::Joint) };
        o.transitions += 1;
        pair(o, &format!("Punct::new({c:?}, {s:?})"), || {
            let p = p2::Punct::new(c, s);
            assert_eq!((p.as_char(), p.spacing()), (c, s));
            let mut v = lib1(&p.clone().into());
            v = if v == lib(p2::TokenTree::Punct(p).into())[0] { v } else { panic!("changed by being put in a stream") };
            v
        }, || direct1(&proc_macro::Punct::new(c, t).into()));
    });
}

/// Strings the 2021 edition reserves (an identifier directly before a quote or pound). Sources with
/// CRLF are left out as well (the compiler turns CRLF into LF), and a source that starts with a
/// shebang is compared with the compiler's own parse only (the compiler drops the shebang).
fn outside(src: &str, lx: &Lexer) -> bool {
    // blanks that only the self-contained lexer knows
    if src.chars().any(|c| c.is_whitespace() && !matches!(c, '\t'..='\r' | ' ' | '\u{85}' | '\u{2028}' | '\u{2029}')) {
        return true;
    }
    let b = src.as_bytes();
    lx.evs.iter().any(|e| matches!(e.k, K::Ident | K::Lit | K::Punct(..)) && !e.synth && matches!(b.get(e.thi), Some(b'"' | b'\'' | b'#')) && {
        let t = &src[e.tlo..e.thi];
        t.ends_with(|c: char| c == '_' || c.is_alphanumeric())
    })
}

fn parse_spaces(deep: bool) -> Vec<Space> {
    let mut v = Vec::new();
    let general: &[&str] = &["a", "r", "b", "0", "1", ".", "'", "\"", "\\", "#", "/", "*", "\n", " ", "(", ")", "]", "-", "=", "é", "\0", "e", "\r", "{"];
    v.extend(spaces::words_upto("general", "", general, if deep { 5 } else { 4 }, ""));
    v.extend(spaces::words_upto("delimiters", "", spaces::DELIMS, if deep { 6 } else { 5 }, ""));
    v.extend(spaces::words_upto("string body", "\"", &["\\", "n", "x", "u{41}", "7", "f", "\n", "\r", "é", "'", "a", " "], 3, "\""));
    v.extend(spaces::words_upto("byte string body", "b\"", &["\\", "n", "x", "7", "f", "\n", "\r", "é", "a"], 3, "\""));
    v.extend(spaces::words_upto("quotes", "'", &["'", "a", "r", "#", "_", "\\", "n", "x41", "u{41}", "é", "b", " ", "self"], 3, ""));
    let f: Vec<&str> = spaces::FRAGMENTS.iter().copied().filter(|f| *f != "1e" && *f != "\u{feff}").collect();
    v.extend(spaces::words_upto("fragments", "", &f, 3, ""));
    let mut spaced = f.clone();
    spaced.retain(|s| s.trim() == *s);
    let lead: Vec<String> = spaced.iter().map(|s| format!(" {s}")).collect();
    let lead: Vec<&str> = lead.iter().map(|s| s.as_str()).collect();
    v.extend(spaces::words_upto("spaced fragments", "", &lead, 2, ""));
    v.extend(spaces::sizes(if deep { 300 } else { 130 }));
    v.extend(spaces::long_sizes(12));
    v
}

fn parsing(o: &mut Out) {
    let mut lx = Lexer::default();
    for sp in parse_spaces(o.thorough) {
        let gen = sp.gen;
        o.each(format!("parse, direct and forced: {}", sp.name), sp.n, |o, i| {
            let mut src = String::new();
            gen(i, &mut src);
            o.case = src.clone();
            lx.load(&src);
            let end = lx.run();
            o.transitions += 4;
            match end {
                End::Open => {
                    o.open += 1;
                    return;
                }
                End::Ok => {}
                _ => {
                    // lexically invalid: a recoverable error from both, and a usable span
                    o.validated += 1;
                    match guard(|| {
                        let a = src.parse::<p2::TokenStream>();
                        let b = src.parse::<p2::Literal>();
                        (a.map(|t| t.to_string()).map_err(|e| (e.to_string(), id2(e.span()))), b.map(|t| t.to_string()).map_err(|e| (e.to_string(), id2(e.span()))))
                    }) {
                        Ok((Err(_), Err(_))) => {}
                        r => o.violation(&src, format!("inside a macro, parsing the invalid {src:?} gave {r:?}")),
                    }
                    return;
                }
            }
            if outside(&src, &lx) || src.contains('\r') {
                o.open += 1;
                return;
            }
            let shebang = src.starts_with("#!");
            o.validated += 1;
            let r = guard(|| -> Result<u64, String> {
                let ts = src.parse::<p2::TokenStream>().map_err(|e| format!("valid source rejected: {e}"))?;
                let d: proc_macro::TokenStream = src.parse().map_err(|e| format!("the compiler rejects it: {e}"))?;
                let (a, b) = (pm_trees(ts.clone().into()), pm_trees(d));
                if a != b {
                    return Err(format!("parses to {a:?}, with the compiler's own API to {b:?}"));
                }
                if !shebang {
                    compare(&src, ts, &lx)?;
                }
                // made while forced to the self-contained implementation, then converted
                p2::fallback::force();
                let f = src.parse::<p2::TokenStream>().map_err(|e| format!("rejected while forced: {e}"));
                let built = f.clone().map(|f| f.into_iter().collect::<p2::TokenStream>());
                p2::fallback::unforce();
                let (f, built) = (f?, built?);
                let want = open_spacing(cmp::trees(f.clone()));
                let got = open_spacing(pm_trees(proc_macro::TokenStream::from(f)));
                if got != want {
                    return Err(format!("a stream made while forced holds {want:?} but converts to {got:?}"));
                }
                let got = open_spacing(pm_trees(proc_macro::TokenStream::from(built)));
                if got != want {
                    return Err(format!("a stream collected while forced holds {want:?} but converts to {got:?}"));
                }
                // one literal
                let l = src.parse::<p2::Literal>();
                let is_one = lx.evs.len() == 1 && lx.evs[0].k == K::Lit && lx.evs[0].tlo == 0 && lx.evs[0].thi == src.len();
                if is_one {
                    let u = unsafe { p2::Literal::from_str_unchecked(&src) };
                    if u.to_string() != src || !matches!(direct1(&proc_macro::TokenStream::from(p2::TokenStream::from(p2::TokenTree::from(u))).into_iter().next().unwrap()), S::L(ref t, _) if *t == src) {
                        return Err("unchecked construction of the literal changes it".into());
                    }
                }
                match l {
                    Ok(l) if is_one && l.to_string() == src => {}
                    Ok(l) if !is_one && l.to_string() == src && src.starts_with('-') => {}
                    Ok(l) => return Err(format!("parses as the literal {l}")),
                    Err(_) if !is_one => {}
                    Err(e) => return Err(format!("is rejected as a literal: {e}")),
                }
                Ok(hash(&a))
            });
            p2::fallback::unforce();
            match r {
                Ok(Ok(h)) => o.state(h),
                Ok(Err(e)) => o.violation(&src, format!("inside a macro, source {src:?}: {e}")),
                Err(p) => o.violation(&src, format!("inside a macro, source {src:?}: panicked: {p}")),
            }
            if i % 20_011 == 5 {
                o.sample(format!("{src:?}"));
            }
        });
    }
}

/// Streams built through the constructors while forced to the self-contained implementation.
fn forced_streams(o: &mut Out) {
    use p2::{Delimiter as D, Group, Ident, Literal, Punct, Spacing, TokenStream, TokenTree};
    const K: u64 = 19;
    fn tok(k: u64) -> TokenTree {
        let cs = p2::Span::call_site;
        match k {
            0 => Ident::new("a", cs()).into(),
            1 => Ident::new_raw("fn", cs()).into(),
            2 => Punct::new('+', Spacing::Joint).into(),
            3 => Punct::new('=', Spacing::Alone).into(),
            4 => Punct::new('\'', Spacing::Joint).into(),
            5 => Punct::new('-', Spacing::Alone).into(),
            6 => Punct::new('.', Spacing::Joint).into(),
            7 => Literal::i8_suffixed(-3).into(),
            8 => Literal::f64_unsuffixed(-1.0).into(),
            9 => Literal::string("x\n\0\"y").into(),
            10 => Literal::u16_unsuffixed(7).into(),
            11 => Group::new(D::Brace, TokenStream::new()).into(),
            12 => Group::new(D::Brace, TokenStream::from(tok(7))).into(),
            13 => Group::new(D::None, TokenStream::from(tok(8))).into(),
            14 => Group::new(D::None, TokenStream::new()).into(),
            15 => Group::new(D::Parenthesis, [tok(3), tok(0)].into_iter().collect()).into(),
            16 => Group::new(D::Bracket, [tok(14), tok(13)].into_iter().collect()).into(),
            17 => Literal::character('\'').into(),
            _ => Punct::new('#', Spacing::Alone).into(),
        }
    }
    fn flatten(v: Vec<T>) -> Vec<T> {
        v.into_iter()
            .flat_map(|t| match t {
                T::G(b'0', v) => flatten(v),
                T::G(d, v) => vec![T::G(d, flatten(v))],
                t => vec![t],
            })
            .collect()
    }
    /// Joint punctuation that is not followed by punctuation, or an apostrophe not by an identifier,
    /// cannot be told from its text.
    fn well_formed(v: &[T]) -> bool {
        v.iter().enumerate().all(|(i, t)| match (t, v.get(i + 1)) {
            (T::P('\'', j), n) => *j && matches!(n, Some(T::I(s)) if !s.starts_with("r#")),
            (T::P(_, true), n) => matches!(n, Some(T::P(c, _)) if *c != '\''),
            (T::G(_, v), _) => well_formed(v),
            _ => true,
        })
    }
    for len in 0..=if o.thorough { 5 } else { 4 } {
        o.each(format!("streams of {len} out of {K} tokens built while forced, converted to the compiler's"), K.pow(len), |o, i| {
            let mut j = i;
            let ks: Vec<u64> = (0..len)
                .map(|_| {
                    let k = j % K;
                    j /= K;
                    k
                })
                .collect();
            o.case = format!("forced tokens {ks:?}");
            o.transitions += 1;
            let r = guard(|| {
                p2::fallback::force();
                let ts: TokenStream = ks.iter().map(|&k| tok(k)).collect();
                p2::fallback::unforce();
                let held = cmp::trees(ts.clone());
                if !well_formed(&held) {
                    return Ok(None);
                }
                let want = flatten(held);
                let text = ts.to_string();
                let got = pm_trees(proc_macro::TokenStream::from(ts));
                if open_spacing(got.clone()) == open_spacing(want.clone()) {
                    Ok(Some(hash(&want)))
                } else {
                    Err(format!("holds {want:?} (printed {text:?}) but converts to {got:?}"))
                }
            });
            p2::fallback::unforce();
            o.validated += 1;
            match r {
                Ok(Ok(Some(h))) => o.state(h),
                Ok(Ok(None)) => o.open += 1,
                Ok(Err(e)) => o.violation(&format!("{ks:?}"), format!("a stream of {len} tokens made while forced {e}")),
                Err(p) => o.violation(&format!("{ks:?}"), format!("tokens {ks:?} made while forced: panicked: {p}")),
            }
        });
    }
}

/// The compiler does not mark punctuation directly before an apostrophe as joint, this library does:
/// that spacing is left open.
fn open_spacing(mut v: Vec<T>) -> Vec<T> {
    for i in 0..v.len() {
        let lifetime = match v.get(i + 1) {
            Some(T::P('\'', _)) => true,
            Some(T::L(l)) => l.starts_with('\''),
            _ => false,
        };
        match &mut v[i] {
            T::P(_, joint) if lifetime => *joint = false,
            T::G(_, inner) => *inner = open_spacing(std::mem::take(inner)),
            _ => {}
        }
    }
    v
}

/// The tokens the reference lexer gives; doc comment literals by value.
fn compare(src: &str, ts: p2::TokenStream, lx: &Lexer) -> Result<(), String> {
    cmp::compare(src, ts, &lx.evs, &mut |_, _| Ok(())).map_err(|e| format!("differs from the self-contained lexer: {e}"))
}

pub fn run(o: &mut Out, input: proc_macro::TokenStream) {
    conversions(o, &input);
    span_queries(o, &input);
    constructors(o);
    forced_streams(o);
    parsing(o);
}
