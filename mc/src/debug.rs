//! C20: Debug output, plain and pretty, against a rendering of the tokens read through the accessors.

use crate::ctx::{guard, hash, Ctx, Local};
use crate::lexing::keep_state;
use crate::spaces::{self, Space};
#[cfg(any(feature = "span", procmacro2_semver_exempt))]
use proc_macro2::extra;
use proc_macro2::{Delimiter, Group, Ident, Literal, Punct, Spacing, Span, TokenStream, TokenTree};
use std::fmt;

/// A span as it has to be shown, or nothing.
type Sp = Option<(usize, usize)>;

enum M {
    G(Delimiter, Vec<M>, Sp),
    I(String, Sp),
    P(char, Spacing, Sp),
    L(String, Sp),
}

struct Bytes(usize, usize);
impl fmt::Debug for Bytes {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "bytes({}..{})", self.0, self.1)
    }
}
struct Plain<'a>(&'a str);
impl fmt::Debug for Plain<'_> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(self.0)
    }
}
struct Stream<'a>(&'a [M]);
impl fmt::Debug for Stream<'_> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("TokenStream ")?;
        f.debug_list().entries(self.0).finish()
    }
}
impl fmt::Debug for M {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        let (mut d, sp) = match self {
            M::G(delimiter, v, sp) => {
                let mut d = f.debug_struct("Group");
                d.field("delimiter", delimiter).field("stream", &Stream(v));
                (d, sp)
            }
            M::I(s, sp) => {
                let mut d = f.debug_struct("Ident");
                d.field("sym", &Plain(s));
                (d, sp)
            }
            M::P(c, spacing, sp) => {
                let mut d = f.debug_struct("Punct");
                d.field("char", c).field("spacing", spacing);
                (d, sp)
            }
            M::L(s, sp) => {
                let mut d = f.debug_struct("Literal");
                d.field("lit", &Plain(s));
                (d, sp)
            }
        };
        if let Some((a, b)) = sp {
            d.field("span", &Bytes(*a, *b));
        }
        d.finish()
    }
}
/// An identifier on its own.
struct Alone<'a>(&'a M);
impl fmt::Debug for Alone<'_> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match self.0 {
            M::I(s, _) if !SPANS => f.debug_tuple("Ident").field(&Plain(s)).finish(),
            m => fmt::Debug::fmt(m, f),
        }
    }
}

const SPANS: bool = cfg!(any(feature = "span", procmacro2_semver_exempt));

/// Shown as character offsets; the first source of a thread starts at 1.
#[cfg(any(feature = "span", procmacro2_semver_exempt))]
fn place(span: Span, src: &str) -> Sp {
    if span.source_text().is_none() {
        return None;
    }
    let r = span.byte_range();
    let at = |b: usize| 1 + src[..b].chars().count();
    Some((at(r.start), at(r.end)))
}
#[cfg(not(any(feature = "span", procmacro2_semver_exempt)))]
fn place(_: Span, _: &str) -> Sp {
    None
}

fn model(ts: TokenStream, src: &str) -> Vec<M> {
    ts.into_iter().map(|t| one(&t, src)).collect()
}
fn one(t: &TokenTree, src: &str) -> M {
    match t {
        TokenTree::Group(g) => M::G(g.delimiter(), model(g.stream(), src), place(g.span(), src)),
        TokenTree::Ident(i) => M::I(i.to_string(), place(i.span(), src)),
        TokenTree::Punct(p) => M::P(p.as_char(), p.spacing(), place(p.span(), src)),
        TokenTree::Literal(l) => M::L(l.to_string(), place(l.span(), src)),
    }
}

fn same(what: &str, got: &dyn fmt::Debug, want: &dyn fmt::Debug) -> Result<(), String> {
    for (how, g, w) in [("{:?}", format!("{got:?}"), format!("{want:?}")), ("{:#?}", format!("{got:#?}"), format!("{want:#?}"))] {
        if g != w {
            return Err(format!("{what} is shown by {how} as {g:?}, expected {w:?}"));
        }
    }
    Ok(())
}

fn all(ts: &TokenStream, src: &str) -> Result<(), String> {
    let m = model(ts.clone(), src);
    same("the stream", ts, &Stream(&m))?;
    let mut it = ts.clone().into_iter();
    let mut k = 0;
    loop {
        same("an iterator", &it, &Stream(&m[k..]))?;
        let Some(t) = it.next() else { break };
        same("a tree", &t, &m[k])?;
        match &t {
            TokenTree::Group(x) => same("a group", x, &Alone(&m[k]))?,
            TokenTree::Ident(x) => same("an identifier", x, &Alone(&m[k]))?,
            TokenTree::Punct(x) => same("a punct", x, &Alone(&m[k]))?,
            TokenTree::Literal(x) => same("a literal", x, &Alone(&m[k]))?,
        }
        k += 1;
    }
    // being shown changed nothing
    same("the stream, shown again,", ts, &Stream(&m))
}

/// A long flat stream: shown whole, and from a few places on.
fn long(ts: &TokenStream, src: &str) -> Result<(), String> {
    let m = model(ts.clone(), src);
    same("the stream", ts, &Stream(&m))?;
    for k in [1, m.len() / 2, m.len().saturating_sub(1), m.len()] {
        let mut it = ts.clone().into_iter();
        for _ in 0..k {
            it.next();
        }
        same("an iterator", &it, &Stream(&m[k.min(m.len())..]))?;
    }
    let g = Group::new(Delimiter::Bracket, ts.clone());
    same("a group", &g, &M::G(Delimiter::Bracket, m, None))
}

fn built() -> Vec<TokenTree> {
    let mut v: Vec<TokenTree> = vec![
        Ident::new("a", Span::call_site()).into(),
        Ident::new_raw("fn", Span::mixed_site()).into(),
        Punct::new('+', Spacing::Joint).into(),
        Punct::new('\'', Spacing::Joint).into(),
        Punct::new('#', Spacing::Alone).into(),
        Literal::string("\"\n{}é").into(),
        Literal::i32_suffixed(-1).into(),
        Literal::f64_unsuffixed(1.0).into(),
        Literal::character('\'').into(),
    ];
    for d in [Delimiter::Parenthesis, Delimiter::Bracket, Delimiter::Brace, Delimiter::None] {
        v.push(Group::new(d, TokenStream::new()).into());
        v.push(Group::new(d, v.iter().take(3).cloned().collect()).into());
    }
    v
}

fn check(ctx: &Ctx, l: &mut Local, case: &str, src: &str, f: impl FnOnce() -> Option<TokenStream>) {
    l.transitions += 1;
    match guard(|| match f() {
        Some(ts) => all(&ts, src).map(|()| Some(format!("{ts:?}").len())),
        None => Ok(None),
    }) {
        Ok(Ok(Some(n))) => {
            l.validated += 1;
            keep_state(l, hash(n));
        }
        Ok(Ok(None)) => l.open += 1,
        Ok(Err(e)) => ctx.violation(case, format!("{case:?}: {}", e.chars().take(700).collect::<String>())),
        Err(p) => ctx.violation(case, format!("{case:?}: panicked: {p}")),
    }
}

pub fn c20(ctx: &Ctx) {
    let mut sp: Vec<Space> = Vec::new();
    sp.extend(spaces::words_upto("general", "", spaces::GENERAL, if ctx.thorough { 4 } else { 3 }, ""));
    sp.extend(spaces::words_upto("fragments", "", spaces::FRAGMENTS, if ctx.thorough { 3 } else { 2 }, ""));
    sp.extend(spaces::words_upto("delimiters", "", spaces::DELIMS, 6, ""));
    sp.extend(spaces::words_upto("string bodies", "\"", spaces::BODY, 3, "\" x"));
    sp.extend(spaces::scalars(&["a\u{e000}", "\"\u{e000}\"", "'\u{e000}'"]));
    sp.extend(spaces::sizes(if ctx.thorough { 24 } else { 12 }));
    spaces::visit(ctx, &sp, |src, l| {
        #[cfg(any(feature = "span", procmacro2_semver_exempt))]
        extra::invalidate_current_thread_spans();
        check(ctx, l, src, src, || src.parse().ok());
    });
    let n = built().len() as u64;
    for len in 0..=3u32 {
        ctx.space(format!("every sequence of {len} constructed tokens out of {n}, with and without spans"), 2 * n.pow(len));
        ctx.par(n.pow(len).div_ceil(256), 1, |blk, l| {
            let b = built();
            for i in blk * 256..((blk + 1) * 256).min(n.pow(len)) {
                let mut j = i;
                let v: Vec<TokenTree> = (0..len)
                    .map(|_| {
                        let t = b[(j % n) as usize].clone();
                        j /= n;
                        t
                    })
                    .collect();
                let case = format!("{:?}", v.iter().map(|t| t.to_string()).collect::<Vec<_>>());
                check(ctx, l, &case, "", || Some(v.iter().cloned().collect()));
                // spans of a real source on every other token
                #[cfg(any(feature = "span", procmacro2_semver_exempt))]
                extra::invalidate_current_thread_spans();
                let src = "é (\u{4e2d} +x) \"q\"";
                let toks: Vec<TokenTree> = src.parse::<TokenStream>().unwrap().into_iter().collect();
                let mut spans: Vec<Span> = toks.iter().map(|t| t.span()).collect();
                // and places that cover no text
                if let Some(TokenTree::Literal(q)) = toks.last() {
                    spans.extend(q.subspan(1..1));
                    spans.extend(q.subspan(3..));
                }
                check(ctx, l, &case, src, || {
                    Some(v.iter().cloned().enumerate().map(|(k, mut t)| {
                        if k % 2 == 0 {
                            t.set_span(spans[(i as usize + k / 2) % spans.len()]);
                        }
                        t
                    }).collect())
                });
            }
        });
    }
    let mut lens: Vec<usize> = (0..=300).collect();
    lens.extend((9..=if ctx.thorough { 16 } else { 13 }).flat_map(|k| [(1 << k) - 1, 1 << k, (1 << k) + 1]));
    lens.extend([(1 << 16) - 1, 1 << 16, (1 << 16) + 1]);
    let unit = ["a ", "+= ", "() ", "1.5 ", "\"é\" ", "{ } ", "r#fn "];
    ctx.space("flat streams of 0..300 tokens and of lengths around powers of two, of one kind of token or mixed, parsed and collected", (lens.len() * (unit.len() + 1) * 2) as u64);
    ctx.par((lens.len() * (unit.len() + 1)) as u64, 1, |i, l| {
        let n = lens[i as usize / (unit.len() + 1)];
        let src: String = match unit.get(i as usize % (unit.len() + 1)) {
            Some(u) => u.repeat(n),
            None => unit.iter().cycle().take(n).copied().collect(),
        };
        for built in [false, true] {
            #[cfg(any(feature = "span", procmacro2_semver_exempt))]
            extra::invalidate_current_thread_spans();
            l.transitions += 1;
            let case = format!("{n} x {:?}", src.get(..6).unwrap_or(&src));
            match guard(|| {
                let mut ts: TokenStream = src.parse().map_err(|_| "rejected".to_string())?;
                if built {
                    ts = ts.into_iter().collect();
                }
                long(&ts, &src)
            }) {
                Ok(Ok(())) => l.validated += 1,
                Ok(Err(e)) => ctx.violation(&case, format!("{case}: {}", e.chars().take(700).collect::<String>())),
                Err(p) => ctx.violation(&case, format!("{case}: panicked: {p}")),
            }
        }
    });
    ctx.solo("spans on their own", |l| {
        check(ctx, l, "Span::call_site", "", || {
            let want = if SPANS { "bytes(0..0)" } else { "Span" };
            let got = format!("{:?}", Span::call_site());
            assert_eq!(got, want);
            None
        });
    });
}
