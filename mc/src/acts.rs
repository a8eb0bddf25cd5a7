//! C24: what is done after failures and in destructors, outside a macro and inside one.

use crate::cmp::trees;
use crate::ctx::guard;
use proc_macro2::{token_stream, Delimiter, Group, Ident, Literal, Punct, Spacing, Span, TokenStream, TokenTree};
use std::fmt::Write as _;
use std::hash::{Hash, Hasher};
use std::panic::resume_unwind;

pub const LOCATED: bool = cfg!(any(feature = "span", procmacro2_semver_exempt));

/// What is there before the act.
pub struct World {
    built: TokenStream,
    group: Group,
    rest: token_stream::IntoIter,
    ident: Ident,
    lit: Literal,
    /// parsed on this thread, if it may parse
    parsed: Option<(TokenStream, TokenStream)>,
}

const SRC: &str = "fn é(x: &'a [u8]) -> r#try { \"s\\n\" ; -1.5 }\n/// doc\nz";

fn build() -> TokenStream {
    let inner: TokenStream = [TokenTree::from(Literal::i32_suffixed(-7)), Punct::new('=', Spacing::Joint).into(), Punct::new('>', Spacing::Alone).into()].into_iter().collect();
    let mut ts = TokenStream::from(TokenTree::from(Ident::new("a", Span::call_site())));
    ts.extend([TokenTree::from(Group::new(Delimiter::Brace, inner.clone())), Group::new(Delimiter::None, inner).into(), Literal::string("q\"").into()]);
    ts
}

impl World {
    pub fn new(parse: bool) -> World {
        let built = build();
        let mut rest = built.clone().into_iter();
        rest.next();
        let group = Group::new(Delimiter::Parenthesis, built.clone());
        let parsed = parse.then(|| (SRC.parse().unwrap(), SRC[..SRC.len() - 1].parse().unwrap()));
        World { built, group, rest, ident: Ident::new_raw("match", Span::call_site()), lit: Literal::byte_string(b"\0z\xff"), parsed }
    }
}

pub type Act = (&'static str, bool, fn(&mut World) -> String);

fn nested(n: usize) -> TokenStream {
    let mut ts = TokenStream::new();
    for _ in 0..n {
        ts = TokenTree::from(Group::new(Delimiter::Bracket, ts)).into();
    }
    ts
}

#[cfg(any(feature = "span", procmacro2_semver_exempt))]
fn places(ts: TokenStream, o: &mut String) {
    for t in ts {
        let s = t.span();
        let _ = write!(o, "{:?} {:?} {:?} {:?} {}; ", s.byte_range(), s.start(), s.end(), s.source_text(), s.local_file().is_some());
        if let TokenTree::Group(g) = t {
            let _ = write!(o, "{:?} {:?} ", g.span_open().byte_range(), g.delim_span().close().start());
            places(g.stream(), o);
        }
    }
}
#[cfg(not(any(feature = "span", procmacro2_semver_exempt)))]
fn places(ts: TokenStream, o: &mut String) {
    for t in ts {
        let _ = write!(o, "{:?} ", t.span().source_text());
    }
}

/// name, whether it parses or asks for a place, what it shows
pub const ACTS: &[Act] = &[
    ("print", false, |w| format!("{} {} {} {}", w.built, w.group, w.ident, w.lit)),
    ("print what was parsed", false, |w| w.parsed.as_ref().map_or(String::new(), |p| format!("{} {}", p.0, p.1))),
    ("debug", false, |w| format!("{:?} {:#?} {:?} {:?}", w.built, w.group, w.ident, w.lit)),
    ("clone and drop", false, |w| {
        let c = w.built.clone();
        let n = c.is_empty();
        drop(c);
        let t = std::mem::take(&mut w.built);
        w.built = t.clone();
        n.to_string()
    }),
    ("walk", false, |w| format!("{:?} {:?}", trees(w.built.clone()), w.parsed.as_ref().map(|p| trees(p.0.clone())))),
    ("extend with trees", false, |w| {
        let add: Vec<TokenTree> = vec![w.ident.clone().into(), Literal::f32_unsuffixed(-2.0).into(), w.lit.clone().into()];
        w.built.extend(add);
        w.built.to_string()
    }),
    ("extend with streams", false, |w| {
        let other = w.parsed.as_ref().map_or_else(build, |p| p.1.clone());
        let mut ts = w.built.clone();
        ts.extend([other, w.built.clone(), TokenStream::new()]);
        ts.to_string()
    }),
    ("collect", false, |w| {
        let a: TokenStream = [w.built.clone(), w.group.stream()].into_iter().collect();
        let b: TokenStream = a.clone().into_iter().filter(|t| !matches!(t, TokenTree::Group(_))).collect();
        format!("{a} | {b}")
    }),
    ("step an iterator", false, |w| {
        let c = w.rest.clone();
        let t = w.rest.next();
        format!("{} {:?} {}", t.map_or("none".into(), |t| t.to_string()), w.rest.size_hint(), c.count())
    }),
    ("consume a stream halfway", false, |w| {
        let mut it = w.parsed.as_ref().map_or_else(|| w.built.clone(), |p| p.0.clone()).into_iter();
        let t = it.by_ref().nth(1);
        t.map_or("none".into(), |t| t.to_string())
    }),
    ("group", false, |w| {
        let mut g = Group::new(Delimiter::Brace, w.group.stream());
        g.set_span(Span::mixed_site());
        format!("{g} {:?} {}", g.delimiter(), g.stream().is_empty())
    }),
    ("nest and drop", false, |_| format!("{}", nested(30_000).is_empty())),
    ("identifiers", false, |w| {
        let a = Ident::new("match", Span::call_site());
        let mut h = std::collections::hash_map::DefaultHasher::new();
        w.ident.hash(&mut h);
        format!("{} {} {} {:?} {:x}", a, a == w.ident, w.ident == "r#match", a.cmp(&w.ident), h.finish())
    }),
    ("literals", false, |_| {
        format!(
            "{} {} {} {} {} {} {} {}",
            Literal::string("é\0\u{200b}\"'"),
            Literal::character('\''),
            Literal::byte_character(b'\''),
            Literal::byte_string(&[0, 1, 128, 34]),
            Literal::c_string(c"\x80é"),
            Literal::i128_suffixed(i128::MIN),
            Literal::f64_unsuffixed(1e21),
            Literal::u8_unsuffixed(255)
        )
    }),
    ("respan", false, |w| {
        let ts: TokenStream = w
            .built
            .clone()
            .into_iter()
            .map(|mut t| {
                t.set_span(Span::call_site());
                t
            })
            .collect();
        ts.to_string()
    }),
    ("a bad identifier", false, |_| format!("{} {}", guard(|| Ident::new("a b", Span::call_site())).is_err(), guard(|| Ident::new_raw("self", Span::call_site())).is_err())),
    ("a bad number", false, |_| format!("{}", guard(|| Literal::f64_suffixed(f64::NAN)).is_err())),
    ("parse", true, |_| format!("{:?}", SRC.parse::<TokenStream>().map(trees).map_err(drop))),
    ("fail to parse", true, |_| {
        let e = "a\n ( ]".parse::<TokenStream>().unwrap_err();
        let mut o = format!("{e}");
        #[cfg(any(feature = "span", procmacro2_semver_exempt))]
        {
            o += &format!(" {:?} {:?}", e.span().byte_range(), e.span().start());
        }
        o
    }),
    ("parse literals", true, |_| {
        let l: Literal = "-1.5e3".parse().unwrap();
        let m: Literal = "b\"a\\x41\"".parse().unwrap();
        format!("{l} {m} {:?} {}", m.subspan(1..3).and_then(|s| s.source_text()), "1 ".parse::<Literal>().is_err())
    }),
    ("ask for places", true, |w| {
        let mut o = String::new();
        if let Some(p) = &w.parsed {
            places(p.0.clone(), &mut o);
            places(p.1.clone(), &mut o);
        }
        o
    }),
    ("join", true, |w| {
        let Some((a, b)) = &w.parsed else { return String::new() };
        let (x, y) = (a.clone().into_iter().next().unwrap().span(), a.clone().into_iter().last().unwrap().span());
        let z = b.clone().into_iter().next().unwrap().span();
        format!("{:?} {}", x.join(y).map(|s| s.source_text()), x.join(z).is_some())
    }),
];

struct Bomb;
impl std::fmt::Write for Bomb {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if s.contains('q') {
            resume_unwind(Box::new(()));
        }
        Ok(())
    }
}

/// name, whether only to be done before the world exists, the call
pub type Fail = (&'static str, bool, fn());

macro_rules! fails {
    ($($(#[$m:meta])* $name:literal $before:literal $e:expr;)*) => {{
        let mut v: Vec<Fail> = Vec::new();
        $($(#[$m])* v.push(($name, $before, || { let _ = guard(|| { let _ = $e; }); }));)*
        v
    }};
}

#[cfg(any(feature = "span", procmacro2_semver_exempt))]
fn stale() -> Span {
    let ts: TokenStream = "\n éé \"long enough to lie beyond everything parsed afterwards\" x".parse().unwrap();
    let s = ts.into_iter().last().unwrap().span();
    proc_macro2::extra::invalidate_current_thread_spans();
    s
}

pub fn failures() -> Vec<Fail> {
    fails! {
        "Ident::new of nothing" false Ident::new("", Span::call_site());
        "Ident::new of a number" false Ident::new("1a", Span::call_site());
        "Ident::new of two words" false Ident::new("a b", Span::call_site());
        "Ident::new of a lifetime" false Ident::new("'a", Span::call_site());
        "Ident::new of a stray mark" false Ident::new("\u{301}", Span::call_site());
        "Ident::new_raw of self" false Ident::new_raw("self", Span::call_site());
        "Ident::new_raw of _" false Ident::new_raw("_", Span::call_site());
        "Ident::new_raw of nothing" false Ident::new_raw("", Span::call_site());
        "Punct::new of a letter" false Punct::new('a', Spacing::Joint);
        "Punct::new of a delimiter" false Punct::new('(', Spacing::Alone);
        "f32_unsuffixed of NaN" false Literal::f32_unsuffixed(f32::NAN);
        "f32_suffixed of infinity" false Literal::f32_suffixed(f32::INFINITY);
        "f64_unsuffixed of infinity" false Literal::f64_unsuffixed(f64::NEG_INFINITY);
        "f64_suffixed of NaN" false Literal::f64_suffixed(f64::NAN);
        "parse of an open group" false "a (b [".parse::<TokenStream>();
        "parse of a stray closer" false "a )".parse::<TokenStream>();
        "parse of a wrong closer" false "({ x ] y".parse::<TokenStream>();
        "parse of an open string" false "{ \"é".parse::<TokenStream>();
        "parse of an open comment" false "x /* /* */".parse::<TokenStream>();
        "parse of a bad escape" false "(a '\\q')".parse::<TokenStream>();
        "parse of many open groups" false "(".repeat(5000).parse::<TokenStream>();
        "parse of a stray character" false "a\n\u{0}".parse::<TokenStream>();
        "parse of a bare CR in a doc comment" false "/** a\rb */".parse::<TokenStream>();
        "literal of nothing" false "".parse::<Literal>();
        "literal with a blank" false "1 ".parse::<Literal>();
        "literal of a word" false "-a".parse::<Literal>();
        "literal of an open string" false "b\"".parse::<Literal>();
        "subspan beyond the end" false "12".parse::<Literal>().unwrap().subspan(1..9).is_none();
        "an iterator that fails" false {
            let mut ts = build();
            ts.extend(build().into_iter().enumerate().map(|(i, t)| if i == 2 { resume_unwind(Box::new(())) } else { t }));
        };
        "a failing iterator of streams" false {
            let ts: TokenStream = (0..3).map(|i| if i == 2 { resume_unwind(Box::new(())) } else { build() }).collect();
            ts
        };
        "a writer that fails" false { let _ = write!(Bomb, "{}", build()); };
        "a writer that fails in debug" false { let _ = write!(Bomb, "{:#?}", build()); };
        #[cfg(all(feature = "wrap", not(procmacro2_semver_exempt)))]
        "a compiler span outside a macro" false { Span::call_site().unwrap(); };
        #[cfg(any(feature = "span", procmacro2_semver_exempt))]
        "start of a stale span" true stale().start();
        #[cfg(any(feature = "span", procmacro2_semver_exempt))]
        "end of a stale span" true stale().end();
        #[cfg(any(feature = "span", procmacro2_semver_exempt))]
        "byte_range of a stale span" true stale().byte_range();
        #[cfg(any(feature = "span", procmacro2_semver_exempt))]
        "source_text of a stale span" true stale().source_text();
        #[cfg(any(feature = "span", procmacro2_semver_exempt))]
        "file of a stale span" true stale().file();
        #[cfg(any(feature = "span", procmacro2_semver_exempt))]
        "join with a stale span" true { let s = stale(); let t: TokenStream = "a".parse().unwrap(); t.into_iter().next().unwrap().span().join(s) };
        #[cfg(any(feature = "span", procmacro2_semver_exempt))]
        "join of a stale span" true { let s = stale(); s.join(s) };
    }
}

/// What the acts show one after the other, ordinarily.
pub fn reference(acts: &[usize], parse: bool) -> Vec<String> {
    let mut w = World::new(parse);
    acts.iter().map(|&a| ACTS[a].2(&mut w)).collect()
}

