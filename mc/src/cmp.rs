//! Comparison of real token streams with reference events and with the plain tree model.

use crate::reflex::{self, Ev, K};
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};

/// Plain tree model of a token.
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum T {
    G(u8, Vec<T>),
    I(String),
    P(char, bool),
    L(String),
}

pub fn delim(d: Delimiter) -> u8 {
    match d {
        Delimiter::Parenthesis => b'(',
        Delimiter::Bracket => b'[',
        Delimiter::Brace => b'{',
        Delimiter::None => b'0',
    }
}
pub fn undelim(d: u8) -> Delimiter {
    match d {
        b'(' => Delimiter::Parenthesis,
        b'[' => Delimiter::Bracket,
        b'{' => Delimiter::Brace,
        _ => Delimiter::None,
    }
}

pub fn tree(tt: &TokenTree) -> T {
    match tt {
        TokenTree::Group(g) => T::G(delim(g.delimiter()), trees(g.stream())),
        TokenTree::Ident(i) => T::I(i.to_string()),
        TokenTree::Punct(p) => T::P(p.as_char(), p.spacing() == Spacing::Joint),
        TokenTree::Literal(l) => T::L(l.to_string()),
    }
}
pub fn trees(ts: TokenStream) -> Vec<T> {
    ts.into_iter().map(|tt| tree(&tt)).collect()
}

/// Value of a cooked, unprefixed, unsuffixed string literal.
pub fn string_value(lit: &str) -> Option<Vec<u8>> {
    let c: Vec<char> = lit.chars().collect();
    if c.len() < 2 || c[0] != '"' || c[c.len() - 1] != '"' {
        return None;
    }
    let mut out = Vec::new();
    let mut open = false;
    reflex::unescape(&c[1..c.len() - 1], reflex::Mode::Str, &mut out, &mut open).ok()?;
    // an unescaped inner quote would end the literal early
    let mut i = 1;
    while i < c.len() - 1 {
        match c[i] {
            '\\' => i += 2,
            '"' => return None,
            _ => i += 1,
        }
    }
    if i != c.len() - 1 || open {
        return None;
    }
    Some(out)
}

fn norm_crlf(s: &[u8]) -> Vec<u8> {
    let mut v = Vec::with_capacity(s.len());
    for (i, &b) in s.iter().enumerate() {
        if !(b == b'\r' && s.get(i + 1) == Some(&b'\n')) {
            v.push(b);
        }
    }
    v
}

/// Text equality without building a String for the token.
pub struct Eq<'a> {
    rest: &'a str,
    ok: bool,
}
impl std::fmt::Write for Eq<'_> {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        match self.rest.strip_prefix(s) {
            Some(r) => self.rest = r,
            None => self.ok = false,
        }
        Ok(())
    }
}
pub fn prints_as(t: &dyn std::fmt::Display, text: &str) -> bool {
    let mut w = Eq { rest: text, ok: true };
    let _ = std::fmt::Write::write_fmt(&mut w, format_args!("{}", t));
    w.ok && w.rest.is_empty()
}

/// Compares a parsed stream with the reference events of `src`. Calls `f` for each token with its
/// event (for groups: the Open event), in source order. Err describes the first difference.
pub fn compare(
    src: &str,
    ts: TokenStream,
    evs: &[Ev],
    f: &mut dyn FnMut(&TokenTree, &Ev) -> Result<(), String>,
) -> Result<(), String> {
    let mut it = evs.iter();
    // explicit stack: nesting may be deep
    let mut stack = vec![(ts.into_iter(), 0u8)];
    loop {
        let d = stack.last().unwrap().1;
        let next = stack.last_mut().unwrap().0.next();
        match next {
            None => {
                stack.pop();
                if stack.is_empty() {
                    return match it.next() {
                        None => Ok(()),
                        Some(e) => Err(format!("stream ends before expected {:?} at byte {}", e.k, e.lo)),
                    };
                }
                match it.next() {
                    Some(e) if e.k == K::Close(d) => {}
                    e => return Err(format!("group ends, expected {:?}", e.map(|e| e.k))),
                }
            }
            Some(tt) => {
                let Some(e) = it.next() else {
                    return Err(format!("extra token {}", tt));
                };
                let text = if e.synth { "doc" } else { &src[e.tlo..e.thi] };
                let ok = match (&tt, e.k) {
                    (TokenTree::Group(g), K::Open(d)) => delim(g.delimiter()) == d,
                    (TokenTree::Ident(i), K::Ident) => prints_as(i, text),
                    (TokenTree::Punct(p), K::Punct(c, sp)) => {
                        p.as_char() == c && sp.map_or(true, |j| (p.spacing() == Spacing::Joint) == j)
                    }
                    (TokenTree::Literal(l), K::Lit) => prints_as(l, text),
                    (TokenTree::Literal(l), K::DocLit) => {
                        let want = src[e.tlo..e.thi].as_bytes();
                        match string_value(&l.to_string()) {
                            Some(v) => v == want || norm_crlf(&v) == norm_crlf(want),
                            None => false,
                        }
                    }
                    _ => false,
                };
                if !ok {
                    return Err(format!("got {:?}, expected {:?} with text {:?} at byte {}", tree_shallow(&tt), e.k, text, e.lo));
                }
                f(&tt, e)?;
                if let TokenTree::Group(g) = tt {
                    stack.push((g.stream().into_iter(), delim(g.delimiter())));
                }
            }
        }
    }
}

pub fn tree_shallow(tt: &TokenTree) -> String {
    match tt {
        TokenTree::Group(g) => format!("Group {:?}", g.delimiter()),
        TokenTree::Ident(i) => format!("Ident {:?}", i.to_string()),
        TokenTree::Punct(p) => format!("Punct {:?} {:?}", p.as_char(), p.spacing()),
        TokenTree::Literal(l) => format!("Literal {:?}", l.to_string()),
    }
}
