//! Validates the reference lexer of ../mc against rustc's own lexer and token-tree reader
//! (nightly, rustc_private), by exhaustive comparison over the same input spaces.
#![feature(rustc_private)]
#![allow(dead_code)]
extern crate rustc_ast;
extern crate rustc_ast_pretty;
extern crate rustc_driver;
extern crate rustc_errors;
extern crate rustc_lexer;
extern crate rustc_parse;
extern crate rustc_session;
extern crate rustc_span;

#[path = "../../mc/src/ctx.rs"]
mod ctx;
#[path = "../../mc/src/reflex.rs"]
mod reflex;
#[path = "../../mc/src/spaces.rs"]
mod spaces;

use ctx::{hash, Ctx};
use reflex::{End, Lexer, K};
use rustc_ast::token::{self as tk, Delimiter};
use rustc_ast::tokenstream::{Spacing, TokenStream, TokenTree};
use rustc_errors::{emitter::SilentEmitter, DiagCtxt};
use rustc_session::parse::ParseSess;
use rustc_span::edition::Edition;
use rustc_span::source_map::{FilePathMapping, SourceMap};
use rustc_span::FileName;
use std::sync::Arc;

fn op(k: &tk::TokenKind) -> Option<&'static str> {
    Some(match k {
        tk::Eq => "=", tk::Lt => "<", tk::Le => "<=", tk::EqEq => "==", tk::Ne => "!=", tk::Ge => ">=", tk::Gt => ">",
        tk::AndAnd => "&&", tk::OrOr => "||", tk::Bang => "!", tk::Tilde => "~", tk::Plus => "+", tk::Minus => "-",
        tk::Star => "*", tk::Slash => "/", tk::Percent => "%", tk::Caret => "^", tk::And => "&", tk::Or => "|",
        tk::Shl => "<<", tk::Shr => ">>", tk::PlusEq => "+=", tk::MinusEq => "-=", tk::StarEq => "*=", tk::SlashEq => "/=",
        tk::PercentEq => "%=", tk::CaretEq => "^=", tk::AndEq => "&=", tk::OrEq => "|=", tk::ShlEq => "<<=", tk::ShrEq => ">>=",
        tk::At => "@", tk::Dot => ".", tk::DotDot => "..", tk::DotDotDot => "...", tk::DotDotEq => "..=", tk::Comma => ",",
        tk::Semi => ";", tk::Colon => ":", tk::PathSep => "::", tk::RArrow => "->", tk::LArrow => "<-", tk::FatArrow => "=>",
        tk::Pound => "#", tk::Dollar => "$", tk::Question => "?", tk::SingleQuote => "'",
        _ => return None,
    })
}

/// Flattened compiler tokens in the reference's event vocabulary: (kind, lo, hi, doc text)
type Flat = Vec<(K, usize, usize, Option<String>)>;

fn flatten(ts: &TokenStream, base: u32, out: &mut Flat) {
    for t in ts.iter() {
        match t {
            TokenTree::Delimited(sp, _, d, inner) => {
                let d = match d {
                    Delimiter::Parenthesis => b'(',
                    Delimiter::Bracket => b'[',
                    Delimiter::Brace => b'{',
                    _ => b'0',
                };
                let (lo, hi) = ((sp.open.lo().0 - base) as usize, (sp.close.hi().0 - base) as usize);
                out.push((K::Open(d), lo, hi, None));
                flatten(inner, base, out);
                out.push((K::Close(d), lo, hi, None));
            }
            TokenTree::Token(t, spacing) => {
                let (lo, hi) = ((t.span.lo().0 - base) as usize, (t.span.hi().0 - base) as usize);
                let joint = *spacing == Spacing::Joint;
                if let Some(s) = op(&t.kind) {
                    for (i, c) in s.chars().enumerate() {
                        let last = i + 1 == s.len();
                        out.push((K::Punct(c, Some(if last { joint } else { true })), lo + i, lo + i + 1, None));
                    }
                    continue;
                }
                match &t.kind {
                    tk::Ident(..) => out.push((K::Ident, lo, hi, None)),
                    tk::Lifetime(..) => {
                        out.push((K::Punct('\'', Some(true)), lo, lo + 1, None));
                        out.push((K::Ident, lo + 1, hi, None));
                    }
                    tk::Literal(_) => out.push((K::Lit, lo, hi, None)),
                    tk::DocComment(_, style, text) => {
                        out.push((K::Punct('#', Some(false)), lo, hi, None));
                        if *style == rustc_ast::AttrStyle::Inner {
                            out.push((K::Punct('!', Some(false)), lo, hi, None));
                        }
                        out.push((K::Open(b'['), lo, hi, None));
                        out.push((K::Ident, lo, hi, None));
                        out.push((K::Punct('=', Some(false)), lo, hi, None));
                        out.push((K::DocLit, lo, hi, Some(text.to_string())));
                        out.push((K::Close(b'['), lo, hi, None));
                    }
                    k => panic!("unexpected token {k:?}"),
                }
            }
        }
    }
}

fn rustc_lex(psess: &ParseSess, src: &str, n: usize) -> Option<Flat> {
    psess.dcx().reset_err_count();
    psess.bad_unicode_identifiers.borrow_mut().clear();
    let r = rustc_errors::catch_fatal_errors(|| {
        match rustc_parse::source_str_to_stream(psess, FileName::Custom(format!("{n}")), src.to_owned(), None) {
            Ok(ts) => Some(ts),
            Err(diags) => {
                for d in diags {
                    d.cancel();
                }
                None
            }
        }
    });
    let ts = r.ok()??;
    if psess.dcx().err_count() > 0 || !psess.bad_unicode_identifiers.borrow().is_empty() {
        return None;
    }
    let base = psess.source_map().files().last().unwrap().start_pos.0;
    let mut v = Vec::new();
    flatten(&ts, base, &mut v);
    Some(v)
}

fn sess() -> ParseSess {
    let sm = Arc::new(SourceMap::new(FilePathMapping::empty()));
    let dcx = DiagCtxt::new(Box::new(SilentEmitter));
    ParseSess::with_dcx(dcx, sm)
}

fn normalize(src: &str) -> String {
    let s = src.strip_prefix('\u{feff}').unwrap_or(src);
    let s = s.replace("\r\n", "\n");
    // keep rustc from treating the start as a shebang line
    if s.starts_with("#!") { format!(" {s}") } else { s }
}

fn differs(lx: &Lexer, src: &str, flat: &Flat) -> Option<String> {
    if lx.evs.len() != flat.len() {
        return Some(format!("{} events, rustc {}", lx.evs.len(), flat.len()));
    }
    for (e, (k, lo, hi, doc)) in lx.evs.iter().zip(flat) {
        let same = match (e.k, *k) {
            (K::Punct(a, None), K::Punct(b, _)) => a == b,
            (a, b) => a == b,
        };
        let span = match e.k {
            K::Close(_) => e.synth || e.hi == *hi,
            _ => (e.lo, e.hi) == (*lo, *hi),
        };
        let text = doc.as_ref().map_or(true, |d| *d == src[e.tlo..e.thi]);
        if !same || !span || !text {
            return Some(format!("{e:?} vs rustc {k:?} {lo}..{hi} {doc:?}"));
        }
    }
    None
}

fn main() {
    let deep = std::env::args().nth(1).as_deref() == Some("thorough");
    ctx::quiet_panics();
    let ctx = Ctx::new("oracle", deep);
    let sp = spaces::lexer_spaces(deep);
    const BLOCK: u64 = 1024;
    for edition in [Edition::Edition2021, Edition::Edition2018] {
        let mut starts = Vec::new();
        let mut total = 0;
        for s in &sp {
            starts.push(total);
            total += s.n.div_ceil(BLOCK);
            ctx.space(format!("{edition}: {}", s.name), s.n);
        }
        ctx.par(total, 1, |item, l| {
            let k = starts.partition_point(|&s| s <= item) - 1;
            let lo = (item - starts[k]) * BLOCK;
            let hi = (lo + BLOCK).min(sp[k].n);
            let mut lx = Lexer::default();
            rustc_span::create_session_globals_then(edition, &[], None, || {
                let psess = sess();
                let mut s = String::new();
                for i in lo..hi {
                    s.clear();
                    (sp[k].gen)(i, &mut s);
                    let src = normalize(&s);
                    if src.starts_with('\u{feff}') || src.contains("\r\n") {
                        continue; // normalising twice would change it again
                    }
                    if src.chars().any(|c| {
                        c == '\u{2139}' || !c.is_ascii() && (rustc_lexer::is_id_start(c) != reflex::id_start(c) || rustc_lexer::is_id_continue(c) != reflex::id_cont(c))
                    }) {
                        l.open += 1;
                        continue; // the two Unicode tables differ in version
                    }
                    ctx::CURRENT.with(|c| *c.borrow_mut() = src.clone());
                    lx.load(&s);
                    let end0 = lx.run();
                    let n0 = lx.evs.len();
                    lx.load(&src);
                    let end = lx.run();
                    let same_class = std::mem::discriminant(&end0) == std::mem::discriminant(&end);
                    if end != End::Open && (!same_class || n0 != lx.evs.len()) {
                        ctx.violation(s.clone(), format!("model: {s:?} is {end0:?} but newline-normalised it is {end:?}"));
                    }
                    if edition == Edition::Edition2018 && !lx.reserved_prefix {
                        continue;
                    }
                    if edition == Edition::Edition2021 && lx.reserved_prefix && end == End::Ok {
                        continue;
                    }
                    if edition == Edition::Edition2018 && (src.contains("c\"") || src.contains("cr") || src.contains("'r#") || (src.contains('\'') && src.contains('#'))) {
                        continue; // C strings and raw lifetimes are 2021 tokens
                    }
                    if end == End::Open || lx.wide_space {
                        l.open += 1;
                        continue;
                    }
                    l.transitions += 1;
                    let r = rustc_lex(&psess, &src, i as usize);
                    l.validated += 1;
                    match (end, r) {
                        (End::Ok, Some(flat)) => {
                            if let Some(d) = differs(&lx, &src, &flat) {
                                ctx.violation(src.clone(), format!("{edition} {src:?}: {d}"));
                            }
                        }
                        (End::Ok, None) => ctx.violation(src.clone(), format!("{edition} {src:?}: model accepts, rustc rejects")),
                        (_, Some(_)) => ctx.violation(src.clone(), format!("{edition} {src:?}: model rejects {end:?}, rustc accepts")),
                        (_, None) => {}
                    }
                    if l.states.len() < 10000 {
                        l.states.insert(hash(lx.evs.iter().map(|e| e.k).collect::<Vec<_>>()));
                    }
                    if ctx.stopped() {
                        return;
                    }
                }
            });
        });
    }
    ctx.finish();
}
