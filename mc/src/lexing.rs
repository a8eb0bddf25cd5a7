//! C01, C02, C11, C19: parsing.

use crate::cmp;
use crate::ctx::{guard, hash, Ctx, Local};
use crate::reflex::{End, Lexer, K};
use crate::spaces;
use proc_macro2::{Literal, TokenStream};
use std::cell::RefCell;

thread_local!(static LX: RefCell<Lexer> = RefCell::new(Lexer::default()));

pub fn with_ref<R>(src: &str, f: impl FnOnce(&Lexer, End) -> R) -> R {
    LX.with(|lx| {
        let mut lx = lx.borrow_mut();
        lx.load(src);
        let end = lx.run();
        f(&lx, end)
    })
}

/// Abstract outcome: token kinds, spacing and delimiters, without text.
pub fn shape(lx: &Lexer, end: End) -> u64 {
    let e = match end {
        End::Ok => 0,
        End::Reject { .. } => 1,
        End::Unclosed { .. } => 2,
        End::Open => 3,
    };
    hash((e, lx.evs.iter().map(|e| (e.k, e.synth, e.k == K::Lit && e.thi - e.tlo > 1)).collect::<Vec<_>>()))
}

pub fn keep_state(l: &mut Local, h: u64) {
    if l.states.len() < 200_000 {
        l.states.insert(h);
    }
}

pub fn c02(ctx: &Ctx) {
    let mut sp = spaces::lexer_spaces(ctx.thorough);
    sp.extend(spaces::deep_sizes());
    spaces::visit(ctx, &sp, |src, l| {
        with_ref(src, |lx, end| {
            l.transitions += 1;
            keep_state(l, shape(lx, end));
            let got = src.parse::<TokenStream>();
            if end == End::Open {
                l.open += 1;
                return;
            }
            l.validated += 1;
            match (end, got) {
                (End::Ok, Ok(ts)) => {
                    if let Err(e) = cmp::compare(src, ts, &lx.evs, &mut |_, _| Ok(())) {
                        ctx.violation(src, format!("parsing {:?}: {}", src, e));
                    }
                }
                (End::Ok, Err(_)) => ctx.violation(src, format!("parsing {:?}: valid Rust tokens rejected", src)),
                (_, Ok(ts)) => ctx.violation(src, format!("parsing {:?}: lexically invalid input accepted as {:?}", src, if src.len() < 5000 { ts.to_string() } else { String::new() })),
                (_, Err(_)) => {}
            }
        })
    });
}

pub fn c01(ctx: &Ctx) {
    let sp = spaces::lexer_spaces(ctx.thorough);
    spaces::visit(ctx, &sp, |src, l| {
        l.transitions += 2;
        l.validated += 1;
        let r = guard(|| {
            let a = src.parse::<TokenStream>();
            let o = match &a {
                Ok(ts) => {
                    let c = ts.clone();
                    let mut n = 0u64;
                    for tt in c {
                        n = n.wrapping_mul(5) + 1 + match tt {
                            proc_macro2::TokenTree::Group(g) => g.stream().into_iter().count() as u64 + 4,
                            proc_macro2::TokenTree::Ident(_) => 1,
                            proc_macro2::TokenTree::Punct(_) => 2,
                            proc_macro2::TokenTree::Literal(_) => 3,
                        } % 100;
                    }
                    n
                }
                Err(e) => {
                    let _ = e.span();
                    0
                }
            };
            drop(a);
            let b = src.parse::<Literal>();
            (o, b.is_ok())
        });
        match r {
            Ok(o) => keep_state(l, hash(o)),
            Err(p) => ctx.violation(src, format!("parsing {:?} panicked: {}", src, p)),
        }
    });
}

pub fn literal_spaces(deep: bool) -> Vec<spaces::Space> {
    use spaces::*;
    let d = deep as u32;
    let mut v = Vec::new();
    v.extend(words_upto("general", "", GENERAL, 4, ""));
    v.extend(words_upto("fragments", "", FRAGMENTS, 3, ""));
    v.extend((1..=5 + d).map(|l| words("numbers", "", NUMBER, l, "")));
    v.extend((0..=5 + d).map(|l| words("negative numbers", "-", NUMBER, l, "")));
    for pre in ["\"", "b\"", "c\""] {
        v.extend(words_upto(&format!("{pre} body"), pre, BODY, 4 + d, "\""));
    }
    for pre in ["r", "br", "cr", "-r"] {
        v.extend(words_upto(&format!("{pre} raw"), pre, RAW, 6, ""));
    }
    for pre in ["'", "b'"] {
        v.extend(words_upto(&format!("{pre} quotes"), pre, QUOTE, 4 + d, ""));
    }
    v.extend(scalars(TEMPLATES));
    v.extend(scalars(&["\u{e000}1", "\u{e000}-1", "-1\u{e000}", "1.5\u{e000}", "-\u{e000}1", "\u{e000}\"a\"", "\u{e000}'a'", "b\"\"\u{e000}", "\u{e000}b'a'"]));
    v.extend(escapes());
    v.extend(sizes(600));
    v.extend(long_sizes(16));
    v.extend(bodies(deep));
    v.extend(truncations());
    v
}

/// Does the whole of `s` form exactly one literal token? None: left open.
pub fn is_one_literal(s: &str) -> Option<bool> {
    with_ref(s, |lx, end| match end {
        End::Open => None,
        End::Ok => Some(lx.evs.len() == 1 && lx.evs[0].k == K::Lit && lx.evs[0].tlo == 0 && lx.evs[0].thi == s.len()),
        _ => Some(false),
    })
}

fn class(c: char) -> u32 {
    if c.is_ascii() {
        c as u32
    } else {
        0x80 + (crate::reflex::id_start(c) as u32) * 2 + crate::reflex::id_cont(c) as u32 + c.is_whitespace() as u32 * 4
    }
}

pub fn c19(ctx: &Ctx) {
    let sp = literal_spaces(ctx.thorough);
    spaces::visit(ctx, &sp, |src, l| {
        l.transitions += 1;
        let body = match src.strip_prefix('-') {
            Some(r) if r.starts_with(|c: char| c.is_ascii_digit()) => r,
            _ => src,
        };
        let want = is_one_literal(body);
        let got = src.parse::<Literal>();
        keep_state(l, hash((want, got.is_ok(), body.len() < src.len(), src.len().min(40), src.chars().next().map(class), src.chars().last().map(class))));
        // agreement with stream parsing holds even where the grammar leaves the outcome open
        if body.len() == src.len() {
            let as_stream = match src.parse::<TokenStream>() {
                Err(_) => false,
                Ok(ts) => {
                    let mut it = ts.into_iter();
                    match (it.next(), it.next()) {
                        (Some(proc_macro2::TokenTree::Literal(lit)), None) => cmp::prints_as(&lit, src) && src != "(/*ERROR*/)",
                        _ => false,
                    }
                }
            };
            if as_stream != got.is_ok() {
                ctx.violation(src, format!("{:?}: as a literal {}, as a stream {}", src,
                    if got.is_ok() { "accepted" } else { "rejected" },
                    if as_stream { "exactly one literal" } else { "not one literal token" }));
            }
        }
        match (&want, &got) {
            (None, _) => l.open += 1,
            (Some(true), Err(_)) => ctx.violation(src, format!("{:?} is one literal but was rejected", src)),
            (Some(false), Ok(lit)) => ctx.violation(src, format!("{:?} is not one literal but was accepted as {}", src, lit)),
            _ => l.validated += 1,
        }
        if let Ok(lit) = got {
            if lit.to_string() != src {
                ctx.violation(src, format!("{:?} parsed as a literal prints as {:?}", src, lit.to_string()));
            }
            // what quote! uses for a literal already known to be one
            if !src.starts_with('-') {
                let unchecked = unsafe { Literal::from_str_unchecked(src) };
                if !cmp::prints_as(&unchecked, src) {
                    ctx.violation(src, format!("{:?} made a literal without checks prints as {:?}", src, unchecked.to_string()));
                }
            }
        }
    });
}
