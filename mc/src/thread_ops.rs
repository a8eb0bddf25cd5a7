//! The operations threads perform in C18, and what a caller can see of each.

use crate::{cmp, ctx, lib};
use proc_macro2::*;
use std::fmt::Write as _;

pub const OPS: &[(char, &str)] = &[
    ('a', "parse a two-line source"),
    ('b', "parse a source with a literal and a doc comment"),
    ('e', "parse an invalid source"),
    ('q', "query all spans held"),
    ('i', "invalidate this thread's spans"),
    ('x', "let the thread exit, go on with a new one"),
    ('l', "parse a literal, take a subspan"),
    ('p', "construct and print"),
    ('j', "join the first and last span"),
    ('m', "parse 200 sources"),
];
/// Further operations, for the exploration that preempts at conflicting memory accesses only.
pub const MORE: &[(char, &str)] = &[
    ('s', "edit a shared stream: clone, extend, iterate, collect"),
    ('d', "show streams and tokens with {:?}"),
    ('n', "make identifiers, good and bad, compare and hash them"),
    ('v', "ask literals for their values, parse bad literals"),
    ('r', "make literals of every kind"),
    ('u', "parse non-ASCII identifiers, good and bad"),
    ('g', "open and close delimiters of groups, change spans"),
];
pub const A_SRC: &str = "ab (c)\né 'x";
pub const B_SRC: &str = "\"sé\\n\" y\n\n/// d\nz";

#[derive(Default)]
pub struct State {
    pub spans: Vec<Span>,
    pub streams: Vec<TokenStream>,
}

#[cfg(feature = "span")]
pub fn show(s: Span, o: &mut String) {
    let (b, st, en, t, f, lf) = lib(|| (s.byte_range(), s.start(), s.end(), s.source_text(), s.file(), s.local_file()));
    let _ = write!(o, "[{b:?} {}:{} {}:{} {t:?} {f} {lf:?}]", st.line, st.column, en.line, en.column);
}
#[cfg(not(feature = "span"))]
pub fn show(s: Span, o: &mut String) {
    let t = lib(|| s.source_text());
    let _ = write!(o, "[{t:?}]");
}

pub fn flat(ts: &TokenStream, v: &mut Vec<TokenTree>) {
    for t in ts.clone() {
        v.push(t.clone());
        if let TokenTree::Group(g) = t {
            flat(&g.stream(), v);
        }
    }
}

/// Executes one operation, returns what the caller can see.
pub fn exec(st: &mut State, op: char) -> String {
    let mut o = String::new();
    match op {
        'a' | 'b' => {
            let src = if op == 'a' { A_SRC } else { B_SRC };
            match lib(|| src.parse::<TokenStream>()) {
                Err(_) => o.push_str("rejected"),
                Ok(ts) => {
                    let text = lib(|| ts.to_string());
                    let mut v = Vec::new();
                    flat(&ts, &mut v);
                    let _ = write!(o, "{text} {:?}", v.iter().map(cmp::tree).collect::<Vec<_>>());
                    let sp: Vec<Span> = v.iter().map(|t| t.span()).collect();
                    show(sp[0], &mut o);
                    show(sp[sp.len() - 1], &mut o);
                    st.spans.extend([sp[0], sp[1], sp[sp.len() - 1]]);
                }
            }
        }
        'm' => {
            for i in 0..200 {
                if let Ok(ts) = format!("m{i} é").parse::<TokenStream>() {
                    if i % 66 == 1 {
                        st.spans.extend(ts.into_iter().map(|t| t.span()));
                    }
                }
            }
            show(st.spans[st.spans.len() - 1], &mut o);
        }
        'e' => match lib(|| "a\n ( \"".parse::<TokenStream>()) {
            Ok(_) => o.push_str("accepted"),
            Err(e) => {
                let _ = write!(o, "{e}");
                show(e.span(), &mut o);
                st.spans.push(e.span());
            }
        },
        'q' => {
            for &s in &st.spans {
                show(s, &mut o);
            }
            show(Span::call_site(), &mut o);
        }
        'i' => {
            st.spans.clear();
            #[cfg(feature = "span")]
            lib(|| extra::invalidate_current_thread_spans());
        }
        'l' => match lib(|| "\"xyz\"".parse::<Literal>()) {
            Err(_) => o.push_str("rejected"),
            Ok(l) => {
                let _ = write!(o, "{l}");
                show(l.span(), &mut o);
                st.spans.push(l.span());
                #[cfg(feature = "span")]
                if let Some(s) = lib(|| l.subspan(1..3)) {
                    show(s, &mut o);
                    st.spans.push(s);
                }
            }
        },
        'p' => {
            let s = lib(|| {
                let id = Ident::new("name", Span::call_site());
                let mut ts: TokenStream = [TokenTree::from(id), Literal::f32_suffixed(-1.5).into(), Punct::new('\'', Spacing::Joint).into()].into_iter().collect();
                ts.extend([TokenTree::from(Group::new(Delimiter::Brace, ts.clone()))]);
                ts.extend([Literal::string("q\"")]);
                ts.to_string()
            });
            o.push_str(&s);
        }
        'j' => {
            if let (Some(&f), Some(&l)) = (st.spans.first(), st.spans.last()) {
                match lib(|| f.join(l)) {
                    None => o.push_str("no join"),
                    Some(s) => show(s, &mut o),
                }
            }
        }
        's' => {
            let mut a: TokenStream = "f(1) + \"s\"".parse().unwrap();
            let b = a.clone();
            a.extend([TokenTree::from(Punct::new('-', Spacing::Joint)), Literal::i8_unsuffixed(-7).into()]);
            a.extend([b.clone(), TokenStream::new(), b.clone()]);
            let mut it = a.clone().into_iter();
            let first = it.next().map(|t| t.to_string());
            let rest: TokenStream = it.collect();
            let both: TokenStream = [rest, b].into_iter().collect();
            let _ = write!(o, "{a} {first:?} {both} {} {}", both.is_empty(), a.clone().into_iter().count());
            st.streams.push(a);
            st.streams.truncate(4);
        }
        'd' => {
            let a: TokenStream = "g { 'a: 0x1F_u8 } /// d".parse().unwrap();
            let _ = write!(o, "{a:?} {:?} {}", Ident::new("r", Span::call_site()), st.streams.len());
            for s in &st.streams {
                let _ = write!(o, "{s:?}");
            }
        }
        'n' => {
            use std::hash::{Hash, Hasher};
            for x in ["a", "é", "r#b", "_", "", "1", "a-b", "self"] {
                let r = ctx::guard(|| Ident::new(x, Span::call_site()));
                let w = ctx::guard(|| Ident::new_raw(x, Span::call_site()));
                let _ = write!(o, "{:?} {:?};", r.map(|i| i.to_string()).map_err(|_| ()), w.map(|i| i.to_string()).map_err(|_| ()));
            }
            let (a, b) = (Ident::new("ab", Span::call_site()), Ident::new_raw("ab", Span::call_site()));
            let h = |i: &Ident| {
                let mut h = std::collections::hash_map::DefaultHasher::new();
                i.hash(&mut h);
                h.finish()
            };
            let _ = write!(o, "{} {} {:?} {} {} {:?}", a == b, a == "ab", a.cmp(&b), h(&a), h(&b), "r#ab".parse::<TokenStream>().map(|t| t.to_string()).ok());
        }
        'v' => {
            for x in ["\"a\\u{e9}\\n\"", "b\"\\xff\"", "c\"z\"", "'\\''", "br#\"q\"#", "1.5e3f64", "1_000u8", "\"\\q\"", "1 ", "/*", "-1", "0x"] {
                match x.parse::<Literal>() {
                    Err(e) => {
                        let _ = write!(o, "{x} no: {e};");
                    }
                    Ok(l) => {
                        let _ = write!(o, "{l} {l:?}");
                        #[cfg(pm_values)]
                        let _ = write!(o, " {:?} {:?} {:?};", l.str_value().ok(), l.byte_str_value().ok(), l.cstr_value().ok());
                    }
                }
            }
        }
        'r' => {
            let v = [
                Literal::u8_suffixed(255), Literal::i128_unsuffixed(i128::MIN), Literal::usize_unsuffixed(7), Literal::f64_unsuffixed(1e30), Literal::f32_suffixed(0.5),
                Literal::string("a\"\u{1}\0b"), Literal::character('\''), Literal::byte_character(b'\n'), Literal::byte_string(b"\x00\xff\""), Literal::c_string(c"k\n"),
            ];
            let ts: TokenStream = v.into_iter().map(TokenTree::from).collect();
            let _ = write!(o, "{ts} {ts:?}");
        }
        'u' => {
            for x in ["éé 中é", "é\u{d7}", "r#éa éé\u{b7} '中", "\u{2003}\u{ad}"] {
                match x.parse::<TokenStream>() {
                    Ok(t) => {
                        let _ = write!(o, "{t};");
                    }
                    Err(e) => {
                        let _ = write!(o, "{e}");
                        show(e.span(), &mut o);
                    }
                }
            }
        }
        'g' => {
            let a: TokenStream = "x [y\n(z)] w".parse().unwrap();
            let mut v = Vec::new();
            flat(&a, &mut v);
            for t in &mut v {
                if let TokenTree::Group(g) = t {
                    show(g.span_open(), &mut o);
                    show(g.span_close(), &mut o);
                    let d = g.delim_span();
                    show(d.join(), &mut o);
                    show(d.close(), &mut o);
                }
                let keep = t.span();
                t.set_span(Span::call_site().resolved_at(keep).located_at(keep));
                show(t.span(), &mut o);
            }
            let (a, b) = (v[0].span(), v[v.len() - 1].span());
            match a.join(b) {
                None => o.push_str("no join"),
                Some(s) => show(s, &mut o),
            }
        }
        _ => unreachable!(),
    }
    o
}

pub fn guarded(st: &mut State, op: char) -> String {
    match ctx::guard(|| exec(st, op)) {
        Ok(s) => s,
        Err(p) => format!("panicked: {p}"),
    }
}

