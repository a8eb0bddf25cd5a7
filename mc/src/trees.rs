//! C03, C04, C06: separators, printing, negative literals.

use crate::cmp::{self, tree, trees, undelim, T};
use crate::ctx::{guard, hash, Ctx, Local, CURRENT};
use crate::lexing::keep_state;
use crate::spaces::{self, *};
use proc_macro2::{Group, Ident, Literal, Punct, Spacing, Span, TokenStream, TokenTree};

fn set_current(s: &str) {
    CURRENT.with(|c| {
        let mut c = c.borrow_mut();
        c.clear();
        c.push_str(s);
    });
}

fn parse(s: &str) -> Option<Vec<T>> {
    s.parse::<TokenStream>().ok().map(trees)
}

// --- C03 ---------------------------------------------------------------------------------------

const SEPS: &[&str] = &[
    " ", "\n", "\t", "\r\n", "\u{b}", "\u{c}", "\u{85}", "\u{a0}", "\u{200e}", "\u{200f}", "\u{2028}", "\u{2029}", "\u{3000}", "/**/", "/*x*/", "/* é */", "/*/**/*/", "/*/*é*//**/*/",
    "/***/", "/****/", "/*** x */", "/*\n*/", "/*\r\n*/", "/*'*/", "/*\"*/", "/*(*/", "/*]*/", "/* // */", "/*\\*/", "/*/ */", "/*`*/", "//\n", "// x\n", "//é\r\n", "////\n", "//// x\n", "// /*\n",
    "// */\n", "//'\n", "//\"\n", "//)\n", "//\\\n", "//\u{2028}x\n", " /**/ ", "\n//x\n\n", "/**//**/", "/*a*/\n/*b*/", "//a\n//b\n", "/*\r*/ ", "//\r\n",
];
const ENDS: &[&str] = &["", " ", "\n", "/**/", "//", "// x", "//é", "////", "//x\n", "/*é*/", "\r\n", "/***/", "/*/**/*/", "//\r\n", "\u{3000}", "// /*", "//\t"];
const STARTS: &[&str] = &["", " ", "\n", "\u{feff}", "\u{feff} ", "\u{feff}//x\n", "\u{feff}/*é*/", "/**/", "//x\n", "//// x\n", "\r\n", "/* /* */ */", "\u{2028}", "/***/"];
const TOKS: &[&str] = &[
    "a", "_", "é", "r#b", "r", "b", "br", "c", "0", "1.", "1.5", "0x1f", "7u8", "1e3", "\"s\"", "r\"s\"", "r#\"s\"#", "b\"s\"", "c\"s\"", "'c'", "'\\''", "b'c'", "'l", "'_", "+", "-", "/", "*", "#", "!", ".", "=", "<", "$",
    ":", "(", ")", "[", "]", "{", "}", "\"/*\"", "\"//\"", "'/'", "'*'", "r\"//\"", "\"é\"x",
];

fn c03_separators(ctx: &Ctx, len: usize) {
    let (t, s) = (TOKS.len() as u64, SEPS.len() as u64);
    // every token sequence of this length, every separator at one gap with a fixed one elsewhere,
    // every start and end
    let n = t.pow(len as u32);
    ctx.space(
        format!("every sequence of {len} tokens out of {t}, every pair of separators out of {s}+none at the gaps, every start and end"),
        n * (s + 1) * ((s + 1) + STARTS.len() as u64 + ENDS.len() as u64),
    );
    ctx.par(n, 8, |i, l| {
        let toks: Vec<&str> = (0..len).map(|k| TOKS[(i / t.pow(k as u32) % t) as usize]).collect();
        let base = toks.join(" ");
        set_current(&base);
        let want = parse(&base);
        let mut buf = String::new();
        let is_delim = |x: &str| matches!(x, "(" | ")" | "[" | "]" | "{" | "}");
        // separator k, or the empty one where a delimiter already separates
        let sep = |k: usize, left: &str, right: &str, out: &mut String| -> bool {
            if k == SEPS.len() {
                return is_delim(left) || is_delim(right);
            }
            if left.ends_with('/') && SEPS[k].starts_with('/') {
                out.push(' ');
            }
            out.push_str(SEPS[k]);
            true
        };
        let mut compare = |buf: &str, l: &mut Local| {
            l.transitions += 1;
            l.validated += 1;
            set_current(buf);
            let got = parse(buf);
            if got != want {
                ctx.violation(buf, format!("{buf:?} parses to {got:?}, but {base:?} to {want:?}"));
            }
        };
        for a in 0..=SEPS.len() {
            for b in 0..=SEPS.len() {
                if len == 2 && b > 0 {
                    break;
                }
                buf.clear();
                let mut ok = true;
                for (k, x) in toks.iter().enumerate() {
                    if k > 0 {
                        ok &= sep(if k % 2 == 1 { a } else { b }, toks[k - 1], x, &mut buf);
                    }
                    buf.push_str(x);
                }
                if ok {
                    compare(&buf, l);
                }
            }
        }
        // starts and ends
        if len <= 2 {
            for st in STARTS {
                for en in ENDS {
                    buf.clear();
                    buf.push_str(st);
                    buf.push_str(&base);
                    if base.ends_with('/') && en.starts_with('/') {
                        buf.push(' ');
                    }
                    buf.push_str(en);
                    compare(&buf, l);
                }
            }
        }
        keep_state(l, hash(&want));
        if i % 997 == 0 {
            ctx.sample(format!("separators of {base:?}"));
        }
    });
}

/// The plain definition of which texts are doc comments, per style; None: not a doc comment with
/// exactly this body.
fn doc_body_ok(style: usize, body: &str) -> Option<bool> {
    // bare CR is not allowed in doc comments
    let bytes = body.as_bytes();
    for (i, &b) in bytes.iter().enumerate() {
        if b == b'\r' && bytes.get(i + 1) != Some(&b'\n') {
            return None;
        }
    }
    match style {
        0 | 1 => {
            if body.contains('\n') || (style == 0 && body.starts_with('/')) {
                return None;
            }
        }
        _ => {
            if style == 2 && (body.starts_with('*') || body.is_empty() || body.starts_with('/')) {
                return None;
            }
            // balanced, and not closed early
            let mut depth = 0;
            let mut i = 0;
            let full: Vec<u8> = [bytes, b"*/"].concat();
            while i + 1 < full.len() {
                if &full[i..i + 2] == b"/*" {
                    depth += 1;
                    i += 2;
                } else if &full[i..i + 2] == b"*/" {
                    if depth == 0 {
                        return if i + 2 == full.len() { Some(true) } else { None };
                    }
                    depth -= 1;
                    i += 2;
                } else {
                    i += 1;
                }
            }
            return None;
        }
    }
    Some(true)
}

fn escape(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        o.push_str(&format!("\\u{{{:x}}}", c as u32));
    }
    o.push('"');
    o
}

/// Replaces cooked string literals by their value so that differently escaped texts compare equal.
fn by_value(v: &mut [T]) {
    for t in v {
        match t {
            T::G(_, v) => by_value(v),
            T::L(s) => {
                if let Some(v) = cmp::string_value(s) {
                    *s = format!("value:{}", String::from_utf8_lossy(&v).replace("\r\n", "\n"));
                }
            }
            _ => {}
        }
    }
}

const DOC_CONTEXTS: &[(&str, &str)] = &[("", ""), ("a ", ""), ("", " b"), ("(", ")"), ("+", ";"), ("'a", "'b"), ("/*x*/", "/*y*/"), ("\u{feff}", "")];

fn c03_docs(ctx: &Ctx, len: u32) {
    const BODY: &[&str] = &["/", "*", "!", "a", " ", "é", "\n", "\r\n", "\"", "\\", "\u{2028}"];
    let k = BODY.len() as u64;
    for len in 0..=len {
        let n = k.pow(len);
        ctx.space(format!("every comment body of {len} out of {k} symbols, four styles, {} contexts", DOC_CONTEXTS.len()), n * 4 * DOC_CONTEXTS.len() as u64);
        ctx.par(n, 32, |mut i, l| {
            let mut body = String::new();
            for _ in 0..len {
                body.push_str(BODY[(i % k) as usize]);
                i /= k;
            }
            docs_one(ctx, &body, l);
        });
    }
    // every scalar in a body
    let n = 0x110000u64 - 0x800;
    ctx.space("every Unicode scalar as part of a comment body, four styles", n * 4);
    ctx.par(n, 1024, |i, l| {
        let c = scalar(i);
        if c == '\r' || c == '\n' {
            return;
        }
        docs_one_ctx(ctx, &format!(" {c}x"), &DOC_CONTEXTS[1..3], l);
    });
}

fn docs_one(ctx: &Ctx, body: &str, l: &mut Local) {
    docs_one_ctx(ctx, body, DOC_CONTEXTS, l)
}
fn docs_one_ctx(ctx: &Ctx, body: &str, contexts: &[(&str, &str)], l: &mut Local) {
    for style in 0..4 {
        let Some(_) = doc_body_ok(style, body) else { continue };
        let (o, c) = [("///", "\n"), ("//!", "\n"), ("/**", "*/"), ("/*!", "*/")][style];
        let bang = if style % 2 == 1 { "!" } else { "" };
        let mut ends = vec![c];
        if style < 2 {
            ends.push("\r\n");
            ends.push("");
        }
        for (pre, post) in contexts {
            for end in &ends {
                if end.is_empty() && !post.is_empty() {
                    continue;
                }
                let comment = format!("{pre}{o}{body}{end}{post}");
                let sp = if bang.is_empty() { "" } else { " " };
                let attr = format!("{pre} #{sp}{bang} [doc = {}] {post}", escape(body));
                set_current(&comment);
                l.transitions += 1;
                l.validated += 1;
                let mut got = parse(&comment);
                let mut want = parse(&attr);
                if let Some(v) = &mut got {
                    by_value(v);
                }
                if let Some(v) = &mut want {
                    by_value(v);
                }
                if got != want || want.is_none() {
                    ctx.violation(&comment, format!("{comment:?} parses to {got:?}, the attribute {attr:?} to {want:?}"));
                }
                keep_state(l, hash((style, body.len() % 8, pre, post)));
            }
        }
    }
}

/// Long comments, long runs of comments and blanks, deep nesting of comments.
fn c03_sizes(ctx: &Ctx) {
    let mut sizes: Vec<usize> = (0..=600).collect();
    sizes.extend(crate::ops::long_lengths(if ctx.thorough { 16 } else { 12 }));
    const UNITS: &[&str] = &["x", "é", " ", "\n", "\r\n", "*x", "\"", "\\", "/*", "/**/", "\u{4e2d}\n", "a b\t"];
    ctx.space("comment bodies of one unit repeated, every count up to 600 and around powers of two, twelve units, four styles", (sizes.len() * UNITS.len() * 4) as u64);
    ctx.par((sizes.len() * UNITS.len()) as u64, 4, |i, l| {
        let (n, u) = (sizes[i as usize / UNITS.len()], UNITS[i as usize % UNITS.len()]);
        let mut body = format!(" {}", u.repeat(n));
        if u == "/*" {
            // nested comments are closed again
            docs_one_ctx(ctx, &body, &DOC_CONTEXTS[2..4], l);
            body += &"*/".repeat(n);
        }
        docs_one_ctx(ctx, &body, &DOC_CONTEXTS[2..4], l);
    });
    ctx.space("separators repeated, every count up to 600 and around powers of two, every separator, between three pairs of tokens", (sizes.len() * SEPS.len() * 3) as u64);
    ctx.par((sizes.len() * SEPS.len()) as u64, 4, |i, l| {
        let (n, s) = (sizes[i as usize / SEPS.len()].max(1), SEPS[i as usize % SEPS.len()]);
        let run = s.repeat(n);
        for (a, b) in [("a", "b"), ("'l", "\"s\""), ("(1", ")")] {
            let src = format!("{a}{run}{b}");
            let base = format!("{a} {b}");
            set_current(&src);
            l.transitions += 1;
            l.validated += 1;
            if parse(&src) != parse(&base) {
                ctx.violation(&src, format!("{a:?} and {b:?} separated by {n} times {s:?} parse to {:?}, by a space to {:?}", parse(&src), parse(&base)));
            }
        }
    });
    ctx.space("runs of doc comments, every count up to 300, four styles", 301 * 4);
    ctx.par(301 * 4, 8, |i, l| {
        let (n, style) = ((i / 4) as usize, (i % 4) as usize);
        let (c, a) = [("/// é\n", "#[doc=\" é\"]"), ("//!\t\n", "# ![doc=\"\\t\"]"), ("/** x\n */", "#[doc=\" x\\n \"]"), ("/*! /*y*/ */\n", "# ![doc=\" /*y*/ \"]")][style];
        let (src, attr) = (format!("a {}b", c.repeat(n)), format!("a {}b", format!("{a} ").repeat(n)));
        set_current(&src);
        let (mut got, mut want) = (parse(&src), parse(&attr));
        got.as_deref_mut().map(by_value);
        want.as_deref_mut().map(by_value);
        l.transitions += 1;
        l.validated += 1;
        if got != want || want.is_none() {
            ctx.violation(&src, format!("{n} doc comments {c:?} parse to {got:?}, the attributes to {want:?}"));
        }
    });
}

pub fn c03(ctx: &Ctx) {
    c03_sizes(ctx);
    c03_separators(ctx, 2);
    c03_separators(ctx, 3);
    c03_docs(ctx, if ctx.thorough { 6 } else { 5 });
    // a carriage return in a doc comment is part of a line end or makes it invalid, wherever it is
    let mut sp: Vec<Space> = Vec::new();
    for (pre, post) in [("///", "\nz"), ("//!", "\nz"), ("/**", "*/ z"), ("/*!", "*/ z")] {
        sp.extend(words_upto(&format!("{pre} doc comment with carriage returns {post}"), pre, &["a", "\r", "\n", "\r\n", " "], if ctx.thorough { 7 } else { 6 }, post));
    }
    spaces::visit(ctx, &sp, |src, l| {
        l.transitions += 1;
        let body = src.strip_suffix("\nz").or(src.strip_suffix("*/ z")).unwrap();
        let body = if src.starts_with("//") { body.split('\n').next().unwrap() } else { body };
        let body = if src.starts_with("//") { body.strip_suffix('\r').unwrap_or(body) } else { body };
        let bare = body.replace("\r\n", "").contains('\r');
        if bare {
            l.validated += 1;
            if let Some(t) = parse(src) {
                ctx.violation(src, format!("{src:?} has a doc comment with a bare carriage return, which Rust refuses, but parses to {t:?}"));
            }
        } else if src.starts_with("/*") {
            l.validated += 1;
            if parse(src).is_none() {
                ctx.violation(src, format!("{src:?} is rejected"));
            }
        }
    });
    // plain comments of every body: no tokens at all
    let sp: Vec<Space> = words_upto("plain comment bodies", "", COMMENT, if ctx.thorough { 8 } else { 7 }, "");
    spaces::visit(ctx, &sp, |body, l| {
        l.transitions += 1;
        // line comment: anything without newline, not starting like a doc comment
        if !body.contains('\n') && !body.starts_with('!') && !(body.starts_with('/') && !body.starts_with("//")) {
            l.validated += 1;
            let src = format!("a//{body}\nb");
            if parse(&src) != Some(vec![T::I("a".into()), T::I("b".into())]) {
                // a bare CR is fine in a plain comment
                ctx.violation(&src, format!("the comment in {src:?} is not skipped: {:?}", parse(&src)));
            }
        }
    });
}

// --- C04 ---------------------------------------------------------------------------------------

fn flatten(v: &[T], out: &mut Vec<T>) {
    for t in v {
        match t {
            T::G(b'0', inner) => flatten(inner, out),
            T::G(d, inner) => {
                let mut x = Vec::new();
                flatten(inner, &mut x);
                out.push(T::G(*d, x));
            }
            t => out.push(t.clone()),
        }
    }
}

/// print, reparse, compare; `want` is the expected reparse result
fn round_trip(ts: &TokenStream, want: &[T]) -> Result<(), String> {
    let shown = ts.to_string();
    let again: TokenStream = shown.parse().map_err(|_| format!("prints as {shown:?}, which does not parse"))?;
    let got = trees(again.clone());
    if got != want {
        return Err(format!("prints as {shown:?}, which parses to {got:?} instead of {want:?}"));
    }
    if !contains_none(ts) {
        let shown2 = again.to_string();
        if shown2 != shown {
            return Err(format!("prints as {shown:?}, reparsed it prints as {shown2:?}"));
        }
    }
    Ok(())
}
fn contains_none(ts: &TokenStream) -> bool {
    ts.clone().into_iter().any(|t| match t {
        TokenTree::Group(g) => cmp::delim(g.delimiter()) == b'0' || contains_none(&g.stream()),
        _ => false,
    })
}

fn token_prints(t: &TokenTree) -> Result<(), String> {
    let a = t.to_string();
    let b = TokenStream::from(t.clone()).to_string();
    let c = match t {
        TokenTree::Group(g) => g.to_string(),
        TokenTree::Ident(g) => g.to_string(),
        TokenTree::Punct(g) => g.to_string(),
        TokenTree::Literal(g) => g.to_string(),
    };
    if a != b || a != c {
        return Err(format!("token prints as {c:?}, tree as {a:?}, stream of it as {b:?}"));
    }
    Ok(())
}

/// building blocks of constructed streams
fn atoms() -> Vec<T> {
    let mut v = Vec::new();
    for i in ["a", "r#a", "é", "r", "b", "br", "c", "_", "self", "e3"] {
        v.push(T::I(i.into()));
    }
    for l in ["1", "1.0", "\"s\"", "'c'", "b\"x\"", "r#\"s\"#", "7u8", "0x1f", "\"\\\"\"", "2."] {
        v.push(T::L(l.into()));
    }
    for p in "+-/*!#=<>.:,;&|$'".chars() {
        v.push(T::P(p, true));
        if p != '\'' {
            v.push(T::P(p, false));
        }
    }
    for d in [b'(', b'[', b'{', b'0'] {
        v.push(T::G(d, vec![]));
        v.push(T::G(d, vec![T::I("a".into())]));
        v.push(T::G(d, vec![T::P('+', false)]));
        v.push(T::G(d, vec![T::P('-', true), T::P('>', false), T::L("1".into())]));
        v.push(T::G(d, vec![T::G(b'{', vec![]), T::G(b'0', vec![T::L("\"x\"".into())])]));
        v.push(T::G(d, vec![T::P('\'', true), T::I("a".into())]));
    }
    v
}

/// Is this sequence in the property's domain?
fn well_formed(v: &[T]) -> bool {
    v.iter().enumerate().all(|(i, t)| match t {
        T::P(c, true) => match v.get(i + 1) {
            Some(T::P(n, _)) => *c != '\'' && !(*c == '/' && (*n == '/' || *n == '*')) && *n != '\'' || (*c != '\'' && *n == '\'' && matches!(v.get(i + 2), Some(T::I(_)))),
            Some(T::I(_)) => *c == '\'',
            _ => false,
        },
        T::P('\'', false) => false,
        _ => true,
    })
}

pub fn build(v: &[T]) -> TokenStream {
    v.iter().map(build_one).collect()
}
pub fn build_one(t: &T) -> TokenTree {
    match t {
        T::G(d, v) => Group::new(undelim(*d), build(v)).into(),
        T::I(s) => match s.strip_prefix("r#") {
            Some(r) => Ident::new_raw(r, Span::call_site()).into(),
            None => Ident::new(s, Span::call_site()).into(),
        },
        T::P(c, j) => Punct::new(*c, if *j { Spacing::Joint } else { Spacing::Alone }).into(),
        T::L(s) => s.parse::<Literal>().unwrap().into(),
    }
}

pub fn c04(ctx: &Ctx) {
    // constructed
    let a = atoms();
    let k = a.len() as u64;
    let top = if ctx.thorough { 4 } else { 3 };
    for len in 0..=top {
        let n = k.pow(len);
        ctx.space(format!("every well-formed sequence of {len} constructed tokens out of {k}"), n);
        const B: u64 = 256;
        ctx.par(n.div_ceil(B), 8, |blk, l| {
            let mut v = Vec::new();
            for i in blk * B..((blk + 1) * B).min(n) {
                v.clear();
                let mut j = i;
                for _ in 0..len {
                    v.push(a[(j % k) as usize].clone());
                    j /= k;
                }
                if !well_formed(&v) {
                    continue;
                }
                l.transitions += 1;
                l.validated += 1;
                let mut want = Vec::new();
                flatten(&v, &mut want);
                let ts = build(&v);
                if let Err(e) = round_trip(&ts, &want) {
                    ctx.violation(format!("{v:?}"), format!("constructed {v:?} {e}"));
                }
                // the same inside each kind of group
                if len <= 2 {
                    for d in [b'(', b'[', b'{', b'0'] {
                        let t: TokenTree = Group::new(undelim(d), ts.clone()).into();
                        let mut want = Vec::new();
                        flatten(&[T::G(d, v.clone())], &mut want);
                        l.transitions += 1;
                        if let Err(e) = round_trip(&t.clone().into(), &want).and_then(|()| token_prints(&t)) {
                            ctx.violation(format!("{d} {v:?}"), format!("group {} of {v:?} {e}", d as char));
                        }
                    }
                }
                keep_state(l, hash(v.iter().map(|t| match t {
                    T::P(c, j) => (*c as u32, *j as usize),
                    T::G(d, v) => (*d as u32 + 1000, v.len()),
                    T::I(_) => (2000, 0),
                    T::L(_) => (2001, 0),
                }).collect::<Vec<_>>()));
            }
        });
    }
    // long and deep constructed streams
    let mut sizes: Vec<usize> = (4..=300).collect();
    sizes.extend(crate::ops::long_lengths(if ctx.thorough { 14 } else { 12 }));
    ctx.space("constructed streams of every length up to 300 and around powers of two, of one atom repeated or of all atoms in turn, and nested that deep in every kind of group", (sizes.len() as u64) * (k + 5));
    ctx.par(sizes.len() as u64 * (k + 5), 2, |i, l| {
        let (n, what) = (sizes[(i / (k + 5)) as usize], i % (k + 5));
        let mut v: Vec<T>;
        let ts;
        if what < k {
            v = vec![a[what as usize].clone(); n];
            if let Some(T::P(c, true)) = v.first().cloned() {
                // the last one ends the run
                if c == '\'' {
                    v = v.into_iter().flat_map(|t| [t, T::I("a".into())]).collect();
                } else {
                    v.push(T::P(c, false));
                }
            }
            ts = build(&v);
        } else if what == k {
            v = Vec::new();
            for j in 0..n {
                v.push(a[(j * 7) % a.len()].clone());
                if !well_formed(&v) && !matches!(v.last(), Some(T::P(_, true))) {
                    v.pop();
                }
                while matches!(&v[..], [.., T::P(c, true), x] if !well_formed(&[T::P(*c, true), x.clone()]) && !matches!(x, T::P(_, true))) {
                    v.remove(v.len() - 2);
                }
            }
            while !v.is_empty() && !well_formed(&v) {
                // drop the first offending token
                let at = (0..v.len()).find(|&j| !well_formed(&v[j..(j + 3).min(v.len())])).unwrap();
                v.remove(at);
            }
            ts = build(&v);
        } else {
            if n > 300 {
                return;
            }
            let d = [b'(', b'[', b'{', b'0'][(what - k - 1) as usize];
            v = vec![T::P('+', false)];
            let mut s = build(&v);
            for j in 0..n {
                s = TokenStream::from(TokenTree::from(Group::new(undelim(d), s)));
                v = vec![T::G(d, v)];
                if j % 3 == 1 {
                    s.extend([build_one(&T::I("z".into()))]);
                    v.push(T::I("z".into()));
                }
            }
            ts = s;
        }
        if !well_formed(&v) {
            return;
        }
        l.transitions += 1;
        l.validated += 1;
        let mut want = Vec::new();
        flatten(&v, &mut want);
        if let Err(e) = round_trip(&ts, &want) {
            ctx.violation(format!("{n} {what}"), format!("a constructed stream (size {n}, kind {what}) {}", e.chars().take(600).collect::<String>()));
        }
    });
    // literals made by constructors, next to every atom
    let lits: Vec<fn() -> Literal> = vec![
        || Literal::string("a\"b\\\n\u{e9}\0"),
        || Literal::string(""),
        || Literal::character('\''),
        || Literal::character('"'),
        || Literal::byte_character(b'\''),
        || Literal::byte_string(b"\"\\\x00\xff"),
        || Literal::c_string(c"x\"\xff"),
        || Literal::u8_suffixed(0),
        || Literal::u128_unsuffixed(u128::MAX),
        || Literal::i64_suffixed(i64::MIN),
        || Literal::f64_unsuffixed(1.0),
        || Literal::f64_unsuffixed(-1e300),
        || Literal::f32_suffixed(f32::MIN_POSITIVE),
        || Literal::f64_suffixed(-0.0),
    ];
    ctx.space("constructor-made literals between every pair of atoms", lits.len() as u64 * k * k);
    ctx.par(lits.len() as u64 * k, 8, |i, l| {
        let lit = lits[(i / k) as usize];
        let x = &a[(i % k) as usize];
        for y in &a {
            let mut v = Vec::new();
            if well_formed(&[x.clone(), T::L("1".into())]) && well_formed(std::slice::from_ref(y)) {
                v.push(build_one(x));
                v.push(TokenTree::Literal(lit()));
                v.push(build_one(y));
                let ts: TokenStream = v.into_iter().collect();
                let mut want = Vec::new();
                flatten(&trees(ts.clone()), &mut want);
                l.transitions += 1;
                l.validated += 1;
                if let Err(e) = round_trip(&ts, &want) {
                    ctx.violation(format!("{ts}"), format!("stream {x:?} {} {y:?} {e}", lit()));
                }
            }
        }
    });
    // everything that parses
    let sp = spaces::lexer_spaces(ctx.thorough);
    let sp: Vec<Space> = sp.into_iter().filter(|s| ctx.thorough || !s.name.starts_with("every scalar") || s.name.len() < 40).collect();
    spaces::visit(ctx, &sp, |src, l| {
        let Ok(ts) = src.parse::<TokenStream>() else { return };
        l.transitions += 1;
        l.validated += 1;
        let want = trees(ts.clone());
        keep_state(l, hash(want.iter().map(|t| match t {
            T::P(c, j) => (*c as u32, *j as usize),
            T::G(d, v) => (*d as u32 + 1000, v.len()),
            T::I(_) => (2000, 0),
            T::L(_) => (2001, 0),
        }).collect::<Vec<_>>()));
        if let Err(e) = round_trip(&ts, &want) {
            ctx.violation(src, format!("parsed {src:?} {e}"));
        }
        if src.len() < 16 {
            for t in ts {
                if let Err(e) = token_prints(&t) {
                    ctx.violation(src, format!("in {src:?}: {e}"));
                }
            }
        }
    });
}

// --- C06 ---------------------------------------------------------------------------------------

fn negatives() -> Vec<(String, Literal)> {
    let mut v: Vec<(String, Literal)> = Vec::new();
    macro_rules! ints {
        ($($t:ident $s:ident $u:ident)*) => {$(
            for x in [-1 as $t, $t::MIN, $t::MIN + 1, -10, -100] {
                v.push((concat!(stringify!($s)).to_string(), Literal::$s(x)));
                v.push((concat!(stringify!($u)).to_string(), Literal::$u(x)));
            }
        )*};
    }
    ints!(i8 i8_suffixed i8_unsuffixed i16 i16_suffixed i16_unsuffixed i32 i32_suffixed i32_unsuffixed i64 i64_suffixed i64_unsuffixed
        i128 i128_suffixed i128_unsuffixed isize isize_suffixed isize_unsuffixed);
    for x in [-0.0f32, -1.0, -1.5, f32::MIN, -f32::MIN_POSITIVE, -1e-45] {
        v.push(("f32_suffixed".into(), Literal::f32_suffixed(x)));
        v.push(("f32_unsuffixed".into(), Literal::f32_unsuffixed(x)));
    }
    for x in [-0.0f64, -1.0, -1.5, f64::MIN, -f64::MIN_POSITIVE, -5e-324] {
        v.push(("f64_suffixed".into(), Literal::f64_suffixed(x)));
        v.push(("f64_unsuffixed".into(), Literal::f64_unsuffixed(x)));
    }
    for s in ["-1", "-0", "-0x1f", "-0b1", "-0o7u8", "-1.5", "-1e3", "-1.5e-3f32", "-1_000i64", "-2.", "-9zz"] {
        v.push((format!("parse {s}"), s.parse().unwrap()));
    }
    v
}

#[cfg(any(feature = "span", procmacro2_semver_exempt))]
fn place(s: Span) -> std::ops::Range<usize> {
    s.byte_range()
}
#[cfg(not(any(feature = "span", procmacro2_semver_exempt)))]
fn place(_: Span) -> std::ops::Range<usize> {
    0..0
}

/// What a tree becomes inside a stream.
fn entered(t: &TokenTree) -> Vec<(T, std::ops::Range<usize>)> {
    match t {
        TokenTree::Literal(l) => {
            let s = l.to_string();
            match s.strip_prefix('-') {
                Some(r) => vec![(T::P('-', false), place(l.span())), (T::L(r.to_string()), place(l.span()))],
                None => vec![(T::L(s), place(l.span()))],
            }
        }
        t => vec![(tree(t), place(t.span()))],
    }
}

fn observed(ts: &TokenStream) -> Vec<(T, std::ops::Range<usize>)> {
    ts.clone().into_iter().map(|t| (tree(&t), place(t.span()))).collect()
}

/// Every way of putting trees into a stream.
const WAYS: usize = 12;
fn enter(way: usize, v: &[TokenTree]) -> Option<(TokenStream, bool)> {
    // bool: spans of the given trees survive as they are
    let lits = || v.iter().map(|t| match t { TokenTree::Literal(l) => Some(l.clone()), _ => None }).collect::<Option<Vec<_>>>();
    Some(match way {
        0 => (v.iter().cloned().collect(), true),
        1 => {
            let mut s = TokenStream::new();
            s.extend(v.iter().cloned());
            (s, true)
        }
        2 => {
            let mut s = TokenStream::new();
            for t in v {
                s.extend(Some(t.clone()));
            }
            (s, true)
        }
        3 => (v.iter().map(|t| TokenStream::from(t.clone())).collect(), true),
        4 => {
            let mut s = TokenStream::new();
            s.extend(v.iter().map(|t| TokenStream::from(t.clone())));
            (s, true)
        }
        5 => {
            let mut s = TokenStream::new();
            let keep = s.clone();
            s.extend(v.iter().cloned());
            drop(keep);
            (s, true)
        }
        6 => {
            let mut s = TokenStream::new();
            s.extend(lits()?);
            (s, true)
        }
        7 => {
            let mut s = TokenStream::new();
            for l in lits()? {
                s.extend([l]);
            }
            (s, true)
        }
        8 => (Group::new(undelim(b'('), v.iter().cloned().collect()).stream(), true),
        9 => {
            // through a shared stream: clone, then extend the clone by one tree at a time
            let (first, rest) = v.split_first()?;
            let mut s = TokenStream::from(first.clone());
            for t in rest {
                let mut c = s.clone();
                c.extend([t.clone()]);
                s = c;
            }
            (s, true)
        }
        10 => {
            // two streams merged
            let (a, b) = v.split_at(v.len() / 2);
            let mut s: TokenStream = a.iter().cloned().collect();
            s.extend([b.iter().cloned().collect::<TokenStream>()]);
            (s, true)
        }
        _ => {
            // re-entering tokens taken out of a stream changes nothing more
            let s: TokenStream = v.iter().cloned().collect();
            (s.into_iter().collect::<Vec<_>>().into_iter().collect(), true)
        }
    })
}

pub fn c06(ctx: &Ctx) {
    c06_lengths(ctx);
    ctx.par(WAYS as u64, 1, |way, l| {
        // every negative literal alone and between others, with an own span
        for (what, lit) in negatives() {
            let marker = spot();
            let mut lit = lit;
            for respan in [false, true] {
                if respan {
                    lit.set_span(marker);
                }
                if !lit.to_string().starts_with('-') {
                    ctx.violation(&what, format!("{what} of a negative value prints as {lit}"));
                }
                let others: [fn() -> TokenTree; 4] = [
                    || Ident::new("a", Span::call_site()).into(),
                    || Literal::u8_suffixed(1).into(),
                    || Punct::new('-', Spacing::Joint).into(),
                    || Group::new(undelim(b'{'), [TokenTree::from(Literal::i8_suffixed(-7))].into_iter().collect()).into(),
                ];
                let mut cases: Vec<Vec<TokenTree>> = vec![vec![lit.clone().into()], vec![lit.clone().into(), lit.clone().into()]];
                for o in others {
                    cases.push(vec![o(), lit.clone().into()]);
                    cases.push(vec![lit.clone().into(), o()]);
                    cases.push(vec![o(), lit.clone().into(), o()]);
                    cases.push(vec![lit.clone().into(), o(), lit.clone().into()]);
                }
                for v in cases {
                    one_case(ctx, way as usize, &v, l);
                }
            }
        }
    });
    ctx.space("every signed constructor and boundary value and parsed negative literal, 18 surroundings, 12 ways of entering a stream", negatives().len() as u64 * 36 * WAYS as u64);
    // every sequence of short length over a small alphabet
    let alpha: Vec<fn() -> TokenTree> = vec![
        || Literal::i32_unsuffixed(-1).into(),
        || Literal::f32_suffixed(-0.5).into(),
        || "-9".parse::<Literal>().unwrap().into(),
        || Literal::u8_unsuffixed(3).into(),
        || Literal::string("-1").into(),
        || Ident::new("x", Span::call_site()).into(),
        || Punct::new('-', Spacing::Alone).into(),
        || Punct::new('-', Spacing::Joint).into(),
        || Group::new(undelim(b'0'), TokenStream::from(TokenTree::from(Literal::i16_suffixed(-2)))).into(),
    ];
    let k = alpha.len() as u64;
    for len in 0..=(if ctx.thorough { 6 } else { 5 }) {
        ctx.space(format!("every sequence of {len} trees out of {k}, {WAYS} ways"), k.pow(len) * WAYS as u64);
        ctx.par(k.pow(len), 64, |i, l| {
            let v: Vec<TokenTree> = (0..len).map(|p| alpha[(i / k.pow(p) % k) as usize]()).collect();
            for way in 0..WAYS {
                one_case(ctx, way, &v, l);
            }
        });
    }
}

/// A negative literal at every position of streams of many lengths.
fn c06_lengths(ctx: &Ctx) {
    let mut sizes: Vec<usize> = (6..=70).collect();
    sizes.extend([127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536, 65537]);
    ctx.space("streams of every length to 70 and around powers of two to 2^16, a negative literal at every position (first, middle, last beyond 70) or at all, 12 ways", sizes.iter().map(|&n| if n <= 70 { n as u64 + 2 } else { 5 }).sum::<u64>() * WAYS as u64);
    ctx.par(sizes.len() as u64, 1, |i, l| {
        let n = sizes[i as usize];
        let other: [fn(usize) -> TokenTree; 2] = [
            |j| match j % 3 {
                0 => Ident::new("x", Span::call_site()).into(),
                1 => Literal::u8_unsuffixed(3).into(),
                _ => Punct::new('+', Spacing::Alone).into(),
            },
            |_| Literal::u8_unsuffixed(3).into(),
        ];
        let at: Vec<usize> = if n <= 70 { (0..n).collect() } else { vec![0, n / 2, n - 1] };
        for o in other {
            let base: Vec<TokenTree> = (0..n).map(o).collect();
            for way in 0..WAYS {
                // one tree at a time through ever new clones is quadratic
                if n > 300 && way == 9 {
                    continue;
                }
                for &p in &at {
                    let mut v = base.clone();
                    v[p] = Literal::i32_unsuffixed(-1).into();
                    one_case(ctx, way, &v, l);
                }
                let v: Vec<TokenTree> = (0..n).map(|j| if j % 2 == 0 { Literal::f64_unsuffixed(-1.5).into() } else { o(j) }).collect();
                one_case(ctx, way, &v, l);
                let v: Vec<TokenTree> = (0..n).map(|_| Literal::i8_suffixed(-1).into()).collect();
                one_case(ctx, way, &v, l);
            }
        }
    });
    // nested at every depth
    ctx.space("a negative literal in groups of every kind, nested to every depth up to 64", 64 * 4);
    ctx.par(64 * 4, 8, |i, l| {
        let (depth, d) = ((i / 4) as usize + 1, [b'(', b'[', b'{', b'0'][(i % 4) as usize]);
        let mut t: TokenTree = Literal::i16_suffixed(-2).into();
        let mut want = vec![T::P('-', false), T::L("2i16".into())];
        for _ in 0..depth {
            t = Group::new(undelim(d), TokenStream::from(t)).into();
            want = vec![T::G(d, want)];
        }
        l.transitions += 1;
        l.validated += 1;
        let got = trees(TokenStream::from(t));
        if got != want {
            ctx.violation(format!("depth {depth}"), format!("a negative literal at depth {depth}: {got:?}"));
        }
    });
}

fn spot() -> Span {
    let ts: TokenStream = "é marker".parse().unwrap();
    ts.into_iter().nth(1).unwrap().span()
}

fn one_case(ctx: &Ctx, way: usize, v: &[TokenTree], l: &mut Local) {
    let r = guard(|| enter(way, v));
    let describe = || format!("way {way}: {:?}", v.iter().map(|t| t.to_string()).collect::<Vec<_>>());
    let (ts, spans) = match r {
        Err(p) => return ctx.violation(describe(), format!("{} panicked: {p}", describe())),
        Ok(None) => return,
        Ok(Some(x)) => x,
    };
    let want: Vec<_> = v.iter().flat_map(entered).collect();
    let got = observed(&ts);
    l.transitions += 1;
    l.validated += 1;
    let same = if spans { got == want } else { got.iter().map(|x| &x.0).eq(want.iter().map(|x| &x.0)) };
    if !same {
        ctx.violation(describe(), format!("{}: stream holds {got:?}, expected {want:?}", describe()));
    }
    // printing and reparsing (only where no Joint token stands before a non-punctuation token)
    let plain: Vec<T> = want.iter().map(|x| x.0.clone()).collect();
    if well_formed(&plain) {
        let mut flat = Vec::new();
        flatten(&plain, &mut flat);
        if let Err(e) = round_trip(&ts, &flat) {
            ctx.violation(describe(), format!("{}: {e}", describe()));
        }
    }
    keep_state(l, hash((way, &plain)));
}
