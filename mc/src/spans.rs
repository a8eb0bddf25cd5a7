//! C09, C10, C11: span locations.

use crate::cmp;
use crate::ctx::{guard, hash, Ctx, Local};
use crate::lexing::{keep_state, shape, with_ref};
use crate::reflex::End;
use crate::spaces::{self, *};
use proc_macro2::{extra, Delimiter, Group, Ident, LineColumn, Literal, Punct, Spacing, Span, TokenStream, TokenTree};
use std::ops::Bound;

/// What a span must report, from the plain text alone.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Want {
    pub lo: usize,
    pub hi: usize,
}

pub fn line_col(src: &str, byte: usize) -> LineColumn {
    let before = &src[..byte];
    let line = 1 + before.matches('\n').count();
    let start = before.rfind('\n').map_or(0, |i| i + 1);
    LineColumn { line, column: before[start..].chars().count() }
}

pub fn check_span(src: &str, what: &str, sp: Span, lo: usize, hi: usize) -> Result<(), String> {
    let br = sp.byte_range();
    if br != (lo..hi) {
        return Err(format!("{what}: byte range {br:?}, expected {lo}..{hi}"));
    }
    let text = sp.source_text();
    if text.as_deref() != Some(&src[lo..hi]) {
        return Err(format!("{what}: source text {text:?}, expected {:?}", &src[lo..hi]));
    }
    let (s, e) = (sp.start(), sp.end());
    if s != line_col(src, lo) {
        return Err(format!("{what}: starts at {s:?}, expected {:?}", line_col(src, lo)));
    }
    if e != line_col(src, hi) {
        return Err(format!("{what}: ends at {e:?}, expected {:?}", line_col(src, hi)));
    }
    Ok(())
}

fn span_spaces(deep: bool) -> Vec<Space> {
    let d = deep as u32;
    let mut v = Vec::new();
    const MULTI: &[&str] =
        &["a", "é", "\u{4e2d}", "\u{1d400}", " ", "\n", "\r\n", "\u{3000}", "(", ")", "+", "\"é\"", "'é'", "1", "'é ", "//é\n", "/*\né*/", "///é\n", "/**é\n*/", "\u{2028}"];
    v.extend(words_upto("multi-byte mix", "", MULTI, 5 + d, ""));
    v.extend(words_upto("multi-byte mix after BOM", "\u{feff}", MULTI, 3 + d, ""));
    v.extend(words_upto("general", "", GENERAL, 4 + d, ""));
    v.extend(words_upto("fragments", "", FRAGMENTS, 3 + d, ""));
    v.extend(words_upto("fragments after é newline é", "\"é\n\"", FRAGMENTS, 3, ""));
    v.extend(words_upto("comments", "é", COMMENT, 6 + d, " a"));
    v.extend(words_upto("delimiters", "é\n", DELIMS, 6 + d, ""));
    v.extend(words_upto("puncts", "é", PUNCTS, 5, ""));
    v.extend(words_upto("quotes", "'", QUOTE, 4, ""));
    v.extend(words_upto("raw", "r", RAW, 6, "a"));
    v.extend(words_upto("string body", "\"", BODY, 4, "\"a"));
    v.extend(words_upto("byte string body", "b\"", BODY, 4, "\"a"));
    v.extend((1..=5).map(|l| words("numbers", "é ", NUMBER, l, "")));
    v.extend(scalars(&[
        "\u{e000}", "a \u{e000}\nb", "\"\u{e000}\" b", "'\u{e000}' b", "/*\u{e000}*/ b", "//\u{e000}\nb", "///\u{e000}\nb", "(\u{e000}) b", "a\u{e000} b", "\"\\\n\u{e000}\" b",
        "r\"\u{e000}\"b", "c\"\u{e000}\"b", "/*!\u{e000}*/ b", "'a\u{e000} b",
    ]));
    v.extend(sizes(if deep { 2100 } else { 300 }));
    v.extend(long_sizes(16));
    v.extend(deep_sizes());
    v.extend(bodies(deep));
    v.extend(truncations());
    v
}

pub fn c09(ctx: &Ctx) {
    ctx.solo("positions", |l| positions(ctx, l));
    let sp = span_spaces(ctx.thorough);
    spaces::visit(ctx, &sp, |src, l| {
        l.transitions += 1;
        let Ok(ts) = src.parse::<TokenStream>() else { return };
        with_ref(src, |lx, end| {
            if end != End::Ok {
                l.open += 1;
                return; // acceptance is C02's concern
            }
            keep_state(l, shape(lx, end));
            l.validated += 1;
            let r = cmp::compare(src, ts, &lx.evs, &mut |tt, e| {
                let mut hi = e.hi;
                if src.len() > 4096 && e.lo > 64 && e.hi + 256 < src.len() {
                    return Ok(()); // long sources: the tokens at both ends
                }
                if e.synth && hi > e.lo {
                    // a doc line comment ended by CR LF: whether the CR belongs to it is not specified
                    let got = tt.span().byte_range().end;
                    if got == hi + 1 && src[hi..].starts_with("\r\n") || got + 1 == hi && src[got..].starts_with("\r\n") {
                        hi = got;
                    }
                }
                check_span(src, &cmp::tree_shallow(tt), tt.span(), e.lo, hi)?;
                if let TokenTree::Group(g) = tt {
                    let ds = g.delim_span();
                    if !e.synth {
                        check_span(src, "span_open", g.span_open(), e.lo, e.lo + 1)?;
                        check_span(src, "span_close", g.span_close(), e.hi - 1, e.hi)?;
                        check_span(src, "delim_span open", ds.open(), e.lo, e.lo + 1)?;
                        check_span(src, "delim_span close", ds.close(), e.hi - 1, e.hi)?;
                    }
                    check_span(src, "delim_span join", ds.join(), e.lo, hi)?;
                    check_span(src, "group", g.span(), e.lo, hi)?;
                }
                match tt {
                    TokenTree::Ident(t) => check_span(src, "ident", t.span(), e.lo, hi),
                    TokenTree::Punct(t) => check_span(src, "punct", t.span(), e.lo, hi),
                    TokenTree::Literal(t) => check_span(src, "literal", t.span(), e.lo, hi),
                    _ => Ok(()),
                }
            });
            if let Err(e) = r {
                ctx.violation(src, format!("parsing {:?}: {}", src, e));
            }
        });
    });
    // literals on their own
    let sp = crate::lexing::literal_spaces(false);
    let sp: Vec<Space> = sp.into_iter().filter(|s| !s.name.starts_with("every scalar") || ctx.thorough || s.name.contains("\"X\"") || s.name.contains("'X'")).collect();
    spaces::visit(ctx, &sp, |src, l| {
        l.transitions += 1;
        if let Ok(lit) = src.parse::<Literal>() {
            l.validated += 1;
            if let Err(e) = check_span(src, "literal", lit.span(), 0, src.len()) {
                ctx.violation(src, format!("literal from {:?}: {}", src, e));
            }
        }
    });
    // call-site spans: no place in any source
    for sp in [Span::call_site(), Span::mixed_site(), Literal::string("x").span(), Group::new(Delimiter::Brace, TokenStream::new()).span(), Punct::new('+', Spacing::Alone).span()] {
        if sp.source_text().is_some() || sp.byte_range() != (0..0) || sp.start() != (LineColumn { line: 1, column: 0 }) || sp.end() != sp.start() {
            ctx.violation("call_site", "a call-site span reports a place in a source");
        }
    }
}

pub fn c11(ctx: &Ctx) {
    let mut sp = span_spaces(ctx.thorough);
    sp.extend(words_upto("quotes b'", "é b'", QUOTE, 4, ""));
    sp.extend(words_upto("delimiters deeper", "", DELIMS, 7, ""));
    for pre in ["é\n\"", "b\"", "c\""] {
        sp.extend(words_upto(&format!("{pre} body"), pre, BODY, 4, ""));
    }
    sp.extend(scalars(&["b\"\u{e000}\"", "(é \u{e000}", "é\n\"\\\u{e000}\"", "b'\u{e000}'", "1\u{e000}"]));
    spaces::visit(ctx, &sp, |src, l| {
        l.transitions += 1;
        let Err(err) = src.parse::<TokenStream>() else { return };
        with_ref(src, |lx, end| {
            keep_state(l, shape(lx, end));
            let s = err.span();
            let br = s.byte_range();
            let bad = |m: String| ctx.violation(src, format!("error from parsing {:?}: {}", src, m));
            if br.start > br.end || br.end > src.len() {
                return bad(format!("span {br:?} lies outside the source"));
            }
            // the reported start must be a char boundary consistent with line/column
            if s.start() != line_col(src, br.start) || s.end() != line_col(src, br.end) {
                return bad(format!("start {:?} and end {:?} do not match bytes {br:?}", s.start(), s.end()));
            }
            if s.source_text().as_deref() != Some(&src[br.clone()]) {
                return bad("source text does not match byte range".into());
            }
            match end {
                End::Reject { at, exact: true } => {
                    l.validated += 1;
                    if br.start != at {
                        return bad(format!("points at byte {}, the text that cannot be lexed starts at {}", br.start, at));
                    }
                }
                End::Unclosed { at } => {
                    l.validated += 1;
                    if br.start != at {
                        return bad(format!("points at byte {}, the innermost unclosed delimiter is at {}", br.start, at));
                    }
                }
                End::Reject { exact: false, at } => {
                    l.open += 1;
                    if br.start < at {
                        return bad(format!("points at byte {} before the faulty lexeme at {}", br.start, at));
                    }
                }
                _ => l.open += 1,
            }
            if err.to_string() != "cannot parse string into token stream" && err.to_string().is_empty() {
                bad("empty message".into());
            }
        });
    });
    // the message and the fact of the error do not depend on history
    let bad = ["\"", "(", ")", "'", "é 'ab\"", "\\", "r#\"", "( [ }", "/*", "b'é'"];
    let n = bad.len() as u64;
    ctx.space("histories of failing and succeeding parses, length 4", n.pow(4));
    ctx.par(n.pow(4), 64, |i, l| {
        let mut first: Option<String> = None;
        for k in 0..4 {
            let s = bad[(i / n.pow(k) % n) as usize];
            let _ = "a é".parse::<TokenStream>();
            match s.parse::<TokenStream>() {
                Ok(_) => ctx.violation(s, "invalid source accepted after other parses"),
                Err(e) => {
                    let m = e.to_string();
                    if *first.get_or_insert(m.clone()) != m {
                        ctx.violation(s, format!("message {m:?} differs from that of the first failing parse"));
                    }
                    let b = e.span().byte_range();
                    if b.end > s.len() {
                        ctx.violation(s, format!("after other parses the error span {b:?} lies outside the source"));
                    }
                }
            }
            l.transitions += 2;
        }
        l.validated += 1;
        keep_state(l, hash(("hist", i)));
    });
}

// ---------------------------------------------------------------------------------------------

/// A live span with everything it must report.
#[derive(Clone)]
struct Live {
    span: Span,
    src: &'static str,
    lo: usize,
    hi: usize,
    file: usize,
}

impl Live {
    fn check(&self, names: &[String]) -> Result<(), String> {
        check_span(self.src, "span", self.span, self.lo, self.hi)?;
        let f = self.span.file();
        if f != names[self.file] {
            return Err(format!("file {f:?}, expected {:?}", names[self.file]));
        }
        if self.span.local_file().is_some() {
            return Err("local file of a parsed string".into());
        }
        Ok(())
    }
}

/// All spans of a parsed source, paired with the reference.
fn spans_of(src: &'static str, file: usize) -> Vec<Live> {
    let ts: TokenStream = src.parse().expect("valid source");
    let mut out = Vec::new();
    with_ref(src, |lx, end| {
        assert_eq!(end, End::Ok);
        cmp::compare(src, ts, &lx.evs, &mut |tt, e| {
            out.push(Live { span: tt.span(), src, lo: e.lo, hi: e.hi, file });
            if let (TokenTree::Group(g), false) = (tt, e.synth) {
                out.push(Live { span: g.span_open(), src, lo: e.lo, hi: e.lo + 1, file });
                out.push(Live { span: g.span_close(), src, lo: e.hi - 1, hi: e.hi, file });
            }
            Ok(())
        })
        .expect("tokens as in C02");
    });
    out
}

/// File names the library gives to the 1st, 2nd, ... parse of a fresh thread.
fn calibrate(n: usize) -> Vec<String> {
    std::thread::spawn(move || {
        let mut v = vec![Span::call_site().file()];
        for _ in 0..n {
            let ts: TokenStream = "x".parse().unwrap();
            v.push(ts.into_iter().next().unwrap().span().file());
        }
        v
    })
    .join()
    .expect("calibration")
}

fn hist(ctx: &Ctx, names: &[String]) {
    // operations: parse one of several sources, query every live span in some order, invalidate
    const SRC: &[&str] = &["é", "\u{1d400} \u{4e2d}\n(é)", "", "\"\u{4e2d}\né\"+x", "a"];
    #[derive(Clone, Copy, Debug)]
    enum Op {
        Parse(usize),
        Lit,
        Bad,
        Query,
        QueryBack,
        Invalidate,
    }
    use Op::*;
    let ops = [Parse(0), Parse(1), Parse(2), Parse(3), Parse(4), Lit, Bad, Query, QueryBack, Invalidate];
    let k = ops.len() as u64;
    let len = if ctx.thorough { 7 } else { 6 };
    ctx.space(format!("histories of {k} parse/query/invalidate operations, length {len}"), k.pow(len));
    ctx.par(k.pow(len), 256, |i, l| {
        extra::invalidate_current_thread_spans();
        let mut live: Vec<Live> = Vec::new();
        let mut files = 0;
        let mut trace = Vec::new();
        let mut j = i;
        let r = guard(|| {
            for _ in 0..len {
                let op = ops[(j % k) as usize];
                j /= k;
                trace.push(op);
                l.transitions += 1;
                match op {
                    Parse(s) => {
                        files += 1;
                        live.extend(spans_of(SRC[s], files));
                    }
                    Lit => {
                        files += 1;
                        let lit: Literal = "'\u{4e2d}'".parse().unwrap();
                        live.push(Live { span: lit.span(), src: "'\u{4e2d}'", lo: 0, hi: 5, file: files });
                    }
                    Bad => {
                        files += 1;
                        let src = "é\né (";
                        let e = src.parse::<TokenStream>().unwrap_err();
                        live.push(Live { span: e.span(), src, lo: 6, hi: e.span().byte_range().end.clamp(6, 7), file: files });
                    }
                    Query => {
                        for s in &live {
                            s.check(names)?;
                        }
                    }
                    QueryBack => {
                        for s in live.iter().rev() {
                            s.check(names)?;
                        }
                    }
                    Invalidate => {
                        extra::invalidate_current_thread_spans();
                        live.clear();
                        files = 0;
                    }
                }
            }
            for s in &live {
                s.check(names)?;
            }
            if Span::call_site().file() != names[0] || Span::call_site().source_text().is_some() {
                return Err("call-site span belongs to a parsed source".to_string());
            }
            Ok(())
        });
        keep_state(l, hash((files, live.len(), live.last().map(|s| s.lo))));
        l.validated += 1;
        match r {
            Ok(Ok(())) => {}
            Ok(Err(e)) => ctx.violation(format!("{trace:?}"), format!("history {trace:?}: {e}")),
            Err(p) => ctx.violation(format!("{trace:?}"), format!("history {trace:?} panicked: {p}")),
        }
    });
}

/// Every order of queries of arbitrary ranges of a multi-byte literal (the ranges come from
/// subspan with a one-character-per-index reading).
fn query_orders(ctx: &Ctx) {
    // every pattern of character widths 1..=4 of this length
    let chars = ['a', 'é', '\u{4e2d}', '\u{1d400}'];
    let n = 4usize;
    let pats = 4u64.pow(n as u32);
    let bounds = n + 3; // boundaries of "...." plus quotes
    let mut ranges = Vec::new();
    for a in 0..bounds {
        for b in a..bounds {
            ranges.push((a, b));
        }
    }
    let depth = if ctx.thorough { 4 } else { 3 };
    let per = (ranges.len() as u64).pow(depth);
    ctx.space(format!("every sequence of {depth} queries of {} ranges over {pats} width patterns", ranges.len()), pats * per);
    ctx.par(pats, 1, |p, l| {
        let mut src = String::from("\"");
        for k in 0..n {
            src.push(chars[(p / 4u64.pow(k as u32) % 4) as usize]);
        }
        src.push('"');
        let offs: Vec<usize> = src.char_indices().map(|(i, _)| i).chain([src.len()]).collect();
        let total: Vec<u64> = (0..per).collect();
        for i in total {
            if i % 512 == 0 {
                extra::invalidate_current_thread_spans();
            }
            let lit: Literal = src.parse().unwrap();
            let base = lit.span();
            let _ = base;
            let mut j = i;
            for step in 0..depth {
                let (a, b) = ranges[(j % ranges.len() as u64) as usize];
                j /= ranges.len() as u64;
                let Some(s) = lit.subspan(a..b) else {
                    // whether indices count bytes or characters, these lie inside the literal
                    ctx.violation(&src, format!("subspan({a}..{b}) of {src} is None"));
                    return;
                };
                let br = s.byte_range();
                // accept the reading in characters (present behaviour) or in bytes (documentation)
                let ok = br == (offs[a]..offs[b]) || (br == (a..b) && src.is_char_boundary(a) && src.is_char_boundary(b));
                let text = s.source_text();
                if !ok || text.as_deref() != src.get(br.clone()) {
                    ctx.violation(
                        format!("{src} query {i} step {step}"),
                        format!("after {step} other queries, subspan({a}..{b}) of {src} reports bytes {br:?} and text {text:?}, expected {}..{}", offs[a], offs[b]),
                    );
                    return;
                }
                l.transitions += 2;
            }
            l.validated += 1;
        }
        keep_state(l, hash(p));
        if p % 37 == 0 {
            ctx.sample(format!("all query sequences over ranges of {src}"));
        }
    });
    // whole sources: every permutation of queries over the spans of a source
    const SOURCES: &[&str] = &[
        "é \u{4e2d} \u{1d400} a \u{3000}é",
        "a\u{1d400}(\u{4e2d}\n'é')",
        "\u{feff}é \"\u{4e2d}\u{4e2d}\" x",
        "/*\u{1d400}*/ é //\u{4e2d}\n é\u{301} [é]",
        "é\r\né\r\n\u{1d400} é é",
    ];
    for &src in SOURCES {
        let spans = std::thread::spawn(move || spans_of(src, 1).len()).join().unwrap().min(7);
        let perms: u64 = (1..=spans as u64).product();
        ctx.space(format!("every order of querying the {spans} spans of {src:?}"), perms * 2);
        ctx.par(perms * 2, 256, |i, l| {
            extra::invalidate_current_thread_spans();
            let live = spans_of(src, 1);
            let mut idx: Vec<usize> = (0..spans).collect();
            let mut code = i / 2;
            let mut order = Vec::new();
            while !idx.is_empty() {
                let n = idx.len() as u64;
                order.push(idx.remove((code % n) as usize));
                code /= n;
            }
            for &o in &order {
                let s = &live[o];
                l.transitions += 1;
                let got = if i % 2 == 0 { s.span.byte_range() } else { let t = s.span.source_text(); if t.as_deref() != Some(&s.src[s.lo..s.hi]) { 0..usize::MAX } else { s.lo..s.hi } };
                if got != (s.lo..s.hi) {
                    ctx.violation(format!("{src:?} {order:?}"), format!("querying the spans of {src:?} in order {order:?}: span {o} reports {got:?}, expected {}..{}", s.lo, s.hi));
                    return;
                }
            }
            l.validated += 1;
            keep_state(l, hash((src, i % 97)));
        });
    }
}

fn many_files(ctx: &Ctx, max: usize, every: bool) {
    const SRC: &[&str] = &["é", "", "a", "(\u{4e2d})", "\n\né+x"];
    let names = calibrate(max);
    let uniq: std::collections::HashSet<&String> = names.iter().collect();
    if uniq.len() != names.len() {
        ctx.violation("files", "two parses of one thread share a file name");
    }
    let at = |f: usize| every || f + 2 >= max || f >= 4095 && ((f + 1) & f == 0 || f & (f - 1) == 0 || (f - 1) & (f - 2) == 0);
    let n = (1..=max).filter(|f| at(*f)).count();
    if every {
        ctx.space(format!("every number of files up to {max}, all spans queried after each parse, 5 source rotations"), (n * 5) as u64);
    } else {
        ctx.space(format!("numbers of files around powers of two up to {max}, the first, last and some other spans queried, 5 source rotations"), (n * 5) as u64);
    }
    ctx.par(5, 1, |rot, l| {
        extra::invalidate_current_thread_spans();
        let mut live: Vec<Live> = Vec::new();
        for f in 1..=max {
            live.extend(spans_of(SRC[(f + rot as usize) % SRC.len()], f));
            if !at(f) {
                continue;
            }
            if !every || f <= 64 || f.is_power_of_two() || f % 50 == 0 || f == max {
                let m = live.len();
                for (_, s) in live.iter().enumerate().filter(|(j, _)| every || *j < 100 || *j + 100 >= m || j % 1021 == 0) {
                    l.transitions += 1;
                    if let Err(e) = s.check(&names) {
                        ctx.violation(format!("{f} files"), format!("with {f} parsed sources, a span of source {} {:?}: {e}", s.file, s.src));
                        return;
                    }
                }
            } else {
                for s in live.iter().rev().take(8).chain(live.iter().take(3)) {
                    l.transitions += 1;
                    if let Err(e) = s.check(&names) {
                        ctx.violation(format!("{f} files"), format!("with {f} parsed sources, a span of source {} {:?}: {e}", s.file, s.src));
                        return;
                    }
                }
            }
            // joins within and between the newest files and the oldest
            let near: Vec<&Live> = live.iter().rev().take(6).chain(live.iter().take(4)).collect();
            for a in &near {
                for b in &near {
                    l.transitions += 1;
                    let bad = match a.span.join(b.span) {
                        None => (a.file == b.file).then(|| "do not join".to_string()),
                        Some(_) if a.file != b.file => Some("join".to_string()),
                        Some(s) => Live { span: s, src: a.src, lo: a.lo.min(b.lo), hi: a.hi.max(b.hi), file: a.file }.check(&names).err(),
                    };
                    if let Some(e) = bad {
                        ctx.violation(format!("{f} files"), format!("with {f} parsed sources, spans of sources {} and {}: {e}", a.file, b.file));
                        return;
                    }
                }
            }
            keep_state(l, hash((rot, f)));
        }
        l.validated += n as u64;
    });
}

/// Any number of invalidations between two sources that lie at the same positions.
fn many_invalidations(ctx: &Ctx, names: &[String]) {
    const SRC: &[&str] = &["é (\u{4e2d} +x)\n'q' a", "\u{4e2d}\n(é-\"yz\")\nbc", "(a)\n(b) /*é*/ cd e"];
    let mut counts: Vec<usize> = (1..=300).collect();
    counts.extend(crate::ops::long_lengths(12));
    let n = counts.len() as u64 * 9 * 3;
    ctx.space("two sources parsed and queried with every number of invalidations up to 300, and around powers of two to 2^16, between them, nothing, a parse or a parse and query between these, each on a fresh thread", n);
    ctx.par(n, 1, |i, l| {
        let (k, a, b, between) = (counts[(i / 27) as usize], SRC[(i / 9 % 3) as usize], SRC[(i / 3 % 3) as usize], i % 3);
        let r = std::thread::scope(|s| {
            s.spawn(|| {
                let all = |live: &[Live]| live.iter().chain(live.iter().rev()).try_for_each(|s| s.check(names).map_err(|e| format!("{:?} at {}: {e}", s.src, s.lo)));
                all(&spans_of(a, 1))?;
                for _ in 0..k {
                    extra::invalidate_current_thread_spans();
                    if between > 0 {
                        let t: TokenStream = "\n\n\u{4e2d}\u{4e2d}".parse().unwrap();
                        if between > 1 {
                            let t = t.into_iter().next().unwrap().span();
                            if t.source_text().as_deref() != Some("\u{4e2d}\u{4e2d}") || (t.start().line, t.start().column) != (3, 0) {
                                return Err(format!("the source between reports {:?} {:?}", t.source_text(), t.start()));
                            }
                        }
                    }
                }
                extra::invalidate_current_thread_spans();
                all(&spans_of(b, 1))
            })
            .join()
            .unwrap_or_else(|_| Err("panicked".into()))
        });
        l.transitions += k as u64 + 2;
        l.validated += 1;
        keep_state(l, hash((k, a, b, between)));
        if let Err(e) = r {
            ctx.violation(format!("{k} invalidations"), format!("{a:?}, then {k} invalidations, then {b:?}: {e}"));
        }
    });
}

/// Every token of a long source queried, in several orders.
fn many_queries(ctx: &Ctx, names: &[String]) {
    const UNITS: &[&str] = &["a ", "é ", "\u{4e2d}\n", "'\u{1d400}' "];
    const N: usize = (1 << 16) + 5;
    ctx.space("the tokens (quick: the first and last 1500 and every 64th) of a source of 2^16 tokens queried forwards, backwards or from both ends at once, and forwards again", UNITS.len() as u64 * 3);
    ctx.par(UNITS.len() as u64 * 3, 1, |i, l| {
        let unit = UNITS[i as usize % UNITS.len()];
        let src: &'static str = Box::leak(unit.repeat(N).into_boxed_str());
        extra::invalidate_current_thread_spans();
        let _: TokenStream = "é x".parse().unwrap();
        let spans: Vec<Span> = src.parse::<TokenStream>().unwrap().into_iter().map(|t| t.span()).collect();
        let m = spans.len();
        let order: Box<dyn Fn(usize) -> usize> = match i as usize / UNITS.len() {
            0 => Box::new(|j| j),
            1 => Box::new(move |j| m - 1 - j),
            _ => Box::new(move |j| if j % 2 == 0 { j / 2 } else { m - 1 - j / 2 }),
        };
        // what a token is by the regular shape of the source
        let text = unit.trim_end();
        let (bytes, chars) = (unit.len(), unit.chars().count());
        let some = |j: &usize| ctx.thorough || *j < 1500 || *j + 1500 >= m || j % 64 == 0;
        let ok = (0..m).map(&order).chain(0..m).filter(some).try_for_each(|j| {
            l.transitions += 1;
            let s = spans[j];
            let (line, column) = if unit.ends_with('\n') { (j + 1, 0) } else { (1, j * chars) };
            let want = (j * bytes..j * bytes + text.len(), Some(text.to_string()), (line, column), (line, column + text.chars().count()));
            let got = (s.byte_range(), s.source_text(), (s.start().line, s.start().column), (s.end().line, s.end().column));
            if got != want || s.file() != names[2] {
                return Err(format!("token {j} of a source of {m} tokens {unit:?}: {got:?} in {}, expected {want:?} in {}", s.file(), names[2]));
            }
            Ok(())
        });
        let ok = if m == N { ok } else { Err(format!("{m} tokens, expected {N}")) };
        if let Err(e) = ok {
            ctx.violation(format!("{N} tokens of {unit:?}"), e.chars().take(600).collect::<String>());
        }
        l.validated += 1;
        keep_state(l, hash((i, unit)));
        extra::invalidate_current_thread_spans();
        drop(unsafe { Box::from_raw(src as *const str as *mut str) });
    });
}

/// Offsets around every power of two: one long source between two short ones, both ends of it queried.
fn big_files(ctx: &Ctx, names: &[String], bits: u32) {
    const UNITS: &[&str] = &["a ", "é ", "\u{4e2d}\n", "'\u{1d400}' "];
    let sizes: Vec<usize> = (5..=bits).flat_map(|b| [(1usize << b) - 2, (1 << b) - 1, 1 << b, (1 << b) + 1]).collect();
    let n = (sizes.len() * UNITS.len()) as u64;
    ctx.space(format!("a source of n characters, n around every power of two to 2^{bits}, between two short ones, spans at both ends queried in two orders"), n);
    ctx.par(n, 1, |i, l| {
        let unit = UNITS[i as usize % UNITS.len()];
        let size = sizes[i as usize / UNITS.len()];
        let k = size / unit.chars().count();
        let mut src = unit.repeat(k);
        src.extend(std::iter::repeat('x').take(size - src.chars().count()));
        // freed below, when no span refers to it any more
        let src: &'static str = Box::leak(src.into_boxed_str());
        extra::invalidate_current_thread_spans();
        let mut live = spans_of("é x", 1);
        let big = spans_of(src, 2);
        let m = big.len();
        live.extend(big.into_iter().enumerate().filter(|(j, _)| *j < 3 || *j + 3 >= m || *j == m / 2).map(|(_, s)| s));
        live.extend(spans_of("\u{4e2d}(é)", 3));
        let ok = live.iter().chain(live.iter().rev()).try_for_each(|s| {
            l.transitions += 1;
            s.check(names).map_err(|e| format!("with a source of {size} characters of {unit:?} before, a span of source {} at {}: {e}", s.file, s.lo))
        });
        if let Err(e) = ok {
            ctx.violation(format!("{size} characters of {unit:?}"), e.chars().take(600).collect::<String>());
        }
        l.validated += 1;
        keep_state(l, hash((size, unit)));
        drop(live);
        extra::invalidate_current_thread_spans();
        drop(unsafe { Box::from_raw(src as *const str as *mut str) });
    });
}

fn joins(ctx: &Ctx, names: &[String], l: &mut Local) {
    const SRC: &[&str] = &["é (\u{4e2d} +x)\n'\u{1d400}' a", "", "\u{4e2d}", "a", "\n(é)\n/// d\u{e9}\nq", "\"é\""];
    let mut live = Vec::new();
    extra::invalidate_current_thread_spans();
    for (i, s) in SRC.iter().enumerate() {
        live.extend(spans_of(s, i + 1));
    }
    let cs = Live { span: Span::call_site(), src: "", lo: 0, hi: 0, file: 0 };
    ctx.space("joins: every ordered pair of spans of six sources, then every third span", (live.len() as u64).pow(3));
    let one = |a: &Live, b: &Live, l: &mut Local| -> Option<Live> {
        l.transitions += 1;
        let j = a.span.join(b.span);
        match (a.file == b.file, j) {
            (false, None) => None,
            (false, Some(_)) => {
                ctx.violation("join", format!("spans of different sources {:?} and {:?} join", a.src, b.src));
                None
            }
            (true, None) => {
                ctx.violation("join", format!("spans {}..{} and {}..{} of {:?} do not join", a.lo, a.hi, b.lo, b.hi, a.src));
                None
            }
            (true, Some(s)) => {
                let w = Live { span: s, src: a.src, lo: a.lo.min(b.lo), hi: a.hi.max(b.hi), file: a.file };
                if let Err(e) = w.check(names) {
                    ctx.violation("join", format!("join of {}..{} and {}..{} of {:?}: {e}", a.lo, a.hi, b.lo, b.hi, a.src));
                    return None;
                }
                Some(w)
            }
        }
    };
    for a in &live {
        for b in &live {
            if let Some(j) = one(a, b, l) {
                for c in live.iter().filter(|c| c.file == j.file || c.lo == 0) {
                    one(&j, c, l);
                    one(c, &j, l);
                }
            }
            // resolved_at keeps the location of self, located_at takes the other's
            for (s, w) in [(a.span.resolved_at(b.span), a), (a.span.located_at(b.span), b)] {
                let w = Live { span: s, ..w.clone() };
                l.transitions += 1;
                if let Err(e) = w.check(names) {
                    ctx.violation("resolved_at/located_at", format!("{}..{} of {:?} with {}..{} of {:?}: {e}", a.lo, a.hi, a.src, b.lo, b.hi, b.src));
                }
            }
            #[cfg(procmacro2_semver_exempt)]
            {
                let want = (a.file, a.lo, a.hi) == (b.file, b.lo, b.hi);
                if a.span.eq(&b.span) != want {
                    ctx.violation("eq", format!("{}..{} of {:?} and {}..{} of {:?}: eq is {}", a.lo, a.hi, a.src, b.lo, b.hi, b.src, !want));
                }
            }
            l.validated += 1;
        }
        #[cfg(procmacro2_semver_exempt)]
        if a.span.eq(&cs.span) || cs.span.eq(&a.span) || !cs.span.eq(&Span::call_site()) {
            ctx.violation("eq", "a parsed span equals the call site, or the call site does not equal itself");
        }
        if a.span.join(cs.span).is_some() || cs.span.join(a.span).is_some() {
            ctx.violation("join", "a parsed span joins with the call site");
        }
    }
    let mut sites = vec![Span::call_site(), Span::mixed_site()];
    #[cfg(procmacro2_semver_exempt)]
    sites.push(Span::def_site());
    // a site with a parsed span, and with another site
    let place = |s: Span| (s.source_text(), s.byte_range(), s.start(), s.end(), s.file(), s.local_file());
    for x in live.iter().map(|a| a.span).chain(sites.iter().copied()) {
        for &y in &sites {
            for (p, q) in [(x, y), (y, x)] {
                l.transitions += 2;
                if place(p.resolved_at(q)) != place(p) || place(p.located_at(q)) != place(q) {
                    ctx.violation("resolved_at/located_at", format!("{p:?} and {q:?}, one of them a site: resolved_at is {:?}, located_at is {:?}", p.resolved_at(q), p.located_at(q)));
                }
            }
        }
    }
    for (i, s) in sites.iter().enumerate() {
        l.transitions += 1;
        l.validated += 1;
        if s.source_text().is_some() || !s.byte_range().is_empty() || s.start() != cs.span.start() || s.file() != cs.span.file() || s.local_file().is_some() {
            ctx.violation("sites", format!("the span of a site (call, mixed, def: {i}) has a text or a place"));
        }
    }
    // set_span then read back, on every kind of token; nothing else changes
    for a in &live {
        let mk: [fn() -> TokenTree; 4] = [
            || Ident::new("x", Span::call_site()).into(),
            || Punct::new('+', Spacing::Joint).into(),
            || Literal::string("q").into(),
            || Group::new(Delimiter::Bracket, "é y".parse().unwrap()).into(),
        ];
        for m in mk {
            let mut t = m();
            let before = (cmp::tree(&t), inner_spans(&t));
            let copy = t.clone();
            t.set_span(a.span);
            l.transitions += 1;
            l.validated += 1;
            let w = Live { span: t.span(), ..a.clone() };
            if let Err(e) = w.check(names) {
                ctx.violation("set_span", format!("set_span then span: {e}"));
            }
            if before.0 != cmp::tree(&t) || before.1 != inner_spans(&t) || copy.span().source_text().is_some() {
                ctx.violation("set_span", "set_span changed something other than the token's span");
            }
            if let TokenTree::Group(g) = &t {
                // open and close of a respanned group: one-character ends of the new span
                let o = g.span_open().byte_range();
                let c = g.span_close().byte_range();
                let chars: Vec<usize> = a.src[a.lo..a.hi].char_indices().map(|(i, _)| a.lo + i).chain([a.hi]).collect();
                let ow = a.lo..*chars.get(1).unwrap_or(&a.hi);
                let cw = if chars.len() >= 2 { chars[chars.len() - 2] } else { a.hi }..a.hi;
                if o != ow || c != cw || g.delim_span().open().byte_range() != ow || g.delim_span().close().byte_range() != cw {
                    ctx.violation("span_open", format!("group respanned to {}..{} of {:?}: open {o:?} close {c:?}, expected {ow:?} {cw:?}", a.lo, a.hi, a.src));
                }
            }
        }
    }
}

fn inner_spans(t: &TokenTree) -> Vec<std::ops::Range<usize>> {
    match t {
        TokenTree::Group(g) => g.stream().into_iter().map(|t| t.span().byte_range()).collect(),
        _ => Vec::new(),
    }
}

fn subspans(ctx: &Ctx, l: &mut Local) {
    let long = ["a", "é", "\u{1d400}"].map(|u| format!("\"{}\"", u.repeat((1 << 16) + 2)));
    let lits = [long[0].as_str(), &long[1], &long[2], "\"abc\"", "1", "-12", "'x'", "b\"a\\x00b\"", "r#\"a\"#", "1.5e3f32", "\"\"", "\"é\u{4e2d}\"", "'\u{1d400}'"];
    let short: Vec<usize> = (0..16).chain([u32::MAX as usize - 1, u32::MAX as usize, u32::MAX as usize + 1, usize::MAX - 1, usize::MAX]).collect();
    let mut n = 0;
    for prior in 0..3 {
        for text in lits {
            extra::invalidate_current_thread_spans();
            for _ in 0..prior {
                let _: TokenStream = "é x".parse().unwrap();
            }
            let vals = if text.len() < 100 {
                short.clone()
            } else {
                vec![0, 1, 255, 256, 32767, 32768, 65534, 65535, 65536, 65537, 65538, 65539, 65540, 65541]
            };
            for in_stream in [false, true] {
                let src;
                let (lit, base): (Literal, usize) = if in_stream {
                    if text.starts_with('-') {
                        continue;
                    }
                    src = format!("é {text} z");
                    let ts: TokenStream = src.parse().unwrap();
                    match ts.into_iter().nth(1) {
                        Some(TokenTree::Literal(l)) => (l, 3),
                        _ => continue,
                    }
                } else {
                    src = text.to_string();
                    (text.parse().unwrap(), 0)
                };
                // another source directly behind it
                let _: TokenStream = "zzzzzzzzzzzzzzzzzzzzzz".parse().unwrap();
                let len = text.chars().count();
                let offs: Vec<usize> = text.char_indices().map(|(i, _)| base + i).chain([base + text.len()]).collect();
                let bounds = |v: &Vec<usize>| -> Vec<Bound<usize>> {
                    v.iter().map(|&x| Bound::Included(x)).chain(v.iter().map(|&x| Bound::Excluded(x))).chain([Bound::Unbounded]).collect()
                };
                for s in bounds(&vals) {
                    for e in bounds(&vals) {
                        n += 1;
                        l.transitions += 1;
                        let lo = match s {
                            Bound::Included(x) => Some(x),
                            Bound::Excluded(x) => x.checked_add(1),
                            Bound::Unbounded => Some(0),
                        };
                        let hi = match e {
                            Bound::Included(x) => x.checked_add(1),
                            Bound::Excluded(x) => Some(x),
                            Bound::Unbounded => Some(len),
                        };
                        let want = match (lo, hi) {
                            (Some(lo), Some(hi)) if lo <= hi && hi <= len => Some((offs[lo], offs[hi])),
                            _ => None,
                        };
                        let got = guard(|| lit.subspan((s, e)).map(|s| (s.byte_range().start, s.byte_range().end, s.source_text())));
                        let got = match got {
                            Ok(g) => g,
                            Err(p) => {
                                ctx.violation(format!("subspan {}", text.chars().take(40).collect::<String>()), format!("subspan({s:?}, {e:?}) of {text} panicked: {p}"));
                                continue;
                            }
                        };
                        if let Some((a, b, t)) = &got {
                            if t.as_deref() != src.get(*a..*b) || *a < base || *b > base + text.len() {
                                ctx.violation(format!("subspan {}", text.chars().take(40).collect::<String>()), format!("subspan({s:?}, {e:?}) of {text} is {a}..{b} with text {t:?}, not inside the literal"));
                                continue;
                            }
                        }
                        if got.as_ref().map(|g| (g.0, g.1)) != want {
                            ctx.violation(format!("subspan {}", text.chars().take(40).collect::<String>()), format!("subspan({s:?}, {e:?}) of {text}: {got:?}, expected {want:?}"));
                        }
                        l.validated += 1;
                        keep_state(l, hash((text, want)));
                    }
                }
            }
        }
    }
    ctx.space("subspan: every pair of bounds of every kind on ten literals, and around 2^16 on three long ones, at three positions", n);
}

/// Positions order by line, then column.
fn positions(ctx: &Ctx, l: &mut Local) {
    const V: &[usize] = &[0, 1, 2, 3, 9, 10, 255, 256, u32::MAX as usize, usize::MAX];
    let all: Vec<LineColumn> = V.iter().flat_map(|&line| V.iter().map(move |&column| LineColumn { line, column })).collect();
    ctx.space("every pair of positions over ten line and column numbers, compared", (all.len() * all.len()) as u64);
    for a in &all {
        for b in &all {
            l.transitions += 1;
            let want = (a.line, a.column).cmp(&(b.line, b.column));
            let got = (a.cmp(b), a.partial_cmp(b), a == b, a < b, hash(a) == hash(b));
            if got != (want, Some(want), want.is_eq(), want.is_lt(), want.is_eq()) {
                ctx.violation("positions", format!("{a:?} and {b:?} compare as {got:?}, expected {want:?}"));
            }
            l.validated += 1;
        }
    }
}

/// The part about single spans and pairs of them.
pub fn c10_pairs(ctx: &Ctx) {
    let names = calibrate(400);
    ctx.solo("joins", |l| joins(ctx, &names, l));
    ctx.solo("subspans", |l| subspans(ctx, l));
    ctx.solo("positions", |l| positions(ctx, l));
}

pub fn c10(ctx: &Ctx) {
    let max = if ctx.thorough { 3000 } else { 400 };
    let names = calibrate(max);
    hist(ctx, &names);
    query_orders(ctx);
    many_files(ctx, max, true);
    many_files(ctx, (1 << 16) + 3, false);
    many_invalidations(ctx, &names);
    many_queries(ctx, &names);
    big_files(ctx, &names, if ctx.thorough { 21 } else { 17 });
    ctx.solo("joins", |l| joins(ctx, &names, l));
    ctx.solo("subspans", |l| subspans(ctx, l));
}
