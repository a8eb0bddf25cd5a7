//! C15: stream histories inside a macro, against the plain sequence model.

use crate::cmp::T;
use crate::ctx::hash;
use crate::ops::{self, Op, St, M};
use crate::out::{guard, Out};
use proc_macro2::{Delimiter, Group, TokenStream, TokenTree};

#[derive(Clone, Copy, Debug)]
enum X {
    O(Op),
    /// to the compiler's stream and back
    Through(usize),
    /// the register is rebuilt by the compiler's own API from converted trees
    Rebuilt(usize),
    /// extended by a stream that comes straight from the compiler
    ExtCompiler(usize),
    /// printed, checked for emptiness and iterated once, which must change nothing
    Observe(usize),
    /// taken, put into a fresh None group, opened again
    Box(usize),
    /// an empty stream extended by nothing, then by the register
    Fresh(usize, usize),
}

fn compiler_tokens() -> proc_macro::TokenStream {
    let at = |t: T| ops::at(&t).unwrap();
    let mut p = proc_macro::Punct::new('&', proc_macro::Spacing::Joint);
    p.set_span(at(T::P('&', true)));
    let mut l = proc_macro::Literal::u32_suffixed(5);
    l.set_span(at(T::L("5u32".into())));
    let mut g = proc_macro::Group::new(proc_macro::Delimiter::None, proc_macro::TokenStream::from(proc_macro::TokenTree::Literal(l)));
    g.set_span(at(T::G(b'0', vec![])));
    let i = proc_macro::Ident::new("z", at(T::I("z".into())));
    [proc_macro::TokenTree::Ident(i), proc_macro::TokenTree::Punct(p), proc_macro::TokenTree::Group(g)].into_iter().collect()
}
fn compiler_model() -> Vec<T> {
    vec![T::I("z".into()), T::P('&', true), T::G(b'0', vec![T::L("5u32".into())])]
}

pub fn pm_trees(ts: proc_macro::TokenStream) -> Vec<T> {
    ts.into_iter()
        .map(|t| match t {
            proc_macro::TokenTree::Group(g) => T::G(
                match g.delimiter() {
                    proc_macro::Delimiter::Parenthesis => b'(',
                    proc_macro::Delimiter::Bracket => b'[',
                    proc_macro::Delimiter::Brace => b'{',
                    proc_macro::Delimiter::None => b'0',
                },
                pm_trees(g.stream()),
            ),
            proc_macro::TokenTree::Ident(i) => T::I(i.to_string()),
            proc_macro::TokenTree::Punct(p) => T::P(p.as_char(), p.spacing() == proc_macro::Spacing::Joint),
            proc_macro::TokenTree::Literal(l) => T::L(l.to_string()),
        })
        .collect()
}

fn take(st: &mut St, r: usize) -> TokenStream {
    std::mem::replace(&mut st.s[r], TokenStream::new())
}

fn step(st: &mut St, m: &mut M, x: X) -> Result<(), String> {
    match x {
        X::O(op) => st.step(m, op)?,
        X::Through(r) => st.s[r] = TokenStream::from(proc_macro::TokenStream::from(take(st, r))),
        X::Rebuilt(r) => {
            let c = proc_macro::TokenStream::from(st.s[r].clone());
            let v: Vec<_> = c.into_iter().collect();
            let mut c = proc_macro::TokenStream::new();
            for t in v {
                c.extend([t]);
            }
            st.s[r] = c.into();
        }
        X::ExtCompiler(r) => {
            st.s[r].extend([TokenStream::from(compiler_tokens())]);
            m.s[r].extend(compiler_model());
        }
        X::Observe(r) => {
            let s = &st.s[r];
            let before = s.to_string();
            let _ = (format!("{s:?}"), s.is_empty(), s.clone().into_iter().count());
            if s.to_string() != before {
                return Err(format!("prints as {:?} and then as {before:?}", s.to_string()));
            }
            if before.is_empty() && m.s[r].iter().any(|t| !matches!(t, T::G(b'0', _))) {
                return Err(format!("a stream of {:?} prints as nothing", m.s[r]));
            }
        }
        X::Box(r) => {
            let g = Group::new(Delimiter::None, take(st, r));
            st.s[r] = g.stream();
        }
        X::Fresh(r, q) => {
            let mut f = TokenStream::new();
            f.extend(Vec::<TokenTree>::new());
            f.extend(Vec::<TokenStream>::new());
            if !f.is_empty() {
                return Err("a stream extended by nothing is not empty".into());
            }
            f.extend([st.s[q].clone()]);
            st.s[r] = f;
            m.s[r] = m.s[q].clone();
        }
    }
    Ok(())
}

fn run_one(h: &[X]) -> Result<M, String> {
    let mut st = St::new();
    let mut m = M::default();
    for &x in h {
        step(&mut st, &mut m, x)?;
    }
    st.check(&m)?;
    for r in 0..2 {
        let text = st.s[r].to_string();
        let c = proc_macro::TokenStream::from(st.s[r].clone());
        if c.is_empty() != m.s[r].is_empty() {
            return Err(format!("stream {r} converts to a compiler stream whose is_empty is {}", c.is_empty()));
        }
        let shown = c.to_string();
        if shown != text {
            return Err(format!("stream {r} prints as {text:?}, converted to the compiler's as {shown:?}"));
        }
        if ops::marked() {
            ops::streams_have_spans(&TokenStream::from(c.clone())).map_err(|e| format!("stream {r}, converted to the compiler's: {e}"))?;
        }
        let got = pm_trees(c);
        if got != m.s[r] {
            return Err(format!("stream {r} converts to the compiler's {got:?}, expected {:?}", m.s[r]));
        }
    }
    if DEBUG.with(|d| d.get()) {
        for r in 0..2 {
            debug_shows(&st.s[r], &m.s[r]).map_err(|e| format!("stream {r}: {e}"))?;
        }
    }
    Ok(m)
}

thread_local! {
    static DEBUG: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

/// What Debug must name, in this order.
fn named(m: &[T], v: &mut Vec<String>) {
    for t in m {
        match t {
            T::I(s) => v.push(format!("\"{s}\"")),
            T::P(c, joint) => {
                v.push(format!("{c:?}"));
                v.push(if *joint { "Joint".into() } else { "Alone".into() });
            }
            T::L(s) => v.extend(s.chars().find(|c| c.is_ascii_alphanumeric()).map(String::from)),
            T::G(d, inner) => {
                v.push(match d { b'(' => "Parenthesis", b'[' => "Bracket", b'{' => "Brace", _ => "None" }.into());
                named(inner, v);
            }
        }
    }
}

/// Debug depends only on the tokens, not on how the stream came about, and names all of them in order.
fn debug_shows(s: &TokenStream, m: &[T]) -> Result<(), String> {
    let fresh: TokenStream = s.clone().into_iter().collect();
    let mut want = Vec::new();
    named(m, &mut want);
    for (got, expect) in [
        (format!("{s:?}"), format!("{fresh:?}")),
        (format!("{s:#?}"), format!("{fresh:#?}")),
        (format!("{:?}", s.clone().into_iter()), format!("{:?}", fresh.clone().into_iter())),
        (format!("{:?}", s.clone()), format!("{:?}", proc_macro::TokenStream::from(fresh.clone()))),
    ] {
        if got != expect {
            return Err(format!("Debug shows {got}, of the same tokens collected anew {expect}"));
        }
        let mut rest = &got[..];
        for w in &want {
            // the compiler quotes an identifier, the library does not
            let bare = format!("sym: {},", w.trim_matches('"'));
            match rest.find(w.as_str()).into_iter().chain(w.starts_with('"').then(|| rest.find(&bare)).flatten()).min() {
                Some(i) => rest = &rest[i + w.len()..],
                None => return Err(format!("Debug shows {got}, without {w} in its place; the tokens are {m:?}")),
            }
        }
    }
    for t in s.clone() {
        let alone = match &t {
            TokenTree::Group(g) => format!("{g:?}"),
            TokenTree::Ident(i) => format!("{i:?}"),
            TokenTree::Punct(p) => format!("{p:?}"),
            TokenTree::Literal(l) => format!("{l:?}"),
        };
        let mut want = Vec::new();
        named(&crate::cmp::trees(TokenStream::from(t.clone())), &mut want);
        for shown in [alone, format!("{t:?}")] {
            if let Some(w) = want.iter().find(|w| !shown.contains(w.trim_matches('"'))) {
                return Err(format!("Debug of one token shows {shown}, without {w}"));
            }
        }
    }
    Ok(())
}

/// C20: Debug after every history.
pub fn debug(o: &mut Out) {
    DEBUG.with(|d| d.set(true));
    let full = alphabet(1, false);
    for len in 0..=2 {
        histories(o, "all operations, then Debug", &full, len);
    }
    histories(o, "deferred extension, then Debug", &deferred(), if o.thorough { 5 } else { 4 });
    if o.thorough {
        histories(o, "all operations, then Debug", &full, 3);
    }
    DEBUG.with(|d| d.set(false));
}

fn alphabet(level: u32, panics: bool) -> Vec<X> {
    let mut v: Vec<X> = ops::ops(level, panics).into_iter().map(X::O).collect();
    for r in 0..2 {
        v.push(X::Through(r));
        v.push(X::ExtCompiler(r));
        if level > 0 {
            v.push(X::Rebuilt(r));
            v.push(X::Observe(r));
            v.push(X::Box(r));
            v.push(X::Fresh(r, 1 - r));
            v.push(X::Fresh(r, r));
        }
    }
    v
}

fn histories(o: &mut Out, label: &str, a: &[X], len: u32) {
    let k = a.len() as u64;
    o.each(format!("{label}: every history of {len} operations out of {k}"), k.pow(len), |o, i| {
        let mut j = i;
        let h: Vec<X> = (0..len)
            .map(|_| {
                let x = a[(j % k) as usize];
                j /= k;
                x
            })
            .collect();
        o.transitions += len as u64;
        o.validated += 1;
        match guard(|| run_one(&h)) {
            Ok(Ok(m)) => o.state(hash(&m)),
            Ok(Err(e)) => o.violation(&format!("{h:?}"), format!("inside a macro, history {h:?}: {e}")),
            Err(p) => o.violation(&format!("{h:?}"), format!("inside a macro, history {h:?} panicked: {p}")),
        }
        if i % 99_991 == 17 {
            o.sample(format!("{h:?}"));
        }
    });
}

/// Small alphabet, long histories: deferred extension against everything that must notice it.
fn deferred() -> Vec<X> {
    use X::*;
    vec![
        O(Op::Trees(0, &[0], None)),
        O(Op::Trees(0, &[2, 3], None)),
        O(Op::Streams(0, &[1], None)),
        O(Op::Streams(1, &[0], None)),
        O(Op::Clone(1, 0)),
        O(Op::Wrap(0, b'(')),
        O(Op::CollectStreams(0, &[0, 1], None)),
        O(Op::CollectStreams(1, &[0, 1], None)),
        O(Op::Move(1, 0)),
        O(Op::New(0)),
        Through(0),
        O(Op::TreesOf(1, 0)),
    ]
}

/// Streams of every length, built in every way, then split, joined, doubled, converted.
fn lengths(o: &mut Out, max: usize) {
    use proc_macro2::{Ident, Punct, Spacing, Span};
    let mut sizes: Vec<usize> = (0..=max).collect();
    sizes.extend(ops::long_lengths(if o.thorough { 14 } else { 12 }));
    o.each(format!("streams of every length up to {max}, and of lengths around powers of two beyond, built in eight ways, cloned, split, doubled, converted"), sizes.len() as u64, |o, n| {
        let n = sizes[n as usize];
        let mk = |i: usize| -> TokenTree {
            if i % 5 == 3 {
                Punct::new('+', Spacing::Joint).into()
            } else {
                Ident::new(&format!("t{i}"), Span::call_site()).into()
            }
        };
        let model: Vec<T> = (0..n).map(|i| if i % 5 == 3 { T::P('+', true) } else { T::I(format!("t{i}")) }).collect();
        let mut by_one = TokenStream::new();
        let mut by_stream = TokenStream::new();
        let mut mixed = TokenStream::new();
        for i in 0..n {
            by_one.extend([mk(i)]);
            by_stream.extend([TokenStream::from(mk(i))]);
            if i % 3 == 1 {
                mixed.extend([TokenStream::from(mk(i))]);
            } else {
                mixed.extend([mk(i)]);
            }
        }
        let mut at_once = TokenStream::from(mk(0));
        if n == 0 {
            at_once = TokenStream::new();
        } else {
            at_once.extend((1..n).map(mk));
        }
        let through: proc_macro::TokenStream = by_one.clone().into();
        let all: Vec<(&str, TokenStream)> = vec![
            ("collecting", (0..n).map(mk).collect()),
            ("collecting streams", (0..n).map(|i| TokenStream::from(mk(i))).collect()),
            ("extending one by one", by_one),
            ("extending by streams", by_stream),
            ("extending by both", mixed),
            ("extending at once", at_once),
            ("opening a group", Group::new(Delimiter::Brace, (0..n).map(mk).collect()).stream()),
            ("converting", through.into()),
        ];
        for (how, ts) in &all {
            o.validated += 1;
            let r = guard(|| -> Result<(), String> {
                if ts.is_empty() != (n == 0) {
                    return Err("is_empty is wrong".into());
                }
                let shown = ts.to_string();
                if crate::cmp::trees(ts.clone()) != model {
                    return Err("wrong contents".into());
                }
                let c = proc_macro::TokenStream::from(ts.clone());
                if c.to_string() != shown || pm_trees(c) != model {
                    return Err("converts to something else".into());
                }
                for k in (0..=n).step_by(if n > max { n / 2 } else if n > 24 { 13 } else { 1 }) {
                    let mut it = ts.clone().into_iter();
                    let head: TokenStream = it.by_ref().take(k).collect();
                    let (lo, hi) = it.size_hint();
                    if lo > n - k || hi.is_some_and(|h| h < n - k) {
                        return Err(format!("size hint ({lo},{hi:?}) with {} left", n - k));
                    }
                    let second = it.clone();
                    let mut again = head.clone();
                    again.extend(it);
                    if crate::cmp::trees(again) != model
                        || crate::cmp::trees(head) != model[..k]
                        || crate::cmp::trees(second.collect()) != model[k..]
                    {
                        return Err(format!("split at {k} and rejoined differs"));
                    }
                }
                let mut dbl = ts.clone();
                dbl.extend([ts.clone()]);
                dbl.extend(ts.clone());
                if crate::cmp::trees(dbl).len() != 3 * n || crate::cmp::trees(ts.clone()) != model {
                    return Err("tripling changed the original or lost tokens".into());
                }
                Ok(())
            });
            let e = match r {
                Ok(Ok(())) => continue,
                Ok(Err(e)) => e,
                Err(p) => format!("panicked: {p}"),
            };
            o.violation(&format!("{n} tokens by {how}"), format!("inside a macro, {n} tokens by {how}: {e}"));
        }
        o.state(hash(n));
    });
}

fn iterator_calls(o: &mut Out, len: u32) {
    let calls = crate::iters::calls();
    let k = calls.len() as u64;
    for depth in 0..=len {
        let n = k.pow(depth) * 54;
        o.each(format!("every sequence of {depth} iterator calls out of {k}, on streams of 0 to 8 tokens made in 3 ways, shared or not"), n, |o, i| {
            let (keep, how, size) = (i % 2 == 1, (i / 2 % 3) as usize, (i / 6 % 9) as usize);
            let mut j = i / 54;
            let seq: Vec<_> = (0..depth)
                .map(|_| {
                    let c = calls[(j % k) as usize];
                    j /= k;
                    c
                })
                .collect();
            o.transitions += depth as u64;
            o.validated += 1;
            let e = match guard(|| crate::iters::run(size, how, keep, &seq)) {
                Ok(Ok(())) => return,
                Ok(Err(e)) => e,
                Err(p) => format!("panicked: {p}"),
            };
            let d = format!("{size} tokens (way {how}, shared {keep}), calls {seq:?}");
            o.violation(&d, format!("inside a macro, iterator over {d}: {e}"));
        });
    }
}

/// Every kind of token in every way into a stream and out of it.
fn every_token(o: &mut Out) {
    let all = ops::all_tokens();
    let n = all.len();
    const WAYS: usize = ops::WAYS + 1;
    o.each(format!("each of {n} tokens, alone and after another of them, put into a stream in {WAYS} ways"), (WAYS * n * (n + 1)) as u64, |o, i| {
        let i = i as usize;
        let (way, first, second) = (i % WAYS, i / WAYS % n, i / WAYS / n);
        let mut toks = vec![all[first].0.clone()];
        let mut model = all[first].1.clone();
        if second < n {
            toks.push(all[second].0.clone());
            model.extend(all[second].1.clone());
        }
        o.transitions += 1;
        o.validated += 1;
        let case = format!("{toks:?} in way {way}");
        let r = guard(|| -> Result<(), String> {
            let ts: TokenStream = match way {
                0..ops::WAYS => ops::put(way, toks),
                _ => {
                    let s: TokenStream = toks.into_iter().collect();
                    let c: proc_macro::TokenStream = s.into();
                    c.into_iter().collect::<proc_macro::TokenStream>().into()
                }
            };
            let got = crate::cmp::trees(ts.clone());
            if got != model {
                return Err(format!("the stream holds {got:?}, expected {model:?}"));
            }
            let c = pm_trees(ts.into());
            if c != model {
                return Err(format!("the compiler's stream holds {c:?}, expected {model:?}"));
            }
            Ok(())
        });
        match r {
            Ok(Ok(())) => o.state(hash((first, second))),
            Ok(Err(e)) => o.violation(&case, format!("inside a macro, {case}: {e}")),
            Err(p) => o.violation(&case, format!("inside a macro, {case}: panicked: {p}")),
        }
    });
}

pub fn run(o: &mut Out) {
    every_token(o);
    iterator_calls(o, if o.thorough { 3 } else { 2 });
    lengths(o, if o.thorough { 700 } else { 300 });
    o.each("every operation that takes an iterator, with every kind of true size hint".into(), ops::HINT_CASES, |o, i| {
        o.transitions += 1;
        o.validated += 1;
        o.case = format!("size hint case {i}");
        let (case, r) = match guard(|| ops::hinted(i)) {
            Ok(x) => x,
            Err(p) => (format!("size hint case {i}"), Err(format!("panicked: {p}"))),
        };
        match r {
            Ok(()) => o.state(crate::ctx::hash(&case)),
            Err(e) => o.violation(&case, format!("inside a macro, {case}: {e}")),
        }
    });
    let full = alphabet(1, false);
    let core = alphabet(0, true);
    for len in 0..=3 {
        histories(o, "all operations", &full, len);
    }
    for len in 1..=3 {
        histories(o, "core operations, panicking iterators included", &core, len);
    }
    histories(o, "deferred extension", &deferred(), if o.thorough { 7 } else { 6 });
    if o.thorough {
        histories(o, "core operations, panicking iterators included", &core, 4);
        histories(o, "all operations", &full, 4);
    }
}

/// C21: every token keeps its span through every history.
pub fn spans(o: &mut Out, input: proc_macro::TokenStream) {
    fn id(s: proc_macro2::Span) -> u64 {
        hash(format!("{:?}", s.unwrap()))
    }
    fn walk(ts: proc_macro::TokenStream, v: &mut Vec<proc_macro::Span>) {
        for t in ts {
            v.push(t.span());
            if let proc_macro::TokenTree::Group(g) = t {
                walk(g.stream(), v);
            }
        }
    }
    let mut all = Vec::new();
    walk(input, &mut all);
    let mut marks = ops::Marks { spans: vec![], ids: vec![], id };
    for s in all {
        let s = proc_macro2::Span::from(s);
        if marks.spans.len() < ops::MARKS && !marks.ids.contains(&id(s)) && id(s) != id(proc_macro2::Span::call_site()) {
            marks.spans.push(s);
            marks.ids.push(id(s));
        }
    }
    assert_eq!(marks.spans.len(), ops::MARKS, "too few different spans in the input");
    ops::set_marks(Some(marks));
    let full = alphabet(1, true);
    for len in 0..=2 {
        histories(o, "all operations, panics included, tokens with spans", &full, len);
    }
    histories(o, "core operations, tokens with spans", &alphabet(0, false), 3);
    histories(o, "deferred extension, tokens with spans", &deferred(), if o.thorough { 6 } else { 5 });
    if o.thorough {
        histories(o, "all operations, tokens with spans", &alphabet(1, false), 3);
    }
    ops::set_marks(None);
}

/// C22: code of the caller acting at every point at which an operation calls it.
pub fn callbacks(o: &mut Out) {
    use crate::reenter::*;
    let every = acts();
    // while rustc's own tokens print themselves they hold their symbol table, so a writer cannot use the compiler
    let failures = vec![Act::Fail, Act::Panic];
    for op in 0..OPS {
        let acts = if prints(op) { &failures } else { &every };
        for handles in 0..3 {
            let label = format!("inside a macro, operation {op} with {handles} other handles");
            o.case = label.clone();
            let (ticks, base) = baseline(op, handles);
            if let Err(e) = judge(op, handles, &[], &base) {
                o.violation(&label, format!("{label}, undisturbed: {e}"));
            }
            let max = if handles == 1 { if o.thorough { 24 } else { 12 } } else { 0 };
            let n = plans(ticks, acts, max);
            let what = if prints(op) { "a failure or panic" } else { "every act" };
            o.each(format!("{label}: {what} at each of {ticks} callbacks{}", if ticks <= max { ", every two acts at every two" } else { "" }), n, |o, i| {
                let p = plan(ticks, acts, i);
                o.transitions += p.len() as u64 + 1;
                o.validated += 1;
                match guard(|| judge(op, handles, &p, &base)) {
                    Ok(Ok(r)) => o.state(hash((op, handles, format!("{p:?} {r:?}")))),
                    Ok(Err(e)) | Err(e) => o.violation(&format!("{op} {handles} {p:?}"), format!("{label}, at callbacks {p:?}: {e}")),
                }
            });
        }
    }
}
