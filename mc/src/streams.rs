//! C07, C08: stream histories outside a macro.

use crate::cmp::{trees, T};
use crate::ctx::{guard, hash, Ctx, Local};
use crate::lexing::keep_state;
use crate::ops::{self, Op};
use proc_macro2::{Delimiter, Group, Ident, Literal, Punct, Spacing, Span, TokenStream, TokenTree};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;
thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static BYTES: Cell<i64> = const { Cell::new(0) };
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if !p.is_null() {
            let _ = LIVE.try_with(|c| c.set(c.get() + 1));
            let _ = BYTES.try_with(|c| c.set(c.get() + l.size() as i64));
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let _ = LIVE.try_with(|c| c.set(c.get() - 1));
        let _ = BYTES.try_with(|c| c.set(c.get() - l.size() as i64));
        // make use after free visible
        if l.size() <= 4096 {
            std::ptr::write_bytes(p, 0xd7, l.size());
        }
        System.dealloc(p, l)
    }
}
pub fn live() -> (i64, i64) {
    (LIVE.with(Cell::get), BYTES.with(Cell::get))
}

fn histories(ctx: &Ctx, label: &str, ops: &[Op], len: u32, account: bool) {
    let k = ops.len() as u64;
    let n = k.pow(len);
    ctx.space(format!("{label}: every history of {len} operations out of {k}"), n);
    const B: u64 = 1024;
    ctx.par(n.div_ceil(B), 8, |blk, l| {
        for i in blk * B..((blk + 1) * B).min(n) {
            let before = live();
            let r = guard(|| {
                let h = ops::decode(ops, i, len);
                let r = ops::run(&h);
                r.map(|m| hash(&m)).map_err(|e| format!("{e}"))
            });
            l.transitions += len as u64;
            l.validated += 1;
            let describe = || format!("{:?}", ops::decode(ops, i, len));
            match r {
                Ok(Ok(h)) => {
                    let after = live();
                    if account && after != before {
                        ctx.violation(describe(), format!("history {}: {} allocations and {} bytes {} after everything was dropped", describe(),
                            (after.0 - before.0).abs(), (after.1 - before.1).abs(), if after.0 < before.0 || after.1 < before.1 { "freed too often" } else { "never freed" }));
                    }
                    keep_state(l, h);
                }
                Ok(Err(e)) => ctx.violation(describe(), format!("history {}: {e}", describe())),
                Err(p) => ctx.violation(describe(), format!("history {} panicked: {p}", describe())),
            }
            if i % 1_000_003 == 7 {
                ctx.sample(describe());
            }
        }
    });
}

fn lengths(ctx: &Ctx, max: usize) {
    let mut sizes: Vec<usize> = (0..=max).collect();
    sizes.extend(ops::long_lengths(if ctx.thorough { 17 } else { 13 }));
    ctx.space(format!("streams of every length up to {max}, and of lengths around powers of two beyond, built in six ways, cloned, split, extended"), sizes.len() as u64);
    ctx.par(sizes.len() as u64, 1, |n, l| {
        let n = sizes[n as usize];
        let name = |i: usize| format!("t{i}");
        let mk = |i: usize| -> TokenTree { Ident::new(&name(i), Span::call_site()).into() };
        let model: Vec<T> = (0..n).map(|i| T::I(name(i))).collect();
        let text: String = (0..n).map(|i| name(i) + " ").collect();
        let mut by_one = TokenStream::new();
        for i in 0..n {
            by_one.extend([mk(i)]);
        }
        let mut by_stream = TokenStream::new();
        for i in 0..n {
            by_stream.extend([TokenStream::from(mk(i))]);
        }
        let all: Vec<(&str, TokenStream)> = vec![
            ("collect", (0..n).map(mk).collect()),
            ("collect streams", (0..n).map(|i| TokenStream::from(mk(i))).collect()),
            ("extend one by one", by_one),
            ("extend by streams", by_stream),
            ("parse", text.parse().unwrap()),
            ("group", Group::new(Delimiter::Brace, (0..n).map(mk).collect()).stream()),
        ];
        for (how, ts) in &all {
            let bad = |m: String| ctx.violation(format!("{how} {n}"), format!("{n} tokens by {how}: {m}"));
            if trees(ts.clone()) != model {
                return bad("wrong contents".into());
            }
            if ts.is_empty() != (n == 0) {
                return bad("is_empty is wrong".into());
            }
            let shown = ts.to_string();
            if shown != text.trim_end() {
                return bad(format!("prints as {shown:?}"));
            }
            // split at every point: head by take, tail by the rest; original unaffected
            for k in (0..=n).step_by(if n > max { n / 3 } else if n > 64 { 7 } else { 1 }) {
                let mut it = ts.clone().into_iter();
                let head: TokenStream = it.by_ref().take(k).collect();
                let (lo, hi) = it.size_hint();
                if lo > n - k || hi.is_some_and(|h| h < n - k) {
                    return bad(format!("size hint ({lo},{hi:?}) with {} left", n - k));
                }
                let second = it.clone();
                let mut again = head.clone();
                again.extend(it);
                if trees(again) != model || trees(head.clone()) != model[..k] || trees(second.collect()) != model[k..] {
                    return bad(format!("split at {k} and rejoined differs"));
                }
                l.transitions += 3;
            }
            let mut dbl = ts.clone();
            dbl.extend([ts.clone()]);
            if trees(dbl).len() != 2 * n || trees(ts.clone()) != model {
                return bad("doubling changed the original or lost tokens".into());
            }
            l.validated += 1;
        }
        keep_state(l, hash(n));
    });
}

/// Every sequence of iterator calls on streams of every small length.
fn iterator_calls(ctx: &Ctx, len: u32) {
    let calls = crate::iters::calls();
    let k = calls.len() as u64;
    for depth in 0..=len {
        let seqs = k.pow(depth);
        let n = seqs * 9 * 3 * 2;
        ctx.space(format!("every sequence of {depth} iterator calls out of {k}, on streams of 0 to 8 tokens made in 3 ways, shared or not"), n);
        const B: u64 = 512;
        ctx.par(n.div_ceil(B), 8, |blk, l| {
            for i in blk * B..((blk + 1) * B).min(n) {
                let (keep, how, size) = (i % 2 == 1, (i / 2 % 3) as usize, (i / 6 % 9) as usize);
                let mut j = i / 54;
                let seq: Vec<_> = (0..depth)
                    .map(|_| {
                        let c = calls[(j % k) as usize];
                        j /= k;
                        c
                    })
                    .collect();
                l.transitions += depth as u64;
                l.validated += 1;
                let e = match guard(|| crate::iters::run(size, how, keep, &seq)) {
                    Ok(Ok(())) => continue,
                    Ok(Err(e)) => e,
                    Err(p) => format!("panicked: {p}"),
                };
                let d = format!("{size} tokens (way {how}, shared {keep}), calls {seq:?}");
                ctx.violation(d.clone(), format!("iterator over {d}: {e}"));
            }
        });
    }
}

/// set_span on one token changes nothing else (identity by text here, by span in C10).
pub fn c07(ctx: &Ctx) {
    let full = ops::ops(1, false);
    let core = ops::ops(0, false);
    for len in 0..=3 {
        histories(ctx, "all operations", &full, len, false);
    }
    histories(ctx, "all operations", &full, 4, false);
    histories(ctx, "core operations", &core, if ctx.thorough { 5 } else { 4 }, false);
    if ctx.thorough {
        histories(ctx, "all operations", &full, 5, false);
    }
    iterator_calls(ctx, if ctx.thorough { 3 } else { 2 });
    lengths(ctx, if ctx.thorough { 700 } else { 300 });
    let n = ops::all_tokens().len();
    let k = (ops::WAYS * n * (n + 1)) as u64;
    ctx.space(format!("each of {n} tokens, alone and after another of them, put into a stream in {} ways", ops::WAYS), k);
    ctx.par(k, 256, |i, l| {
        thread_local!(static ALL: Vec<(TokenTree, Vec<T>)> = ops::all_tokens());
        let i = i as usize;
        let (way, first, second) = (i % ops::WAYS, i / ops::WAYS % n, i / ops::WAYS / n);
        let (toks, model) = ALL.with(|all| {
            let mut toks = vec![all[first].0.clone()];
            let mut model = all[first].1.clone();
            if second < n {
                toks.push(all[second].0.clone());
                model.extend(all[second].1.clone());
            }
            (toks, model)
        });
        l.transitions += 1;
        l.validated += 1;
        let case = format!("{toks:?} in way {way}");
        match guard(|| trees(ops::put(way, toks))) {
            Ok(got) if got == model => {
                l.states.insert(hash((first, second)));
            }
            Ok(got) => ctx.violation(case.clone(), format!("{case}: the stream holds {got:?}, expected {model:?}")),
            Err(p) => ctx.violation(case.clone(), format!("{case} panicked: {p}")),
        }
    });
    ctx.space("every operation that takes an iterator, with every kind of true size hint", ops::HINT_CASES);
    ctx.par(ops::HINT_CASES, 64, |i, l| {
        let (case, r) = ops::hinted(i);
        l.transitions += 1;
        l.validated += 1;
        if let Err(e) = r {
            ctx.violation(case.clone(), format!("{case}: {e}"));
        }
        keep_state(l, hash(case));
    });
}

pub fn c08(ctx: &Ctx) {
    let all = ops::ops(1, true);
    let core = ops::ops(0, true);
    for len in 0..=3 {
        histories(ctx, "operations with injected panics", &all, len, true);
    }
    histories(ctx, "core operations with injected panics", &core, 4, true);
    if ctx.thorough {
        histories(ctx, "operations with injected panics", &all, 4, true);
        histories(ctx, "core operations with injected panics", &core, 5, true);
    }
    shares(ctx);
    drop_sizes(ctx);
    parse_drop(ctx);
}

/// Every token keeps its span through every history.
#[cfg(any(feature = "span", procmacro2_semver_exempt))]
pub fn c21(ctx: &Ctx) {
    fn id(s: Span) -> u64 {
        let r = s.byte_range();
        hash((r.start, r.end, s.file()))
    }
    fn marks() {
        if !ops::marked() {
            let src: String = (0..ops::MARKS).map(|i| format!(" m{i}")).collect();
            let spans: Vec<Span> = src.parse::<TokenStream>().unwrap().into_iter().map(|t| t.span()).collect();
            let ids = spans.iter().map(|&s| id(s)).collect();
            ops::set_marks(Some(ops::Marks { spans, ids, id }));
        }
    }
    let full = ops::ops(1, true);
    let core = ops::ops(0, false);
    let run = |label: &str, ops: &[Op], len: u32| {
        let k = ops.len() as u64;
        let n = k.pow(len);
        ctx.space(format!("{label}, tokens with spans: every history of {len} operations out of {k}"), n);
        const B: u64 = 512;
        ctx.par(n.div_ceil(B), 8, |blk, l| {
            marks();
            for i in blk * B..((blk + 1) * B).min(n) {
                let h = ops::decode(ops, i, len);
                l.transitions += len as u64;
                l.validated += 1;
                match guard(|| ops::run(&h)) {
                    Ok(Ok(m)) => keep_state(l, hash(&m)),
                    Ok(Err(e)) => ctx.violation(format!("{h:?}"), format!("history {h:?}: {e}")),
                    Err(p) => ctx.violation(format!("{h:?}"), format!("history {h:?} panicked: {p}")),
                }
                if i % 1_000_003 == 7 {
                    ctx.sample(format!("{h:?}"));
                }
            }
        });
    };
    for len in 0..=3 {
        run("all operations, panics included", &full, len);
    }
    run("core operations", &core, 4);
    if ctx.thorough {
        run("core operations", &core, 5);
        run("all operations", &ops::ops(1, false), 4);
    }
    span_lengths(ctx);
    ctx.solo("fresh", |l| fresh(ctx, l));
}

/// Streams of every length made in several ways out of tokens with a place each.
#[cfg(any(feature = "span", procmacro2_semver_exempt))]
fn span_lengths(ctx: &Ctx) {
    let mut sizes: Vec<usize> = (0..=300).collect();
    sizes.extend(ops::long_lengths(if ctx.thorough { 17 } else { 13 }));
    ctx.space("streams of every length up to 300 and around powers of two beyond, tokens with a place each, rebuilt in eight ways", sizes.len() as u64);
    ctx.par(sizes.len() as u64, 1, |n, l| {
        let n = sizes[n as usize];
        let text: String = (0..n).map(|i| if i % 3 == 1 { format!("+ ") } else { format!("t{i} ") }).collect();
        let parsed: TokenStream = text.parse().unwrap();
        // in long streams some of the places: looking one up may take time in proportion to the source
        let place = |(i, t): (usize, TokenTree)| (n <= 2000 || i < 200 || i + 200 >= n || i % 97 == 0).then(|| t.span().byte_range());
        let want: Vec<_> = parsed.clone().into_iter().enumerate().map(place).collect();
        let mut by_one = TokenStream::new();
        let mut by_stream = TokenStream::new();
        for t in parsed.clone() {
            by_one.extend([t.clone()]);
            by_stream.extend([TokenStream::from(t)]);
        }
        let mut halves = TokenStream::new();
        let mut it = parsed.clone().into_iter();
        halves.extend([it.by_ref().take(n / 2).collect::<TokenStream>()]);
        halves.extend(it);
        let mut back: Vec<TokenTree> = parsed.clone().into_iter().collect();
        back.reverse();
        let mut grown = parsed.clone();
        grown.extend([TokenTree::from(Punct::new('!', Spacing::Alone))]);
        let all: Vec<(&str, TokenStream)> = vec![
            ("collecting", parsed.clone().into_iter().collect()),
            ("collecting streams", parsed.clone().into_iter().map(TokenStream::from).collect()),
            ("extending one by one", by_one),
            ("extending by streams", by_stream),
            ("splitting and joining", halves),
            ("a group", Group::new(Delimiter::Brace, parsed.clone()).stream()),
            ("reversing twice", back.into_iter().rev().collect()),
            ("extending a clone", grown.into_iter().take(n).collect()),
        ];
        for (how, ts) in &all {
            l.transitions += 1;
            l.validated += 1;
            let got: Vec<_> = ts.clone().into_iter().enumerate().map(place).collect();
            if got != want {
                let i = (0..n.max(got.len())).find(|&i| got.get(i) != want.get(i));
                return ctx.violation(format!("{how} {n}"), format!("{n} tokens by {how}: token {i:?} has a different place"));
            }
        }
        keep_state(l, hash(n));
    });
}

/// What new tokens have for a span, and that a constructor's or setter's span is the one read back.
#[cfg(any(feature = "span", procmacro2_semver_exempt))]
fn fresh(ctx: &Ctx, l: &mut Local) {
    let what = |s: Span| (s.byte_range(), s.start(), s.end(), s.source_text(), s.file());
    let none = what(Span::call_site());
    let mut bad = |c: &str, e: String| ctx.violation(c.to_string(), format!("{c}: {e}"));
    let unplaced: Vec<(String, TokenTree)> = vec![
        ("Punct::new".into(), Punct::new('+', Spacing::Joint).into()),
        ("Group::new".into(), Group::new(Delimiter::Brace, "é x".parse().unwrap()).into()),
        ("Group::new (None)".into(), Group::new(Delimiter::None, TokenStream::new()).into()),
        ("Ident::new at the call site".into(), Ident::new("x", Span::call_site()).into()),
        ("Ident::new at the mixed site".into(), Ident::new("x", Span::mixed_site()).into()),
        ("Ident::new_raw at the call site".into(), Ident::new_raw("x", Span::call_site()).into()),
    ];
    let lits = [
        Literal::u8_suffixed(1), Literal::u16_suffixed(1), Literal::u32_suffixed(1), Literal::u64_suffixed(1), Literal::u128_suffixed(1), Literal::usize_suffixed(1),
        Literal::i8_suffixed(-1), Literal::i16_suffixed(1), Literal::i32_suffixed(1), Literal::i64_suffixed(1), Literal::i128_suffixed(1), Literal::isize_suffixed(1),
        Literal::u8_unsuffixed(1), Literal::u16_unsuffixed(1), Literal::u32_unsuffixed(1), Literal::u64_unsuffixed(1), Literal::u128_unsuffixed(1), Literal::usize_unsuffixed(1),
        Literal::i8_unsuffixed(-1), Literal::i16_unsuffixed(1), Literal::i32_unsuffixed(1), Literal::i64_unsuffixed(1), Literal::i128_unsuffixed(1), Literal::isize_unsuffixed(1),
        Literal::f32_suffixed(1.5), Literal::f32_unsuffixed(1.0), Literal::f64_suffixed(-1.5), Literal::f64_unsuffixed(1.0),
        Literal::string("a"), Literal::character('a'), Literal::byte_character(b'a'), Literal::byte_string(b"a"), Literal::c_string(c"a"),
    ];
    let unplaced: Vec<(String, TokenTree)> = unplaced.into_iter().chain(lits.into_iter().map(|x| (format!("the constructor of {x}"), x.into()))).collect();
    let places: Vec<Span> = {
        let ts: TokenStream = "é (\u{4e2d} +) 'x' \n/// d\nq".parse().unwrap();
        let mut v: Vec<Span> = Vec::new();
        fn walk(ts: TokenStream, v: &mut Vec<Span>) {
            for t in ts {
                v.push(t.span());
                if let TokenTree::Group(g) = &t {
                    v.extend([g.span_open(), g.span_close(), g.delim_span().join()]);
                    walk(g.stream(), v);
                }
            }
        }
        walk(ts, &mut v);
        v.push(Span::call_site());
        v.push(Span::mixed_site());
        v.push("\"abc\"".parse::<Literal>().unwrap().span());
        v
    };
    ctx.space("every constructor, the span of its token, and every pair of spans set on it one after the other, on the token or the tree, on a clone or the original", unplaced.len() as u64 * (places.len() as u64).pow(2) * 4);
    for (name, t) in &unplaced {
        l.transitions += 1;
        if what(t.span()) != none {
            bad(name, format!("a new token has the span {:?}", what(t.span())));
        }
        for &a in &places {
            for &b in &places {
                for how in 0..4 {
                    let mut x = t.clone();
                    let keep = x.clone();
                    l.transitions += 2;
                    l.validated += 1;
                    let set = |x: &mut TokenTree, s: Span| {
                        if how % 2 == 0 {
                            return x.set_span(s);
                        }
                        match x {
                            TokenTree::Group(g) => g.set_span(s),
                            TokenTree::Ident(g) => g.set_span(s),
                            TokenTree::Punct(g) => g.set_span(s),
                            TokenTree::Literal(g) => g.set_span(s),
                        }
                    };
                    let own = |x: &TokenTree| match x {
                        TokenTree::Group(g) => g.span(),
                        TokenTree::Ident(g) => g.span(),
                        TokenTree::Punct(g) => g.span(),
                        TokenTree::Literal(g) => g.span(),
                    };
                    set(&mut x, a);
                    let mid = x.clone();
                    set(&mut x, b);
                    if how >= 2 {
                        // through a stream
                        x = TokenStream::from(x).into_iter().last().unwrap();
                    }
                    for (which, tok, s) in [("the first set", &mid, a), ("the last set", &x, b), ("an earlier clone", &keep, Span::call_site())] {
                        if what(tok.span()) != what(s) || what(own(tok)) != what(s) {
                            bad(name, format!("spans {:?} then {:?} set: {which} reads back as {:?} ({:?} from the token itself)", what(a), what(b), what(tok.span()), what(own(tok))));
                        }
                    }
                }
            }
        }
        // constructors that take a span
        for &a in &places {
            for i in [Ident::new("r", a), Ident::new_raw("r", a), Ident::new("é", a)] {
                if what(i.span()) != what(a) || what(i.clone().span()) != what(a) {
                    bad("Ident", format!("made with {:?}, has {:?}", what(a), what(i.span())));
                }
            }
        }
    }
}

/// The histories of two operations in an interpreter that detects undefined behaviour and leaks; one shard, one thread.
pub fn c08_interpreted(ctx: &Ctx, shard: &str) {
    let (i, n) = shard.split_once('/').unwrap();
    let (shard, shards): (u64, u64) = (i.parse().unwrap(), n.parse().unwrap());
    let all = ops::ops(1, true);
    let k = all.len() as u64;
    for len in 0..=2 {
        let n = k.pow(len);
        ctx.space(format!("every history of {len} operations out of {k} under Miri"), n);
        ctx.solo("histories", |l| {
            for i in (0..n).filter(|i| i % shards == shard) {
                let r = guard(|| ops::run(&ops::decode(&all, i, len)).map(|m| hash(&m)).map_err(|e| format!("{e}")));
                l.transitions += len as u64;
                l.validated += 1;
                let describe = || format!("{:?}", ops::decode(&all, i, len));
                match r {
                    Ok(Ok(h)) => keep_state(l, h),
                    Ok(Err(e)) => ctx.violation(describe(), format!("history {}: {e}", describe())),
                    Err(p) => ctx.violation(describe(), format!("history {} panicked: {p}", describe())),
                }
            }
        });
    }
}

/// Every sharing pattern of nested groups (which handles exist) and every drop order.
fn shares(ctx: &Ctx) {
    // a chain of nested groups depth d; keep handles to some levels (by clone of the group or of
    // its stream), drop all handles in every order, allocations must balance and the surviving
    // handles must stay intact after each drop
    let d = 4usize;
    let kinds = 3u64.pow(d as u32); // per level: no handle, group handle, stream handle
    let orders: u64 = 120; // 5! orders of root + up to 4 handles
    ctx.space("nested groups: every choice of kept handles and every drop order", kinds * orders);
    enum H {
        S(TokenStream, Vec<T>),
        G(Group, Vec<T>),
    }
    ctx.par(kinds * orders, 64, |i, l| {
        let before = live();
        let r = guard(|| -> Result<(), String> {
            let (mut kc, mut oc) = (i / orders, i % orders);
            let mut handles: Vec<Option<H>> = Vec::new();
            let mut cur: TokenStream = [TokenTree::from(Literal::string("leaf")), Punct::new('+', Spacing::Alone).into()].into_iter().collect();
            for lev in 0..d {
                let m = trees(cur.clone());
                let g = Group::new(if lev % 2 == 0 { Delimiter::Brace } else { Delimiter::None }, cur.clone());
                match kc % 3 {
                    1 => handles.push(Some(H::G(g.clone(), m))),
                    2 => handles.push(Some(H::S(cur.clone(), m))),
                    _ => {}
                }
                kc /= 3;
                cur = [TokenTree::from(Ident::new("x", Span::call_site())), g.into()].into_iter().collect();
            }
            let m = trees(cur.clone());
            handles.push(Some(H::S(cur, m)));
            let mut idx: Vec<usize> = (0..handles.len()).collect();
            while !idx.is_empty() {
                let n = idx.len() as u64;
                let x = idx.remove((oc % n) as usize);
                oc /= n;
                handles[x] = None;
                for h in handles.iter().flatten() {
                    let (got, want) = match h {
                        H::S(s, m) => (trees(s.clone()), m),
                        H::G(g, m) => (trees(g.stream()), m),
                    };
                    if got != *want {
                        return Err(format!("after dropping handle {x} another holds {got:?}, expected {want:?}"));
                    }
                }
            }
            Ok(())
        });
        let after = live();
        l.transitions += d as u64;
        l.validated += 1;
        keep_state(l, hash(i / orders));
        match r {
            Ok(Ok(())) => {
                if after != before {
                    ctx.violation(format!("shares {i}"), format!("sharing pattern {i}: allocations do not balance: {before:?} -> {after:?}"));
                }
            }
            Ok(Err(e)) => ctx.violation(format!("shares {i}"), format!("sharing pattern {i}: {e}")),
            Err(p) => ctx.violation(format!("shares {i}"), format!("sharing pattern {i} panicked: {p}")),
        }
    });
}

/// Parsing, successful or not, and dropping the result releases everything (no span table here).
/// Constructed streams of many depths and widths, handles kept at some levels, dropped in two orders.
fn drop_sizes(ctx: &Ctx) {
    let mut sizes: Vec<usize> = (0..=130).collect();
    sizes.extend(ops::long_lengths(if ctx.thorough { 17 } else { 12 }));
    const SHAPES: u64 = 6;
    ctx.space("streams of every depth or width up to 130 and around powers of two to 2^16, six shapes, kept handles at no, every second or the middle level, dropped outermost or innermost first", sizes.len() as u64 * SHAPES * 6);
    ctx.par(sizes.len() as u64 * SHAPES * 6, 4, |i, l| {
        let (n, shape, keep, rev) = (sizes[(i / (SHAPES * 6)) as usize], i / 6 % SHAPES, i / 2 % 3, i % 2 == 1);
        let what = format!("{n} levels of shape {shape}, handles {keep}, innermost first {rev}");
        let before = live();
        let r = guard(|| {
            let mut kept: Vec<TokenTree> = Vec::new();
            let leaf = || -> TokenTree { Literal::string("leaf").into() };
            let mut cur: TokenStream = leaf().into();
            for lev in 0..n {
                let d = [Delimiter::Parenthesis, Delimiter::None, Delimiter::Brace, Delimiter::Bracket][lev % 4];
                let g: TokenTree = Group::new(d, if shape == 5 { leaf().into() } else { cur.clone() }).into();
                if keep == 1 && lev % 2 == 0 || keep == 2 && lev == n / 2 {
                    kept.push(g.clone());
                }
                match shape {
                    0 => cur = g.into(),
                    1 => cur = [leaf(), g].into_iter().collect(),
                    2 => cur = [g, leaf()].into_iter().collect(),
                    // a shallow sibling on either side
                    3 => cur = [Group::new(d, leaf().into()).into(), g].into_iter().collect(),
                    4 => cur = [g, Group::new(d, leaf().into()).into()].into_iter().collect(),
                    _ => cur.extend([g]),
                }
            }
            if rev {
                for t in kept {
                    drop(t);
                }
                drop(cur);
            } else {
                drop(cur);
                while let Some(t) = kept.pop() {
                    drop(t);
                }
            }
        });
        let after = live();
        l.transitions += n as u64;
        l.validated += 1;
        keep_state(l, hash((n, shape, keep)));
        if let Err(p) = r {
            ctx.violation(&what, format!("{what}: panicked: {p}"));
            return;
        }
        if after != before {
            ctx.violation(&what, format!("{what}: allocations do not balance: {before:?} -> {after:?}"));
        }
    });
}

fn parse_drop(ctx: &Ctx) {
    if cfg!(any(feature = "span", procmacro2_semver_exempt)) {
        return; // the per-thread source table keeps the text by design
    }
    let mut sp = crate::spaces::words_upto("fragments", "", crate::spaces::FRAGMENTS, 3, "");
    sp.extend(crate::spaces::words_upto("delimiters", "", crate::spaces::DELIMS, 6, ""));
    sp.extend(crate::spaces::truncations());
    sp.extend(crate::spaces::sizes(130));
    sp.extend(crate::spaces::long_sizes(16));
    sp.extend(crate::spaces::deep_sizes());
    crate::spaces::visit(ctx, &sp, |src, l: &mut Local| {
        let before = live();
        drop(src.parse::<TokenStream>());
        drop(src.parse::<Literal>());
        if let Ok(ts) = src.parse::<TokenStream>() {
            let mut it = ts.clone().into_iter();
            let t = it.next();
            drop(ts);
            drop(it);
            drop(t);
        }
        let after = live();
        l.transitions += 3;
        l.validated += 1;
        if after != before {
            ctx.violation(src, format!("parsing {src:?} and dropping the result: allocations do not balance: {before:?} -> {after:?}"));
        }
    });
}
