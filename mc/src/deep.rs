//! C01, second part: nesting depths and sizes far beyond the thread stack. Runs in a process of its
//! own: a stack overflow ends it, and the runner reports the last CASE line.

use crate::ctx::{guard, hash, Ctx};
use crate::lexing::keep_state;
use crate::spaces;
use proc_macro2::{Delimiter, Group, Ident, Literal, Punct, Spacing, Span, TokenStream, TokenTree};
use std::io::Write;
use std::sync::mpsc;
use std::time::Duration;

const STACK: usize = 256 << 10;

fn case(ctx: &Ctx, name: String, f: impl FnOnce() -> Result<u64, String> + Send + 'static) {
    let mut so = std::io::stdout();
    let _ = writeln!(so, "CASE {name}");
    let _ = so.flush();
    let (tx, rx) = mpsc::channel();
    let h = std::thread::Builder::new()
        .stack_size(STACK)
        .spawn(move || {
            let r = guard(f);
            let _ = tx.send(());
            r
        })
        .unwrap();
    if rx.recv_timeout(Duration::from_secs(120)).is_err() && !h.is_finished() {
        ctx.violation(&name, format!("{name}: no result after 120 s"));
        ctx.finish();
    }
    ctx.sample(&name);
    let mut l = crate::ctx::Local::default();
    l.transitions += 1;
    l.validated += 1;
    match h.join() {
        Ok(Ok(Ok(h))) => keep_state(&mut l, hash((&name, h))),
        Ok(Ok(Err(e))) => ctx.violation(&name, format!("{name}: {e}")),
        Ok(Err(p)) => ctx.violation(&name, format!("{name}: panicked: {p}")),
        Err(_) => ctx.violation(&name, format!("{name}: thread died")),
    }
    ctx.merge(l);
}

/// Number of tokens at all depths, without recursion.
fn walk(ts: TokenStream) -> (u64, u64) {
    let mut stack = vec![ts.into_iter()];
    let (mut n, mut depth) = (0, 1);
    while let Some(it) = stack.last_mut() {
        match it.next() {
            None => {
                stack.pop();
            }
            Some(t) => {
                n += 1;
                if let TokenTree::Group(g) = t {
                    stack.push(g.stream().into_iter());
                    depth = depth.max(stack.len() as u64);
                }
            }
        }
    }
    (n, depth)
}

fn nested(depth: usize, d: Delimiter, wide: bool) -> TokenStream {
    let mut ts = TokenStream::new();
    for _ in 0..depth {
        let g = Group::new(d, ts);
        ts = if wide {
            [Ident::new("a", Span::call_site()).into(), TokenTree::Group(g), Punct::new('+', Spacing::Alone).into(), Literal::u8_suffixed(1).into()].into_iter().collect()
        } else {
            TokenTree::Group(g).into()
        };
    }
    ts
}

/// The ways one level can hold the next: alone, after or before a sibling, beside another group.
const SHAPES: [&str; 7] = ["g", "ag", "ga", "aga", "gs", "sg", "sgsa"];

fn level(shape: &str, d: Delimiter, inner: TokenStream) -> TokenStream {
    let mut inner = Some(inner);
    shape
        .chars()
        .map(|c| match c {
            'g' => TokenTree::Group(Group::new(d, inner.take().unwrap())),
            's' => TokenTree::Group(Group::new(Delimiter::Bracket, TokenTree::from(Literal::u8_suffixed(1)).into())),
            _ => Ident::new("a", Span::call_site()).into(),
        })
        .collect()
}

/// Every pattern of levels with a period of at most `period`.
fn patterns(ctx: &Ctx, period: usize, depth: usize) {
    let alphabet: Vec<(&str, Delimiter, bool)> = SHAPES
        .iter()
        .flat_map(|&s| [(s, Delimiter::Parenthesis, false), (s, Delimiter::None, false), (s, Delimiter::Brace, true)])
        .collect();
    let mut all: Vec<Vec<usize>> = Vec::new();
    let mut layer: Vec<Vec<usize>> = vec![Vec::new()];
    for _ in 0..period {
        layer = layer.iter().flat_map(|v| (0..alphabet.len()).map(move |i| v.iter().copied().chain([i]).collect())).collect();
        all.extend(layer.iter().cloned());
    }
    ctx.space(format!("every pattern of level shapes of period at most {period} at depth {depth}, dropped as stream, group and iterator (a third of the shapes with a second handle to the level)"), all.len() as u64);
    let one = alphabet.len();
    for (k, v) in all.iter().take(one).chain(all.iter().take(one)).chain(all.iter()).enumerate().map(|(k, v)| (if k < 2 * one { k / one } else { k }, v)) {
        let pat: Vec<_> = v.iter().map(|&i| alphabet[i]).collect();
        case(ctx, format!("levels {pat:?} repeated to depth {depth}"), move || {
            let mut keep = Vec::new();
            let mut ts = TokenStream::new();
            for i in 0..depth {
                let (s, d, k) = pat[i % pat.len()];
                ts = level(s, d, ts);
                if k && i % 64 < 2 {
                    keep.push(ts.clone());
                }
            }
            match k % 3 {
                0 => drop(ts),
                1 => drop(Group::new(Delimiter::Parenthesis, ts)),
                _ => drop(ts.into_iter()),
            }
            drop(keep);
            Ok(k as u64)
        });
    }
}

pub fn run(ctx: &Ctx) {
    patterns(ctx, if ctx.thorough { 3 } else { 2 }, 16_000);
    let deep = if ctx.thorough { 1_000_000 } else { 150_000 };
    ctx.space(format!("nesting depth {deep} on a {STACK}-byte stack: parse, clone, walk, iterate, drop in every order"), 1);
    for (o, c) in [("(", ")"), ("[", "]"), ("{", "}"), ("(a ", "b)"), ("([{", "}])"), ("{é+", "'x'}"), ("(/**/", "//\n)")] {
        let n = deep / o.matches(['(', '[', '{']).count();
        let text = move || format!("{}x{}", o.repeat(n), c.repeat(n));
        case(ctx, format!("parse {n} nested {o:?} {c:?}, walk, drop"), move || {
            let ts: TokenStream = text().parse().map_err(|_| "rejected")?;
            let keep = ts.clone();
            let (_, d) = walk(ts);
            if d != deep as u64 / o.matches(['(', '[', '{']).count() as u64 * o.matches(['(', '[', '{']).count() as u64 + 1 {
                return Err(format!("depth {d}"));
            }
            drop(keep);
            Ok(d)
        });
        case(ctx, format!("parse {n} nested {o:?} unclosed"), move || match o.repeat(n).parse::<TokenStream>() {
            Ok(_) => Err("accepted".into()),
            Err(_) => Ok(1),
        });
        case(ctx, format!("parse {n} nested {o:?}, wrong closer at the bottom"), move || match format!("{}%{}", o.repeat(n), if c.contains(')') && !c.contains(']') { "]" } else { ")" }).parse::<TokenStream>() {
            Ok(_) => Err("accepted".into()),
            Err(_) => Ok(1),
        });
        case(ctx, format!("parse {n} nested {o:?} {c:?}, then garbage"), move || match (text() + "\\").parse::<TokenStream>() {
            Ok(_) => Err("accepted".into()),
            Err(_) => Ok(1),
        });
        case(ctx, format!("parse {n} nested {o:?} {c:?}, one closer too many"), move || match (text() + &c[c.len() - 1..]).parse::<TokenStream>() {
            Ok(_) => Err("accepted".into()),
            Err(_) => Ok(1),
        });
    }
    for (n, name) in [(Delimiter::Parenthesis, "paren"), (Delimiter::None, "none"), (Delimiter::Brace, "brace")] {
        for wide in [false, true] {
            let tag = format!("{deep} groups nested by construction ({name}{})", if wide { ", with siblings" } else { "" });
            case(ctx, format!("{tag}: drop stream"), move || {
                drop(nested(deep, n, wide));
                Ok(1)
            });
            case(ctx, format!("{tag}: drop the token tree"), move || {
                let t = nested(deep, n, wide).into_iter().next();
                drop(t);
                Ok(1)
            });
            case(ctx, format!("{tag}: drop the group"), move || {
                drop(Group::new(n, nested(deep, n, wide)));
                Ok(1)
            });
            case(ctx, format!("{tag}: drop a fresh iterator"), move || {
                drop(nested(deep, n, wide).into_iter());
                Ok(1)
            });
            case(ctx, format!("{tag}: drop a half-used iterator"), move || {
                let mut it = nested(deep, n, wide).into_iter();
                let x = it.next();
                drop(it);
                drop(x);
                Ok(1)
            });
            case(ctx, format!("{tag}: two clones dropped one after the other"), move || {
                let a = nested(deep, n, wide);
                let b = a.clone();
                drop(a);
                let r = walk(b.clone());
                drop(b);
                Ok(r.0)
            });
            case(ctx, format!("{tag}: iterator of a shared stream, then both dropped"), move || {
                let a = nested(deep, n, wide);
                let mut it = a.clone().into_iter();
                let x = it.next();
                drop(a);
                drop(it);
                drop(x);
                Ok(1)
            });
            case(ctx, format!("{tag}: extend, collect, reset spans, contents"), move || {
                let a = nested(deep, n, wide);
                let mut b = a.clone();
                b.extend([a.clone()]);
                let mut c: TokenStream = [a.clone(), b.clone()].into_iter().collect();
                c.extend(a.clone());
                drop(b);
                let mut g = Group::new(n, c);
                g.set_span(Span::call_site());
                let s = g.stream();
                drop(g);
                drop(a);
                Ok(walk(s).0)
            });
            case(ctx, format!("{tag}: a handle to every level, dropped outside in"), move || {
                let mut v = Vec::new();
                let mut ts = TokenStream::new();
                for _ in 0..deep {
                    v.push(ts.clone());
                    ts = TokenTree::Group(Group::new(n, ts)).into();
                }
                drop(ts);
                while let Some(x) = v.pop() {
                    drop(x);
                }
                Ok(1)
            });
            case(ctx, format!("{tag}: a handle to every other level, dropped inside out"), move || {
                let mut v = Vec::new();
                let mut ts = TokenStream::new();
                for i in 0..deep {
                    if i % 2 == 0 {
                        v.push(ts.clone());
                    }
                    ts = TokenTree::Group(Group::new(n, ts)).into();
                }
                v.push(ts);
                for x in v {
                    drop(x);
                }
                Ok(1)
            });
            case(ctx, format!("{tag}: panic while extending drops the new part"), move || {
                let a = nested(deep, n, wide);
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                    let mut s = a;
                    s.extend(nested(deep, n, wide).into_iter().chain(std::iter::once_with(|| std::panic::resume_unwind(Box::new(())))));
                    s
                }));
                drop(r);
                Ok(1)
            });
        }
    }
    // sizes
    let big = if ctx.thorough { 1_000_000 } else { 100_000 };
    let forms = spaces::sizes(big);
    ctx.space(format!("every repeatable construct at size {big}"), forms.len() as u64);
    for f in forms {
        let name = f.name.clone();
        let gen = f.gen;
        case(ctx, format!("{name} at {big}"), move || {
            let mut s = String::new();
            gen(big as u64, &mut s);
            let a = match s.parse::<TokenStream>() {
                Ok(ts) => walk(ts).0,
                Err(e) => {
                    let _ = e.span();
                    0
                }
            };
            let b = s.parse::<Literal>().is_ok();
            Ok(a * 2 + b as u64)
        });
    }
}
