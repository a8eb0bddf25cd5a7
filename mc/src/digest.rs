//! C17: a digest of every outcome, block by block, to be compared between build configurations.
//! `mc C17 <tier>` prints one line per block; `mc C17 <tier> list P B` prints a block's outcomes.

use crate::cmp::delim;
use crate::ctx::{guard, Ctx};
use crate::{ops, spaces};
use proc_macro2::*;
use std::fmt::Write;
use std::hash::Hasher;
use std::io::Write as _;
use std::sync::Mutex;

const BLOCK: u64 = 4096;

pub struct Part {
    pub name: String,
    pub n: u64,
    /// (case, outcome) of one index
    pub run: Box<dyn Fn(u64, &mut String, &mut String) + Send + Sync>,
}

/// Everything observable of a stream except spans.
pub fn observe(ts: TokenStream, o: &mut String) {
    let mut stack = vec![ts.into_iter()];
    while let Some(it) = stack.last_mut() {
        match it.next() {
            None => {
                stack.pop();
                o.push_str(" .");
            }
            Some(TokenTree::Group(g)) => {
                let _ = write!(o, " {}", delim(g.delimiter()) as char);
                stack.push(g.stream().into_iter());
            }
            Some(TokenTree::Ident(i)) => {
                let _ = write!(o, " i{i}");
            }
            Some(TokenTree::Punct(p)) => {
                let _ = write!(o, " {}{}", if p.spacing() == Spacing::Joint { "j" } else { "p" }, p.as_char());
            }
            Some(TokenTree::Literal(l)) => {
                let _ = write!(o, " l{l}");
            }
        }
    }
}

fn source(s: &str, o: &mut String) {
    match guard(|| s.parse::<TokenStream>()) {
        Err(_) => o.push_str("panic"),
        Ok(Err(e)) => {
            let _ = write!(o, "error {e}");
        }
        Ok(Ok(ts)) => {
            let _ = write!(o, "{ts}|{}", ts.is_empty());
            observe(ts, o);
        }
    }
    match guard(|| s.parse::<Literal>()) {
        Err(_) => o.push_str("|panic"),
        Ok(Err(e)) => {
            let _ = write!(o, "|error {e}");
        }
        Ok(Ok(l)) => {
            let _ = write!(o, "|{l}");
        }
    }
}

fn made<D: std::fmt::Display>(o: &mut String, f: impl FnOnce() -> D) {
    match guard(|| f().to_string()) {
        Err(_) => o.push_str("|panic"),
        Ok(s) => {
            let _ = write!(o, "|{s}");
        }
    }
}

fn word(s: &str, o: &mut String) {
    made(o, || Ident::new(s, Span::call_site()));
    made(o, || Ident::new_raw(s, Span::mixed_site()));
    made(o, || Literal::string(s));
    made(o, || Literal::byte_string(s.as_bytes()));
    made(o, || std::ffi::CString::new(s).map(|c| Literal::c_string(&c).to_string()).unwrap_or_default());
    if let Some(c) = s.chars().next() {
        made(o, || Literal::character(c));
        made(o, || Punct::new(c, Spacing::Joint));
        made(o, || Literal::byte_character(c as u8));
    }
    // an identifier against parsed ones and strings
    let r = guard(|| {
        let i = Ident::new(s, Span::call_site());
        let j = match s.parse::<TokenStream>().unwrap().into_iter().next() {
            Some(TokenTree::Ident(j)) => j,
            _ => return "not one identifier".into(),
        };
        format!("{}{}{}{:?}{:?}{}", i == j, i == *s, i == "r#a", i.cmp(&j), j.cmp(&Ident::new("r", Span::call_site())), crate::ctx::hash(&i) == crate::ctx::hash(&j))
    });
    let _ = write!(o, "|{}", r.unwrap_or("panic".into()));
}

fn numbers(bits: u64, o: &mut String) {
    macro_rules! ints {
        ($($t:ty, $s:ident, $u:ident;)*) => {$(
            made(o, || Literal::$s(bits as $t));
            made(o, || Literal::$u(bits as $t));
        )*};
    }
    ints! {
        u8, u8_suffixed, u8_unsuffixed; u16, u16_suffixed, u16_unsuffixed; u32, u32_suffixed, u32_unsuffixed;
        u64, u64_suffixed, u64_unsuffixed; u128, u128_suffixed, u128_unsuffixed; usize, usize_suffixed, usize_unsuffixed;
        i8, i8_suffixed, i8_unsuffixed; i16, i16_suffixed, i16_unsuffixed; i32, i32_suffixed, i32_unsuffixed;
        i64, i64_suffixed, i64_unsuffixed; i128, i128_suffixed, i128_unsuffixed; isize, isize_suffixed, isize_unsuffixed;
    }
    let (f, d) = (f32::from_bits(bits as u32), f64::from_bits(bits.rotate_right(12)));
    made(o, || Literal::f32_suffixed(f));
    made(o, || Literal::f32_unsuffixed(f));
    made(o, || Literal::f64_suffixed(d));
    made(o, || Literal::f64_unsuffixed(d));
    // in a stream
    made(o, || TokenStream::from_iter([TokenTree::from(Literal::i32_suffixed(bits as i32)), Literal::f64_suffixed(if d.is_finite() { d } else { 0.5 }).into()]));
}

fn built(mut i: u64, len: u64, o: &mut String) {
    // trees: sequences of `len` tokens, possibly wrapped
    const K: u64 = 17;
    let wrap = i % 5;
    i /= 5;
    let mut v: Vec<TokenTree> = Vec::new();
    for _ in 0..len {
        v.push(match i % K {
            0 => Ident::new("a", Span::call_site()).into(),
            1 => Ident::new_raw("b", Span::call_site()).into(),
            2 => Punct::new('+', Spacing::Joint).into(),
            3 => Punct::new('-', Spacing::Alone).into(),
            4 => Punct::new('\'', Spacing::Joint).into(),
            5 => Punct::new('/', Spacing::Alone).into(),
            6 => Punct::new('.', Spacing::Joint).into(),
            7 => Literal::i8_suffixed(-3).into(),
            8 => Literal::f64_unsuffixed(-1.0).into(),
            9 => Literal::string("x\n\0y").into(),
            10 => Literal::u16_unsuffixed(7).into(),
            11 => Group::new(Delimiter::Brace, TokenStream::new()).into(),
            12 => Group::new(Delimiter::Brace, "a".parse().unwrap()).into(),
            13 => Group::new(Delimiter::None, TokenTree::from(Literal::i32_unsuffixed(-1)).into()).into(),
            14 => Group::new(Delimiter::None, TokenStream::new()).into(),
            15 => Group::new(Delimiter::Parenthesis, "#".parse().unwrap()).into(),
            _ => Group::new(Delimiter::Bracket, TokenStream::new()).into(),
        });
        i /= K;
    }
    let single: Vec<String> = v.iter().map(|t| t.to_string()).collect();
    let mut ts: TokenStream = v.into_iter().collect();
    if wrap > 0 {
        let d = [Delimiter::Parenthesis, Delimiter::Bracket, Delimiter::Brace, Delimiter::None][wrap as usize - 1];
        ts = TokenTree::from(Group::new(d, ts)).into();
    }
    let text = ts.to_string();
    let _ = write!(o, "{single:?}|{text}|");
    observe(ts, o);
    source(&text, o);
}

/// The outcome with every escape of a non-ASCII character replaced by the character: which of them
/// the standard library considers printable changes with its version.
fn canon(o: &str, out: &mut String) {
    let mut rest = o;
    while let Some(p) = rest.find("\\u{") {
        out.push_str(&rest[..p]);
        let tail = &rest[p + 3..];
        let c = tail.find('}').and_then(|e| u32::from_str_radix(&tail[..e], 16).ok().map(|v| (e, v))).filter(|x| x.1 >= 0x80).and_then(|(e, v)| Some((e, char::from_u32(v)?)));
        match c {
            Some((e, c)) => {
                out.push(c);
                rest = &tail[e + 1..];
            }
            None => {
                out.push_str("\\u{");
                rest = tail;
            }
        }
    }
    out.push_str(rest);
}

/// Templates for every scalar in the quick tier.
const FEW: &[&str] = &["\u{e000}", "a\u{e000}", "\"\u{e000}\"", "'\u{e000}'", "b\"\u{e000}\"", "///\u{e000}", "1\u{e000}", "'\u{e000}", "r#\u{e000}", "a \u{e000} b", "/*\u{e000}*/", "\"\\\n\u{e000}\""];

pub fn parts(deep: bool) -> Vec<Part> {
    let mut v = Vec::new();
    let mut all = spaces::lexer_spaces(deep);
    if !deep {
        all.retain(|s| !s.name.starts_with("every scalar"));
        all.extend(spaces::scalars(FEW));
    }
    for sp in all {
        let g = sp.gen;
        v.push(Part { name: format!("parse {}", sp.name), n: sp.n, run: Box::new(move |i, c, o| { g(i, c); source(c, o) }) });
    }
    for sp in spaces::scalars(if deep { &["\u{e000}", "a\u{e000}"] } else { &["\u{e000}"] }).into_iter().chain(spaces::words_upto("words", "", spaces::GENERAL, 3, "")) {
        let g = sp.gen;
        v.push(Part { name: format!("construct from {}", sp.name), n: sp.n, run: Box::new(move |i, c, o| { g(i, c); word(c, o) }) });
    }
    v.push(Part { name: "numeric literals around every power of two".into(), n: 64 * 33, run: Box::new(|i, c, o| {
        let x = (1u64 << (i / 33)).wrapping_add((i % 33).wrapping_sub(16));
        let _ = write!(c, "{x:#x}");
        numbers(x, o)
    }) });
    v.push(Part { name: "numeric literals of every 16-bit pattern at every 16-bit place".into(), n: 4 << 16, run: Box::new(|i, c, o| {
        let x = (i & 0xffff) << (i >> 16) * 16;
        let _ = write!(c, "{x:#x}");
        numbers(x, o)
    }) });
    for len in 0..=if deep { 4 } else { 3 } {
        v.push(Part { name: format!("constructed streams of {len} tokens, wrapped or not"), n: 5 * 17u64.pow(len), run: Box::new(move |i, c, o| {
            let _ = write!(c, "constructed {len}/{i}");
            built(i, len as u64, o)
        }) });
    }
    for (lvl, panics, len) in [(1, true, 2u32), (0, false, 3)] {
        let all = ops::ops(lvl, panics);
        v.push(Part { name: format!("every history of {len} stream operations out of {}", all.len()), n: (all.len() as u64).pow(len), run: Box::new(move |i, c, o| {
            let h = ops::decode(&all, i, len);
            let _ = write!(c, "{h:?}");
            let _ = write!(o, "{:?}", guard(|| ops::run(&h)).map_err(|_| "panic"));
        }) });
    }
    v
}

pub fn run(ctx: &Ctx, args: &[String]) {
    let parts = parts(ctx.thorough);
    if args.first().map(String::as_str) == Some("list") {
        let (p, b): (usize, u64) = (args[1].parse().unwrap(), args[2].parse().unwrap());
        let part = &parts[p];
        let mut so = std::io::stdout().lock();
        for i in b * BLOCK..((b + 1) * BLOCK).min(part.n) {
            let (mut c, mut o) = (String::new(), String::new());
            (part.run)(i, &mut c, &mut o);
            let mut g = String::new();
            canon(&o, &mut g);
            let _ = writeln!(so, "{}\t{}\t{}", crate::ctx::js(&c), crate::ctx::js(&o), crate::ctx::js(&g));
        }
        let _ = so.flush();
        std::process::exit(0);
    }
    let mut blocks = Vec::new();
    for (p, part) in parts.iter().enumerate() {
        ctx.space(part.name.clone(), part.n);
        blocks.extend((0..part.n.div_ceil(BLOCK)).map(|b| (p, b)));
    }
    let out: Mutex<Vec<(usize, u64, u64, u64)>> = Mutex::default();
    ctx.par(blocks.len() as u64, 1, |k, l| {
        let (p, b) = blocks[k as usize];
        let part = &parts[p];
        let mut h = std::collections::hash_map::DefaultHasher::new();
        let mut g = h.clone();
        let (mut c, mut o, mut p2) = (String::new(), String::new(), String::new());
        for i in b * BLOCK..((b + 1) * BLOCK).min(part.n) {
            c.clear();
            o.clear();
            (part.run)(i, &mut c, &mut o);
            h.write(o.as_bytes());
            h.write_u8(255);
            p2.clear();
            canon(&o, &mut p2);
            g.write(p2.as_bytes());
            g.write_u8(255);
            l.transitions += 1;
        }
        l.validated += 1;
        out.lock().unwrap().push((p, b, h.finish(), g.finish()));
    });
    let mut v = out.into_inner().unwrap();
    v.sort();
    let mut so = std::io::stdout().lock();
    for (p, b, h, g) in v {
        let _ = writeln!(so, "D {p} {b} {h:016x} {g:016x}");
    }
}
