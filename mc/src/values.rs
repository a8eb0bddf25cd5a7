//! C05 (literal constructors), C13 (value accessors), C12 (identifiers and punctuation).

use crate::cmp;
use crate::ctx::{guard, hash, Ctx, Local, CURRENT};
use crate::lexing::is_one_literal;
use crate::reflex::{self, Mode};
use crate::spaces::scalar;
use proc_macro2::{Ident, Literal, Punct, Spacing, Span, TokenStream, TokenTree};

const SCALARS: u64 = 0x110000 - 0x800;

fn case(s: &str) {
    CURRENT.with(|c| *c.borrow_mut() = s.to_string());
}

/// The text must be exactly one valid literal, and parse back as itself.
fn one_literal(ctx: &Ctx, what: &str, text: &str) -> bool {
    if is_one_literal(text.strip_prefix('-').unwrap_or(text)) != Some(true) {
        ctx.violation(what, format!("{what} printed as {text:?}, which is not a valid literal"));
        return false;
    }
    match text.parse::<Literal>() {
        Ok(l) if cmp::prints_as(&l, text) => {}
        _ => {
            ctx.violation(what, format!("{what} printed as {text:?}, which does not parse back as that literal"));
            return false;
        }
    }
    if !text.starts_with('-') {
        let ok = match text.parse::<TokenStream>() {
            Ok(ts) => {
                let v: Vec<_> = ts.into_iter().collect();
                matches!(&v[..], [TokenTree::Literal(l)] if cmp::prints_as(l, text))
            }
            Err(_) => false,
        };
        if !ok {
            ctx.violation(what, format!("{what} printed as {text:?}, which does not parse as one token"));
            return false;
        }
    }
    true
}

/// Value of a cooked literal with the given prefix and quote.
fn cooked(text: &str, prefix: &str, quote: char, mode: Mode) -> Option<Vec<u8>> {
    let body = text.strip_prefix(prefix)?.strip_prefix(quote)?.strip_suffix(quote)?;
    let body: Vec<char> = body.chars().collect();
    let mut out = Vec::new();
    let mut open = false;
    reflex::unescape(&body, mode, &mut out, &mut open).ok()?;
    Some(out)
}

fn check_string(ctx: &Ctx, l: &mut Local, s: &str) {
    let text = Literal::string(s).to_string();
    l.transitions += 1;
    l.validated += 1;
    if one_literal(ctx, &format!("Literal::string({s:?})"), &text) && cooked(&text, "", '"', Mode::Str).as_deref() != Some(s.as_bytes()) {
        ctx.violation(s, format!("Literal::string({s:?}) printed as {text}, a different value"));
    }
}
fn check_bytes(ctx: &Ctx, l: &mut Local, b: &[u8]) {
    let text = Literal::byte_string(b).to_string();
    l.transitions += 1;
    l.validated += 1;
    if one_literal(ctx, &format!("Literal::byte_string({b:?})"), &text) && cooked(&text, "b", '"', Mode::Byte).as_deref() != Some(b) {
        ctx.violation(format!("{b:?}"), format!("Literal::byte_string({b:?}) printed as {text}, a different value"));
    }
}
fn check_cstr(ctx: &Ctx, l: &mut Local, b: &[u8]) {
    let mut z = b.to_vec();
    z.push(0);
    let Ok(c) = std::ffi::CStr::from_bytes_with_nul(&z) else { return };
    let text = Literal::c_string(c).to_string();
    l.transitions += 1;
    l.validated += 1;
    if one_literal(ctx, &format!("Literal::c_string({b:?})"), &text) && cooked(&text, "c", '"', Mode::C).as_deref() != Some(b) {
        ctx.violation(format!("{b:?}"), format!("Literal::c_string({b:?}) printed as {text}, a different value"));
    }
}

const ESC: &[&str] = &["\0", "\t", "\n", "\r", "\"", "'", "\\", "0", "7", "8", "9", "a", "x", "u", "{", "}", "\u{7f}", "é", "\u{301}", "\u{200e}", "😀", "\u{feff}", "\x1b", " "];
const ESCB: &[u8] = &[0, 9, 10, 13, b'"', b'\'', b'\\', b'0', b'7', b'8', b'a', b'x', 0x1b, 0x7f, 0x80, 0xc3, 0xa9, 0xe2, 0x80, 0x8e, 0xf0, 0x9f, 0x98, 0xff, 0xed, 0xa0];

fn words<T: Copy>(alpha: &[T], len: u32, mut i: u64) -> Vec<T> {
    let k = alpha.len() as u64;
    (0..len)
        .map(|_| {
            let x = alpha[(i % k) as usize];
            i /= k;
            x
        })
        .collect()
}

fn ints() -> Vec<i128> {
    // every power of two and ten with neighbours, repeated-digit patterns, both signs
    let mut v = vec![0, i128::MAX, i128::MIN];
    let mut p: i128 = 1;
    for _ in 0..127 {
        for d in -2..=2 {
            v.push(p.wrapping_add(d));
            v.push(p.wrapping_neg().wrapping_add(d));
        }
        p = p.wrapping_mul(2);
    }
    let mut p: i128 = 1;
    for _ in 0..38 {
        for m in 1..=9 {
            for d in -1..=1 {
                v.push(p.wrapping_mul(m).wrapping_add(d));
                v.push(p.wrapping_mul(-m).wrapping_add(d));
            }
        }
        p = p.wrapping_mul(10);
    }
    v.sort();
    v.dedup();
    v
}

macro_rules! int_check {
    ($ctx:expr, $l:expr, $n:expr, $($t:ident $suf:ident $uns:ident),*) => {$(
        if let Ok(n) = <$t>::try_from($n) { int_one!($ctx, $l, n, $t $suf $uns); }
    )*};
}
macro_rules! int_one {
    ($ctx:expr, $l:expr, $n:expr, $t:ident $suf:ident $uns:ident) => {{
        let n: $t = $n;
        for (text, suffix, f) in [(Literal::$suf(n).to_string(), stringify!($t), stringify!($suf)), (Literal::$uns(n).to_string(), "", stringify!($uns))] {
            $l.transitions += 1;
            $l.validated += 1;
            let what = format!("Literal::{}({})", f, n);
            let digits = text.strip_suffix(suffix).unwrap_or("");
            let plain = digits.strip_prefix('-').unwrap_or(digits);
            if !one_literal($ctx, &what, &text) { continue; }
            if plain.is_empty() || !plain.bytes().all(|b| b.is_ascii_digit()) || digits.parse::<$t>() != Ok(n) {
                $ctx.violation(what.clone(), format!("{what} printed as {text}, a different value or suffix"));
            }
        }
    }};
}

fn f32_check(ctx: &Ctx, l: &mut Local, f: f32) {
    float_text(ctx, l, &format!("f32 {:#x}", f.to_bits()), &Literal::f32_suffixed(f).to_string(), "f32", &|s| s.parse::<f32>().map(f32::to_bits) == Ok(f.to_bits()), false);
    float_text(ctx, l, &format!("f32 {:#x}", f.to_bits()), &Literal::f32_unsuffixed(f).to_string(), "", &|s| s.parse::<f32>().map(f32::to_bits) == Ok(f.to_bits()), true);
}
fn f64_check(ctx: &Ctx, l: &mut Local, f: f64) {
    float_text(ctx, l, &format!("f64 {:#x}", f.to_bits()), &Literal::f64_suffixed(f).to_string(), "f64", &|s| s.parse::<f64>().map(f64::to_bits) == Ok(f.to_bits()), false);
    float_text(ctx, l, &format!("f64 {:#x}", f.to_bits()), &Literal::f64_unsuffixed(f).to_string(), "", &|s| s.parse::<f64>().map(f64::to_bits) == Ok(f.to_bits()), true);
}
fn float_text(ctx: &Ctx, l: &mut Local, what: &str, text: &str, suffix: &str, same: &dyn Fn(&str) -> bool, must_look_float: bool) {
    l.transitions += 1;
    l.validated += 1;
    let Some(num) = text.strip_suffix(suffix) else {
        ctx.violation(what, format!("{what} printed as {text}: suffix missing"));
        return;
    };
    let plain = num.strip_prefix('-').unwrap_or(num);
    // decimal digits, at most one point with digits on both sides, optional exponent
    let (mant, exp) = match plain.find(['e', 'E']) {
        Some(i) => (&plain[..i], Some(&plain[i + 1..])),
        None => (plain, None),
    };
    let digits = |s: &str| !s.is_empty() && s.bytes().all(|b| b.is_ascii_digit());
    let (int, frac) = match mant.split_once('.') {
        Some((a, b)) => (a, Some(b)),
        None => (mant, None),
    };
    let ok = digits(int)
        && frac.map_or(true, digits)
        && exp.map_or(true, |e| digits(e.strip_prefix(['+', '-']).unwrap_or(e)))
        && (!must_look_float || frac.is_some() || exp.is_some())
        && same(num);
    if !ok {
        ctx.violation(what, format!("{what} printed as {text}: not a float literal of that value"));
    }
}

pub fn c05(ctx: &Ctx) {
    // characters
    ctx.space("every char: character, string(c), string in context", SCALARS);
    ctx.par(SCALARS.div_ceil(1024), 4, |blk, l| {
        for i in blk * 1024..((blk + 1) * 1024).min(SCALARS) {
            let c = scalar(i);
            case(&format!("char {:?}", c));
            let text = Literal::character(c).to_string();
            l.transitions += 1;
            l.validated += 1;
            if i % 64 == 0 {
                l.states.insert(hash(&text));
            }
            let mut buf = [0; 4];
            let bytes = c.encode_utf8(&mut buf).as_bytes().to_vec();
            if one_literal(ctx, &format!("Literal::character({c:?})"), &text) && cooked(&text, "", '\'', Mode::Str) != Some(bytes.clone()) {
                ctx.violation(format!("{c:?}"), format!("Literal::character({c:?}) printed as {text}, a different value"));
            }
            for s in [c.to_string(), format!("a{c}b"), format!("\0{c}"), format!("{c}7"), format!("\u{301}{c}\u{301}")] {
                check_string(ctx, l, &s);
            }
            if c != '\0' {
                check_cstr(ctx, l, &bytes);
                let mut v = vec![0xff];
                v.extend(&bytes);
                v.push(0x80);
                check_cstr(ctx, l, &v);
            }
        }
    });
    // short strings over the escape alphabet
    for len in 0..=(if ctx.thorough { 5 } else { 4 }) {
        let n = (ESC.len() as u64).pow(len);
        ctx.space(format!("strings of {len} escape-relevant characters: string, c_string"), n);
        ctx.par(n.div_ceil(1024), 4, |blk, l| {
            for i in blk * 1024..((blk + 1) * 1024).min(n) {
                let s = words(ESC, len, i).concat();
                case(&format!("string {s:?}"));
                check_string(ctx, l, &s);
                check_cstr(ctx, l, s.as_bytes());
            }
        });
    }
    // bytes: every byte, every pair, triples over the alphabet
    ctx.space("every byte, every pair of bytes: byte_character, byte_string, c_string", 65536 + 256);
    ctx.par(256, 8, |a, l| {
        let a = a as u8;
        case(&format!("byte {a}"));
        let text = Literal::byte_character(a).to_string();
        l.transitions += 1;
        l.validated += 1;
        l.states.insert(hash(&text));
        if one_literal(ctx, &format!("Literal::byte_character({a})"), &text) && cooked(&text, "b", '\'', Mode::Byte) != Some(vec![a]) {
            ctx.violation(format!("{a}"), format!("Literal::byte_character({a}) printed as {text}, a different value"));
        }
        check_bytes(ctx, l, &[a]);
        check_cstr(ctx, l, &[a]);
        for b in 0..=255u8 {
            case(&format!("bytes {a} {b}"));
            check_bytes(ctx, l, &[a, b]);
            check_cstr(ctx, l, &[a, b]);
            check_bytes(ctx, l, &[b'a', a, b, b'0']);
            check_cstr(ctx, l, &[b'a', a, b, b'0']);
        }
    });
    for len in 3..=(if ctx.thorough { 5 } else { 4 }) {
        let n = (ESCB.len() as u64).pow(len);
        ctx.space(format!("strings of {len} escape-relevant bytes: byte_string, c_string"), n);
        ctx.par(n.div_ceil(1024), 4, |blk, l| {
            for i in blk * 1024..((blk + 1) * 1024).min(n) {
                let b = words(ESCB, len, i);
                case(&format!("bytes {b:?}"));
                check_bytes(ctx, l, &b);
                check_cstr(ctx, l, &b);
            }
        });
    }
    // lengths
    let lens: Vec<usize> = (0..=1100).chain((11..=if ctx.thorough { 20 } else { 16 }).flat_map(|b| [(1 << b) - 1, 1 << b, (1 << b) + 1])).collect();
    ctx.space("every length 0..=1100 and around every larger power of two of string, byte_string, c_string", lens.len() as u64);
    ctx.par(lens.len() as u64, 1, |n, l| {
        let n = lens[n as usize];
        for unit in ["a", "é", "\n", "\u{1}", "\0"] {
            let s = unit.repeat(n);
            case(&format!("{unit:?} x {n}"));
            check_string(ctx, l, &s);
            check_bytes(ctx, l, s.as_bytes());
            check_cstr(ctx, l, s.as_bytes());
        }
        check_bytes(ctx, l, &vec![0xfe; n]);
        check_cstr(ctx, l, &vec![0xe2; n]);
    });
    // integers
    ctx.space("every value of the 8- and 16-bit integer constructors", 2 * (256 + 65536));
    ctx.par(256, 4, |hi, l| {
        for lo in 0..256u64 {
            let v = (hi * 256 + lo) as u16;
            case(&format!("16-bit {v}"));
            int_one!(ctx, l, v, u16 u16_suffixed u16_unsuffixed);
            int_one!(ctx, l, v as i16, i16 i16_suffixed i16_unsuffixed);
            if hi == 0 {
                int_one!(ctx, l, v as u8, u8 u8_suffixed u8_unsuffixed);
                int_one!(ctx, l, v as u8 as i8, i8 i8_suffixed i8_unsuffixed);
            }
        }
    });
    let iv = ints();
    ctx.space("boundary integers of every integer constructor", iv.len() as u64 * 24);
    ctx.par(iv.len() as u64, 16, |i, l| {
        let n = iv[i as usize];
        case(&format!("int {n}"));
        l.states.insert(hash(n));
        int_check!(ctx, l, n, u8 u8_suffixed u8_unsuffixed, u16 u16_suffixed u16_unsuffixed, u32 u32_suffixed u32_unsuffixed,
            u64 u64_suffixed u64_unsuffixed, u128 u128_suffixed u128_unsuffixed, usize usize_suffixed usize_unsuffixed,
            i8 i8_suffixed i8_unsuffixed, i16 i16_suffixed i16_unsuffixed, i32 i32_suffixed i32_unsuffixed,
            i64 i64_suffixed i64_unsuffixed, i128 i128_suffixed i128_unsuffixed, isize isize_suffixed isize_unsuffixed);
        int_one!(ctx, l, n as u128, u128 u128_suffixed u128_unsuffixed);
        int_one!(ctx, l, u128::MAX - n.unsigned_abs(), u128 u128_suffixed u128_unsuffixed);
    });
    // floats
    if ctx.thorough {
        ctx.space("every finite f32 (both constructors)", 1 << 32);
        ctx.par(1 << 16, 4, |hi, l| {
            for lo in 0..1u32 << 16 {
                let f = f32::from_bits((hi as u32) << 16 | lo);
                if f.is_finite() {
                    if lo == 0 {
                        case(&format!("f32 {:#x}..", f.to_bits()));
                    }
                    f32_check(ctx, l, f);
                }
            }
        });
    }
    // every exponent and sign, mantissas with up to two bits set or all-ones tails, small integers
    ctx.space("f32 and f64: every sign and exponent with mantissas of one or two set bits and all-ones tails", 256 + 2048);
    ctx.par(2048, 8, |e, l| {
        let mants64: Vec<u64> = (0..52).flat_map(|i| (i..52).map(move |j| 1u64 << i | 1u64 << j)).chain((0..=52).map(|i| (1u64 << i) - 1)).chain((0..52).map(|i| ((1u64 << 52) - 1) ^ (1 << i))).collect();
        for s in 0..2u64 {
            for &m in &mants64 {
                let f = f64::from_bits(s << 63 | e << 52 | m);
                if f.is_finite() {
                    case(&format!("f64 {:#x}", f.to_bits()));
                    f64_check(ctx, l, f);
                }
            }
            if e < 256 {
                for i in 0..23 {
                    for j in i..23 {
                        for m in [1u32 << i | 1 << j, (1 << i) - 1, ((1 << 23) - 1) ^ (1 << i) ^ (1 << j)] {
                            let f = f32::from_bits((s as u32) << 31 | (e as u32) << 23 | m & 0x7fffff);
                            if f.is_finite() {
                                case(&format!("f32 {:#x}", f.to_bits()));
                                f32_check(ctx, l, f);
                            }
                        }
                    }
                }
            }
        }
        l.states.insert(hash(("exp", e)));
    });
    ctx.space("f32 and f64: n/8 for every |n| <= 200000", 400001);
    ctx.par(400, 4, |b, l| {
        for k in 0..=1000 {
            let n = b as i64 * 1000 + k - 200000;
            case(&format!("float {n}/8"));
            f64_check(ctx, l, n as f64 / 8.0);
            f32_check(ctx, l, n as f32 / 8.0);
            f64_check(ctx, l, n as f64 / 1000.0);
            f64_check(ctx, l, n as f64 * 1e18);
        }
    });
    // non-finite floats are refused
    let mut n = 0;
    let mut l = Local::default();
    for e in 0..52 {
        for s in 0..2u64 {
            for m in [0u64, 1 << e, (1 << e) - 1] {
                let f = f64::from_bits(s << 63 | 0x7ff << 52 | m);
                let g = f32::from_bits((s as u32) << 31 | 0xff << 23 | (m as u32 & 0x7fffff));
                for (w, r) in [
                    ("f64_suffixed", guard(|| Literal::f64_suffixed(f).to_string())),
                    ("f64_unsuffixed", guard(|| Literal::f64_unsuffixed(f).to_string())),
                    ("f32_suffixed", guard(|| Literal::f32_suffixed(g).to_string())),
                    ("f32_unsuffixed", guard(|| Literal::f32_unsuffixed(g).to_string())),
                ] {
                    n += 1;
                    l.transitions += 1;
                    l.validated += 1;
                    if let Ok(t) = r {
                        ctx.violation(format!("{w}({f})"), format!("{w} accepted a non-finite float, printing {t}"));
                    }
                }
            }
        }
    }
    ctx.merge(l);
    ctx.space("non-finite floats with every single-bit payload", n);
    for s in ["\0007", "\u{301}é", "'\"\\"] {
        ctx.sample(format!("string({s:?}) -> {}", Literal::string(s)));
    }
    ctx.sample(format!("f32_unsuffixed(1e10) -> {}", Literal::f32_unsuffixed(1e10)));
    ctx.sample(format!("byte_string([0,b'1',255]) -> {}", Literal::byte_string(&[0, b'1', 255])));
}

pub fn c12(ctx: &Ctx) {
    use reflex::{id_cont, id_start};
    let valid = |s: &str| {
        let mut it = s.chars();
        it.next().map_or(false, id_start) && it.all(id_cont)
    };
    let reserved = ["_", "super", "self", "Self", "crate"];
    let check = |s: &str, l: &mut Local| {
        case(s);
        let v = valid(s);
        let span = Span::call_site();
        let a = guard(|| Ident::new(s, span).to_string());
        let b = guard(|| Ident::new_raw(s, span).to_string());
        l.transitions += 2;
        l.validated += 2;
        let vr = v && !reserved.contains(&s);
        match (v, a) {
            (true, Ok(t)) if t == s => {}
            (false, Err(_)) => {}
            (_, r) => ctx.violation(s, format!("Ident::new({s:?}) gave {r:?}, valid identifier: {v}")),
        }
        match (vr, b) {
            (true, Ok(t)) if t == format!("r#{s}") => {}
            (false, Err(_)) => {}
            (_, r) => ctx.violation(s, format!("Ident::new_raw({s:?}) gave {r:?}, valid raw identifier: {vr}")),
        }
        if l.states.len() < 4096 {
            l.states.insert(hash((v, vr, s.chars().map(|c| (id_start(c), id_cont(c), c.is_ascii())).collect::<Vec<_>>())));
        }
    };
    ctx.space("every scalar as first, only, middle and last character of an identifier", SCALARS * 5);
    ctx.par(SCALARS.div_ceil(1024), 4, |blk, l| {
        for i in blk * 1024..((blk + 1) * 1024).min(SCALARS) {
            let c = scalar(i);
            for s in [format!("{c}"), format!("{c}a"), format!("a{c}"), format!("a{c}b"), format!("_{c}")] {
                check(&s, l);
            }
            // punctuation
            for sp in [Spacing::Alone, Spacing::Joint] {
                case(&format!("Punct {c:?}"));
                l.transitions += 1;
                l.validated += 1;
                let ok = reflex::PUNCT.contains(c);
                match guard(|| {
                    let p = Punct::new(c, sp);
                    (p.as_char(), p.spacing(), p.to_string())
                }) {
                    Ok((ch, s2, t)) if ok && ch == c && s2 == sp && t == c.to_string() => {}
                    Err(_) if !ok => {}
                    r => ctx.violation(format!("{c:?}"), format!("Punct::new({c:?}, {sp:?}) gave {r:?}, valid: {ok}")),
                }
            }
        }
    });
    let alpha = ["a", "_", "0", "9", "r", "#", "'", "-", " ", "é", "\u{301}", ".", "r#", "\0", "Z", "self", "Self", "super", "crate", "\"", "\n", "$"];
    for len in 0..=(if ctx.thorough { 5 } else { 4 }) {
        let n = (alpha.len() as u64).pow(len);
        ctx.space(format!("strings of {len} identifier-relevant symbols"), n);
        ctx.par(n.div_ceil(512), 4, |blk, l| {
            for i in blk * 512..((blk + 1) * 512).min(n) {
                check(&words(&alpha, len, i).concat(), l);
            }
        });
    }
    ctx.space("keywords, and every length to 600 and around every power of two to 2^16", 700);
    ctx.par(1, 1, |_, l| {
        for k in "as break const continue crate else enum extern false fn for if impl in let loop match mod move mut pub ref return self Self static struct super trait true type unsafe use where while async await dyn abstract become box do final macro override priv typeof unsized virtual yield try gen macro_rules union safe raw auto default".split(' ') {
            check(k, l);
            for d in ["_", "0", " ", "-"] {
                check(&format!("{k}{d}"), l);
                check(&format!("{d}{k}"), l);
            }
        }
        for n in (0..600).chain((10..=16).flat_map(|b| [(1 << b) - 1, 1 << b, (1 << b) + 1])) {
            check(&"a".repeat(n), l);
            check(&"9".repeat(n), l);
            check(&format!("{}-", "a".repeat(n)), l);
            check(&format!("{}é", "_".repeat(n)), l);
        }
    });
    // identity, ordering, hashing over all pairs
    let names = ["a", "b", "ab", "A", "_a", "aé", "é", "r", "s", "raw", "union", "rr", "q", "fn", "self", "_", "a0", "a1", "Z", "r1"];
    let mut ids: Vec<(Ident, String)> = Vec::new();
    for n in names {
        ids.push((Ident::new(n, Span::call_site()), n.to_string()));
        if !reserved.contains(&n) {
            ids.push((Ident::new_raw(n, Span::mixed_site()), format!("r#{n}")));
        }
        for src in [n.to_string(), format!("r#{n}"), format!("  {n} ")] {
            if let Ok(ts) = src.parse::<TokenStream>() {
                for tt in ts {
                    if let TokenTree::Ident(i) = tt {
                        let t = src.trim().to_string();
                        let mut j = i.clone();
                        j.set_span(Span::call_site());
                        ids.push((i, t.clone()));
                        ids.push((j, t));
                    }
                }
            }
        }
    }
    let strs: Vec<String> = ids.iter().map(|x| x.1.clone()).chain(["".into(), "r#".into(), "r".into(), "#a".into(), "r#r#a".into(), "a ".into(), "r# a".into(), "é".into(), "r".to_string() + "é", "#".into(), "R#a".into()]).collect();
    ctx.space("all ordered pairs of constructed and parsed identifiers, and identifier against string", (ids.len() * (ids.len() + strs.len())) as u64);
    let mut l = Local::default();
    let hasher = |i: &Ident| hash(i);
    for (a, ta) in &ids {
        for (b, tb) in &ids {
            l.transitions += 4;
            l.validated += 1;
            l.states.insert(hash((ta, tb)));
            let got = guard(|| (a == b, a.cmp(b), a.partial_cmp(b), hasher(a) == hasher(b), a.to_string() == *ta));
            let want = (ta == tb, ta.cmp(tb), Some(ta.cmp(tb)), ta == tb, true);
            // equal hashes for different text are allowed, unequal for equal text are not
            let ok = matches!(&got, Ok(g) if g.0 == want.0 && g.1 == want.1 && g.2 == want.2 && (g.3 || !want.3) && g.4);
            if !ok {
                ctx.violation(format!("{ta} vs {tb}"), format!("identifiers {ta} and {tb}: (eq, cmp, partial_cmp, same hash, text) = {got:?}, expected {want:?}"));
            }
        }
        for s in &strs {
            l.transitions += 1;
            l.validated += 1;
            let got = guard(|| (*a == *s.as_str(), *a == s, *a == s.clone()));
            if got != Ok((ta == s, ta == s, ta == s)) {
                ctx.violation(format!("{ta} vs {s:?}"), format!("identifier {ta} compared with string {s:?}: {got:?}"));
            }
        }
    }
    ctx.merge(l);
    ctx.sample("Ident::new(\"a\\u{301}\")".to_string());
    ctx.sample("r#a == \"r#a\", r#a != \"a\"".to_string());
}

#[cfg(procmacro2_semver_exempt)]
pub fn c13(ctx: &Ctx) {
    use crate::spaces;
    #[derive(Debug, PartialEq)]
    enum V {
        Str(Vec<u8>),
        Bytes(Vec<u8>),
        C(Vec<u8>),
        Other,
        Open,
    }
    // Independent evaluation of an accepted literal's text.
    fn eval(text: &str) -> V {
        let (mode, rest) = if let Some(r) = text.strip_prefix("b\"") {
            (Mode::Byte, Some(r))
        } else if let Some(r) = text.strip_prefix("c\"") {
            (Mode::C, Some(r))
        } else if let Some(r) = text.strip_prefix('"') {
            (Mode::Str, Some(r))
        } else if text.starts_with("br") {
            (Mode::Byte, None)
        } else if text.starts_with("cr") {
            (Mode::C, None)
        } else if text.starts_with('r') {
            (Mode::Str, None)
        } else {
            return V::Other;
        };
        let value = match rest {
            Some(r) => {
                let c: Vec<char> = r.chars().collect();
                let mut j = 0;
                while c[j] != '"' {
                    j += if c[j] == '\\' { 2 } else { 1 };
                }
                if j + 1 != c.len() {
                    return V::Other; // suffixed
                }
                let mut out = Vec::new();
                let mut open = false;
                if c.windows(2).any(|w| w == ['\r', '\n']) {
                    return V::Open; // newline normalisation happens at file level
                }
                reflex::unescape(&c[..j], mode, &mut out, &mut open).unwrap();
                if open {
                    return V::Open;
                }
                out
            }
            None => {
                let r = text.trim_start_matches(['b', 'c']).strip_prefix('r').unwrap();
                let n = r.bytes().take_while(|&b| b == b'#').count();
                let body = &r[n + 1..];
                let close = format!("\"{}", "#".repeat(n));
                let end = body.find(&close).unwrap();
                if end + close.len() != body.len() {
                    return V::Other;
                }
                if body.contains("\r\n") {
                    return V::Open;
                }
                body[..end].as_bytes().to_vec()
            }
        };
        match mode {
            Mode::Str => V::Str(value),
            Mode::Byte => V::Bytes(value),
            Mode::C => {
                let mut v = value;
                v.push(0);
                V::C(v)
            }
        }
    }
    let check = |text: &str, lit: &Literal, want: &V, l: &mut Local| {
        l.transitions += 3;
        if *want == V::Open {
            l.open += 1;
            return;
        }
        l.validated += 1;
        let s = lit.str_value().map(String::into_bytes).ok();
        let b = lit.byte_str_value().ok();
        let c = lit.cstr_value().ok();
        let (ws, wb, wc) = match want {
            V::Str(v) => (Some(v), None, None),
            V::Bytes(v) => (None, Some(v), None),
            V::C(v) => (None, None, Some(v)),
            _ => (None, None, None),
        };
        if (s.as_ref(), b.as_ref(), c.as_ref()) != (ws, wb, wc) {
            ctx.violation(text, format!("{text}: str_value {s:?}, byte_str_value {b:?}, cstr_value {c:?}, expected {want:?}"));
        }
        if l.states.len() < 4096 {
            l.states.insert(hash((ws, wb, wc)));
        }
    };
    let sp = crate::lexing::literal_spaces(ctx.thorough);
    spaces::visit(ctx, &sp, |src, l| {
        let Ok(lit) = src.parse::<Literal>() else { return };
        let body = src.strip_prefix('-').unwrap_or(src);
        let want = if is_one_literal(body) == Some(true) { eval(src) } else { V::Open };
        check(src, &lit, &want, l);
    });
    // inverse of the constructors
    ctx.space("constructors inverted: every char, every byte pair, strings over the escape alphabet", SCALARS + 65536);
    ctx.par(SCALARS.div_ceil(1024), 4, |blk, l| {
        for i in blk * 1024..((blk + 1) * 1024).min(SCALARS) {
            let c = scalar(i);
            for s in [format!("{c}"), format!("\0{c}"), format!("\\{c}\"{c}")] {
                case(&s);
                let lit = Literal::string(&s);
                check(&lit.to_string(), &lit, &V::Str(s.clone().into_bytes()), l);
                let lit = Literal::byte_string(s.as_bytes());
                check(&lit.to_string(), &lit, &V::Bytes(s.clone().into_bytes()), l);
                if let Ok(z) = std::ffi::CString::new(s.clone()) {
                    let lit = Literal::c_string(&z);
                    check(&lit.to_string(), &lit, &V::C(z.into_bytes_with_nul()), l);
                }
            }
            let lit = Literal::character(c);
            check(&lit.to_string(), &lit, &V::Other, l);
        }
    });
    ctx.par(256, 4, |a, l| {
        let a = a as u8;
        let lit = Literal::byte_character(a);
        check(&lit.to_string(), &lit, &V::Other, l);
        for b in 0..=255u8 {
            case(&format!("{a} {b}"));
            let v = vec![a, b];
            let lit = Literal::byte_string(&v);
            check(&lit.to_string(), &lit, &V::Bytes(v.clone()), l);
            if let Ok(z) = std::ffi::CString::new(v) {
                let lit = Literal::c_string(&z);
                check(&lit.to_string(), &lit, &V::C(z.into_bytes_with_nul()), l);
            }
        }
    });
    // long values, and the texts of doc comments
    let mut sizes: Vec<usize> = (0..=600).collect();
    sizes.extend(crate::ops::long_lengths(if ctx.thorough { 17 } else { 13 }));
    ctx.space("constructors inverted: one of the escape characters repeated, every count to 600 and around powers of two, and the texts of such doc comments", (sizes.len() * ESC.len()) as u64);
    ctx.par((sizes.len() * ESC.len()) as u64, 8, |i, l| {
        let (n, u) = (sizes[i as usize / ESC.len()], ESC[i as usize % ESC.len()]);
        let s = format!("{}{u}z", u.to_string().repeat(n));
        case(&s);
        let lit = Literal::string(&s);
        check(&lit.to_string(), &lit, &V::Str(s.clone().into_bytes()), l);
        let lit = Literal::byte_string(s.as_bytes());
        check(&lit.to_string(), &lit, &V::Bytes(s.clone().into_bytes()), l);
        if let Ok(z) = std::ffi::CString::new(s.clone()) {
            let lit = Literal::c_string(&z);
            check(&lit.to_string(), &lit, &V::C(z.into_bytes_with_nul()), l);
        }
        if !s.contains('\r') && !s.contains("*/") {
            let Ok(ts) = format!("/** {s}*/").parse::<TokenStream>() else { return };
            let Some(TokenTree::Group(g)) = ts.into_iter().nth(1) else { return };
            if let Some(TokenTree::Literal(lit)) = g.stream().into_iter().nth(2) {
                check(&lit.to_string(), &lit, &V::Str(format!(" {s}").into_bytes()), l);
            }
        }
    });
    for len in 0..=4 {
        let n = (ESC.len() as u64).pow(len);
        ctx.par(n.div_ceil(1024), 4, |blk, l| {
            for i in blk * 1024..((blk + 1) * 1024).min(n) {
                let s = words(ESC, len, i).concat();
                case(&s);
                let lit = Literal::string(&s);
                check(&lit.to_string(), &lit, &V::Str(s.clone().into_bytes()), l);
                let lit = Literal::byte_string(s.as_bytes());
                check(&lit.to_string(), &lit, &V::Bytes(s.clone().into_bytes()), l);
                if let Ok(z) = std::ffi::CString::new(s) {
                    let lit = Literal::c_string(&z);
                    check(&lit.to_string(), &lit, &V::C(z.into_bytes_with_nul()), l);
                }
            }
        });
    }
}
#[cfg(not(procmacro2_semver_exempt))]
pub fn c13(_: &Ctx) {
    eprintln!("C13 needs --cfg procmacro2_semver_exempt");
    std::process::exit(2);
}
