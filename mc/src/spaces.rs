//! Bounded input spaces. Each space is a finite set of strings indexed 0..n and is enumerated
//! completely.

use crate::ctx::{Ctx, Local, CURRENT};

pub struct Space {
    pub name: String,
    pub n: u64,
    pub gen: Box<dyn Fn(u64, &mut String) + Send + Sync>,
}

/// All words of exactly `len` symbols over `alpha`, between `pre` and `post`.
pub fn words(name: &str, pre: &str, alpha: &[&str], len: u32, post: &str) -> Space {
    let alpha: Vec<String> = alpha.iter().map(|s| s.to_string()).collect();
    let (pre, post) = (pre.to_string(), post.to_string());
    let k = alpha.len() as u64;
    Space {
        name: format!("{name}[{k} symbols, length {len}]"),
        n: k.pow(len),
        gen: Box::new(move |mut i, s| {
            s.push_str(&pre);
            for _ in 0..len {
                s.push_str(&alpha[(i % k) as usize]);
                i /= k;
            }
            s.push_str(&post);
        }),
    }
}
pub fn words_upto(name: &str, pre: &str, alpha: &[&str], len: u32, post: &str) -> Vec<Space> {
    (0..=len).map(|l| words(name, pre, alpha, l, post)).collect()
}

const SCALARS: u64 = 0x110000 - 0x800;
pub fn scalar(i: u64) -> char {
    let v = i as u32;
    char::from_u32(if v < 0xd800 { v } else { v + 0x800 }).unwrap()
}

/// Every Unicode scalar substituted for U+E000 in each template.
pub fn scalars(templates: &[&str]) -> Vec<Space> {
    templates
        .iter()
        .map(|t| {
            let t = t.to_string();
            Space {
                name: format!("every scalar X in {:?}", t.replace('\u{e000}', "X")),
                n: SCALARS,
                gen: Box::new(move |i, s| {
                    let x = scalar(i);
                    for c in t.chars() {
                        s.push(if c == '\u{e000}' { x } else { c });
                    }
                }),
            }
        })
        .collect()
}

pub fn list(name: &str, v: Vec<String>) -> Space {
    Space { name: name.to_string(), n: v.len() as u64, gen: Box::new(move |i, s| s.push_str(&v[i as usize])) }
}

pub fn gen_space(name: &str, n: u64, f: impl Fn(u64, &mut String) + Send + Sync + 'static) -> Space {
    Space { name: name.to_string(), n, gen: Box::new(f) }
}

pub const GENERAL: &[&str] = &[
    "a", "r", "b", "c", "_", "e", "x", "0", "1", "9", ".", "'", "\"", "\\", "#", "/", "*", "!", "\n", "\r", " ", "(",
    ")", "[", "]", "{", "}", "-", "+", "=", "<", ";", "é", "\u{301}", "\0", "u", "n", "$", "`", "\u{2028}",
    "\u{feff}", "\u{a0}", "😀", ":",
];
pub const NUMBER: &[&str] = &["0", "1", "7", "9", "_", ".", "e", "E", "+", "-", "x", "b", "o", "f", "a", "é"];
pub const BODY: &[&str] =
    &["\\", "n", "x", "u", "{", "}", "0", "7", "f", "_", "\n", "\r", " ", "\"", "é", "\0", "'", "a"];
pub const RAW: &[&str] = &["#", "\"", "a", "\r", "\n", "é", "\0", "\\"];
pub const COMMENT: &[&str] = &["/", "*", "!", "\n", "\r", "a", " ", "é"];
pub const QUOTE: &[&str] = &[
    "'", "a", "r", "#", "_", "\\", "n", "x", "4", "1", "u{41}", "\n", "é", "b", "\"", " ", "self", "\u{301}", "c", "0",
];
pub const DELIMS: &[&str] = &["(", ")", "[", "]", "{", "}", "a", ","];
pub const PUNCTS: &[&str] = &["/", "*", "'", "a", "=", "-", " ", "#", "!", "\n", ">", "."];
pub const FRAGMENTS: &[&str] = &[
    "a", "r#a", "_", "self", "é", "0", "1.", "1.5", "1e3", "0x1f", "0b1", "7u8", "1e", "\"s\"", "\"\\n\"", "r\"s\"",
    "r#\"s\"#", "b\"s\"", "br\"s\"", "c\"s\"", "cr#\"s\"#", "'c'", "'\\''", "b'c'", "'l", "'_", "'r#a", "+", "-", "/",
    "'", "#", "!", ".", "=", "<", ">", ",", ";", ":", "&", "*", "$", "?", "@", "|", "^", "~", "%", "(", ")", "[", "]",
    "{", "}", " ", "\n", "\r\n", "/*c*/", "//c\n", "///d\n", "//!d\n", "/**d*/", "/*!d*/", "/*/**/*/", "////\n", "/***/",
    "\u{feff}", "\\", "`", "\"", "r#", "br", "c", "b",
];
pub const TEMPLATES: &[&str] = &[
    "\u{e000}", "a\u{e000}", "\u{e000}a", "a\u{e000}b", "\"\u{e000}\"", "'\u{e000}'", "b'\u{e000}'", "b\"\u{e000}\"", "c\"\u{e000}\"",
    "r\"\u{e000}\"", "br\"\u{e000}\"", "cr\"\u{e000}\"", "/*\u{e000}*/", "//\u{e000}\n1", "///\u{e000}", "/**\u{e000}*/", "/*!\u{e000}*/",
    "//!\u{e000}", "1\u{e000}", "1.\u{e000}", "1e\u{e000}", "0x\u{e000}", "'\u{e000}", "'a\u{e000}", "r#\u{e000}", "r#a\u{e000}",
    "\"\\\u{e000}\"", "'\\\u{e000}'", "b'\\\u{e000}'", "b\"\\\u{e000}\"", "c\"\\\u{e000}\"", "+\u{e000}", "(\u{e000})", "a \u{e000} b",
    "\u{feff}\u{e000}", "\"a\"\u{e000}", "'a'\u{e000}", "r#\"a\"#\u{e000}", "b'a'\u{e000}", "\"\\\n\u{e000}\"", "-\u{e000}", "/\u{e000}",
    "'r#\u{e000}", "\u{e000}'a'", "\u{e000}\"a\"", "\"\\u{\u{e000}}\"", "\"\\x\u{e000}0\"", "\"\\x0\u{e000}\"", "'\u{e000}a", "1_\u{e000}",
];

fn rep(s: &str, n: usize) -> String {
    s.repeat(n)
}

/// Escape values: every \x in every kind, every \u value (and beyond the maximum) in short and
/// zero-padded and underscored forms.
pub fn escapes() -> Vec<Space> {
    let mut v = Vec::new();
    for (pre, post) in [("\"", "\""), ("b\"", "\""), ("c\"", "\""), ("'", "'"), ("b'", "'")] {
        let (pre2, post2) = (pre.to_string(), post.to_string());
        v.push(gen_space(&format!("{pre}\\xHH{post} every digit pair, three cases"), 256 * 3, move |i, s| {
            let b = i % 256;
            let h = match i / 256 {
                0 => format!("{b:02x}"),
                1 => format!("{b:02X}"),
                _ => format!("{b:x}"),
            };
            s.push_str(&format!("{pre2}\\x{h}{post2}"));
        }));
    }
    for (pre, post) in [("\"", "\""), ("c\"", "\""), ("'", "'"), ("b\"", "\"")] {
        let (pre, post) = (pre.to_string(), post.to_string());
        v.push(gen_space(&format!("{pre}\\u{{H}}{post} every value to 0x110fff"), 0x111000, move |i, s| {
            use std::fmt::Write;
            let _ = match i % 3 {
                0 => write!(s, "{pre}\\u{{{i:x}}}{post}"),
                1 => write!(s, "{pre}\\u{{{i:06X}}}{post}"),
                _ => write!(s, "{pre}\\u{{{i:X}_}}{post}"),
            };
        }));
    }
    v
}

/// Every size of every repeatable construct.
pub fn sizes(max: usize) -> Vec<Space> {
    forms()
        .into_iter()
        .map(|(name, g)| gen_space(&format!("size sweep: {name}, 0..={max}"), max as u64 + 1, move |i, s| s.push_str(&g(i as usize))))
        .collect()
}

const NESTING: &[&str] = &["parens", "brackets", "braces", "mixed delimiters", "unclosed", "overclosed", "wrong closer at depth"];

/// Sizes next to powers of two that the sweep does not reach. Nesting is left to the depth sweeps.
pub fn long_sizes(max: u32) -> Vec<Space> {
    let at: Vec<usize> = (10..=max).step_by(2).flat_map(|b| [(1usize << b) - 1, 1 << b, (1 << b) + 1]).collect();
    forms()
        .into_iter()
        .filter(|(n, _)| !NESTING.contains(n))
        .map(|(name, g)| {
            let at = at.clone();
            gen_space(&format!("long: {name}, 2^b-1..=2^b+1, b up to {max}"), at.len() as u64, move |i, s| s.push_str(&g(at[i as usize])))
        })
        .collect()
}

/// Nesting around powers of two that the sweep does not reach, for consumers that do not recurse.
pub fn deep_sizes() -> Vec<Space> {
    let at: Vec<usize> = [10, 12, 14, 16].iter().flat_map(|b| [(1usize << b) - 1, 1 << b, (1 << b) + 1]).collect();
    forms()
        .into_iter()
        .filter(|(n, _)| NESTING.contains(n))
        .map(|(name, g)| {
            let at = at.clone();
            gen_space(&format!("deep: {name}, 2^b-1..=2^b+1, b up to 16"), at.len() as u64, move |i, s| s.push_str(&g(at[i as usize])))
        })
        .collect()
}

/// Words between matching delimiters, over units that matter there.
pub fn bodies(deep: bool) -> Vec<Space> {
    let d = deep as u32;
    let mut v = Vec::new();
    for (pre, post) in [("/**", "*/"), ("/*!", "*/"), ("///", "\nz"), ("//!", ""), ("//", "\nz"), ("/*", "*/"), ("a /** ", " */ b")] {
        v.extend(words_upto(&format!("{pre} comment body {post}"), pre, &["\r", "\n", "a", "*", "/", "é"], 6 + d, post));
    }
    for kind in ["r", "br", "cr"] {
        for h in 0..=4 {
            let hs = rep("#", h);
            v.extend(words_upto(&format!("{kind}{hs} raw body"), &format!("{kind}{hs}\""), &["\"", "#", "a", "\r\n"], 6 + d, &format!("\"{hs}")));
        }
    }
    for kind in ["", "b", "c"] {
        let k = &format!("{kind}\"");
        v.extend(words_upto(&format!("{k} continuations"), k, &["\\\n", "\\\r\n", " ", "\t", "\n", "\r", "a", "\\n", "\u{a0}"], 4 + d, "\""));
    }
    let esc = ["\\x41", "\\xfF", "\\x00", "\\u{0}", "\\u{4_1}", "\\u{d800}", "\\u{10FFFF}", "\\u{110000}", "\\0", "\\n", "\\'", "\\\"", "é", "a", "\\\\"];
    for (pre, post) in [("\"", "\""), ("b\"", "\""), ("c\"", "\""), ("'", "'"), ("b'", "'")] {
        v.extend(words_upto(&format!("{pre} escapes"), pre, &esc, 3 + d, post));
    }
    v.extend(words_upto("number parts", "", &["0x", "0b", "0o", "1", "9", "_", "f32", "e", "E5", "+", "-", ".", "..", "a", "u8", "é", "\u{301}"], 4 + d, ""));
    v.extend(words_upto("identifier parts", "", &["a", "_", "é", "\u{301}", "r#", "'", "0", "self", "super", "crate", "Self", "\u{200d}", " "], 4 + d, ""));
    v
}

fn forms() -> Vec<(&'static str, Box<dyn Fn(usize) -> String + Send + Sync>)> {
    let mut forms: Vec<(&str, Box<dyn Fn(usize) -> String + Send + Sync>)> = Vec::new();
    let mut f = |n, g: Box<dyn Fn(usize) -> String + Send + Sync>| forms.push((n, g));
    f("identifier", Box::new(|n| rep("a", n)));
    f("multi-byte identifier", Box::new(|n| format!("{} b", rep("é", n))));
    f("raw identifier", Box::new(|n| format!("r#{}", rep("a", n))));
    f("lifetime", Box::new(|n| format!("'{} x", rep("a", n))));
    f("string", Box::new(|n| format!("\"{}\" b", rep("a", n))));
    f("multi-byte string", Box::new(|n| format!("\"{}\" b", rep("é", n))));
    f("string with escapes", Box::new(|n| format!("\"{}\"", rep("\\n", n))));
    f("string with continuation", Box::new(|n| format!("\"\\\n{}x\"", rep(" ", n))));
    f("string with continuations", Box::new(|n| format!("\"{}\" y", rep("é\\\n ", n))));
    f("byte string", Box::new(|n| format!("b\"{}\"", rep("a", n))));
    f("byte string with continuations", Box::new(|n| format!("b\"{}\"", rep("\\\r\n", n))));
    f("c string", Box::new(|n| format!("c\"{}\"", rep("a", n))));
    f("string suffix", Box::new(|n| format!("\"\"{}", rep("z", n))));
    f("unterminated string", Box::new(|n| format!("\"{}", rep("a", n))));
    f("raw string body", Box::new(|n| format!("r\"{}\"", rep("a", n))));
    f("raw string hashes", Box::new(|n| format!("r{}\"a\"{}", rep("#", n), rep("#", n))));
    f("raw byte string hashes", Box::new(|n| format!("br{}\"a\"{}", rep("#", n), rep("#", n))));
    f("raw c string hashes", Box::new(|n| format!("cr{}\"a\"{}", rep("#", n), rep("#", n))));
    f("raw string one hash short", Box::new(|n| format!("r{}\"a\"{}", rep("#", n + 1), rep("#", n))));
    f("raw string inner fewer hashes", Box::new(|n| format!("r{}\"a\"{}b\"{} c", rep("#", n + 1), rep("#", n), rep("#", n + 1))));
    f("raw string extra hashes", Box::new(|n| format!("r#\"a\"{} c", rep("#", n))));
    f("raw byte string extra hashes", Box::new(|n| format!("br#\"a\"{} c", rep("#", n))));
    f("raw c string extra hashes", Box::new(|n| format!("cr#\"a\"{} c", rep("#", n))));
    f("integer digits", Box::new(|n| format!("1{}", rep("0", n))));
    f("hex digits", Box::new(|n| format!("0x{}", rep("f", n))));
    f("octal digits", Box::new(|n| format!("0o{}", rep("7", n))));
    f("binary digits", Box::new(|n| format!("0b{}", rep("1", n))));
    f("binary digits then 2", Box::new(|n| format!("0b{}2", rep("1", n))));
    f("underscores in integer", Box::new(|n| format!("1{}2u8", rep("_", n))));
    f("underscores after base", Box::new(|n| format!("0x{}1", rep("_", n))));
    f("fraction digits", Box::new(|n| format!("1.{}", rep("0", n))));
    f("exponent digits", Box::new(|n| format!("1e{}1", rep("0", n))));
    f("exponent underscores", Box::new(|n| format!("1e{}1", rep("_", n))));
    f("signed exponent underscores", Box::new(|n| format!("1.0e-{}1f32", rep("_", n))));
    f("number suffix", Box::new(|n| format!("1{}", rep("z", n))));
    f("unicode escape underscores", Box::new(|n| format!("\"\\u{{4{}1}}\"", rep("_", n))));
    f("unicode escape digits", Box::new(|n| format!("\"\\u{{{}1}}\"", rep("0", n))));
    f("unicode escape digits in char", Box::new(|n| format!("'\\u{{{}1}}'", rep("0", n))));
    f("unicode escape digits in c string", Box::new(|n| format!("c\"\\u{{{}1}}\"", rep("0", n))));
    f("spaces", Box::new(|n| format!("a{}b", rep(" ", n))));
    f("blank lines", Box::new(|n| format!("a{}b", rep("\n", n))));
    f("wide spaces", Box::new(|n| format!("a{}b", rep("\u{3000}", n))));
    f("line comment", Box::new(|n| format!("a//{}\nb", rep("x", n))));
    f("line comment multi-byte", Box::new(|n| format!("a//{}\nb", rep("é", n))));
    f("slashes", Box::new(|n| format!("{}\nb", rep("/", n))));
    f("block stars", Box::new(|n| format!("/{}/ b", rep("*", n))));
    f("block comment", Box::new(|n| format!("a/*{}*/b", rep("x", n))));
    f("nested block comment", Box::new(|n| format!("a{}{}b", rep("/*", n), rep("*/", n))));
    f("nested block comment one short", Box::new(|n| format!("a{}{}b", rep("/*", n + 1), rep("*/", n))));
    f("nested doc comment", Box::new(|n| format!("/** {}{} */b", rep("/*", n), rep("*/", n))));
    f("many comments", Box::new(|n| format!("{}b", rep("/*x*/ ", n))));
    f("doc comment", Box::new(|n| format!("///{}\nb", rep("x", n))));
    f("doc comments", Box::new(|n| format!("{}b", rep("/// é\n", n))));
    f("idents", Box::new(|n| rep("a ", n)));
    f("idents one per line", Box::new(|n| rep("é a\n", n)));
    f("puncts joint", Box::new(|n| rep("+", n)));
    f("puncts alone", Box::new(|n| rep("+ ", n)));
    f("literals", Box::new(|n| rep("1,", n)));
    f("lifetimes", Box::new(|n| rep("'a ", n)));
    f("parens", Box::new(|n| format!("{}{}", rep("(", n), rep(")", n))));
    f("brackets", Box::new(|n| format!("{}x{}", rep("[", n), rep("]", n))));
    f("braces", Box::new(|n| format!("{}x{} y", rep("{a ", n), rep("b}", n))));
    f("mixed delimiters", Box::new(|n| format!("{}{}", rep("([{", n), rep("}])", n))));
    f("unclosed", Box::new(|n| rep("(a ", n)));
    f("overclosed", Box::new(|n| format!("{}{}", rep("(", n), rep(")", n + 1))));
    f("flat groups", Box::new(|n| rep("()", n)));
    f("wrong closer at depth", Box::new(|n| format!("{}]{}", rep("(", n + 1), rep(")", n))));
    forms
}

/// Every prefix (truncation at every char) of every construct, and every construct preceded and
/// followed by each general symbol.
pub fn truncations() -> Vec<Space> {
    let full = [
        "\"a\\x41\\u{1F600}\\n\\\n  é\"suf", "b\"a\\x41\\n\\\r\n  z\"suf", "c\"a\\xff\\u{e9}é\"suf", "r##\"a\"#é\"##suf",
        "br##\"a\"#\"##suf", "cr##\"é\"#\"##suf", "'\\u{10FFFF}'suf", "'\\x7f'suf", "b'\\xff'suf", "'é'suf", "'lifetime x", "'r#raw x",
        "r#raw_ident y", "0xdead_beefu64", "0b1010_1u8", "0o7_7i16", "123_456.789_0e+1_2f64", "1e-9_f32", "/* a /* é */ b */ x",
        "/** doc é /* n */ */ x", "/*! inner */ x", "/// doc é\r\nx", "//! inner\nx", "// plain é\r\nx", "( [ { a } ] )", "#![doc = \"x\"]",
        "\u{feff}a", "(/*ERROR*/)", "a::<'b, -1>('c', \"d\"r, e..=f)",
    ];
    let mut out = Vec::new();
    for s in full {
        let idx: Vec<usize> = s.char_indices().map(|(i, _)| i).chain([s.len()]).collect();
        for &i in &idx {
            out.push(s[..i].to_string());
            out.push(s[i..].to_string());
            for g in GENERAL {
                out.push(format!("{}{}{}", &s[..i], g, &s[i..])); // insertion
                out.push(format!("{}{}", &s[..i], g)); // truncation then symbol
            }
            if i < s.len() {
                let n = i + s[i..].chars().next().unwrap().len_utf8();
                out.push(format!("{}{}", &s[..i], &s[n..])); // deletion
                for g in GENERAL {
                    out.push(format!("{}{}{}", &s[..i], g, &s[n..])); // replacement
                }
            }
        }
    }
    let two: Vec<String> = {
        // two edits: delete one range
        let mut v = Vec::new();
        for s in full {
            let idx: Vec<usize> = s.char_indices().map(|(i, _)| i).chain([s.len()]).collect();
            for (k, &i) in idx.iter().enumerate() {
                for &j in &idx[k..] {
                    v.push(format!("{}{}", &s[..i], &s[j..]));
                }
            }
        }
        v
    };
    vec![
        list("constructs with every one-symbol edit and truncation", out),
        list("constructs with every range deleted", two),
    ]
}

/// The lexer spaces shared by the parsing properties. `deep` selects the thorough bounds.
pub fn lexer_spaces(deep: bool) -> Vec<Space> {
    let d = deep as u32;
    let mut v = Vec::new();
    v.extend(words_upto("general", "", GENERAL, 4 + d, ""));
    v.extend(words_upto("fragments", "", FRAGMENTS, 3 + d, ""));
    v.extend((1..=5 + d).map(|l| words("numbers", "", NUMBER, l, "")));
    for pre in ["\"", "b\"", "c\""] {
        v.extend(words_upto(&format!("{pre} body"), pre, BODY, 4 + d, "\""));
    }
    for pre in ["r", "br", "cr"] {
        v.extend(words_upto(&format!("{pre} raw"), pre, RAW, 6 + d, ""));
    }
    v.extend(words_upto("comments", "", COMMENT, 7 + d, ""));
    for pre in ["'", "b'"] {
        v.extend(words_upto(&format!("{pre} quotes"), pre, QUOTE, 4 + d, ""));
    }
    v.extend(words_upto("delimiters", "", DELIMS, 6 + d, ""));
    v.extend(words_upto("puncts", "", PUNCTS, 5 + d, ""));
    v.extend(scalars(TEMPLATES));
    v.extend(escapes());
    v.extend(sizes(if deep { 2100 } else { 600 }));
    v.extend(long_sizes(16));
    v.extend(bodies(deep));
    v.extend(truncations());
    v
}

/// Visits every string of every space.
pub fn visit(ctx: &Ctx, spaces: &[Space], f: impl Fn(&str, &mut Local) + Sync) {
    const BLOCK: u64 = 2048;
    let mut starts = Vec::new();
    let mut total = 0;
    for s in spaces {
        starts.push(total);
        total += s.n.div_ceil(BLOCK);
        ctx.space(s.name.clone(), s.n);
    }
    ctx.par(total, 4, |item, l| {
        let k = starts.partition_point(|&s| s <= item) - 1;
        let sp = &spaces[k];
        let lo = (item - starts[k]) * BLOCK;
        let hi = (lo + BLOCK).min(sp.n);
        let mut s = String::new();
        for i in lo..hi {
            s.clear();
            (sp.gen)(i, &mut s);
            CURRENT.with(|c| {
                let mut c = c.borrow_mut();
                c.clear();
                c.push_str(&s);
            });
            f(&s, l);
            // finding a span's source may take time in proportion to their number
            #[cfg(any(feature = "span", procmacro2_semver_exempt))]
            if i % 256 == 255 {
                proc_macro2::extra::invalidate_current_thread_spans();
            }
            if i == lo && item % 4099 == 0 {
                ctx.sample(format!("{:?}", s));
            }
            if ctx.stopped() {
                return;
            }
        }
    });
}
