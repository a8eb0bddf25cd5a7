//! C14 inside a macro: which implementation is used, for every history of force, unforce and use.

use crate::ctx::hash;
use crate::out::{guard, Out};
use proc_macro2 as p2;

/// Whether the compiler's implementation answered.
fn compiler(s: p2::Span) -> bool {
    guard(|| s.unwrap()).is_ok()
}

const USES: usize = 14;
/// Those in long histories.
const COMMON: usize = 12;
/// Every entry point that chooses an implementation.
fn probe(k: usize) -> Result<bool, String> {
    let all = |v: Vec<p2::TokenTree>| -> Result<bool, String> {
        let r: Vec<bool> = v.iter().map(|t| compiler(t.span())).collect();
        match r.first() {
            Some(&x) if r.iter().all(|&y| y == x) => Ok(x),
            _ => Err(format!("tokens of mixed implementations: {r:?}")),
        }
    };
    // an empty stream shows its implementation by what it refuses
    let stream = |s: p2::TokenStream| -> Result<bool, String> {
        let pm = proc_macro::Ident::new("q", proc_macro::Span::call_site());
        let c = p2::TokenStream::from(proc_macro::TokenStream::from(proc_macro::TokenTree::Ident(pm)));
        let mut a = s.clone();
        Ok(guard(|| a.extend([c])).is_ok())
    };
    Ok(match k {
        0 => compiler(p2::Span::call_site()),
        1 => compiler(p2::Span::mixed_site()),
        2 => stream(p2::TokenStream::new())?,
        3 => all("a (b) + 1".parse::<p2::TokenStream>().map_err(|_| "valid source rejected")?.into_iter().collect())?,
        4 => compiler(p2::Literal::u8_suffixed(1).span()),
        5 => compiler("1.5".parse::<p2::Literal>().map_err(|_| "valid literal rejected")?.span()),
        6 => compiler(p2::Ident::new("a", p2::Span::call_site()).span()),
        7 => stream(p2::TokenStream::from(p2::TokenTree::Punct(p2::Punct::new('+', p2::Spacing::Alone))))?,
        8 => stream(Vec::<p2::TokenTree>::new().into_iter().collect())?,
        9 => stream(Vec::<p2::TokenStream>::new().into_iter().collect())?,
        10 => all(vec![p2::Literal::string("s").into(), p2::Literal::f64_unsuffixed(1.0).into(), p2::Literal::character('c').into(), p2::Literal::byte_string(b"x").into(), p2::Literal::i32_unsuffixed(3).into(), p2::Literal::byte_character(3).into(), p2::Literal::c_string(c"x").into(), p2::Literal::f32_unsuffixed(1.0).into(), p2::Punct::new('+', p2::Spacing::Alone).into()])?,
        11 => {
            let g = p2::Group::new(p2::Delimiter::Brace, p2::TokenStream::new());
            let mut s = p2::TokenStream::default();
            s.extend([p2::TokenTree::Group(g.clone())]);
            if stream(s)? != compiler(g.span()) {
                return Err("a group and the default stream disagree".into());
            }
            compiler(g.span())
        }
        12 => {
            macro_rules! numbers {
                ($($f:ident)*) => { vec![$(p2::Literal::$f(1 as _)),*] };
            }
            let mut v: Vec<p2::TokenTree> = numbers! {
                u8_suffixed u16_suffixed u32_suffixed u64_suffixed u128_suffixed usize_suffixed
                i8_suffixed i16_suffixed i32_suffixed i64_suffixed i128_suffixed isize_suffixed f32_suffixed f64_suffixed
                u8_unsuffixed u16_unsuffixed u32_unsuffixed u64_unsuffixed u128_unsuffixed usize_unsuffixed
                i8_unsuffixed i16_unsuffixed i32_unsuffixed i64_unsuffixed i128_unsuffixed isize_unsuffixed f32_unsuffixed f64_unsuffixed
            }.into_iter().map(p2::TokenTree::Literal).collect();
            v.push(unsafe { p2::Literal::from_str_unchecked("1u8") }.into());
            v.push("-1".parse::<p2::Literal>().map_err(|_| "valid literal rejected")?.into());
            #[cfg(procmacro2_semver_exempt)]
            v.push(p2::Ident::new("d", p2::Span::def_site()).into());
            v.push(p2::Ident::new_raw("fn", p2::Span::mixed_site()).into());
            v.push(p2::Group::new(p2::Delimiter::None, "a".parse().map_err(|_| "valid source rejected")?).into());
            all(v)?
        }
        _ => {
            // errors carry a span as well
            let a = compiler("(".parse::<p2::TokenStream>().err().ok_or("invalid source accepted")?.span());
            let b = compiler("'".parse::<p2::Literal>().err().ok_or("invalid literal accepted")?.span());
            if a != b {
                return Err("errors of mixed implementations".into());
            }
            a
        }
    })
}

/// A history: f force, u unforce, digits a use.
fn run_history(h: &str) -> Result<(), String> {
    let mut forced = false;
    for (i, c) in h.chars().enumerate() {
        match c {
            'f' => {
                p2::fallback::force();
                forced = true;
            }
            'u' => {
                p2::fallback::unforce();
                forced = false;
            }
            c => {
                let k = c.to_digit(36).unwrap() as usize;
                let got = probe(k)?;
                if got == forced {
                    return Err(format!("step {}: use {k} went to the {} implementation", i + 1, if got { "compiler's" } else { "self-contained" }));
                }
            }
        }
    }
    Ok(())
}

pub fn run(o: &mut Out) {
    // the very first operations of this process
    let first = std::env::var("PM_HISTORY").unwrap_or_default();
    if !first.is_empty() {
        o.transitions += first.len() as u64;
        o.validated += 1;
        o.case = first.clone();
        match guard(|| run_history(&first)) {
            Ok(Ok(())) => o.state(hash(&first)),
            Ok(Err(e)) => o.violation(&first, format!("inside a fresh macro process, history {first:?} (f force, u unforce, digits uses): {e}")),
            Err(p) => o.violation(&first, format!("inside a fresh macro process, history {first:?}: panicked: {p}")),
        }
        return;
    }
    let letters: Vec<String> = ["f", "u"].iter().map(|s| s.to_string()).chain((0..USES).map(|k| std::char::from_digit(k as u32, 36).unwrap().to_string())).collect();
    for len in 0..=if o.thorough { 6 } else { 5 } {
        let uses = if len < 4 { USES } else { COMMON };
        let k = 2 + uses as u64;
        o.each(format!("every history of {len} out of force, unforce and {uses} kinds of use"), k.pow(len), |o, i| {
            p2::fallback::unforce();
            let mut j = i;
            let h: String = (0..len)
                .map(|_| {
                    let x = letters[(j % k) as usize].as_str();
                    j /= k;
                    x
                })
                .collect();
            o.transitions += len as u64;
            o.validated += 1;
            match guard(|| run_history(&h)) {
                Ok(Ok(())) => o.state(hash(&h)),
                Ok(Err(e)) => o.violation(&h, format!("inside a macro, history {h:?}: {e}")),
                Err(p) => o.violation(&h, format!("inside a macro, history {h:?}: panicked: {p}")),
            }
        });
    }
    p2::fallback::unforce();
}
