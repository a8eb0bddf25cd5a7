//! C14 outside a macro: every history of force, unforce and use, as the first operations of a
//! process of its own and continued in one process, on this thread and on new ones.

use crate::ctx::{guard, hash, Ctx};
use crate::lexing::keep_state;
use proc_macro2::*;
use std::process::Command;

const USES: usize = 15;

#[cfg(any(not(feature = "wrap"), all(procmacro2_semver_exempt, not(mc_compiler))))]
fn no_compiler(_: Span) -> Result<(), String> {
    Ok(())
}
#[cfg(all(feature = "wrap", any(not(procmacro2_semver_exempt), mc_compiler)))]
fn no_compiler(s: Span) -> Result<(), String> {
    match guard(|| s.unwrap()) {
        Ok(_) => Err("a span of the compiler outside of a macro".into()),
        Err(_) => Ok(()),
    }
}

/// Every entry point that chooses an implementation; the tokens made.
fn probe(k: usize) -> Result<TokenStream, String> {
    let one = |t: TokenTree| -> Result<TokenStream, String> {
        no_compiler(t.span())?;
        Ok(t.into())
    };
    match k {
        0 => no_compiler(Span::call_site()).map(|()| TokenStream::new()),
        1 => no_compiler(Span::mixed_site()).map(|()| TokenStream::default()),
        2 => Ok(TokenStream::new()),
        3 => "a ( b ) + 1".parse::<TokenStream>().map_err(|_| "valid source rejected".into()),
        4 => one(Literal::u8_suffixed(1).into()),
        5 => one("1.5".parse::<Literal>().map_err(|_| "valid literal rejected")?.into()),
        6 => one(Ident::new("a", Span::call_site()).into()),
        7 => one(Punct::new('+', Spacing::Alone).into()),
        8 => Ok(Vec::<TokenTree>::new().into_iter().collect()),
        9 => Ok(Vec::<TokenStream>::new().into_iter().collect()),
        10 => Ok([Literal::string("s"), Literal::f64_unsuffixed(1.0), Literal::character('c'), Literal::byte_string(b"x"), Literal::i32_unsuffixed(-3)].into_iter().map(TokenTree::Literal).collect()),
        11 => one(Group::new(Delimiter::Brace, TokenStream::new()).into()),
        12 => match "\"".parse::<TokenStream>() {
            Ok(_) => Err("an unterminated literal accepted".into()),
            Err(e) => {
                no_compiler(e.span())?;
                let _ = (e.to_string(), format!("{e:?}"));
                Ok(TokenStream::new())
            }
        },
        14 => {
            macro_rules! numbers {
                ($($f:ident)*) => { vec![$(Literal::$f(1 as _)),*] };
            }
            let mut v = numbers! {
                u8_suffixed u16_suffixed u32_suffixed u64_suffixed u128_suffixed usize_suffixed
                i8_suffixed i16_suffixed i32_suffixed i64_suffixed i128_suffixed isize_suffixed f32_suffixed f64_suffixed
                u8_unsuffixed u16_unsuffixed u32_unsuffixed u64_unsuffixed u128_unsuffixed usize_unsuffixed
                i8_unsuffixed i16_unsuffixed i32_unsuffixed i64_unsuffixed i128_unsuffixed isize_unsuffixed f32_unsuffixed f64_unsuffixed
            };
            v.extend([Literal::string("s"), Literal::character('c'), Literal::byte_character(b'c'), Literal::byte_string(b"x"), Literal::c_string(c"y")]);
            v.push(unsafe { Literal::from_str_unchecked("7u8") });
            #[cfg(procmacro2_semver_exempt)]
            no_compiler(Span::def_site())?;
            for x in &v {
                no_compiler(x.span())?;
            }
            Ok(v.into_iter().map(TokenTree::Literal).collect())
        }
        _ => {
            let mut s: TokenStream = TokenTree::from(Ident::new_raw("fn", Span::mixed_site())).into();
            s.extend(["x".parse::<TokenStream>().unwrap()]);
            for t in s.clone() {
                no_compiler(t.span())?;
            }
            Ok(s)
        }
    }
}
/// Texts without blanks: formatting is not the point here.
fn text(s: TokenStream) -> String {
    s.to_string().replace(' ', "")
}
const TEXTS: [&str; USES] = ["", "", "", "a(b)+1", "1u8", "1.5", "a", "+", "", "", "\"s\"1.0'c'b\"x\"-3", "{}", "", "r#fnx", ALL_LITERALS];
const ALL_LITERALS: &str = concat!(
    "1u81u161u321u641u1281usize1i81i161i321i641i1281isize1f321f64",
    "1111111111111.01.0",
    "\"s\"'c'b'c'b\"x\"c\"y\"7u8"
);

/// f force, u unforce, lowercase digits a use, uppercase digits a use on a new thread. What is made
/// is put together and printed: nothing may mix implementations.
fn history(h: &str) -> Result<(), String> {
    let mut all = TokenStream::new();
    let mut want = String::new();
    for c in h.chars() {
        match c {
            '<' => fallback::force(),
            '>' => fallback::unforce(),
            c => {
                let k = c.to_digit(36).unwrap() as usize;
                if c.is_ascii_uppercase() {
                    let k = k - 16;
                    let s = std::thread::spawn(move || guard(|| probe(k).map(text))).join().map_err(|_| "thread died")??;
                    let s = s?;
                    if s != TEXTS[k] {
                        return Err(format!("use {k} on a new thread printed {s:?}"));
                    }
                } else {
                    let s = probe(k)?;
                    if text(s.clone()) != TEXTS[k] {
                        return Err(format!("use {k} printed {:?}", s.to_string()));
                    }
                    all.extend([s]);
                    if !TEXTS[k].is_empty() {
                        want += TEXTS[k];
                    }
                    if text(all.clone()) != want {
                        return Err(format!("the collected tokens print {:?} instead of {want:?}", all.to_string()));
                    }
                }
            }
        }
    }
    for t in all {
        no_compiler(t.span())?;
    }
    Ok(())
}

pub fn child(h: &str) -> ! {
    match guard(|| history(h)) {
        Ok(Ok(())) => std::process::exit(0),
        Ok(Err(e)) => println!("{e}"),
        Err(p) => println!("panicked: {p}"),
    }
    std::process::exit(3);
}

fn words(letters: &[char], len: usize) -> Vec<String> {
    let mut v = vec![String::new()];
    for _ in 0..len {
        v = v.iter().flat_map(|p| letters.iter().map(move |c| format!("{p}{c}"))).collect();
    }
    v
}

pub fn c14(ctx: &Ctx, short: bool) {
    let low = |k: usize| char::from_digit(k as u32, 36).unwrap();
    let up = |k: usize| char::from_digit(k as u32 + 16, 36).unwrap().to_ascii_uppercase();
    let here: Vec<char> = ['<', '>'].into_iter().chain((0..USES).map(low)).collect();
    let all: Vec<char> = here.iter().copied().chain((0..USES).map(up)).collect();
    let exe = std::env::current_exe().unwrap();

    let mut fresh = Vec::new();
    for n in 1..=2 {
        fresh.extend(words(&all, n));
    }
    if !short {
        fresh.extend(words(&here, 3));
    }
    if !short && ctx.thorough {
        fresh.extend(words(&all, 3));
    }
    ctx.space("histories of up to 2 operations (force, unforce, 15 kinds of use on this or a new thread) and of more on one thread, each in a fresh process", fresh.len() as u64);
    ctx.sample(fresh[40].clone());
    ctx.par(fresh.len() as u64, 64, |i, l| {
        let h = &fresh[i as usize];
        let out = Command::new(&exe).args(["C14", "child", h]).output().unwrap();
        l.transitions += h.len() as u64;
        l.validated += 1;
        if !out.status.success() {
            ctx.violation(h, format!("outside a macro, fresh process, history {h:?} (< force, > unforce, digits uses, G.. uses on a new thread): {} {}", String::from_utf8_lossy(&out.stdout).trim(), out.status));
        }
        keep_state(l, hash(h));
    });

    let k = here.len() as u64;
    let deep = if short { 4 } else if ctx.thorough { 6 } else { 5 };
    for len in 3..=deep {
        ctx.space(format!("histories of {len} operations in one process"), k.pow(len));
        ctx.par(k.pow(len), 1 << 14, |i, l| {
            let mut j = i;
            let h: String = (0..len)
                .map(|_| {
                    let c = here[(j % k) as usize];
                    j /= k;
                    c
                })
                .collect();
            l.transitions += len as u64;
            l.validated += 1;
            match guard(|| history(&h)) {
                Ok(Ok(())) => {}
                Ok(Err(e)) => ctx.violation(&h, format!("outside a macro, history {h:?}: {e}")),
                Err(p) => ctx.violation(&h, format!("outside a macro, history {h:?}: panicked: {p}")),
            }
            keep_state(l, hash(h));
        });
    }
}
