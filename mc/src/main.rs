#![allow(unused_mut, dead_code, irrefutable_let_patterns)]

mod acts;
mod cmp;
mod contexts;
mod ctx;
mod debug;
mod deep;
mod iters;
mod lexing;
mod ops;
mod outside;
mod reenter;
mod reflex;
mod spaces;
#[cfg(any(feature = "span", procmacro2_semver_exempt))]
mod spans;
mod streams;
mod trees;
mod values;

#[global_allocator]
static ALLOC: streams::Counting = streams::Counting;


fn main() {
    let args: Vec<String> = std::env::args().collect();
    let prop = args.get(1).map(String::as_str).unwrap_or("");
    let thorough = args.get(2).map(String::as_str) == Some("thorough");
    let part = args.get(3).map(String::as_str).unwrap_or("");
    ctx::quiet_panics();
    let ctx = ctx::Ctx::new(prop, thorough);
    let r = ctx::guard(|| match prop {
        "C01" if part == "deep" => deep::run(&ctx),
        "C01" => lexing::c01(&ctx),
        "C02" => lexing::c02(&ctx),
        "C14" if args.get(2).map(String::as_str) == Some("child") => outside::child(part),
        "C14" => outside::c14(&ctx, part == "short"),
        "C07" => streams::c07(&ctx),
        "C08" if part.contains('/') => streams::c08_interpreted(&ctx, part),
        "C08" => streams::c08(&ctx),
        "C03" => trees::c03(&ctx),
        "C04" => trees::c04(&ctx),
        "C06" => trees::c06(&ctx),
        "C05" => values::c05(&ctx),
        #[cfg(any(feature = "span", procmacro2_semver_exempt))]
        "C09" => spans::c09(&ctx),
        #[cfg(any(feature = "span", procmacro2_semver_exempt))]
        "C10" if part == "pairs" => spans::c10_pairs(&ctx),
        #[cfg(any(feature = "span", procmacro2_semver_exempt))]
        "C10" => spans::c10(&ctx),
        #[cfg(any(feature = "span", procmacro2_semver_exempt))]
        "C11" => spans::c11(&ctx),
        "C12" => values::c12(&ctx),
        "C13" => values::c13(&ctx),
        "C19" => lexing::c19(&ctx),
        "C20" => debug::c20(&ctx),
        #[cfg(any(feature = "span", procmacro2_semver_exempt))]
        "C21" => streams::c21(&ctx),
        "C22" => reenter::c22(&ctx),
        "C24" => contexts::c24(&ctx),
        _ => {
            eprintln!("unknown property {prop:?}");
            std::process::exit(2);
        }
    });
    if let Err(p) = r {
        ctx.violation("main", format!("unexpected panic: {p}"));
    }
    ctx.finish();
}
