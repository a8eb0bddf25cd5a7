//! Explorations that run inside a real procedural macro expansion. The runner compiles a driver
//! file with rustc; the macro reads what to explore from the environment, explores its shard and
//! writes the result to a file. The expansion itself is empty.
#![allow(dead_code)]
#![cfg_attr(feature = "unst", feature(proc_macro_span))]
#![cfg_attr(all(feature = "unst", procmacro2_semver_exempt), feature(proc_macro_def_site))]

extern crate proc_macro;

#[path = "../../mc/src/acts.rs"]
mod acts;
#[path = "../../mc/src/cmp.rs"]
mod cmp;
#[path = "../../mc/src/ctx.rs"]
mod ctx;
#[path = "../../mc/src/iters.rs"]
mod iters;
#[path = "../../mc/src/ops.rs"]
mod ops;
#[path = "../../mc/src/reenter.rs"]
mod reenter;
#[path = "../../mc/src/reflex.rs"]
mod reflex;
#[path = "../../mc/src/spaces.rs"]
mod spaces;

mod after;
mod backend;
mod convert;
mod histories;
mod out;
mod switch;

use out::Out;

#[proc_macro]
pub fn explore(input: proc_macro::TokenStream) -> proc_macro::TokenStream {
    let what = std::env::var("PM_WHAT").unwrap_or_default();
    let mut o = Out::new();
    let r = out::guard(|| match what.as_str() {
        "C14" => backend::run(&mut o),
        "C15" => histories::run(&mut o),
        "C16" => convert::run(&mut o, input),
        "C20" => histories::debug(&mut o),
        "C21" => histories::spans(&mut o, input),
        "C23" => switch::run(&mut o),
        "C24" => after::run(&mut o),
        "C22" => histories::callbacks(&mut o),
        _ => {}
    });
    if let Err(p) = r {
        let c = o.case.clone();
        o.violation(&c, format!("exploration panicked after case {c}: {p}"));
    }
    o.write();
    proc_macro::TokenStream::new()
}
