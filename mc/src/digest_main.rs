//! C17 in a binary of its own: it is built in many configurations.
#![allow(unused_mut, dead_code)]

mod cmp;
mod ctx;
mod digest;
mod ops;
mod reflex;
mod spaces;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let thorough = args.get(2).map(String::as_str) == Some("thorough");
    ctx::quiet_panics();
    let ctx = ctx::Ctx::new("C17", thorough);
    digest::run(&ctx, args.get(3..).unwrap_or(&[]));
    ctx.finish();
}
