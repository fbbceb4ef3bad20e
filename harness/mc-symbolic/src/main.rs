#![allow(clippy::pedantic)]
mod ast;
mod bayes;
mod build;
mod egg;
mod jit;
mod parse;
mod pat;
mod print;
mod routes;
mod sym;
mod tag;

use std::time::Duration;

fn main() {
    let id = std::env::args().nth(1).unwrap_or_default();
    let run: fn() = match id.as_str() {
        "C11" => sym::c11,
        "C12" => egg::c12,
        "C13" => jit::c13,
        "C14" => routes::c14,
        "C15" => tag::c15,
        "C16" => pat::c16,
        "C18" => bayes::c18,
        "C19" => tag::c19,
        "C21" => print::c21,
        "C22" => build::c22,
        _ => {
            eprintln!("usage: mc-symbolic C11..");
            std::process::exit(2)
        }
    };
    mc::supervise(&id, Duration::from_secs(120), run)
}
