#![allow(clippy::pedantic)]
#[macro_use]
mod fam;
mod algebra;
mod combi;
mod dist;
mod history;
mod misc;
mod native;
mod user;

use std::time::Duration;

fn main() {
    let id = std::env::args().nth(1).unwrap_or_default();
    let run: fn() = match id.as_str() {
        "C01" => algebra::c01,
        "C02" => dist::c02,
        "C03" => dist::c03,
        "C04" => history::c04,
        "C05" => history::c05,
        "C06" => history::c06,
        "C07" => dist::c07,
        "C08" => combi::c08,
        "C09" => combi::c09,
        "C10" => misc::c10,
        "C20" => misc::c20,
        "C23" => misc::c23,
        _ => {
            eprintln!("usage: mc-measures C01..");
            std::process::exit(2)
        }
    };
    mc::supervise(&id, Duration::from_secs(120), run)
}
