//! P28, built with pgdatetime's serde feature.
#![allow(dead_code)]
mod core;
mod gen;
mod iref;
mod ispell;
mod iv;
mod lexref;
mod dref;
mod model;
mod ops;
mod props;
mod ser;
mod soup;
mod spell;

use crate::core::*;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 3 || a[1] != "P28" {
        eprintln!("usage: vmon-serde P28 quick|thorough");
        std::process::exit(2);
    }
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    install_panic_hook();
    let mut run = Run::new("P28", a[2] == "thorough", seed);
    ser::p28(&mut run);
    run.finish();
}
