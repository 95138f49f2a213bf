mod core;
mod gen;
mod iref;
mod ispell;
mod iv;
mod lexref;
mod dref;
mod model;
mod ops;
mod props;
mod soup;
mod spell;

use crate::core::*;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() == 2 && a[1] == "--version" {
        return;
    }
    if a.len() > 5 && a[1] == "--digest" {
        install_panic_hook();
        props::total::digest_main(&a[2..]);
    }
    if a.len() > 5 && a[1] == "--one" {
        install_panic_hook();
        props::total::one_main(&a[2..]);
    }
    if a.len() > 5 && a[1] == "--sanitize" {
        install_panic_hook();
        props::total::sanitize_main(&a[2..]);
    }
    if a.len() > 3 && a[1] == "--long" {
        install_panic_hook();
        props::total::long_main(&a[2..]);
    }
    if a.len() > 4 && a[1] == "--calls" {
        install_panic_hook();
        props::hist::calls_main(&a[2..]);
    }
    if a.len() < 3 {
        eprintln!("usage: vmon PROPERTY quick|thorough");
        std::process::exit(2);
    }
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = a[2] == "thorough";
    install_panic_hook();
    type F = fn(&mut Run);
    let table: &[(&'static str, F)] = &[
        ("P01", props::civil::p01),
        ("P02", props::civil::p02),
        ("P03", props::civil::p03),
        ("P04", props::print::p04),
        ("P05", props::print::p05),
        ("P06", props::text::p06),
        ("P07", props::itext::p07),
        ("P08", props::text::p08),
        ("P10", props::text2::p10),
        ("P11", props::total::p11),
        ("P12", props::total::p12),
        ("P24", props::hist::p24),
        ("P27", props::hist::p27),
        ("P29", props::total::p29),
        ("P13", props::text2::p13),
        ("P30", props::text2::p30),
        ("P09", props::itext::p09),
        ("P14", props::itext::p14),
        ("P31", props::text::p31),
        ("P15", props::arith::p15),
        ("P16", props::arith::p16),
        ("P17", props::arith::p17),
        ("P18", props::arith::p18),
        ("P19", props::intervals::p19),
        ("P20", props::intervals::p20),
        ("P21", props::intervals::p21),
        ("P22", props::order::p22),
        ("P23", props::order::p23),
        ("P25", props::fields::p25),
        ("P26", props::fields::p26),
    ];
    match table.iter().find(|(id, _)| *id == a[1]) {
        Some((id, f)) => {
            let mut run = Run::new(id, thorough, seed);
            f(&mut run);
            run.finish();
        }
        None => {
            eprintln!("unknown property {}", a[1]);
            std::process::exit(2);
        }
    }
}
