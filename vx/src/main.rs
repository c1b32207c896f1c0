//! vx: mechanical extractor.  Reads the macro-expanded source of the crate (rustc -Zunpretty=expanded),
//! selects the items a template names, applies the declared rewrites, attaches the contracts the
//! template gives, and writes a Verus file plus a JSON map (function -> lines, key, what was dropped).
//!
//! usage: vx TEMPLATE OUT.rs OUT.json EXPANDED.rs [EXPANDED2.rs ...] [--assume FUNCTION-KEY]...
//! (--assume: take the contract of that function without looking at its body; the check counts it as undecided)
mod index;
mod rewrite;
mod template;

use std::collections::BTreeMap;

pub fn die(msg: &str) -> ! {
    println!("VX-LOST {msg}");
    eprintln!("vx: {msg}");
    std::process::exit(3)
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    let mut assume = vec![];
    while let Some(p) = args.iter().position(|a| a == "--assume") { args.remove(p); assume.push(args.remove(p)); }
    template::ASSUME.set(assume).unwrap();
    let vac = args.iter().position(|a| a == "--vacuity").map(|p| args.remove(p)).is_some();
    template::VACUITY.set(vac).unwrap();
    if args.len() < 5 && args.get(1).map_or(true, |a| a != "--list") {
        eprintln!("usage: vx TEMPLATE OUT.rs OUT.json EXPANDED.rs...");
        std::process::exit(2);
    }
    if args[1] == "--list" {
        let idx = index::Index::load(&args[2..], &Default::default());
        for k in idx.impls.keys() { println!("impl {k}"); }
        for k in idx.fns.keys() { println!("fn {k}"); }
        for k in idx.types.keys() { println!("type {k}"); }
        for k in idx.consts.keys() { println!("const {k}"); }
        for k in idx.traits.keys() { println!("trait {k}"); }
        return;
    }
    let text = std::fs::read_to_string(&args[1]).expect("template");
    let idx = index::Index::load(&args[4..], &template::renames(&text, std::path::Path::new(&args[1]).parent().unwrap()));
    let mut out = template::process(&text, &idx, std::path::Path::new(&args[1]).parent().unwrap());
    out.finish();
    std::fs::write(&args[2], &out.text).unwrap();
    std::fs::write(&args[3], out.json()).unwrap();
    let _: BTreeMap<(), ()> = BTreeMap::new();
}
