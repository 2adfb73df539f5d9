//! Mechanical extraction of functions of /repo into one Verus file.
//! See DESIGN.md, section "Extraction", for what is dropped and rewritten.
mod cfgs;
mod contract;
mod desugar;
mod emit;
mod index;
mod macros;
mod tables;
mod text;
mod types;

use std::process::exit;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let mut repo = String::from("/repo");
    let mut base = String::from(".");
    let mut plan = String::new();
    let mut out = String::new();
    let mut map = String::new();
    let mut property = String::new();
    let mut smoke = false;
    let mut i = 0;
    while i < args.len() {
        match args[i].as_str() {
            "--repo" => repo = args[i + 1].clone(),
            "--base" => base = args[i + 1].clone(),
            "--plan" => plan = args[i + 1].clone(),
            "--out" => out = args[i + 1].clone(),
            "--map" => map = args[i + 1].clone(),
            "--property" => property = args[i + 1].clone(),
            "--smoke" => smoke = args[i + 1] == "1",
            x => {
                eprintln!("unknown argument {x}");
                exit(2)
            }
        }
        i += 2;
    }
    match emit::run(&repo, &base, &plan, &property, smoke) {
        Ok((text, json)) => {
            std::fs::write(&out, text).expect("write output");
            std::fs::write(&map, json).expect("write map");
        }
        Err(e) => {
            eprintln!("extract: {e}");
            exit(3)
        }
    }
}
