#![allow(dead_code)]
#[path = "../../oracle/src/app.rs"]
mod app;
#[path = "../../oracle/src/codes.rs"]
mod codes;
#[path = "../../oracle/src/engine.rs"]
mod engine;
#[path = "../../oracle/src/records.rs"]
mod records;
#[path = "../../oracle/src/viftab.rs"]
mod viftab;
#[path = "../../oracle/src/wired.rs"]
mod wired;
#[path = "../../oracle/src/wireless.rs"]
mod wireless;
mod cells;
mod decimal;
mod entries;
mod frames;
mod hextext;
mod roles;
mod tiles;
mod xml;
mod xunit;
use engine::*;

static PROPS: &[&Prop] = &[&tiles::P18, &hextext::P19, &decimal::P20, &entries::P21, &entries::P22, &frames::P23, &frames::P24, &roles::P25, &cells::P26, &xml::P27, &xunit::P28];

fn unhex(s: &str) -> Vec<u8> {
    s.split_whitespace().map(|x| u8::from_str_radix(x, 16).expect("hex")).collect()
}

fn main() {
    // big stack: recursion depth is not what is being judged
    let h = std::thread::Builder::new().stack_size(256 << 20).spawn(real).unwrap();
    h.join().unwrap();
}

fn real() {
    let a: Vec<String> = std::env::args().collect();
    let id = a.get(2).map(String::as_str).unwrap_or("");
    let p = match PROPS.iter().find(|p| p.id == id) {
        Some(p) => *p,
        None => {
            eprintln!("unknown property {id}");
            std::process::exit(2);
        }
    };
    match a[1].as_str() {
        "search" => {
            let seed: u64 = a[3].parse().unwrap();
            let secs: f64 = a[4].parse().unwrap();
            let o = search(p, seed, secs);
            println!("EVALUATIONS {}", o.evaluations);
            println!("DISTINCT {}", o.distinct);
            println!("RULE {}", p.rule);
            for s in &o.samples {
                println!("SAMPLE {s}");
            }
            if let Some((i, m)) = o.failure {
                println!("FAIL {id}");
                println!("INPUT {}", hex(&i));
                println!("REASON {}", m.replace('\n', " "));
                std::process::exit(1);
            }
        }
        "replay" => {
            let i = unhex(&a[3..].join(" "));
            match run_one(p, &i) {
                Ok(()) => println!("OK"),
                Err(m) => {
                    println!("FAIL {id}\nINPUT {}\nREASON {m}", hex(&i));
                    std::process::exit(1)
                }
            }
        }
        x => {
            eprintln!("unknown command {x}");
            std::process::exit(2)
        }
    }
}
