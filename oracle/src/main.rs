mod app;
mod codes;
mod engine;
mod records;
mod safe;
mod viftab;
mod wired;
mod wireless;
use engine::*;

static PROPS: &[&Prop] = &[&wired::P01, &wired::P02, &wireless::P03, &wireless::P04, &safe::P05, &records::P06, &records::P07, &records::P08, &records::P09, &records::P10, &records::P11, &records::P12, &app::P13, &app::P14, &codes::P15, &codes::P16, &codes::P17];

fn unhex(s: &str) -> Vec<u8> {
    s.split_whitespace().map(|x| u8::from_str_radix(x, 16).expect("hex")).collect()
}

fn main() {
    // big stack: recursion depth is not what is being judged
    let h = std::thread::Builder::new().stack_size(256 << 20).spawn(real).unwrap();
    h.join().unwrap();
}

fn real() {
    let a: Vec<String> = std::env::args().collect();
    let id = a.get(2).map(String::as_str).unwrap_or("");
    let p = match PROPS.iter().find(|p| p.id == id) {
        Some(p) => *p,
        None => {
            eprintln!("unknown property {id}");
            std::process::exit(2);
        }
    };
    match a[1].as_str() {
        "search" => {
            let seed: u64 = a[3].parse().unwrap();
            let secs: f64 = a[4].parse().unwrap();
            let o = search(p, seed, secs);
            println!("EVALUATIONS {}", o.evaluations);
            println!("DISTINCT {}", o.distinct);
            println!("RULE {}", p.rule);
            for s in &o.samples {
                println!("SAMPLE {s}");
            }
            if let Some((i, m)) = o.failure {
                println!("FAIL {id}");
                println!("INPUT {}", hex(&i));
                println!("REASON {}", m.replace('\n', " "));
                std::process::exit(1);
            }
        }
        "replay" => {
            let i = unhex(&a[3..].join(" "));
            match run_one(p, &i) {
                Ok(()) => println!("OK"),
                Err(m) => {
                    println!("FAIL {id}\nINPUT {}\nREASON {m}", hex(&i));
                    std::process::exit(1)
                }
            }
        }
        x => {
            eprintln!("unknown command {x}");
            std::process::exit(2)
        }
    }
}
