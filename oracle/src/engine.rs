//! Search for an input on which the real code and an independent reference disagree.
use std::collections::BTreeSet;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub type R = Result<(), String>;

pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0xD1B5_4A32_D192_ED03)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            0
        } else {
            (self.next() % n as u64) as usize
        }
    }
    pub fn byte(&mut self) -> u8 {
        self.next() as u8
    }
    pub fn bool(&mut self) -> bool {
        self.next() & 1 == 1
    }
    pub fn one_in(&mut self, n: usize) -> bool {
        self.below(n) == 0
    }
    pub fn pick<T: Clone>(&mut self, xs: &[T]) -> T {
        xs[self.below(xs.len())].clone()
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.byte()).collect()
    }
    /// bytes with many boundary values
    pub fn edgy(&mut self, n: usize) -> Vec<u8> {
        (0..n)
            .map(|_| match self.below(4) {
                0 => self.pick(&[0u8, 1, 0x7F, 0x80, 0xFF, 0xFE, 0x0F, 0xF0, 0x99, 0x10]),
                _ => self.byte(),
            })
            .collect()
    }
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    /// systematic cases; the callback returns false to stop
    pub systematic: fn(&mut dyn FnMut(Vec<u8>) -> bool),
    pub random: fn(&mut Rng) -> Vec<u8>,
    pub check: fn(&[u8]) -> R,
    /// whether the case exercises something beyond a trivial rejection
    pub nontrivial: fn(&[u8]) -> bool,
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02X}")).collect::<Vec<_>>().join(" ")
}

pub fn run_one(p: &Prop, input: &[u8]) -> R {
    match catch_unwind(AssertUnwindSafe(|| (p.check)(input))) {
        Ok(r) => r,
        Err(e) => {
            let m = e
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_else(|| "panic".into());
            Err(format!("panicked: {m}"))
        }
    }
}

pub struct Outcome {
    pub evaluations: u64,
    pub distinct: u64,
    pub samples: Vec<String>,
    pub failure: Option<(Vec<u8>, String)>,
}

fn fnv(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for x in b {
        h ^= *x as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

pub fn search(p: &'static Prop, seed: u64, secs: f64) -> Outcome {
    std::panic::set_hook(Box::new(|_| {}));
    let cur: Arc<Mutex<Vec<u8>>> = Arc::new(Mutex::new(vec![]));
    let tick = Arc::new(AtomicU64::new(0));
    let stop = Arc::new(AtomicBool::new(false));
    {
        // watchdog: a case that does not return within 20 s is an endless loop
        let (cur, tick, stop) = (cur.clone(), tick.clone(), stop.clone());
        let id = p.id;
        std::thread::spawn(move || {
            let mut last = u64::MAX;
            let mut since = Instant::now();
            while !stop.load(Ordering::Relaxed) {
                std::thread::sleep(Duration::from_millis(500));
                let t = tick.load(Ordering::Relaxed);
                if t != last {
                    last = t;
                    since = Instant::now();
                } else if since.elapsed() > Duration::from_secs(20) {
                    let c = cur.lock().unwrap().clone();
                    println!("FAIL {id}");
                    println!("INPUT {}", hex(&c));
                    println!("REASON does not return within 20 s");
                    std::process::exit(1);
                }
            }
        });
    }
    // only after a crash: leave the current case where the driver finds it
    let trace = std::env::var("ORACLE_TRACE").ok();
    let start = Instant::now();
    let mut out = Outcome { evaluations: 0, distinct: 0, samples: vec![], failure: None };
    let mut seen: BTreeSet<u64> = BTreeSet::new();
    let mut step = |input: Vec<u8>, out: &mut Outcome| -> bool {
        *cur.lock().unwrap() = input.clone();
        if let Some(t) = &trace {
            let _ = std::fs::write(t, hex(&input));
        }
        tick.fetch_add(1, Ordering::Relaxed);
        out.evaluations += 1;
        if (out.evaluations < 400_000) && (p.nontrivial)(&input) && seen.insert(fnv(&input)) {
            out.distinct += 1;
            if out.samples.len() < 3 && out.evaluations % 7 == 1 {
                out.samples.push(hex(&input));
            }
        }
        match run_one(p, &input) {
            Ok(()) => true,
            Err(m) => {
                let (i, m) = shrink(p, input, m);
                out.failure = Some((i, m));
                false
            }
        }
    };
    let budget = Duration::from_secs_f64(secs);
    let mut ok = true;
    let cap = Duration::from_secs_f64(secs * 4.0 + 30.0);
    (p.systematic)(&mut |i| {
        ok = step(i, &mut out);
        ok && start.elapsed() < cap
    });
    if ok {
        let mut rng = Rng::new(seed);
        let rstart = Instant::now();
        while rstart.elapsed() < budget {
            for _ in 0..64 {
                let i = (p.random)(&mut rng);
                if !step(i, &mut out) {
                    ok = false;
                    break;
                }
            }
            if !ok {
                break;
            }
        }
    }
    stop.store(true, Ordering::Relaxed);
    out
}

fn shrink(p: &Prop, mut input: Vec<u8>, mut msg: String) -> (Vec<u8>, String) {
    let start = Instant::now();
    let mut progress = true;
    while progress && start.elapsed() < Duration::from_secs(3) {
        progress = false;
        for i in (0..input.len()).rev() {
            if start.elapsed() > Duration::from_secs(3) {
                break;
            }
            let mut c = input.clone();
            c.remove(i);
            if let Err(m) = run_one(p, &c) {
                input = c;
                msg = m;
                progress = true;
            }
        }
    }
    (input, msg)
}

pub fn eq<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T) -> R {
    if got == want {
        Ok(())
    } else {
        Err(format!("{what}: got {got:?}, expected {want:?}"))
    }
}

