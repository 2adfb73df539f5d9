//! Contract files: see contracts/*.vc
use std::collections::BTreeMap;

#[derive(Default, Clone, Debug)]
pub struct LoopSpec {
    pub clauses: String,
    pub start: String,
    pub end: String,
    pub after: String,
    pub before: String,
}

#[derive(Default, Clone, Debug)]
pub struct Contract {
    pub ret: String,
    pub clauses: String,
    pub attrs: String,
    pub start: String,
    pub end: String,
    pub loops: BTreeMap<usize, LoopSpec>,
    pub nloops: Option<usize>,
    pub inherent: bool,
    /// no facts about shifts and masks
    pub nobits: bool,
    pub external: bool,
    pub fromspec: String,
    pub file: String,
}

/// fn <key>
///   ret: r
///   attr: #[verifier::...]
///   spec:        (requires / ensures / decreases text)
///   start:       (text inserted at the start of the body)
///   loops: N     (number of loops the invariants were written for)
///   loop K:      (invariant / decreases text)
///   end:         (text inserted after the value of the body, named __r)
///   loop K start: / loop K end: / loop K before: / loop K after:
///
/// A section head or a `fn` line may carry `@TAG,TAG`: it counts only for plans with
/// one of these properties (`@!TAG,..`: only for plans with none of them).
fn wanted(tags: &str, property: &str) -> bool {
    match tags.strip_prefix('!') {
        Some(t) => !t.split(',').any(|x| x.trim() == property),
        None => tags.split(',').any(|x| x.trim() == property),
    }
}

pub fn parse(file: &str, text: &str, property: &str, into: &mut BTreeMap<String, Contract>) -> Result<(), String> {
    let mut key: Option<String> = None;
    let mut cur = Contract::default();
    let mut sect = String::new();
    let mut skip_fn = false;
    let mut skip_sect = false;
    for (n, line) in text.lines().enumerate() {
        if line.starts_with('#') {
            continue;
        }
        if let Some(k) = line.strip_prefix("fn ") {
            if let Some(k0) = key.take() {
                if into.insert(k0.clone(), std::mem::take(&mut cur)).is_some() {
                    return Err(format!("{file}: duplicate contract {k0}"));
                }
            }
            let mut k = k.trim();
            skip_fn = false;
            if let Some((a, tags)) = k.split_once(" @") {
                k = a.trim();
                skip_fn = !wanted(tags, property);
            }
            if skip_fn {
                continue;
            }
            key = Some(k.to_string());
            cur.file = file.to_string();
            cur.ret = "r".into();
            sect.clear();
            skip_sect = false;
            continue;
        }
        if skip_fn {
            continue;
        }
        let t = line.trim();
        if line.starts_with("  ") && !line.starts_with("   ") && t.contains(':') {
            let (h, rest) = t.split_once(':').unwrap();
            let rest = rest.trim();
            let (h, want) = match h.split_once('@') {
                Some((a, tags)) => (a.trim(), wanted(tags, property)),
                None => (h, true),
            };
            let known = matches!(h, "ret" | "attr" | "spec" | "start" | "end" | "loops" | "inherent" | "nobits" | "external" | "fromspec")
                || h.starts_with("loop ");
            if known {
                skip_sect = !want;
                if skip_sect {
                    continue;
                }
                sect = h.to_string();
                match h {
                    "ret" => cur.ret = rest.to_string(),
                    "attr" => {
                        cur.attrs.push_str(rest);
                        cur.attrs.push('\n');
                    }
                    "loops" => cur.nloops = rest.parse().ok(),
                    "fromspec" => cur.fromspec = rest.to_string(),
                    "inherent" => cur.inherent = true,
                    "nobits" => cur.nobits = true,
                    "external" => cur.external = true,
                    _ => {}
                }
                continue;
            }
        }
        if t.is_empty() || skip_sect {
            continue;
        }
        if key.is_none() {
            return Err(format!("{file}:{}: text outside a contract", n + 1));
        }
        let dst: &mut String = if sect == "spec" {
            &mut cur.clauses
        } else if sect == "start" {
            &mut cur.start
        } else if sect == "end" {
            &mut cur.end
        } else if let Some(l) = sect.strip_prefix("loop ") {
            let mut it = l.split_whitespace();
            let k: usize = it
                .next()
                .and_then(|x| x.parse().ok())
                .ok_or(format!("{file}:{}: bad loop", n + 1))?;
            let e = cur.loops.entry(k).or_default();
            match it.next() {
                None => &mut e.clauses,
                Some("start") => &mut e.start,
                Some("end") => &mut e.end,
                Some("after") => &mut e.after,
                Some("before") => &mut e.before,
                Some(x) => return Err(format!("{file}:{}: bad loop section {x}", n + 1)),
            }
        } else {
            return Err(format!("{file}:{}: text in section '{sect}'", n + 1));
        };
        dst.push_str(line);
        dst.push('\n');
    }
    if let Some(k0) = key.take() {
        into.insert(k0, cur);
    }
    Ok(())
}
