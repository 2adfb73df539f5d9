//! P19: hexadecimal text
use crate::engine::*;
use m_bus_parser::output::{decode_data_records, decode_data_records_hex, decode_hex, decode_hex_bytes, DecodeOptions};

/// the bytes written, when the text is one of the accepted spellings
fn reference(s: &str) -> Option<Vec<u8>> {
    let c: Vec<char> = s.trim_matches(char::is_whitespace).chars().collect();
    let nibble = |x: char| "0123456789abcdef".find(x.to_ascii_lowercase()).map(|n| n as u8);
    let pair = |t: &[char]| match t {
        [a, b] => Some(nibble(*a)? * 16 + nibble(*b)?),
        _ => None,
    };
    if c.is_empty() {
        return None;
    }
    if c.iter().all(|x| nibble(*x).is_some()) {
        return c.chunks(2).map(pair).collect();
    }
    let mut out = vec![];
    for t in c.split(|x| matches!(x, ' ' | '\t' | '\n' | '\r' | '\x0C' | ':' | '-')) {
        match t {
            [] => {}
            ['0', 'x' | 'X', rest @ ..] => out.push(pair(rest)?),
            t => out.push(pair(t)?),
        }
    }
    (!out.is_empty()).then_some(out)
}
fn check(i: &[u8]) -> R {
    let s = String::from_utf8_lossy(i).into_owned();
    let want = reference(&s);
    let got = decode_hex_bytes(&s).ok();
    if got != want {
        return Err(format!("decode_hex_bytes({s:?}) gives {got:02X?}, expected {want:02X?}"));
    }
    let frame = decode_hex(&s, &DecodeOptions::default());
    if want.is_none() && frame.is_ok() {
        return Err(format!("decode_hex accepts {s:?}"));
    }
    if i.len() < 200 {
        let a = decode_data_records_hex(&s).map(|r| format!("{r:?}")).ok();
        let b = want.as_ref().and_then(|b| decode_data_records(b).ok()).map(|r| format!("{r:?}"));
        if a != b {
            return Err(format!("decode_data_records_hex({s:?}) gives {a:?}, from the bytes {b:?}"));
        }
    }
    Ok(())
}
fn digit(r: &mut Rng) -> char {
    r.pick(&"0123456789abcdefABCDEF".chars().collect::<Vec<_>>())
}
fn random(r: &mut Rng) -> Vec<u8> {
    let mut s = String::new();
    let most = r.pick(&[200, 700]);
    let n = if r.one_in(10) { r.below(most) } else { r.below(9) };
    let kind = r.below(5);
    for k in 0..n {
        if kind > 0 {
            if k > 0 || r.one_in(6) {
                match kind {
                    1 => s.push(' '),
                    2 => s.push(r.pick(&[':', '-', ' ', '\t', '\n', '\r'])),
                    _ => {
                        for _ in 0..1 + r.below(2) {
                            s.push(r.pick(&[':', '-', ' ', '\t', '\n', '\r', '\x0C']));
                        }
                    }
                }
            }
            if r.one_in(if kind == 4 { 1 } else { 4 }) {
                s.push_str(r.pick(&["0x", "0X"]));
            }
        }
        s.push(digit(r));
        s.push(digit(r));
    }
    for _ in 0..r.below(4) {
        if r.one_in(3) {
            let mut c: Vec<char> = s.chars().collect();
            let odd = [',', ';', 'x', 'X', '0', 'g', 'G', '+', '-', '_', '.', '\x0B', '\u{a0}', '\u{ff11}', 'é', ' ', ':', '\0', '\u{2003}', 'h'];
            match r.below(3) {
                0 if !c.is_empty() => {
                    let k = r.below(c.len());
                    c.remove(k);
                }
                1 if !c.is_empty() => {
                    let k = r.below(c.len());
                    c[k] = r.pick(&odd);
                }
                _ => {
                    let k = r.below(c.len() + 1);
                    let x = if r.bool() { digit(r) } else { r.pick(&odd) };
                    c.insert(k, x);
                }
            }
            s = c.into_iter().collect();
        }
    }
    if r.one_in(5) {
        s = format!("{}{s}{}", r.pick(&["", " ", "\t", "\n ", "\u{a0}"]), r.pick(&["", " ", "\r\n", "\u{2003}", ":", "-"]));
    }
    s.into_bytes()
}
fn systematic(f: &mut dyn FnMut(Vec<u8>) -> bool) {
    // every text of up to three characters over the interesting alphabet, then mixes of tokens
    let a: Vec<char> = "09aAfFgG xX0:-\n\t+".chars().collect();
    let mut layer = vec![String::new()];
    for _ in 0..4 {
        let mut next = vec![];
        for s in &layer {
            for c in &a {
                next.push(format!("{s}{c}"));
            }
        }
        for s in &next {
            if !f(s.clone().into_bytes()) {
                return;
            }
        }
        layer = next;
    }
    for b in 0..=255u8 {
        for t in [format!("{b:02X}"), format!("{b:02x}"), format!("0x{b:02X}"), format!("0X{b:02x} 00"), format!("00:{b:02X}"), format!("{b:02x}-0x10"), format!("1234{b:02X}")] {
            if !f(t.into_bytes()) {
                return;
            }
        }
    }
    for c in (0..0x3000u32).filter_map(char::from_u32) {
        for t in [format!("12{c}34"), format!("{c}12"), format!("12{c}"), format!("1{c}"), format!("12 {c} 34"), format!("0{c}12")] {
            if !f(t.into_bytes()) {
                return;
            }
        }
    }
}
pub static P19: Prop = Prop {
    id: "P19",
    rule: "counts a case when the text holds at least four hexadecimal digits",
    systematic,
    random,
    check,
    nontrivial: |d| d.iter().filter(|b| b.is_ascii_hexdigit()).count() >= 4,
};
