//! P20: decimal text of integer and BCD records
use crate::engine::*;
use crate::records::{self, Aspect};
use crate::wired;
use m_bus_parser::output::{decode_bytes, decode_data_records, DecodeOptions, RecordOutput};

/// decimal digits, least significant first, of a big-endian binary magnitude
fn to_digits(mut big: Vec<u8>) -> Vec<i32> {
    let mut out = vec![];
    while big.iter().any(|b| *b != 0) {
        let mut rest = 0u32;
        for b in big.iter_mut() {
            let x = rest * 256 + *b as u32;
            *b = (x / 10) as u8;
            rest = x % 10;
        }
        out.push(rest as i32);
    }
    out
}
/// sign and digits of the number the field encodes
fn number(dif: u8, d: &[u8], lsb: bool) -> Option<(bool, Vec<i32>)> {
    let int = |d: &[u8]| {
        let neg = d.last().is_some_and(|b| *b > 127);
        let mut big: Vec<u8> = d.iter().rev().copied().collect();
        if neg {
            big.iter_mut().for_each(|b| *b = 255 - *b);
            for b in big.iter_mut().rev() {
                *b = b.wrapping_add(1);
                if *b != 0 {
                    break;
                }
            }
        }
        Some((neg, to_digits(big)))
    };
    let bcd = |d: &[u8], neg: bool| {
        let mut v = vec![];
        let b: Vec<u8> = if lsb { d.iter().rev().copied().collect() } else { d.to_vec() };
        for x in b {
            v.push((x % 16) as i32);
            v.push((x / 16) as i32);
        }
        Some((neg, v))
    };
    match dif % 16 {
        1..=4 | 6 | 7 => int(d),
        9..=12 | 14 => bcd(d, false),
        13 => match d[0] {
            0xC0..=0xC9 => bcd(&d[1..], false),
            0xD0..=0xD9 => bcd(&d[1..], true),
            0xE0..=0xF6 => int(&d[1..]),
            _ => None,
        },
        _ => None,
    }
}
/// digits at weight 10^(k + m)
fn shifted(v: &[i32], by: isize) -> Vec<i32> {
    let mut r = vec![0; by as usize];
    r.extend(v);
    r
}
fn text(neg: bool, v: &[i32], scale: isize, offset: Option<isize>) -> String {
    let m = scale.min(offset.unwrap_or(scale)).min(0);
    let mut sum = shifted(v, scale - m);
    if neg {
        sum.iter_mut().for_each(|d| *d = -*d);
    }
    if let Some(o) = offset {
        let k = (o - m) as usize;
        if sum.len() <= k {
            sum.resize(k + 1, 0);
        }
        sum[k] += 1;
    }
    let neg = sum.iter().rev().find(|d| **d != 0).is_some_and(|d| *d < 0);
    if neg {
        sum.iter_mut().for_each(|d| *d = -*d);
    }
    let mut carry = 0;
    for d in sum.iter_mut() {
        let x = *d + carry;
        *d = x.rem_euclid(10);
        carry = x.div_euclid(10);
    }
    while carry > 0 {
        sum.push(carry % 10);
        carry /= 10;
    }
    let places = -m as usize;
    let at = |k: usize| char::from(b'0' + sum.get(k).copied().unwrap_or(0) as u8);
    let mut s: String = (places..sum.len().max(places + 1)).rev().map(at).collect();
    s = s.trim_start_matches('0').to_string();
    if s.is_empty() {
        s.push('0');
    }
    let frac: String = (0..places).rev().map(at).collect();
    let frac = frac.trim_end_matches('0');
    if !frac.is_empty() {
        s = format!("{s}.{frac}");
    }
    if neg && s != "0" {
        s.insert(0, '-');
    }
    s
}
/// the text expected for the single record, when the property speaks about it
fn expected(d: &[u8], lsb: bool) -> Option<String> {
    let (a, r) = records::record(d, lsb);
    let r = r?;
    if r.head + r.size != d.len() || !matches!(a, Aspect::Fixed | Aspect::Variable) {
        return None;
    }
    let f = records::dif(d)?;
    let b = records::vib(&d[f.len..])?;
    let v = records::vi(d[f.len], &b.vife)?;
    let adds = records::additive(d[f.len], &b.vife);
    if adds.len() > 1 {
        return None;
    }
    let (neg, digits) = number(d[0], &d[r.head..], lsb)?;
    Some(text(neg, &digits, v.scale, adds.first().copied()))
}
fn judge(what: &str, got: Option<&[RecordOutput]>, want: &str) -> R {
    let Some(got) = got else { return Err(format!("{what}: rejected, expected {want}")) };
    match got {
        [r] if r.value.kind == "decimal" && r.value.value == Some(serde_json::Value::String(want.to_string())) => Ok(()),
        g => Err(format!("{what}: {:?}, expected {want}", g.iter().map(|r| &r.value).collect::<Vec<_>>())),
    }
}
fn check(d: &[u8]) -> R {
    if d.is_empty() || d[0] % 16 == 15 {
        return Ok(());
    }
    if let Some(w) = expected(d, false) {
        let g = decode_data_records(d);
        judge("decode_data_records", g.as_deref().ok(), &w)?;
    }
    for ci in [0x72, 0x76] {
        if let Some(w) = expected(d, ci == 0x76) {
            let mut a = vec![ci, 1, 2, 3, 4, 0x2D, 0x2C, 1, 7, 5, 0, 0, 0];
            a.extend(d);
            let g = decode_bytes(&wired::long(0x08, 1, &a), &DecodeOptions::default());
            judge(&format!("decode_bytes with CI {ci:02X}"), g.as_ref().ok().map(|o| &o.records[..]), &w)?;
        }
    }
    Ok(())
}
fn content(r: &mut Rng, l: usize, bcd: bool) -> Vec<u8> {
    let k = r.below(6);
    (0..l)
        .map(|i| {
            if bcd {
                match k {
                    0 => 0x99,
                    1 => 0,
                    2 => if i == 0 { 1 } else { 0 },
                    3 => r.pick(&[0u8, 0x99, 0x10, 0x01]),
                    _ => (r.below(10) * 16 + r.below(10)) as u8,
                }
            } else {
                match k {
                    0 => 0xFF,
                    1 => 0,
                    2 => if i + 1 == l { 0x80 } else { 0 },
                    3 => r.pick(&[0u8, 0xFF, 0x80, 0x7F, 1]),
                    _ => r.byte(),
                }
            }
        })
        .collect()
}
fn value(r: &mut Rng, dif: u8) -> Vec<u8> {
    match dif % 16 {
        n @ 1..=4 => content(r, n as usize, false),
        6 => content(r, 6, false),
        7 => content(r, 8, false),
        14 => content(r, 6, true),
        n @ 9..=12 => content(r, n as usize - 8, true),
        _ => {
            let (l, n, b) = match r.below(4) {
                0 => {
                    let n = r.below(10);
                    (0xC0 + n, n, true)
                }
                1 => {
                    let n = r.below(10);
                    (0xD0 + n, n, true)
                }
                2 => {
                    let n = r.below(16);
                    (0xE0 + n, n, false)
                }
                _ => r.pick(&[(0xF0, 16, false), (0xF1, 20, false), (0xF2, 24, false), (0xF3, 28, false), (0xF4, 32, false), (0xF5, 48, false), (0xF6, 64, false)]),
            };
            let mut v = vec![l as u8];
            v.extend(content(r, n, b));
            v
        }
    }
}
fn random(r: &mut Rng) -> Vec<u8> {
    let mut d = if r.one_in(8) {
        records::gen_dib(r)
    } else {
        vec![r.pick(&[1u8, 2, 3, 4, 6, 7, 9, 10, 11, 12, 13, 13, 13, 14, 0x44, 0x14])]
    };
    let dif = d[0];
    match r.below(6) {
        0 => d.extend(records::gen_vib(r)),
        1 => d.push(r.byte() & 0x7F),
        2 => {
            let x = 0x78 + r.below(4) as u8;
            d.extend([r.byte() | 0x80, x]);
        }
        3 => {
            let x = [0x78 + r.below(4) as u8 | 0x80, 0x70 + r.below(8) as u8];
            d.push(0x80 | r.below(0x70) as u8);
            d.extend(if r.bool() { x } else { [x[1] | 0x80, x[0] & 0x7F] });
        }
        4 => {
            let x = [0xFC, 0x78 + r.below(4) as u8];
            d.push(0x80 | r.below(0x78) as u8);
            d.extend(x);
        }
        _ => {
            d.push(0xFD);
            let x = r.byte();
            d.push(x);
            if x >= 128 {
                d.push(0x70 + r.below(12) as u8);
            }
        }
    }
    d.extend(value(r, dif));
    d
}
fn systematic(f: &mut dyn FnMut(Vec<u8>) -> bool) {
    // every scale and offset with small and boundary numbers
    let values: &[&[u8]] = &[&[0], &[1], &[9], &[10], &[99], &[100], &[0xFF], &[0x80], &[0x9C], &[0xF6], &[0x7F]];
    for vif in 0..0x7Fu8 {
        for off in [0, 0x78u8, 0x79, 0x7A, 0x7B, 0x70, 0x72, 0x75, 0x76, 0x77, 0x7D] {
            for v in values {
                let mut d = vec![1, vif];
                if off != 0 {
                    d[1] |= 0x80;
                    d.push(off);
                }
                d.extend(*v);
                if !f(d) {
                    return;
                }
            }
        }
    }
    for n in 0..10usize {
        for sign in [0xC0, 0xD0] {
            for pat in [0x99u8, 0x00, 0x01, 0x10, 0x12, 0x90] {
                for last in [0x99u8, 0, 1, 0x12, 0x89] {
                    let mut d = vec![0x0D, 0x13, sign + n as u8];
                    d.extend(vec![pat; n]);
                    if n > 0 {
                        let l = d.len();
                        d[l - 1] = last;
                    }
                    if !f(d) {
                        return;
                    }
                }
            }
        }
    }
    for (l, n) in (0..16).map(|n| (0xE0 + n, n as usize)).chain([(0xF0, 16), (0xF1, 20), (0xF2, 24), (0xF3, 28), (0xF4, 32), (0xF5, 48), (0xF6, 64)]) {
        for a in [0u8, 1, 0xFF, 0x7F, 0x80] {
            for b in [0u8, 1, 0xFF, 0x7F, 0x80] {
                for z in [0u8, 1, 0xFF, 0x7F, 0x80] {
                    let mut d = vec![0x0D, 0x13, l];
                    d.extend((0..n).map(|k| if k == 0 { a } else if k + 1 == n { z } else { b }));
                    if !f(d) {
                        return;
                    }
                }
            }
        }
    }
}
pub static P20: Prop = Prop {
    id: "P20",
    rule: "counts a case when the record is an integer or BCD number with a nonzero scale or an offset",
    systematic,
    random,
    check,
    nontrivial: |d| !d.is_empty() && d[0] % 16 != 15 && expected(d, false).is_some_and(|t| t.len() > 2),
};
