use crate::engine::*;
use m_bus_core::Function;
use wired_mbus_link_layer::{Address, WiredFrame};

pub fn function(c: u8) -> Option<Function> {
    // control field: 0 1 FCB FCV code (primary) / 0 0 ACD DFC code (secondary)
    Some(match c {
        0x40 => Function::SndNk { prm: false },
        0x44 => Function::SndNr,
        0x53 | 0x73 => Function::SndUd { fcb: c & 0x20 != 0 },
        0x5A | 0x7A => Function::ReqUd1 { fcb: c & 0x20 != 0 },
        0x5B | 0x7B => Function::ReqUd2 { fcb: c & 0x20 != 0 },
        0x08 | 0x18 | 0x28 | 0x38 => Function::RspUd { acd: c & 0x20 != 0, dfc: c & 0x10 != 0 },
        _ => return None,
    })
}

fn sum(b: &[u8]) -> u8 {
    (b.iter().map(|x| *x as u64).sum::<u64>() % 256) as u8
}

#[derive(PartialEq, Debug)]
pub enum Kind {
    Single,
    Short,
    Long,
}

pub fn well_formed(d: &[u8]) -> Option<Kind> {
    let n = d.len();
    if n == 1 && d[0] == 0xE5 {
        return Some(Kind::Single);
    }
    if n == 5 && d[0] == 0x10 && d[4] == 0x16 && d[3] == d[1].wrapping_add(d[2]) && function(d[1]).is_some() {
        return Some(Kind::Short);
    }
    if n >= 8
        && d[0] == 0x68
        && d[3] == 0x68
        && d[1] == d[2]
        && n == d[1] as usize + 6
        && d[n - 1] == 0x16
        && sum(&d[4..n - 2]) == d[n - 2]
        && function(d[4]).is_some()
    {
        return Some(Kind::Long);
    }
    None
}

fn address_matches(a: &Address, b: u8) -> bool {
    match b {
        0 => matches!(a, Address::Uninitalized),
        253 => matches!(a, Address::Secondary),
        254 => matches!(a, Address::Broadcast { reply_required: true }),
        255 => matches!(a, Address::Broadcast { reply_required: false }),
        x => matches!(a, Address::Primary(y) if *y == x),
    }
}

fn check01(d: &[u8]) -> R {
    let r = WiredFrame::try_from(d);
    let w = well_formed(d);
    if r.is_ok() != w.is_some() {
        return Err(format!("parsed {r:?}, but the frame is {}", if w.is_some() { "well formed" } else { "not well formed" }));
    }
    Ok(())
}

fn check02(d: &[u8]) -> R {
    let n = d.len();
    let bad = |f: &WiredFrame| Err(format!("reported {f:?}"));
    match WiredFrame::try_from(d) {
        Err(_) => Ok(()),
        Ok(_) if well_formed(d).is_none() => Ok(()),
        Ok(f) => {
            let ok = match &f {
                WiredFrame::SingleCharacter { character } => n == 1 && *character == d[0],
                WiredFrame::ShortFrame { function: fu, address } => {
                    n >= 3 && d[0] == 0x10 && function(d[1]) == Some(*fu) && address_matches(address, d[2])
                }
                WiredFrame::LongFrame { function: fu, address, data } => {
                    n >= 8 && d[0] == 0x68 && d[4] != 0x53 && function(d[4]) == Some(*fu) && address_matches(address, d[5]) && *data == &d[6..n - 2]
                }
                WiredFrame::ControlFrame { function: fu, address, data } => {
                    n >= 8 && d[0] == 0x68 && d[4] == 0x53 && function(d[4]) == Some(*fu) && address_matches(address, d[5]) && *data == &d[6..n - 2]
                }
                _ => false,
            };
            if ok {
                Ok(())
            } else {
                bad(&f)
            }
        }
    }
}

pub fn long(c: u8, a: u8, payload: &[u8]) -> Vec<u8> {
    let l = (payload.len() + 2) as u8;
    let mut v = vec![0x68, l, l, 0x68, c, a];
    v.extend_from_slice(payload);
    let s = sum(&v[4..]);
    v.push(s);
    v.push(0x16);
    v
}
pub fn short(c: u8, a: u8) -> Vec<u8> {
    vec![0x10, c, a, c.wrapping_add(a), 0x16]
}

const FUNCS: [u8; 12] = [0x40, 0x44, 0x53, 0x73, 0x5A, 0x7A, 0x5B, 0x7B, 0x08, 0x18, 0x28, 0x38];

fn systematic(f: &mut dyn FnMut(Vec<u8>) -> bool) {
    if !f(vec![]) {
        return;
    }
    for a in 0..=255u8 {
        if !f(vec![a]) {
            return;
        }
        for b in 0..=255u8 {
            if !f(vec![a, b]) || !f(short(a, b)) || !f(long(a, b, &[0x72])) {
                return;
            }
        }
    }
    for n in 0..=253usize {
        for c in [0x08u8, 0x53, 0x73] {
            let p: Vec<u8> = (0..n).map(|i| (i * 7 + 3) as u8).collect();
            let v = long(c, 1, &p);
            if !f(v.clone()) {
                return;
            }
            // truncations and extensions
            let mut t = v.clone();
            t.pop();
            if !f(t) {
                return;
            }
            let mut t = v.clone();
            t.push(0x16);
            if !f(t) {
                return;
            }
            let mut t = v.clone();
            t.insert(0, 0);
            if !f(t) {
                return;
            }
        }
    }
    // every single-byte change of some frames
    for base in [short(0x5B, 1), short(0x40, 253), long(0x53, 1, &[0x51]), long(0x08, 5, &[0x72, 1, 2, 3, 4, 5, 6, 7, 8]), long(0x08, 5, &[]), vec![0xE5]] {
        for i in 0..base.len() {
            for b in 0..=255u8 {
                let mut v = base.clone();
                v[i] = b;
                if !f(v.clone()) {
                    return;
                }
                // and with the checksum made right again
                let n = v.len();
                if n >= 5 {
                    let from = if v[0] == 0x10 { 1 } else { 4 };
                    v[n - 2] = sum(&v[from.min(n - 2)..n - 2]);
                    if !f(v) {
                        return;
                    }
                }
            }
        }
    }
    // tiny long frames
    for l in 0..4u8 {
        for extra in 0..4usize {
            let mut v = vec![0x68, l, l, 0x68];
            v.extend(std::iter::repeat(0x08).take(extra));
            let s = sum(&v[4..]);
            v.push(s);
            v.push(0x16);
            if !f(v) {
                return;
            }
        }
    }
}

fn random(r: &mut Rng) -> Vec<u8> {
    let c = if r.one_in(5) { r.byte() } else { r.pick(&FUNCS) };
    let a = if r.bool() { r.byte() } else { r.pick(&[0, 1, 250, 251, 252, 253, 254, 255]) };
    let mut v = match r.below(10) {
        0 => vec![0xE5],
        1 | 2 => short(c, a),
        9 => {
            let n = r.below(12);
            let mut v = r.edgy(n);
            if n > 0 && r.bool() {
                v[0] = r.pick(&[0x68, 0x10, 0xE5]);
            }
            v
        }
        _ => {
            let n = match r.below(4) {
                0 => r.below(254),
                1 => 240 + r.below(14),
                _ => r.below(40),
            };
            let p = r.edgy(n);
            long(c, a, &p)
        }
    };
    if r.one_in(3) && !v.is_empty() {
        for _ in 0..=r.below(2) {
            match r.below(4) {
                0 => {
                    let i = r.below(v.len());
                    v[i] = r.byte();
                }
                1 => {
                    let i = r.below(v.len());
                    v[i] ^= 1 << r.below(8);
                }
                2 => {
                    let n = r.below(v.len() + 1);
                    v.truncate(n);
                }
                _ => {
                    let b = r.byte();
                    v.push(b);
                }
            }
            if v.is_empty() {
                break;
            }
        }
        let n = v.len();
        if n >= 5 && r.bool() {
            let from = if v[0] == 0x10 { 1 } else { 4 };
            v[n - 2] = sum(&v[from.min(n - 2)..n - 2]);
        }
    }
    v
}

pub static P01: Prop = Prop {
    id: "P01",
    rule: "all 0..2 byte strings, all short frames, all control/address pairs, every payload length, single-byte changes, random frames with random damage; non-trivial: starts with 10, 68 or E5",
    systematic,
    random,
    check: check01,
    nontrivial: |d| matches!(d.first(), Some(0x10 | 0x68 | 0xE5)),
};
pub static P02: Prop = Prop {
    id: "P02",
    rule: "same generator as P01; non-trivial: well-formed frame",
    systematic,
    random,
    check: check02,
    nontrivial: |d| well_formed(d).is_some(),
};
