//! P18: the annotated segments tile the telegram
use crate::engine::*;
use crate::{app, records, wired, wireless};
use m_bus_parser::annotate::annotate_frame;

fn check(d: &[u8]) -> R {
    let Ok(s) = annotate_frame(d) else { return Ok(()) };
    let mut at = 0;
    for (k, x) in s.iter().enumerate() {
        if x.start != at {
            return Err(format!("segment {k} starts at {} instead of {at}: {s:?}", x.start));
        }
        if x.end <= x.start {
            return Err(format!("segment {k} is empty or reversed: {}..{}", x.start, x.end));
        }
        at = x.end;
    }
    if at != d.len() {
        return Err(format!("the segments end at {at} of {} bytes: {s:?}", d.len()));
    }
    Ok(())
}

fn app_data(r: &mut Rng) -> Vec<u8> {
    let mut v = match r.below(5) {
        0 => app::block(r),
        1 => {
            let c = r.byte();
            let n = r.below(24);
            let mut v = vec![c];
            v.extend(r.bytes(n));
            v
        }
        _ => {
            let (ci, n) = r.pick(&[(0x72u8, 12), (0x76, 12), (0x7A, 4), (0xA0, 5), (0xA3, 4), (0x78, 0), (0x8D, 8), (0x8E, 16)]);
            let mut v = vec![];
            while r.one_in(4) {
                v.push(0x8C);
                v.extend(r.bytes(2));
            }
            v.push(ci);
            v.extend(r.bytes(n));
            if ci < 0x8C || ci >= 0xA0 {
                if r.below(4) != 0 {
                    if let Some(x) = v.last_mut() {
                        if n > 0 {
                            *x &= 0xE0;
                        }
                    }
                }
            }
            v.extend(records::gen_payload(r));
            v
        }
    };
    if r.one_in(8) {
        let n = r.below(v.len() + 1);
        v.truncate(n);
    }
    v
}
fn wireless_frame(r: &mut Rng, a: &[u8]) -> Vec<u8> {
    let mut v = vec![0, r.pick(&[0x44u8, 0x46, 0x08, 0x53]), 0x2D, 0x2C];
    v.extend((0..4).map(|_| (r.below(10) * 16 + r.below(10)) as u8));
    v.extend(r.bytes(2));
    v.extend(a);
    v.truncate(256);
    v[0] = (v.len() - 1) as u8;
    v
}
fn random(r: &mut Rng) -> Vec<u8> {
    let mut a = app_data(r);
    let mut d = match r.below(8) {
        0 => wired::short(r.byte(), r.byte()),
        1 | 2 => {
            a.truncate(252);
            let c = r.pick(&[0x08u8, 0x18, 0x28, 0x38, 0x53, 0x73]);
            wired::long(c, r.byte(), &a)
        }
        3 => wireless_frame(r, &a),
        4 => {
            // trailing checksum over the whole frame
            a.truncate(240);
            let mut v = wireless_frame(r, &a);
            if r.bool() {
                v[0] = v[0].wrapping_add(2);
            }
            let c = wireless::crc(&v);
            v.extend(c.to_be_bytes());
            v
        }
        5 => wireless::format_a(&wireless_frame(r, &a)),
        6 => {
            // blocks of odd sizes, the last one possibly without checksum
            let v = wireless_frame(r, &a);
            let mut o = v[..10].to_vec();
            o.extend(wireless::crc(&v[..10]).to_be_bytes());
            let mut at = 10;
            while at < v.len() {
                let n = (1 + r.below(16)).min(v.len() - at);
                o.extend(&v[at..at + n]);
                if !r.one_in(6) {
                    o.extend(wireless::crc(&v[at..at + n]).to_be_bytes());
                }
                at += n;
            }
            o
        }
        _ => {
            let mut v = wireless_frame(r, &a);
            if v.len() > 12 {
                let c = wireless::crc(&v[..v.len() - 2]).to_be_bytes();
                let l = v.len();
                v[l - 2..].copy_from_slice(&c);
            }
            v
        }
    };
    if r.one_in(12) && !d.is_empty() {
        let k = r.below(d.len());
        d[k] = r.byte();
    }
    if r.one_in(20) {
        let n = r.below(4);
        d.extend(r.bytes(n));
    }
    d
}
fn systematic(f: &mut dyn FnMut(Vec<u8>) -> bool) {
    for b in 0..=255u8 {
        if !f(vec![b]) {
            return;
        }
    }
    // every CI with every short length, in each kind of frame
    for ci in 0..=255u8 {
        for n in 0..24usize {
            let mut a = vec![ci];
            a.extend((0..n).map(|k| [0x04u8, 0x06, 0, 0, 0, 0, 0x2F, 0x01][k % 8]));
            let mut v = vec![0, 0x44, 0x2D, 0x2C, 1, 2, 3, 4, 1, 7];
            v.extend(&a);
            v[0] = (v.len() - 1) as u8;
            for x in [wired::long(0x08, 1, &a), wired::long(0x53, 0xFD, &a), wireless::format_a(&v), v] {
                if !f(x) {
                    return;
                }
            }
        }
    }
    for dif in 0..=255u8 {
        for vif in (0..=255u8).step_by(3).chain([0xFC, 0x7C, 0xFD, 0xFB]) {
            for n in [0usize, 1, 4, 9, 16] {
                let mut a = vec![0x78, dif, vif];
                a.extend(vec![0x03; n]);
                if !f(wired::long(0x08, 1, &a)) {
                    return;
                }
            }
        }
    }
}
pub static P18: Prop = Prop {
    id: "P18",
    rule: "counts a case when annotation succeeds with at least five segments",
    systematic,
    random,
    check,
    nontrivial: |d| annotate_frame(d).is_ok_and(|s| s.len() >= 5),
};
