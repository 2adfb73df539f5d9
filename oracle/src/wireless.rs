//! P03 wireless frames, P04 Format A checksums
use crate::codes::{bcd, device, letters};
use crate::engine::*;
use crate::wired::function;
use wireless_mbus_link_layer::*;

/// CRC-16/EN-13757 by polynomial division of the bit string
pub fn crc(d: &[u8]) -> u16 {
    let mut r: u32 = 0;
    for b in d.iter().copied().chain([0, 0]) {
        for k in (0..8).rev() {
            r = (r << 1) | u32::from(b >> k & 1);
            if r & 0x1_0000 != 0 {
                r ^= 0x1_3D65;
            }
        }
    }
    !(r as u16)
}

fn check03(d: &[u8]) -> R {
    let trailing = (d.len() >= 12 && crc(&d[..d.len() - 2]).to_be_bytes() == d[d.len() - 2..]).then(|| d.len() - 2);
    eq("trailing checksum", trailing_frame_crc_start(d), trailing)?;
    let ok = d.len() >= 11
        && d.len() == usize::from(d[0]) + 1
        && letters(u16::from(d[2]) + 256 * u16::from(d[3])).is_some()
        && bcd(&d[4..8]).is_some();
    match (WirelessFrame::try_from(d), ok) {
        (Err(_), false) => Ok(()),
        (Ok(f), true) => {
            eq("control byte", f.control_field, d[1])?;
            eq("function", f.function, function(d[1]))?;
            let m = f.manufacturer_id;
            eq("manufacturer", Some(m.manufacturer_code.code), letters(u16::from(d[2]) + 256 * u16::from(d[3])))?;
            eq("identification number", Some(u64::from(m.identification_number.number)), bcd(&d[4..8]))?;
            eq("version", m.version, d[8])?;
            let t = if d[10] >> 4 == 0xA { d[9] >> 4 } else { d[9] };
            eq("device type", m.device_type, device(t).0)?;
            eq("header alone", ManufacturerId::try_from(&d[2..]), Ok(m))?;
            eq("payload", f.data, &d[10..trailing.unwrap_or(d.len())])
        }
        (g, ok) => Err(format!("{g:?}, expected {}", if ok { "a frame" } else { "an error" })),
    }
}
pub fn header(r: &mut Rng, n: usize) -> Vec<u8> {
    let m: u16 = [r.below(26), r.below(26), r.below(26)].iter().fold(0, |a, l| a * 32 + *l as u16 + 1);
    let mut v = vec![n as u8];
    v.push(r.pick(&[0x44, 0x40, 0x08, 0x45, 0x53, 0x46, 0x7A]));
    v.extend(m.to_le_bytes());
    for _ in 0..4 {
        v.push((r.below(10) * 16 + r.below(10)) as u8);
    }
    v.extend(r.bytes(2));
    v
}
fn rnd03(r: &mut Rng) -> Vec<u8> {
    let p = if r.one_in(12) { r.below(300) } else { r.below(40) };
    let mut v = header(r, 0);
    v.extend(r.bytes(p));
    if p > 0 && r.bool() {
        v[10] = r.pick(&[0x72, 0x7A, 0xA0, 0xA2, 0xAF, 0x9F, 0xB0, 0x8C]);
    }
    let n = v.len();
    v[0] = (n as u8).wrapping_sub(1);
    if r.one_in(3) {
        v[0] = v[0].wrapping_add(2);
        let mut c = crc(&v).to_be_bytes();
        match r.below(6) {
            0 => c.reverse(),
            1 => c[r.below(2)] ^= 1 << r.below(8),
            _ => {}
        }
        v.extend(c);
    }
    match r.below(12) {
        0 => v[0] = v[0].wrapping_add(1),
        1 => {
            let k = r.below(v.len());
            v[k] = r.byte();
        }
        2 => {
            let k = r.below(v.len() + 1);
            v.truncate(k);
        }
        _ => {}
    }
    v
}
fn sys03(f: &mut dyn FnMut(Vec<u8>) -> bool) {
    let base: [u8; 10] = [0, 0x44, 0xAE, 0x4C, 0x44, 0x55, 0x22, 0x33, 0x68, 0x07];
    for n in 0..=258usize {
        for with in [false, true] {
            let mut v = base.to_vec();
            v.extend((10..n).map(|k| (k * 7) as u8));
            v.truncate(n);
            if n > 0 {
                v[0] = (n - 1 + 2 * usize::from(with)) as u8;
            }
            if with {
                let c = crc(&v);
                v.extend(c.to_be_bytes());
            }
            if !f(v) {
                return;
            }
        }
    }
    for ci in [0x7Au8, 0xA5] {
        for p in 0..11 {
            for b in 0..=255u8 {
                let mut v = base.to_vec();
                v.extend([ci, 1, 2, 3]);
                v[0] = 13;
                v[p] = b;
                if !f(v) {
                    return;
                }
            }
        }
    }
}
pub static P03: Prop = Prop {
    id: "P03",
    rule: "every length up to 258 with and without trailing checksum, every value of every header byte, then random frames with damaged lengths, checksums and headers",
    systematic: sys03,
    random: rnd03,
    check: check03,
    nontrivial: |d| d.len() >= 11 && d.len() == usize::from(d[0]) + 1,
};

// ---- P04 -----------------------------------------------------------------------
pub fn format_a(f: &[u8]) -> Vec<u8> {
    let mut v = vec![];
    let (h, t) = f.split_at(10);
    for b in std::iter::once(h).chain(t.chunks(16)) {
        v.extend_from_slice(b);
        v.extend(crc(b).to_be_bytes());
    }
    v
}
/// input: kind, buffer room selector, then a frame to be encoded (kind 0) or raw input (kind 1)
fn check04(i: &[u8]) -> R {
    if i.len() < 2 {
        return Ok(());
    }
    let body = &i[2..];
    let encoded = i[0] % 2 == 0;
    if encoded && body.len() < 10 {
        return Ok(());
    }
    let data = if encoded { format_a(body) } else { body.to_vec() };
    let room = match i[1] % 4 {
        0 => data.len(),
        1 => data.len() + 1 + usize::from(i[1]),
        2 => data.len().saturating_sub(1),
        _ => data.len() / 2,
    };
    let mut out = vec![0xA5u8; room];
    let at = out.as_ptr();
    let r = strip_format_a_crcs(&data, &mut out).map(|s| (s.to_vec(), s.as_ptr()));
    if data.len() < 12 || room < data.len() || crc(&data[..10]).to_be_bytes() != data[10..12] {
        return eq("stripped", r.map(|x| x.0), None);
    }
    if let Some((s, p)) = &r {
        if *p != at || s.len() > room || out[..s.len()] != s[..] {
            return Err("not the beginning of the buffer".into());
        }
        if s.len() < 10 || usize::from(s[0]) + 1 != s.len() {
            return Err(format!("length byte {} for {} bytes", s[0], s.len()));
        }
    }
    if encoded && body.len() <= 256 {
        let mut want = body.to_vec();
        want[0] = (want.len() - 1) as u8;
        return match r {
            Some((s, _)) if s == want => Ok(()),
            g => Err(format!("got {:?}, expected {}", g.map(|x| hex(&x.0)), hex(&want))),
        };
    }
    Ok(())
}
fn sys04(f: &mut dyn FnMut(Vec<u8>) -> bool) {
    for n in 10..=280usize {
        for sel in 0..4u8 {
            for fill in [7usize, 0, 255] {
                let mut v = vec![0, sel];
                v.extend((0..n).map(|k| (k * fill) as u8));
                if !f(v) {
                    return;
                }
            }
        }
    }
    // raw inputs: encoded frames cut, extended or damaged
    for n in [10usize, 11, 20, 26, 27, 42, 50] {
        let frame: Vec<u8> = (0..n).map(|k| (k * 7) as u8).collect();
        let e = format_a(&frame);
        for k in 0..=e.len() {
            if !f([&[1u8, 0][..], &e[..k]].concat()) {
                return;
            }
        }
        for k in 0..e.len() {
            for bit in 0..8 {
                let mut x = e.clone();
                x[k] ^= 1 << bit;
                if !f([&[1u8, 0][..], &x].concat()) {
                    return;
                }
            }
        }
        for t in 1..5 {
            if !f([&[1u8, 0][..], &e, &vec![0x2F; t]].concat()) {
                return;
            }
        }
    }
}
fn rnd04(r: &mut Rng) -> Vec<u8> {
    let n = if r.one_in(6) { r.below(280) } else { r.below(60) };
    let mut f = header(r, n + 9);
    f.extend(r.bytes(n));
    let mut v = vec![0, if r.one_in(4) { r.byte() } else { r.below(2) as u8 }];
    if r.one_in(3) {
        v[0] = 1;
        let mut e = format_a(&f);
        match r.below(4) {
            0 => {
                let k = r.below(e.len());
                e[k] = r.byte();
            }
            1 => {
                let k = r.below(e.len() + 1);
                e.truncate(k);
            }
            2 => {
                let k = r.below(40);
                e.extend(r.bytes(k));
            }
            _ => {}
        }
        v.extend(e);
    } else {
        v.extend(f);
    }
    v
}
pub static P04: Prop = Prop {
    id: "P04",
    rule: "encoded frames of every length up to 280 with four buffer sizes, encoded frames cut at every byte, extended and with every single bit flipped, then random",
    systematic: sys04,
    random: rnd04,
    check: check04,
    nontrivial: |i| i.len() >= 12 && i[0] % 2 == 0,
};
