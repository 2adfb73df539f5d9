//! P25: the annotated segments name the fields they cover
use crate::engine::*;
use crate::{records, tiles, wired, wireless};
use m_bus_parser::annotate::{annotate_frame, ByteSegment, Layer, SegmentKind};
use SegmentKind::*;

#[derive(Debug, PartialEq, Clone)]
struct Seg(usize, usize, SegmentKind, Option<usize>, Layer);

fn fields(out: &mut Vec<Seg>, base: usize, l: Layer, f: &[(usize, SegmentKind)]) {
    let mut at = base;
    for (n, k) in f {
        out.push(Seg(at, at + n, k.clone(), None, l));
        at += n;
    }
}
fn shown_records(out: &mut Vec<Seg>, base: usize, d: &[u8]) {
    let mut o = 0;
    let mut n = 0;
    while o < d.len() {
        let mut part = |from: usize, to: usize, k: SegmentKind, g: Option<usize>| {
            if from < to {
                out.push(Seg(base + from, base + to, k, g, Layer::RecordField));
            }
        };
        match d[o] {
            0x2F => {
                part(o, o + 1, IdleFiller, None);
                o += 1;
            }
            0x0F | 0x1F => {
                part(o, d.len(), ManufacturerSpecific, Some(n));
                return;
            }
            x if x % 16 == 15 => {
                part(o, o + 1, Unknown, None);
                o += 1;
            }
            _ => {
                let r = &d[o..];
                let Some(x) = records::record(r, false).1 else {
                    part(o, d.len(), Unknown, None);
                    return;
                };
                let a = records::dif(r).map_or(0, |x| x.len);
                let Some(v) = records::vib(&r[a..]) else { return };
                let t = a + 1 + v.vife.len();
                let g = Some(n);
                part(o, o + 1, Dif, g);
                part(o + 1, o + a, Dife, g);
                part(o + a, o + a + 1, Vif, g);
                part(o + a + 1, o + t, Vife, g);
                part(o + t, o + x.head, PlaintextVif, g);
                part(o + x.head, o + x.head + x.size, DataPayload, g);
                o += x.head + x.size;
                n += 1;
            }
        }
    }
}
/// false: what follows is left open
fn application(out: &mut Vec<Seg>, base: usize, d: &[u8]) -> bool {
    let Some(&ci) = d.first() else { return true };
    let f: Vec<(usize, SegmentKind)> = match ci {
        0x72 | 0x76 => vec![
            (1, CiField),
            (4, IdentificationNumber),
            (2, ManufacturerCode),
            (1, Version),
            (1, DeviceType),
            (1, AccessNumber),
            (1, Status),
            (2, ConfigurationField),
        ],
        0xA0 => vec![(1, CiField), (1, EncryptionConfigByte), (1, AccessNumber), (1, Status), (2, ConfigurationField)],
        0x7A | 0xA1..=0xAF => vec![(1, CiField), (1, AccessNumber), (1, Status), (2, ConfigurationField)],
        0x78 => vec![(1, CiField)],
        0x8C => vec![(1, CiField), (2, ExtendedLinkLayer)],
        0x8D => vec![(1, CiField), (8, ExtendedLinkLayer)],
        0x8E => vec![(1, CiField), (16, ExtendedLinkLayer)],
        _ => vec![],
    };
    let h: usize = f.iter().map(|x| x.0).sum();
    if h == 0 || d.len() < h {
        fields(out, base, Layer::AppHeader, &[(d.len(), Unknown)]);
        return true;
    }
    fields(out, base, Layer::AppHeader, &f);
    let rest = &d[h..];
    match ci {
        _ if rest.is_empty() => true,
        0x8D | 0x8E => false,
        0x8C => application(out, base + h, rest),
        0x78 => {
            shown_records(out, base + h, rest);
            true
        }
        _ if d[h - 1] % 32 != 0 => {
            fields(out, base + h, Layer::RecordField, &[(rest.len(), EncryptedPayload)]);
            true
        }
        _ => {
            shown_records(out, base + h, rest);
            true
        }
    }
}
fn trailing(d: &[u8]) -> usize {
    let n = d.len();
    if n >= 12 && d[n - 2..] == wireless::crc(&d[..n - 2]).to_be_bytes() { n - 2 } else { n }
}
fn radio(d: &[u8]) -> (Vec<Seg>, bool) {
    let mut out = vec![];
    fields(
        &mut out,
        0,
        Layer::Frame,
        &[(1, LField), (1, CField), (2, ManufacturerCode), (4, IdentificationNumber), (1, Version), (1, DeviceType)],
    );
    let e = trailing(d);
    let whole = application(&mut out, 10, &d[10..e]);
    if e < d.len() && whole {
        fields(&mut out, e, Layer::Frame, &[(2, Crc)]);
    }
    (out, whole)
}
fn wired_list(d: &[u8], k: wired::Kind) -> (Vec<Seg>, bool) {
    let mut out = vec![];
    let mut whole = true;
    let n = d.len();
    match k {
        wired::Kind::Single => fields(&mut out, 0, Layer::Frame, &[(1, StartByte)]),
        wired::Kind::Short => fields(&mut out, 0, Layer::Frame, &[(1, StartByte), (1, CField), (1, AField), (1, Checksum), (1, StopByte)]),
        wired::Kind::Long => {
            fields(&mut out, 0, Layer::Frame, &[(1, StartByte), (2, Length), (1, StartByte), (1, CField), (1, AField)]);
            let u = &d[6..n - 2];
            if d[4] == 0x53 {
                if !u.is_empty() {
                    fields(&mut out, 6, Layer::AppHeader, &[(u.len(), Unknown)]);
                }
            } else {
                whole = application(&mut out, 6, u);
            }
            if whole {
                fields(&mut out, n - 2, Layer::Frame, &[(1, Checksum), (1, StopByte)]);
            }
        }
    }
    (out, whole)
}
/// positions of the bytes that are no checksum, if d is a frame of whole Format A blocks
fn origins(d: &[u8]) -> Option<Vec<usize>> {
    if d.len() < 12 || d[10..12] != wireless::crc(&d[..10]).to_be_bytes() {
        return None;
    }
    let mut m: Vec<usize> = (0..10).collect();
    let mut p = 12;
    while p < d.len() {
        if d.len() - p < 3 {
            return None;
        }
        let n = (d.len() - p - 2).min(16);
        if d[p + n..p + n + 2] != wireless::crc(&d[p..p + n]).to_be_bytes() {
            return None;
        }
        m.extend(p..p + n);
        p += n + 2;
    }
    Some(m)
}
fn per_byte(s: &[ByteSegment], n: usize) -> Vec<Option<(SegmentKind, Option<usize>, Layer)>> {
    let mut v = vec![None; n];
    for x in s {
        for c in v.iter_mut().take(x.end).skip(x.start) {
            *c = Some((x.kind.clone(), x.group, x.layer));
        }
    }
    v
}
fn check(d: &[u8]) -> R {
    let got = annotate_frame(d);
    let k = wired::well_formed(d);
    let accepted = |d: &[u8]| wireless_mbus_link_layer::WirelessFrame::try_from(d).is_ok();
    let Ok(s) = got else {
        if k.is_some() || accepted(d) {
            return Err("a frame that is accepted is not annotated".into());
        }
        return Ok(());
    };
    if k.is_none() {
        if let Some(m) = origins(d) {
            let mut z: Vec<u8> = m.iter().map(|p| d[*p]).collect();
            if z.len() <= 256 {
                z[0] = (z.len() - 1) as u8;
                if accepted(&z) {
                    let (want, whole) = radio(&z);
                    let have = per_byte(&s, d.len());
                    let mut crc: Vec<bool> = vec![true; d.len()];
                    for p in &m {
                        crc[*p] = false;
                    }
                    for x in &want {
                        for q in x.0..x.1 {
                            if have[m[q]] != Some((x.2.clone(), x.3, x.4)) {
                                return Err(format!("byte {} is shown as {:?} instead of {:?} {:?} {:?}", m[q], have[m[q]], x.2, x.3, x.4));
                            }
                        }
                    }
                    let _ = whole;
                    for p in 0..d.len() {
                        if crc[p] && have[p] != Some((Crc, None, Layer::Frame)) {
                            return Err(format!("checksum byte {p} is shown as {:?}", have[p]));
                        }
                    }
                    return Ok(());
                }
            }
        }
        let mut b = [0u8; 512];
        if wireless_mbus_link_layer::strip_format_a_crcs(d, &mut b).is_some() {
            return Ok(());
        }
        if d.len() < 10 {
            return Ok(());
        }
    }
    let (want, whole) = match k {
        Some(k) => wired_list(d, k),
        None => radio(d),
    };
    let have: Vec<Seg> = s.iter().map(|x| Seg(x.start, x.end, x.kind.clone(), x.group, x.layer)).collect();
    for (i, w) in want.iter().enumerate() {
        match have.get(i) {
            Some(h) if h == w => {}
            h => return Err(format!("segment {i} is {h:?} instead of {w:?}")),
        }
    }
    if whole && have.len() > want.len() {
        return Err(format!("segment {:?} after the last", have[want.len()]));
    }
    Ok(())
}
fn random(r: &mut Rng) -> Vec<u8> {
    (tiles::P18.random)(r)
}
fn systematic(f: &mut dyn FnMut(Vec<u8>) -> bool) {
    let mut go = true;
    (tiles::P18.systematic)(&mut |d| {
        go = f(d);
        go
    });
    if !go {
        return;
    }
    // every header and record kind across block borders
    for ci in [0x72u8, 0x76, 0x7A, 0xA0, 0xA5, 0xAF, 0x78, 0x8C, 0x8D, 0x8E, 0x79] {
        for fill in 0..18usize {
            for mode in [0u8, 5, 0x1F] {
                let h = match ci {
                    0x72 | 0x76 => 13,
                    0xA0 => 6,
                    0x78 => 1,
                    _ => 5,
                };
                let mut a = vec![ci];
                a.resize(h, 0x11);
                if h > 1 {
                    a[h - 1] = mode;
                }
                a.extend(vec![0x2F; fill]);
                a.extend([0x84, 0x01, 0x93, 0x3C, 1, 2, 3, 4]);
                a.extend([0x0D, 0xFC, 0x00, 0x03, b'a', b'b', b'c', 0x05, b'h', b'e', b'l', b'l', b'o']);
                a.extend([0x7F, 0x3F, 0x00, 0x6D, 0x08, 0x13, 0x04, 0x6D, 1, 2, 3, 4]);
                a.extend(if fill % 2 == 0 { [0x0Fu8, 1, 2, 3] } else { [0x1F, 9, 9, 9] });
                for cut in [0, 3, 4, 6, 20] {
                    let a = &a[..a.len().saturating_sub(cut)];
                    let mut v = vec![0, 0x44, 0x2D, 0x2C, 1, 2, 3, 4, 1, 7];
                    v.extend(a);
                    v[0] = (v.len() - 1) as u8;
                    let mut t = v.clone();
                    t[0] = t[0].wrapping_add(2);
                    let c = wireless::crc(&t);
                    t.extend(c.to_be_bytes());
                    for x in [wired::long(0x08, 1, a), wired::long(0x53, 1, a), wireless::format_a(&v), wireless::format_a(&t), t.clone(), v] {
                        if !f(x) {
                            return;
                        }
                    }
                }
            }
        }
    }
}
pub static P25: Prop = Prop {
    id: "P25",
    rule: "counts a case when annotation succeeds with at least eight segments",
    systematic,
    random,
    check,
    nontrivial: |d| annotate_frame(d).is_ok_and(|s| s.len() >= 8),
};
