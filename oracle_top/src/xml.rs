//! P27: the fields of the XML output.
//! Input: a byte choosing the key (0: none), then the frame.
use crate::app::{self, Want};
use crate::engine::*;
use crate::entries::{self, walk, Entry};
use crate::frames::{self, Look, Seen};
use crate::{records, wired, wireless};
use m_bus_parser::output::*;
use m_bus_parser::user_data::UserDataBlock;

pub fn plain(t: &str) -> String {
    t.chars()
        .map(|c| match c {
            '&' => "&amp;".to_string(),
            '<' => "&lt;".into(),
            '>' => "&gt;".into(),
            '"' => "&quot;".into(),
            c if (c as u32) < 32 || c as u32 == 127 => " ".into(),
            c => c.to_string(),
        })
        .collect()
}
/// the elements of a text with one element a line
fn fields(t: &str) -> Option<Vec<(String, String)>> {
    let mut v = vec![];
    for l in t.lines().map(str::trim).filter(|l| !l.is_empty()) {
        let (name, rest) = l.strip_prefix('<')?.split_once('>')?;
        let x = rest.strip_suffix(&format!("</{name}>"))?;
        v.push((name.to_string(), x.to_string()));
    }
    Some(v)
}
/// the text between two marks, and what comes behind
fn between<'a>(t: &'a str, a: &str, b: &str) -> Option<(&'a str, &'a str)> {
    t.trim_start().strip_prefix(a)?.split_once(b)
}
pub fn find<'a>(v: &'a [(String, String)], n: &str) -> Option<&'a str> {
    v.iter().find(|x| x.0 == n).map(|x| x.1.as_str())
}
pub struct Head {
    pub number: u32,
    pub code: Option<[char; 3]>,
    pub version: u8,
    pub medium: u8,
    access: Option<u8>,
    status: Option<u8>,
    signature: Option<u16>,
}
pub fn head(s: &Seen) -> Option<Head> {
    let h = s.link.as_ref().map(|l| Head { number: l.number, code: Some(l.code), version: l.version, medium: l.device, access: None, status: None, signature: None });
    match s.app.as_ref().map(|a| app::want(a)) {
        Some(Want::Variable { block, .. }) => match block {
            UserDataBlock::VariableDataStructureWithLongTplHeader { long_tpl_header: l, .. } => Some(Head {
                number: l.identification_number.number,
                code: l.manufacturer.ok().map(|m| m.code),
                version: l.version,
                medium: u8::from(l.device_type),
                access: Some(l.short_tpl_header.access_number),
                status: Some(l.short_tpl_header.status.bits()),
                signature: Some(l.short_tpl_header.configuration_field.raw()),
            }),
            UserDataBlock::VariableDataStructureWithShortTplHeader { extended_link_layer: e, short_tpl_header: t, .. } => h.map(|h| match e {
                Some(e) if e.encryption.is_some() && t.configuration_field.raw() & 0x1F00 == 0 => Head { access: Some(e.access_number), ..h },
                _ => Head { access: Some(t.access_number), status: Some(t.status.bits()), signature: Some(t.configuration_field.raw()), ..h },
            }),
            UserDataBlock::VariableDataStructureWithoutTplHeader { extended_link_layer: e, .. } => {
                h.map(|h| Head { access: e.map(|e| e.access_number), ..h })
            }
            _ => None,
        },
        Some(Want::Fixed { .. }) => None,
        _ => h,
    }
}
fn two(d: &[u8]) -> String {
    hex(d)
}
fn day(a: u8, b: u8) -> String {
    let y = 2000 + u32::from(a / 32) + 8 * u32::from(b / 16);
    format!("{y}-{:02}-{:02}", b % 16, a % 32)
}
pub enum Shown {
    Number(f64),
    Text(String),
}
pub fn shown(dif: u8, vif: u8, vife: Option<u8>, d: &[u8]) -> Option<Shown> {
    let clock = vif % 128 == 0x6D || (vif == 0xFD && vife.is_some_and(|x| matches!(x % 128, 0x30 | 0x70)));
    let n = match dif % 16 {
        0 => return Some(Shown::Text(String::new())),
        8 => return None,
        13 => {
            let (l, t) = d.split_first()?;
            return Some(Shown::Text(if *l <= 0xBF {
                let b: Vec<u8> = t.iter().rev().copied().collect();
                String::from_utf8_lossy(&b).to_string()
            } else {
                two(t)
            }));
        }
        15 => return Some(Shown::Text(two(d))),
        5 => return Some(Shown::Number(f64::from(f32::from_bits(u32::from_le_bytes(d.get(..4)?.try_into().ok()?))))),
        6 | 14 => 6,
        7 => 8,
        n @ 1..=4 => n as usize,
        n => n as usize - 8,
    };
    let d = d.get(..n)?;
    Some(match dif % 16 {
        2 if vif % 128 == 0x6C => Shown::Text(day(d[0], d[1])),
        4 if clock && d[0] < 128 => Shown::Text(format!("{}T{:02}:{:02}:00Z", day(d[2], d[3]), d[1] % 32, d[0] % 64)),
        6 if clock && d[1] < 128 => Shown::Text(format!("{}T{:02}:{:02}:{:02}Z", day(d[3], d[4]), d[2] % 32, d[1] % 64, d[0] % 64)),
        4 | 6 if clock => Shown::Text("1900-01-00T00:00:00Z".into()),
        1..=7 => {
            let mut b = [if d[n - 1] >= 128 { 255 } else { 0 }; 16];
            b[..n].copy_from_slice(d);
            Shown::Number(i128::from_le_bytes(b) as f64)
        }
        _ => {
            let v = d.iter().rev().fold(0i128, |a, b| a * 100 + i128::from(if b / 16 < 10 { b / 16 } else { 0 }) * 10 + i128::from(b % 16));
            Shown::Number(if d[n - 1] / 16 == 15 { -v } else { v } as f64)
        }
    })
}
/// units with factor one
fn unscaled(vif: u8) -> bool {
    matches!(vif, 0x03 | 0x08 | 0x16 | 0x1B | 0x20 | 0x24 | 0x2B | 0x30 | 0x3E | 0x47 | 0x53 | 0x5B | 0x5F | 0x63 | 0x67 | 0x6B | 0x6C | 0x6D | 0x6E | 0x70 | 0x74 | 0x78 | 0x7A)
}
fn entry(n: &[(String, String)], b: &[u8], e: &Entry) -> R {
    let d = &b[e.at..];
    let dif = d[0];
    let f = records::dif(d).ok_or("no DIB")?;
    let raw = &d[e.head..e.head + e.size];
    let own = dif == 0x0F || dif == 0x1F;
    let (vif, vife) = if own {
        (0, None)
    } else {
        match records::vib(&d[f.len..]) {
            Some(v) if dif % 16 != 15 => (d[f.len], v.vife.first().copied()),
            _ => return eq("fields of a record without value information", n.len(), 0),
        }
    };
    let Some(v) = shown(dif, vif, vife, raw) else { return eq("fields of a record without a value", n.len(), 0) };
    // the table of units is not judged
    if n.is_empty() && !own && (vif >= 128 || !unscaled(vif)) {
        return Ok(());
    }
    let mut names = vec!["Function", "StorageNumber"];
    let function = match dif {
        0x0F => "Manufacturer specific",
        0x1F => "More records follow",
        x => ["Instantaneous value", "Maximum value", "Minimum value", "Value during error state"][(x / 16 % 4) as usize],
    };
    eq("function", find(n, "Function"), Some(function))?;
    eq("storage number", find(n, "StorageNumber"), Some(f.storage.to_string().as_str()))?;
    if f.len > 1 {
        names.extend(["Tariff", "Device"]);
        eq("tariff", find(n, "Tariff"), Some(f.tariff.to_string().as_str()))?;
        eq("device", find(n, "Device"), Some(f.subunit.to_string().as_str()))?;
    }
    names.extend(["Unit", "Quantity", "Value"]);
    eq("fields", n.iter().map(|x| x.0.as_str()).collect::<Vec<_>>(), names)?;
    let g = find(n, "Value").unwrap_or("");
    match v {
        Shown::Text(t) => eq("value", g, plain(&t).trim_matches('\n')),
        Shown::Number(x) if unscaled(vif) => eq("value", g, format!("{x:.6}").as_str()),
        Shown::Number(x) => eq(&format!("value {g:?} is a number"), g.parse::<f64>().is_ok() || !x.is_finite(), true),
    }
}
pub fn render(i: &[u8]) -> Result<String, OutputError> {
    let decode = DecodeOptions { key: frames::key(i[0]), include_enrichment: false };
    render_bytes(&i[1..], OutputFormat::Xml, &RenderOptions { decode, ..Default::default() })
}
pub type Fields = Vec<(String, String)>;
/// the elements of the header and of each record
pub fn parts(t: &str) -> Option<(Fields, Vec<Fields>)> {
    let t = t.strip_prefix("<?xml version=\"1.0\" encoding=\"ISO-8859-1\"?>\n")?;
    let (a, t) = between(t, "<MBusData>", "</MBusData>")?;
    if t != "\n" {
        return None;
    }
    let (info, mut t) = between(a, "<SlaveInformation>\n", "</SlaveInformation>\n")?;
    let mut recs = vec![];
    while !t.trim().is_empty() {
        let (r, rest) = between(t, &format!("<DataRecord id=\"{}\">\n", recs.len()), "</DataRecord>\n")?;
        recs.push(fields(r)?);
        t = rest;
    }
    Some((fields(info)?, recs))
}
fn check(i: &[u8]) -> R {
    if i.is_empty() {
        return Ok(());
    }
    let k = frames::key(i[0]);
    let s = match frames::look(&i[1..]) {
        Look::Frame(s) => s,
        Look::Open => return Ok(()),
        Look::Refused => return eq("refused", render(i).is_err(), true),
    };
    let Some(h) = head(&s) else { return Ok(()) };
    let x = frames::inside(&s, &k);
    if s.link.is_none() && x.secret && k.is_none() {
        return Ok(());
    }
    let t = match (render(i), x.secret && k.is_some() && x.opened.is_none()) {
        (Err(_), true) => return Ok(()),
        (Ok(_), true) => return Err("rendered although the payload cannot be decrypted".into()),
        (Err(e), false) => return Err(format!("refused with {e:?}")),
        (Ok(t), false) => t,
    };
    let Some((info, recs)) = parts(&t) else { return Err(format!("not the expected elements: {t}")) };
    let mut names = vec!["Id", "Manufacturer", "Version", "ProductName", "Medium"];
    eq("identification number", find(&info, "Id"), Some(h.number.to_string().as_str()))?;
    eq("manufacturer", find(&info, "Manufacturer"), Some(h.code.map_or(String::new(), |c| c.iter().collect()).as_str()))?;
    eq("version", find(&info, "Version"), Some(h.version.to_string().as_str()))?;
    for (n, v) in [
        ("AccessNumber", h.access.map(|x| x.to_string())),
        ("Status", h.status.map(|x| format!("{x:02X}"))),
        ("Signature", h.signature.map(|x| format!("{x:04X}"))),
    ] {
        if v.is_some() {
            names.push(n);
        }
        eq(n, find(&info, n), v.as_deref())?;
    }
    eq("fields of the header", info.iter().map(|x| x.0.as_str()).collect::<Vec<_>>(), names)?;
    let source = if x.secret { x.opened } else { x.body };
    let list = source.as_ref().map_or(vec![], |b| walk(b, x.lsb).0);
    eq("number of records", recs.len(), list.len())?;
    for (n, (g, e)) in recs.iter().zip(&list).enumerate() {
        entry(g, source.as_ref().unwrap(), e).map_err(|m| format!("record {n}: {m}"))?;
    }
    Ok(())
}
pub const LONG: [u8; 13] = [0x72, 0x78, 0x56, 0x34, 0x12, 0x2D, 0x2C, 1, 7, 5, 0, 0, 0];
pub fn of(d: &[u8], kind: usize) -> Vec<u8> {
    let mut v = vec![0];
    if kind == 0 {
        let mut a = LONG.to_vec();
        a.extend(d);
        v.extend(wired::long(0x08, 1, &a));
    } else {
        let mut f = vec![0, 0x44, 0x2D, 0x2C, 0x78, 0x56, 0x34, 0x12, 1, 7];
        f.extend([&LONG[..], &[0x7A, 9, 3, 0, 0], &[0x78]][kind - 1]);
        f.extend(d);
        f[0] = (f.len() - 1) as u8;
        v.extend(if d.len() % 2 == 0 { wireless::format_a(&f) } else { f });
    }
    v
}
fn random(r: &mut Rng) -> Vec<u8> {
    if r.one_in(4) {
        return (if r.bool() { frames::P23.random } else { frames::P24.random })(r);
    }
    let mut a = vec![];
    for _ in 0..1 + r.below(3) {
        let mut e = match r.below(4) {
            0 => (entries::P22.random)(r),
            1 => {
                // text and bytes of variable length
                let l = r.pick(&[0u8, 1, 2, 5, 12, 30, 0xC1, 0xC3, 0xD2, 0xE1, 0xE4]);
                let n = if l < 0xC0 { l as usize } else { (l % 16) as usize };
                let mut e = vec![0x0D, r.pick(&[0x78u8, 0x79, 0x03, 0x6C]), l];
                for _ in 0..n {
                    e.push(if r.one_in(3) { r.pick(b"&<>\"\n\t\x7f\x00\xc3\xa9 ") } else { 0x20 + r.below(96) as u8 });
                }
                e
            }
            2 => {
                let f = r.pick(&[1u8, 2, 3, 4, 5, 6, 7, 9, 10, 11, 12, 14]);
                let n = match f {
                    5 => 4,
                    6 | 14 => 6,
                    7 => 8,
                    n if n > 8 => n - 8,
                    n => n,
                };
                let mut e = vec![f | r.pick(&[0u8, 0x10, 0x20, 0x30, 0x40, 0x70]), r.pick(&[0x03u8, 0x08, 0x16, 0x2B, 0x78, 0x13, 0x5A])];
                if r.one_in(4) {
                    e[0] |= 0x80;
                    let m = r.below(3);
                    for j in 0..=m {
                        let b = r.byte() & 0x7F;
                        e.insert(1 + j, if j == m { b } else { b | 0x80 });
                    }
                }
                for _ in 0..n {
                    e.push(if r.bool() { r.byte() } else { (r.below(10) * 16 + r.below(10)) as u8 });
                }
                if r.one_in(4) {
                    *e.last_mut().unwrap() |= 0xF0;
                }
                e
            }
            _ => (entries::P21.random)(r),
        };
        a.append(&mut e);
    }
    if r.one_in(8) {
        a.push(r.pick(&[0x0Fu8, 0x1F]));
        let n = r.below(6);
        a.extend(r.bytes(n));
    }
    if r.one_in(5) {
        let (h, m, x) = (r.below(4), r.pick(&[5u8, 7]), r.byte());
        return frames::sealed(&a, h, m, x);
    }
    a.truncate(220);
    let k = r.below(4);
    of(&a, k)
}
fn systematic(f: &mut dyn FnMut(Vec<u8>) -> bool) {
    let mut go = true;
    let mut n = 0;
    for s in [entries::P21.systematic, entries::P22.systematic] {
        s(&mut |d| {
            n += 1;
            if d.len() < 200 && (n % 5 == 0 || n < 500) {
                go = f(of(&d, n % 4));
            }
            go
        });
        if !go {
            return;
        }
    }
    for vif in [0x03u8, 0x78, 0x6C, 0x6D] {
        for c in [1u8, 9] {
            for b in 0..=255u8 {
                if !f(of(&[c, vif, b], 0)) || !f(of(&[c | 2, vif, 0x12, b], 0)[..].to_vec()) {
                    return;
                }
            }
        }
    }
    for x in 0..=255u8 {
        for d in [vec![0x0D, 0x78, 1, x], vec![0x0D, 0x78, 3, 0x41, x, 0x42], vec![0x0F, x], vec![0x04, 0xFD, 0x30, x, 12, 0x21, 0x1A], vec![0x06, 0xFD, 0x70, 5, x, 12, 0x21, 0x1A, 0]] {
            if !f(of(&d, 0)) {
                return;
            }
        }
        let mut v = of(&[1, 0x78, x], 0);
        for at in 1..13 {
            let mut a = LONG.to_vec();
            a[at] = x;
            a.extend([1, 0x78, x]);
            v.truncate(1);
            v.extend(wired::long(0x08, 1, &a));
            if !f(v.clone()) {
                return;
            }
        }
    }
    for s in [frames::P23.systematic, frames::P24.systematic] {
        let mut n = 0;
        s(&mut |d| {
            n += 1;
            if n % 7 == 0 || n < 500 {
                go = f(d);
            }
            go
        });
        if !go {
            return;
        }
    }
}
pub static P27: Prop = Prop {
    id: "P27",
    rule: "counts a case when the XML text holds at least one record",
    systematic,
    random,
    check,
    nontrivial: |i| i.len() > 1 && render(i).is_ok_and(|t| t.contains("<DataRecord")),
};
