//! P23 and P24: what the typed output says about a whole frame.
//! Input: a byte choosing the key (0: none), then the frame.
use crate::app::{self, Want};
use crate::codes::{self, bcd, device, letters, mode};
use crate::engine::*;
use crate::entries::walk;
use crate::{records, wired, wireless};
use m_bus_core::decryption::KeyContext;
use m_bus_core::{Function, ManufacturerCode};
use m_bus_parser::output::*;
use m_bus_parser::user_data::extended_link_layer::ExtendedLinkLayer;
use m_bus_parser::user_data::{ShortTplHeader, UserDataBlock};

pub struct Link {
    pub code: [char; 3],
    pub number: u32,
    pub version: u8,
    pub device: u8,
}
pub struct Seen {
    pub kind: &'static str,
    pub function: Option<String>,
    pub address: Option<String>,
    pub control: Option<String>,
    pub normal: Vec<u8>,
    pub payload: Option<Vec<u8>>,
    /// the bytes read as an application layer
    pub app: Option<Vec<u8>>,
    pub link: Option<Link>,
}
pub enum Look {
    Frame(Seen),
    Refused,
    /// checksums that are right in part: left to P04
    Open,
}
fn name(f: Function) -> String {
    match f {
        Function::SndNk { prm } => format!("SND_NKE (PRM: {prm})"),
        Function::SndNr => "SND_NR".into(),
        Function::SndUd { fcb } => format!("SND_UD (FCB: {fcb})"),
        Function::ReqUd1 { fcb } => format!("REQ_UD1 (FCB: {fcb})"),
        Function::ReqUd2 { fcb } => format!("REQ_UD2 (FCB: {fcb})"),
        Function::RspUd { acd, dfc } => format!("RSP_UD (ACD: {acd}, DFC: {dfc})"),
        _ => "?".into(),
    }
}
fn address(b: u8) -> String {
    match b {
        0 => "Uninitalized".into(),
        253 => "Secondary".into(),
        254 => "Broadcast (Reply Required: true)".into(),
        255 => "Broadcast (Reply Required: false)".into(),
        n => format!("Primary ({n})"),
    }
}
/// the frame without the checksum behind each of its blocks
fn unblocked(d: &[u8]) -> Option<Vec<u8>> {
    let mut v = d[..10].to_vec();
    for b in d[12..].chunks(18) {
        if b.len() < 3 {
            return None;
        }
        v.extend(&b[..b.len() - 2]);
    }
    if wireless::format_a(&v) != d || v.len() > 256 {
        return None;
    }
    v[0] = (v.len() - 1) as u8;
    Some(v)
}
pub fn look(d: &[u8]) -> Look {
    if let Some(k) = wired::well_formed(d) {
        let long = matches!(k, wired::Kind::Long);
        let (kind, c) = match k {
            wired::Kind::Single => ("single_character", None),
            wired::Kind::Short => ("short", Some((d[1], d[2]))),
            wired::Kind::Long => (if d[4] == 0x53 { "control" } else { "long" }, Some((d[4], d[5]))),
        };
        let payload = long.then(|| d[6..d.len() - 2].to_vec());
        return Look::Frame(Seen {
            kind,
            function: c.and_then(|c| wired::function(c.0)).map(name),
            address: c.map(|c| address(c.1)),
            control: None,
            normal: d.to_vec(),
            app: payload.clone().filter(|_| kind == "long"),
            payload,
            link: None,
        });
    }
    let mut n = d.to_vec();
    if d.len() >= 12 && d.len() <= 512 && wireless::crc(&d[..10]).to_be_bytes() == d[10..12] {
        match unblocked(d) {
            Some(x) => n = x,
            None => return Look::Open,
        }
    }
    let Some(link) = (n.len() >= 11 && n.len() == usize::from(n[0]) + 1)
        .then(|| {
            Some(Link {
                code: letters(u16::from(n[2]) + 256 * u16::from(n[3]))?,
                number: bcd(&n[4..8])? as u32,
                version: n[8],
                device: if n[10] >> 4 == 0xA { n[9] >> 4 } else { n[9] },
            })
        })
        .flatten()
    else {
        return Look::Refused;
    };
    let end = if n.len() >= 12 && wireless::crc(&n[..n.len() - 2]).to_be_bytes() == n[n.len() - 2..] { n.len() - 2 } else { n.len() };
    let payload = n[10..end].to_vec();
    Look::Frame(Seen {
        kind: "wireless",
        function: wired::function(n[1]).map(name),
        address: None,
        control: Some(format!("{:02X}", n[1])),
        app: Some(payload.clone()),
        payload: Some(payload),
        normal: n,
        link: Some(link),
    })
}
fn tight(d: &[u8]) -> String {
    d.iter().map(|b| format!("{b:02X}")).collect()
}
pub fn key(k: u8) -> Option<[u8; 16]> {
    (k != 0).then(|| core::array::from_fn(|i| k.wrapping_mul(31).wrapping_add(i as u8 * 17)))
}
fn run(i: &[u8]) -> (Result<DecodedOutput, OutputError>, Option<[u8; 16]>) {
    let k = key(i[0]);
    (decode_bytes(&i[1..], &DecodeOptions { key: k, include_enrichment: false }), k)
}

// ------------------------------------------------------------ headers

fn identity(o: &MeterIdentity, source: &str, number: u32, code: Option<[char; 3]>, version: u8, dev: u8) -> R {
    eq("identity source", o.source.as_str(), source)?;
    eq("identification number", o.id.clone(), Some(format!("{number:08}")))?;
    eq("manufacturer", o.manufacturer_code.clone(), code.map(|c| c.iter().collect::<String>()))?;
    eq("version", o.version, Some(version))?;
    eq("device type", o.device_type.clone(), Some(device(dev).1))?;
    eq("device type code", o.device_type_code, Some(dev))
}
fn status(b: u8) -> String {
    const T: [&str; 8] = [
        "Counter binary signed", "Counter fixed date", "Power low", "Permanent error", "Temporary error",
        "Manufacturer specific 1", "Manufacturer specific 2", "Manufacturer specific 3",
    ];
    if b == 0 {
        return "No Error(s)".into();
    }
    (0..8).filter(|k| b >> k & 1 == 1).map(|k| T[k]).collect::<Vec<_>>().join(", ")
}
fn numbers(o: &TransportOutput, want: &[(&str, u8)]) -> R {
    eq("access numbers", o.access_numbers.iter().map(|x| (x.source.as_str(), x.value)).collect::<Vec<_>>(), want.to_vec())
}
fn statuses(o: &TransportOutput, want: &[(&str, u8)]) -> R {
    let w: Vec<_> = want.iter().map(|(s, b)| (s.to_string(), format!("{b:02X}"), status(*b))).collect();
    eq("statuses", o.statuses.iter().map(|x| (x.source.clone(), x.raw.clone(), x.display.clone())).collect::<Vec<_>>(), w)
}
fn configuration(o: &TransportOutput, want: Option<(&str, u16)>) -> R {
    eq("configuration", o.configuration.as_ref().map(|c| (c.source.as_str(), c.raw.clone())), want.map(|(s, c)| (s, format!("{c:04X}"))))
}
fn ell(o: &TransportOutput, want: Option<&ExtendedLinkLayer>) -> R {
    match (&o.ell, want) {
        (None, None) => Ok(()),
        (Some(g), Some(w)) => {
            eq("communication control", g.communication_control.clone(), format!("{:02X}", w.communication_control))?;
            eq("link layer access number", g.access_number, w.access_number)?;
            eq("receiver manufacturer", g.receiver_manufacturer.clone(), w.receiver_address.as_ref().map(|a| format!("{:04X}", a.manufacturer)))?;
            eq("receiver address", g.receiver_address.clone(), w.receiver_address.as_ref().map(|a| tight(&a.address)))?;
            eq("session number", g.session_number.clone(), w.encryption.as_ref().map(|a| tight(&a.session_number)))?;
            eq("payload checksum", g.payload_crc.clone(), w.encryption.as_ref().map(|a| format!("{:04X}", a.payload_crc)))
        }
        (g, w) => Err(format!("extended link layer {g:?}, expected {w:?}")),
    }
}
fn kind(o: &TransportOutput, want: Option<&str>) -> R {
    eq("header kind", o.header_kind.as_deref(), want)
}
fn short(o: &TransportOutput, s: &str, h: &ShortTplHeader) -> R {
    numbers(o, &[(s, h.access_number)])?;
    statuses(o, &[(s, h.status.bits())])?;
    configuration(o, Some((s, h.configuration_field.raw())))
}
fn none(o: &TransportOutput) -> R {
    numbers(o, &[])?;
    statuses(o, &[])?;
    configuration(o, None)?;
    ell(o, None)
}
fn heads(o: &DecodedOutput, s: &Seen) -> R {
    let t = &o.transport;
    let linked = |x: &MeterIdentity| {
        let l = s.link.as_ref().ok_or("an identity of the link layer without one")?;
        identity(x, "link.wireless", l.number, Some(l.code), l.version, l.device)
    };
    let w = s.app.as_ref().map(|a| app::want(a));
    let alternates = &o.meter.alternate_identities;
    let own = o.meter.identity.as_ref();
    match w {
        None | Some(Want::Error) => {
            kind(t, None)?;
            none(t)?;
        }
        Some(Want::Reset(_)) => {
            kind(t, Some("application_reset"))?;
            none(t)?;
        }
        Some(Want::Fixed { number, access, status: st, unit, .. }) => {
            kind(t, Some("fixed"))?;
            numbers(t, &[("application.fixed", access)])?;
            statuses(t, &[("application.fixed", st)])?;
            configuration(t, None)?;
            ell(t, None)?;
            let x = own.ok_or("no identity")?;
            eq("identity source", x.source.as_str(), "application.fixed")?;
            eq("identification number", x.id.clone(), Some(format!("{number:08}")))?;
            eq("device type", x.device_type.clone(), Some(format!("fixed type/unit 0x{unit:04X}")))?;
            eq("not told", (x.manufacturer_code.clone(), x.version, x.device_type_code), (None, None, None))?;
            return eq("alternate identities", alternates.len(), 0);
        }
        Some(Want::Variable { block, .. }) => match block {
            UserDataBlock::VariableDataStructureWithLongTplHeader { extended_link_layer, long_tpl_header: h, .. } => {
                kind(t, Some("long_tpl"))?;
                short(t, "tpl.long", &h.short_tpl_header)?;
                ell(t, extended_link_layer.as_ref())?;
                let a = s.app.as_ref().unwrap();
                identity(own.ok_or("no identity")?, "tpl.long", h.identification_number.number, h.manufacturer.ok().map(|m| m.code), h.version, a[8])?;
                eq("alternate identities", alternates.len(), usize::from(s.link.is_some()))?;
                return alternates.iter().try_for_each(linked);
            }
            UserDataBlock::VariableDataStructureWithShortTplHeader { extended_link_layer: e, short_tpl_header: h, .. } => {
                ell(t, e.as_ref())?;
                match e {
                    Some(x) if x.encryption.is_some() && h.configuration_field.raw() & 0x1F00 == 0 => {
                        kind(t, Some("ell"))?;
                        numbers(t, &[("ell", x.access_number)])?;
                        statuses(t, &[])?;
                        configuration(t, None)?;
                    }
                    _ => {
                        kind(t, Some("short_tpl"))?;
                        short(t, "tpl.short", &h)?;
                    }
                }
            }
            UserDataBlock::VariableDataStructureWithoutTplHeader { extended_link_layer: e, .. } => {
                ell(t, e.as_ref())?;
                statuses(t, &[])?;
                configuration(t, None)?;
                kind(t, Some(if e.is_some() { "ell" } else { "none" }))?;
                match e {
                    Some(x) => numbers(t, &[("ell", x.access_number)])?,
                    None => numbers(t, &[])?,
                }
            }
            _ => return Ok(()),
        },
    }
    eq("alternate identities", alternates.len(), 0)?;
    match own {
        Some(x) => linked(x),
        None => eq("identity of the link layer left out", s.link.is_some(), false),
    }
}
fn check23(i: &[u8]) -> R {
    if i.is_empty() {
        return Ok(());
    }
    let (Ok(o), _) = run(i) else { return Ok(()) };
    let Look::Frame(s) = look(&i[1..]) else { return Ok(()) };
    eq("protocol", o.protocol.as_str(), if s.link.is_some() { "wireless" } else { "wired" })?;
    eq("kind", o.frame.kind.as_str(), s.kind)?;
    eq("function", &o.frame.function, &s.function)?;
    eq("address", &o.frame.address, &s.address)?;
    eq("control field", &o.frame.control_field, &s.control)?;
    eq("frame as given", o.raw.original_frame_hex.clone(), tight(&i[1..]))?;
    eq("frame without checksums", o.raw.normalized_frame_hex.clone(), tight(&s.normal))?;
    eq("length", o.raw.byte_length, i.len() - 1)?;
    eq("checksums removed", o.raw.format_a_crc_stripped, s.normal.len() != i.len() - 1)?;
    eq("payload", o.raw.payload_hex.clone(), s.payload.as_deref().map(tight))?;
    heads(&o, &s)
}

// ------------------------------------------------------------ security

/// what a frame holds and what a key makes of it
pub struct Inside {
    pub broken: bool,
    pub modes: Option<u8>,
    pub lsb: bool,
    pub body: Option<Vec<u8>>,
    pub secret: bool,
    pub opened: Option<Vec<u8>>,
}
pub fn inside(s: &Seen, k: &Option<[u8; 16]>) -> Inside {
    let w = s.app.as_ref().map(|a| app::want(a));
    let broken = matches!(w, Some(Want::Error));
    let (mut modes, mut hidden, mut lsb) = (None, false, false);
    let (mut body, mut context): (Option<Vec<u8>>, Option<KeyContext>) = (None, None);
    if let Some(Want::Variable { block, payload, .. }) = w {
        body = Some(s.app.as_ref().unwrap()[payload..].to_vec());
        match block {
            UserDataBlock::VariableDataStructureWithLongTplHeader { long_tpl_header: h, .. } => {
                let c = &h.short_tpl_header;
                modes = Some((c.configuration_field.raw() >> 8) as u8 % 32);
                lsb = h.lsb_order;
                context = h.manufacturer.ok().map(|m| KeyContext {
                    manufacturer: m,
                    identification_number: h.identification_number.number,
                    version: h.version,
                    device_type: h.device_type,
                    security_mode: mode(modes.unwrap()).0,
                    access_number: c.access_number,
                });
            }
            UserDataBlock::VariableDataStructureWithShortTplHeader { extended_link_layer, short_tpl_header: h, .. } => {
                let m = (h.configuration_field.raw() >> 8) as u8 % 32;
                hidden = extended_link_layer.is_some_and(|e| e.encryption.is_some());
                if !(hidden && m == 0) {
                    modes = Some(m);
                }
                context = s.link.as_ref().map(|l| KeyContext {
                    manufacturer: ManufacturerCode { code: l.code },
                    identification_number: l.number,
                    version: l.version,
                    device_type: device(l.device).0,
                    security_mode: mode(m).0,
                    access_number: h.access_number,
                });
            }
            _ => {}
        }
    }
    let secret = hidden || modes.is_some_and(|m| m != 0);
    let opened = match (secret, k, &context, &body) {
        (true, Some(k), Some(c), Some(b)) if modes.is_some() => codes::plain(c, Some(k), b, 512),
        _ => None,
    };
    Inside { broken, modes, lsb, body, secret, opened }
}
fn check24(i: &[u8]) -> R {
    if i.is_empty() {
        return Ok(());
    }
    let (r, k) = run(i);
    if i.len() == 1 {
        return eq("empty input refused as such", matches!(r, Err(OutputError::EmptyInput)), true);
    }
    let s = match look(&i[1..]) {
        Look::Frame(s) => s,
        Look::Open => return Ok(()),
        Look::Refused => return eq("refused as no frame", matches!(r, Err(OutputError::InvalidFrame { .. })), true),
    };
    let Inside { broken, modes, lsb, body, secret, opened } = inside(&s, &k);
    let o = match r {
        Ok(o) => o,
        Err(OutputError::Decryption { .. }) if secret && k.is_some() && opened.is_none() => return Ok(()),
        Err(e) => return Err(format!("refused with {e:?}")),
    };
    if secret && k.is_some() && opened.is_none() {
        return Err("decoded although the payload cannot be decrypted".into());
    }
    let q = &o.security;
    eq("protection", q.payload_protection.as_str(), if secret { "encrypted" } else { "cleartext" })?;
    eq("decryption state", q.decryption_state.as_str(), if !secret { "not_applicable" } else if opened.is_some() { "decrypted_unverified" } else { "key_missing" })?;
    eq("mode", q.mode.clone(), modes.map(|m| mode(m).1))?;
    eq("mode code", q.mode_code, modes)?;
    eq("key supplied", q.key_supplied, k.is_some())?;
    eq("encrypted payload", q.encrypted_payload_hex.clone(), s.payload.as_deref().filter(|_| secret).map(tight))?;
    eq("decrypted payload", q.decrypted_payload_hex.clone(), opened.as_deref().map(tight))?;
    let source = if secret { opened.clone() } else { body };
    let mut failed = false;
    match &source {
        None => eq("records", o.records.len(), 0)?,
        Some(b) => {
            let (list, whole) = walk(b, lsb);
            failed = !whole;
            eq("number of records", o.records.len(), list.len())?;
            for (g, e) in o.records.iter().zip(&list) {
                eq("header bytes", g.header_hex.clone(), hex(&b[e.at..e.at + e.head]))?;
                eq("value bytes", g.data_hex.clone(), hex(&b[e.at + e.head..e.at + e.head + e.size]))?;
            }
            // the values come out in the byte order the header announces
            if lsb {
                if let Some(g) = differs(&o, b, &list) {
                    return Err(g);
                }
            }
        }
    }
    let mut codes = vec![];
    if broken {
        codes.push("application.partial");
    }
    if secret {
        codes.push(if opened.is_some() { "security.decrypted_unverified" } else { "security.key_missing" });
    } else if k.is_some() {
        codes.push("security.key_unused");
    }
    if failed {
        codes.push("application.record_partial");
    }
    eq("diagnostics", o.diagnostics.iter().map(|d| d.code.as_str()).collect::<Vec<_>>(), codes)?;
    let partial = broken || failed || (secret && opened.is_none());
    eq("state", o.decode_state.as_str(), if partial { "partial" } else { "complete" })
}
/// a record of four bytes read in the announced order
fn differs(o: &DecodedOutput, b: &[u8], list: &[crate::entries::Entry]) -> Option<String> {
    for (g, e) in o.records.iter().zip(list) {
        if b[e.at] == 0x0C && e.head == 2 && b[e.at + 1] == 0x78 {
            let mut v = b[e.at + 2..e.at + 6].to_vec();
            v.reverse();
            if let Some(n) = bcd(&v) {
                let text = g.value.value.as_ref().map(|x| x.as_str().map_or(x.to_string(), str::to_string));
                if text != Some(n.to_string()) {
                    return Some(format!("value {text:?}, expected {n}"));
                }
            }
        }
    }
    None
}

// ------------------------------------------------------------ inputs

fn application(r: &mut Rng) -> Vec<u8> {
    let mut v = match r.below(3) {
        0 => app::block(r),
        _ => {
            let (ci, n) = r.pick(&[(0x72u8, 12), (0x76, 12), (0x7A, 4), (0xA0, 5), (0xA3, 4), (0x78, 0), (0x8D, 8), (0x8E, 16), (0x73, 16)]);
            let mut v = vec![];
            if matches!(ci, 0x7A | 0xA0 | 0xA3 | 0x78) && r.one_in(3) {
                v.push(0x8C);
                v.extend(r.bytes(2));
            }
            v.push(ci);
            let at = v.len();
            v.extend(r.bytes(n));
            if matches!(ci, 0x72 | 0x76 | 0x73) {
                for x in &mut v[at..at + 4] {
                    *x = (r.below(10) * 16 + r.below(10)) as u8;
                }
                if r.below(4) != 0 && ci != 0x73 {
                    let m: u16 = [r.below(26), r.below(26), r.below(26)].iter().fold(0, |a, l| a * 32 + *l as u16 + 1);
                    v[at + 4..at + 6].copy_from_slice(&m.to_le_bytes());
                }
                if ci == 0x73 {
                    for x in &mut v[at + 8..] {
                        *x = (r.below(10) * 16 + r.below(10)) as u8;
                    }
                }
            }
            if let (true, Some(x)) = (n > 0 && !matches!(ci, 0x8D | 0x8E | 0x73), v.last_mut()) {
                *x = *x & 0xE0 | r.pick(&[0u8, 0, 0, 5, 5, 7, 7, 1, 8, 16, 31]);
            }
            v.extend(match r.below(3) {
                0 => {
                    let n = r.below(40);
                    r.bytes(n)
                }
                1 => vec![0x0C, 0x78, 0x12, 0x34, 0x56, 0x78, 0x02, 0x13, 1, 2],
                _ => records::gen_payload(r),
            });
            v
        }
    };
    if r.one_in(8) {
        let n = r.below(v.len() + 1);
        v.truncate(n);
    }
    v
}
fn radio(r: &mut Rng, a: &[u8]) -> Vec<u8> {
    let mut v = wireless::header(r, 0);
    if r.one_in(12) {
        v[2 + r.below(6)] = r.byte();
    }
    // link and transport header that agree in some of the identity
    if matches!(a.first(), Some(0x72 | 0x76)) && a.len() > 9 {
        if r.bool() {
            v[4..8].copy_from_slice(&a[1..5]);
        }
        if r.one_in(3) {
            v[2..4].copy_from_slice(&a[5..7]);
        }
        if r.one_in(3) {
            v[8] = a[7];
        }
        if r.one_in(3) {
            v[9] = a[8];
        }
    }
    v.extend(a);
    v.truncate(256);
    v[0] = (v.len() - 1) as u8;
    v
}
/// the records, filled up with 2F to whole blocks, encrypted for the first key
pub fn sealed(records: &[u8], head: usize, mode: u8, access: u8) -> Vec<u8> {
    use aes::cipher::{BlockCipherEncrypt, KeyInit};
    let mut p = records.to_vec();
    p.truncate(224);
    p.resize(p.len().div_ceil(16) * 16, 0x2F);
    let mut prev = [0u8; 16];
    if mode == 5 {
        prev[..8].copy_from_slice(&[0x2D, 0x2C, 0x78, 0x56, 0x34, 0x12, 3, 7]);
        prev[8..].fill(access);
    }
    let c = aes::Aes128::new(&key(1).unwrap().into());
    let mut a = match head {
        0 | 1 => vec![0x72, 0x78, 0x56, 0x34, 0x12, 0x2D, 0x2C, 3, 7, access, 0, 0, mode],
        2 => vec![0x7A, access, 0, 0, mode],
        _ => vec![0x8C, 0, 0x11, 0x7A, access, 0, 0, mode],
    };
    for b in p.chunks_exact(16) {
        let x: [u8; 16] = std::array::from_fn(|k| b[k] ^ prev[k]);
        let mut x: aes::Block = x.into();
        c.encrypt_block(&mut x);
        prev.copy_from_slice(&x);
        a.extend(prev);
    }
    let mut v = vec![1];
    if head == 0 {
        v.extend(wired::long(0x08, 1, &a));
    } else {
        let mut f = vec![0, 0x44, 0x2D, 0x2C, 0x78, 0x56, 0x34, 0x12, 3, 7];
        f.extend(a);
        f[0] = (f.len() - 1) as u8;
        v.extend(if access % 2 == 0 { wireless::format_a(&f) } else { f });
    }
    v
}
pub fn sealed_all(f: &mut dyn FnMut(Vec<u8>) -> bool) {
    for n in 0..=14 {
        for head in 0..4 {
            for mode in [5, 7] {
                let list: Vec<u8> = (0..n * 16 / 4).flat_map(|k| [2, 0x78, k as u8, 0x12]).collect();
                if !f(sealed(&list, head, mode, n as u8 + mode)) {
                    return;
                }
            }
        }
    }
}
fn random(r: &mut Rng) -> Vec<u8> {
    if r.one_in(8) {
        let mut l = records::gen_payload(r);
        while r.bool() && l.len() < 200 {
            l.extend(records::gen_payload(r));
        }
        let (h, m, a) = (r.below(4), r.pick(&[5u8, 7]), r.byte());
        return sealed(&l, h, m, a);
    }
    let mut a = application(r);
    let mut d = vec![r.pick(&[0u8, 0, 1, 2, 0x55])];
    d.extend(match r.below(8) {
        0 => {
            let c = r.pick(&[0x40u8, 0x44, 0x5A, 0x7A, 0x5B, 0x7B, 0x53, 0x08]);
            wired::short(c, r.byte())
        }
        1 | 2 => {
            a.truncate(252);
            let c = r.pick(&[0x08u8, 0x18, 0x28, 0x38, 0x53, 0x73, 0x44, 0x40]);
            wired::long(c, r.byte(), &a)
        }
        3 | 4 => radio(r, &a),
        5 => {
            a.truncate(240);
            let mut v = radio(r, &a);
            v[0] += 2;
            let c = wireless::crc(&v);
            v.extend(c.to_be_bytes());
            v
        }
        _ => wireless::format_a(&radio(r, &a)),
    });
    if r.one_in(16) {
        let k = 1 + r.below(d.len() - 1);
        d[k] = r.byte();
    }
    d
}
fn systematic(f: &mut dyn FnMut(Vec<u8>) -> bool) {
    let mut go = true;
    sealed_all(&mut |d| {
        go = f(d);
        go
    });
    if !go {
        return;
    }
    for k in [0u8, 1] {
        if !f(vec![k]) || !f(vec![k, 0xE5]) {
            return;
        }
        for b in 0..=255u8 {
            for a in [0u8, 1, 250, 251, 252, 253, 254, 255] {
                let mut v = vec![k];
                v.extend(wired::short(b, a));
                if !f(v) {
                    return;
                }
                let mut v = vec![k];
                v.extend(wired::long(b, a, &[0x78, 2, 0x13, 1, 2]));
                if !f(v) {
                    return;
                }
            }
        }
        // every value of every header byte, in each kind of frame
        const LIST: &[u8] = &[0x0C, 0x78, 0x12, 0x34, 0x56, 0x78, 0x02, 0x13, 5, 6, 0x2F, 0x2F, 0x01, 0xFD, 0x17, 9];
        for (ci, n) in [(0x50u8, 1usize), (0x72, 12), (0x76, 12), (0x73, 16), (0x78, 0), (0x7A, 4), (0xA0, 5), (0xA2, 4), (0x8C, 7), (0x8D, 8), (0x8E, 16)] {
            for p in 0..n.max(1) {
                for b in 0..=255u8 {
                    let mut v = vec![ci];
                    v.extend((0..n).map(|k| ((k + 1) / 10 * 16 + (k + 1) % 10) as u8));
                    match ci {
                        0x72 | 0x76 => {
                            v[5] = 0x15;
                            v[6] = 0x19;
                            v[12] = 0;
                        }
                        0x8C => {
                            v[3] = 0x7A;
                            v[7] = 0;
                        }
                        _ if n > 3 => v[n] = 0,
                        _ => {}
                    }
                    if n > 0 {
                        v[p + 1] = b;
                    }
                    if ci != 0x73 {
                        v.extend(LIST);
                    }
                    let mut w = vec![0, 0x44, 0x2D, 0x2C, 0x78, 0x56, 0x34, 0x12, 3, 7];
                    w.extend(&v);
                    w[0] = (w.len() - 1) as u8;
                    for x in [wired::long(0x08, 1, &v), wireless::format_a(&w), w] {
                        let mut y = vec![k];
                        y.extend(x);
                        if !f(y) {
                            return;
                        }
                    }
                }
            }
        }
    }
    // link header and long header that agree in some of the identity
    for m in 0..16u8 {
        let mut w = vec![0, 0x44, 0x2D, 0x2C, 0x78, 0x56, 0x34, 0x12, 3, 7, 0x72, 0x78, 0x56, 0x34, 0x12, 0x2D, 0x2C, 3, 7, 9, 0, 0, 0, 2, 0x13, 1, 2];
        w[0] = (w.len() - 1) as u8;
        for (k, p) in [2usize, 4, 8, 9].into_iter().enumerate() {
            if m >> k & 1 == 1 {
                w[p] ^= 1;
            }
        }
        for x in [wireless::format_a(&w), w] {
            let mut y = vec![0];
            y.extend(x);
            if !f(y) {
                return;
            }
        }
    }
    // every byte of the header of a wireless frame
    for p in 1..10 {
        for b in 0..=255u8 {
            let mut w = vec![0, 0x44, 0x2D, 0x2C, 0x78, 0x56, 0x34, 0x12, 3, 7, 0x7A, 9, 0, 0, 0, 2, 0x13, 1, 2];
            w[0] = (w.len() - 1) as u8;
            w[p] = b;
            let mut y = vec![0];
            y.extend(w);
            if !f(y) {
                return;
            }
        }
    }
}
pub static P23: Prop = Prop {
    id: "P23",
    rule: "counts a case when the frame is decoded and carries an application layer",
    systematic,
    random,
    check: check23,
    nontrivial: |i| !i.is_empty() && run(i).0.is_ok_and(|o| o.transport.header_kind.is_some()),
};
pub static P24: Prop = Prop {
    id: "P24",
    rule: "counts a case when the frame is accepted and carries an application layer",
    systematic,
    random,
    check: check24,
    nontrivial: |i| i.len() > 1 && matches!(look(&i[1..]), Look::Frame(s) if s.app.as_ref().is_some_and(|a| !matches!(app::want(a), Want::Error))),
};
