//! P05: every entry point returns on every byte string
use crate::engine::*;
use crate::{app, records, wired, wireless};
use m_bus_application_layer::data_information::*;
use m_bus_application_layer::data_record::*;
use m_bus_application_layer::extended_link_layer::*;
use m_bus_application_layer::value_information::*;
use m_bus_application_layer::*;
use m_bus_core::decryption::*;
use m_bus_core::*;

fn walk<'a>(it: DataRecords<'a>, n: usize) -> R {
    for (k, r) in it.enumerate() {
        if k > n {
            return Err(format!("more than {n} records from {n} bytes"));
        }
        if let Ok(r) = r {
            let _ = (r.get_size(), r.data_record_header.get_size(), r.data.get_size(), r.raw_bytes().len());
        }
    }
    Ok(())
}
fn keys(d: &[u8]) -> StaticKeyProvider<2> {
    let mut k = StaticKeyProvider::new();
    let _ = k.add_key(0x1234, 1, [7; 16]);
    let id = d.get(1..5).and_then(|x| x.try_into().ok()).and_then(|x: [u8; 4]| IdentificationNumber::from_bcd_hex_digits(x).ok()).map_or(12345678, |n| n.number);
    let man = d.get(5..7).map_or(0x2C2D, |x| x[0] as u16 + 256 * x[1] as u16);
    let _ = k.add_key(man, id, [0x55; 16]);
    let _ = k.add_key(man, id, [0x56; 16]);
    k
}
fn check(d: &[u8]) -> R {
    let _ = wired_mbus_link_layer::WiredFrame::try_from(d);
    let _ = wireless_mbus_link_layer::WirelessFrame::try_from(d);
    let _ = wireless_mbus_link_layer::ManufacturerId::try_from(d);
    let _ = wireless_mbus_link_layer::trailing_frame_crc_start(d);
    for n in [0, 9, 10, 11, d.len().saturating_sub(1), d.len(), d.len() + 7] {
        let mut b = vec![0; n];
        if let Some(s) = wireless_mbus_link_layer::strip_format_a_crcs(d, &mut b) {
            let s = s.to_vec();
            let _ = wireless_mbus_link_layer::WirelessFrame::try_from(&s[..]);
        }
    }
    if let Ok(b) = UserDataBlock::try_from(d) {
        let _ = (b.is_encrypted(), b.variable_data_len());
        if let Some(r) = b.data_records() {
            walk(r, d.len())?;
        }
        let k = keys(d);
        let m = ManufacturerCode::from_id(0x2C2D).map_err(|e| format!("{e:?}"))?;
        let n = b.variable_data_len();
        for len in [0, 1, n.saturating_sub(1), n, n + 1, n + 16] {
            let mut out = vec![0; len];
            let _ = b.decrypt_variable_data(&k, &mut out);
            for (man, id) in [(m.clone(), 12345678), (ManufacturerCode { code: ['A', 'Z', 'Z'] }, u32::MAX)] {
                let _ = b.decrypt_variable_data_with_context(&k, man, id, 0xFF, DeviceType::from(d[0]), &mut out);
            }
        }
    }
    walk(parse_data_records(d), d.len())?;
    if let Ok(UserDataBlock::VariableDataStructureWithLongTplHeader { long_tpl_header, .. }) =
        UserDataBlock::try_from(&[0x76, 1, 2, 3, 4, 0x2D, 0x2C, 1, 7, 5, 0, 0, 0][..])
    {
        walk(parse_data_records_with_header(d, &long_tpl_header), d.len())?;
        let _ = DataRecord::try_from((d, &long_tpl_header));
    }
    let _ = DataRecord::try_from(d);
    if let Ok(h) = DataRecordHeader::try_from(d) {
        let _ = h.get_size();
    }
    if let Ok(b) = DataInformationBlock::try_from(d) {
        let _ = b.get_size();
        if let Ok(i) = DataInformation::try_from(&b) {
            let _ = i.get_size();
            let _ = i.data_field_coding.parse(&d[b.get_size().min(d.len())..], None);
        }
    }
    if let Ok(b) = ValueInformationBlock::try_from(d) {
        let _ = b.get_size();
        let _ = ValueInformation::try_from(&b);
    }
    for f in [EllFormat::FormatI, EllFormat::FormatII, EllFormat::FormatIII] {
        let _ = ExtendedLinkLayer::parse(d, f);
    }
    if let Some(Ok(x)) = d.get(..4).map(<[u8; 4]>::try_from) {
        let _ = IdentificationNumber::from_bcd_hex_digits(x);
        let _ = Counter::from_bcd_hex_digits(x);
        let _ = ManufacturerCode::from_id(x[0] as u16 * 256 + x[1] as u16).map(|m| m.to_id());
        let _ = ConfigurationField::from_bytes(x[0], x[1]).security_mode().to_bits();
    }
    Ok(())
}
fn random(r: &mut Rng) -> Vec<u8> {
    let mut v = match r.below(9) {
        0 => (wired::P01.random)(r),
        1 => (wireless::P03.random)(r),
        2 => (wireless::P04.random)(r),
        3 => app::block(r),
        4 => {
            let mut v = app::block(r);
            v.extend(records::gen_payload(r));
            v
        }
        5 | 6 => records::gen_payload(r),
        7 => records::gen_vib(r),
        _ => {
            let n = r.below(40);
            r.edgy(n)
        }
    };
    // unstructured damage
    if r.one_in(4) && !v.is_empty() {
        for _ in 0..1 + r.below(3) {
            let k = r.below(v.len());
            v[k] = r.pick(&[0u8, 1, 0x7F, 0x80, 0xFF, 0x0D, 0xFC, 0xFD, 0x10]);
        }
    }
    v
}
fn systematic(f: &mut dyn FnMut(Vec<u8>) -> bool) {
    f(vec![]);
    for n in 1..300 {
        for b in 0..=255u8 {
            if (n < 40 || matches!(b, 0x00 | 0x2F | 0x80 | 0xFF | 0x8C | 0x8F | 0x0D | 0x68)) && !f(vec![b; n]) {
                return;
            }
        }
    }
    for a in 0..=255u8 {
        for b in 0..=255u8 {
            if !f(vec![a, b]) || !f(vec![a, b, 0x80, 0xFF, 0x0D, 0x7F, 0xF6, 0xBF, 1, 2, 3, 0]) {
                return;
            }
        }
    }
}
pub static P05: Prop = Prop {
    id: "P05",
    rule: "call every parsing, decoding and decryption entry point on the bytes and iterate the records",
    systematic,
    random,
    check,
    nontrivial: |i| !i.is_empty(),
};
