//! P13 header layout, P14 encryption gate
use crate::codes::{bcd, device, letters};
use crate::engine::*;
use m_bus_application_layer::extended_link_layer::*;
use m_bus_application_layer::*;
use m_bus_core::{ConfigurationField, IdentificationNumber, ManufacturerCode};

pub enum Want<'a> {
    Error,
    Reset(u8),
    Fixed { number: u32, access: u8, status: u8, unit: u16, counters: [u32; 2] },
    Variable { block: UserDataBlock<'a>, payload: usize, encrypted: Option<bool> },
}
fn le(a: u8, b: u8) -> u16 {
    u16::from(a) + 256 * u16::from(b)
}
fn short(d: &[u8]) -> Option<ShortTplHeader> {
    let d = d.get(..4)?;
    Some(ShortTplHeader {
        access_number: d[0],
        status: StatusField::from_bits_retain(d[1]),
        configuration_field: ConfigurationField::from(le(d[2], d[3])),
    })
}
/// offset of the short header behind the control information byte
fn short_at(ci: u8) -> Option<usize> {
    match ci {
        0xA0 => Some(2),
        0x7A | 0xA1..=0xAF => Some(1),
        _ => None,
    }
}
pub fn want(d: &[u8]) -> Want<'_> {
    decode(d).unwrap_or(Want::Error)
}
fn decode(d: &[u8]) -> Option<Want<'_>> {
    let ci = *d.first()?;
    Some(match ci {
        0x50 => Want::Reset(*d.get(1)?),
        0x72 | 0x76 => {
            let h = d.get(..13)?;
            let mut id = h[1..5].to_vec();
            if ci == 0x76 {
                id.reverse();
            }
            let m = le(h[5], h[6]);
            Want::Variable {
                block: UserDataBlock::VariableDataStructureWithLongTplHeader {
                    extended_link_layer: None,
                    long_tpl_header: LongTplHeader {
                        identification_number: IdentificationNumber { number: bcd(&id)? as u32 },
                        manufacturer: letters(m)
                            .map(|code| ManufacturerCode { code })
                            .ok_or(ApplicationLayerError::InvalidManufacturerCode { code: m }),
                        version: h[7],
                        device_type: device(h[8]).0,
                        short_tpl_header: short(&h[9..])?,
                        lsb_order: ci == 0x76,
                    },
                    variable_data_block: &d[13..],
                },
                payload: 13,
                encrypted: Some(h[12] % 32 != 0),
            }
        }
        0x73 | 0x77 => {
            let h = d.get(..17)?;
            Want::Fixed {
                number: bcd(&h[1..5])? as u32,
                access: h[5],
                status: h[6],
                unit: le(h[8], h[7]),
                counters: [bcd(&h[9..13])? as u32, bcd(&h[13..17])? as u32],
            }
        }
        0x78 => Want::Variable {
            block: UserDataBlock::VariableDataStructureWithoutTplHeader { extended_link_layer: None, variable_data_block: &d[1..] },
            payload: 1,
            encrypted: None,
        },
        0x7A | 0xA0..=0xAF => {
            let o = short_at(ci)?;
            let h = short(&d[o.min(d.len())..])?;
            Want::Variable {
                encrypted: Some(d[o + 3] % 32 != 0),
                block: UserDataBlock::VariableDataStructureWithShortTplHeader {
                    extended_link_layer: None,
                    short_tpl_header: h,
                    variable_data_block: &d[o + 4..],
                },
                payload: o + 4,
            }
        }
        0x8C => {
            let e = Some(ExtendedLinkLayer { communication_control: *d.get(1)?, access_number: *d.get(2)?, receiver_address: None, encryption: None });
            let t = d.get(3..)?;
            let c = *t.first()?;
            if c == 0x78 {
                Want::Variable {
                    block: UserDataBlock::VariableDataStructureWithoutTplHeader { extended_link_layer: e, variable_data_block: &t[1..] },
                    payload: 4,
                    encrypted: None,
                }
            } else {
                let o = short_at(c)?;
                let h = short(&t[o.min(t.len())..])?;
                Want::Variable {
                    encrypted: Some(t[o + 3] % 32 != 0),
                    block: UserDataBlock::VariableDataStructureWithShortTplHeader {
                        extended_link_layer: e,
                        short_tpl_header: h,
                        variable_data_block: &t[o + 4..],
                    },
                    payload: 3 + o + 4,
                }
            }
        }
        0x8D | 0x8E => {
            let n = if ci == 0x8D { 9 } else { 17 };
            let h = d.get(..n)?;
            Want::Variable {
                block: UserDataBlock::VariableDataStructureWithShortTplHeader {
                    extended_link_layer: Some(ExtendedLinkLayer {
                        communication_control: h[1],
                        access_number: h[2],
                        receiver_address: (ci == 0x8E).then(|| ReceiverAddress { manufacturer: le(h[3], h[4]), address: h[5..11].try_into().unwrap() }),
                        encryption: Some(EncryptionFields {
                            session_number: h[n - 6..n - 2].try_into().unwrap(),
                            payload_crc: le(h[n - 2], h[n - 1]),
                        }),
                    }),
                    short_tpl_header: ShortTplHeader {
                        access_number: h[2],
                        status: StatusField::from_bits_retain(h[1]),
                        configuration_field: ConfigurationField::from(0),
                    },
                    variable_data_block: &d[n..],
                },
                payload: n,
                encrypted: Some(true),
            }
        }
        _ => return None,
    })
}

fn subcode(v: u8) -> ApplicationResetSubcode {
    use ApplicationResetSubcode::*;
    [
        All, UserData, SimpleBilling, EnhancedBilling, MultiTariffBilling, InstantaneousValues, LoadManagementValues, Reserved1,
        InstallationStartup, Testing, Calibration, ConfigurationUpdates, Manufacturing, Development, Selftest, Reserved2,
    ][v as usize % 16](v)
}

fn check13(d: &[u8]) -> R {
    let got = UserDataBlock::try_from(d);
    eq("parse_application_layer", &parse_application_layer(d), &got)?;
    match (got, want(d)) {
        (Err(_), Want::Error) => Ok(()),
        (Ok(UserDataBlock::ResetAtApplicationLevel { subcode: s }), Want::Reset(v)) => eq("subcode", s, subcode(v)),
        (
            Ok(UserDataBlock::FixedDataStructure { identification_number, access_number, status, device_type_and_unit, counter1, counter2 }),
            Want::Fixed { number, access, status: st, unit, counters },
        ) => {
            eq("identification number", identification_number.number, number)?;
            eq("access number", access_number, access)?;
            eq("status", status.bits(), st)?;
            eq("device type and unit", device_type_and_unit, unit)?;
            eq("counter 1", counter1.to_string(), format!("{:08}", counters[0]))?;
            eq("counter 2", counter2.to_string(), format!("{:08}", counters[1]))
        }
        (Ok(mut b), Want::Variable { block: mut w, payload, .. }) => {
            eq("payload length", b.variable_data_len(), d.len() - payload)?;
            // which error an invalid manufacturer code is, is left open
            for x in [&mut b, &mut w] {
                if let UserDataBlock::VariableDataStructureWithLongTplHeader { long_tpl_header, .. } = x {
                    if long_tpl_header.manufacturer.is_err() {
                        long_tpl_header.manufacturer = Err(ApplicationLayerError::InsufficientData);
                    }
                }
            }
            eq("block", b, w)
        }
        (Ok(b), w) => Err(format!("decoded as {b:?}, expected {}", match w { Want::Error => "an error", Want::Reset(_) => "a reset", Want::Fixed { .. } => "a fixed structure", _ => "a variable structure" })),
        (Err(e), _) => Err(format!("refused with {e:?}")),
    }
}

fn check14(d: &[u8]) -> R {
    let Ok(b) = UserDataBlock::try_from(d) else { return Ok(()) };
    match want(d) {
        Want::Error => Ok(()), // P13
        Want::Reset(_) | Want::Fixed { .. } => {
            eq("records", b.data_records(), None)?;
            if b.is_encrypted() == Some(true) {
                return Err("reported as encrypted".into());
            }
            Ok(())
        }
        Want::Variable { block, payload, encrypted } => {
            let e = encrypted == Some(true);
            eq("is_encrypted", b.is_encrypted().unwrap_or(false), e)?;
            let r = b.data_records();
            if e {
                return eq("records", r, None);
            }
            // the header the records are read with: only the byte order counts
            let lsb = matches!(&block, UserDataBlock::VariableDataStructureWithLongTplHeader { long_tpl_header, .. } if long_tpl_header.lsb_order);
            let Some(r) = r else { return Err("no records offered".into()) };
            let header = LongTplHeader {
                identification_number: IdentificationNumber { number: 0 },
                manufacturer: Err(ApplicationLayerError::InsufficientData),
                version: 0,
                device_type: device(0).0,
                short_tpl_header: ShortTplHeader { access_number: 0, status: StatusField::from_bits_retain(0), configuration_field: ConfigurationField::from(0) },
                lsb_order: lsb,
            };
            let want: Vec<_> = parse_data_records_with_header(&d[payload..], &header).map(|x| format!("{x:?}")).collect();
            let got: Vec<_> = r.map(|x| format!("{x:?}")).collect();
            if got != want {
                let k = got.iter().zip(&want).take_while(|(a, b)| a == b).count();
                return Err(format!("record {k}: {:?}, expected {:?}", got.get(k), want.get(k)));
            }
            Ok(())
        }
    }
}

fn digits(r: &mut Rng) -> u8 {
    if r.one_in(24) { r.byte() } else { (r.below(10) * 16 + r.below(10)) as u8 }
}
const CIS: &[u8] = &[0x50, 0x72, 0x76, 0x73, 0x77, 0x78, 0x7A, 0xA0, 0xA1, 0xA2, 0xAF, 0x8C, 0x8D, 0x8E];
const RECORDS: &[u8] = &[0x04, 0x06, 1, 2, 3, 4, 0x02, 0x13, 5, 6, 0x0C, 0x78, 0x12, 0x34, 0x56, 0x78, 0x0D, 0x78, 0x04, b'a', b'b', b'c', b'd', 0x01, 0xFD, 0x17, 9, 0x0F, 1, 2];

pub fn block(r: &mut Rng) -> Vec<u8> {
    let ci = r.pick(CIS);
    let mut v = vec![ci];
    match ci {
        0x73 | 0x77 => {
            for k in 0..17 {
                let b = if (4..8).contains(&k) { r.byte() } else { digits(r) };
                v.push(b);
            }
        }
        0x72 | 0x76 => {
            for k in 0..12 {
                let b = if k < 4 { digits(r) } else { r.byte() };
                v.push(b);
            }
            if r.bool() {
                v[12] &= 0xE0;
            }
        }
        0x8C => {
            v.extend(r.bytes(2));
            let c = r.pick(&[0x78, 0x7A, 0xA0, 0xA3, 0x72, 0x8C, 0x8D, 0x50]);
            v.push(c);
            let mut h = r.bytes(if c == 0xA0 { 5 } else { 4 });
            if r.bool() {
                let l = h.len();
                h[l - 1] &= 0xE0;
            }
            if c != 0x78 {
                v.extend(h);
            }
        }
        _ => {
            let n = match ci { 0x8D => 8, 0x8E => 16, 0xA0 => 5, 0x78 => 0, _ => 4 };
            v.extend(r.bytes(n));
            if r.bool() && n > 0 {
                v[n] &= 0xE0;
            }
        }
    }
    match r.below(4) {
        0 => v.extend_from_slice(RECORDS),
        1 => {
            let n = r.below(30);
            v.extend(r.bytes(n));
        }
        2 => {
            let n = r.below(RECORDS.len());
            v.extend_from_slice(&RECORDS[n..]);
        }
        _ => {}
    }
    if r.one_in(6) {
        let n = r.below(v.len() + 1);
        v.truncate(n);
    }
    v
}
fn rnd(r: &mut Rng) -> Vec<u8> {
    if r.one_in(10) {
        let n = r.below(24);
        let mut v = r.bytes(n);
        if let Some(x) = v.first_mut() {
            if r.bool() {
                *x = r.pick(CIS);
            }
        }
        return v;
    }
    block(r)
}
fn sys(f: &mut dyn FnMut(Vec<u8>) -> bool) {
    // every first byte with every length, a body of distinct digits
    for ci in 0..=255u8 {
        for n in 0..24usize {
            for cf in [0u8, 0x25] {
                let mut v = vec![ci];
                v.extend((0..n).map(|k| ((k + 1) / 10 * 16 + (k + 1) % 10) as u8));
                for p in [4, 5, 12] {
                    if v.len() > p {
                        v[p] = if p == 4 && matches!(ci, 0x72 | 0x76 | 0x73 | 0x77) { 0x47 } else { cf };
                    }
                }
                if !f(v) {
                    return;
                }
            }
        }
    }
    // every inner first byte behind an extended link layer
    for c in 0..=255u8 {
        for n in 0..8usize {
            let mut v = vec![0x8C, 0x21, 0x22, c];
            v.extend((0..n).map(|k| k as u8 + 1));
            if !f(v) {
                return;
            }
        }
    }
    // every value of every header byte, with records behind
    for (ci, n) in [(0x50u8, 1usize), (0x72, 12), (0x76, 12), (0x73, 16), (0x78, 0), (0x7A, 4), (0xA0, 5), (0xA2, 4), (0x8C, 7), (0x8D, 8), (0x8E, 16)] {
        for p in 0..n {
            for b in 0..=255u8 {
                let mut v = vec![ci];
                v.extend((0..n).map(|k| ((k + 1) / 10 * 16 + (k + 1) % 10) as u8));
                match ci {
                    0x72 | 0x76 => {
                        v[5] = 0x15;
                        v[6] = 0x19;
                        v[12] = 0;
                    }
                    0x8C => {
                        v[3] = 0x7A;
                        v[7] = 0;
                    }
                    _ if n > 3 => v[n] = 0,
                    _ => {}
                }
                v[p + 1] = b;
                v.extend_from_slice(RECORDS);
                if !f(v) {
                    return;
                }
            }
        }
    }
}
pub static P13: Prop = Prop {
    id: "P13",
    rule: "every first byte with every short length, every inner control information, every value of every header byte of every kind, then random blocks and truncations",
    systematic: sys,
    random: rnd,
    check: check13,
    nontrivial: |d| !matches!(want(d), Want::Error),
};
pub static P14: Prop = Prop {
    id: "P14",
    rule: "every first byte with every short length, every inner control information, every value of every header byte of every kind, then random blocks and truncations",
    systematic: sys,
    random: rnd,
    check: check14,
    nontrivial: |d| matches!(want(d), Want::Variable { .. }),
};
