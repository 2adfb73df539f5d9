//! P15 decryption, P16 key store, P17 identity and mode codes
use crate::engine::*;
use m_bus_core::decryption::*;
use m_bus_core::*;

/// EN 13757-7 device types
pub fn device(b: u8) -> (DeviceType, String) {
    match b {
        0x00 => (DeviceType::Other, "Other".to_string()),
        0x01 => (DeviceType::OilMeter, "Oil Meter".to_string()),
        0x02 => (DeviceType::ElectricityMeter, "Electricity Meter".to_string()),
        0x03 => (DeviceType::GasMeter, "Gas Meter".to_string()),
        0x04 => (DeviceType::HeatMeterReturn, "Heat Meter (Return)".to_string()),
        0x05 => (DeviceType::SteamMeter, "Steam Meter".to_string()),
        0x06 => (DeviceType::WarmWaterMeter, "Warm Water Meter (30-90°C)".to_string()),
        0x07 => (DeviceType::WaterMeter, "Water Meter".to_string()),
        0x08 => (DeviceType::HeatCostAllocator, "Heat Cost Allocator".to_string()),
        0x09 => (DeviceType::CompressedAir, "Compressed Air".to_string()),
        0x0A => (DeviceType::CoolingMeterReturn, "Cooling Meter (Return)".to_string()),
        0x0B => (DeviceType::CoolingMeterFlow, "Cooling Meter (Flow)".to_string()),
        0x0C => (DeviceType::HeatMeterFlow, "Heat Meter (Flow)".to_string()),
        0x0D => (DeviceType::CombinedHeatCoolingMeter, "Combined Heat/Cooling Meter".to_string()),
        0x0E => (DeviceType::BusSystemComponent, "Bus/System Component".to_string()),
        0x0F => (DeviceType::UnknownDevice, "Unknown Device".to_string()),
        0x10 => (DeviceType::IrrigationWaterMeter, "Irrigation Water Meter".to_string()),
        0x11 => (DeviceType::WaterDataLogger, "Water Data Logger".to_string()),
        0x12 => (DeviceType::GasDataLogger, "Gas Data Logger".to_string()),
        0x13 => (DeviceType::GasConverter, "Gas Converter".to_string()),
        0x14 => (DeviceType::CalorificValue, "Calorific Value".to_string()),
        0x15 => (DeviceType::HotWaterMeter, "Hot Water Meter (≥90°C)".to_string()),
        0x16 => (DeviceType::ColdWaterMeter, "Cold Water Meter".to_string()),
        0x17 => (DeviceType::DualRegisterWaterMeter, "Dual Register Water Meter".to_string()),
        0x18 => (DeviceType::PressureMeter, "Pressure Meter".to_string()),
        0x19 => (DeviceType::AdConverter, "A/D Converter".to_string()),
        0x1A => (DeviceType::SmokeDetector, "Smoke Detector".to_string()),
        0x1B => (DeviceType::RoomSensor, "Room Sensor".to_string()),
        0x1C => (DeviceType::GasDetector, "Gas Detector".to_string()),
        0x20 => (DeviceType::ElectricityBreaker, "Breaker (Electricity)".to_string()),
        0x21 => (DeviceType::Valve, "Valve (Gas/Water)".to_string()),
        0x25 => (DeviceType::CustomerUnit, "Customer Unit (Display)".to_string()),
        0x28 => (DeviceType::WasteWaterMeter, "Waste Water Meter".to_string()),
        0x29 => (DeviceType::Garbage, "Garbage".to_string()),
        0x2A => (DeviceType::ReservedCO2, "Reserved (CO₂)".to_string()),
        0x30 => (DeviceType::ServiceTool, "Service Tool".to_string()),
        0x31 => (DeviceType::CommunicationController, "Communication Controller (Gateway)".to_string()),
        0x32 => (DeviceType::UnidirectionalRepeater, "Unidirectional Repeater".to_string()),
        0x33 => (DeviceType::BidirectionalRepeater, "Bidirectional Repeater".to_string()),
        0x36 => (DeviceType::RadioConverterSystemSide, "Radio Converter (System Side)".to_string()),
        0x37 => (DeviceType::RadioConverterMeterSide, "Radio Converter (Meter Side)".to_string()),
        0x38 => (DeviceType::BusConverterMeterSide, "Bus Converter (Meter Side)".to_string()),
        0xFF => (DeviceType::Wildcard, "Wildcard".to_string()),
        0x1D..=0x1F => (DeviceType::ReservedSensor(b), format!("Reserved Sensor (0x{b:02X})")),
        0x22..=0x24 => (DeviceType::ReservedSwitch(b), format!("Reserved Switch (0x{b:02X})")),
        0x26..=0x27 => (DeviceType::ReservedCustomer(b), format!("Reserved Customer Unit (0x{b:02X})")),
        0x2B..=0x2F => (DeviceType::ReservedEnvironmental(b), format!("Reserved Environmental (0x{b:02X})")),
        0x34..=0x35 | 0x39..=0x3F => (DeviceType::ReservedSystem(b), format!("Reserved System (0x{b:02X})")),
        0x40..=0xFE => (DeviceType::Reserved(b), format!("Reserved (0x{b:02X})")),
    }
}

/// EN 13757-7 table 19
pub fn mode(b: u8) -> (SecurityMode, String) {
    match b % 32 {
        0 => (SecurityMode::NoEncryption, "No encryption used".to_string()),
        1 => (SecurityMode::ManufacturerSpecific, "Manufacturer specific usage".to_string()),
        2 => (SecurityMode::DesIvZero, "DES; IV = 0 (deprecated)".to_string()),
        3 => (SecurityMode::DesIvNonZero, "DES; IV ≠ 0 (deprecated)".to_string()),
        4 => (SecurityMode::SpecificUsage4, "Specific usage (Bibliographical Entry [6])".to_string()),
        5 => (SecurityMode::AesCbc128IvNonZero, "AES-CBC-128; IV ≠ 0".to_string()),
        6 => (SecurityMode::Reserved6, "Reserved for future use".to_string()),
        7 => (SecurityMode::AesCbc128IvZero, "AES-CBC-128; IV = 0".to_string()),
        8 => (SecurityMode::AesCtr128Cmac, "AES-CTR-128; CMAC".to_string()),
        9 => (SecurityMode::AesGcm128, "AES-GCM-128".to_string()),
        10 => (SecurityMode::AesCcm128, "AES-CCM-128".to_string()),
        11 => (SecurityMode::Reserved11, "Reserved for future use".to_string()),
        12 => (SecurityMode::Reserved12, "Reserved for future use".to_string()),
        13 => (SecurityMode::SpecificUsage13, "Specific usage (Bibliographical Entry [8])".to_string()),
        14 => (SecurityMode::Reserved14, "Reserved for future use".to_string()),
        15 => (SecurityMode::SpecificUsage15, "Specific usage (Bibliographical Entry [7])".to_string()),
        x => (SecurityMode::ReservedHigher(x), format!("Reserved for future use (mode {x})")),
    }
}

pub fn letters(id: u16) -> Option<[char; 3]> {
    let l = |x: u16| -> Option<char> { (1..=26).contains(&x).then(|| (b'A' + x as u8 - 1) as char) };
    Some([l(id >> 10)?, l((id >> 5) & 31)?, l(id & 31)?])
}

/// digits of packed decimals, least significant byte first
pub fn bcd(d: &[u8]) -> Option<u64> {
    let s: String = d.iter().rev().map(|b| format!("{b:02x}")).collect();
    s.bytes().all(|c| c.is_ascii_digit()).then(|| s.parse().unwrap())
}

fn check17(i: &[u8]) -> R {
    let two = || i.get(1).zip(i.get(2)).map(|(a, b)| u16::from(*a) + 256 * u16::from(*b));
    match i.first() {
        Some(0) => {
            let Some(id) = two() else { return Ok(()) };
            let got = ManufacturerCode::from_id(id);
            match (got, letters(id)) {
                (Err(_), None) => Ok(()),
                (Ok(m), Some(l)) => {
                    eq("letters", m.code, l)?;
                    eq("name", m.to_string(), l.iter().collect())?;
                    eq("code from letters", m.to_id(), id)
                }
                (g, l) => Err(format!("manufacturer {id:04X}: got {g:?}, expected {l:?}")),
            }
        }
        Some(1) => {
            let Some(&b) = i.get(1) else { return Ok(()) };
            let (t, n) = device(b);
            eq("device type", DeviceType::from(b), t)?;
            eq("device code", u8::from(DeviceType::from(b)), b)?;
            eq("device name", DeviceType::from(b).to_string(), n)
        }
        Some(2) => {
            let Some(&b) = i.get(1) else { return Ok(()) };
            let (t, n) = mode(b);
            eq("security mode", SecurityMode::from_bits(b), t)?;
            eq("mode bits", SecurityMode::from_bits(b).to_bits(), b % 32)?;
            eq("mode name", SecurityMode::from_bits(b).to_string(), n)
        }
        Some(3) => {
            let Some(raw) = two() else { return Ok(()) };
            let c = ConfigurationField::from_bytes(i[1], i[2]);
            eq("raw", c.raw(), raw)?;
            eq("from u16", ConfigurationField::from(raw), c)?;
            eq("into u16", u16::from(c), raw)?;
            eq("mode", c.security_mode(), mode(i[2]).0)?;
            eq("lower bits", c.mode_specific_lower(), i[1])?;
            eq("upper bits", c.mode_specific_upper(), i[2] >> 5)
        }
        Some(4) => {
            let Some(d) = i.get(1..5) else { return Ok(()) };
            let d: [u8; 4] = d.try_into().unwrap();
            let want = bcd(&d).map(|x| x as u32);
            eq("digits", bcd_hex_digits_to_u32(d).ok(), want)?;
            let n = IdentificationNumber::from_bcd_hex_digits(d).ok();
            eq("identification number", n.map(u32::from), want)?;
            eq("text", n.map(|n| n.to_string()), want.map(|n| format!("{n:08}")))
        }
        _ => Ok(()),
    }
}

fn sys17(f: &mut dyn FnMut(Vec<u8>) -> bool) {
    for k in [0u8, 3] {
        for id in 0..=u16::MAX {
            if !f(vec![k, id as u8, (id >> 8) as u8]) {
                return;
            }
        }
    }
    for k in [1u8, 2] {
        for b in 0..=255u8 {
            if !f(vec![k, b]) {
                return;
            }
        }
    }
    for base in [[0u8; 4], [0x99; 4], [0x12, 0x34, 0x56, 0x78]] {
        for p in 0..4 {
            for b in 0..=255u8 {
                let mut d = base;
                d[p] = b;
                if !f([&[4u8][..], &d].concat()) {
                    return;
                }
            }
        }
    }
}
fn rnd17(r: &mut Rng) -> Vec<u8> {
    let mut v = vec![4];
    for _ in 0..4 {
        v.push(if r.one_in(8) { r.byte() } else { (r.below(10) * 16 + r.below(10)) as u8 });
    }
    v
}
pub static P17: Prop = Prop {
    id: "P17",
    rule: "all 2^16 manufacturer codes and configuration fields, all device and mode bytes, all digit bytes in all positions, then random digit groups",
    systematic: sys17,
    random: rnd17,
    check: check17,
    nontrivial: |i| match i.first() {
        Some(0) => i.len() == 3 && letters(u16::from(i[1]) + 256 * u16::from(i[2])).is_some(),
        Some(4) => i.len() == 5 && bcd(&i[1..]).is_some(),
        _ => true,
    },
};

// ---- P16 -----------------------------------------------------------------------
/// input: capacity selector, then operations of 7 bytes: 0/1 register/look up,
/// manufacturer (2, two's complement little endian), number (3), key tag
fn meter(o: &[u8]) -> (u16, u32) {
    let l = |x: u8| u16::from(x % 26) + 1;
    let m = (l(o[1]) << 10) | (l(o[2] & 0x3F) << 5) | l(o[2] >> 3);
    let n = u32::from_le_bytes([o[3], o[4], o[5], if o[5] & 1 == 1 { o[3] } else { 0 }]);
    (m, n)
}
fn context(m: u16, n: u32, tag: u8) -> KeyContext {
    KeyContext {
        manufacturer: ManufacturerCode { code: letters(m).expect("letters") },
        identification_number: n,
        version: tag,
        device_type: DeviceType::from(tag),
        security_mode: SecurityMode::from_bits(tag),
        access_number: tag,
    }
}
fn run16<const N: usize>(ops: &[u8]) -> R {
    let mut p = if ops.len() % 2 == 0 { StaticKeyProvider::<N>::new() } else { StaticKeyProvider::<N>::default() };
    let mut reference: Vec<((u16, u32), [u8; 16])> = vec![];
    let mut asked: Vec<(u16, u32)> = vec![];
    for o in ops.chunks_exact(7) {
        let (m, n) = meter(o);
        asked.push((m, n));
        if o[0] % 3 != 0 {
            let mut key = [o[6]; 16];
            key[0] = reference.len() as u8;
            let r = p.add_key(m, n, key);
            if reference.len() < N {
                if r.is_err() {
                    return Err(format!("registration {} of {N} refused", reference.len() + 1));
                }
                reference.push(((m, n), key));
            } else if r.is_ok() {
                return Err("registration beyond the capacity accepted".into());
            }
        }
        for (m, n) in &asked {
            for (m, n) in [(*m, *n), (*m, n ^ 1), (*m, n.wrapping_add(1 << 16)), (m ^ 3, *n)] {
                if letters(m).is_none() {
                    continue;
                }
                let got = p.get_key(&context(m, n, o[6])).map(|k| k.to_vec()).ok();
                let want = reference.iter().find(|e| e.0 == (m, n)).map(|e| e.1.to_vec());
                if got != want {
                    return Err(format!("key of manufacturer {m:04X} number {n}: got {got:?}, expected {want:?}"));
                }
            }
        }
        // an unknown key is reported as such
        if let Err(e) = p.get_key(&context(0x0421, 0xFFFF_FFFF, 0)) {
            eq("error", e, DecryptionError::KeyNotFound)?;
        }
    }
    Ok(())
}
fn check16(i: &[u8]) -> R {
    let Some((c, ops)) = i.split_first() else { return Ok(()) };
    match c % 6 {
        0 => run16::<0>(ops),
        1 => run16::<1>(ops),
        2 => run16::<2>(ops),
        3 => run16::<3>(ops),
        4 => run16::<5>(ops),
        _ => run16::<17>(ops),
    }
}
fn sys16(f: &mut dyn FnMut(Vec<u8>) -> bool) {
    for c in 0..6u8 {
        for n in 0..=20usize {
            for dup in [0usize, 2, 3] {
                let mut v = vec![c];
                for k in 0..n {
                    let id = if dup > 0 { k % dup } else { k } as u8;
                    v.extend_from_slice(&[1, 6, 7, id, 0, 0, k as u8 + 1]);
                }
                if !f(v) {
                    return;
                }
            }
        }
    }
    // meters that differ in one bit
    for bit in 0..32u32 {
        let b = 1u32 << bit;
        let [x, y, z, _] = b.to_le_bytes();
        if !f(vec![2, 1, 6, 7, 0, 0, 0, 1, 1, 6, 7, x, y, z, 2]) {
            return;
        }
    }
    for bit in 0..8 {
        if !f(vec![2, 1, 6, 7, 0, 0, 0, 1, 1, 6 ^ (1 << bit), 7, 0, 0, 0, 2]) || !f(vec![2, 1, 6, 7, 0, 0, 0, 1, 1, 6, 7 ^ (1 << bit), 0, 0, 0, 2]) {
            return;
        }
    }
}
fn rnd16(r: &mut Rng) -> Vec<u8> {
    let mut v = vec![r.byte()];
    let n = r.below(20);
    for _ in 0..n {
        let few = r.bool();
        v.push(r.byte());
        for k in 0..6 {
            v.push(if few && k < 5 { r.below(3) as u8 } else { r.byte() });
        }
    }
    v
}
pub static P16: Prop = Prop {
    id: "P16",
    rule: "registration histories for capacities 0,1,2,3,5,17; every meter asked so far and near misses are looked up after every step",
    systematic: sys16,
    random: rnd16,
    check: check16,
    nontrivial: |i| i.len() > 8,
};

// ---- P15 -----------------------------------------------------------------------
use aes::cipher::{BlockCipherDecrypt, KeyInit};

/// AES-128-CBC of whole blocks from the block cipher alone
pub fn cbc(key: &[u8; 16], iv: &[u8; 16], data: &[u8]) -> Vec<u8> {
    let c = aes::Aes128::new(&(*key).into());
    let mut prev = *iv;
    let mut out = vec![];
    for b in data.chunks_exact(16) {
        let mut x: aes::Block = <[u8; 16]>::try_from(b).unwrap().into();
        c.decrypt_block(&mut x);
        out.extend(x.iter().zip(prev).map(|(a, p)| a ^ p));
        prev = b.try_into().unwrap();
    }
    out
}

/// answers every request with the same key and remembers what was asked
pub struct Spy {
    pub key: Option<Vec<u8>>,
    pub asked: std::cell::RefCell<Vec<KeyContext>>,
}
impl KeyProvider for Spy {
    fn get_key(&self, c: &KeyContext) -> Result<&[u8], DecryptionError> {
        self.asked.borrow_mut().push(c.clone());
        self.key.as_deref().ok_or(DecryptionError::KeyNotFound)
    }
}

pub fn iv5(c: &KeyContext) -> [u8; 16] {
    let m = u16::from_str_radix(
        &c.manufacturer.code.iter().map(|l| format!("{:05b}", *l as u8 - 64)).collect::<String>(), 2).unwrap();
    let n = format!("{:08}", c.identification_number % 100_000_000);
    let mut iv = vec![m as u8, (m >> 8) as u8];
    for k in (0..4).rev() {
        iv.push(u8::from_str_radix(&n[2 * k..2 * k + 2], 16).unwrap());
    }
    iv.push(c.version);
    iv.push(u8::from(c.device_type));
    iv.extend([c.access_number; 8]);
    iv.try_into().unwrap()
}

/// outcome required by P15; None: an error
pub fn plain(c: &KeyContext, key: Option<&[u8]>, data: &[u8], room: usize) -> Option<Vec<u8>> {
    let key = key?;
    let iv = match c.security_mode.to_bits() {
        0 => return (data.len() <= room).then(|| data.to_vec()),
        5 => iv5(c),
        7 => [0; 16],
        _ => return None,
    };
    let key: [u8; 16] = key.try_into().ok()?;
    if data.is_empty() || data.len() > room {
        return None;
    }
    let w = data.len() / 16 * 16;
    let mut v = cbc(&key, &iv, &data[..w]);
    v.extend_from_slice(&data[w..]);
    Some(v)
}

pub fn judge(r: Result<usize, DecryptionError>, out: &[u8], fill: u8, want: Option<Vec<u8>>) -> R {
    match (r, want) {
        (Err(_), None) => Ok(()),
        (Ok(n), Some(w)) => {
            eq("length", n, w.len())?;
            if out[..n] != w[..] {
                return Err(format!("decrypted to {}, expected {}", hex(&out[..n]), hex(&w)));
            }
            if out[n..].iter().any(|b| *b != fill) {
                return Err(format!("bytes behind the payload changed: {}", hex(&out[n..])));
            }
            Ok(())
        }
        (g, w) => Err(format!("got {g:?}, expected {}", if w.is_some() { "success" } else { "an error" })),
    }
}

/// input: via, mode, keylen selector, room selector, fill, manufacturer (2), number (4), version,
/// device, access, then the payload
fn check15(i: &[u8]) -> R {
    if i.len() < 14 {
        return Ok(());
    }
    let l = |x: u8| (b'A' + x % 26) as char;
    let c = KeyContext {
        manufacturer: ManufacturerCode { code: [l(i[5]), l(i[6]), l(i[5] ^ i[6])] },
        identification_number: u32::from_le_bytes([i[7], i[8], i[9], i[10]]) % 100_000_000,
        version: i[11],
        device_type: DeviceType::from(i[12]),
        security_mode: SecurityMode::from_bits(i[1]),
        access_number: i[13],
    };
    let data = &i[14..];
    let klen = match i[2] % 8 { 0 => 15, 1 => 17, 2 => 0, 3 => 32, 4 => usize::MAX, _ => 16 };
    let key: Option<Vec<u8>> = (klen != usize::MAX).then(|| (0..klen).map(|k| i[5].wrapping_mul(31).wrapping_add((k as u8).wrapping_mul(i[13]))).collect());
    let room = match i[3] % 5 { 0 => data.len().saturating_sub(1), 1 => data.len() / 2, 2 => data.len() + 1 + i[3] as usize, 3 => data.len() / 16 * 16, _ => data.len() };
    let fill = i[4];
    let mut out = vec![fill; room];
    let spy = Spy { key: key.clone(), asked: Default::default() };
    let asks = |spy: &Spy, c: &KeyContext| -> R {
        let a = spy.asked.borrow();
        if a.is_empty() || a.iter().all(|x| x == c) {
            Ok(())
        } else {
            Err(format!("asked for the key of {a:?}, expected {c:?}"))
        }
    };
    use m_bus_application_layer::UserDataBlock;
    match i[0] % 3 {
        0 => {
            let r = EncryptedPayload::new(data, c.clone()).decrypt_into(&spy, &mut out);
            asks(&spy, &c)?;
            judge(r, &out, fill, plain(&c, key.as_deref(), data, room))
        }
        k => {
            // through a decoded block
            let cf = [i[4], i[1] & 31 | i[11] & 0xE0];
            let n = format!("{:08}", c.identification_number);
            let idb: Vec<u8> = (0..4).rev().map(|k| u8::from_str_radix(&n[2 * k..2 * k + 2], 16).unwrap()).collect();
            let mid = u16::from_str_radix(&c.manufacturer.code.iter().map(|l| format!("{:05b}", *l as u8 - 64)).collect::<String>(), 2).unwrap();
            let mut b = if k == 1 {
                let mut b = vec![0x72];
                b.extend(&idb);
                b.extend(mid.to_le_bytes());
                b.extend([i[11], i[12]]);
                b
            } else {
                vec![0x7A]
            };
            b.extend([i[13], i[6], cf[0], cf[1]]);
            b.extend(data);
            let u = UserDataBlock::try_from(b.as_slice()).map_err(|e| format!("block refused: {e:?}"))?;
            eq("payload length", u.variable_data_len(), data.len())?;
            let want = if i[1] % 32 == 0 { None } else { plain(&c, key.as_deref(), data, room) };
            if k == 1 {
                let r = u.decrypt_variable_data(&spy, &mut out);
                asks(&spy, &c)?;
                judge(r, &out, fill, want.clone())?;
                // the header decides, not the arguments
                let mut out = vec![fill; room];
                let r = u.decrypt_variable_data_with_context(&spy, ManufacturerCode { code: ['A', 'B', 'C'] }, 1, 2, DeviceType::Other, &mut out);
                asks(&spy, &c)?;
                judge(r, &out, fill, want)
            } else {
                let r = u.decrypt_variable_data_with_context(&spy, c.manufacturer, c.identification_number, c.version, c.device_type, &mut out);
                asks(&spy, &c)?;
                judge(r, &out, fill, want)?;
                let mut out = vec![fill; room];
                if u.decrypt_variable_data(&spy, &mut out).is_ok() {
                    return Err("decrypted without knowing the manufacturer".into());
                }
                Ok(())
            }
        }
    }
}
fn sys15(f: &mut dyn FnMut(Vec<u8>) -> bool) {
    for via in 0..3u8 {
        for m in 0..32u8 {
            for ks in 0..6u8 {
                for rs in 0..5u8 {
                    for n in [0usize, 1, 15, 16, 17, 31, 32, 33, 48, 50] {
                        let mut v = vec![via, m, ks, rs, 0xA5, 3, 9, 0x15, 0xCD, 0x5B, 0x07, 0x42, 0x07, 0x31];
                        v.extend((0..n).map(|k| (k * 13 + 5) as u8));
                        if !f(v) {
                            return;
                        }
                    }
                }
            }
        }
    }
    for via in 0..3u8 {
        for d in 0..=255u8 {
            for (p, _) in [(5, 0), (6, 0), (7, 0), (8, 0), (9, 0), (10, 0), (11, 0), (12, 0), (13, 0)] {
                let mut v = vec![via, 5, 7, 4, 0xA5, 3, 9, 0x15, 0xCD, 0x5B, 0x05, 0x42, 0x07, 0x31];
                v[p] = d;
                v.extend((0..20).map(|k| (k * 13 + 5) as u8));
                if !f(v) {
                    return;
                }
            }
        }
    }
    for n in 0..300usize {
        for m in [5u8, 7] {
            let mut v = vec![0, m, 7, 4, 0xA5, 3, 9, 0x15, 0xCD, 0x5B, 0x05, 0x42, 0x07, 0x31];
            v.extend((0..n).map(|k| (k * 13 + 5) as u8));
            if !f(v) {
                return;
            }
        }
    }
}
fn rnd15(r: &mut Rng) -> Vec<u8> {
    let mut v = r.bytes(14);
    if !r.one_in(4) {
        v[1] = r.pick(&[5, 7]);
    }
    if !r.one_in(4) {
        v[2] = 7;
        v[3] = r.pick(&[2, 4]);
    }
    let n = if r.one_in(10) { r.below(400) } else { r.below(70) };
    v.extend(r.bytes(n));
    v
}
pub static P15: Prop = Prop {
    id: "P15",
    rule: "payload, blocks with long and with short header; all modes, key lengths, buffer sizes and lengths around block borders, every value of every context byte, then random",
    systematic: sys15,
    random: rnd15,
    check: check15,
    nontrivial: |i| i.len() > 14 && matches!(i[1] % 32, 5 | 7) && i[2] % 8 > 4,
};
