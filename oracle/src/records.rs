//! P06 to P12: data records and their parts
use crate::engine::*;
use crate::viftab::ROWS;
use m_bus_application_layer::data_information::*;
use m_bus_application_layer::data_record::DataRecord;
use m_bus_application_layer::value_information::*;
use m_bus_application_layer::*;

// ------------------------------------------------------------ reference

pub struct Dif {
    pub len: usize,
    pub storage: u64,
    pub tariff: u64,
    pub subunit: u64,
}
pub fn dif(d: &[u8]) -> Option<Dif> {
    let first = *d.first()?;
    let mut r = Dif { len: 1, storage: (first >> 6 & 1) as u64, tariff: 0, subunit: 0 };
    let mut more = first >= 128;
    let mut k = 0;
    while more {
        let b = *d.get(r.len)?;
        r.len += 1;
        if k == 11 {
            return None;
        }
        r.storage += ((b % 16) as u64) << (1 + 4 * k);
        r.tariff += ((b / 16 % 4) as u64) << (2 * k);
        r.subunit += ((b / 64 % 2) as u64) << k;
        k += 1;
        more = b >= 128;
    }
    Some(r)
}
fn function(dif: u8) -> FunctionField {
    [FunctionField::InstantaneousValue, FunctionField::MaximumValue, FunctionField::MinimumValue, FunctionField::ValueDuringErrorState][(dif / 16 % 4) as usize]
}
fn coding(dif: u8) -> DataFieldCoding {
    use DataFieldCoding::*;
    match dif % 16 {
        0 => NoData,
        1 => Integer8Bit,
        2 => Integer16Bit,
        3 => Integer24Bit,
        4 => Integer32Bit,
        5 => Real32Bit,
        6 => Integer48Bit,
        7 => Integer64Bit,
        8 => SelectionForReadout,
        9 => BCD2Digit,
        10 => BCD4Digit,
        11 => BCD6Digit,
        12 => BCD8Digit,
        13 => VariableLength,
        14 => BCDDigit12,
        _ => SpecialFunctions(match dif {
            0x0F => m_bus_application_layer::data_information::SpecialFunctions::ManufacturerSpecific,
            0x1F => m_bus_application_layer::data_information::SpecialFunctions::MoreRecordsFollow,
            0x2F => m_bus_application_layer::data_information::SpecialFunctions::IdleFiller,
            0x7F => m_bus_application_layer::data_information::SpecialFunctions::GlobalReadoutRequest,
            _ => m_bus_application_layer::data_information::SpecialFunctions::Reserved,
        }),
    }
}

pub struct Vib {
    pub len: usize,
    pub vife: Vec<u8>,
    pub text: Option<Vec<u8>>,
}
pub fn vib(d: &[u8]) -> Option<Vib> {
    let first = *d.first()?;
    let mut r = Vib { len: 1, vife: vec![], text: None };
    if first >= 128 {
        while r.len < d.len() {
            let b = d[r.len];
            r.vife.push(b);
            r.len += 1;
            if b < 128 {
                break;
            }
        }
        if r.vife.len() > 10 {
            return None;
        }
        if first == 0xFC {
            let n = *d.get(r.len)? as usize;
            if n > 9 {
                return None;
            }
            let t = d.get(r.len + 1..r.len + 1 + n)?;
            r.text = Some(t.to_vec());
            r.len += 1 + n;
        }
    }
    Some(r)
}

#[derive(Debug, PartialEq, Default, Clone)]
pub struct Vi {
    pub labels: Vec<String>,
    pub units: Vec<(String, i32)>,
    pub scale: isize,
    pub offset: isize,
}
fn apply(v: &mut Vi, table: &str, c: u8) -> Option<()> {
    let c = (c & 0x7F) as i32;
    let r = ROWS.iter().find(|r| r.0 == table && (r.1 < 0 || (r.1 <= c && c <= r.2)))?;
    v.labels.extend(r.3?.iter().map(|s| s.to_string()));
    v.units.extend(r.4.iter().map(|(s, e)| (s.to_string(), *e)));
    v.scale += (r.5 .0 * (c - r.1) + r.5 .1) as isize;
    v.offset += (r.6 .0 * (c - r.1) + r.6 .1) as isize;
    Some(())
}
/// exponents of the additive constants 10^n among the combinable extensions
pub fn additive(vif: u8, x: &[u8]) -> Vec<isize> {
    let used = match vif {
        0x7E | 0x7F | 0xFE | 0xFF => x.len(),
        0x7D | 0xFD => if x.first().is_some_and(|a| a % 128 == 0x7D) { 2 } else { 1 },
        0xFB => 1,
        _ => 0,
    };
    let mut r = vec![];
    let mut prev = 0;
    for b in x.iter().skip(used) {
        if prev != 0xFC && (0x78..=0x7B).contains(&(b % 128)) {
            r.push((b % 4) as isize - 3);
        }
        prev = *b;
    }
    r
}
pub fn vi(vif: u8, x: &[u8]) -> Option<Vi> {
    let mut v = Vi::default();
    let used = match vif {
        0x7C | 0xFC => {
            v.labels.push("PlainText".into());
            0
        }
        0x7E | 0x7F | 0xFE | 0xFF => {
            v.labels.push("ManufacturerSpecific".into());
            x.len()
        }
        0x7D | 0xFD => {
            let a = *x.first()?;
            if a & 0x7F == 0x7D {
                // without a further byte there is no entry to name
                apply(&mut v, "fdfd", x.get(1).copied().unwrap_or(1))?;
                x.len().min(2)
            } else {
                apply(&mut v, "fd", a)?;
                1
            }
        }
        0xFB => {
            apply(&mut v, "fb", *x.first()?)?;
            1
        }
        _ => {
            apply(&mut v, "prim", vif)?;
            0
        }
    };
    let mut ext = false;
    for b in &x[used..] {
        if *b == 0xFC {
            ext = true;
        } else {
            apply(&mut v, if ext { "ext" } else { "orth" }, *b)?;
            ext = false;
        }
    }
    (v.labels.len() <= 10 && v.units.len() <= 10).then_some(v)
}
fn as_vi(v: &ValueInformation) -> Vi {
    Vi {
        labels: v.labels.iter().map(|l| format!("{l:?}")).collect(),
        units: v.units.iter().map(|u| (format!("{:?}", u.name), u.exponent)).collect(),
        scale: v.decimal_scale_exponent,
        offset: v.decimal_offset_exponent,
    }
}

#[derive(Debug, Clone)]
pub enum Val {
    None,
    /// exact, or within an ulp when false
    Num(f64, bool),
    Lossy,
    Text(Vec<u8>),
    Raw(Vec<u8>),
    When(DataType<'static>),
}
#[derive(Debug, PartialEq, Clone, Copy)]
pub enum Aspect {
    Fixed,
    Variable,
    Date,
    Other,
}
pub fn twos(d: &[u8]) -> i128 {
    let mut v: i128 = 0;
    for (k, b) in d.iter().enumerate() {
        v += (*b as i128) << (8 * k);
    }
    if d.last().is_some_and(|b| *b >= 128) {
        v -= 1i128 << (8 * d.len());
    }
    v
}
fn int(d: &[u8], n: usize) -> Option<(usize, Val)> {
    let b = d.get(..n)?;
    Some((n, if n > 8 { Val::Lossy } else { Val::Num(twos(b) as f64, true) }))
}
fn bcd(d: &[u8], n: usize, lsb: bool, neg: bool) -> Option<(usize, Val)> {
    let b = d.get(..n)?;
    let mut v: i128 = 0;
    let it: Vec<u8> = if lsb { b.to_vec() } else { b.iter().rev().copied().collect() };
    for x in it {
        if x / 16 > 9 || x % 16 > 9 {
            return None;
        }
        v = v * 100 + (x / 16 * 10 + x % 16) as i128;
    }
    Some((n, Val::Num(if neg { -v } else { v } as f64, n <= 8)))
}
fn month(b: u8) -> SingleEveryOrInvalid<Month> {
    use Month::*;
    const M: [Month; 12] = [January, February, March, April, May, June, July, August, September, October, November, December];
    match b % 16 {
        15 => SingleEveryOrInvalid::Every(),
        m @ 1..=12 => SingleEveryOrInvalid::Single(M[m as usize - 1].clone()),
        _ => SingleEveryOrInvalid::Invalid(),
    }
}
fn year(day: u8, month: u8) -> SingleEveryOrInvalid<u16> {
    let y = (day / 32) as u16 + 8 * (month / 16) as u16;
    if y == 127 {
        SingleEveryOrInvalid::Every()
    } else {
        SingleEveryOrInvalid::Single(y)
    }
}
fn part(b: u8, modulus: u8, every: u8) -> SingleEveryOrInvalid<u8> {
    if b % modulus == every {
        SingleEveryOrInvalid::Every()
    } else {
        SingleEveryOrInvalid::Single(b % modulus)
    }
}
pub fn value(dif: u8, labels: &[String], d: &[u8], lsb: bool) -> (Aspect, Option<(usize, Val)>) {
    let has = |l: &str| labels.iter().any(|x| x == l);
    let (date, datetime) = (has("Date"), has("DateTime") && !has("Date"));
    let (day, min, hour) = (|b| part(b, 32, 0), |b| part(b, 64, 63), |b| part(b, 32, 31));
    match dif % 16 {
        2 if date => (
            Aspect::Date,
            d.get(..2).map(|d| (2, Val::When(DataType::Date(day(d[0]), month(d[1]), year(d[0], d[1]))))),
        ),
        3 if datetime => (Aspect::Date, d.get(..3).map(|d| (3, Val::When(DataType::Time(min(d[0]), min(d[1]), hour(d[2])))))),
        4 if datetime => (
            Aspect::Date,
            d.get(..4).map(|d| (4, Val::When(DataType::DateTime(day(d[2]), month(d[3]), year(d[2], d[3]), hour(d[1]), min(d[0]))))),
        ),
        6 if datetime => (
            Aspect::Date,
            d.get(..6).map(|d| {
                (6, Val::When(DataType::DateTimeWithSeconds(day(d[3]), month(d[4]), year(d[3], d[4]), hour(d[2]), min(d[1]), min(d[0]))))
            }),
        ),
        0 | 8 => (Aspect::Other, Some((0, Val::None))),
        n @ 1..=4 => (Aspect::Fixed, int(d, n as usize)),
        5 => (
            Aspect::Fixed,
            d.get(..4).map(|d| (4, Val::Num(f32::from_bits(d[0] as u32 | (d[1] as u32) << 8 | (d[2] as u32) << 16 | (d[3] as u32) << 24) as f64, true))),
        ),
        6 => (Aspect::Fixed, int(d, 6)),
        7 => (Aspect::Fixed, int(d, 8)),
        n @ 9..=12 => (Aspect::Fixed, bcd(d, n as usize - 8, lsb, false)),
        14 => (Aspect::Fixed, bcd(d, 6, lsb, false)),
        13 => (Aspect::Variable, variable(d, lsb)),
        _ => (
            Aspect::Other,
            match dif {
                0x0F | 0x1F => Some((d.len(), Val::Raw(d.to_vec()))),
                0x2F | 0x7F => Some((0, Val::None)),
                _ => None,
            },
        ),
    }
}
fn variable(d: &[u8], lsb: bool) -> Option<(usize, Val)> {
    let (l, d) = d.split_first()?;
    let l = *l;
    let r = match l {
        0x00..=0xBF => (l as usize, Val::Text(d.get(..l as usize)?.to_vec())),
        0xC0..=0xC9 => bcd(d, (l - 0xC0) as usize, lsb, false)?,
        0xD0..=0xD9 => bcd(d, (l - 0xD0) as usize, lsb, true)?,
        0xE0..=0xEF => int(d, (l - 0xE0) as usize)?,
        0xF0..=0xF4 => int(d, 16 + 4 * (l - 0xF0) as usize)?,
        0xF5 => int(d, 48)?,
        0xF6 => int(d, 64)?,
        _ => return None,
    };
    Some((r.0 + 1, r.1))
}

pub struct Rec {
    pub head: usize,
    pub size: usize,
    pub val: Val,
}
/// the record at the start of the data
pub fn record(d: &[u8], lsb: bool) -> (Aspect, Option<Rec>) {
    let Some(f) = dif(d) else { return (Aspect::Other, None) };
    if d[0] % 16 == 15 {
        let (a, v) = value(d[0], &[], &d[f.len..], lsb);
        return (a, v.map(|(size, val)| Rec { head: f.len, size, val }));
    }
    let Some(b) = vib(&d[f.len..]) else { return (Aspect::Other, None) };
    let Some(v) = vi(d[f.len], &b.vife) else { return (Aspect::Other, None) };
    let head = f.len + b.len;
    let (a, x) = value(d[0], &v.labels, &d[head..], lsb);
    (a, x.map(|(size, val)| Rec { head, size, val }))
}

// ------------------------------------------------------------ comparison

fn val_is(got: &Option<DataType<'_>>, want: &Val) -> R {
    let ok = match (got, want) {
        (None, Val::None) => true,
        (Some(DataType::Number(x)), Val::Num(y, exact)) => {
            x == y || (x.is_nan() && y.is_nan()) || (!exact && (x - y).abs() <= y.abs() * 4.0 * f64::EPSILON)
        }
        (Some(DataType::LossyNumber(_)), Val::Lossy) => true,
        (Some(DataType::Text(t)), Val::Text(b)) => {
            let rev: Vec<u8> = b.iter().rev().copied().collect();
            let want = String::from_utf8(rev.clone()).unwrap_or_else(|_| rev.iter().map(|c| *c as char).collect());
            *t == TextUnit::new(b) && format!("{t}") == want
        }
        (Some(DataType::ManufacturerSpecific(m)), Val::Raw(b)) => m == b,
        (Some(x), Val::When(y)) => x == y,
        _ => false,
    };
    if ok {
        Ok(())
    } else {
        Err(format!("value {got:?}, expected {want:?}"))
    }
}
fn header(lsb: bool) -> LongTplHeader {
    let b = [if lsb { 0x76 } else { 0x72 }, 0x01, 0x02, 0x03, 0x04, 0x2D, 0x2C, 0x01, 0x07, 0x05, 0x00, 0x00, 0x00];
    match UserDataBlock::try_from(&b[..]) {
        Ok(UserDataBlock::VariableDataStructureWithLongTplHeader { long_tpl_header, .. }) => long_tpl_header,
        x => panic!("header {x:?}"),
    }
}
fn parse<'a>(mode: u8, h: &'a LongTplHeader, d: &'a [u8]) -> Result<DataRecord<'a>, DataRecordError> {
    if mode % 3 == 0 {
        DataRecord::try_from(d)
    } else {
        DataRecord::try_from((d, h))
    }
}
/// first byte: no header, header, header with the other byte order; then a record
fn check_value(i: &[u8], which: Aspect) -> R {
    let Some((mode, d)) = i.split_first() else { return Ok(()) };
    let lsb = mode % 3 == 2;
    let h = header(lsb);
    let lsb = h.lsb_order && mode % 3 != 0;
    let (a, want) = record(d, lsb);
    if a != which {
        return Ok(());
    }
    match (parse(*mode, &h, d), want) {
        (Err(_), None) => Ok(()),
        (Ok(r), Some(w)) => {
            val_is(&r.data.value, &w.val)?;
            eq("bytes of the value", r.data.get_size(), w.size)?;
            eq("bytes of the record", r.raw_bytes(), &d[..w.head + w.size])
        }
        (Ok(r), None) => Err(format!("accepted as {:?}", r.data)),
        (Err(e), Some(w)) => Err(format!("rejected with {e:?}, expected {:?}", w.val)),
    }
}
fn p09(i: &[u8]) -> R {
    check_value(i, Aspect::Fixed)
}
fn p10(i: &[u8]) -> R {
    check_value(i, Aspect::Variable)
}
fn p11(i: &[u8]) -> R {
    check_value(i, Aspect::Date)?;
    // and nothing else is taken for a date
    let Some((mode, d)) = i.split_first() else { return Ok(()) };
    let h = header(mode % 3 == 2);
    if let (a, Ok(r)) = (record(d, false).0, parse(*mode, &h, d)) {
        let temporal = matches!(r.data.value, Some(DataType::Date(..) | DataType::DateTime(..) | DataType::Time(..) | DataType::DateTimeWithSeconds(..)));
        eq("decoded as date or time", temporal, a == Aspect::Date)?;
    }
    Ok(())
}
fn p07(d: &[u8]) -> R {
    let got = DataInformationBlock::try_from(d);
    match (got, dif(d)) {
        (Err(_), None) => Ok(()),
        (Ok(b), Some(w)) => {
            eq("DIF", b.data_information_field.data, d[0])?;
            eq("size", b.get_size(), w.len)?;
            let e: Vec<u8> = b.data_information_field_extension.clone().map(|x| x.map(|e| e.data).collect()).unwrap_or_default();
            eq("extensions", &e[..], &d[1..w.len])?;
            eq("extension present", b.data_information_field_extension.is_some(), d[0] >= 128)?;
            let i = DataInformation::try_from(&b).map_err(|e| format!("rejected: {e:?}"))?;
            eq("storage number", i.storage_number, w.storage)?;
            eq("tariff", i.tariff, w.tariff)?;
            eq("subunit", i.device, w.subunit)?;
            eq("function", i.function_field, function(d[0]))?;
            eq("coding", i.data_field_coding, coding(d[0]))?;
            eq("size", i.size, w.len)
        }
        (Ok(b), None) => Err(format!("accepted as {b:?}")),
        (Err(e), Some(_)) => Err(format!("rejected with {e:?}")),
    }
}
fn p08(d: &[u8]) -> R {
    match (ValueInformationBlock::try_from(d), vib(d)) {
        (Err(_), None) => {}
        (Ok(b), Some(w)) => {
            eq("VIF", b.value_information.data, d[0])?;
            eq("size", b.get_size(), w.len)?;
            let e: Vec<u8> = b.value_information_extension.iter().flatten().map(|e| e.data).collect();
            eq("extensions", e, w.vife.clone())?;
            let t: Option<Vec<u32>> = b.plaintext_vife.as_ref().map(|t| t.iter().map(|c| *c as u32).collect());
            eq("text", t, w.text.map(|t| t.iter().map(|c| *c as u32).collect()))?;
        }
        (Ok(b), None) => return Err(format!("accepted as {b:?}")),
        (Err(e), Some(_)) => return Err(format!("rejected with {e:?}")),
    }
    // a record with this header: the value follows it
    let mut r = vec![0x01];
    r.extend_from_slice(d);
    if let (Ok(got), Some(w)) = (DataRecord::try_from(&r[..]), record(&r, false).1) {
        eq("header", got.data_record_header.get_size(), w.head)?;
        eq("record", got.raw_bytes().len(), w.head + 1)?;
        val_is(&got.data.value, &w.val)?;
    }
    Ok(())
}
fn p12(d: &[u8]) -> R {
    let Ok(b) = ValueInformationBlock::try_from(d) else { return Ok(()) };
    let x: Vec<u8> = b.value_information_extension.iter().flatten().map(|e| e.data).collect();
    let want = vi(b.value_information.data, &x);
    match (ValueInformation::try_from(&b), &want) {
        (Err(_), None) => {}
        (Ok(v), Some(w)) => eq("value information", &as_vi(&v), w)?,
        (Ok(v), None) => return Err(format!("accepted as {v:?}")),
        (Err(e), Some(w)) => return Err(format!("rejected with {e:?}, expected {w:?}")),
    }
    let mut r = vec![0x00];
    r.extend_from_slice(d);
    if let (Ok(got), Some(w)) = (DataRecord::try_from(&r[..]), &want) {
        match got.value_information() {
            Some(v) => eq("value information of the record", &as_vi(v), w)?,
            None => return Err("no value information in the record".into()),
        }
    }
    Ok(())
}
fn p06(i: &[u8]) -> R {
    let Some((mode, d)) = i.split_first() else { return Ok(()) };
    let h = header(mode % 3 == 2);
    let lsb = h.lsb_order && mode % 3 != 0;
    let mut it = if mode % 3 == 0 { parse_data_records(d) } else { parse_data_records_with_header(d, &h) };
    let mut o = 0;
    loop {
        while o < d.len() && d[o] % 16 == 15 && !matches!(d[o], 0x0F | 0x1F | 0x7F) {
            o += 1;
        }
        let got = it.next();
        if o >= d.len() {
            if let Some(x) = got {
                return Err(format!("{x:?} after the end"));
            }
            break;
        }
        match (got, record(&d[o..], lsb).1) {
            (None, _) => return Err(format!("iteration ends at byte {o}")),
            (Some(Err(_)), None) => {
                o = d.len();
            }
            (Some(Ok(r)), Some(w)) => {
                eq("raw bytes", r.raw_bytes(), &d[o..o + w.head + w.size])?;
                let at = r.raw_bytes().as_ptr() as usize - d.as_ptr() as usize;
                eq("position", at, o)?;
                o += w.head + w.size;
            }
            (Some(Ok(r)), None) => return Err(format!("accepted {r:?} at byte {o}")),
            (Some(Err(e)), Some(_)) => return Err(format!("rejected with {e:?} at byte {o}")),
        }
    }
    for _ in 0..3 {
        if let Some(x) = it.next() {
            return Err(format!("{x:?} after the end"));
        }
    }
    Ok(())
}

// ------------------------------------------------------------ generators

pub fn gen_dib(r: &mut Rng) -> Vec<u8> {
    let mut d = vec![if r.one_in(3) { r.byte() } else { r.pick(&[0x01u8, 0x02, 0x03, 0x04, 0x05, 0x06, 0x07, 0x09, 0x0A, 0x0B, 0x0C, 0x0D, 0x0E, 0x00, 0x08, 0x42, 0x44, 0x84, 0xC4]) }];
    while d[d.len() - 1] >= 128 && d.len() < 14 {
        let k = if r.one_in(2) { 0x7F } else { 0xFF };
        d.push(r.byte() & k);
    }
    if d.len() > 1 && r.one_in(30) {
        d.pop();
    }
    d
}
pub fn gen_vib(r: &mut Rng) -> Vec<u8> {
    let mut d = vec![match r.below(6) {
        0 => r.byte(),
        1 => r.pick(&[0xFDu8, 0xFB, 0xFC, 0x7C, 0xFF, 0xFE, 0x7F, 0x7E, 0x7D, 0xFD, 0xFB, 0xFC]),
        2 => r.pick(&[0x6Cu8, 0x6D, 0xEC, 0xED]),
        _ => r.byte() & 0x7F,
    }];
    let first = d[0];
    let long = r.one_in(4);
    while d[d.len() - 1] >= 128 && d.len() < 13 {
        let stop = !(long && !r.one_in(12)) && !r.one_in(3);
        let b = match r.below(5) {
            0 => r.pick(&[0x7Cu8, 0x7D, 0x70, 0x78, 0x28, 0x2B, 0x37]),
            _ => r.byte() & 0x7F,
        };
        d.push(if stop { b } else { b | 0x80 });
    }
    if first == 0xFC {
        let n = r.below(11);
        d.push(n as u8);
        d.extend(r.bytes(n));
    }
    d
}
pub fn gen_value(r: &mut Rng, dif: u8) -> Vec<u8> {
    let n = match dif % 16 {
        n @ 1..=4 => n as usize,
        5 => 4,
        6 | 14 => 6,
        7 => 8,
        n @ 9..=12 => n as usize - 8,
        13 => {
            let l = match r.below(6) {
                0 => r.below(0x20) as u8,
                1 => 0xC0 + r.below(12) as u8,
                2 => 0xD0 + r.below(12) as u8,
                3 => 0xE0 + r.below(16) as u8,
                4 => 0xF0 + r.below(8) as u8,
                _ => r.byte(),
            };
            let n = match l {
                0..=0xBF => l as usize,
                0xC0..=0xEF => (l % 16) as usize,
                0xF0..=0xF4 => 16 + 4 * (l as usize - 0xF0),
                0xF5 => 48,
                _ => 64,
            };
            let mut v = vec![l];
            if (0xC0..0xE0).contains(&l) && !r.one_in(6) {
                v.extend((0..n).map(|_| (r.below(10) * 16 + r.below(10)) as u8));
            } else {
                v.extend(r.edgy(n));
            }
            return v;
        }
        _ => r.below(6),
    };
    if matches!(dif % 16, 9..=12 | 14) && !r.one_in(6) {
        return (0..n).map(|_| (r.below(10) * 16 + r.below(10)) as u8).collect();
    }
    r.edgy(n)
}
pub fn gen_record(r: &mut Rng) -> Vec<u8> {
    let mut d = gen_dib(r);
    let dif = d[0];
    if dif % 16 != 15 {
        d.extend(gen_vib(r));
    }
    d.extend(gen_value(r, dif));
    if r.one_in(12) {
        let n = r.below(d.len());
        d.truncate(n);
    }
    d
}
pub fn gen_payload(r: &mut Rng) -> Vec<u8> {
    let mut d = vec![];
    for _ in 0..r.below(6) {
        match r.below(8) {
            0 => d.extend(vec![0x2F; r.below(4)]),
            1 => d.push(r.pick(&[0x3Fu8, 0x4F, 0x5F, 0x6F, 0x8F, 0xFF, 0xAF, 0x7F, 0x1F, 0x0F, 0x7F])),
            _ => d.extend(gen_record(r)),
        }
    }
    if r.one_in(6) {
        let k = r.below(20);
        d.extend(r.edgy(k));
    }
    d
}
fn moded(r: &mut Rng, mut f: impl FnMut(&mut Rng) -> Vec<u8>) -> Vec<u8> {
    let mut v = vec![r.below(3) as u8];
    v.extend(f(r));
    v
}
fn with(f: &mut dyn FnMut(Vec<u8>) -> bool, parts: &[&[u8]]) -> bool {
    f(parts.concat())
}

fn sys07(f: &mut dyn FnMut(Vec<u8>) -> bool) {
    f(vec![]);
    for a in 0..=255u8 {
        for b in 0..=255u8 {
            for c in [0u8, 1, 0x30, 0x40, 0x7F, 0x0F, 0x55] {
                if !f(vec![a, b, c, 0x13]) {
                    return;
                }
            }
        }
    }
    for n in 0..14 {
        for fill in [0x80u8, 0x8F, 0xB0, 0xC0, 0xFF, 0xD5, 0xAA] {
            for last in [0u8, 0x0F, 0x30, 0x40, 0x7F, 0x80] {
                let mut v = vec![0xC4];
                v.extend(vec![fill; n]);
                v.push(last);
                if !f(v.clone()) {
                    return;
                }
                v.pop();
                f(v);
            }
        }
    }
}
fn sys_vib(f: &mut dyn FnMut(Vec<u8>) -> bool) {
    f(vec![]);
    for a in 0..=255u8 {
        f(vec![a]);
        for b in 0..=255u8 {
            if !f(vec![a, b]) || !f(vec![a, b, 0x13, 1]) || !f(vec![a, b, b, 0x02, 0x41, 0x42]) {
                return;
            }
        }
    }
    for a in [0x93u8, 0xFD, 0xFB, 0xFC, 0xFF, 0xDB] {
        for b in [0x90u8, 0xFD, 0x9A, 0xFC, 0xF5, 0xFB] {
            for c in 0..=255u8 {
                if !f(vec![a, b, c]) || !f(vec![a, b, 0xFC, c, 0x01, 0x41]) || !f(vec![a, b, c | 0x80, 0x74]) {
                    return;
                }
            }
        }
    }
    for n in 0..14 {
        for fill in [0x80u8, 0xA8, 0xB7, 0xFC, 0xF0, 0xFD, 0xB1] {
            for a in [0x93u8, 0xFD, 0xFB, 0xFC, 0xFF] {
                for first in [0x9Au8, 0xFD, fill] {
                    let mut v = vec![a, first];
                    v.extend(vec![fill; n]);
                    if !f(v.clone()) {
                        return;
                    }
                    v.push(0x22);
                    v.extend([0x01, 0x41]);
                    f(v);
                }
            }
        }
    }
    for n in 0..12u8 {
        for have in 0..12usize {
            f([&[0xFC, 0x74, n][..], &b"ABCDEFGHIJKL"[..have]].concat());
        }
    }
}
fn sys09(f: &mut dyn FnMut(Vec<u8>) -> bool) {
    for m in 0..3u8 {
        for dif in 0..15u8 {
            for b in 0..=255u8 {
                for base in [[0u8; 8], [0xFF; 8], [0x99; 8], [0x12, 0x34, 0x56, 0x78, 0x90, 0x21, 0x43, 0x65]] {
                    for at in 0..8 {
                        let mut v = base;
                        v[at] = b;
                        if !with(f, &[&[m, dif, 0x13], &v]) {
                            return;
                        }
                    }
                }
            }
            for n in 0..9 {
                with(f, &[&[m, dif, 0x13], &[0x11; 9][..n]]);
            }
        }
    }
}
fn sys10(f: &mut dyn FnMut(Vec<u8>) -> bool) {
    for m in 0..3u8 {
        for l in 0..=255u8 {
            for n in [0usize, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 15, 16, 20, 24, 28, 32, 33, 47, 48, 49, 63, 64, 65, 0xBF, 0xC0, 0xFF, 0x100] {
                for fill in [0x00u8, 0x41, 0x99, 0xFF, 0x80, 0x9A, 0xA9] {
                    let mut v = vec![fill; n];
                    if !with(f, &[&[m, 0x0D, 0x13, l], &v]) {
                        return;
                    }
                    if n > 0 {
                        v[0] = 0x12;
                        v[n - 1] = 0x34;
                        with(f, &[&[m, 0x0D, 0x13, l], &v]);
                    }
                }
            }
        }
    }
}
fn sys11(f: &mut dyn FnMut(Vec<u8>) -> bool) {
    for vif in [0x6Cu8, 0x6D, 0x6E, 0x13] {
        for dif in 0..15u8 {
            for b in 0..=255u8 {
                for base in [[0u8; 6], [0xFF; 6], [0x21; 6]] {
                    for at in 0..6 {
                        let mut v = base;
                        v[at] = b;
                        if !with(f, &[&[0, dif, vif], &v]) {
                            return;
                        }
                    }
                }
            }
            for n in 0..7 {
                with(f, &[&[0, dif, vif], &[0x21; 7][..n]]);
                with(f, &[&[0, dif, vif | 0x80, 0x39], &[0x21; 7][..n]]);
                with(f, &[&[0, dif, 0x93, vif | 0x80, 0x6C], &[0x21; 7][..n]]);
            }
        }
    }
    for a in 0..=255u8 {
        for b in 0..=255u8 {
            if !with(f, &[&[0, 0x02, 0x6C, a, b]]) || !with(f, &[&[0, 0x04, 0x6D, 0x1A, 0x0C, a, b]]) || !with(f, &[&[0, 0x06, 0x6D, 1, 2, 3, a, b, 0]]) {
                return;
            }
        }
    }
}
fn sys06(f: &mut dyn FnMut(Vec<u8>) -> bool) {
    f(vec![0]);
    let recs: &[&[u8]] = &[&[0x01, 0x13, 5], &[0x2F], &[0x0F, 1, 2], &[0x1F], &[0x7F], &[0x3F], &[0x00, 0x13], &[0x0D, 0x13, 2, 65, 66], &[0x01, 0x6F, 1], &[0x04, 0x13, 1], &[0x08, 0x13], &[0x8F], &[0xFF, 0x00]];
    for m in 0..3u8 {
        for a in recs {
            for b in recs {
                for c in recs {
                    if !with(f, &[&[m], a, b, c]) {
                        return;
                    }
                }
            }
        }
    }
    for a in 0..=255u8 {
        for b in 0..=255u8 {
            if !f(vec![0, a, b]) || !f(vec![0, a, b, 1, 2, 3, 0x2F, 0x01, 0x13, 9]) {
                return;
            }
        }
    }
}

pub static P06: Prop = Prop {
    id: "P06",
    rule: "iterate a payload with and without header and compare raw bytes, positions, errors and end with an independent walk",
    systematic: sys06,
    random: |r| moded(r, gen_payload),
    check: p06,
    nontrivial: |i| i.len() > 1 && record(&i[1..], false).1.is_some(),
};
pub static P07: Prop = Prop {
    id: "P07",
    rule: "parse DIF and DIFE bytes and compare extent and fields with an independent decoder",
    systematic: sys07,
    random: |r| {
        let mut d = gen_dib(r);
        let n = r.below(3);
        d.extend(r.bytes(n));
        d
    },
    check: p07,
    nontrivial: |i| dif(i).is_some(),
};
pub static P08: Prop = Prop {
    id: "P08",
    rule: "parse a value information block, alone and in a record, and compare extent and parts with an independent decoder",
    systematic: sys_vib,
    random: |r| {
        let mut d = gen_vib(r);
        let n = r.below(3);
        d.extend(r.bytes(n));
        if r.one_in(10) {
            let n = r.below(d.len());
            d.truncate(n);
        }
        d
    },
    check: p08,
    nontrivial: |i| vib(i).is_some(),
};
pub static P09: Prop = Prop {
    id: "P09",
    rule: "decode records of fixed width and compare value and size with independent arithmetic",
    systematic: sys09,
    random: |r| moded(r, gen_record),
    check: p09,
    nontrivial: |i| !i.is_empty() && record(&i[1..], false).0 == Aspect::Fixed,
};
pub static P10: Prop = Prop {
    id: "P10",
    rule: "decode variable-length records and compare value and size with independent arithmetic",
    systematic: sys10,
    random: |r| {
        moded(r, |r| {
            let mut d = vec![0x0D];
            d.extend(gen_vib(r));
            d.extend(gen_value(r, 0x0D));
            if r.one_in(12) {
                let n = r.below(d.len());
                d.truncate(n);
            }
            d
        })
    },
    check: p10,
    nontrivial: |i| !i.is_empty() && record(&i[1..], false).0 == Aspect::Variable,
};
pub static P11: Prop = Prop {
    id: "P11",
    rule: "decode date and time records and compare every field with independent arithmetic; other records are no dates",
    systematic: sys11,
    random: |r| {
        moded(r, |r| {
            let dif = if r.one_in(5) { r.byte() & 0x0F } else { r.pick(&[2u8, 3, 4, 6]) };
            let mut d = vec![dif];
            d.extend(if r.one_in(3) { gen_vib(r) } else { vec![r.pick(&[0x6Cu8, 0x6D])] });
            d.extend(gen_value(r, dif));
            d
        })
    },
    check: p11,
    nontrivial: |i| !i.is_empty() && record(&i[1..], false).0 == Aspect::Date,
};
pub static P12: Prop = Prop {
    id: "P12",
    rule: "interpret a value information block and compare labels, units and exponents with the tables",
    systematic: sys_vib,
    random: gen_vib,
    check: p12,
    nontrivial: |i| vib(i).is_some_and(|b| vi(i[0], &b.vife).is_some()),
};
