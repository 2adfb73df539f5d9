//! P21 and P22: what the typed output says about each record
use crate::engine::*;
use crate::records::{self, Val};
use crate::wired;
use m_bus_parser::output::{decode_bytes, decode_data_records, DecodeOptions, RecordOutput};
use m_bus_parser::user_data::data_information::{DataType, Month, SingleEveryOrInvalid};
use serde_json::Value;

/// one record of a payload: where its bytes are
pub struct Entry {
    pub at: usize,
    pub head: usize,
    pub size: usize,
    pub val: Val,
}
/// the records up to the first that cannot be read, and whether all could
pub fn walk(d: &[u8], lsb: bool) -> (Vec<Entry>, bool) {
    let mut o = 0;
    let mut r = vec![];
    loop {
        while o < d.len() && d[o] % 16 == 15 && !matches!(d[o], 0x0F | 0x1F | 0x7F) {
            o += 1;
        }
        if o >= d.len() {
            return (r, true);
        }
        match records::record(&d[o..], lsb).1 {
            Some(x) => {
                r.push(Entry { at: o, head: x.head, size: x.size, val: x.val });
                o += x.head + x.size;
            }
            None => return (r, false),
        }
    }
}
fn spaced(d: &[u8]) -> String {
    hex(d)
}
fn function(dif: u8) -> &'static str {
    match dif {
        0x0F => "Manufacturer specific",
        0x1F => "More records follow",
        0x2F => "Idle filler",
        0x7F => "Global readout request",
        x if x % 16 == 15 => "Reserved special function",
        x => ["Instantaneous value", "Maximum value", "Minimum value", "Value during error state"][(x / 16 % 4) as usize],
    }
}
fn coding(dif: u8, labels: &[String]) -> &'static str {
    let has = |l: &str| labels.iter().any(|x| x == l);
    if dif % 16 == 15 {
        return function(dif);
    }
    if has("Date") {
        if dif % 16 == 2 {
            return "Date (type G)";
        }
    } else if has("DateTime") {
        match dif % 16 {
            3 => return "Time (type J)",
            4 => return "Date and time (type F)",
            6 => return "Date and time (type I)",
            _ => {}
        }
    }
    [
        "No data", "8-bit integer", "16-bit integer", "24-bit integer", "32-bit integer", "32-bit real", "48-bit integer", "64-bit integer",
        "Selection for readout", "2-digit BCD", "4-digit BCD", "6-digit BCD", "8-digit BCD", "Variable length", "12-digit BCD",
    ][(dif % 16) as usize]
}
fn symbol(name: &str) -> Option<&'static str> {
    const T: &[(&str, &str)] = &[
        ("Watt", "W"), ("Joul", "J"), ("Kilogram", "kg"), ("Tonne", "t"), ("Meter", "m"), ("Feet", "[ft_i]"), ("Celsius", "Cel"), ("Kelvin", "K"),
        ("Bar", "bar"), ("Second", "s"), ("Minute", "min"), ("Hour", "h"), ("Day", "d"), ("Week", "wk"), ("Month", "mo"), ("Year", "a"),
        ("Liter", "L"), ("Volt", "V"), ("Ampere", "A"), ("Percent", "%"), ("Hertz", "Hz"), ("Fahrenheit", "[degF]"), ("AmericanGallon", "[gal_us]"),
        ("Calorie", "cal"),
    ];
    T.iter().find(|t| t.0 == name).map(|t| t.1)
}
fn header(i: usize, o: &RecordOutput, d: &[u8], e: &Entry) -> R {
    let d = &d[e.at..];
    let dif = d[0];
    eq("index", o.index, i)?;
    let f = records::dif(d).ok_or("no DIB")?;
    eq("storage number", o.storage_number, f.storage)?;
    eq("tariff", o.tariff, f.tariff)?;
    eq("subunit", o.subunit, f.subunit)?;
    eq("function", o.function.as_str(), function(dif))?;
    eq("header bytes", &o.header_hex, &spaced(&d[..e.head]))?;
    eq("value bytes", &o.data_hex, &spaced(&d[e.head..e.head + e.size]))?;
    if dif % 16 == 15 {
        eq("unit", &o.unit, &None)?;
        return eq("coding", o.data_coding.as_str(), coding(dif, &[]));
    }
    let b = records::vib(&d[f.len..]).ok_or("no VIB")?;
    let v = records::vi(d[f.len], &b.vife).ok_or("no value information")?;
    eq("coding", o.data_coding.as_str(), coding(dif, &v.labels))?;
    eq("unit present", o.unit.is_some(), !v.units.is_empty())?;
    let text: Option<Vec<String>> =
        v.units.iter().map(|(n, e)| symbol(n).map(|s| if *e == 1 { s.to_string() } else { format!("{s}{e}") })).collect();
    if let (Some(t), Some(u)) = (text, &o.unit) {
        eq("unit", u, &t.join("."))?;
    }
    Ok(())
}
fn each(d: &[u8], f: fn(usize, &RecordOutput, &[u8], &Entry) -> R) -> R {
    let judge = |what: &str, got: &[RecordOutput], lsb: bool| -> R {
        let (want, whole) = walk(d, lsb);
        if whole {
            eq("number of records", got.len(), want.len()).map_err(|e| format!("{what}: {e}"))?;
        }
        for (i, (o, e)) in got.iter().zip(&want).enumerate() {
            f(i, o, d, e).map_err(|m| format!("{what}: record {i}: {m}"))?;
        }
        Ok(())
    };
    if let Ok(g) = decode_data_records(d) {
        judge("decode_data_records", &g, false)?;
    }
    if d.len() > 230 {
        return Ok(());
    }
    for ci in [0x72, 0x76, 0x7A, 0x78] {
        let mut a = match ci {
            0x78 => vec![ci],
            0x7A => vec![ci, 5, 0, 0, 0],
            _ => vec![ci, 1, 2, 3, 4, 0x2D, 0x2C, 1, 7, 5, 0, 0, 0],
        };
        a.extend(d);
        if let Ok(o) = decode_bytes(&wired::long(0x08, 1, &a), &DecodeOptions::default()) {
            judge(&format!("decode_bytes with CI {ci:02X}"), &o.records, ci == 0x76)?;
        }
    }
    Ok(())
}

// ------------------------------------------------------------ dates and times

/// the number of a component, or the word for it
trait Part {
    fn number(&self) -> Option<u64>;
    fn json(&self) -> Value;
}
fn word<T>(c: &SingleEveryOrInvalid<T>, f: impl Fn(&T) -> Value) -> Value {
    match c {
        SingleEveryOrInvalid::Single(x) => f(x),
        SingleEveryOrInvalid::Every() => "every".into(),
        _ => "invalid".into(),
    }
}
macro_rules! part {
    ($t:ty) => {
        impl Part for SingleEveryOrInvalid<$t> {
            fn number(&self) -> Option<u64> {
                match self {
                    SingleEveryOrInvalid::Single(x) => Some(*x as u64),
                    _ => None,
                }
            }
            fn json(&self) -> Value {
                word(self, |x| Value::from(*x))
            }
        }
    };
}
part!(u8);
part!(u16);
impl Part for SingleEveryOrInvalid<Month> {
    fn number(&self) -> Option<u64> {
        const M: [&str; 12] =
            ["January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December"];
        match self {
            SingleEveryOrInvalid::Single(x) => M.iter().position(|n| *n == format!("{x:?}")).map(|p| p as u64 + 1),
            _ => None,
        }
    }
    fn json(&self) -> Value {
        word(self, |x| Value::from(format!("{x:?}")))
    }
}
fn when(o: &RecordOutput, kind: &str, parts: &[(&str, &dyn Part)], clock: &str) -> R {
    eq("kind", o.value.kind.as_str(), kind)?;
    let n: Option<Vec<u64>> = parts.iter().map(|p| p.1.number()).collect();
    match n {
        Some(n) => {
            let two = |k: usize| format!("{:0>2}", n[k].to_string());
            let date = |k: usize| format!("{:0>4}-{}-{}", n[k].to_string(), two(k + 1), two(k + 2));
            let time = |k: usize| (k..n.len()).map(two).collect::<Vec<_>>().join(":");
            let t = match kind {
                "date" => date(0),
                "time" => time(0),
                _ => format!("{}T{}{clock}", date(0), time(3)),
            };
            eq("text", &o.value.value, &Some(Value::String(t)))
        }
        None => {
            for (k, p) in parts {
                let got = o.value.value.as_ref().and_then(|v| v.get(*k));
                eq(&format!("component {k} of {:?}", o.value.value), got, Some(&p.json()))?;
            }
            Ok(())
        }
    }
}
fn times(_: usize, o: &RecordOutput, _: &[u8], e: &Entry) -> R {
    match &e.val {
        Val::When(DataType::Date(d, m, y)) => when(o, "date", &[("year", y), ("month", m), ("day", d)], ""),
        Val::When(DataType::Time(s, n, h)) => when(o, "time", &[("hour", h), ("minute", n), ("second", s)], ""),
        Val::When(DataType::DateTime(d, m, y, h, n)) => {
            when(o, "datetime", &[("year", y), ("month", m), ("day", d), ("hour", h), ("minute", n)], ":00")
        }
        Val::When(DataType::DateTimeWithSeconds(d, m, y, h, n, s)) => {
            when(o, "datetime", &[("year", y), ("month", m), ("day", d), ("hour", h), ("minute", n), ("second", s)], "")
        }
        _ => {
            if ["date", "time", "datetime"].contains(&o.value.kind.as_str()) {
                return Err(format!("{:?} for a record without a date", o.value));
            }
            Ok(())
        }
    }
}

fn sys21(f: &mut dyn FnMut(Vec<u8>) -> bool) {
    let value = |dif: u8| -> Vec<u8> {
        match dif % 16 {
            13 => vec![2, 0x41, 0x42],
            0 | 8 | 15 => vec![],
            n @ 1..=4 => vec![1; n as usize],
            5 => vec![0; 4],
            6 | 14 => vec![1; 6],
            7 => vec![1; 8],
            n => vec![1; n as usize - 8],
        }
    };
    // every DIF, alone and with one extension
    for dif in 0..=255u8 {
        for dife in (0..=255u8).step_by(if dif >= 128 { 1 } else { 256 }) {
            let mut d = vec![dif];
            if dif >= 128 {
                d.push(dife);
                if dife >= 128 {
                    d.push(dife % 128);
                }
            }
            if dif % 16 != 15 {
                d.push(0x13);
            }
            d.extend(value(dif));
            if !f(d) {
                return;
            }
        }
    }
    // every unit, also combined
    for vif in 0..=255u8 {
        for x in 0..=127u8 {
            let mut d = vec![2, vif];
            if vif >= 128 {
                d.push(x);
            }
            d.extend([1, 2]);
            if !f(d) {
                return;
            }
        }
    }
    for n in 1..13usize {
        for b in [0x81u8, 0xBF, 0xC0, 0x9A, 0xFF] {
            let mut d = vec![0x84];
            d.extend(vec![b; n]);
            let l = d.len();
            d[l - 1] &= 0x7F;
            d.extend([0x13, 1, 2, 3, 4]);
            if !f(d) {
                return;
            }
        }
    }
    for n in [1usize, 2, 3, 10, 11, 12, 30, 100] {
        if !f([1u8, 0x13, 7].repeat(n)) {
            return;
        }
    }
}
fn date(r: &mut Rng) -> Vec<u8> {
    let (dif, vif) = r.pick(&[(2u8, 0x6Cu8), (3, 0x6D), (4, 0x6D), (6, 0x6D), (2, 0x6D), (4, 0x6C)]);
    let n = match dif {
        6 => 6,
        n => n as usize,
    };
    let mut d = vec![dif | r.pick(&[0u8, 0x40, 0x10, 0x30]), vif];
    if r.one_in(8) {
        d[1] |= 0x80;
        d.push(r.below(128) as u8);
    }
    d.extend((0..n).map(|_| match r.below(5) {
        0 => r.pick(&[0u8, 0xFF, 0x3F, 0x1F, 0x0F, 0xE0, 0x7F, 0xF0]),
        _ => r.byte(),
    }));
    d
}
fn sys22(f: &mut dyn FnMut(Vec<u8>) -> bool) {
    for a in 0..=255u8 {
        for b in 0..=255u8 {
            if !f(vec![2, 0x6C, a, b]) {
                return;
            }
        }
    }
    let edge = [0u8, 1, 9, 10, 30, 31, 32, 59, 60, 62, 63, 127, 128, 192, 255];
    for a in edge {
        for b in edge {
            for c in edge {
                if !f(vec![3, 0x6D, a, b, c])
                    || !f(vec![4, 0x6D, a, b, c, 0x15])
                    || !f(vec![4, 0x6D, a, b, 0x21, c])
                    || !f(vec![6, 0x6D, a, b, c, 0x21, 0x15, 0])
                    || !f(vec![6, 0x6D, 5, 6, 7, a, b, c])
                {
                    return;
                }
            }
        }
    }
}
pub static P21: Prop = Prop {
    id: "P21",
    rule: "counts a case when the payload holds at least one readable record",
    systematic: sys21,
    random: |r| if r.one_in(2) { records::gen_record(r) } else { records::gen_payload(r) },
    check: |d| each(d, header),
    nontrivial: |d| !walk(d, false).0.is_empty(),
};
pub static P22: Prop = Prop {
    id: "P22",
    rule: "counts a case when the payload holds a date or time",
    systematic: sys22,
    random: |r| {
        let mut d = vec![];
        for _ in 0..1 + r.below(3) {
            d.extend(if r.one_in(4) { records::gen_record(r) } else { date(r) });
        }
        d
    },
    check: |d| each(d, times),
    nontrivial: |d| walk(d, false).0.iter().any(|e| matches!(e.val, Val::When(_))),
};
