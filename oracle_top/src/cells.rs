//! P26: the CSV text repeats the decoded output cell by cell.
//! Input: a byte choosing the key (0: none), then the frame.
use crate::engine::*;
use crate::{entries, frames, wired};
use m_bus_parser::output::*;

/// rows of a CSV text
fn rows(t: &str) -> Option<Vec<Vec<String>>> {
    let mut all = vec![];
    let mut row = vec![];
    let mut c = t.chars().peekable();
    while c.peek().is_some() {
        let mut cell = String::new();
        if c.peek() == Some(&'"') {
            c.next();
            loop {
                match c.next()? {
                    '"' if c.peek() == Some(&'"') => {
                        c.next();
                        cell.push('"');
                    }
                    '"' => break,
                    x => cell.push(x),
                }
            }
        } else {
            while let Some(x) = c.next_if(|x| *x != ',' && *x != '\n') {
                cell.push(x);
            }
        }
        row.push(cell);
        match c.next()? {
            ',' => {
                if c.peek().is_none() {
                    return None;
                }
            }
            '\n' => all.push(std::mem::take(&mut row)),
            _ => return None,
        }
    }
    row.is_empty().then_some(all)
}
fn value(r: &RecordOutput) -> String {
    use serde_json::Value;
    let plain = |v: &Value| match v {
        Value::String(s) => s.clone(),
        v => v.to_string(),
    };
    match (&r.value.value, r.value.kind.as_str()) {
        (Some(Value::Object(o)), _) => o.iter().map(|(k, v)| k.clone() + "=" + &plain(v)).collect::<Vec<_>>().join(", "),
        (Some(v), _) => plain(v),
        (None, "manufacturer_specific") => r.data_hex.split(' ').collect(),
        (None, "none") => "No data".into(),
        (None, "unknown") => "Unsupported value type".into(),
        (None, _) => String::new(),
    }
}
fn want(d: &DecodedOutput) -> Vec<(String, String)> {
    let id = d.meter.identity.clone();
    let or = |x: Option<String>| x.unwrap_or(String::new());
    let bars = |x: Vec<String>| x.join("|");
    let mut v: Vec<(String, String)> = vec![];
    let mut put = |n: &str, x: String| v.push((n.to_string(), x));
    put("schema_version", format!("{}", d.schema_version));
    put("protocol", d.protocol.clone());
    put("frame_kind", d.frame.kind.clone());
    put("frame_function", or(d.frame.function.clone()));
    put("address", or(d.frame.address.clone()));
    put("meter_id", or(id.as_ref().and_then(|i| i.id.clone())));
    put("manufacturer_code", or(id.as_ref().and_then(|i| i.manufacturer_code.clone())));
    put("identity_source", or(id.map(|i| i.source)));
    put("access_numbers", bars(d.transport.access_numbers.iter().map(|a| format!("{}:{}", a.source, a.value)).collect()));
    put("status_codes", bars(d.transport.statuses.iter().map(|s| s.raw.clone()).collect()));
    put("security_mode", or(d.security.mode.clone()));
    put("decryption_state", d.security.decryption_state.clone());
    put("decode_state", d.decode_state.clone());
    put("record_count", format!("{}", d.records.len()));
    put("diagnostic_codes", bars(d.diagnostics.iter().map(|s| s.code.clone()).collect()));
    put("manufacturer_name", or(d.enrichment.as_ref().map(|e| e.manufacturer_name.clone())));
    put("manufacturer_website", or(d.enrichment.as_ref().map(|e| e.manufacturer_website.clone())));
    put("frame_hex", d.raw.original_frame_hex.clone());
    for r in &d.records {
        let mut put = |n: &str, x: String| v.push((format!("record_{}_{n}", r.index), x));
        put("function", r.function.clone());
        put("storage_number", format!("{}", r.storage_number));
        put("tariff", format!("{}", r.tariff));
        put("subunit", format!("{}", r.subunit));
        put("quantities", bars(r.quantities.clone()));
        put("value_type", r.value.kind.clone());
        put("value", value(r));
        put("unit", or(r.unit.clone()));
        put("data_coding", r.data_coding.clone());
        put("header_hex", r.header_hex.clone());
        put("data_hex", r.data_hex.clone());
    }
    v
}
fn check(i: &[u8]) -> R {
    if i.is_empty() {
        return Ok(());
    }
    for include_enrichment in [false, true] {
        let decode = DecodeOptions { key: frames::key(i[0]), include_enrichment };
        let d = decode_bytes(&i[1..], &decode);
        let t = render_bytes(&i[1..], OutputFormat::Csv, &RenderOptions { decode, ..Default::default() });
        let (d, t) = match (d, t) {
            (Ok(d), Ok(t)) => (d, t),
            (Err(_), Err(_)) => continue,
            (Ok(_), Err(e)) => return Err(format!("decoded but not rendered: {e:?}")),
            (Err(_), Ok(_)) => return Err("rendered but not decoded".into()),
        };
        let Some(r) = rows(&t) else { return Err(format!("not a CSV text: {t}")) };
        if r.len() != 2 {
            return Err(format!("{} rows", r.len()));
        }
        eq("number of cells", r[1].len(), r[0].len())?;
        let w = want(&d);
        for (n, (name, cell)) in w.iter().enumerate() {
            eq(&format!("name of column {n}"), r[0].get(n), Some(name))?;
            eq(name, r[1].get(n), Some(cell))?;
        }
        eq("number of columns", r[0].len(), w.len())?;
    }
    Ok(())
}
fn random(r: &mut Rng) -> Vec<u8> {
    match r.below(3) {
        0 => (frames::P23.random)(r),
        1 => (frames::P24.random)(r),
        _ => {
            let mut a = vec![0x78];
            for _ in 0..1 + r.below(4) {
                a.extend((entries::P21.random)(r));
            }
            a.truncate(240);
            let mut v = vec![0];
            v.extend(wired::long(0x08, 1, &a));
            v
        }
    }
}
fn systematic(f: &mut dyn FnMut(Vec<u8>) -> bool) {
    let mut go = true;
    for s in [frames::P23.systematic, frames::P24.systematic] {
        let mut n = 0;
        s(&mut |d| {
            n += 1;
            if n % 7 == 0 || n < 500 {
                go = f(d);
            }
            go
        });
        if !go {
            return;
        }
    }
    let mut n = 0;
    for s in [entries::P21.systematic, entries::P22.systematic] {
        s(&mut |d| {
            n += 1;
            if d.len() < 200 && (n % 5 == 0 || n < 500) {
                let mut a = vec![0x78];
                a.extend(d);
                let mut v = vec![0];
                v.extend(wired::long(0x08, 1, &a));
                go = f(v);
            }
            go
        });
        if !go {
            return;
        }
    }
}
pub static P26: Prop = Prop {
    id: "P26",
    rule: "counts a case when the frame decodes with at least one record",
    systematic,
    random,
    check,
    nontrivial: |i| i.len() > 1 && decode_bytes(&i[1..], &DecodeOptions { key: frames::key(i[0]), include_enrichment: false }).is_ok_and(|d| !d.records.is_empty()),
};
