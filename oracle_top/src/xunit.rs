//! P28: units, factors, quantities and media of the XML output, and the fixed data structure.
//! Input: a byte choosing the key (0: none), then the frame.
use crate::app::{self, Want};
use crate::engine::*;
use crate::entries::walk;
use crate::frames::{self, Look};
use crate::xml::{find, head, of, parts, plain, render, shown, Shown, LONG};
use crate::{records, wired};

fn ten(k: i32) -> f64 {
    format!("1e{k}").parse().unwrap()
}
fn secs(k: usize) -> f64 {
    [1.0, 60.0, 3600.0, 86400.0, 2629743.83, 31556926.0][k]
}
type Row = (String, f64, String);
fn primary(n: u8) -> Option<Row> {
    let k = i32::from(n % 8);
    let q = i32::from(n % 4);
    let s = |u: &str, f: f64, w: &str| Some((u.to_string(), f, w.to_string()));
    match n / 8 {
        0 => s("Wh", ten(k - 3), "Energy"),
        1 => s("J", ten(k), "Energy"),
        2 => s("m^3", ten(k - 6), "Volume"),
        3 => s("kg", ten(k - 3), "Mass"),
        4 => s("s", secs(q as usize), if k < 4 { "On time" } else { "Operating time" }),
        5 => s("W", ten(k - 3), "Power"),
        6 => s("J/h", ten(k), "Power"),
        7 => s("m^3/h", ten(k - 6), "Volume flow"),
        8 => s("m^3/min", ten(k - 7), "Volume flow"),
        9 => s("m^3/s", ten(k - 9), "Volume flow"),
        10 => s("kg/h", ten(k - 3), "Mass flow"),
        11 => s("°C", ten(q - 3), if k < 4 { "Flow temperature" } else { "Return temperature" }),
        12 if k < 4 => s("K", ten(q - 3), "Temperature difference"),
        12 => s("°C", ten(q - 3), "External temperature"),
        13 => match k {
            0..=3 => s("bar", ten(q - 3), "Pressure"),
            4 => s("-", 1.0, "Time point (date)"),
            5 => s("-", 1.0, "Time point (date & time)"),
            6 => s("Units for H.C.A.", 1.0, "H.C.A."),
            _ => s("Reserved", 0.0, "Reserved"),
        },
        14 => s("s", secs(q as usize), if k < 4 { "Averaging Duration" } else { "Actuality Duration" }),
        _ => match k {
            0 => s("", 1.0, "Fabrication No"),
            1 => s("", 1.0, "(Enhanced) Identification"),
            2 => s("", 1.0, "Bus Address"),
            6 => s("", 1.0, "Any VIF"),
            7 => s("", 1.0, "Manufacturer specific"),
            _ => None,
        },
    }
}
const NAMES: &str = "08 Access Number (transmission count)|09 Medium|0A Manufacturer|0B Parameter set identification|0C Model / Version|0D Hardware version|0E Firmware version|0F Software version|10 Customer location|11 Customer|12 Access Code User|13 Access Code Operator|14 Access Code System Operator|15 Access Code Developer|16 Password|17 Error flags|18 Error mask|1A Digital Output|1B Digital Input|1E Retry|20 First storage # for cyclic storage|21 Last storage # for cyclic storage|22 Size of storage block|3A Dimensionless|60 Reset counter|61 Cumulation counter|62 Control signal|63 Day of week|64 Week number|65 Time point of day change|66 State of parameter activation|67 Special supplier information|70 Date and time of battery change";
fn reserved() -> Row {
    ("Reserved".into(), 1.0, "Reserved".into())
}
fn first(n: u8) -> Row {
    let s = |u: &str, f: f64, w: &str| (u.to_string(), f, w.to_string());
    if let Some(t) = NAMES.split('|').find_map(|t| t.strip_prefix(&format!("{n:02X} "))) {
        return s("", 1.0, t);
    }
    let k = i32::from(n);
    match n {
        0..=3 => s("Currency units", ten(k - 3), "Credit"),
        4..=7 => s("Currency units", ten(k - 7), "Debit"),
        0x1C => s("Baud", 1.0, "Baudrate"),
        0x1D => s("Bittimes", 1.0, "Response delay time"),
        0x24..=0x29 => s("s", secs(n as usize - 0x24), "Storage interval"),
        0x2C..=0x2F => s("s", secs(n as usize - 0x2C), "Duration since last readout"),
        0x31..=0x33 => s("s", secs(n as usize - 0x30), "Duration of tariff"),
        0x34..=0x39 => s("s", secs(n as usize - 0x34), "Period of tariff"),
        0x40..=0x4F => s("V", ten(k - 0x49), "Voltage"),
        0x50..=0x5F => s("A", ten(k - 0x5C), "Current"),
        0x68..=0x6B => s("s", secs(n as usize - 0x66), "Duration since last cumulation"),
        0x6C..=0x6F => s("s", secs(n as usize - 0x6A), "Operating time battery"),
        _ => reserved(),
    }
}
fn second(n: u8) -> Row {
    let s = |u: &str, f: f64, w: &str| (u.to_string(), f, w.to_string());
    let k = i32::from(n % 8);
    let q = i32::from(n % 4) - 3;
    match n {
        0 | 1 => s("Wh", ten(5 + k), "Energy"),
        8 | 9 => s("Reserved", ten(8 + k), "Energy"),
        0x10 | 0x11 => s("m^3", ten(2 + k), "Volume"),
        0x18 | 0x19 => s("kg", ten(5 + k), "Mass"),
        0x21 => s("feet^3", 0.1, "Volume"),
        0x22 => s("American gallon", 0.1, "Volume"),
        0x23 => s("American gallon", 1.0, "Volume"),
        0x24 => s("American gallon/min", 0.001, "Volume flow"),
        0x25 => s("American gallon/min", 1.0, "Volume flow"),
        0x26 => s("American gallon/h", 1.0, "Volume flow"),
        0x28 | 0x29 => s("W", ten(5 + k), "Power"),
        0x30 | 0x31 => s("J", ten(8 + k), "Power"),
        0x58..=0x5B => s("°F", ten(q), "Flow temperature"),
        0x5C..=0x5F => s("°F", ten(q), "Return temperature"),
        0x60..=0x63 => s("°F", ten(q), "Temperature difference"),
        0x64..=0x67 => s("°F", ten(q), "External temperature"),
        0x70..=0x73 => s("°F", ten(q), "Cold / Warm Temperature Limit"),
        0x74..=0x77 => s("°C", ten(q), "Cold / Warm Temperature Limit"),
        0x79 => s("W", ten(-3), "Cumul count max power"),
        0x78..=0x7F => s("W", ten(k - 3), "Cumul count max power"),
        _ => reserved(),
    }
}
fn media() -> Vec<(u8, &'static str)> {
    let t = "00 Other|01 Oil|02 Electricity|03 Gas|04 Heat: Outlet|05 Steam|06 Warm water (30-90°C)|07 Water|08 Heat Cost Allocator|09 Compressed Air|0A Cooling load meter: Outlet|0B Cooling load meter: Inlet|0C Heat: Inlet|0D Heat / Cooling load meter|0E Bus/System|0F Unknown Medium|10 Irrigation Water|11 Water Logger|12 Gas Logger|13 Gas Converter|14 Calorific value|15 Hot water (>90°C)|16 Cold water|17 Dual water|18 Pressure|19 A/D Converter|1A Smoke Detector|1B Ambient Sensor|1C Gas Detector|20 Breaker: Electricity|21 Valve: Gas or Water|25 Customer Unit: Display Device|28 Waste Water|29 Garbage|30 Service Unit|36 Radio Converter: System|37 Radio Converter: Meter";
    t.split('|').map(|x| (u8::from_str_radix(&x[..2], 16).unwrap(), &x[3..])).collect()
}
fn medium(n: u8) -> String {
    match media().iter().find(|x| x.0 == n) {
        Some(x) => x.1.to_string(),
        None if matches!(n, 0x22..=0x24 | 0x26 | 0x27 | 0x2A..=0x2F | 0x31..=0x34 | 0x38..=0x3F) => "Reserved".into(),
        None => format!("Unknown medium (0x{n:02x})"),
    }
}
const MEDIA: [&str; 16] = [
    "Other", "Oil", "Electricity", "Gas", "Heat", "Steam", "Hot Water", "Water", "H.C.A.", "Reserved", "Gas Mode 2", "Heat Mode 2", "Hot Water Mode 2",
    "Water Mode 2", "H.C.A. Mode 2", "Reserved",
];
fn unit(n: u8) -> String {
    let t = "h,m,s|D,M,Y|Wh|10 Wh|100 Wh|kWh|10 kWh|100 kWh|MWh|10 MWh|100 MWh|kJ|10 kJ|MJ|100 kJ|10 MJ|100 MJ|GJ|10 GJ|100 GJ|W|10 W|100 W|kW|10 kW|100 kW|MW|10 MW|100 MW|kJ/h|10 kJ/h|100 kJ/h|MJ/h|10 MJ/h|100 MJ/h|GJ/h|10 GJ/h|100 GJ/h|ml|10 ml|100 ml|l|10 l|100 l|m^3|10 m^3|100 m^3|ml/h|10 ml/h|100 ml/h|l/h|10 l/h|100 l/h|m^3/h|10 m^3/h|100 m^3/h|1e-3 °C|units for HCA|reserved|reserved|reserved|reserved|reserved but historic|without units";
    t.split('|').nth((n % 64) as usize).unwrap().to_string()
}
/// manufacturer, medium (-1: any), what is looked at (version or leading digits), from, to, name
const PRODUCTS: &[(&str, i16, char, u32, u32, &str)] = &[
    ("ABB", -1, 'v', 2, 2, "ABB Delta-Meter"),
    ("ABB", -1, 'v', 32, 32, "ABB B21 113-100"),
    ("ACW", -1, 'v', 9, 9, "Itron CF Echo 2"),
    ("ACW", -1, 'v', 10, 10, "Itron CF 51"),
    ("ACW", -1, 'v', 11, 11, "Itron CF 55"),
    ("ACW", -1, 'v', 14, 14, "Itron BM +m"),
    ("ACW", -1, 'v', 15, 15, "Itron CF 800"),
    ("ACW", -1, 'v', 20, 20, "Itron CYBLE M-Bus 1.4"),
    ("AMT", -1, 'v', 192, 255, "Aquametro CALEC ST"),
    ("AMT", -1, 'v', 128, 191, "Aquametro CALEC MB"),
    ("AMT", -1, 'v', 64, 127, "Aquametro SAPHIR"),
    ("AMT", -1, 'v', 0, 63, "Aquametro AMTRON"),
    ("BEC", 2, 'v', 0, 0, "Berg DCMi"),
    ("BEC", 2, 'v', 7, 7, "Berg BLMi"),
    ("BEC", 15, 'v', 113, 113, "Berg BMB-10S0"),
    ("EFE", 6, 'v', 0, 0, "Engelmann WaterStar"),
    ("EFE", -1, 'v', 0, 0, "Engelmann / Elster SensoStar 2"),
    ("EFE", -1, 'v', 1, 1, "Engelmann SensoStar 2C"),
    ("ELS", -1, 'v', 2, 2, "Elster TMP-A"),
    ("ELS", -1, 'v', 10, 10, "Elster Falcon"),
    ("ELS", -1, 'v', 47, 47, "Elster F96 Plus"),
    ("ELV", -1, 'v', 20, 29, "Elvaco CMa10"),
    ("ELV", -1, 'v', 50, 59, "Elvaco CMa11"),
    ("EMH", -1, 'v', 0, 0, "EMH DIZ"),
    ("EMU", 2, 'v', 16, 16, "EMU Professional 3/75 M-Bus"),
    ("GAV", 2, 'v', 45, 48, "Carlo Gavazzi EM24"),
    ("GAV", 2, 'v', 57, 57, "Carlo Gavazzi EM21"),
    ("GAV", 2, 'v', 58, 58, "Carlo Gavazzi EM21"),
    ("GAV", 2, 'v', 64, 64, "Carlo Gavazzi EM33"),
    ("GMC", -1, 'v', 230, 230, "GMC-I A230 EMMOD 206"),
    ("KAM", -1, 'v', 1, 1, "Kamstrup 382 (6850-005)"),
    ("KAM", -1, 'v', 8, 8, "Kamstrup Multical 601"),
    ("SLB", -1, 'v', 2, 2, "Allmess Megacontrol CF-50"),
    ("SLB", -1, 'v', 6, 6, "CF Compact / Integral MK MaXX"),
    ("HYD", -1, 'v', 40, 40, "ABB F95 Typ US770"),
    ("HYD", -1, 'v', 47, 47, "Hydrometer Sharky 775"),
    ("JAN", 2, 'v', 9, 9, "Janitza UMG 96S"),
    ("LUG", -1, 'v', 2, 2, "Landis & Gyr Ultraheat 2WR5"),
    ("LUG", -1, 'v', 3, 3, "Landis & Gyr Ultraheat 2WR6"),
    ("LUG", -1, 'v', 4, 4, "Landis & Gyr Ultraheat UH50"),
    ("LUG", -1, 'v', 7, 7, "Landis & Gyr Ultraheat T230"),
    ("LSE", -1, 'v', 153, 153, "Siemens WFH21"),
    ("NZR", -1, 'v', 1, 1, "NZR DHZ 5/63"),
    ("NZR", -1, 'v', 80, 80, "NZR IC-M2"),
    ("RAM", -1, 'v', 3, 3, "Rossweiner ETK/ETW Modularis"),
    ("REL", -1, 'v', 8, 8, "Relay PadPuls M1"),
    ("REL", -1, 'v', 18, 18, "Relay PadPuls M4"),
    ("REL", -1, 'v', 32, 32, "Relay Padin 4"),
    ("REL", -1, 'v', 48, 48, "Relay AnDi 4"),
    ("REL", -1, 'v', 64, 64, "Relay PadPuls M2"),
    ("RKE", -1, 'v', 105, 105, "Ista sensonic II mbus"),
    ("SBC", -1, 'd', 10, 10, "Saia-Burgess ALE3"),
    ("SBC", -1, 'd', 19, 19, "Saia-Burgess ALE3"),
    ("SBC", -1, 'd', 11, 11, "Saia-Burgess AWD3"),
    ("SEO", -1, 'd', 30, 30, "Sensoco PT100"),
    ("SEO", -1, 'd', 41, 41, "Sensoco 2-NTC"),
    ("SEO", -1, 'd', 45, 45, "Sensoco Laser Light"),
    ("SEO", -1, 'd', 48, 48, "Sensoco ADIO"),
    ("SEO", -1, 'd', 51, 51, "Sensoco THU"),
    ("SEO", -1, 'd', 61, 61, "Sensoco THU"),
    ("SEO", -1, 'd', 80, 80, "Sensoco PulseCounter for E-Meter"),
    ("GTE", -1, 'd', 30, 30, "Sensoco PT100"),
    ("GTE", -1, 'd', 41, 41, "Sensoco 2-NTC"),
    ("GTE", -1, 'd', 45, 45, "Sensoco Laser Light"),
    ("GTE", -1, 'd', 48, 48, "Sensoco ADIO"),
    ("GTE", -1, 'd', 51, 51, "Sensoco THU"),
    ("GTE", -1, 'd', 61, 61, "Sensoco THU"),
    ("GTE", -1, 'd', 80, 80, "Sensoco PulseCounter for E-Meter"),
    ("SEN", -1, 'v', 8, 8, "Sensus PolluCom E"),
    ("SEN", -1, 'v', 25, 25, "Sensus PolluCom E"),
    ("SEN", -1, 'v', 11, 11, "Sensus PolluTherm"),
    ("SEN", -1, 'v', 14, 14, "Sensus PolluStat E"),
    ("SON", -1, 'v', 13, 13, "Sontex Supercal 531"),
    ("SPX", -1, 'v', 49, 49, "Sensus PolluTherm"),
    ("SPX", -1, 'v', 52, 52, "Sensus PolluTherm"),
    ("SVM", -1, 'v', 8, 8, "Elster F2 / Deltamess F2"),
    ("SVM", -1, 'v', 9, 9, "Elster F4 / Kamstrup SVM F22"),
    ("TCH", -1, 'v', 38, 38, "Techem m-bus S"),
    ("TCH", -1, 'v', 64, 64, "Techem ultra S3"),
    ("WZG", -1, 'v', 3, 3, "Modularis ETW-EAX"),
    ("ZRM", -1, 'v', 129, 129, "Minol Minocal C2"),
    ("ZRM", -1, 'v', 130, 130, "Minol Minocal WR3"),
];
fn product(code: &str, version: u8, medium: u8, number: u32) -> &'static str {
    let fits = |r: &&(&str, i16, char, u32, u32, &str)| {
        let x = if r.2 == 'v' { u32::from(version) } else { number / 1_000_000 % 100 };
        r.0 == code && (r.1 < 0 || r.1 == i16::from(medium)) && r.3 <= x && x <= r.4
    };
    PRODUCTS.iter().find(fits).map_or("", |r| r.5)
}
fn near(g: &str, w: f64) -> R {
    let Ok(x) = g.parse::<f64>() else { return Err(format!("value {g:?} is no number")) };
    if !w.is_finite() || (x - w).abs() <= 1e-6 + w.abs() * 1e-9 {
        Ok(())
    } else {
        Err(format!("value: got {g}, expected {w:.6}"))
    }
}
fn fixed(i: &[u8], w: Want) -> R {
    let Want::Fixed { number, access, status, unit: kind, counters } = w else { return Ok(()) };
    let t = render(i).map_err(|e| format!("refused with {e:?}"))?;
    let Some((info, recs)) = parts(&t) else { return Err(format!("not the expected elements: {t}")) };
    let b = [(kind / 256) as u8, (kind % 256) as u8];
    let want = [
        ("Id", number.to_string()),
        ("Medium", MEDIA[(b[0] / 64 + 4 * (b[1] / 64)) as usize].into()),
        ("AccessNumber", access.to_string()),
        ("Status", format!("{status:02X}")),
    ];
    eq("header", info, want.iter().map(|x| (x.0.to_string(), x.1.clone())).collect::<Vec<_>>())?;
    eq("number of records", recs.len(), 2)?;
    for (n, r) in recs.into_iter().enumerate() {
        let want = [
            ("Function", if status / 64 % 2 == 1 { "Stored value" } else { "Actual value" }.to_string()),
            ("Unit", unit(b[n])),
            ("Value", counters[n].to_string()),
        ];
        eq(&format!("record {n}"), r, want.iter().map(|x| (x.0.to_string(), x.1.clone())).collect::<Vec<_>>())?;
    }
    Ok(())
}
fn check(i: &[u8]) -> R {
    if i.is_empty() {
        return Ok(());
    }
    let k = frames::key(i[0]);
    let Look::Frame(s) = frames::look(&i[1..]) else { return Ok(()) };
    let Some(h) = head(&s) else {
        return match s.app.as_ref().map(|a| app::want(a)) {
            Some(w @ Want::Fixed { .. }) => fixed(i, w),
            _ => Ok(()),
        };
    };
    let x = frames::inside(&s, &k);
    let Ok(t) = render(i) else { return Ok(()) };
    let Some((info, recs)) = parts(&t) else { return Ok(()) };
    eq("medium", find(&info, "Medium"), Some(plain(&medium(h.medium)).as_str()))?;
    let code = h.code.map_or(String::new(), |c| c.iter().collect());
    eq("product", find(&info, "ProductName"), Some(plain(product(&code, h.version, h.medium, h.number)).as_str()))?;
    let Some(b) = (if x.secret { x.opened } else { x.body }) else { return Ok(()) };
    // which records there are, and their values, is P27's concern
    let list = walk(&b, x.lsb).0;
    if recs.len() != list.len() {
        return Ok(());
    }
    for (n, (g, e)) in recs.iter().zip(&list).enumerate() {
        let d = &b[e.at..];
        let f = records::dif(d).ok_or("no DIB")?;
        if d[0] % 16 == 15 {
            continue;
        }
        let Some(v) = records::vib(&d[f.len..]) else { continue };
        let vif = d[f.len];
        let Some(value) = shown(d[0], vif, v.vife.first().copied(), &d[e.head..e.head + e.size]) else { continue };
        let row = match (vif, v.vife.first()) {
            (0xFD, Some(e)) => Some(first(e % 128)),
            (0xFB, Some(e)) => Some(second(e % 128)),
            (0xFD | 0xFB, None) => None,
            (0x7C | 0xFC, _) => Some(("-".into(), 1.0, v.text.iter().flatten().rev().map(|c| *c as char).collect())),
            _ => primary(vif % 128),
        };
        let at = |m: String| format!("record {n}: {m}");
        let Some((unit, factor, quantity)) = row else {
            eq("fields of a record with an unknown VIF", g.len(), 0).map_err(at)?;
            continue;
        };
        eq("unit", find(g, "Unit"), Some(plain(&unit).as_str())).map_err(at)?;
        eq("quantity", find(g, "Quantity").map(str::trim), Some(plain(&quantity).trim())).map_err(at)?;
        if let Shown::Number(x) = value {
            let mut y = x * factor;
            if let (true, Some(e)) = (vif >= 128 && vif != 0xFD && vif != 0xFB, v.vife.first()) {
                match e % 128 {
                    c @ 0x70..=0x77 => y *= ten(i32::from(c % 8) - 6),
                    c @ 0x78..=0x7B => y += ten(i32::from(c % 4) - 3),
                    0x7D => y *= 1000.0,
                    _ => {}
                }
            }
            if x.is_finite() {
                near(find(g, "Value").unwrap_or(""), y).map_err(at)?;
            }
        }
    }
    Ok(())
}
fn counter(r: &mut Rng) -> [u8; 4] {
    [0; 4].map(|_| if r.one_in(3) { 0 } else { (r.below(10) * 16 + r.below(10)) as u8 })
}
fn structure(r: &mut Rng, status: u8, kind: [u8; 2]) -> Vec<u8> {
    let mut a = vec![0x73];
    a.extend(counter(r));
    a.extend([r.byte(), status, kind[0], kind[1]]);
    a.extend(counter(r));
    a.extend(counter(r));
    let mut v = vec![0];
    v.extend(wired::long(0x08, 1, &a));
    v
}
fn random(r: &mut Rng) -> Vec<u8> {
    if r.one_in(6) {
        let (s, k) = (r.byte(), [r.byte(), r.byte()]);
        return structure(r, s, k);
    }
    if r.one_in(8) {
        return (crate::xml::P27.random)(r);
    }
    let mut a = vec![];
    for _ in 0..1 + r.below(3) {
        let f = r.pick(&[0u8, 1, 2, 3, 4, 5, 6, 7, 9, 10, 11, 12, 14]);
        let n = match f {
            5 => 4,
            6 | 14 => 6,
            7 => 8,
            n if n > 8 => n - 8,
            n => n,
        };
        a.push(f);
        match r.below(5) {
            0 => a.push(r.byte() & 0x7F),
            1 => a.extend([r.byte() | 0x80, r.byte() & 0x7F]),
            2 => a.extend([r.byte() | 0x80, 0x70 + r.below(16) as u8]),
            3 => a.extend([r.pick(&[0xFDu8, 0xFB]), r.byte() & 0x7F]),
            _ => {
                a.extend([r.pick(&[0xFDu8, 0xFB, 0xFC, 0x93]), r.byte() | 0x80, r.byte() & 0x7F]);
            }
        }
        if a[a.len() - 2] == 0xFC || (a.len() > 2 && a[a.len() - 3] == 0xFC) {
            let m = r.below(5);
            a.push(m as u8);
            for _ in 0..m {
                a.push(0x41 + r.below(26) as u8);
            }
        }
        for _ in 0..n {
            a.push(if r.bool() { r.byte() } else { (r.below(10) * 16 + r.below(10)) as u8 });
        }
    }
    let k = r.below(4);
    of(&a, k)
}
fn systematic(f: &mut dyn FnMut(Vec<u8>) -> bool) {
    for x in 0..128u8 {
        for a in [
            vec![4, x, 0x39, 0x30, 0, 0],
            vec![4, x | 0x80, 0x10, 0x39, 0x30, 0, 0],
            vec![4, 0xFD, x, 0x39, 0x30, 0, 0],
            vec![4, 0xFB, x, 0x39, 0x30, 0, 0],
            vec![4, 0xFD, x | 0x80, 0x74, 0x39, 0x30, 0, 0],
            vec![4, 0x83, x, 0x39, 0x30, 0, 0],
            vec![4, 0x93, x | 0x80, 0x74, 0x39, 0x30, 0, 0],
            vec![4, 0xFC, x, 2, b'a', b'b', 0x39, 0x30, 0, 0],
            vec![0, x],
            vec![0, 0xFB, x],
        ] {
            if !f(of(&a, 0)) || !f(of(&a, 2)) {
                return;
            }
        }
    }
    for r in PRODUCTS {
        for (v, medium) in [(r.3, r.1), (r.4, r.1), (r.3.wrapping_sub(1), r.1), (r.4 + 1, r.1), (r.3, 7)] {
            let c = r.0.bytes().fold(0u16, |a, b| a * 32 + u16::from(b - 64));
            let n = if r.2 == 'v' { 12 } else { v % 100 };
            let mut a = LONG.to_vec();
            a[4] = (n / 10 * 16 + n % 10) as u8;
            a[5..7].copy_from_slice(&c.to_le_bytes());
            a[7] = if r.2 == 'v' { v as u8 } else { 1 };
            a[8] = if medium < 0 { 2 } else { medium as u8 };
            a.extend([1, 0x78, 1]);
            let mut v = vec![0];
            v.extend(wired::long(0x08, 1, &a));
            if !f(v) {
                return;
            }
        }
    }
    for x in 0..=255u8 {
        let mut a = LONG.to_vec();
        a[8] = x;
        a.extend([1, 0x78, x]);
        let mut v = vec![0];
        v.extend(wired::long(0x08, 1, &a));
        let mut w = of(&[1, 0x78, x], 2);
        if w.len() > 10 {
            w[10] = x;
        }
        if !f(v) || !f(w) {
            return;
        }
        let mut r = Rng::new(u64::from(x) + 1);
        for (s, k) in [(0, [x, 0x05]), (0x40, [0x05, x]), (x, [0x14, 0x7E]), (0, [x, x])] {
            if !f(structure(&mut r, s, k)) {
                return;
            }
        }
    }
}
pub static P28: Prop = Prop {
    id: "P28",
    rule: "counts a case when the XML text holds at least one record with a unit",
    systematic,
    random,
    check,
    nontrivial: |i| i.len() > 1 && render(i).is_ok_and(|t| t.contains("<Unit>")),
};
