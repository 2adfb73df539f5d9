//@need m_bus_application_layer::Counter
//@need m_bus_application_layer::Counter::Display::fmt
// Units, factors, quantities and media of the XML output, and the fixed data structure.
use crate::m_bus_application_layer::Counter;
impl VToStr for Counter {
    open spec fn sp_str(&self) -> Seq<char> { crate::dep::sp_padded(self.count as int, 8) }
    fn v_to_string(&self) -> (r: String) { let mut f = crate::dep::Formatter::v_start(); let _ = self.fmt(&mut f); proof { assert(Seq::<char>::empty() + self.sp_str() =~= self.sp_str()); } f.v_done() }
}
// a decimal power as a double
pub open spec fn sp_tens(k: int) -> f64 {
    if k < 0 { crate::dep::f_frac(1, -k) } else { crate::dep::f_of(
        if k == 0 { 1 } else if k == 1 { 10 } else if k == 2 { 100 } else if k == 3 { 1000 } else if k == 4 { 10000 } else if k == 5 { 100000 } else if k == 6 { 1000000 }
        else if k == 7 { 10000000 } else if k == 8 { 100000000 } else { 1000000000 }) }
}
// seconds in a second, minute, hour, day, month, year
pub open spec fn sp_secs(k: int) -> f64 {
    if k == 4 { crate::dep::f_frac(262974383, 2) } else { crate::dep::f_of(if k == 0 { 1 } else if k == 1 { 60 } else if k == 2 { 3600 } else if k == 3 { 86400 } else { 31556926 }) }
}
pub open spec fn sp_one() -> f64 { crate::dep::f_of(1) }
pub type XRow = Option<(Seq<char>, f64, Seq<char>)>;
pub open spec fn sp_rsv() -> XRow { Some(("Reserved"@, sp_one(), "Reserved"@)) }
// the primary table
pub open spec fn sp_main(n: int) -> XRow {
    if n < 8 { Some(("Wh"@, sp_tens(n - 3), "Energy"@)) }
    else if n < 16 { Some(("J"@, sp_tens(n - 8), "Energy"@)) }
    else if n < 24 { Some(("m^3"@, sp_tens(n - 16 - 6), "Volume"@)) }
    else if n < 32 { Some(("kg"@, sp_tens(n - 24 - 3), "Mass"@)) }
    else if n < 36 { Some(("s"@, sp_secs(n - 32), "On time"@)) }
    else if n < 40 { Some(("s"@, sp_secs(n - 36), "Operating time"@)) }
    else if n < 48 { Some(("W"@, sp_tens(n - 40 - 3), "Power"@)) }
    else if n < 56 { Some(("J/h"@, sp_tens(n - 48), "Power"@)) }
    else if n < 64 { Some(("m^3/h"@, sp_tens(n - 56 - 6), "Volume flow"@)) }
    else if n < 72 { Some(("m^3/min"@, sp_tens(n - 64 - 7), "Volume flow"@)) }
    else if n < 80 { Some(("m^3/s"@, sp_tens(n - 72 - 9), "Volume flow"@)) }
    else if n < 88 { Some(("kg/h"@, sp_tens(n - 80 - 3), "Mass flow"@)) }
    else if n < 92 { Some(("°C"@, sp_tens(n - 88 - 3), "Flow temperature"@)) }
    else if n < 96 { Some(("°C"@, sp_tens(n - 92 - 3), "Return temperature"@)) }
    else if n < 100 { Some(("K"@, sp_tens(n - 96 - 3), "Temperature difference"@)) }
    else if n < 104 { Some(("°C"@, sp_tens(n - 100 - 3), "External temperature"@)) }
    else if n < 108 { Some(("bar"@, sp_tens(n - 104 - 3), "Pressure"@)) }
    else if n == 0x6C { Some(("-"@, sp_one(), "Time point (date)"@)) }
    else if n == 0x6D { Some(("-"@, sp_one(), "Time point (date & time)"@)) }
    else if n == 0x6E { Some(("Units for H.C.A."@, sp_one(), "H.C.A."@)) }
    else if n == 0x6F { Some(("Reserved"@, crate::dep::f_of(0), "Reserved"@)) }
    else if n < 0x74 { Some(("s"@, sp_secs(n - 0x70), "Averaging Duration"@)) }
    else if n < 0x78 { Some(("s"@, sp_secs(n - 0x74), "Actuality Duration"@)) }
    else if n == 0x78 { Some((""@, sp_one(), "Fabrication No"@)) }
    else if n == 0x79 { Some((""@, sp_one(), "(Enhanced) Identification"@)) }
    else if n == 0x7A { Some((""@, sp_one(), "Bus Address"@)) }
    else if n == 0x7E { Some((""@, sp_one(), "Any VIF"@)) }
    else if n == 0x7F { Some((""@, sp_one(), "Manufacturer specific"@)) }
    else { None }
}
// names of the codes of the first extension table that carry no unit
pub open spec fn sp_plainly(n: int) -> Seq<char> {
    if n == 0x08 { "Access Number (transmission count)"@ } else if n == 0x09 { "Medium"@ } else if n == 0x0A { "Manufacturer"@ } else if n == 0x0B { "Parameter set identification"@ }
    else if n == 0x0C { "Model / Version"@ } else if n == 0x0D { "Hardware version"@ } else if n == 0x0E { "Firmware version"@ } else if n == 0x0F { "Software version"@ }
    else if n == 0x10 { "Customer location"@ } else if n == 0x11 { "Customer"@ } else if n == 0x12 { "Access Code User"@ } else if n == 0x13 { "Access Code Operator"@ }
    else if n == 0x14 { "Access Code System Operator"@ } else if n == 0x15 { "Access Code Developer"@ } else if n == 0x16 { "Password"@ } else if n == 0x17 { "Error flags"@ }
    else if n == 0x18 { "Error mask"@ } else if n == 0x1A { "Digital Output"@ } else if n == 0x1B { "Digital Input"@ } else if n == 0x1E { "Retry"@ }
    else if n == 0x20 { "First storage # for cyclic storage"@ } else if n == 0x21 { "Last storage # for cyclic storage"@ } else if n == 0x22 { "Size of storage block"@ }
    else if n == 0x3A { "Dimensionless"@ } else if n == 0x60 { "Reset counter"@ } else if n == 0x61 { "Cumulation counter"@ } else if n == 0x62 { "Control signal"@ }
    else if n == 0x63 { "Day of week"@ } else if n == 0x64 { "Week number"@ } else if n == 0x65 { "Time point of day change"@ } else if n == 0x66 { "State of parameter activation"@ }
    else if n == 0x67 { "Special supplier information"@ } else if n == 0x70 { "Date and time of battery change"@ } else { Seq::empty() }
}
pub open spec fn sp_first(n: int) -> XRow {
    if n < 4 { Some(("Currency units"@, sp_tens(n - 3), "Credit"@)) }
    else if n < 8 { Some(("Currency units"@, sp_tens(n - 4 - 3), "Debit"@)) }
    else if n == 0x1C { Some(("Baud"@, sp_one(), "Baudrate"@)) }
    else if n == 0x1D { Some(("Bittimes"@, sp_one(), "Response delay time"@)) }
    else if n == 0x19 || n == 0x1F || n == 0x23 || n == 0x2A || n == 0x2B || n == 0x30 || 0x3B <= n <= 0x3F || 0x71 <= n { sp_rsv() }
    else if 0x24 <= n <= 0x29 { Some(("s"@, sp_secs(n - 0x24), "Storage interval"@)) }
    else if 0x2C <= n <= 0x2F { Some(("s"@, sp_secs(n - 0x2C), "Duration since last readout"@)) }
    else if 0x31 <= n <= 0x33 { Some(("s"@, sp_secs(n - 0x30), "Duration of tariff"@)) }
    else if 0x34 <= n <= 0x39 { Some(("s"@, sp_secs(n - 0x34), "Period of tariff"@)) }
    else if 0x40 <= n <= 0x4F { Some(("V"@, sp_tens(n - 0x40 - 9), "Voltage"@)) }
    else if 0x50 <= n <= 0x5F { Some(("A"@, sp_tens(n - 0x50 - 12), "Current"@)) }
    else if 0x68 <= n <= 0x6B { Some(("s"@, sp_secs(n - 0x66), "Duration since last cumulation"@)) }
    else if 0x6C <= n <= 0x6F { Some(("s"@, sp_secs(n - 0x6A), "Operating time battery"@)) }
    else { Some((""@, sp_one(), sp_plainly(n))) }
}
pub open spec fn sp_second(n: int) -> XRow {
    if n < 2 { Some(("Wh"@, sp_tens(n + 5), "Energy"@)) }
    else if n == 8 || n == 9 { Some(("Reserved"@, sp_tens(n), "Energy"@)) }
    else if n == 0x10 || n == 0x11 { Some(("m^3"@, sp_tens(n - 0x10 + 2), "Volume"@)) }
    else if n == 0x18 || n == 0x19 { Some(("kg"@, sp_tens(n - 0x18 + 5), "Mass"@)) }
    else if n == 0x21 { Some(("feet^3"@, sp_tens(-1), "Volume"@)) }
    else if n == 0x22 { Some(("American gallon"@, sp_tens(-1), "Volume"@)) }
    else if n == 0x23 { Some(("American gallon"@, sp_one(), "Volume"@)) }
    else if n == 0x24 { Some(("American gallon/min"@, sp_tens(-3), "Volume flow"@)) }
    else if n == 0x25 { Some(("American gallon/min"@, sp_one(), "Volume flow"@)) }
    else if n == 0x26 { Some(("American gallon/h"@, sp_one(), "Volume flow"@)) }
    else if n == 0x28 || n == 0x29 { Some(("W"@, sp_tens(n - 0x28 + 5), "Power"@)) }
    else if n == 0x30 || n == 0x31 { Some(("J"@, sp_tens(n - 0x30 + 8), "Power"@)) }
    else if 0x58 <= n < 0x5C { Some(("°F"@, sp_tens(n - 0x58 - 3), "Flow temperature"@)) }
    else if 0x5C <= n < 0x60 { Some(("°F"@, sp_tens(n - 0x5C - 3), "Return temperature"@)) }
    else if 0x60 <= n < 0x64 { Some(("°F"@, sp_tens(n - 0x60 - 3), "Temperature difference"@)) }
    else if 0x64 <= n < 0x68 { Some(("°F"@, sp_tens(n - 0x64 - 3), "External temperature"@)) }
    else if 0x70 <= n < 0x74 { Some(("°F"@, sp_tens(n - 0x70 - 3), "Cold / Warm Temperature Limit"@)) }
    else if 0x74 <= n < 0x78 { Some(("°C"@, sp_tens(n - 0x74 - 3), "Cold / Warm Temperature Limit"@)) }
    // 0x79 repeats the factor of 0x78, as libmbus does
    else if 0x78 <= n { Some(("W"@, sp_tens(if n == 0x79 { -3 } else { n - 0x78 - 3 }), "Cumul count max power"@)) }
    else { sp_rsv() }
}
pub open spec fn sp_code(c: int) -> XRow {
    if 0 <= c < 128 { sp_main(c) } else if 256 <= c < 384 { sp_first(c - 256) } else if 512 <= c < 640 { sp_second(c - 512) } else { None }
}
pub open spec fn sp_scaled(r: XRow, x: f64) -> XRow {
    match r { Some((u, f, q)) => Some((u, crate::dep::f_prod(x, f), q)), None => None }
}
// the correction the first extension byte asks for
pub open spec fn sp_fix(vif: u8, vifes: Seq<u8>, x: f64) -> f64 {
    if vif < 128 || vif == 0xFD || vif == 0xFB || vifes.len() == 0 { x } else {
        let e = vifes[0] % 128;
        if 0x70 <= e <= 0x77 { crate::dep::f_prod(x, crate::dep::f_pow(crate::dep::f_of(10), e % 8 - 6)) }
        else if 0x78 <= e <= 0x7B { crate::dep::f_sum(x, crate::dep::f_pow(crate::dep::f_of(10), e % 4 - 3)) }
        else if e == 0x7D { crate::dep::f_prod(x, crate::dep::f_of(1000)) }
        else { x }
    }
}
pub open spec fn sp_own(o: Option<String>) -> Option<Seq<char>> { match o { Some(s) => Some(s@), None => None } }
pub open spec fn sp_unit(vif: u8, vifes: Seq<u8>, own: Option<Seq<char>>, x: f64) -> XRow {
    let r = if vif == 0xFD { if vifes.len() == 0 { None } else { sp_scaled(sp_code(256 + vifes[0] % 128), x) } }
        else if vif == 0xFB { if vifes.len() == 0 { None } else { sp_scaled(sp_code(512 + vifes[0] % 128), x) } }
        else if vif == 0x7C || vif == 0xFC { Some(("-"@, x, match own { Some(t) => t, None => Seq::empty() })) }
        else { sp_scaled(sp_code(vif as int % 128), x) };
    match r { Some((u, y, q)) => Some((u, sp_fix(vif, vifes, y), q)), None => None }
}
// ---- product
// the names libmbus knows, by manufacturer; d: the two leading of eight digits of the identification number
pub open spec fn sp_product(man: Seq<char>, version: int, medium: int, d: int) -> Seq<char> {
    if man == "ABB"@ { if version == 0x02 { "ABB Delta-Meter"@ } else if version == 0x20 { "ABB B21 113-100"@ } else { ""@ } }
    else if man == "ACW"@ { if version == 0x09 { "Itron CF Echo 2"@ } else if version == 0x0A { "Itron CF 51"@ } else if version == 0x0B { "Itron CF 55"@ } else if version == 0x0E { "Itron BM +m"@ } else if version == 0x0F { "Itron CF 800"@ } else if version == 0x14 { "Itron CYBLE M-Bus 1.4"@ } else { ""@ } }
    else if man == "AMT"@ { if version >= 192 { "Aquametro CALEC ST"@ } else if version >= 128 { "Aquametro CALEC MB"@ } else if version >= 64 { "Aquametro SAPHIR"@ } else { "Aquametro AMTRON"@ } }
    else if man == "BEC"@ { if medium == 0x02 && version == 0x00 { "Berg DCMi"@ } else if medium == 0x02 && version == 0x07 { "Berg BLMi"@ } else if medium == 0x0F && version == 0x71 { "Berg BMB-10S0"@ } else { ""@ } }
    else if man == "EFE"@ { if version == 0 { if medium == 6 { "Engelmann WaterStar"@ } else { "Engelmann / Elster SensoStar 2"@ } } else if version == 1 { "Engelmann SensoStar 2C"@ } else { ""@ } }
    else if man == "ELS"@ { if version == 0x02 { "Elster TMP-A"@ } else if version == 0x0A { "Elster Falcon"@ } else if version == 0x2F { "Elster F96 Plus"@ } else { ""@ } }
    else if man == "ELV"@ { if 20 <= version <= 29 { "Elvaco CMa10"@ } else if 50 <= version <= 59 { "Elvaco CMa11"@ } else { ""@ } }
    else if man == "EMH"@ { if version == 0x00 { "EMH DIZ"@ } else { ""@ } }
    else if man == "EMU"@ { if medium == 0x02 && version == 0x10 { "EMU Professional 3/75 M-Bus"@ } else { ""@ } }
    else if man == "GAV"@ { if medium == 0x02 && 45 <= version <= 48 { "Carlo Gavazzi EM24"@ } else if medium == 0x02 && (version == 0x39 || version == 0x3A) { "Carlo Gavazzi EM21"@ } else if medium == 0x02 && version == 0x40 { "Carlo Gavazzi EM33"@ } else { ""@ } }
    else if man == "GMC"@ { if version == 0xE6 { "GMC-I A230 EMMOD 206"@ } else { ""@ } }
    else if man == "KAM"@ { if version == 0x01 { "Kamstrup 382 (6850-005)"@ } else if version == 0x08 { "Kamstrup Multical 601"@ } else { ""@ } }
    else if man == "SLB"@ { if version == 0x02 { "Allmess Megacontrol CF-50"@ } else if version == 0x06 { "CF Compact / Integral MK MaXX"@ } else { ""@ } }
    else if man == "HYD"@ { if version == 0x28 { "ABB F95 Typ US770"@ } else if version == 0x2F { "Hydrometer Sharky 775"@ } else { ""@ } }
    else if man == "JAN"@ { if medium == 0x02 && version == 0x09 { "Janitza UMG 96S"@ } else { ""@ } }
    else if man == "LUG"@ { if version == 0x02 { "Landis & Gyr Ultraheat 2WR5"@ } else if version == 0x03 { "Landis & Gyr Ultraheat 2WR6"@ } else if version == 0x04 { "Landis & Gyr Ultraheat UH50"@ } else if version == 0x07 { "Landis & Gyr Ultraheat T230"@ } else { ""@ } }
    else if man == "LSE"@ { if version == 0x99 { "Siemens WFH21"@ } else { ""@ } }
    else if man == "NZR"@ { if version == 0x01 { "NZR DHZ 5/63"@ } else if version == 0x50 { "NZR IC-M2"@ } else { ""@ } }
    else if man == "RAM"@ { if version == 0x03 { "Rossweiner ETK/ETW Modularis"@ } else { ""@ } }
    else if man == "REL"@ { if version == 0x08 { "Relay PadPuls M1"@ } else if version == 0x12 { "Relay PadPuls M4"@ } else if version == 0x20 { "Relay Padin 4"@ } else if version == 0x30 { "Relay AnDi 4"@ } else if version == 0x40 { "Relay PadPuls M2"@ } else { ""@ } }
    else if man == "RKE"@ { if version == 0x69 { "Ista sensonic II mbus"@ } else { ""@ } }
    else if man == "SBC"@ { if (d == 10 || d == 19) { "Saia-Burgess ALE3"@ } else if d == 11 { "Saia-Burgess AWD3"@ } else { ""@ } }
    else if man == "SEO"@ || man == "GTE"@ { if d == 30 { "Sensoco PT100"@ } else if d == 41 { "Sensoco 2-NTC"@ } else if d == 45 { "Sensoco Laser Light"@ } else if d == 48 { "Sensoco ADIO"@ } else if (d == 51 || d == 61) { "Sensoco THU"@ } else if d == 80 { "Sensoco PulseCounter for E-Meter"@ } else { ""@ } }
    else if man == "SEN"@ { if (version == 0x08 || version == 0x19) { "Sensus PolluCom E"@ } else if version == 0x0B { "Sensus PolluTherm"@ } else if version == 0x0E { "Sensus PolluStat E"@ } else { ""@ } }
    else if man == "SON"@ { if version == 0x0D { "Sontex Supercal 531"@ } else { ""@ } }
    else if man == "SPX"@ { if (version == 0x31 || version == 0x34) { "Sensus PolluTherm"@ } else { ""@ } }
    else if man == "SVM"@ { if version == 0x08 { "Elster F2 / Deltamess F2"@ } else if version == 0x09 { "Elster F4 / Kamstrup SVM F22"@ } else { ""@ } }
    else if man == "TCH"@ { if version == 0x26 { "Techem m-bus S"@ } else if version == 0x40 { "Techem ultra S3"@ } else { ""@ } }
    else if man == "WZG"@ { if version == 0x03 { "Modularis ETW-EAX"@ } else { ""@ } }
    else if man == "ZRM"@ { if version == 0x81 { "Minol Minocal C2"@ } else if version == 0x82 { "Minol Minocal WR3"@ } else { ""@ } }
    else { ""@ }
}
// tells the codes apart
#[verifier::opaque]
pub open spec fn sp_word(s: Seq<char>) -> int { s[0] as int * 65536 + s[1] as int * 256 + s[2] as int }
pub proof fn lemma_names()
    ensures sp_word("ABB"@) == 4276802, sp_word("ACW"@) == 4277079, sp_word("AMT"@) == 4279636, sp_word("BEC"@) == 4343107, sp_word("EFE"@) == 4539973, sp_word("ELS"@) == 4541523, sp_word("ELV"@) == 4541526, sp_word("EMH"@) == 4541768, sp_word("EMU"@) == 4541781, sp_word("GAV"@) == 4669782, sp_word("GMC"@) == 4672835, sp_word("KAM"@) == 4931917, sp_word("SLB"@) == 5459010, sp_word("HYD"@) == 4741444, sp_word("JAN"@) == 4866382, sp_word("LUG"@) == 5002567, sp_word("LSE"@) == 5002053, sp_word("NZR"@) == 5134930, sp_word("RAM"@) == 5390669, sp_word("REL"@) == 5391692, sp_word("RKE"@) == 5393221, sp_word("SBC"@) == 5456451, sp_word("SEO"@) == 5457231, sp_word("GTE"@) == 4674629, sp_word("SEN"@) == 5457230, sp_word("SON"@) == 5459790, sp_word("SPX"@) == 5460056, sp_word("SVM"@) == 5461581, sp_word("TCH"@) == 5522248, sp_word("WZG"@) == 5724743, sp_word("ZRM"@) == 5919309,
{
    reveal(sp_word);
    reveal_strlit("ABB"); reveal_strlit("ACW"); reveal_strlit("AMT"); reveal_strlit("BEC"); reveal_strlit("EFE"); reveal_strlit("ELS"); reveal_strlit("ELV"); reveal_strlit("EMH"); reveal_strlit("EMU"); reveal_strlit("GAV"); reveal_strlit("GMC"); reveal_strlit("KAM"); reveal_strlit("SLB"); reveal_strlit("HYD"); reveal_strlit("JAN"); reveal_strlit("LUG"); reveal_strlit("LSE"); reveal_strlit("NZR"); reveal_strlit("RAM"); reveal_strlit("REL"); reveal_strlit("RKE"); reveal_strlit("SBC"); reveal_strlit("SEO"); reveal_strlit("GTE"); reveal_strlit("SEN"); reveal_strlit("SON"); reveal_strlit("SPX"); reveal_strlit("SVM"); reveal_strlit("TCH"); reveal_strlit("WZG"); reveal_strlit("ZRM");
}
// ---- medium of a variable data header
pub open spec fn sp_medium(n: int) -> Seq<char> {
    if n == 0x00 { "Other"@ }
    else if n == 0x01 { "Oil"@ }
    else if n == 0x02 { "Electricity"@ }
    else if n == 0x03 { "Gas"@ }
    else if n == 0x04 { "Heat: Outlet"@ }
    else if n == 0x05 { "Steam"@ }
    else if n == 0x06 { "Warm water (30-90°C)"@ }
    else if n == 0x07 { "Water"@ }
    else if n == 0x08 { "Heat Cost Allocator"@ }
    else if n == 0x09 { "Compressed Air"@ }
    else if n == 0x0A { "Cooling load meter: Outlet"@ }
    else if n == 0x0B { "Cooling load meter: Inlet"@ }
    else if n == 0x0C { "Heat: Inlet"@ }
    else if n == 0x0D { "Heat / Cooling load meter"@ }
    else if n == 0x0E { "Bus/System"@ }
    else if n == 0x0F { "Unknown Medium"@ }
    else if n == 0x10 { "Irrigation Water"@ }
    else if n == 0x11 { "Water Logger"@ }
    else if n == 0x12 { "Gas Logger"@ }
    else if n == 0x13 { "Gas Converter"@ }
    else if n == 0x14 { "Calorific value"@ }
    else if n == 0x15 { "Hot water (>90°C)"@ }
    else if n == 0x16 { "Cold water"@ }
    else if n == 0x17 { "Dual water"@ }
    else if n == 0x18 { "Pressure"@ }
    else if n == 0x19 { "A/D Converter"@ }
    else if n == 0x1A { "Smoke Detector"@ }
    else if n == 0x1B { "Ambient Sensor"@ }
    else if n == 0x1C { "Gas Detector"@ }
    else if n == 0x20 { "Breaker: Electricity"@ }
    else if n == 0x21 { "Valve: Gas or Water"@ }
    else if n == 0x25 { "Customer Unit: Display Device"@ }
    else if n == 0x28 { "Waste Water"@ }
    else if n == 0x29 { "Garbage"@ }
    else if n == 0x30 { "Service Unit"@ }
    else if n == 0x36 { "Radio Converter: System"@ }
    else if n == 0x37 { "Radio Converter: Meter"@ }
    else if 0x22 <= n <= 0x24 || n == 0x26 || n == 0x27 || 0x2A <= n <= 0x2F || 0x31 <= n <= 0x34 || 0x38 <= n <= 0x3F { "Reserved"@ }
    else { Seq::<char>::empty() + "Unknown medium (0x"@ + (n as u8).sp_low() + ")"@ }
}
// ---- fixed data structure: unit code, six bits, and medium code, two bits of either counter
pub open spec fn sp_funit(n: int) -> Seq<char> {
    if n == 0x00 { "h,m,s"@ }
    else if n == 0x01 { "D,M,Y"@ }
    else if n == 0x02 { "Wh"@ }
    else if n == 0x03 { "10 Wh"@ }
    else if n == 0x04 { "100 Wh"@ }
    else if n == 0x05 { "kWh"@ }
    else if n == 0x06 { "10 kWh"@ }
    else if n == 0x07 { "100 kWh"@ }
    else if n == 0x08 { "MWh"@ }
    else if n == 0x09 { "10 MWh"@ }
    else if n == 0x0A { "100 MWh"@ }
    else if n == 0x0B { "kJ"@ }
    else if n == 0x0C { "10 kJ"@ }
    else if n == 0x0E { "100 kJ"@ }
    else if n == 0x0D { "MJ"@ }
    else if n == 0x0F { "10 MJ"@ }
    else if n == 0x10 { "100 MJ"@ }
    else if n == 0x11 { "GJ"@ }
    else if n == 0x12 { "10 GJ"@ }
    else if n == 0x13 { "100 GJ"@ }
    else if n == 0x14 { "W"@ }
    else if n == 0x15 { "10 W"@ }
    else if n == 0x16 { "100 W"@ }
    else if n == 0x17 { "kW"@ }
    else if n == 0x18 { "10 kW"@ }
    else if n == 0x19 { "100 kW"@ }
    else if n == 0x1A { "MW"@ }
    else if n == 0x1B { "10 MW"@ }
    else if n == 0x1C { "100 MW"@ }
    else if n == 0x1D { "kJ/h"@ }
    else if n == 0x1E { "10 kJ/h"@ }
    else if n == 0x1F { "100 kJ/h"@ }
    else if n == 0x20 { "MJ/h"@ }
    else if n == 0x21 { "10 MJ/h"@ }
    else if n == 0x22 { "100 MJ/h"@ }
    else if n == 0x23 { "GJ/h"@ }
    else if n == 0x24 { "10 GJ/h"@ }
    else if n == 0x25 { "100 GJ/h"@ }
    else if n == 0x26 { "ml"@ }
    else if n == 0x27 { "10 ml"@ }
    else if n == 0x28 { "100 ml"@ }
    else if n == 0x29 { "l"@ }
    else if n == 0x2A { "10 l"@ }
    else if n == 0x2B { "100 l"@ }
    else if n == 0x2C { "m^3"@ }
    else if n == 0x2D { "10 m^3"@ }
    else if n == 0x2E { "100 m^3"@ }
    else if n == 0x2F { "ml/h"@ }
    else if n == 0x30 { "10 ml/h"@ }
    else if n == 0x31 { "100 ml/h"@ }
    else if n == 0x32 { "l/h"@ }
    else if n == 0x33 { "10 l/h"@ }
    else if n == 0x34 { "100 l/h"@ }
    else if n == 0x35 { "m^3/h"@ }
    else if n == 0x36 { "10 m^3/h"@ }
    else if n == 0x37 { "100 m^3/h"@ }
    else if n == 0x38 { "1e-3 °C"@ }
    else if n == 0x39 { "units for HCA"@ }
    else if 0x3A <= n <= 0x3D { "reserved"@ }
    else if n == 0x3E { "reserved but historic"@ }
    else if n == 0x3F { "without units"@ }
    else { "unknown"@ }
}
pub open spec fn sp_fmedium(n: int) -> Seq<char> {
    if n == 0x00 { "Other"@ }
    else if n == 0x01 { "Oil"@ }
    else if n == 0x02 { "Electricity"@ }
    else if n == 0x03 { "Gas"@ }
    else if n == 0x04 { "Heat"@ }
    else if n == 0x05 { "Steam"@ }
    else if n == 0x06 { "Hot Water"@ }
    else if n == 0x07 { "Water"@ }
    else if n == 0x08 { "H.C.A."@ }
    else if n == 0x09 || n == 0x0F { "Reserved"@ }
    else if n == 0x0A { "Gas Mode 2"@ }
    else if n == 0x0B { "Heat Mode 2"@ }
    else if n == 0x0C { "Hot Water Mode 2"@ }
    else if n == 0x0D { "Water Mode 2"@ }
    else if n == 0x0E { "H.C.A. Mode 2"@ }
    else { "unknown"@ }
}
pub open spec fn sp_frecord(i: int, status: u8, unit: u8, count: u32) -> Seq<char> {
    sp_el("    <DataRecord id=\""@, sp_dec(i), "\">\n"@)
        + sp_el("        <Function>"@, if (status / 64) % 2 == 1 { "Stored value"@ } else { "Actual value"@ }, "</Function>\n"@)
        + sp_el("        <Unit>"@, sp_xenc(sp_funit(unit as int % 64)), "</Unit>\n"@)
        + sp_el("        <Value>"@, sp_dec(count as int), "</Value>\n"@) + "    </DataRecord>\n\n"@
}
pub open spec fn sp_fixed(id: u32, access: u8, status: u8, kind: u16, a: Counter, b: Counter) -> Seq<char> {
    let x = (kind / 256) as u8;
    let y = (kind % 256) as u8;
    sp_xopen() + "    <SlaveInformation>\n"@ + sp_el("        <Id>"@, sp_dec(id as int), "</Id>\n"@)
        + sp_el("        <Medium>"@, sp_xenc(sp_fmedium(x as int / 64 + 4 * (y as int / 64))), "</Medium>\n"@)
        + sp_el("        <AccessNumber>"@, sp_dec(access as int), "</AccessNumber>\n"@) + sp_el("        <Status>"@, sp_hex(status as int, 2), "</Status>\n"@)
        + "    </SlaveInformation>\n\n"@ + sp_frecord(0, status, x, a.count) + sp_frecord(1, status, y, b.count) + "</MBusData>\n"@
}
