//@need m_bus_application_layer::data_information::DataInformationFieldExtensions
//@need m_bus_application_layer::data_record::DataRecord
//@need m_bus_application_layer::DataRecords
//@need m_bus_parser::rscada_xml::NormalizedRecord
//@need m_bus_parser::rscada_xml::DecodedValue
//@need m_bus_core::ManufacturerCode
//@need m_bus_core::u8::From<DeviceType>::from
//@need wireless_mbus_link_layer::ManufacturerId
//@need m_bus_application_layer::LongTplHeader
// The XML output: header fields and records.
use crate::m_bus_application_layer::data_information::*;
use crate::m_bus_application_layer::data_record::*;
use crate::m_bus_parser::rscada_xml::{NormalizedRecord, DecodedValue};
use crate::m_bus_core::ManufacturerCode;

// ---- values
pub enum XValue { Num(f64), Text(Seq<char>) }
pub open spec fn sp_xv(v: DecodedValue) -> XValue { match v { DecodedValue::Real(x) => XValue::Num(x), DecodedValue::Str(s) => XValue::Text(s@) } }
// two digits a byte, the last byte first; a high digit above nine counts nothing
pub open spec fn sp_xbcd(d: Seq<u8>, n: int, i: int) -> int
    decreases n - i,
{ if i >= n { 0 } else { 100 * sp_xbcd(d, n, i + 1) + 10 * (if d[i] / 16 < 10 { (d[i] / 16) as int } else { 0 }) + (d[i] % 16) as int } }
pub open spec fn sp_xsigned(d: Seq<u8>, n: int) -> int { if n > 0 && d[n - 1] / 16 == 15 { -sp_xbcd(d, n, 0) } else { sp_xbcd(d, n, 0) } }
// a signed number, read from its last byte; the complement of a negative one
pub open spec fn sp_xint(d: Seq<u8>, neg: bool, i: int) -> int
    decreases d.len() - i,
{ if i >= d.len() { 0 } else { 256 * sp_xint(d, neg, i + 1) + (if neg { 255 - d[i] as int } else { d[i] as int }) } }
pub proof fn lemma_xint(d: Seq<u8>, neg: bool, i: int)
    requires 0 <= i <= d.len(),
    ensures sp_p256(i) * sp_xint(d, neg, i) == if neg { sp_p256(d.len() as int) - sp_p256(i) - (sp_le_n(d, d.len() as int) - sp_le_n(d, i)) } else { sp_le_n(d, d.len() as int) - sp_le_n(d, i) },
    decreases d.len() - i,
{
    if i < d.len() {
        lemma_xint(d, neg, i + 1);
        let p = sp_p256(i);
        let x = sp_xint(d, neg, i + 1);
        let b = d[i] as int;
        assert(sp_p256(i + 1) == 256 * p);
        assert(sp_le_n(d, i + 1) == sp_le_n(d, i) + b * p);
        if neg { assert(p * (256 * x + (255 - b)) == 256 * p * x + 255 * p - b * p) by (nonlinear_arith); }
        else { assert(p * (256 * x + b) == 256 * p * x + b * p) by (nonlinear_arith); }
        assert((256 * p) * x == 256 * p * x);
    }
}
pub proof fn lemma_p256_small(n: int)
    requires 0 <= n <= 7,
    ensures 1 <= sp_p256(n) <= 0x100000000000000, n <= 6 ==> sp_p256(n) <= 0x1000000000000, n > 0 ==> sp_p256(n) == 256 * sp_p256(n - 1),
{ reveal_with_fuel(sp_p256, 9); }
pub proof fn lemma_xstep(d: Seq<u8>, neg: bool, i: int, v: int)
    requires 0 <= i < d.len() <= 8, neg == (d[d.len() - 1] >= 128), v == sp_xint(d, neg, i + 1),
        i + 1 == d.len() ==> v == 0, i + 1 < d.len() ==> 0 <= v < 128 * sp_p256(d.len() - 2 - i),
    ensures 0 <= v < 0x80000000000000, ({ let b = if neg { 255 - d[i] as int } else { d[i] as int }; 256 * v + b == sp_xint(d, neg, i) }),
        0 <= sp_xint(d, neg, i) < 128 * sp_p256(d.len() - 1 - i) <= 0x8000000000000000,
{
    lemma_p256_small(d.len() - 1 - i);
    if i + 1 < d.len() { lemma_p256_small(d.len() - 2 - i); }
}
pub proof fn lemma_xbstep(d: Seq<u8>, n: int, i: int, v: int)
    requires 0 <= i < n <= d.len(), n <= 8, v == sp_xbcd(d, n, i + 1), 0 <= v, 99 * v <= 105 * (sp_p100(n - i - 1) - 1),
    ensures 0 <= v <= 0x4000000000000, ({ let h = if d[i] / 16 < 10 { (d[i] / 16) as int } else { 0 }; (10 * v + h) * 10 + (d[i] % 16) as int == sp_xbcd(d, n, i) }),
        0 <= sp_xbcd(d, n, i), 99 * sp_xbcd(d, n, i) <= 105 * (sp_p100(n - i) - 1), sp_p100(n - i) <= 10000000000000000,
{
    reveal_with_fuel(sp_p100, 9);
    assert(sp_p100(n - i) == 100 * sp_p100(n - i - 1));
}
// a number only depends on its own bytes
pub proof fn lemma_xprefix(d: Seq<u8>)
    ensures
        forall|n: int| 0 < n <= d.len() && n <= 8 ==> #[trigger] sp_twos(d.subrange(0, n), n) == sp_twos(d, n),
        forall|n: int| 0 < n <= d.len() && n <= 8 ==> #[trigger] sp_xsigned(d.subrange(0, n), n) == sp_xsigned(d, n),
{
    assert forall|n: int| 0 < n <= d.len() && n <= 8 implies #[trigger] sp_twos(d.subrange(0, n), n) == sp_twos(d, n) by { lemma_xle(d.subrange(0, n), d, n); }
    assert forall|n: int| 0 < n <= d.len() && n <= 8 implies #[trigger] sp_xsigned(d.subrange(0, n), n) == sp_xsigned(d, n) by { lemma_xsame(d.subrange(0, n), d, n, 0); }
}
pub proof fn lemma_xle(a: Seq<u8>, b: Seq<u8>, n: int)
    requires 0 <= n <= a.len(), n <= b.len(), forall|i: int| 0 <= i < n ==> a[i] == b[i],
    ensures sp_le_n(a, n) == sp_le_n(b, n),
    decreases n,
{ if n > 0 { lemma_xle(a, b, n - 1); } }
pub proof fn lemma_xsame(a: Seq<u8>, b: Seq<u8>, n: int, i: int)
    requires 0 <= i <= n <= a.len(), n <= b.len(), forall|i: int| 0 <= i < n ==> a[i] == b[i],
    ensures sp_xbcd(a, n, i) == sp_xbcd(b, n, i),
    decreases n - i,
{ if i < n { lemma_xsame(a, b, n, i + 1); } }
pub open spec fn sp_p100(n: int) -> int
    decreases n,
{ if n <= 0 { 1 } else { 100 * sp_p100(n - 1) } }
pub open spec fn sp_xbin(d: Seq<u8>) -> Seq<char> { sp_join(Seq::new(d.len(), |i: int| sp_hex(d[i] as int, 2)), " "@) }
pub open spec fn sp_xstr(d: Seq<u8>) -> Seq<char> { sp_lossy(d.reverse()) }
pub open spec fn sp_xyear(a: u8, b: u8) -> int { 2000 + a as int / 32 + 8 * (b as int / 16) }
pub open spec fn sp_xday(a: u8, b: u8) -> Seq<char> {
    Seq::<char>::empty() + sp_padded(sp_xyear(a, b), 4) + "-"@ + sp_padded(b as int % 16, 2) + "-"@ + sp_padded(a as int % 32, 2)
}
pub open spec fn sp_xf(d: Seq<u8>) -> Seq<char> {
    if d[0] >= 128 { "1900-01-00T00:00:00Z"@ } else { sp_xday(d[2], d[3]) + "T"@ + sp_padded(d[1] as int % 32, 2) + ":"@ + sp_padded(d[0] as int % 64, 2) + ":00Z"@ }
}
pub open spec fn sp_xi(d: Seq<u8>) -> Seq<char> {
    if d[1] >= 128 { "1900-01-00T00:00:00Z"@ } else { sp_xday(d[3], d[4]) + "T"@ + sp_padded(d[2] as int % 32, 2) + ":"@ + sp_padded(d[1] as int % 64, 2) + ":"@ + sp_padded(d[0] as int % 64, 2) + "Z"@ }
}
// bytes of a fixed-width coding
pub open spec fn sp_xwidth(c: int) -> int {
    if c == 1 || c == 9 { 1 } else if c == 2 || c == 10 { 2 } else if c == 3 || c == 11 { 3 } else if c == 4 || c == 5 || c == 12 { 4 } else if c == 6 || c == 14 { 6 } else if c == 7 { 8 } else { 0 }
}
pub open spec fn sp_xclock(vif: u8, vife: Option<u8>) -> bool {
    vif % 128 == 0x6D || (vif == 0xFD && vife is Some && (vife->Some_0 % 128 == 0x30 || vife->Some_0 % 128 == 0x70))
}
pub open spec fn sp_xvalue(dif: u8, vif: u8, vife: Option<u8>, d: Seq<u8>) -> Option<XValue> {
    let c = (dif % 16) as int;
    let n = sp_xwidth(c);
    if c == 0 { Some(XValue::Text(Seq::empty())) }
    else if c == 15 { Some(XValue::Text(sp_xbin(d))) }
    else if c == 8 { None }
    else if c == 13 {
        if d.len() == 0 { None } else if d[0] <= 0xBF { Some(XValue::Text(sp_xstr(d.subrange(1, d.len() as int)))) } else { Some(XValue::Text(sp_xbin(d.subrange(1, d.len() as int)))) }
    }
    else if d.len() < n { None }
    else if c == 5 { Some(XValue::Num(f_of_f32(f32_of(d.subrange(0, 4))))) }
    else if c >= 9 { Some(XValue::Num(f_of(sp_xsigned(d, n)))) }
    else if c == 2 && vif % 128 == 0x6C { Some(XValue::Text(sp_xday(d[0], d[1]))) }
    else if c == 4 && sp_xclock(vif, vife) { Some(XValue::Text(sp_xf(d))) }
    else if c == 6 && sp_xclock(vif, vife) { Some(XValue::Text(sp_xi(d))) }
    else { Some(XValue::Num(f_of(sp_twos(d, n)))) }
}

// ---- records
// unit, scaled number and quantity: a table the contract leaves open
pub uninterp spec fn sp_xunit(vif: u8, vifes: Seq<u8>, own: Option<Seq<char>>, x: f64) -> Option<(Seq<char>, f64, Seq<char>)>;
pub open spec fn sp_own(o: Option<String>) -> Option<Seq<char>> { match o { Some(s) => Some(s@), None => None } }
pub open spec fn sp_datas(l: Seq<crate::m_bus_application_layer::value_information::ValueInformationFieldExtension>) -> Seq<u8> { Seq::new(l.len(), |i: int| l[i].data) }
pub struct XRecord { pub function: Seq<char>, pub storage: int, pub tariff: Option<int>, pub device: int, pub unit: Seq<char>, pub quantity: Seq<char>, pub value: XValue }
pub open spec fn sp_xr(r: Option<NormalizedRecord>) -> Option<XRecord> {
    match r {
        Some(n) => Some(XRecord { function: n.function@, storage: n.storage_number as int, tariff: match n.tariff { Some(t) => Some(t as int), None => None }, device: n.device as int, unit: n.unit@, quantity: n.quantity@, value: sp_xv(n.value) }),
        None => None,
    }
}
pub open spec fn sp_xfunction(dif: u8) -> Seq<char> {
    if (dif / 16) % 4 == 0 { "Instantaneous value"@ } else if (dif / 16) % 4 == 1 { "Maximum value"@ } else if (dif / 16) % 4 == 2 { "Minimum value"@ } else { "Value during error state"@ }
}
pub open spec fn sp_xrecord(x: DataRecord<'_>) -> Option<XRecord> {
    let h = x.data_record_header.raw_data_record_header;
    let dif = h.data_information_block.data_information_field.data;
    let e = sp_exts(h.data_information_block.data_information_field_extension);
    let d = x.raw_bytes@.subrange(sp_header_size(h), x.raw_bytes@.len() as int);
    let storage = sp_storage(dif, e, e.len() as int);
    let tariff = if e.len() == 0 { None } else { Some(sp_tariff(e, e.len() as int)) };
    let device = sp_subunit(e, e.len() as int);
    if dif == 0x0F || dif == 0x1F {
        Some(XRecord { function: if dif == 0x1F { "More records follow"@ } else { "Manufacturer specific"@ }, storage, tariff, device, unit: Seq::empty(), quantity: Seq::empty(), value: XValue::Text(sp_xbin(d)) })
    } else if h.value_information_block is None { None } else {
        let v = h.value_information_block->Some_0;
        let vif = v.value_information.data;
        let vifes = match v.value_information_extension { Some(l) => sp_datas(l@), None => Seq::empty() };
        let own = match v.plaintext_vife { Some(t) => Some(t@.reverse()), None => None };
        match sp_xvalue(dif, vif, if vifes.len() > 0 { Some(vifes[0]) } else { None }, d) {
            None => None,
            Some(value) => match sp_xunit(vif, vifes, own, match value { XValue::Num(n) => n, XValue::Text(_) => f_of(0) }) {
                None => None,
                Some((unit, scaled, quantity)) => Some(XRecord { function: sp_xfunction(dif), storage, tariff, device, unit, quantity, value: match value { XValue::Num(_) => XValue::Num(scaled), t => t } }),
            },
        }
    }
}
pub open spec fn sp_xtext(i: int, x: DataRecord<'_>) -> Seq<char> {
    let a = sp_el("    <DataRecord id=\""@, sp_dec(i), "\">\n"@);
    (match sp_xrecord(x) {
        None => a,
        Some(n) => {
            let b = a + sp_el("        <Function>"@, sp_xenc(n.function), "</Function>\n"@) + sp_el("        <StorageNumber>"@, sp_dec(n.storage), "</StorageNumber>\n"@);
            let c = match n.tariff {
                Some(t) => b + sp_el("        <Tariff>"@, sp_dec(t), "</Tariff>\n"@) + sp_el("        <Device>"@, sp_dec(n.device), "</Device>\n"@),
                None => b,
            };
            c + sp_el("        <Unit>"@, sp_xenc(n.unit), "</Unit>\n"@) + sp_el("        <Quantity>"@, sp_xenc(n.quantity), "</Quantity>\n"@)
                + sp_el("        <Value>"@, match n.value { XValue::Num(v) => sp_six(v), XValue::Text(t) => sp_xenc(t) }, "</Value>\n"@)
        },
    }) + "    </DataRecord>\n\n"@
}
pub open spec fn sp_xtexts(recs: Seq<DataRecord<'_>>, n: int) -> Seq<char>
    decreases n,
{ if n <= 0 { Seq::empty() } else { sp_xtexts(recs, n - 1) + sp_xtext(n - 1, recs[n - 1]) } }
pub proof fn lemma_xtexts(recs: Seq<DataRecord<'_>>, x: DataRecord<'_>, n: int)
    requires 0 <= n <= recs.len(),
    ensures sp_xtexts(recs.push(x), n) == sp_xtexts(recs, n),
    decreases n,
{ if n > 0 { lemma_xtexts(recs, x, n - 1); } }
// the records one behind the other from o to the end, or to where one cannot be read
pub open spec fn sp_xone(recs: Seq<DataRecord<'_>>, d: Seq<u8>, o: int, i: int) -> bool {
    0 <= sp_at(recs, d, o, i) < d.len() && sp_record(recs[i], d.subrange(sp_at(recs, d, o, i), d.len() as int))
}
pub open spec fn sp_xrun(recs: Seq<DataRecord<'_>>, d: Seq<u8>, o: int) -> bool { forall|i: int| 0 <= i < recs.len() ==> #[trigger] sp_xone(recs, d, o, i) }
pub open spec fn sp_xlist(recs: Seq<DataRecord<'_>>, d: Seq<u8>, o: int) -> bool {
    let k = sp_at(recs, d, o, recs.len() as int);
    sp_xrun(recs, d, o) && (k == d.len() || (0 <= k < d.len() && !sp_is_special(d[k])))
}
pub proof fn lemma_xrun(recs: Seq<DataRecord<'_>>, x: DataRecord<'_>, d: Seq<u8>, o: int)
    requires sp_xrun(recs, d, o), 0 <= sp_at(recs, d, o, recs.len() as int) < d.len(), sp_record(x, d.subrange(sp_at(recs, d, o, recs.len() as int), d.len() as int)),
    ensures sp_xrun(recs.push(x), d, o),
{
    lemma_at_push(recs, x, d, o);
    assert forall|i: int| 0 <= i < recs.push(x).len() implies #[trigger] sp_xone(recs.push(x), d, o, i) by {
        assert(sp_at(recs.push(x), d, o, i) == sp_at(recs, d, o, i));
        if i < recs.len() { assert(recs.push(x)[i] == recs[i]); assert(sp_xone(recs, d, o, i)); } else { assert(recs.push(x)[i] == x); }
    }
}

// ---- header
pub uninterp spec fn sp_xproduct(man: Seq<char>, version: u8, medium: u8, id: u32) -> Seq<char>;
pub uninterp spec fn sp_xmedium(medium: u8) -> Seq<char>;
// four digits are two digits twice
pub proof fn lemma_hex4()
    ensures forall|s: Seq<char>, x: int| 0 <= x < 65536 ==> #[trigger] (s + sp_hex(x, 4)) == s + sp_hex(x / 256, 2) + sp_hex(x % 256, 2),
{
    assert forall|s: Seq<char>, x: int| 0 <= x < 65536 implies #[trigger] (s + sp_hex(x, 4)) == s + sp_hex(x / 256, 2) + sp_hex(x % 256, 2) by {
        reveal_with_fuel(sp_hex, 6);
        assert(x / 16 % 16 == x % 256 / 16 && x % 16 == x % 256 % 16 && x / 16 / 16 == x / 256 && x / 16 / 16 / 16 == x / 256 / 16);
        assert(s + sp_hex(x, 4) =~= s + sp_hex(x / 256, 2) + sp_hex(x % 256, 2));
    }
}
// what has been written before, then the header
pub open spec fn sp_xhead(pre: Seq<char>, id: u32, man: Seq<char>, version: u8, medium: u8, access: Option<u8>, status: Option<u8>, signature: Option<u16>) -> Seq<char> {
    let a = pre + "    <SlaveInformation>\n"@ + sp_el("        <Id>"@, sp_dec(id as int), "</Id>\n"@) + sp_el("        <Manufacturer>"@, man, "</Manufacturer>\n"@) + sp_el("        <Version>"@, sp_dec(version as int), "</Version>\n"@)
        + sp_el("        <ProductName>"@, sp_xenc(sp_xproduct(man, version, medium, id)), "</ProductName>\n"@) + sp_el("        <Medium>"@, sp_xenc(sp_xmedium(medium)), "</Medium>\n"@);
    let b = match access { Some(x) => a + sp_el("        <AccessNumber>"@, sp_dec(x as int), "</AccessNumber>\n"@), None => a };
    let c = match status { Some(x) => b + sp_el("        <Status>"@, sp_hex(x as int, 2), "</Status>\n"@), None => b };
    let e = match signature { Some(x) => c + (Seq::<char>::empty() + "        <Signature>"@ + sp_hex(x as int / 256, 2) + sp_hex(x as int % 256, 2) + "</Signature>\n"@), None => c };
    e + "    </SlaveInformation>\n\n"@
}
pub open spec fn sp_xlong(h: crate::m_bus_application_layer::LongTplHeader) -> Seq<char> {
    sp_xhead(Seq::empty(), h.identification_number.number, match h.manufacturer { Ok(m) => sp_man_text(m), Err(_) => Seq::empty() }, h.version, crate::spec::sp_device_code(h.device_type),
        Some(h.short_tpl_header.access_number), Some(h.short_tpl_header.status.flag_bits), Some(h.short_tpl_header.configuration_field.raw))
}
pub open spec fn sp_xmany(r: Seq<char>, head: Seq<char>, d: Seq<u8>, o: int) -> bool {
    exists|recs: Seq<DataRecord<'_>>| #[trigger] sp_xlist(recs, d, o) && r == head + sp_xtexts(recs, recs.len() as int) + "</MBusData>\n"@
}
