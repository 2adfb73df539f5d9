//@need m_bus_application_layer::data_record::DataRecord
//@need m_bus_application_layer::data_record::DataRecordHeader
//@need m_bus_application_layer::data_record::RawDataRecordHeader
//@need m_bus_application_layer::data_record::ProcessedDataRecordHeader
//@need m_bus_application_layer::DataRecords
//@need m_bus_application_layer::value_information::ValueLabel
use crate::m_bus_application_layer::data_record::*;
use crate::m_bus_application_layer::data_information::*;
use crate::m_bus_application_layer::value_information::*;
use crate::m_bus_application_layer::DataRecords;

// ---- the coding of a record: the DIF's, or a date or time by quantity and width
pub open spec fn sp_record_coding(c: DataFieldCoding, l: Seq<ValueLabel>) -> DataFieldCoding {
    if l.contains(ValueLabel::Date) {
        if c is Integer16Bit { DataFieldCoding::DateTypeG } else { c }
    } else if l.contains(ValueLabel::DateTime) {
        if c is Integer24Bit { DataFieldCoding::DateTimeTypeJ }
        else if c is Integer32Bit { DataFieldCoding::DateTimeTypeF }
        else if c is Integer48Bit { DataFieldCoding::DateTimeTypeI }
        else { c }
    } else if l.contains(ValueLabel::Time) { DataFieldCoding::DateTimeTypeJ }
    else if l.contains(ValueLabel::DateTimeWithSeconds) { DataFieldCoding::DateTimeTypeI }
    else { c }
}
pub open spec fn sp_is_special(b: u8) -> bool { b % 16 == 15 }
// the processed header belongs to the raw one
pub open spec fn sp_processed(p: ProcessedDataRecordHeader, h: RawDataRecordHeader<'_>) -> bool {
    let dif = h.data_information_block.data_information_field.data;
    &&& p.data_information is Some ==> sp_di_fields(p.data_information->Some_0, h.data_information_block)
    &&& match h.value_information_block {
        Some(_) => p.data_information is Some && p.value_information is Some
            && -1090 <= p.value_information->Some_0.decimal_scale_exponent <= 1090 && sp_no_clock(p.value_information->Some_0.labels@)
            && p.data_information->Some_0.data_field_coding == sp_record_coding(sp_coding(dif), p.value_information->Some_0.labels@),
        None => p.value_information is None && (p.data_information is Some <==> sp_is_special(dif))
            && (p.data_information is Some ==> p.data_information->Some_0.data_field_coding == sp_coding(dif)),
    }
}
pub open spec fn sp_raw_header(h: RawDataRecordHeader<'_>, d: Seq<u8>) -> bool {
    &&& sp_dib(h.data_information_block, d)
    &&& (h.value_information_block is None <==> sp_is_special(d[0]))
    &&& h.value_information_block is Some ==> sp_vib(h.value_information_block->Some_0, d.subrange(sp_dif_len(d), d.len() as int))
}
pub open spec fn sp_header_len(d: Seq<u8>) -> int {
    sp_dif_len(d) + if sp_is_special(d[0]) { 0 } else { sp_vib_len(d.subrange(sp_dif_len(d), d.len() as int)) }
}
pub open spec fn sp_header_size(h: RawDataRecordHeader<'_>) -> int {
    1 + sp_exts(h.data_information_block.data_information_field_extension).len()
        + match h.value_information_block { Some(v) => sp_vib_size(v), None => 0 }
}
pub proof fn lemma_header_size(h: RawDataRecordHeader<'_>, d: Seq<u8>)
    requires sp_raw_header(h, d),
    ensures sp_header_size(h) == sp_header_len(d), 1 <= sp_header_len(d) <= d.len(),
        sp_exts(h.data_information_block.data_information_field_extension).len() <= 11,
{
    let s = d.subrange(1, d.len() as int);
    lemma_run_bound(s);
    if !sp_is_special(d[0]) {
        let v = d.subrange(sp_dif_len(d), d.len() as int);
        lemma_run_bound(v.subrange(1, v.len() as int));
        let b = h.value_information_block->Some_0;
        if v[0] == 0xFC {
            assert(sp_text(b.plaintext_vife->Some_0@, v.subrange(sp_text_at(v), v.len() as int)));
            assert(v.subrange(sp_text_at(v), v.len() as int)[0] == v[sp_text_at(v)]);
        }
    }
}
// bytes of the value
pub open spec fn sp_value_size(c: DataFieldCoding, d: Seq<u8>) -> int {
    match c {
        DataFieldCoding::Integer8Bit | DataFieldCoding::BCD2Digit => 1,
        DataFieldCoding::Integer16Bit | DataFieldCoding::BCD4Digit | DataFieldCoding::DateTypeG => 2,
        DataFieldCoding::Integer24Bit | DataFieldCoding::BCD6Digit | DataFieldCoding::DateTimeTypeJ => 3,
        DataFieldCoding::Integer32Bit | DataFieldCoding::Real32Bit | DataFieldCoding::BCD8Digit | DataFieldCoding::DateTimeTypeF => 4,
        DataFieldCoding::Integer48Bit | DataFieldCoding::BCDDigit12 | DataFieldCoding::DateTimeTypeI => 6,
        DataFieldCoding::Integer64Bit => 8,
        DataFieldCoding::VariableLength => 1 + sp_var_len(d[0]),
        DataFieldCoding::SpecialFunctions(SpecialFunctions::ManufacturerSpecific) => d.len() as int,
        DataFieldCoding::SpecialFunctions(SpecialFunctions::MoreRecordsFollow) => d.len() as int,
        _ => 0,
    }
}

// ---- walking the payload
pub open spec fn sp_skippable(b: u8) -> bool { sp_is_special(b) && b != 0x0F && b != 0x1F && b != 0x7F }
pub open spec fn sp_skip(d: Seq<u8>, o: int) -> int
    decreases d.len() - o,
{
    if o < 0 || o >= d.len() || !sp_skippable(d[o]) { o } else { sp_skip(d, o + 1) }
}
pub open spec fn sp_record(r: DataRecord<'_>, d: Seq<u8>) -> bool {
    let n = r.raw_bytes@.len() as int;
    &&& 1 <= n <= d.len() && r.raw_bytes@ =~= d.subrange(0, n)
    &&& (d[0] == 0x0F || d[0] == 0x1F ==> n == d.len())
    &&& (d[0] == 0x7F ==> n == 1)
    &&& sp_raw_header(r.data_record_header.raw_data_record_header, d)
    &&& sp_processed(r.data_record_header.processed_data_record_header, r.data_record_header.raw_data_record_header)
    &&& n == sp_header_len(d) + r.data.size
    &&& r.data_record_header.processed_data_record_header.data_information is Some
    &&& r.data.size == sp_value_size(r.data_record_header.processed_data_record_header.data_information->Some_0.data_field_coding, d.subrange(sp_header_len(d), d.len() as int))
}
// one call of the iterator at position o
pub open spec fn sp_next(d: Seq<u8>, o: int, r: Option<Result<DataRecord<'_>, crate::m_bus_application_layer::variable_user_data::DataRecordError>>, n: int) -> bool {
    let k = sp_skip(d, o);
    match r {
        None => o <= d.len() ==> k == d.len() && n == k,
        Some(Err(_)) => k < d.len() && n == d.len() && !sp_is_special(d[k]),
        Some(Ok(x)) => k < n <= d.len() && x.raw_bytes@ =~= d.subrange(k, n) && sp_record(x, d.subrange(k, d.len() as int)),
    }
}

pub open spec fn sp_headers(r: DataRecord<'_>, d: Seq<u8>) -> bool {
    &&& sp_raw_header(r.data_record_header.raw_data_record_header, d)
    &&& sp_processed(r.data_record_header.processed_data_record_header, r.data_record_header.raw_data_record_header)
    &&& r.data_record_header.processed_data_record_header.data_information is Some
}
pub open spec fn sp_coding_in(r: DataRecord<'_>) -> DataFieldCoding {
    r.data_record_header.processed_data_record_header.data_information->Some_0.data_field_coding
}
// a record and, if it is one, the date or time in it
pub open spec fn sp_read(x: DataRecord<'_>, d: Seq<u8>) -> bool {
    sp_record(x, d) && sp_date(sp_coding_in(x), d.subrange(sp_header_len(d), d.len() as int), Ok(x.data))
}
