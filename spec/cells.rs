//@need m_bus_parser::MbusError
use crate::m_bus_parser::output::*;
// what the CSV row says about a value
pub open spec fn sp_component(e: (String, serde_json::Value)) -> Seq<char> {
    e.0@ + "="@ + (match e.1 { serde_json::Value::String(s) => s@, _ => e.1.sp_str() })
}
pub open spec fn sp_components(s: Seq<(String, serde_json::Value)>) -> Seq<Seq<char>> {
    s.map_values(|e: (String, serde_json::Value)| sp_component(e))
}
pub open spec fn sp_value_cell(r: RecordOutput) -> Seq<char> {
    match r.value.value {
        Some(serde_json::Value::String(s)) => s@,
        Some(serde_json::Value::Number(n)) => n.sp_str(),
        Some(serde_json::Value::Object(o)) => sp_join(sp_components(o.sp_entries()), ", "@),
        Some(v) => v.sp_str(),
        None => if r.value.kind@ == "manufacturer_specific"@ { sp_without(r.data_hex@, ' ') }
            else if r.value.kind@ == "none"@ { "No data"@ }
            else if r.value.kind@ == "unknown"@ { "Unsupported value type"@ }
            else { seq![] },
    }
}
pub open spec fn sp_record_cells(r: RecordOutput) -> Seq<Seq<char>> {
    seq![
        r.function@,
        sp_dec(r.storage_number as int),
        sp_dec(r.tariff as int),
        sp_dec(r.subunit as int),
        sp_join(sp_words(r.quantities@), "|"@),
        r.value.kind@,
        sp_value_cell(r),
        sp_or_empty(r.unit),
        r.data_coding@,
        r.header_hex@,
        r.data_hex@,
    ]
}
pub open spec fn sp_record_columns(r: RecordOutput) -> Seq<Seq<char>> {
    sp_record_names().map_values(|n: Seq<char>| "record_"@ + sp_dec(r.index as int) + "_"@ + n)
}
pub open spec fn sp_record_names() -> Seq<Seq<char>> {
    seq![
        "function"@, "storage_number"@, "tariff"@, "subunit"@, "quantities"@, "value_type"@,
        "value"@, "unit"@, "data_coding"@, "header_hex"@, "data_hex"@,
    ]
}
pub open spec fn sp_raws(s: Seq<SourcedStatus>) -> Seq<Seq<char>> { s.map_values(|x: SourcedStatus| x.raw@) }
pub open spec fn sp_access(s: Seq<SourcedU8>) -> Seq<Seq<char>> {
    s.map_values(|x: SourcedU8| x.source@ + ":"@ + sp_dec(x.value as int))
}
pub open spec fn sp_codes(s: Seq<Diagnostic>) -> Seq<Seq<char>> { s.map_values(|x: Diagnostic| x.code@) }
pub open spec fn sp_frame_cells(d: DecodedOutput) -> Seq<Seq<char>> {
    seq![
        sp_dec(d.schema_version as int),
        d.protocol@,
        d.frame.kind@,
        sp_or_empty(d.frame.function),
        sp_or_empty(d.frame.address),
        match d.meter.identity { Some(i) => sp_or_empty(i.id), None => seq![] },
        match d.meter.identity { Some(i) => sp_or_empty(i.manufacturer_code), None => seq![] },
        match d.meter.identity { Some(i) => i.source@, None => seq![] },
        sp_join(sp_access(d.transport.access_numbers@), "|"@),
        sp_join(sp_raws(d.transport.statuses@), "|"@),
        sp_or_empty(d.security.mode),
        d.security.decryption_state@,
        d.decode_state@,
        sp_dec(d.records@.len() as int),
        sp_join(sp_codes(d.diagnostics@), "|"@),
        match d.enrichment { Some(e) => e.manufacturer_name@, None => seq![] },
        match d.enrichment { Some(e) => e.manufacturer_website@, None => seq![] },
        d.raw.original_frame_hex@,
    ]
}
pub open spec fn sp_frame_columns() -> Seq<Seq<char>> {
    seq![
        "schema_version"@, "protocol"@, "frame_kind"@, "frame_function"@, "address"@, "meter_id"@,
        "manufacturer_code"@, "identity_source"@, "access_numbers"@, "status_codes"@,
        "security_mode"@, "decryption_state"@, "decode_state"@, "record_count"@,
        "diagnostic_codes"@, "manufacturer_name"@, "manufacturer_website"@, "frame_hex"@,
    ]
}
// header row and value row: frame columns, then eleven columns for every record
pub open spec fn sp_columns(r: Seq<RecordOutput>) -> Seq<Seq<char>>
    decreases r.len()
{
    if r.len() == 0 { sp_frame_columns() } else { sp_columns(r.drop_last()) + sp_record_columns(r.last()) }
}
pub open spec fn sp_cells(d: DecodedOutput, r: Seq<RecordOutput>) -> Seq<Seq<char>>
    decreases r.len()
{
    if r.len() == 0 { sp_frame_cells(d) } else { sp_cells(d, r.drop_last()) + sp_record_cells(r.last()) }
}
// both rows have the same number of cells
pub proof fn lemma_rows_match(d: DecodedOutput, r: Seq<RecordOutput>)
    ensures sp_columns(r).len() == 18 + 11 * r.len(), sp_cells(d, r).len() == 18 + 11 * r.len(),
    decreases r.len()
{
    if r.len() > 0 { lemma_rows_match(d, r.drop_last()); }
}
pub proof fn lemma_words_push(v: Seq<String>, x: String)
    ensures sp_words(v.push(x)) == sp_words(v).push(x@),
{ assert(sp_words(v.push(x)) =~= sp_words(v).push(x@)); }
pub proof fn lemma_take_next<A>(s: Seq<A>, i: int)
    requires 0 <= i < s.len(),
    ensures s.take(i + 1) =~= s.take(i).push(s[i]), s.take(i + 1).drop_last() =~= s.take(i), s.take(i + 1).last() == s[i],
{ }
// what decode_bytes answers: the same bytes and options give the same output
pub uninterp spec fn sp_decoded(d: Seq<u8>, o: DecodeOptions) -> Result<DecodedOutput, OutputError>;
impl VToStr for crate::m_bus_parser::MbusError {
    uninterp spec fn sp_str(&self) -> Seq<char>;
    #[verifier::external_body]
    fn v_to_string(&self) -> (r: String) { unimplemented!() }
}
