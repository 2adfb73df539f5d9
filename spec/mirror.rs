//@need m_bus_parser::output::RecordOutput
//@need m_bus_application_layer::value_information::Unit
// What the typed output of a record says about its header, from the bytes d it was read from.
use crate::m_bus_application_layer::data_record::*;
use crate::m_bus_application_layer::data_information::*;
use crate::m_bus_application_layer::value_information::*;
use crate::m_bus_parser::output::RecordOutput;
use crate::m_bus_application_layer::variable_user_data::DataRecordError;

impl VToStr for DataRecordError {
    uninterp spec fn sp_str(&self) -> Seq<char>;
    #[verifier::external_body]
    fn v_to_string(&self) -> (r: String) { unimplemented!() }
}
impl VToStr for Unit {
    uninterp spec fn sp_str(&self) -> Seq<char>;
    #[verifier::external_body]
    fn v_to_string(&self) -> (r: String) { unimplemented!() }
}

pub open spec fn sp_function_text(dif: u8) -> Seq<char> {
    match sp_function_field(dif) {
        FunctionField::InstantaneousValue => "Instantaneous value"@,
        FunctionField::MaximumValue => "Maximum value"@,
        FunctionField::MinimumValue => "Minimum value"@,
        FunctionField::ValueDuringErrorState => "Value during error state"@,
    }
}
pub open spec fn sp_special_text(s: SpecialFunctions) -> Seq<char> {
    match s {
        SpecialFunctions::ManufacturerSpecific => "Manufacturer specific"@,
        SpecialFunctions::MoreRecordsFollow => "More records follow"@,
        SpecialFunctions::IdleFiller => "Idle filler"@,
        SpecialFunctions::Reserved => "Reserved special function"@,
        SpecialFunctions::GlobalReadoutRequest => "Global readout request"@,
    }
}
pub open spec fn sp_coding_text(c: DataFieldCoding) -> Seq<char> {
    match c {
        DataFieldCoding::NoData => "No data"@,
        DataFieldCoding::Integer8Bit => "8-bit integer"@,
        DataFieldCoding::Integer16Bit => "16-bit integer"@,
        DataFieldCoding::Integer24Bit => "24-bit integer"@,
        DataFieldCoding::Integer32Bit => "32-bit integer"@,
        DataFieldCoding::Real32Bit => "32-bit real"@,
        DataFieldCoding::Integer48Bit => "48-bit integer"@,
        DataFieldCoding::Integer64Bit => "64-bit integer"@,
        DataFieldCoding::SelectionForReadout => "Selection for readout"@,
        DataFieldCoding::BCD2Digit => "2-digit BCD"@,
        DataFieldCoding::BCD4Digit => "4-digit BCD"@,
        DataFieldCoding::BCD6Digit => "6-digit BCD"@,
        DataFieldCoding::BCD8Digit => "8-digit BCD"@,
        DataFieldCoding::VariableLength => "Variable length"@,
        DataFieldCoding::BCDDigit12 => "12-digit BCD"@,
        DataFieldCoding::DateTypeG => "Date (type G)"@,
        DataFieldCoding::DateTimeTypeF => "Date and time (type F)"@,
        DataFieldCoding::DateTimeTypeJ => "Time (type J)"@,
        DataFieldCoding::DateTimeTypeI => "Date and time (type I)"@,
        DataFieldCoding::SpecialFunctions(s) => sp_special_text(s),
    }
}
// two hexadecimal digits a byte, separated by spaces
pub open spec fn sp_spaced(b: Seq<u8>) -> Seq<char> { sp_join(b.map_values(|x: u8| sp_hex(x as int, 2)), " "@) }

pub open spec fn sp_symbol(u: UnitName) -> Option<Seq<char>> {
    match u {
        UnitName::Watt => Some("W"@), UnitName::Joul => Some("J"@), UnitName::Kilogram => Some("kg"@), UnitName::Tonne => Some("t"@),
        UnitName::Meter => Some("m"@), UnitName::Feet => Some("[ft_i]"@), UnitName::Celsius => Some("Cel"@), UnitName::Kelvin => Some("K"@),
        UnitName::Bar => Some("bar"@), UnitName::Second => Some("s"@), UnitName::Minute => Some("min"@), UnitName::Hour => Some("h"@),
        UnitName::Day => Some("d"@), UnitName::Week => Some("wk"@), UnitName::Month => Some("mo"@), UnitName::Year => Some("a"@),
        UnitName::Liter => Some("L"@), UnitName::Volt => Some("V"@), UnitName::Ampere => Some("A"@), UnitName::Percent => Some("%"@),
        UnitName::Hertz => Some("Hz"@), UnitName::Fahrenheit => Some("[degF]"@), UnitName::AmericanGallon => Some("[gal_us]"@), UnitName::Calorie => Some("cal"@),
        _ => None,
    }
}
pub open spec fn sp_unit_text(u: Unit) -> Option<Seq<char>> {
    match sp_symbol(u.name) {
        Some(s) => Some(if u.exponent == 1 { s } else { s + sp_sdec(u.exponent as int) }),
        None => None,
    }
}
pub open spec fn sp_all_known(u: Seq<Unit>) -> bool { forall|i: int| 0 <= i < u.len() ==> sp_unit_text(#[trigger] u[i]) is Some }
pub open spec fn sp_units_text(u: Seq<Unit>) -> Seq<char> { sp_join(u.map_values(|x: Unit| sp_unit_text(x)->Some_0), "."@) }

pub open spec fn sp_difes(d: Seq<u8>) -> Seq<u8> { d.subrange(1, sp_dif_len(d)) }
pub open spec fn sp_mirror(o: RecordOutput, x: DataRecord<'_>, d: Seq<u8>) -> bool {
    let h = sp_header_len(d);
    let e = sp_difes(d);
    let k = e.len() as int;
    &&& o.storage_number == sp_storage(d[0], e, k) && o.tariff == sp_tariff(e, k) && o.subunit == sp_subunit(e, k)
    &&& o.function@ == (if sp_is_special(d[0]) { sp_special_text(sp_special(d[0])) } else { sp_function_text(d[0]) })
    &&& o.data_coding@ == sp_coding_text(sp_coding_in(x))
    &&& o.header_hex@ == sp_spaced(d.subrange(0, h)) && o.data_hex@ == sp_spaced(d.subrange(h, x.raw_bytes@.len() as int))
    &&& match x.data_record_header.processed_data_record_header.value_information {
            Some(v) => (o.unit is Some <==> v.units@.len() > 0) && (o.unit is Some && sp_all_known(v.units@) ==> o.unit->Some_0@ == sp_units_text(v.units@)),
            None => o.unit is None,
        }
}
#[verifier::opaque]
pub open spec fn sp_mirrored(o: RecordOutput, x: DataRecord<'_>, d: Seq<u8>, i: int) -> bool { o.index == i && sp_record(x, d) && sp_mirror(o, x, d) }
pub open spec fn sp_mirror_list(out: Seq<RecordOutput>, recs: Seq<DataRecord<'_>>, d: Seq<u8>, o: int) -> bool {
    &&& out.len() == recs.len()
    &&& forall|i: int| 0 <= i < recs.len() ==> #[trigger] sp_mirrored(out[i], recs[i], d.subrange(sp_at(recs, d, o, i), d.len() as int), i)
}
pub open spec fn sp_mirrors(out: Seq<RecordOutput>, d: Seq<u8>, o: int, whole: bool) -> bool {
    exists|recs: Seq<DataRecord<'_>>| sp_mirror_list(out, recs, d, o) && (whole ==> #[trigger] sp_at(recs, d, o, recs.len() as int) == d.len())
}
pub proof fn lemma_mirror_push(out: Seq<RecordOutput>, recs: Seq<DataRecord<'_>>, v: RecordOutput, x: DataRecord<'_>, d: Seq<u8>, o: int)
    requires sp_mirror_list(out, recs, d, o), v.index == out.len(),
        sp_record(x, d.subrange(sp_at(recs, d, o, recs.len() as int), d.len() as int)),
        sp_mirror(v, x, d.subrange(sp_at(recs, d, o, recs.len() as int), d.len() as int)),
    ensures sp_mirror_list(out.push(v), recs.push(x), d, o),
{
    hide(sp_record); hide(sp_mirror);
    reveal(sp_mirrored);
    lemma_at_push(recs, x, d, o);
    let a = out.push(v);
    let b = recs.push(x);
    assert forall|i: int| 0 <= i < b.len() implies #[trigger] sp_mirrored(a[i], b[i], d.subrange(sp_at(b, d, o, i), d.len() as int), i) by {
        if i < recs.len() { assert(sp_mirrored(out[i], recs[i], d.subrange(sp_at(recs, d, o, i), d.len() as int), i)); }
    }
}
// sizes and fields of a record whatever bytes it is said to have been read from
pub proof fn lemma_record_sizes(x: DataRecord<'_>)
    ensures forall|d: Seq<u8>| #[trigger] sp_record(x, d) ==> {
        let h = sp_header_size(x.data_record_header.raw_data_record_header);
        let n = x.raw_bytes@.len() as int;
        &&& h == sp_header_len(d) && 0 <= h <= n <= d.len()
        &&& d.subrange(0, h) == x.raw_bytes@.subrange(0, h) && d.subrange(h, n) == x.raw_bytes@.subrange(h, n)
        &&& sp_exts(x.data_record_header.raw_data_record_header.data_information_block.data_information_field_extension).len() <= 11
    },
{
    assert forall|d: Seq<u8>| #[trigger] sp_record(x, d) implies {
        let h = sp_header_size(x.data_record_header.raw_data_record_header);
        let n = x.raw_bytes@.len() as int;
        &&& h == sp_header_len(d) && 0 <= h <= n <= d.len()
        &&& d.subrange(0, h) == x.raw_bytes@.subrange(0, h) && d.subrange(h, n) == x.raw_bytes@.subrange(h, n)
        &&& sp_exts(x.data_record_header.raw_data_record_header.data_information_block.data_information_field_extension).len() <= 11
    } by {
        lemma_header_size(x.data_record_header.raw_data_record_header, d);
        let h = sp_header_len(d);
        let n = x.raw_bytes@.len() as int;
        assert(d.subrange(0, h) =~= x.raw_bytes@.subrange(0, h));
        assert(d.subrange(h, n) =~= x.raw_bytes@.subrange(h, n));
    }
}
pub proof fn lemma_record_fields(x: DataRecord<'_>)
    ensures forall|d: Seq<u8>| #[trigger] sp_record(x, d) ==> {
        let b = x.data_record_header.raw_data_record_header.data_information_block;
        sp_difes(d) == sp_exts(b.data_information_field_extension) && d[0] == b.data_information_field.data
    },
{}
