//@need m_bus_application_layer::data_information::DataInformationBlock
//@need m_bus_application_layer::data_information::DataInformationField
//@need m_bus_application_layer::data_information::DataInformationFieldExtensions
//@need m_bus_application_layer::data_information::DataInformation
//@need m_bus_application_layer::data_information::DataFieldCoding
//@need m_bus_application_layer::data_information::SpecialFunctions
//@need m_bus_application_layer::data_information::FunctionField
use crate::m_bus_application_layer::data_information::*;

// length of the leading run of bytes whose top bit is set
pub open spec fn sp_run(s: Seq<u8>) -> int
    decreases s.len(),
{
    if s.len() == 0 || s[0] < 128 { 0 } else { 1 + sp_run(s.subrange(1, s.len() as int)) }
}
pub proof fn lemma_run(s: Seq<u8>, n: int)
    requires
        0 <= n <= s.len(),
        forall|j: int| 0 <= j < n ==> (#[trigger] s[j]) >= 128,
        n < s.len() ==> s[n] < 128,
    ensures sp_run(s) == n,
    decreases n,
{
    if n > 0 {
        let t = s.subrange(1, s.len() as int);
        assert(forall|j: int| 0 <= j < n - 1 ==> (#[trigger] t[j]) == s[j + 1]);
        assert(n < s.len() ==> t[n - 1] == s[n]);
        lemma_run(t, n - 1);
    }
}

// extension bytes of a header: up to and including the first without extension bit
pub open spec fn sp_dif_ok(d: Seq<u8>) -> bool {
    d.len() > 0 && (d[0] >= 128 ==> {
        let n = sp_run(d.subrange(1, d.len() as int)) + 1;
        n <= 11 && n <= d.len() - 1
    })
}
pub open spec fn sp_dif_len(d: Seq<u8>) -> int {
    if d[0] >= 128 { sp_run(d.subrange(1, d.len() as int)) + 2 } else { 1 }
}

pub open spec fn sp_coding(dif: u8) -> DataFieldCoding {
    if dif % 16 == 0 { DataFieldCoding::NoData }
    else if dif % 16 == 1 { DataFieldCoding::Integer8Bit }
    else if dif % 16 == 2 { DataFieldCoding::Integer16Bit }
    else if dif % 16 == 3 { DataFieldCoding::Integer24Bit }
    else if dif % 16 == 4 { DataFieldCoding::Integer32Bit }
    else if dif % 16 == 5 { DataFieldCoding::Real32Bit }
    else if dif % 16 == 6 { DataFieldCoding::Integer48Bit }
    else if dif % 16 == 7 { DataFieldCoding::Integer64Bit }
    else if dif % 16 == 8 { DataFieldCoding::SelectionForReadout }
    else if dif % 16 == 9 { DataFieldCoding::BCD2Digit }
    else if dif % 16 == 10 { DataFieldCoding::BCD4Digit }
    else if dif % 16 == 11 { DataFieldCoding::BCD6Digit }
    else if dif % 16 == 12 { DataFieldCoding::BCD8Digit }
    else if dif % 16 == 13 { DataFieldCoding::VariableLength }
    else if dif % 16 == 14 { DataFieldCoding::BCDDigit12 }
    else { DataFieldCoding::SpecialFunctions(sp_special(dif)) }
}
pub open spec fn sp_special(dif: u8) -> SpecialFunctions {
    if dif == 0x0F { SpecialFunctions::ManufacturerSpecific }
    else if dif == 0x1F { SpecialFunctions::MoreRecordsFollow }
    else if dif == 0x2F { SpecialFunctions::IdleFiller }
    else if dif == 0x7F { SpecialFunctions::GlobalReadoutRequest }
    else { SpecialFunctions::Reserved }
}
pub open spec fn sp_function_field(dif: u8) -> FunctionField {
    if (dif / 16) % 4 == 0 { FunctionField::InstantaneousValue }
    else if (dif / 16) % 4 == 1 { FunctionField::MaximumValue }
    else if (dif / 16) % 4 == 2 { FunctionField::MinimumValue }
    else { FunctionField::ValueDuringErrorState }
}

// fields collected over the extensions, least significant first
pub open spec fn sp_storage(dif: u8, e: Seq<u8>, n: int) -> int
    decreases n,
{
    if n <= 0 { ((dif / 64) % 2) as int }
    else { sp_storage(dif, e, n - 1) + (((e[n - 1] % 16) as u64) << ((4 * (n - 1) + 1) as u64)) }
}
pub open spec fn sp_tariff(e: Seq<u8>, n: int) -> int
    decreases n,
{
    if n <= 0 { 0 } else { sp_tariff(e, n - 1) + ((((e[n - 1] / 16) % 4) as u64) << ((2 * (n - 1)) as u64)) }
}
pub open spec fn sp_subunit(e: Seq<u8>, n: int) -> int
    decreases n,
{
    if n <= 0 { 0 } else { sp_subunit(e, n - 1) + ((((e[n - 1] / 64) % 2) as u64) << ((n - 1) as u64)) }
}
pub proof fn lemma_or_field(acc: u64, x: u64, w: u64, sh: u64)
    requires sh <= 44, w <= 4, acc < (1u64 << sh), x < (1u64 << w),
    ensures
        acc | (x << sh) == acc + (x << sh),
        acc + (x << sh) < (1u64 << ((sh + w) as u64)),
        (1u64 << ((sh + w) as u64)) <= 0x1000000000000,
{
    assert(acc | (x << sh) == add(acc, (x << sh)) && add(acc, (x << sh)) < (1u64 << add(sh, w)) && (x << sh) < 0x1000000000000
        && acc < 0x1000000000000 && (1u64 << add(sh, w)) <= 0x1000000000000) by (bit_vector)
        requires sh <= 44, w <= 4, acc < (1u64 << sh), x < (1u64 << w);
}

pub open spec fn sp_exts(o: Option<DataInformationFieldExtensions<'_>>) -> Seq<u8> {
    match o { Some(x) => x.0@, None => Seq::empty() }
}
pub open spec fn sp_dib(b: DataInformationBlock<'_>, d: Seq<u8>) -> bool {
    sp_dif_ok(d) && b.data_information_field.data == d[0]
        && (b.data_information_field_extension is Some <==> d[0] >= 128)
        && sp_exts(b.data_information_field_extension) =~= d.subrange(1, sp_dif_len(d))
}
// all but the coding and the size
pub open spec fn sp_di_fields(i: DataInformation, b: DataInformationBlock<'_>) -> bool {
    let dif = b.data_information_field.data;
    let e = sp_exts(b.data_information_field_extension);
    let n = e.len() as int;
    i.storage_number == sp_storage(dif, e, n)
        && i.tariff == sp_tariff(e, n)
        && i.device == sp_subunit(e, n)
        && i.function_field == sp_function_field(dif)
}
pub open spec fn sp_di(i: DataInformation, b: DataInformationBlock<'_>) -> bool {
    let dif = b.data_information_field.data;
    let e = sp_exts(b.data_information_field_extension);
    let n = e.len() as int;
    i.storage_number == sp_storage(dif, e, n)
        && i.tariff == sp_tariff(e, n)
        && i.device == sp_subunit(e, n)
        && i.function_field == sp_function_field(dif)
        && i.data_field_coding == sp_coding(dif)
        && i.size == n + 1
}
