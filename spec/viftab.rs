//@need m_bus_application_layer::value_information::ValueInformation
//@need m_bus_application_layer::value_information::ValueInformationBlock
//@need m_bus_application_layer::value_information::ValueInformationFieldExtension
//@need m_bus_application_layer::value_information::ValueLabel
//@need m_bus_application_layer::value_information::Unit
//@need m_bus_application_layer::value_information::UnitName
//@need m_bus_application_layer::value_information::ValueInformationCoding
use crate::m_bus_application_layer::value_information::*;

// a table entry: up to two labels and two units
pub struct VEntry { pub nl: int, pub l0: ValueLabel, pub l1: ValueLabel, pub nu: int, pub u0: Unit, pub u1: Unit, pub scale: int, pub offset: int }
pub open spec fn sp_no_unit() -> Unit { Unit { name: UnitName::Reserved, exponent: 0 } }
pub open spec fn sp_entry(nl: int, l0: ValueLabel, l1: ValueLabel, nu: int, u0: Unit, u1: Unit, scale: int, offset: int) -> Option<VEntry> {
    Some(VEntry { nl, l0, l1, nu, u0, u1, scale, offset })
}
pub struct VState { pub labels: Seq<ValueLabel>, pub units: Seq<Unit>, pub scale: int, pub offset: int, pub ext: bool }
pub open spec fn sp_add<T>(s: Seq<T>, n: int, a: T, b: T) -> Seq<T> {
    if n == 0 { s } else if n == 1 { s.push(a) } else { s.push(a).push(b) }
}
pub open spec fn sp_apply(s: VState, e: VEntry) -> VState {
    VState {
        labels: sp_add(s.labels, e.nl, e.l0, e.l1), units: sp_add(s.units, e.nu, e.u0, e.u1),
        scale: s.scale + e.scale, offset: s.offset + e.offset, ext: false,
    }
}
// one combinable extension byte
pub open spec fn sp_step(s: VState, b: u8) -> VState {
    let c = (b & 0x7F) as int;
    if b == 0xFC { VState { ext: true, ..s } }
    else if s.ext { sp_apply(s, sp_tab_ext(c)->Some_0) }
    else { sp_apply(s, sp_tab_orth(c)->Some_0) }
}
pub open spec fn sp_fold(s: VState, v: Seq<ValueInformationFieldExtension>, n: int) -> VState
    decreases n,
{
    if n <= 0 { s } else { sp_step(sp_fold(s, v, n - 1), v[n - 1].data) }
}
pub open spec fn sp_start() -> VState { VState { labels: Seq::empty(), units: Seq::empty(), scale: 0, offset: 0, ext: false } }
// the entry of the VIF itself and how many extension bytes belong to it
pub open spec fn sp_true_vif(vif: u8, x: Seq<ValueInformationFieldExtension>) -> (Option<VEntry>, int) {
    if vif == 0x7C || vif == 0xFC { (sp_entry(1, ValueLabel::PlainText, ValueLabel::Reserved, 0, sp_no_unit(), sp_no_unit(), 0, 0), 0) }
    else if vif & 0x7F == 0x7E || vif & 0x7F == 0x7F { (sp_entry(1, ValueLabel::ManufacturerSpecific, ValueLabel::Reserved, 0, sp_no_unit(), sp_no_unit(), 0, 0), x.len() as int) }
    else if vif == 0x7D || vif == 0xFD {
        if x.len() == 0 { (None, 0) }
        else if x[0].data & 0x7F == 0x7D {
            if x.len() > 1 { (sp_tab_fdfd((x[1].data & 0x7F) as int), 2) } else { (sp_tab_fdfd(1), 1) }
        } else { (sp_tab_fd((x[0].data & 0x7F) as int), 1) }
    }
    else if vif == 0xFB { if x.len() == 0 { (None, 0) } else { (sp_tab_fb((x[0].data & 0x7F) as int), 1) } }
    else { (sp_tab_prim((vif & 0x7F) as int), 0) }
}
pub open spec fn sp_vi(vif: u8, x: Seq<ValueInformationFieldExtension>) -> Option<VState> {
    let (e, k) = sp_true_vif(vif, x);
    match e {
        None => None,
        Some(e) => {
            let t = x.subrange(k, x.len() as int);
            Some(sp_fold(sp_apply(sp_start(), e), t, t.len() as int))
        }
    }
}
pub open spec fn sp_vi_is(r: ValueInformation, s: VState) -> bool {
    r.labels@ == s.labels && r.units@ == s.units && r.decimal_scale_exponent == s.scale && r.decimal_offset_exponent == s.offset
}
pub open spec fn sp_of(labels: Seq<ValueLabel>, units: Seq<Unit>, scale: int, offset: int) -> VState { VState { labels, units, scale, offset, ext: false } }
pub open spec fn sp_is(s: VState, labels: Seq<ValueLabel>, units: Seq<Unit>, scale: int, offset: int) -> bool {
    s.labels == labels && s.units == units && s.scale == scale && s.offset == offset
}
pub open spec fn sp_coding_of(b: u8) -> ValueInformationCoding {
    if b == 0x7C || b == 0xFC { ValueInformationCoding::PlainText }
    else if b == 0x7D || b == 0xFD { ValueInformationCoding::MainVIFExtension }
    else if b == 0xFB { ValueInformationCoding::AlternateVIFExtension }
    else if b == 0x7E || b == 0xFE || b == 0x7F || b == 0xFF { ValueInformationCoding::ManufacturerSpecific }
    else { ValueInformationCoding::Primary }
}
// generated from vif_tables.txt by tools/tables/gen.py
pub open spec fn sp_tab_prim(c: int) -> Option<VEntry> {
    if 0x00 <= c <= 0x07 { sp_entry(1, ValueLabel::Energy, ValueLabel::Reserved, 2, Unit { name: UnitName::Watt, exponent: 1i32 }, Unit { name: UnitName::Hour, exponent: 1i32 }, c - 0 - 3, 0) } else
    if 0x08 <= c <= 0x0F { sp_entry(1, ValueLabel::Energy, ValueLabel::Reserved, 1, Unit { name: UnitName::Joul, exponent: 1i32 }, sp_no_unit(), c - 8, 0) } else
    if 0x10 <= c <= 0x17 { sp_entry(1, ValueLabel::Volume, ValueLabel::Reserved, 1, Unit { name: UnitName::Meter, exponent: 3i32 }, sp_no_unit(), c - 16 - 6, 0) } else
    if 0x18 <= c <= 0x1F { sp_entry(1, ValueLabel::Mass, ValueLabel::Reserved, 1, Unit { name: UnitName::Kilogram, exponent: 1i32 }, sp_no_unit(), c - 24 - 3, 0) } else
    if c == 0x20 { sp_entry(1, ValueLabel::OnTime, ValueLabel::Reserved, 1, Unit { name: UnitName::Second, exponent: 1i32 }, sp_no_unit(), 0, 0) } else
    if c == 0x21 { sp_entry(1, ValueLabel::OnTime, ValueLabel::Reserved, 1, Unit { name: UnitName::Minute, exponent: 1i32 }, sp_no_unit(), 0, 0) } else
    if c == 0x22 { sp_entry(1, ValueLabel::OnTime, ValueLabel::Reserved, 1, Unit { name: UnitName::Hour, exponent: 1i32 }, sp_no_unit(), 0, 0) } else
    if c == 0x23 { sp_entry(1, ValueLabel::OnTime, ValueLabel::Reserved, 1, Unit { name: UnitName::Day, exponent: 1i32 }, sp_no_unit(), 0, 0) } else
    if c == 0x24 { sp_entry(1, ValueLabel::OperatingTime, ValueLabel::Reserved, 1, Unit { name: UnitName::Second, exponent: 1i32 }, sp_no_unit(), 0, 0) } else
    if c == 0x25 { sp_entry(1, ValueLabel::OperatingTime, ValueLabel::Reserved, 1, Unit { name: UnitName::Minute, exponent: 1i32 }, sp_no_unit(), 0, 0) } else
    if c == 0x26 { sp_entry(1, ValueLabel::OperatingTime, ValueLabel::Reserved, 1, Unit { name: UnitName::Hour, exponent: 1i32 }, sp_no_unit(), 0, 0) } else
    if c == 0x27 { sp_entry(1, ValueLabel::OperatingTime, ValueLabel::Reserved, 1, Unit { name: UnitName::Day, exponent: 1i32 }, sp_no_unit(), 0, 0) } else
    if 0x28 <= c <= 0x2F { sp_entry(1, ValueLabel::Power, ValueLabel::Reserved, 1, Unit { name: UnitName::Watt, exponent: 1i32 }, sp_no_unit(), c - 40 - 3, 0) } else
    if 0x30 <= c <= 0x37 { sp_entry(1, ValueLabel::Power, ValueLabel::Reserved, 2, Unit { name: UnitName::Joul, exponent: 1i32 }, Unit { name: UnitName::Hour, exponent: (-1) as i32 }, c - 48, 0) } else
    if 0x38 <= c <= 0x3F { sp_entry(1, ValueLabel::VolumeFlow, ValueLabel::Reserved, 2, Unit { name: UnitName::Meter, exponent: 3i32 }, Unit { name: UnitName::Hour, exponent: (-1) as i32 }, c - 56 - 6, 0) } else
    if 0x40 <= c <= 0x47 { sp_entry(1, ValueLabel::VolumeFlow, ValueLabel::Reserved, 2, Unit { name: UnitName::Meter, exponent: 3i32 }, Unit { name: UnitName::Minute, exponent: (-1) as i32 }, c - 64 - 7, 0) } else
    if 0x48 <= c <= 0x4F { sp_entry(1, ValueLabel::VolumeFlow, ValueLabel::Reserved, 2, Unit { name: UnitName::Meter, exponent: 3i32 }, Unit { name: UnitName::Second, exponent: (-1) as i32 }, c - 72 - 9, 0) } else
    if 0x50 <= c <= 0x57 { sp_entry(1, ValueLabel::MassFlow, ValueLabel::Reserved, 2, Unit { name: UnitName::Kilogram, exponent: 1i32 }, Unit { name: UnitName::Hour, exponent: (-1) as i32 }, c - 80 - 3, 0) } else
    if 0x58 <= c <= 0x5B { sp_entry(1, ValueLabel::FlowTemperature, ValueLabel::Reserved, 1, Unit { name: UnitName::Celsius, exponent: 1i32 }, sp_no_unit(), c - 88 - 3, 0) } else
    if 0x5C <= c <= 0x5F { sp_entry(1, ValueLabel::ReturnTemperature, ValueLabel::Reserved, 1, Unit { name: UnitName::Celsius, exponent: 1i32 }, sp_no_unit(), c - 92 - 3, 0) } else
    if 0x60 <= c <= 0x63 { sp_entry(1, ValueLabel::TemperatureDifference, ValueLabel::Reserved, 1, Unit { name: UnitName::Kelvin, exponent: 1i32 }, sp_no_unit(), c - 96 - 3, 0) } else
    if 0x64 <= c <= 0x67 { sp_entry(1, ValueLabel::ExternalTemperature, ValueLabel::Reserved, 1, Unit { name: UnitName::Celsius, exponent: 1i32 }, sp_no_unit(), c - 100 - 3, 0) } else
    if 0x68 <= c <= 0x6B { sp_entry(1, ValueLabel::Pressure, ValueLabel::Reserved, 1, Unit { name: UnitName::Bar, exponent: 1i32 }, sp_no_unit(), c - 104 - 3, 0) } else
    if c == 0x6C { sp_entry(1, ValueLabel::Date, ValueLabel::Reserved, 0, sp_no_unit(), sp_no_unit(), 0, 0) } else
    if c == 0x6D { sp_entry(1, ValueLabel::DateTime, ValueLabel::Reserved, 0, sp_no_unit(), sp_no_unit(), 0, 0) } else
    if c == 0x6E { sp_entry(1, ValueLabel::DimensionlessHCA, ValueLabel::Reserved, 0, sp_no_unit(), sp_no_unit(), 0, 0) } else
    if 0x70 <= c <= 0x73 { sp_entry(1, ValueLabel::AveragingDuration, ValueLabel::Reserved, 0, sp_no_unit(), sp_no_unit(), 0, 0) } else
    if 0x74 <= c <= 0x77 { sp_entry(1, ValueLabel::ActualityDuration, ValueLabel::Reserved, 0, sp_no_unit(), sp_no_unit(), 0, 0) } else
    if c == 0x78 { sp_entry(1, ValueLabel::FabricationNumber, ValueLabel::Reserved, 0, sp_no_unit(), sp_no_unit(), 0, 0) } else
    if c == 0x79 { sp_entry(1, ValueLabel::EnhancedIdentification, ValueLabel::Reserved, 0, sp_no_unit(), sp_no_unit(), 0, 0) } else
    if c == 0x7A { sp_entry(1, ValueLabel::Address, ValueLabel::Reserved, 0, sp_no_unit(), sp_no_unit(), 0, 0) } else
    if c == 0x7B { sp_entry(0, ValueLabel::Reserved, ValueLabel::Reserved, 0, sp_no_unit(), sp_no_unit(), 0, 0) } else
    { None }
}
pub open spec fn sp_tab_fd(c: int) -> Option<VEntry> {
    if 0x00 <= c <= 0x03 { sp_entry(1, ValueLabel::Credit, ValueLabel::Reserved, 1, Unit { name: UnitName::LocalMoneyCurrency, exponent: 1i32 }, sp_no_unit(), c - 0 - 3, 0) } else
    if 0x04 <= c <= 0x07 { sp_entry(1, ValueLabel::Debit, ValueLabel::Reserved, 1, Unit { name: UnitName::LocalMoneyCurrency, exponent: 1i32 }, sp_no_unit(), c - 4 - 3, 0) } else
    if c == 0x08 { sp_entry(1, ValueLabel::UniqueMessageIdentificationOrAccessNumber, ValueLabel::Reserved, 0, sp_no_unit(), sp_no_unit(), 0, 0) } else
    if c == 0x09 { sp_entry(1, ValueLabel::DeviceType, ValueLabel::Reserved, 0, sp_no_unit(), sp_no_unit(), 0, 0) } else
    if c == 0x0A { sp_entry(1, ValueLabel::Manufacturer, ValueLabel::Reserved, 0, sp_no_unit(), sp_no_unit(), 0, 0) } else
    if c == 0x0B { sp_entry(1, ValueLabel::ParameterSetIdentification, ValueLabel::Reserved, 0, sp_no_unit(), sp_no_unit(), 0, 0) } else
    if c == 0x0C { sp_entry(1, ValueLabel::ModelOrVersion, ValueLabel::Reserved, 0, sp_no_unit(), sp_no_unit(), 0, 0) } else
    if c == 0x0D { sp_entry(1, ValueLabel::HardwareVersion, ValueLabel::Reserved, 0, sp_no_unit(), sp_no_unit(), 0, 0) } else
    if c == 0x0E { sp_entry(1, ValueLabel::MetrologyFirmwareVersion, ValueLabel::Reserved, 0, sp_no_unit(), sp_no_unit(), 0, 0) } else
    if c == 0x0F { sp_entry(1, ValueLabel::OtherSoftwareVersion, ValueLabel::Reserved, 0, sp_no_unit(), sp_no_unit(), 0, 0) } else
    if c == 0x10 { sp_entry(1, ValueLabel::CustomerLocation, ValueLabel::Reserved, 0, sp_no_unit(), sp_no_unit(), 0, 0) } else
    if c == 0x11 { sp_entry(1, ValueLabel::Customer, ValueLabel::Reserved, 0, sp_no_unit(), sp_no_unit(), 0, 0) } else
    if c == 0x12 { sp_entry(1, ValueLabel::AccessCodeUser, ValueLabel::Reserved, 0, sp_no_unit(), sp_no_unit(), 0, 0) } else
    if c == 0x13 { sp_entry(1, ValueLabel::AccessCodeOperator, ValueLabel::Reserved, 0, sp_no_unit(), sp_no_unit(), 0, 0) } else
    if c == 0x14 { sp_entry(1, ValueLabel::AccessCodeSystemOperator, ValueLabel::Reserved, 0, sp_no_unit(), sp_no_unit(), 0, 0) } else
    if c == 0x15 { sp_entry(1, ValueLabel::AccessCodeDeveloper, ValueLabel::Reserved, 0, sp_no_unit(), sp_no_unit(), 0, 0) } else
    if c == 0x16 { sp_entry(1, ValueLabel::Password, ValueLabel::Reserved, 0, sp_no_unit(), sp_no_unit(), 0, 0) } else
    if c == 0x17 { sp_entry(1, ValueLabel::ErrorFlags, ValueLabel::Reserved, 0, sp_no_unit(), sp_no_unit(), 0, 0) } else
    if c == 0x18 { sp_entry(1, ValueLabel::ErrorMask, ValueLabel::Reserved, 0, sp_no_unit(), sp_no_unit(), 0, 0) } else
    if c == 0x19 { sp_entry(1, ValueLabel::SecurityKey, ValueLabel::Reserved, 0, sp_no_unit(), sp_no_unit(), 0, 0) } else
    if c == 0x1A { sp_entry(2, ValueLabel::DigitalOutput, ValueLabel::Binary, 0, sp_no_unit(), sp_no_unit(), 0, 0) } else
    if c == 0x1B { sp_entry(2, ValueLabel::DigitalInput, ValueLabel::Binary, 0, sp_no_unit(), sp_no_unit(), 0, 0) } else
    if c == 0x1C { sp_entry(1, ValueLabel::BaudRate, ValueLabel::Reserved, 2, Unit { name: UnitName::Symbol, exponent: 1i32 }, Unit { name: UnitName::Second, exponent: (-1) as i32 }, 0, 0) } else
    if c == 0x1D { sp_entry(1, ValueLabel::ResponseDelayTime, ValueLabel::Reserved, 1, Unit { name: UnitName::BitTime, exponent: 1i32 }, sp_no_unit(), 0, 0) } else
    if c == 0x1E { sp_entry(1, ValueLabel::Retry, ValueLabel::Reserved, 0, sp_no_unit(), sp_no_unit(), 0, 0) } else
    if c == 0x1F { sp_entry(1, ValueLabel::RemoteControl, ValueLabel::Reserved, 0, sp_no_unit(), sp_no_unit(), 0, 0) } else
    if c == 0x20 { sp_entry(1, ValueLabel::FirstStorageForCycleStorage, ValueLabel::Reserved, 0, sp_no_unit(), sp_no_unit(), 0, 0) } else
    if c == 0x21 { sp_entry(1, ValueLabel::LastStorageForCycleStorage, ValueLabel::Reserved, 0, sp_no_unit(), sp_no_unit(), 0, 0) } else
    if c == 0x22 { sp_entry(1, ValueLabel::SizeOfStorageBlock, ValueLabel::Reserved, 0, sp_no_unit(), sp_no_unit(), 0, 0) } else
    if c == 0x23 { sp_entry(1, ValueLabel::DescriptionOfTariffAndSubunit, ValueLabel::Reserved, 0, sp_no_unit(), sp_no_unit(), 0, 0) } else
    if c == 0x24 { sp_entry(1, ValueLabel::StorageInterval, ValueLabel::Reserved, 1, Unit { name: UnitName::Second, exponent: 1i32 }, sp_no_unit(), 0, 0) } else
    if c == 0x25 { sp_entry(1, ValueLabel::StorageInterval, ValueLabel::Reserved, 1, Unit { name: UnitName::Minute, exponent: 1i32 }, sp_no_unit(), 0, 0) } else
    if c == 0x26 { sp_entry(1, ValueLabel::StorageInterval, ValueLabel::Reserved, 1, Unit { name: UnitName::Hour, exponent: 1i32 }, sp_no_unit(), 0, 0) } else
    if c == 0x27 { sp_entry(1, ValueLabel::StorageInterval, ValueLabel::Reserved, 1, Unit { name: UnitName::Day, exponent: 1i32 }, sp_no_unit(), 0, 0) } else
    if c == 0x28 { sp_entry(1, ValueLabel::StorageInterval, ValueLabel::Reserved, 1, Unit { name: UnitName::Month, exponent: 1i32 }, sp_no_unit(), 0, 0) } else
    if c == 0x29 { sp_entry(1, ValueLabel::StorageInterval, ValueLabel::Reserved, 1, Unit { name: UnitName::Year, exponent: 1i32 }, sp_no_unit(), 0, 0) } else
    if c == 0x30 { sp_entry(1, ValueLabel::DimensionlessHCA, ValueLabel::Reserved, 0, sp_no_unit(), sp_no_unit(), 0, 0) } else
    if c == 0x31 { sp_entry(1, ValueLabel::DataContainerForWmbusProtocol, ValueLabel::Reserved, 0, sp_no_unit(), sp_no_unit(), 0, 0) } else
    if c == 0x32 { sp_entry(1, ValueLabel::PeriodOfNormalDataTransmission, ValueLabel::Reserved, 1, Unit { name: UnitName::Second, exponent: 1i32 }, sp_no_unit(), 0, 0) } else
    if c == 0x33 { sp_entry(1, ValueLabel::PeriodOfNormalDataTransmission, ValueLabel::Reserved, 1, Unit { name: UnitName::Minute, exponent: 1i32 }, sp_no_unit(), 0, 0) } else
    if c == 0x34 { sp_entry(1, ValueLabel::PeriodOfNormalDataTransmission, ValueLabel::Reserved, 1, Unit { name: UnitName::Hour, exponent: 1i32 }, sp_no_unit(), 0, 0) } else
    if c == 0x35 { sp_entry(1, ValueLabel::PeriodOfNormalDataTransmission, ValueLabel::Reserved, 1, Unit { name: UnitName::Day, exponent: 1i32 }, sp_no_unit(), 0, 0) } else
    if c == 0x3A { sp_entry(1, ValueLabel::Dimensionless, ValueLabel::Reserved, 0, sp_no_unit(), sp_no_unit(), 0, 0) } else
    if 0x40 <= c <= 0x4F { sp_entry(1, ValueLabel::Voltage, ValueLabel::Reserved, 1, Unit { name: UnitName::Volt, exponent: 1i32 }, sp_no_unit(), c - 64 - 9, 0) } else
    if 0x50 <= c <= 0x5F { sp_entry(1, ValueLabel::Current, ValueLabel::Reserved, 1, Unit { name: UnitName::Ampere, exponent: 1i32 }, sp_no_unit(), c - 80 - 12, 0) } else
    if c == 0x60 { sp_entry(1, ValueLabel::ResetCounter, ValueLabel::Reserved, 0, sp_no_unit(), sp_no_unit(), 0, 0) } else
    if c == 0x61 { sp_entry(1, ValueLabel::CumulationCounter, ValueLabel::Reserved, 0, sp_no_unit(), sp_no_unit(), 0, 0) } else
    if c == 0x62 { sp_entry(1, ValueLabel::ControlSignal, ValueLabel::Reserved, 0, sp_no_unit(), sp_no_unit(), 0, 0) } else
    if c == 0x63 { sp_entry(1, ValueLabel::DayOfWeek, ValueLabel::Reserved, 0, sp_no_unit(), sp_no_unit(), 0, 0) } else
    if c == 0x64 { sp_entry(1, ValueLabel::WeekNumber, ValueLabel::Reserved, 0, sp_no_unit(), sp_no_unit(), 0, 0) } else
    if c == 0x65 { sp_entry(1, ValueLabel::TimePointOfChangeOfTariff, ValueLabel::Reserved, 0, sp_no_unit(), sp_no_unit(), 0, 0) } else
    if c == 0x66 { sp_entry(1, ValueLabel::StateOfParameterActivation, ValueLabel::Reserved, 0, sp_no_unit(), sp_no_unit(), 0, 0) } else
    if c == 0x67 { sp_entry(1, ValueLabel::SpecialSupplierInformation, ValueLabel::Reserved, 0, sp_no_unit(), sp_no_unit(), 0, 0) } else
    if c == 0x68 { sp_entry(1, ValueLabel::DurationSinceLastCumulation, ValueLabel::Reserved, 1, Unit { name: UnitName::Hour, exponent: 1i32 }, sp_no_unit(), 0, 0) } else
    if c == 0x69 { sp_entry(1, ValueLabel::DurationSinceLastCumulation, ValueLabel::Reserved, 1, Unit { name: UnitName::Day, exponent: 1i32 }, sp_no_unit(), 0, 0) } else
    if c == 0x6A { sp_entry(1, ValueLabel::DurationSinceLastCumulation, ValueLabel::Reserved, 1, Unit { name: UnitName::Month, exponent: 1i32 }, sp_no_unit(), 0, 0) } else
    if c == 0x6B { sp_entry(1, ValueLabel::DurationSinceLastCumulation, ValueLabel::Reserved, 1, Unit { name: UnitName::Year, exponent: 1i32 }, sp_no_unit(), 0, 0) } else
    if c == 0x6C { sp_entry(1, ValueLabel::OperatingTimeBattery, ValueLabel::Reserved, 1, Unit { name: UnitName::Hour, exponent: 1i32 }, sp_no_unit(), 0, 0) } else
    if c == 0x6D { sp_entry(1, ValueLabel::OperatingTimeBattery, ValueLabel::Reserved, 1, Unit { name: UnitName::Day, exponent: 1i32 }, sp_no_unit(), 0, 0) } else
    if c == 0x6E { sp_entry(1, ValueLabel::OperatingTimeBattery, ValueLabel::Reserved, 1, Unit { name: UnitName::Month, exponent: 1i32 }, sp_no_unit(), 0, 0) } else
    if c == 0x6F { sp_entry(1, ValueLabel::OperatingTimeBattery, ValueLabel::Reserved, 1, Unit { name: UnitName::Year, exponent: 1i32 }, sp_no_unit(), 0, 0) } else
    if c == 0x70 { sp_entry(1, ValueLabel::DateAndTimeOfBatteryChange, ValueLabel::Reserved, 1, Unit { name: UnitName::Second, exponent: 1i32 }, sp_no_unit(), 0, 0) } else
    if c == 0x71 { sp_entry(1, ValueLabel::RFPowerLevel, ValueLabel::Reserved, 1, Unit { name: UnitName::DecibelMilliWatt, exponent: 1i32 }, sp_no_unit(), 0, 0) } else
    if c == 0x72 { sp_entry(1, ValueLabel::DaylightSavingBeginningEndingDeviation, ValueLabel::Reserved, 0, sp_no_unit(), sp_no_unit(), 0, 0) } else
    if c == 0x73 { sp_entry(1, ValueLabel::ListeningWindowManagementData, ValueLabel::Reserved, 0, sp_no_unit(), sp_no_unit(), 0, 0) } else
    if c == 0x74 { sp_entry(1, ValueLabel::RemainingBatteryLifeTime, ValueLabel::Reserved, 0, sp_no_unit(), sp_no_unit(), 0, 0) } else
    if c == 0x75 { sp_entry(1, ValueLabel::NumberOfTimesTheMeterWasStopped, ValueLabel::Reserved, 0, sp_no_unit(), sp_no_unit(), 0, 0) } else
    if c == 0x76 { sp_entry(1, ValueLabel::DataContainerForManufacturerSpecificProtocol, ValueLabel::Reserved, 0, sp_no_unit(), sp_no_unit(), 0, 0) } else
    { sp_entry(1, ValueLabel::Reserved, ValueLabel::Reserved, 0, sp_no_unit(), sp_no_unit(), 0, 0) }
}
pub open spec fn sp_tab_fdfd(c: int) -> Option<VEntry> {
    if c == 0x00 { sp_entry(1, ValueLabel::CurrentlySelectedApplication, ValueLabel::Reserved, 0, sp_no_unit(), sp_no_unit(), 0, 0) } else
    if c == 0x02 { sp_entry(1, ValueLabel::RemainingBatteryLifeTime, ValueLabel::Reserved, 1, Unit { name: UnitName::Month, exponent: 1i32 }, sp_no_unit(), 0, 0) } else
    if c == 0x03 { sp_entry(1, ValueLabel::RemainingBatteryLifeTime, ValueLabel::Reserved, 1, Unit { name: UnitName::Year, exponent: 1i32 }, sp_no_unit(), 0, 0) } else
    if c == 0x3E { sp_entry(1, ValueLabel::MoistureLevel, ValueLabel::Reserved, 1, Unit { name: UnitName::Percent, exponent: 1i32 }, sp_no_unit(), 0, 0) } else
    { sp_entry(1, ValueLabel::Reserved, ValueLabel::Reserved, 0, sp_no_unit(), sp_no_unit(), 0, 0) }
}
pub open spec fn sp_tab_fb(c: int) -> Option<VEntry> {
    if 0x00 <= c <= 0x01 { sp_entry(1, ValueLabel::Energy, ValueLabel::Reserved, 2, Unit { name: UnitName::Watt, exponent: 1i32 }, Unit { name: UnitName::Hour, exponent: 1i32 }, c - 0 + 5, 0) } else
    if 0x02 <= c <= 0x03 { sp_entry(1, ValueLabel::ReactiveEnergy, ValueLabel::Reserved, 2, Unit { name: UnitName::ReactiveWatt, exponent: 1i32 }, Unit { name: UnitName::Hour, exponent: 1i32 }, c - 2 + 3, 0) } else
    if 0x04 <= c <= 0x05 { sp_entry(1, ValueLabel::ApparentEnergy, ValueLabel::Reserved, 2, Unit { name: UnitName::ApparentWatt, exponent: 1i32 }, Unit { name: UnitName::Hour, exponent: 1i32 }, c - 4 + 3, 0) } else
    if c == 0x06 { sp_entry(1, ValueLabel::CoefficientOfPerformance, ValueLabel::Reserved, 0, sp_no_unit(), sp_no_unit(), -1, 0) } else
    if 0x08 <= c <= 0x09 { sp_entry(1, ValueLabel::Energy, ValueLabel::Reserved, 1, Unit { name: UnitName::Joul, exponent: 1i32 }, sp_no_unit(), c - 8 + 8, 0) } else
    if 0x0C <= c <= 0x0F { sp_entry(1, ValueLabel::Energy, ValueLabel::Reserved, 1, Unit { name: UnitName::Calorie, exponent: 1i32 }, sp_no_unit(), c - 12 + 5, 0) } else
    if 0x10 <= c <= 0x11 { sp_entry(1, ValueLabel::Volume, ValueLabel::Reserved, 1, Unit { name: UnitName::Meter, exponent: 3i32 }, sp_no_unit(), c - 16 + 2, 0) } else
    if 0x14 <= c <= 0x17 { sp_entry(1, ValueLabel::ReactivePower, ValueLabel::Reserved, 1, Unit { name: UnitName::ReactiveWatt, exponent: 1i32 }, sp_no_unit(), c - 20, 0) } else
    if 0x18 <= c <= 0x19 { sp_entry(1, ValueLabel::Mass, ValueLabel::Reserved, 1, Unit { name: UnitName::Tonne, exponent: 1i32 }, sp_no_unit(), c - 24 + 2, 0) } else
    if 0x1A <= c <= 0x1B { sp_entry(1, ValueLabel::RelativeHumidity, ValueLabel::Reserved, 1, Unit { name: UnitName::Percent, exponent: 1i32 }, sp_no_unit(), c - 26 - 1, 0) } else
    if c == 0x20 { sp_entry(1, ValueLabel::Volume, ValueLabel::Reserved, 1, Unit { name: UnitName::Feet, exponent: 3i32 }, sp_no_unit(), 0, 0) } else
    if c == 0x21 { sp_entry(1, ValueLabel::Volume, ValueLabel::Reserved, 1, Unit { name: UnitName::Feet, exponent: 3i32 }, sp_no_unit(), -1, 0) } else
    if c == 0x23 { sp_entry(1, ValueLabel::PhaseItoU, ValueLabel::Reserved, 1, Unit { name: UnitName::Degree, exponent: 1i32 }, sp_no_unit(), -1, 0) } else
    if 0x28 <= c <= 0x29 { sp_entry(1, ValueLabel::Power, ValueLabel::Reserved, 1, Unit { name: UnitName::Watt, exponent: 1i32 }, sp_no_unit(), c - 40 + 5, 0) } else
    if c == 0x2A { sp_entry(1, ValueLabel::PhaseUtoU, ValueLabel::Reserved, 1, Unit { name: UnitName::Degree, exponent: 1i32 }, sp_no_unit(), -1, 0) } else
    if c == 0x2B { sp_entry(1, ValueLabel::PhaseUtoI, ValueLabel::Reserved, 1, Unit { name: UnitName::Degree, exponent: 1i32 }, sp_no_unit(), -1, 0) } else
    if 0x2C <= c <= 0x2F { sp_entry(1, ValueLabel::Frequency, ValueLabel::Reserved, 1, Unit { name: UnitName::Hertz, exponent: 1i32 }, sp_no_unit(), c - 44 - 3, 0) } else
    if 0x30 <= c <= 0x31 { sp_entry(1, ValueLabel::Power, ValueLabel::Reserved, 2, Unit { name: UnitName::Joul, exponent: 1i32 }, Unit { name: UnitName::Hour, exponent: (-1) as i32 }, c - 48 + 8, 0) } else
    if 0x34 <= c <= 0x37 { sp_entry(1, ValueLabel::ApparentPower, ValueLabel::Reserved, 1, Unit { name: UnitName::ApparentWatt, exponent: 1i32 }, sp_no_unit(), c - 52, 0) } else
    if 0x58 <= c <= 0x5B { sp_entry(1, ValueLabel::FlowTemperature, ValueLabel::Reserved, 1, Unit { name: UnitName::Fahrenheit, exponent: 1i32 }, sp_no_unit(), c - 88 - 3, 0) } else
    if 0x5C <= c <= 0x5F { sp_entry(1, ValueLabel::ReturnTemperature, ValueLabel::Reserved, 1, Unit { name: UnitName::Fahrenheit, exponent: 1i32 }, sp_no_unit(), c - 92 - 3, 0) } else
    if 0x60 <= c <= 0x63 { sp_entry(1, ValueLabel::TemperatureDifference, ValueLabel::Reserved, 1, Unit { name: UnitName::Fahrenheit, exponent: 1i32 }, sp_no_unit(), c - 96 - 3, 0) } else
    if 0x64 <= c <= 0x67 { sp_entry(1, ValueLabel::ExternalTemperature, ValueLabel::Reserved, 1, Unit { name: UnitName::Fahrenheit, exponent: 1i32 }, sp_no_unit(), c - 100 - 3, 0) } else
    if c == 0x68 { sp_entry(1, ValueLabel::ResultingRatingFactor, ValueLabel::Reserved, 1, Unit { name: UnitName::HCAUnit, exponent: 1i32 }, sp_no_unit(), 0, 0) } else
    if c == 0x69 { sp_entry(1, ValueLabel::ThermalOutputRatingFactor, ValueLabel::Reserved, 1, Unit { name: UnitName::HCAUnit, exponent: 1i32 }, sp_no_unit(), 0, 0) } else
    if c == 0x6A { sp_entry(1, ValueLabel::ThermalCouplingRatingFactorOverall, ValueLabel::Reserved, 1, Unit { name: UnitName::HCAUnit, exponent: 1i32 }, sp_no_unit(), 0, 0) } else
    if c == 0x6B { sp_entry(1, ValueLabel::ThermalCouplingRatingRoomSide, ValueLabel::Reserved, 1, Unit { name: UnitName::HCAUnit, exponent: 1i32 }, sp_no_unit(), 0, 0) } else
    if c == 0x6C { sp_entry(1, ValueLabel::ThermalCouplingRatingFactorHeatingSide, ValueLabel::Reserved, 1, Unit { name: UnitName::HCAUnit, exponent: 1i32 }, sp_no_unit(), 0, 0) } else
    if c == 0x6D { sp_entry(1, ValueLabel::LowTemperatureRatingFactor, ValueLabel::Reserved, 1, Unit { name: UnitName::HCAUnit, exponent: 1i32 }, sp_no_unit(), 0, 0) } else
    if c == 0x6E { sp_entry(1, ValueLabel::DisplayOutputScalingFactor, ValueLabel::Reserved, 1, Unit { name: UnitName::HCAUnit, exponent: 1i32 }, sp_no_unit(), 0, 0) } else
    if 0x70 <= c <= 0x73 { sp_entry(1, ValueLabel::ColdWarmTemperatureLimit, ValueLabel::Reserved, 1, Unit { name: UnitName::Fahrenheit, exponent: 1i32 }, sp_no_unit(), c - 112 - 3, 0) } else
    if 0x74 <= c <= 0x77 { sp_entry(1, ValueLabel::ColdWarmTemperatureLimit, ValueLabel::Reserved, 1, Unit { name: UnitName::Celsius, exponent: 1i32 }, sp_no_unit(), c - 116 - 3, 0) } else
    if 0x78 <= c <= 0x7F { sp_entry(1, ValueLabel::CumulativeMaximumOfActivePower, ValueLabel::Reserved, 1, Unit { name: UnitName::Watt, exponent: 1i32 }, sp_no_unit(), c - 120 - 3, 0) } else
    { sp_entry(1, ValueLabel::Reserved, ValueLabel::Reserved, 0, sp_no_unit(), sp_no_unit(), 0, 0) }
}
pub open spec fn sp_tab_orth(c: int) -> Option<VEntry> {
    if 0x00 <= c <= 0x0F { sp_entry(1, ValueLabel::ReservedForObjectActions, ValueLabel::Reserved, 0, sp_no_unit(), sp_no_unit(), 0, 0) } else
    if c == 0x12 { sp_entry(1, ValueLabel::Averaged, ValueLabel::Reserved, 0, sp_no_unit(), sp_no_unit(), 0, 0) } else
    if c == 0x13 { sp_entry(1, ValueLabel::InverseCompactProfile, ValueLabel::Reserved, 0, sp_no_unit(), sp_no_unit(), 0, 0) } else
    if c == 0x14 { sp_entry(1, ValueLabel::RelativeDeviation, ValueLabel::Reserved, 0, sp_no_unit(), sp_no_unit(), 0, 0) } else
    if 0x15 <= c <= 0x1C { sp_entry(1, ValueLabel::RecordErrorCodes, ValueLabel::Reserved, 0, sp_no_unit(), sp_no_unit(), 0, 0) } else
    if c == 0x1D { sp_entry(1, ValueLabel::StandardConformDataContent, ValueLabel::Reserved, 0, sp_no_unit(), sp_no_unit(), 0, 0) } else
    if c == 0x1E { sp_entry(1, ValueLabel::CompactProfileWithRegisterNumbers, ValueLabel::Reserved, 0, sp_no_unit(), sp_no_unit(), 0, 0) } else
    if c == 0x1F { sp_entry(1, ValueLabel::CompactProfile, ValueLabel::Reserved, 0, sp_no_unit(), sp_no_unit(), 0, 0) } else
    if c == 0x20 { sp_entry(0, ValueLabel::Reserved, ValueLabel::Reserved, 1, Unit { name: UnitName::Second, exponent: (-1) as i32 }, sp_no_unit(), 0, 0) } else
    if c == 0x21 { sp_entry(0, ValueLabel::Reserved, ValueLabel::Reserved, 1, Unit { name: UnitName::Minute, exponent: (-1) as i32 }, sp_no_unit(), 0, 0) } else
    if c == 0x22 { sp_entry(0, ValueLabel::Reserved, ValueLabel::Reserved, 1, Unit { name: UnitName::Hour, exponent: (-1) as i32 }, sp_no_unit(), 0, 0) } else
    if c == 0x23 { sp_entry(0, ValueLabel::Reserved, ValueLabel::Reserved, 1, Unit { name: UnitName::Day, exponent: (-1) as i32 }, sp_no_unit(), 0, 0) } else
    if c == 0x24 { sp_entry(0, ValueLabel::Reserved, ValueLabel::Reserved, 1, Unit { name: UnitName::Week, exponent: (-1) as i32 }, sp_no_unit(), 0, 0) } else
    if c == 0x25 { sp_entry(0, ValueLabel::Reserved, ValueLabel::Reserved, 1, Unit { name: UnitName::Month, exponent: (-1) as i32 }, sp_no_unit(), 0, 0) } else
    if c == 0x26 { sp_entry(0, ValueLabel::Reserved, ValueLabel::Reserved, 1, Unit { name: UnitName::Year, exponent: (-1) as i32 }, sp_no_unit(), 0, 0) } else
    if c == 0x27 { sp_entry(0, ValueLabel::Reserved, ValueLabel::Reserved, 1, Unit { name: UnitName::Revolution, exponent: (-1) as i32 }, sp_no_unit(), 0, 0) } else
    if c == 0x28 { sp_entry(0, ValueLabel::Reserved, ValueLabel::Reserved, 2, Unit { name: UnitName::Increment, exponent: 1i32 }, Unit { name: UnitName::InputPulseOnChannel0, exponent: (-1) as i32 }, 0, 0) } else
    if c == 0x29 { sp_entry(0, ValueLabel::Reserved, ValueLabel::Reserved, 2, Unit { name: UnitName::Increment, exponent: 1i32 }, Unit { name: UnitName::InputPulseOnChannel1, exponent: (-1) as i32 }, 0, 0) } else
    if c == 0x2A { sp_entry(0, ValueLabel::Reserved, ValueLabel::Reserved, 2, Unit { name: UnitName::Increment, exponent: 1i32 }, Unit { name: UnitName::OutputPulseOnChannel0, exponent: (-1) as i32 }, 0, 0) } else
    if c == 0x2B { sp_entry(0, ValueLabel::Reserved, ValueLabel::Reserved, 2, Unit { name: UnitName::Increment, exponent: 1i32 }, Unit { name: UnitName::OutputPulseOnChannel1, exponent: (-1) as i32 }, 0, 0) } else
    if c == 0x2C { sp_entry(0, ValueLabel::Reserved, ValueLabel::Reserved, 1, Unit { name: UnitName::Liter, exponent: (-1) as i32 }, sp_no_unit(), 0, 0) } else
    if c == 0x2D { sp_entry(0, ValueLabel::Reserved, ValueLabel::Reserved, 1, Unit { name: UnitName::Meter, exponent: (-3) as i32 }, sp_no_unit(), 0, 0) } else
    if c == 0x2E { sp_entry(0, ValueLabel::Reserved, ValueLabel::Reserved, 1, Unit { name: UnitName::Kilogram, exponent: (-1) as i32 }, sp_no_unit(), 0, 0) } else
    if c == 0x2F { sp_entry(0, ValueLabel::Reserved, ValueLabel::Reserved, 1, Unit { name: UnitName::Kelvin, exponent: (-1) as i32 }, sp_no_unit(), 0, 0) } else
    if c == 0x30 { sp_entry(0, ValueLabel::Reserved, ValueLabel::Reserved, 2, Unit { name: UnitName::Watt, exponent: (-1) as i32 }, Unit { name: UnitName::Hour, exponent: (-1) as i32 }, -3, 0) } else
    if c == 0x31 { sp_entry(0, ValueLabel::Reserved, ValueLabel::Reserved, 1, Unit { name: UnitName::Joul, exponent: (-1) as i32 }, sp_no_unit(), -9, 0) } else
    if c == 0x32 { sp_entry(0, ValueLabel::Reserved, ValueLabel::Reserved, 1, Unit { name: UnitName::Watt, exponent: (-1) as i32 }, sp_no_unit(), -3, 0) } else
    if c == 0x33 { sp_entry(0, ValueLabel::Reserved, ValueLabel::Reserved, 2, Unit { name: UnitName::Kelvin, exponent: (-1) as i32 }, Unit { name: UnitName::Liter, exponent: (-1) as i32 }, 0, 0) } else
    if c == 0x34 { sp_entry(0, ValueLabel::Reserved, ValueLabel::Reserved, 1, Unit { name: UnitName::Volt, exponent: (-1) as i32 }, sp_no_unit(), 0, 0) } else
    if c == 0x35 { sp_entry(0, ValueLabel::Reserved, ValueLabel::Reserved, 1, Unit { name: UnitName::Ampere, exponent: (-1) as i32 }, sp_no_unit(), 0, 0) } else
    if c == 0x36 { sp_entry(0, ValueLabel::Reserved, ValueLabel::Reserved, 1, Unit { name: UnitName::Second, exponent: 1i32 }, sp_no_unit(), 0, 0) } else
    if c == 0x37 { sp_entry(0, ValueLabel::Reserved, ValueLabel::Reserved, 2, Unit { name: UnitName::Second, exponent: 1i32 }, Unit { name: UnitName::Volt, exponent: (-1) as i32 }, 0, 0) } else
    if c == 0x38 { sp_entry(0, ValueLabel::Reserved, ValueLabel::Reserved, 2, Unit { name: UnitName::Second, exponent: 1i32 }, Unit { name: UnitName::Ampere, exponent: (-1) as i32 }, 0, 0) } else
    if c == 0x39 { sp_entry(1, ValueLabel::StartDateOf, ValueLabel::Reserved, 0, sp_no_unit(), sp_no_unit(), 0, 0) } else
    if c == 0x3A { sp_entry(1, ValueLabel::VifContainsUncorrectedUnitOrValue, ValueLabel::Reserved, 0, sp_no_unit(), sp_no_unit(), 0, 0) } else
    if c == 0x3B { sp_entry(1, ValueLabel::AccumulationOnlyIfValueIsPositive, ValueLabel::Reserved, 0, sp_no_unit(), sp_no_unit(), 0, 0) } else
    if c == 0x3C { sp_entry(1, ValueLabel::AccumulationOnlyIfValueIsNegative, ValueLabel::Reserved, 0, sp_no_unit(), sp_no_unit(), 0, 0) } else
    if c == 0x3D { sp_entry(1, ValueLabel::NonMetricUnits, ValueLabel::Reserved, 0, sp_no_unit(), sp_no_unit(), 0, 0) } else
    if c == 0x3E { sp_entry(1, ValueLabel::ValueAtBaseConditions, ValueLabel::Reserved, 0, sp_no_unit(), sp_no_unit(), 0, 0) } else
    if c == 0x3F { sp_entry(1, ValueLabel::ObisDeclaration, ValueLabel::Reserved, 0, sp_no_unit(), sp_no_unit(), 0, 0) } else
    if c == 0x40 { sp_entry(1, ValueLabel::LowerLimitValue, ValueLabel::Reserved, 0, sp_no_unit(), sp_no_unit(), 0, 0) } else
    if c == 0x41 { sp_entry(1, ValueLabel::NumberOfExceedsOfLowerLimitValue, ValueLabel::Reserved, 0, sp_no_unit(), sp_no_unit(), 0, 0) } else
    if c == 0x42 { sp_entry(1, ValueLabel::DateOfBeginFirstLowerLimitExceed, ValueLabel::Reserved, 0, sp_no_unit(), sp_no_unit(), 0, 0) } else
    if c == 0x43 { sp_entry(1, ValueLabel::DateOfEndFirstLowerLimitExceed, ValueLabel::Reserved, 0, sp_no_unit(), sp_no_unit(), 0, 0) } else
    if c == 0x46 { sp_entry(1, ValueLabel::DateOfBeginLastLowerLimitExceed, ValueLabel::Reserved, 0, sp_no_unit(), sp_no_unit(), 0, 0) } else
    if c == 0x47 { sp_entry(1, ValueLabel::DateOfEndLastLowerLimitExceed, ValueLabel::Reserved, 0, sp_no_unit(), sp_no_unit(), 0, 0) } else
    if c == 0x48 { sp_entry(1, ValueLabel::UpperLimitValue, ValueLabel::Reserved, 0, sp_no_unit(), sp_no_unit(), 0, 0) } else
    if c == 0x49 { sp_entry(1, ValueLabel::NumberOfExceedsOfUpperLimitValue, ValueLabel::Reserved, 0, sp_no_unit(), sp_no_unit(), 0, 0) } else
    if c == 0x4A { sp_entry(1, ValueLabel::DateOfBeginFirstUpperLimitExceed, ValueLabel::Reserved, 0, sp_no_unit(), sp_no_unit(), 0, 0) } else
    if c == 0x4B { sp_entry(1, ValueLabel::DateOfEndFirstUpperLimitExceed, ValueLabel::Reserved, 0, sp_no_unit(), sp_no_unit(), 0, 0) } else
    if c == 0x4E { sp_entry(1, ValueLabel::DateOfBeginLastUpperLimitExceed, ValueLabel::Reserved, 0, sp_no_unit(), sp_no_unit(), 0, 0) } else
    if c == 0x4F { sp_entry(1, ValueLabel::DateOfEndLastUpperLimitExceed, ValueLabel::Reserved, 0, sp_no_unit(), sp_no_unit(), 0, 0) } else
    if c == 0x50 { sp_entry(1, ValueLabel::DurationOfFirstLowerLimitExceed, ValueLabel::Reserved, 1, Unit { name: UnitName::Second, exponent: 1i32 }, sp_no_unit(), 0, 0) } else
    if c == 0x51 { sp_entry(1, ValueLabel::DurationOfFirstLowerLimitExceed, ValueLabel::Reserved, 1, Unit { name: UnitName::Minute, exponent: 1i32 }, sp_no_unit(), 0, 0) } else
    if c == 0x52 { sp_entry(1, ValueLabel::DurationOfFirstLowerLimitExceed, ValueLabel::Reserved, 1, Unit { name: UnitName::Hour, exponent: 1i32 }, sp_no_unit(), 0, 0) } else
    if c == 0x53 { sp_entry(1, ValueLabel::DurationOfFirstLowerLimitExceed, ValueLabel::Reserved, 1, Unit { name: UnitName::Day, exponent: 1i32 }, sp_no_unit(), 0, 0) } else
    if c == 0x54 { sp_entry(1, ValueLabel::DurationOfLastLowerLimitExceed, ValueLabel::Reserved, 1, Unit { name: UnitName::Second, exponent: 1i32 }, sp_no_unit(), 0, 0) } else
    if c == 0x55 { sp_entry(1, ValueLabel::DurationOfLastLowerLimitExceed, ValueLabel::Reserved, 1, Unit { name: UnitName::Minute, exponent: 1i32 }, sp_no_unit(), 0, 0) } else
    if c == 0x56 { sp_entry(1, ValueLabel::DurationOfLastLowerLimitExceed, ValueLabel::Reserved, 1, Unit { name: UnitName::Hour, exponent: 1i32 }, sp_no_unit(), 0, 0) } else
    if c == 0x57 { sp_entry(1, ValueLabel::DurationOfLastLowerLimitExceed, ValueLabel::Reserved, 1, Unit { name: UnitName::Day, exponent: 1i32 }, sp_no_unit(), 0, 0) } else
    if c == 0x58 { sp_entry(1, ValueLabel::DurationOfFirstUpperLimitExceed, ValueLabel::Reserved, 1, Unit { name: UnitName::Second, exponent: 1i32 }, sp_no_unit(), 0, 0) } else
    if c == 0x59 { sp_entry(1, ValueLabel::DurationOfFirstUpperLimitExceed, ValueLabel::Reserved, 1, Unit { name: UnitName::Minute, exponent: 1i32 }, sp_no_unit(), 0, 0) } else
    if c == 0x5A { sp_entry(1, ValueLabel::DurationOfFirstUpperLimitExceed, ValueLabel::Reserved, 1, Unit { name: UnitName::Hour, exponent: 1i32 }, sp_no_unit(), 0, 0) } else
    if c == 0x5B { sp_entry(1, ValueLabel::DurationOfFirstUpperLimitExceed, ValueLabel::Reserved, 1, Unit { name: UnitName::Day, exponent: 1i32 }, sp_no_unit(), 0, 0) } else
    if c == 0x5C { sp_entry(1, ValueLabel::DurationOfLastUpperLimitExceed, ValueLabel::Reserved, 1, Unit { name: UnitName::Second, exponent: 1i32 }, sp_no_unit(), 0, 0) } else
    if c == 0x5D { sp_entry(1, ValueLabel::DurationOfLastUpperLimitExceed, ValueLabel::Reserved, 1, Unit { name: UnitName::Minute, exponent: 1i32 }, sp_no_unit(), 0, 0) } else
    if c == 0x5E { sp_entry(1, ValueLabel::DurationOfLastUpperLimitExceed, ValueLabel::Reserved, 1, Unit { name: UnitName::Hour, exponent: 1i32 }, sp_no_unit(), 0, 0) } else
    if c == 0x5F { sp_entry(1, ValueLabel::DurationOfLastUpperLimitExceed, ValueLabel::Reserved, 1, Unit { name: UnitName::Day, exponent: 1i32 }, sp_no_unit(), 0, 0) } else
    if c == 0x60 { sp_entry(1, ValueLabel::DurationOfFirst, ValueLabel::Reserved, 1, Unit { name: UnitName::Second, exponent: 1i32 }, sp_no_unit(), 0, 0) } else
    if c == 0x61 { sp_entry(1, ValueLabel::DurationOfFirst, ValueLabel::Reserved, 1, Unit { name: UnitName::Minute, exponent: 1i32 }, sp_no_unit(), 0, 0) } else
    if c == 0x62 { sp_entry(1, ValueLabel::DurationOfFirst, ValueLabel::Reserved, 1, Unit { name: UnitName::Hour, exponent: 1i32 }, sp_no_unit(), 0, 0) } else
    if c == 0x63 { sp_entry(1, ValueLabel::DurationOfFirst, ValueLabel::Reserved, 1, Unit { name: UnitName::Day, exponent: 1i32 }, sp_no_unit(), 0, 0) } else
    if c == 0x64 { sp_entry(1, ValueLabel::DurationOfLast, ValueLabel::Reserved, 1, Unit { name: UnitName::Second, exponent: 1i32 }, sp_no_unit(), 0, 0) } else
    if c == 0x65 { sp_entry(1, ValueLabel::DurationOfLast, ValueLabel::Reserved, 1, Unit { name: UnitName::Minute, exponent: 1i32 }, sp_no_unit(), 0, 0) } else
    if c == 0x66 { sp_entry(1, ValueLabel::DurationOfLast, ValueLabel::Reserved, 1, Unit { name: UnitName::Hour, exponent: 1i32 }, sp_no_unit(), 0, 0) } else
    if c == 0x67 { sp_entry(1, ValueLabel::DurationOfLast, ValueLabel::Reserved, 1, Unit { name: UnitName::Day, exponent: 1i32 }, sp_no_unit(), 0, 0) } else
    if c == 0x68 { sp_entry(1, ValueLabel::ValueDuringLowerValueExceed, ValueLabel::Reserved, 0, sp_no_unit(), sp_no_unit(), 0, 0) } else
    if c == 0x69 { sp_entry(1, ValueLabel::LeakageValues, ValueLabel::Reserved, 0, sp_no_unit(), sp_no_unit(), 0, 0) } else
    if c == 0x6A { sp_entry(1, ValueLabel::DateOfBeginFirst, ValueLabel::Reserved, 0, sp_no_unit(), sp_no_unit(), 0, 0) } else
    if c == 0x6B { sp_entry(1, ValueLabel::DateOfEndFirst, ValueLabel::Reserved, 0, sp_no_unit(), sp_no_unit(), 0, 0) } else
    if c == 0x6C { sp_entry(1, ValueLabel::ValueDuringUpperValueExceed, ValueLabel::Reserved, 0, sp_no_unit(), sp_no_unit(), 0, 0) } else
    if c == 0x6D { sp_entry(1, ValueLabel::OverflowValues, ValueLabel::Reserved, 0, sp_no_unit(), sp_no_unit(), 0, 0) } else
    if c == 0x6E { sp_entry(1, ValueLabel::DateOfBeginLast, ValueLabel::Reserved, 0, sp_no_unit(), sp_no_unit(), 0, 0) } else
    if c == 0x6F { sp_entry(1, ValueLabel::DateOfEndLast, ValueLabel::Reserved, 0, sp_no_unit(), sp_no_unit(), 0, 0) } else
    if 0x70 <= c <= 0x77 { sp_entry(0, ValueLabel::Reserved, ValueLabel::Reserved, 0, sp_no_unit(), sp_no_unit(), c - 112 - 6, 0) } else
    if 0x78 <= c <= 0x7B { sp_entry(0, ValueLabel::Reserved, ValueLabel::Reserved, 0, sp_no_unit(), sp_no_unit(), 0, c - 120 - 3) } else
    if c == 0x7D { sp_entry(0, ValueLabel::Reserved, ValueLabel::Reserved, 0, sp_no_unit(), sp_no_unit(), 3, 0) } else
    if c == 0x7E { sp_entry(1, ValueLabel::FutureValue, ValueLabel::Reserved, 0, sp_no_unit(), sp_no_unit(), 0, 0) } else
    if c == 0x7F { sp_entry(1, ValueLabel::NextVIFEAndDataOfThisBlockAreManufacturerSpecific, ValueLabel::Reserved, 0, sp_no_unit(), sp_no_unit(), 0, 0) } else
    { sp_entry(1, ValueLabel::Reserved, ValueLabel::Reserved, 0, sp_no_unit(), sp_no_unit(), 0, 0) }
}
pub open spec fn sp_tab_ext(c: int) -> Option<VEntry> {
    if c == 0x01 { sp_entry(1, ValueLabel::AtPhaseL1, ValueLabel::Reserved, 0, sp_no_unit(), sp_no_unit(), 0, 0) } else
    if c == 0x02 { sp_entry(1, ValueLabel::AtPhaseL2, ValueLabel::Reserved, 0, sp_no_unit(), sp_no_unit(), 0, 0) } else
    if c == 0x03 { sp_entry(1, ValueLabel::AtPhaseL3, ValueLabel::Reserved, 0, sp_no_unit(), sp_no_unit(), 0, 0) } else
    if c == 0x04 { sp_entry(1, ValueLabel::AtNeutral, ValueLabel::Reserved, 0, sp_no_unit(), sp_no_unit(), 0, 0) } else
    if c == 0x05 { sp_entry(1, ValueLabel::BetweenPhasesL1L2, ValueLabel::Reserved, 0, sp_no_unit(), sp_no_unit(), 0, 0) } else
    if c == 0x06 { sp_entry(1, ValueLabel::BetweenPhasesL2L3, ValueLabel::Reserved, 0, sp_no_unit(), sp_no_unit(), 0, 0) } else
    if c == 0x07 { sp_entry(1, ValueLabel::BetweenPhasesL3L1, ValueLabel::Reserved, 0, sp_no_unit(), sp_no_unit(), 0, 0) } else
    if c == 0x08 { sp_entry(1, ValueLabel::AtQuadrant1, ValueLabel::Reserved, 0, sp_no_unit(), sp_no_unit(), 0, 0) } else
    if c == 0x09 { sp_entry(1, ValueLabel::AtQuadrant2, ValueLabel::Reserved, 0, sp_no_unit(), sp_no_unit(), 0, 0) } else
    if c == 0x0A { sp_entry(1, ValueLabel::AtQuadrant3, ValueLabel::Reserved, 0, sp_no_unit(), sp_no_unit(), 0, 0) } else
    if c == 0x0B { sp_entry(1, ValueLabel::AtQuadrant4, ValueLabel::Reserved, 0, sp_no_unit(), sp_no_unit(), 0, 0) } else
    if c == 0x0C { sp_entry(1, ValueLabel::DeltaBetweenImportAndExport, ValueLabel::Reserved, 0, sp_no_unit(), sp_no_unit(), 0, 0) } else
    if c == 0x0D { sp_entry(1, ValueLabel::AlternativeNonMetricUnits, ValueLabel::Reserved, 0, sp_no_unit(), sp_no_unit(), 0, 0) } else
    if c == 0x0E { sp_entry(1, ValueLabel::SecondarySensorMeasurement, ValueLabel::Reserved, 0, sp_no_unit(), sp_no_unit(), 0, 0) } else
    if c == 0x0F { sp_entry(1, ValueLabel::HigherResolutionRegister, ValueLabel::Reserved, 0, sp_no_unit(), sp_no_unit(), 0, 0) } else
    if c == 0x10 { sp_entry(1, ValueLabel::AccumulationOfAbsoluteValueBothPositiveAndNegativeContribution, ValueLabel::Reserved, 0, sp_no_unit(), sp_no_unit(), 0, 0) } else
    if c == 0x11 { sp_entry(1, ValueLabel::DataPresentedWithTypeC, ValueLabel::Reserved, 0, sp_no_unit(), sp_no_unit(), 0, 0) } else
    if c == 0x12 { sp_entry(1, ValueLabel::DataPresentedWithTypeD, ValueLabel::Reserved, 0, sp_no_unit(), sp_no_unit(), 0, 0) } else
    if c == 0x13 { sp_entry(1, ValueLabel::EndDate, ValueLabel::Reserved, 0, sp_no_unit(), sp_no_unit(), 0, 0) } else
    if c == 0x14 { sp_entry(1, ValueLabel::DirectionFromCommunicationPartnerToMeter, ValueLabel::Reserved, 0, sp_no_unit(), sp_no_unit(), 0, 0) } else
    if c == 0x15 { sp_entry(1, ValueLabel::DirectionFromMeterToCommunicationPartner, ValueLabel::Reserved, 0, sp_no_unit(), sp_no_unit(), 0, 0) } else
    { sp_entry(1, ValueLabel::Reserved, ValueLabel::Reserved, 0, sp_no_unit(), sp_no_unit(), 0, 0) }
}
