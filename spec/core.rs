//@need m_bus_core::SecurityMode
//@need m_bus_core::DeviceType
//@need m_bus_core::ManufacturerCode
use crate::m_bus_core::*;

/// two bytes, least significant first
pub open spec fn sp_le(a: u8, b: u8) -> u16 { (a as int + 256 * b as int) as u16 }

// ---- manufacturer codes (EN 62056-21: three letters, five bits each) ----------
pub open spec fn sp_letter_ok(x: int) -> bool { 1 <= x <= 26 }

pub open spec fn sp_man_ok(id: u16) -> bool {
    sp_letter_ok(id as int / 1024) && sp_letter_ok((id as int / 32) % 32) && sp_letter_ok(id as int % 32)
}

pub open spec fn sp_is_man(m: ManufacturerCode, id: u16) -> bool {
    m.code[0] as u32 == 64 + id as int / 1024
    && m.code[1] as u32 == 64 + (id as int / 32) % 32
    && m.code[2] as u32 == 64 + id as int % 32
}

/// what every code made by `from_id` satisfies
pub open spec fn sp_man_valid(m: ManufacturerCode) -> bool {
    65 <= m.code[0] as u32 <= 90 && 65 <= m.code[1] as u32 <= 90 && 65 <= m.code[2] as u32 <= 90
}

pub open spec fn sp_man_id(m: ManufacturerCode) -> int {
    (m.code[0] as u32 - 64) * 1024 + (m.code[1] as u32 - 64) * 32 + (m.code[2] as u32 - 64)
}

/// P17: from_id and to_id are inverse
pub proof fn lemma_man_roundtrip(m: ManufacturerCode, id: u16)
    requires sp_man_ok(id), sp_is_man(m, id),
    ensures sp_man_valid(m), sp_man_id(m) == id,
{
    assert(id as int == (id as int / 1024) * 1024 + ((id as int / 32) % 32) * 32 + id as int % 32) by (nonlinear_arith);
}

// ---- packed decimal digits ------------------------------------------------------
pub open spec fn sp_digit_ok(b: u8) -> bool { b % 16 <= 9 && b / 16 <= 9 }
pub open spec fn sp_two(b: u8) -> int { (b / 16) as int * 10 + (b % 16) as int }

pub open spec fn sp_bcd4_ok(d: Seq<u8>) -> bool {
    sp_digit_ok(d[0]) && sp_digit_ok(d[1]) && sp_digit_ok(d[2]) && sp_digit_ok(d[3])
}
pub open spec fn sp_bcd4(d: Seq<u8>) -> int {
    sp_two(d[0]) + 100 * sp_two(d[1]) + 10000 * sp_two(d[2]) + 1000000 * sp_two(d[3])
}
/// number made of the bytes from position i on (least significant byte first)
pub open spec fn sp_bcd_from(d: Seq<u8>, i: int) -> int
    decreases d.len() - i,
{
    if i >= d.len() { 0 } else { sp_two(d[i]) + 100 * sp_bcd_from(d, i + 1) }
}
pub proof fn lemma_bcd4(d: Seq<u8>)
    requires d.len() == 4,
    ensures sp_bcd_from(d, 0) == sp_bcd4(d),
{
    reveal_with_fuel(sp_bcd_from, 6);
}

// ---- security modes ---------------------------------------------------------------
pub open spec fn sp_mode(b: int) -> SecurityMode {
    if b == 0 { SecurityMode::NoEncryption }
    else if b == 1 { SecurityMode::ManufacturerSpecific }
    else if b == 2 { SecurityMode::DesIvZero }
    else if b == 3 { SecurityMode::DesIvNonZero }
    else if b == 4 { SecurityMode::SpecificUsage4 }
    else if b == 5 { SecurityMode::AesCbc128IvNonZero }
    else if b == 6 { SecurityMode::Reserved6 }
    else if b == 7 { SecurityMode::AesCbc128IvZero }
    else if b == 8 { SecurityMode::AesCtr128Cmac }
    else if b == 9 { SecurityMode::AesGcm128 }
    else if b == 10 { SecurityMode::AesCcm128 }
    else if b == 11 { SecurityMode::Reserved11 }
    else if b == 12 { SecurityMode::Reserved12 }
    else if b == 13 { SecurityMode::SpecificUsage13 }
    else if b == 14 { SecurityMode::Reserved14 }
    else if b == 15 { SecurityMode::SpecificUsage15 }
    else { SecurityMode::ReservedHigher(b as u8) }
}

/// security mode announced by a configuration field: bits 8 to 12
pub open spec fn sp_cf_mode(raw: u16) -> SecurityMode { sp_mode((raw as int / 256) % 32) }

// ---- device types -------------------------------------------------------------------
pub open spec fn sp_device(b: u8) -> DeviceType {
    match b {
        0x00 => DeviceType::Other,
        0x01 => DeviceType::OilMeter,
        0x02 => DeviceType::ElectricityMeter,
        0x03 => DeviceType::GasMeter,
        0x04 => DeviceType::HeatMeterReturn,
        0x05 => DeviceType::SteamMeter,
        0x06 => DeviceType::WarmWaterMeter,
        0x07 => DeviceType::WaterMeter,
        0x08 => DeviceType::HeatCostAllocator,
        0x09 => DeviceType::CompressedAir,
        0x0A => DeviceType::CoolingMeterReturn,
        0x0B => DeviceType::CoolingMeterFlow,
        0x0C => DeviceType::HeatMeterFlow,
        0x0D => DeviceType::CombinedHeatCoolingMeter,
        0x0E => DeviceType::BusSystemComponent,
        0x0F => DeviceType::UnknownDevice,
        0x10 => DeviceType::IrrigationWaterMeter,
        0x11 => DeviceType::WaterDataLogger,
        0x12 => DeviceType::GasDataLogger,
        0x13 => DeviceType::GasConverter,
        0x14 => DeviceType::CalorificValue,
        0x15 => DeviceType::HotWaterMeter,
        0x16 => DeviceType::ColdWaterMeter,
        0x17 => DeviceType::DualRegisterWaterMeter,
        0x18 => DeviceType::PressureMeter,
        0x19 => DeviceType::AdConverter,
        0x1A => DeviceType::SmokeDetector,
        0x1B => DeviceType::RoomSensor,
        0x1C => DeviceType::GasDetector,
        0x20 => DeviceType::ElectricityBreaker,
        0x21 => DeviceType::Valve,
        0x25 => DeviceType::CustomerUnit,
        0x28 => DeviceType::WasteWaterMeter,
        0x29 => DeviceType::Garbage,
        0x2A => DeviceType::ReservedCO2,
        0x30 => DeviceType::ServiceTool,
        0x31 => DeviceType::CommunicationController,
        0x32 => DeviceType::UnidirectionalRepeater,
        0x33 => DeviceType::BidirectionalRepeater,
        0x36 => DeviceType::RadioConverterSystemSide,
        0x37 => DeviceType::RadioConverterMeterSide,
        0x38 => DeviceType::BusConverterMeterSide,
        0xFF => DeviceType::Wildcard,
        _ => if 0x1D <= b <= 0x1F { DeviceType::ReservedSensor(b) }
            else if 0x22 <= b <= 0x24 { DeviceType::ReservedSwitch(b) }
            else if b == 0x26 || b == 0x27 { DeviceType::ReservedCustomer(b) }
            else if 0x2B <= b <= 0x2F { DeviceType::ReservedEnvironmental(b) }
            else if 0x34 <= b <= 0x3F { DeviceType::ReservedSystem(b) }
            else { DeviceType::Reserved(b) },
    }
}

/// the wire code of a device type
pub open spec fn sp_device_code(d: DeviceType) -> u8 {
    match d {
        DeviceType::ReservedSensor(c) => c,
        DeviceType::ReservedSwitch(c) => c,
        DeviceType::ReservedCustomer(c) => c,
        DeviceType::ReservedEnvironmental(c) => c,
        DeviceType::ReservedSystem(c) => c,
        DeviceType::Reserved(c) => c,
        DeviceType::Other => 0x00,
        DeviceType::OilMeter => 0x01,
        DeviceType::ElectricityMeter => 0x02,
        DeviceType::GasMeter => 0x03,
        DeviceType::HeatMeterReturn => 0x04,
        DeviceType::SteamMeter => 0x05,
        DeviceType::WarmWaterMeter => 0x06,
        DeviceType::WaterMeter => 0x07,
        DeviceType::HeatCostAllocator => 0x08,
        DeviceType::CompressedAir => 0x09,
        DeviceType::CoolingMeterReturn => 0x0A,
        DeviceType::CoolingMeterFlow => 0x0B,
        DeviceType::HeatMeterFlow => 0x0C,
        DeviceType::CombinedHeatCoolingMeter => 0x0D,
        DeviceType::BusSystemComponent => 0x0E,
        DeviceType::UnknownDevice => 0x0F,
        DeviceType::IrrigationWaterMeter => 0x10,
        DeviceType::WaterDataLogger => 0x11,
        DeviceType::GasDataLogger => 0x12,
        DeviceType::GasConverter => 0x13,
        DeviceType::CalorificValue => 0x14,
        DeviceType::HotWaterMeter => 0x15,
        DeviceType::ColdWaterMeter => 0x16,
        DeviceType::DualRegisterWaterMeter => 0x17,
        DeviceType::PressureMeter => 0x18,
        DeviceType::AdConverter => 0x19,
        DeviceType::SmokeDetector => 0x1A,
        DeviceType::RoomSensor => 0x1B,
        DeviceType::GasDetector => 0x1C,
        DeviceType::ElectricityBreaker => 0x20,
        DeviceType::Valve => 0x21,
        DeviceType::CustomerUnit => 0x25,
        DeviceType::WasteWaterMeter => 0x28,
        DeviceType::Garbage => 0x29,
        DeviceType::ReservedCO2 => 0x2A,
        DeviceType::ServiceTool => 0x30,
        DeviceType::CommunicationController => 0x31,
        DeviceType::UnidirectionalRepeater => 0x32,
        DeviceType::BidirectionalRepeater => 0x33,
        DeviceType::RadioConverterSystemSide => 0x36,
        DeviceType::RadioConverterMeterSide => 0x37,
        DeviceType::BusConverterMeterSide => 0x38,
        DeviceType::Wildcard => 0xFF,
    }
}

/// P17: every device byte comes back
pub proof fn lemma_device_roundtrip(b: u8)
    ensures sp_device_code(sp_device(b)) == b,
{ }
