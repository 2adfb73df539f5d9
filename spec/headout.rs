//@need m_bus_parser::output::MeterIdentity
//@need m_bus_parser::output::MeterOutput
//@need m_bus_parser::output::TransportOutput
//@need m_bus_parser::output::EllOutput
//@need m_bus_core::IdentificationNumber
//@need m_bus_core::IdentificationNumber::Display::fmt
//@need m_bus_core::ManufacturerCode::Display::fmt
//@need m_bus_core::DeviceType::Display::fmt
//@need m_bus_application_layer::StatusField::Display::fmt
//@need m_bus_core::ManufacturerCode
//@need wireless_mbus_link_layer::ManufacturerId
// What the typed output says about the headers of a frame.
use crate::m_bus_core::*;
use crate::m_bus_application_layer::*;
use crate::m_bus_application_layer::extended_link_layer::*;
use crate::m_bus_parser::output::*;
use crate::wireless_mbus_link_layer::ManufacturerId;

pub open spec fn sp_id_text(i: IdentificationNumber) -> Seq<char> { sp_padded(i.number as int, 8) }
pub open spec fn sp_man_text(m: ManufacturerCode) -> Seq<char> { seq![m.code[0], m.code[1], m.code[2]] }
impl VToStr for IdentificationNumber {
    open spec fn sp_str(&self) -> Seq<char> { sp_id_text(*self) }
    fn v_to_string(&self) -> (r: String) { let mut f = crate::dep::Formatter::v_start(); let _ = self.fmt(&mut f); proof { assert(Seq::<char>::empty() + sp_id_text(*self) =~= sp_id_text(*self)); } f.v_done() }
}
impl VToStr for ManufacturerCode {
    open spec fn sp_str(&self) -> Seq<char> { sp_man_text(*self) }
    fn v_to_string(&self) -> (r: String) { let mut f = crate::dep::Formatter::v_start(); let _ = self.fmt(&mut f); proof { assert(Seq::<char>::empty() + sp_man_text(*self) =~= sp_man_text(*self)); } f.v_done() }
}
// the names of the device types
pub open spec fn sp_device_text(x: DeviceType) -> Seq<char> {
    match x {
        DeviceType::Other => "Other"@,
        DeviceType::OilMeter => "Oil Meter"@,
        DeviceType::ElectricityMeter => "Electricity Meter"@,
        DeviceType::GasMeter => "Gas Meter"@,
        DeviceType::HeatMeterReturn => "Heat Meter (Return)"@,
        DeviceType::SteamMeter => "Steam Meter"@,
        DeviceType::WarmWaterMeter => "Warm Water Meter (30-90°C)"@,
        DeviceType::WaterMeter => "Water Meter"@,
        DeviceType::HeatCostAllocator => "Heat Cost Allocator"@,
        DeviceType::CompressedAir => "Compressed Air"@,
        DeviceType::CoolingMeterReturn => "Cooling Meter (Return)"@,
        DeviceType::CoolingMeterFlow => "Cooling Meter (Flow)"@,
        DeviceType::HeatMeterFlow => "Heat Meter (Flow)"@,
        DeviceType::CombinedHeatCoolingMeter => "Combined Heat/Cooling Meter"@,
        DeviceType::BusSystemComponent => "Bus/System Component"@,
        DeviceType::UnknownDevice => "Unknown Device"@,
        DeviceType::IrrigationWaterMeter => "Irrigation Water Meter"@,
        DeviceType::WaterDataLogger => "Water Data Logger"@,
        DeviceType::GasDataLogger => "Gas Data Logger"@,
        DeviceType::GasConverter => "Gas Converter"@,
        DeviceType::CalorificValue => "Calorific Value"@,
        DeviceType::HotWaterMeter => "Hot Water Meter (≥90°C)"@,
        DeviceType::ColdWaterMeter => "Cold Water Meter"@,
        DeviceType::DualRegisterWaterMeter => "Dual Register Water Meter"@,
        DeviceType::PressureMeter => "Pressure Meter"@,
        DeviceType::AdConverter => "A/D Converter"@,
        DeviceType::SmokeDetector => "Smoke Detector"@,
        DeviceType::RoomSensor => "Room Sensor"@,
        DeviceType::GasDetector => "Gas Detector"@,
        DeviceType::ReservedSensor(code) => "Reserved Sensor (0x"@ + sp_hex(code as int, 2) + ")"@,
        DeviceType::ElectricityBreaker => "Breaker (Electricity)"@,
        DeviceType::Valve => "Valve (Gas/Water)"@,
        DeviceType::ReservedSwitch(code) => "Reserved Switch (0x"@ + sp_hex(code as int, 2) + ")"@,
        DeviceType::CustomerUnit => "Customer Unit (Display)"@,
        DeviceType::ReservedCustomer(code) => "Reserved Customer Unit (0x"@ + sp_hex(code as int, 2) + ")"@,
        DeviceType::WasteWaterMeter => "Waste Water Meter"@,
        DeviceType::Garbage => "Garbage"@,
        DeviceType::ReservedCO2 => "Reserved (CO₂)"@,
        DeviceType::ReservedEnvironmental(code) => "Reserved Environmental (0x"@ + sp_hex(code as int, 2) + ")"@,
        DeviceType::ServiceTool => "Service Tool"@,
        DeviceType::CommunicationController => "Communication Controller (Gateway)"@,
        DeviceType::UnidirectionalRepeater => "Unidirectional Repeater"@,
        DeviceType::BidirectionalRepeater => "Bidirectional Repeater"@,
        DeviceType::ReservedSystem(code) => "Reserved System (0x"@ + sp_hex(code as int, 2) + ")"@,
        DeviceType::RadioConverterSystemSide => "Radio Converter (System Side)"@,
        DeviceType::RadioConverterMeterSide => "Radio Converter (Meter Side)"@,
        DeviceType::BusConverterMeterSide => "Bus Converter (Meter Side)"@,
        DeviceType::Reserved(code) => "Reserved (0x"@ + sp_hex(code as int, 2) + ")"@,
        DeviceType::Wildcard => "Wildcard"@,
    }
}
impl VToStr for DeviceType {
    open spec fn sp_str(&self) -> Seq<char> { sp_device_text(*self) }
    fn v_to_string(&self) -> (r: String) { let mut f = crate::dep::Formatter::v_start(); let _ = self.fmt(&mut f); proof { assert(Seq::<char>::empty() + sp_device_text(*self) =~= sp_device_text(*self)); } f.v_done() }
}
// the names of the bits that are set, in order, separated by commas
pub open spec fn sp_flag(k: int) -> (u8, Seq<char>) {
    if k == 0 { (1, "Counter binary signed, "@) }
    else if k == 1 { (2, "Counter fixed date, "@) }
    else if k == 2 { (4, "Power low, "@) }
    else if k == 3 { (8, "Permanent error, "@) }
    else if k == 4 { (16, "Temporary error, "@) }
    else if k == 5 { (32, "Manufacturer specific 1, "@) }
    else if k == 6 { (64, "Manufacturer specific 2, "@) }
    else { (128, "Manufacturer specific 3, "@) }
}
pub open spec fn sp_flags(b: u8, n: int) -> Seq<char>
    decreases n,
{ if n <= 0 { Seq::empty() } else { sp_flags(b, n - 1) + (if b & sp_flag(n - 1).0 != 0 { sp_flag(n - 1).1 } else { Seq::empty() }) } }
pub open spec fn sp_status_text(b: u8) -> Seq<char> { if b == 0 { "No Error(s)"@ } else { sp_flags(b, 8).take(sp_flags(b, 8).len() - 2) } }
pub open spec fn sp_comma(t: Seq<char>) -> bool { t.len() >= 3 && t[t.len() - 1] == ' ' && t[t.len() - 2] == ',' && t[t.len() - 3] != ' ' }
pub proof fn lemma_flags(b: u8, n: int)
    requires 0 <= n <= 8,
    ensures sp_flags(b, n) == Seq::<char>::empty() || sp_comma(sp_flags(b, n)),
        sp_flags(b, n).len() == 0 ==> forall|k: int| 0 <= k < n ==> b & (#[trigger] sp_flag(k)).0 == 0,
    decreases n,
{
    if n > 0 {
        lemma_flags(b, n - 1);
        reveal_strlit("Counter binary signed, "); reveal_strlit("Counter fixed date, "); reveal_strlit("Power low, "); reveal_strlit("Permanent error, ");
        reveal_strlit("Temporary error, "); reveal_strlit("Manufacturer specific 1, "); reveal_strlit("Manufacturer specific 2, "); reveal_strlit("Manufacturer specific 3, ");
        assert(sp_comma(sp_flag(n - 1).1));
        if b & sp_flag(n - 1).0 == 0 { assert(sp_flags(b, n) =~= sp_flags(b, n - 1)); }
    }
}
pub proof fn lemma_status(b: u8)
    ensures
        sp_flags(b, 8).len() == 0 <==> b == 0,
        b != 0 ==> sp_trimmed(sp_flags(b, 8), ", "@) == sp_status_text(b),
        sp_trimmed("No Error(s)"@, ", "@) == "No Error(s)"@,
{
    reveal_strlit(", "); reveal_strlit("No Error(s)");
    lemma_flags(b, 8);
    let s = sp_flags(b, 8);
    let p = ", "@;
    if s.len() == 0 {
        let f0 = sp_flag(0); let f1 = sp_flag(1); let f2 = sp_flag(2); let f3 = sp_flag(3); let f4 = sp_flag(4); let f5 = sp_flag(5); let f6 = sp_flag(6); let f7 = sp_flag(7);
        assert(b & 1 == 0 && b & 2 == 0 && b & 4 == 0 && b & 8 == 0 && b & 16 == 0 && b & 32 == 0 && b & 64 == 0 && b & 128 == 0);
        assert(b == 0) by (bit_vector) requires b & 1 == 0, b & 2 == 0, b & 4 == 0, b & 8 == 0, b & 16 == 0, b & 32 == 0, b & 64 == 0, b & 128 == 0;
    }
    if b == 0 {
        assert(0u8 & 1 == 0 && 0u8 & 2 == 0 && 0u8 & 4 == 0 && 0u8 & 8 == 0 && 0u8 & 16 == 0 && 0u8 & 32 == 0 && 0u8 & 64 == 0 && 0u8 & 128 == 0) by (bit_vector);
        reveal_with_fuel(sp_flags, 9);
    } else {
        let t = s.take(s.len() - 2);
        assert(s.skip(s.len() - 2) =~= p);
        assert(t.last() != ' ');
        if t.len() >= 2 { let q = t.skip(t.len() - 2); assert(q[1] == t.last() && p[1] == ' '); assert(q != p); }
        assert(sp_trimmed(t, p) == t);
        assert(sp_trimmed(s, p) == sp_trimmed(t, p));
    }
    let e = "No Error(s)"@;
    let q = e.skip(e.len() - 2); assert(q[1] == e.last() && p[1] == ' ');
    assert(q != p);
}
pub proof fn lemma_mask(b: u8)
    ensures b & 1 == 0 || b & 1 == 1, b & 2 == 0 || b & 2 == 2, b & 4 == 0 || b & 4 == 4, b & 8 == 0 || b & 8 == 8,
        b & 16 == 0 || b & 16 == 16, b & 32 == 0 || b & 32 == 32, b & 64 == 0 || b & 64 == 64, b & 128 == 0 || b & 128 == 128,
{
    assert(b & 1 == 0 || b & 1 == 1) by (bit_vector); assert(b & 2 == 0 || b & 2 == 2) by (bit_vector); assert(b & 4 == 0 || b & 4 == 4) by (bit_vector);
    assert(b & 8 == 0 || b & 8 == 8) by (bit_vector); assert(b & 16 == 0 || b & 16 == 16) by (bit_vector); assert(b & 32 == 0 || b & 32 == 32) by (bit_vector);
    assert(b & 64 == 0 || b & 64 == 64) by (bit_vector); assert(b & 128 == 0 || b & 128 == 128) by (bit_vector);
}
// an empty text has no bytes and only it
pub proof fn lemma_no_bytes(s: Seq<char>)
    ensures sp_bytes(s).len() == 0 <==> s.len() == 0,
{
    reveal_with_fuel(vstd::utf8::encode_utf8, 2);
    if s.len() > 0 { vstd::utf8::encode_utf8_concat(s.take(1), s.skip(1)); assert(s =~= s.take(1) + s.skip(1)); }
}
impl VToStr for StatusField {
    open spec fn sp_str(&self) -> Seq<char> { sp_status_text(self.flag_bits) }
    fn v_to_string(&self) -> (r: String) { let mut f = crate::dep::Formatter::v_start(); let _ = self.fmt(&mut f); proof { assert(Seq::<char>::empty() + sp_status_text(self.flag_bits) =~= sp_status_text(self.flag_bits)); } f.v_done() }
}

pub open spec fn sp_is(o: Option<String>, t: Seq<char>) -> bool { o is Some && o->Some_0@ == t }
pub open spec fn sp_hexes(b: Seq<u8>) -> Seq<char>
    decreases b.len(),
{ if b.len() == 0 { Seq::empty() } else { sp_hexes(b.drop_last()) + sp_hex(b.last() as int, 2) } }

// ---- identity
pub open spec fn sp_identity(o: MeterIdentity, source: Seq<char>, id: IdentificationNumber, man: Option<ManufacturerCode>, version: u8, device: DeviceType) -> bool {
    &&& o.source@ == source && sp_is(o.id, sp_id_text(id)) && o.version == Some(version)
    &&& match man { Some(m) => sp_is(o.manufacturer_code, sp_man_text(m)), None => o.manufacturer_code is None }
    &&& o.device_type_code == Some(sp_device_code(device)) && sp_is(o.device_type, device.sp_str())
}
pub open spec fn sp_link(o: MeterIdentity, id: ManufacturerId) -> bool {
    sp_identity(o, "link.wireless"@, id.identification_number, Some(id.manufacturer_code), id.version, id.device_type)
}
pub open spec fn sp_long_identity(o: MeterIdentity, h: LongTplHeader) -> bool {
    sp_identity(o, "tpl.long"@, h.identification_number, match h.manufacturer { Ok(m) => Some(m), Err(_) => None }, h.version, h.device_type)
}
pub open spec fn sp_meter_out(o: MeterOutput, b: Option<UserDataBlock<'_>>, link: Option<ManufacturerId>) -> bool {
    match b {
        Some(UserDataBlock::VariableDataStructureWithLongTplHeader { long_tpl_header, .. }) =>
            o.identity is Some && sp_long_identity(o.identity->Some_0, long_tpl_header)
            // the sources differ, so the link's identity is another one
            && (match link { Some(l) => o.alternate_identities@.len() == 1 && sp_link(o.alternate_identities@[0], l), None => o.alternate_identities@.len() == 0 }),
        Some(UserDataBlock::FixedDataStructure { identification_number, device_type_and_unit, .. }) =>
            o.identity is Some && o.identity->Some_0.source@ == "application.fixed"@ && sp_is(o.identity->Some_0.id, sp_id_text(identification_number))
            && o.identity->Some_0.manufacturer_code is None && o.identity->Some_0.version is None && o.identity->Some_0.device_type_code is None
            && sp_is(o.identity->Some_0.device_type, "fixed type/unit 0x"@ + sp_hex(device_type_and_unit as int, 4))
            && o.alternate_identities@.len() == 0,
        _ => o.alternate_identities@.len() == 0 && (match link { Some(l) => o.identity is Some && sp_link(o.identity->Some_0, l), None => o.identity is None }),
    }
}

// ---- transport
pub open spec fn sp_numbers(o: TransportOutput, source: Seq<char>, access: u8) -> bool {
    o.access_numbers@.len() == 1 && o.access_numbers@[0].source@ == source && o.access_numbers@[0].value == access
}
pub open spec fn sp_statuses(o: TransportOutput, source: Seq<char>, s: StatusField) -> bool {
    o.statuses@.len() == 1 && o.statuses@[0].source@ == source && o.statuses@[0].raw@ == sp_hex(s.flag_bits as int, 2) && o.statuses@[0].display@ == s.sp_str()
}
pub open spec fn sp_short_out(o: TransportOutput, source: Seq<char>, h: ShortTplHeader) -> bool {
    &&& sp_numbers(o, source, h.access_number) && sp_statuses(o, source, h.status)
    &&& o.configuration is Some && o.configuration->Some_0.source@ == source && o.configuration->Some_0.raw@ == sp_hex(h.configuration_field.raw as int, 4)
}
pub open spec fn sp_ell_out(o: EllOutput, e: ExtendedLinkLayer) -> bool {
    &&& o.communication_control@ == sp_hex(e.communication_control as int, 2) && o.access_number == e.access_number
    &&& match e.receiver_address {
            Some(a) => sp_is(o.receiver_manufacturer, sp_hex(a.manufacturer as int, 4)) && sp_is(o.receiver_address, sp_hexes(a.address@)),
            None => o.receiver_manufacturer is None && o.receiver_address is None,
        }
    &&& match e.encryption {
            Some(c) => sp_is(o.session_number, sp_hexes(c.session_number@)) && sp_is(o.payload_crc, sp_hex(c.payload_crc as int, 4)),
            None => o.session_number is None && o.payload_crc is None,
        }
}
pub open spec fn sp_ells(o: TransportOutput, e: Option<ExtendedLinkLayer>) -> bool {
    match e { Some(x) => o.ell is Some && sp_ell_out(o.ell->Some_0, x), None => o.ell is None }
}
// an encrypted extended link layer hides the short header: what stands for it was not sent
pub open spec fn sp_hidden(e: Option<ExtendedLinkLayer>, h: ShortTplHeader) -> bool {
    e is Some && e->Some_0.encryption is Some && sp_cf_mode(h.configuration_field.raw) == SecurityMode::NoEncryption
}
pub open spec fn sp_transport_out(o: TransportOutput, b: Option<UserDataBlock<'_>>) -> bool {
    match b {
        Some(UserDataBlock::VariableDataStructureWithLongTplHeader { extended_link_layer, long_tpl_header, .. }) =>
            sp_is(o.header_kind, "long_tpl"@) && sp_short_out(o, "tpl.long"@, long_tpl_header.short_tpl_header) && sp_ells(o, extended_link_layer),
        Some(UserDataBlock::VariableDataStructureWithShortTplHeader { extended_link_layer, short_tpl_header, .. }) =>
            sp_ells(o, extended_link_layer) && (if sp_hidden(extended_link_layer, short_tpl_header) {
                sp_is(o.header_kind, "ell"@) && sp_numbers(o, "ell"@, extended_link_layer->Some_0.access_number) && o.statuses@.len() == 0 && o.configuration is None
            } else { sp_is(o.header_kind, "short_tpl"@) && sp_short_out(o, "tpl.short"@, short_tpl_header) }),
        Some(UserDataBlock::VariableDataStructureWithoutTplHeader { extended_link_layer, .. }) =>
            sp_ells(o, extended_link_layer) && o.statuses@.len() == 0 && o.configuration is None
            && (match extended_link_layer {
                Some(e) => sp_is(o.header_kind, "ell"@) && sp_numbers(o, "ell"@, e.access_number),
                None => sp_is(o.header_kind, "none"@) && o.access_numbers@.len() == 0,
            }),
        Some(UserDataBlock::FixedDataStructure { access_number, status, .. }) =>
            sp_is(o.header_kind, "fixed"@) && sp_numbers(o, "application.fixed"@, access_number) && sp_statuses(o, "application.fixed"@, status)
            && o.configuration is None && o.ell is None,
        Some(UserDataBlock::ResetAtApplicationLevel { .. }) =>
            sp_is(o.header_kind, "application_reset"@) && o.access_numbers@.len() == 0 && o.statuses@.len() == 0 && o.configuration is None && o.ell is None,
        None => o.header_kind is None && o.access_numbers@.len() == 0 && o.statuses@.len() == 0 && o.configuration is None && o.ell is None,
    }
}
// whether the payload is encrypted, the mode announced, whether the extended link layer encrypts
pub open spec fn sp_secured(b: Option<UserDataBlock<'_>>) -> (bool, Option<SecurityMode>, bool) {
    match b {
        Some(UserDataBlock::VariableDataStructureWithLongTplHeader { long_tpl_header, .. }) => {
            let m = sp_cf_mode(long_tpl_header.short_tpl_header.configuration_field.raw);
            (m != SecurityMode::NoEncryption, Some(m), false)
        },
        Some(UserDataBlock::VariableDataStructureWithShortTplHeader { extended_link_layer, short_tpl_header, .. }) => {
            let m = sp_cf_mode(short_tpl_header.configuration_field.raw);
            let e = extended_link_layer is Some && extended_link_layer->Some_0.encryption is Some;
            if e && m == SecurityMode::NoEncryption { (true, None, true) } else { (m != SecurityMode::NoEncryption, Some(m), e) }
        },
        _ => (false, None, false),
    }
}
pub open spec fn sp_given_block<'a>(b: Option<&UserDataBlock<'a>>) -> Option<UserDataBlock<'a>> { match b { Some(x) => Some(*x), None => None } }
pub open spec fn sp_given_id(b: Option<&ManufacturerId>) -> Option<ManufacturerId> { match b { Some(x) => Some(*x), None => None } }
// derived comparison and copy: the texts are the same
pub open spec fn sp_same_text(a: Option<String>, b: Option<String>) -> bool { match a { Some(x) => b is Some && b->Some_0@ == x@, None => b is None } }
pub open spec fn sp_same_identity(a: MeterIdentity, b: MeterIdentity) -> bool {
    &&& a.source@ == b.source@ && sp_same_text(a.id, b.id) && sp_same_text(a.manufacturer_code, b.manufacturer_code)
    &&& a.version == b.version && sp_same_text(a.device_type, b.device_type) && a.device_type_code == b.device_type_code
}
impl vstd::std_specs::cmp::PartialEqSpecImpl for MeterIdentity {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &MeterIdentity) -> bool { sp_same_identity(*self, *other) }
}
impl PartialEq for MeterIdentity {
    #[verifier::external_body]
    fn eq(&self, other: &MeterIdentity) -> (r: bool) { unimplemented!() }
}
impl Clone for MeterIdentity {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self)
        ensures r == *self,
    { unimplemented!() }
}
pub proof fn lemma_sources()
    ensures "link.wireless"@ != "tpl.long"@,
{ reveal_strlit("link.wireless"); reveal_strlit("tpl.long"); assert("link.wireless"@.len() == 13); assert("tpl.long"@.len() == 8); }
pub proof fn lemma_all_no_bytes()
    ensures forall|s: Seq<char>| (#[trigger] sp_bytes(s)).len() == 0 <==> s.len() == 0,
{ assert forall|s: Seq<char>| (#[trigger] sp_bytes(s)).len() == 0 <==> s.len() == 0 by { lemma_no_bytes(s); } }
