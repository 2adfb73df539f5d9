//@need m_bus_application_layer::UserDataBlock
//@need m_bus_application_layer::extended_link_layer::ExtendedLinkLayer
//@need m_bus_application_layer::ApplicationResetSubcode
//@need m_bus_core::ApplicationLayerError
use crate::m_bus_core::*;
use crate::m_bus_application_layer::*;
use crate::m_bus_application_layer::extended_link_layer::*;

// ---- headers of the application layer ------------------------------------------
/// access number, status and configuration field from position o
pub open spec fn sp_short_header(h: ShortTplHeader, d: Seq<u8>, o: int) -> bool {
    h.access_number == d[o] && h.status.flag_bits == d[o + 1]
    && h.configuration_field.raw == sp_le(d[o + 2], d[o + 3])
}
pub open spec fn sp_tail(d: Seq<u8>, o: int) -> Seq<u8> { d.subrange(o, d.len() as int) }

/// the identification bytes of a long header, least significant first
pub open spec fn sp_long_id(d: Seq<u8>) -> Seq<u8> {
    if d[0] == 0x76 { seq![d[4], d[3], d[2], d[1]] } else { seq![d[1], d[2], d[3], d[4]] }
}
pub open spec fn sp_is_short_ci(b: u8) -> bool { b == 0x7A || 0xA0 <= b <= 0xAF }
/// first byte after the control information: A0 carries one more configuration byte
pub open spec fn sp_short_at(b: u8) -> int { if b == 0xA0 { 2 } else { 1 } }

pub open spec fn sp_long_block(r: Result<UserDataBlock<'_>, ApplicationLayerError>, d: Seq<u8>) -> bool {
    if d.len() < 13 || !sp_bcd4_ok(sp_long_id(d)) { r is Err }
    else {
        match r {
            Ok(UserDataBlock::VariableDataStructureWithLongTplHeader { extended_link_layer, long_tpl_header: h, variable_data_block }) => {
                extended_link_layer is None
                && h.identification_number.number == sp_bcd4(sp_long_id(d))
                && (match h.manufacturer { Ok(m) => sp_man_ok(sp_le(d[5], d[6])) && sp_is_man(m, sp_le(d[5], d[6])), Err(_) => !sp_man_ok(sp_le(d[5], d[6])) })
                && h.version == d[7]
                && h.device_type == sp_device(d[8])
                && sp_short_header(h.short_tpl_header, d, 9)
                && h.lsb_order == (d[0] == 0x76)
                && variable_data_block@ == sp_tail(d, 13)
            },
            _ => false,
        }
    }
}

pub open spec fn sp_fixed_block(r: Result<UserDataBlock<'_>, ApplicationLayerError>, d: Seq<u8>) -> bool {
    if d.len() < 17 || !sp_bcd4_ok(d.subrange(1, 5)) || !sp_bcd4_ok(d.subrange(9, 13)) || !sp_bcd4_ok(d.subrange(13, 17)) { r is Err }
    else {
        match r {
            Ok(UserDataBlock::FixedDataStructure { identification_number, access_number, status, device_type_and_unit, counter1, counter2 }) => {
                identification_number.number == sp_bcd4(d.subrange(1, 5))
                && access_number == d[5]
                && status.flag_bits == d[6]
                && device_type_and_unit == sp_le(d[8], d[7])
                && counter1.count == sp_bcd4(d.subrange(9, 13))
                && counter2.count == sp_bcd4(d.subrange(13, 17))
            },
            _ => false,
        }
    }
}

pub open spec fn sp_short_block(r: Result<UserDataBlock<'_>, ApplicationLayerError>, d: Seq<u8>) -> bool {
    let o = sp_short_at(d[0]);
    if d.len() < o + 4 { r is Err }
    else {
        match r {
            Ok(UserDataBlock::VariableDataStructureWithShortTplHeader { extended_link_layer, short_tpl_header, variable_data_block }) =>
                extended_link_layer is None && sp_short_header(short_tpl_header, d, o) && variable_data_block@ == sp_tail(d, o + 4),
            _ => false,
        }
    }
}

pub open spec fn sp_bare_block(r: Result<UserDataBlock<'_>, ApplicationLayerError>, d: Seq<u8>) -> bool {
    match r {
        Ok(UserDataBlock::VariableDataStructureWithoutTplHeader { extended_link_layer, variable_data_block }) =>
            extended_link_layer is None && variable_data_block@ == sp_tail(d, 1),
        _ => false,
    }
}

pub open spec fn sp_reset_block(r: Result<UserDataBlock<'_>, ApplicationLayerError>, d: Seq<u8>) -> bool {
    if d.len() < 2 { r is Err }
    else { match r { Ok(UserDataBlock::ResetAtApplicationLevel { subcode }) => subcode == sp_subcode(d[1]), _ => false } }
}
pub open spec fn sp_subcode(v: u8) -> ApplicationResetSubcode {
    let k = v % 16;
    if k == 0 { ApplicationResetSubcode::All(v) }
    else if k == 1 { ApplicationResetSubcode::UserData(v) }
    else if k == 2 { ApplicationResetSubcode::SimpleBilling(v) }
    else if k == 3 { ApplicationResetSubcode::EnhancedBilling(v) }
    else if k == 4 { ApplicationResetSubcode::MultiTariffBilling(v) }
    else if k == 5 { ApplicationResetSubcode::InstantaneousValues(v) }
    else if k == 6 { ApplicationResetSubcode::LoadManagementValues(v) }
    else if k == 7 { ApplicationResetSubcode::Reserved1(v) }
    else if k == 8 { ApplicationResetSubcode::InstallationStartup(v) }
    else if k == 9 { ApplicationResetSubcode::Testing(v) }
    else if k == 10 { ApplicationResetSubcode::Calibration(v) }
    else if k == 11 { ApplicationResetSubcode::ConfigurationUpdates(v) }
    else if k == 12 { ApplicationResetSubcode::Manufacturing(v) }
    else if k == 13 { ApplicationResetSubcode::Development(v) }
    else if k == 14 { ApplicationResetSubcode::Selftest(v) }
    else { ApplicationResetSubcode::Reserved2(v) }
}

pub open spec fn sp_ell_plain(e: Option<ExtendedLinkLayer>, d: Seq<u8>) -> bool {
    match e {
        Some(x) => x.communication_control == d[1] && x.access_number == d[2] && x.receiver_address is None && x.encryption is None,
        None => false,
    }
}
/// extended link layer I: two bytes, then a block with a short or no header
pub open spec fn sp_ell1_block(r: Result<UserDataBlock<'_>, ApplicationLayerError>, d: Seq<u8>) -> bool {
    if d.len() < 4 { r is Err }
    else {
        let t = sp_tail(d, 3);
        if sp_is_short_ci(t[0]) {
            let o = sp_short_at(t[0]);
            if t.len() < o + 4 { r is Err }
            else {
                match r {
                    Ok(UserDataBlock::VariableDataStructureWithShortTplHeader { extended_link_layer, short_tpl_header, variable_data_block }) =>
                        sp_ell_plain(extended_link_layer, d) && sp_short_header(short_tpl_header, t, o) && variable_data_block@ =~= sp_tail(t, o + 4),
                    _ => false,
                }
            }
        } else if t[0] == 0x78 {
            match r {
                Ok(UserDataBlock::VariableDataStructureWithoutTplHeader { extended_link_layer, variable_data_block }) =>
                    sp_ell_plain(extended_link_layer, d) && variable_data_block@ =~= sp_tail(t, 1),
                _ => false,
            }
        } else { r is Err }
    }
}

/// extended link layer II / III starting at d[o]
pub open spec fn sp_ell2(e: ExtendedLinkLayer, d: Seq<u8>, o: int) -> bool {
    e.communication_control == d[o] && e.access_number == d[o + 1] && e.receiver_address is None
    && (match e.encryption { Some(x) => x.session_number@ =~= d.subrange(o + 2, o + 6) && x.payload_crc == sp_le(d[o + 6], d[o + 7]), None => false })
}
pub open spec fn sp_ell3(e: ExtendedLinkLayer, d: Seq<u8>, o: int) -> bool {
    e.communication_control == d[o] && e.access_number == d[o + 1]
    && (match e.receiver_address { Some(x) => x.manufacturer == sp_le(d[o + 2], d[o + 3]) && x.address@ =~= d.subrange(o + 4, o + 10), None => false })
    && (match e.encryption { Some(x) => x.session_number@ =~= d.subrange(o + 10, o + 14) && x.payload_crc == sp_le(d[o + 14], d[o + 15]), None => false })
}
pub open spec fn sp_ell23_block(r: Result<UserDataBlock<'_>, ApplicationLayerError>, d: Seq<u8>) -> bool {
    let n: int = if d[0] == 0x8D { 9 } else { 17 };
    if d.len() < n { r is Err }
    else {
        match r {
            Ok(UserDataBlock::VariableDataStructureWithShortTplHeader { extended_link_layer, short_tpl_header: h, variable_data_block }) => {
                (match extended_link_layer { Some(e) => if d[0] == 0x8D { sp_ell2(e, d, 1) } else { sp_ell3(e, d, 1) }, None => false })
                && h.access_number == d[2] && h.status.flag_bits == d[1] && h.configuration_field.raw == 0
                && variable_data_block@ == sp_tail(d, n)
            },
            _ => false,
        }
    }
}

/// P13: what decoding the byte string d must answer
pub open spec fn sp_block(r: Result<UserDataBlock<'_>, ApplicationLayerError>, d: Seq<u8>) -> bool {
    if d.len() == 0 { r is Err }
    else if d[0] == 0x50 { sp_reset_block(r, d) }
    else if d[0] == 0x72 || d[0] == 0x76 { sp_long_block(r, d) }
    else if d[0] == 0x73 || d[0] == 0x77 { sp_fixed_block(r, d) }
    else if d[0] == 0x78 { sp_bare_block(r, d) }
    else if sp_is_short_ci(d[0]) { sp_short_block(r, d) }
    else if d[0] == 0x8C { sp_ell1_block(r, d) }
    else if d[0] == 0x8D || d[0] == 0x8E { sp_ell23_block(r, d) }
    else { r is Err }
}

// ---- encryption state of a block -------------------------------------------------
pub open spec fn sp_cf_enc(raw: u16) -> bool { (raw as int / 256) % 32 != 0 }

pub open spec fn sp_ell_enc(e: Option<ExtendedLinkLayer>) -> bool { match e { Some(x) => x.encryption is Some, None => false } }

/// a decoded block is encrypted
pub open spec fn sp_block_enc(b: UserDataBlock<'_>) -> bool {
    match b {
        UserDataBlock::VariableDataStructureWithLongTplHeader { long_tpl_header, .. } => sp_cf_enc(long_tpl_header.short_tpl_header.configuration_field.raw),
        UserDataBlock::VariableDataStructureWithShortTplHeader { extended_link_layer, short_tpl_header, .. } =>
            sp_cf_enc(short_tpl_header.configuration_field.raw) || sp_ell_enc(extended_link_layer),
        _ => false,
    }
}
/// the record payload of a decoded block
pub open spec fn sp_block_data(b: UserDataBlock<'_>) -> Option<Seq<u8>> {
    match b {
        UserDataBlock::VariableDataStructureWithLongTplHeader { variable_data_block, .. } => Some(variable_data_block@),
        UserDataBlock::VariableDataStructureWithShortTplHeader { variable_data_block, .. } => Some(variable_data_block@),
        UserDataBlock::VariableDataStructureWithoutTplHeader { variable_data_block, .. } => Some(variable_data_block@),
        _ => None,
    }
}
pub open spec fn sp_block_lsb(b: UserDataBlock<'_>) -> bool {
    match b { UserDataBlock::VariableDataStructureWithLongTplHeader { long_tpl_header, .. } => long_tpl_header.lsb_order, _ => false }
}

/// where the record payload of the byte string d starts; 0: there is none
pub open spec fn sp_payload_at(d: Seq<u8>) -> int {
    if d[0] == 0x72 || d[0] == 0x76 { 13 }
    else if d[0] == 0x78 { 1 }
    else if sp_is_short_ci(d[0]) { sp_short_at(d[0]) + 4 }
    else if d[0] == 0x8D { 9 }
    else if d[0] == 0x8E { 17 }
    else if d[0] == 0x8C { if sp_is_short_ci(d[3]) { 3 + sp_short_at(d[3]) + 4 } else { 4 } }
    else { 0 }
}
/// the bytes announce an encrypted payload: security mode not zero, or extended link layer II/III
pub open spec fn sp_bytes_enc(d: Seq<u8>) -> bool {
    if d[0] == 0x72 || d[0] == 0x76 { d[12] % 32 != 0 }
    else if sp_is_short_ci(d[0]) { d[sp_short_at(d[0]) + 3] % 32 != 0 }
    else if d[0] == 0x8D || d[0] == 0x8E { true }
    else if d[0] == 0x8C && sp_is_short_ci(d[3]) { d[3 + sp_short_at(d[3]) + 3] % 32 != 0 }
    else { false }
}
/// P14, first half: a decoded block is encrypted exactly when its bytes say so
pub open spec fn sp_enc_block(r: Result<UserDataBlock<'_>, ApplicationLayerError>, d: Seq<u8>) -> bool {
    match r {
        Ok(b) => {
            d.len() > 0
            && sp_block_enc(b) == sp_bytes_enc(d)
            && (match b {
                UserDataBlock::VariableDataStructureWithLongTplHeader { .. } => d[0] == 0x72 || d[0] == 0x76,
                UserDataBlock::VariableDataStructureWithShortTplHeader { extended_link_layer, .. } =>
                    (sp_is_short_ci(d[0]) && !sp_ell_enc(extended_link_layer)) || 0x8C <= d[0] <= 0x8E,
                UserDataBlock::VariableDataStructureWithoutTplHeader { .. } => d[0] == 0x78 || d[0] == 0x8C,
                _ => true,
            })
            && (match sp_block_data(b) {
                Some(s) => 0 < sp_payload_at(d) <= d.len() && s =~= sp_tail(d, sp_payload_at(d)),
                None => sp_payload_at(d) == 0,
            })
            && sp_block_lsb(b) == (d[0] == 0x76)
        },
        Err(_) => true,
    }
}
