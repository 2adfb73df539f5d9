use crate::m_bus_core::*;
use crate::m_bus_core::decryption::*;
use crate::m_bus_application_layer::*;

pub open spec fn sp_long_context(h: LongTplHeader, m: ManufacturerCode) -> KeyContext {
    KeyContext {
        manufacturer: m,
        identification_number: h.identification_number.number,
        version: h.version,
        device_type: h.device_type,
        security_mode: sp_cf_mode(h.short_tpl_header.configuration_field.raw),
        access_number: h.short_tpl_header.access_number,
    }
}
pub open spec fn sp_header_ok(h: LongTplHeader) -> bool {
    match h.manufacturer { Ok(m) => sp_man_valid(m), Err(_) => true }
}
pub open spec fn sp_block_ok(b: UserDataBlock<'_>) -> bool {
    match b { UserDataBlock::VariableDataStructureWithLongTplHeader { long_tpl_header, .. } => sp_header_ok(long_tpl_header), _ => true }
}
/// outcome of decrypting a block with a long header: everything comes from the header
pub open spec fn sp_decrypt_long<K>(p: &K, h: LongTplHeader, data: Seq<u8>, old_out: Seq<u8>, new_out: Seq<u8>, r: Result<usize, DecryptionError>) -> bool {
    if sp_cf_mode(h.short_tpl_header.configuration_field.raw) == SecurityMode::NoEncryption { r is Err }
    else {
        match h.manufacturer {
            Err(_) => r is Err,
            Ok(m) => sp_decrypted(sp_provider_key(p, sp_long_context(h, m)), sp_long_context(h, m), data, old_out, new_out, r),
        }
    }
}
