// The XML output of a whole frame: which header, which bytes are read as records.
use crate::m_bus_core::*;
use crate::m_bus_application_layer::*;
use crate::wireless_mbus_link_layer::{ManufacturerId, WirelessFrame};
use crate::wired_mbus_link_layer::WiredFrame;
// header, the records of the bytes d (none: no records), end
pub open spec fn sp_xdone(r: Result<String, String>, head: Seq<char>, d: Option<Seq<u8>>) -> bool {
    match r {
        Ok(t) => match d { Some(x) => sp_xmany(t@, head, x, 0), None => t@ == head + "</MBusData>\n"@ },
        Err(_) => false,
    }
}
pub open spec fn sp_xradio(l: ManufacturerId, access: Option<u8>, status: Option<u8>, signature: Option<u16>) -> Seq<char> {
    sp_xhead(sp_xopen(), l.identification_number.number, sp_man_text(l.manufacturer_code), l.version, sp_device_code(l.device_type), access, status, signature)
}
// the records of the payload; of an encrypted one with a key those of the plain text, without a key none
pub open spec fn sp_xsafe(r: Result<String, String>, head: Seq<char>, b: Option<UserDataBlock<'_>>, link: Option<ManufacturerId>, key: Option<Seq<u8>>) -> bool {
    if !sp_xsecret(b) { sp_xdone(r, head, sp_source(b)) }
    else {
        match key {
            None => sp_xdone(r, head, None),
            Some(k) => match sp_open(b->Some_0, link, k, 512) { Some(p) => sp_xdone(r, head, Some(p)), None => r is Err },
        }
    }
}
pub open spec fn sp_xsecret(b: Option<UserDataBlock<'_>>) -> bool { sp_secured(b).0 || sp_secured(b).2 }
pub open spec fn sp_xanswer(r: Result<String, String>, b: Option<UserDataBlock<'_>>, link: Option<ManufacturerId>, key: Option<Seq<u8>>) -> bool {
    match b {
        Some(UserDataBlock::VariableDataStructureWithLongTplHeader { long_tpl_header, .. }) =>
            if link is None && key is None { sp_xdone(r, sp_xopen() + sp_xlong(long_tpl_header), sp_source(b)) }
            else { sp_xsafe(r, sp_xopen() + sp_xlong(long_tpl_header), b, link, key) },
        Some(UserDataBlock::FixedDataStructure { .. }) => r is Ok,
        _ => match link {
            None => r is Err,
            Some(l) => match b {
                Some(UserDataBlock::VariableDataStructureWithShortTplHeader { extended_link_layer, short_tpl_header: h, .. }) =>
                    if sp_secured(b).1 is None { sp_xsafe(r, sp_xradio(l, Some(extended_link_layer->Some_0.access_number), None, None), b, link, key) }
                    else { sp_xsafe(r, sp_xradio(l, Some(h.access_number), Some(h.status.flag_bits), Some(h.configuration_field.raw)), b, link, key) },
                Some(UserDataBlock::VariableDataStructureWithoutTplHeader { extended_link_layer, .. }) =>
                    sp_xdone(r, sp_xradio(l, match extended_link_layer { Some(e) => Some(e.access_number), None => None }, None, None), sp_source(b)),
                _ => sp_xdone(r, sp_xradio(l, None, None, None), None),
            },
        },
    }
}
pub open spec fn sp_xwired(r: Result<String, String>, d: Seq<u8>, key: Option<Seq<u8>>) -> bool {
    exists|f: WiredFrame<'_>, u: Option<UserDataBlock<'_>>, e: Option<ApplicationLayerError>| #[trigger] sp_wired_parsed(d, f, u, e) && sp_xanswer(r, u, None, key)
}
pub open spec fn sp_xwireless(r: Result<String, String>, n: Seq<u8>, key: Option<Seq<u8>>) -> bool {
    exists|f: WirelessFrame<'_>, u: Option<UserDataBlock<'_>>, e: Option<ApplicationLayerError>| #[trigger] sp_wireless_parsed(n, f, u, e) && sp_xanswer(r, u, Some(f.manufacturer_id), key)
}
pub open spec fn sp_xframe(r: Result<String, String>, d: Seq<u8>, key: Option<Seq<u8>>) -> bool {
    if sp_wired_ok(d) { sp_xwired(r, d, key) }
    else { exists|n: Seq<u8>| sp_normalised(d, n) && (if #[trigger] sp_wireless_ok(n) { sp_xwireless(r, n, key) } else { r is Err }) }
}
pub open spec fn sp_xparsed(u: Option<UserDataBlock<'_>>, x: Option<DataRecords<'_>>) -> bool {
    match sp_source(u) { Some(d) => x is Some && x->Some_0.offset == 0 && x->Some_0.data@ == d, None => x is None }
}
