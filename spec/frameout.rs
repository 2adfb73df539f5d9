//@need m_bus_parser::output::DecodedOutput
//@need m_bus_parser::output::OutputError
//@need m_bus_parser::output::SecurityContext
//@need m_bus_parser::output::Diagnostic
//@need m_bus_parser::output::FrameOutput
//@need m_bus_parser::output::SecurityOutput
//@need m_bus_parser::output::RecordOutput
//@need m_bus_parser::output::RawOutput
//@need m_bus_parser::MbusError
//@need m_bus_core::decryption::DecryptionError
//@need m_bus_application_layer::DataRecords
//@need wired_mbus_link_layer::Address
//@need wired_mbus_link_layer::Address::Display::fmt
// What the typed output says about a whole frame.
use crate::m_bus_core::*;
use crate::m_bus_core::decryption::*;
use crate::m_bus_application_layer::*;
use crate::m_bus_parser::output::*;
use crate::m_bus_parser::MbusError;
use crate::wireless_mbus_link_layer::{ManufacturerId, WirelessFrame};
use crate::wired_mbus_link_layer::{WiredFrame, Address};

impl VToStr for ApplicationLayerError {
    uninterp spec fn sp_str(&self) -> Seq<char>;
    #[verifier::external_body]
    fn v_to_string(&self) -> (r: String) { unimplemented!() }
}
impl VToStr for MbusError {
    uninterp spec fn sp_str(&self) -> Seq<char>;
    #[verifier::external_body]
    fn v_to_string(&self) -> (r: String) { unimplemented!() }
}
impl VToStr for DecryptionError {
    uninterp spec fn sp_str(&self) -> Seq<char>;
    #[verifier::external_body]
    fn v_to_string(&self) -> (r: String) { unimplemented!() }
}

// ---- the parsed frame
pub open spec fn sp_app(u: Option<UserDataBlock<'_>>, e: Option<ApplicationLayerError>, p: Seq<u8>) -> bool {
    match u {
        Some(b) => e is None && sp_block(Ok::<UserDataBlock<'_>, ApplicationLayerError>(b), p),
        None => match e { Some(x) => sp_block(Err::<UserDataBlock<'_>, ApplicationLayerError>(x), p), None => false },
    }
}
pub open spec fn sp_wired_app(f: WiredFrame<'_>, u: Option<UserDataBlock<'_>>, e: Option<ApplicationLayerError>) -> bool {
    match f { WiredFrame::LongFrame { data, .. } => sp_app(u, e, data@), _ => u is None && e is None }
}
pub open spec fn sp_wired_parsed(d: Seq<u8>, f: WiredFrame<'_>, u: Option<UserDataBlock<'_>>, e: Option<ApplicationLayerError>) -> bool {
    sp_wired_matches(d, f) && sp_wired_app(f, u, e)
}
pub open spec fn sp_wireless_parsed(d: Seq<u8>, f: WirelessFrame<'_>, u: Option<UserDataBlock<'_>>, e: Option<ApplicationLayerError>) -> bool {
    sp_wireless(d, f) && sp_app(u, e, f.data@)
}
// the bytes read as records, with the header they follow
pub open spec fn sp_source(u: Option<UserDataBlock<'_>>) -> Option<Seq<u8>> { match u { Some(b) => sp_block_data(b), None => None } }
pub open spec fn sp_header(u: Option<UserDataBlock<'_>>) -> Option<LongTplHeader> {
    match u { Some(UserDataBlock::VariableDataStructureWithLongTplHeader { long_tpl_header, .. }) => Some(long_tpl_header), _ => None }
}
pub open spec fn sp_records_at(x: DataRecords<'_>, d: Seq<u8>, h: Option<LongTplHeader>) -> bool {
    x.offset == 0 && x.data@ == d && (match h { Some(l) => x.long_tpl_header is Some && *x.long_tpl_header->Some_0 == l, None => x.long_tpl_header is None })
}
pub open spec fn sp_block_valid(u: Option<UserDataBlock<'_>>) -> bool { match u { Some(b) => sp_block_ok(b), None => true } }
pub open spec fn sp_link_valid(u: Option<ManufacturerId>) -> bool { match u { Some(l) => sp_man_valid(l.manufacturer_code), None => true } }

// ---- decryption with the one key given
pub open spec fn sp_open_with(key: Seq<u8>, c: KeyContext, data: Seq<u8>, room: int) -> Option<Seq<u8>> {
    if data.len() == 0 || room < data.len() { None }
    else {
        match c.security_mode {
            SecurityMode::AesCbc128IvZero => Some(sp_plain(key, sp_repeat(0, 16), data)),
            SecurityMode::AesCbc128IvNonZero => Some(sp_plain(key, sp_iv(c), data)),
            _ => None,
        }
    }
}
pub open spec fn sp_open(b: UserDataBlock<'_>, link: Option<ManufacturerId>, key: Seq<u8>, room: int) -> Option<Seq<u8>> {
    match b {
        UserDataBlock::VariableDataStructureWithLongTplHeader { long_tpl_header: h, variable_data_block, .. } =>
            match h.manufacturer {
                Ok(m) => sp_open_with(key, sp_long_context(h, m), variable_data_block@, room),
                Err(_) => None,
            },
        UserDataBlock::VariableDataStructureWithShortTplHeader { short_tpl_header: h, variable_data_block, .. } =>
            match link {
                Some(l) => sp_open_with(key, KeyContext { manufacturer: l.manufacturer_code, identification_number: l.identification_number.number,
                    version: l.version, device_type: l.device_type, security_mode: sp_cf_mode(h.configuration_field.raw), access_number: h.access_number },
                    variable_data_block@, room),
                None => None,
            },
        _ => None,
    }
}
// what a key store answers through the interface is what its own search finds (P16)
#[verifier::external_body]
pub proof fn axiom_static_key<const N: usize>(p: &StaticKeyProvider<N>, c: KeyContext)
    ensures sp_provider_key(p, c) == (match sp_first_key(sp_keys(*p), sp_key_id(sp_man_id(c.manufacturer), c.identification_number as int)) {
        Some(k) => Ok::<Seq<u8>, DecryptionError>(k), None => Err(DecryptionError::KeyNotFound) }),
{}
pub proof fn lemma_one_key(m: int, n: int, k: [u8; 16])
    requires 0 <= m < 65536, 0 <= n < 0x1_0000_0000,
    ensures sp_first_key(Seq::<(u64, [u8; 16])>::empty().push((sp_key_id(m, n) as u64, k)), sp_key_id(m, n)) == Some(k@),
{ lemma_first_key_push(Seq::<(u64, [u8; 16])>::empty(), (sp_key_id(m, n) as u64, k), sp_key_id(m, n)); }

pub proof fn lemma_static_keys()
    ensures
        forall|p: StaticKeyProvider<1>, c: KeyContext| #[trigger] sp_provider_key(&p, c) == (match sp_first_key(sp_keys(p), sp_key_id(sp_man_id(c.manufacturer), c.identification_number as int)) {
            Some(k) => Ok::<Seq<u8>, DecryptionError>(k), None => Err(DecryptionError::KeyNotFound) }),
        forall|m: u16, n: u32, k: [u8; 16]| #[trigger] sp_first_key(Seq::<(u64, [u8; 16])>::empty().push((sp_key_id(m as int, n as int) as u64, k)), sp_key_id(m as int, n as int)) == Some(k@),
        forall|o: Seq<u8>, a: Seq<u8>, b: Seq<u8>| #![trigger a + b, o.subrange(0, a.len() as int)] o == a + b ==> o.subrange(0, a.len() as int) == a,
{
    assert forall|p: StaticKeyProvider<1>, c: KeyContext| #[trigger] sp_provider_key(&p, c) == (match sp_first_key(sp_keys(p), sp_key_id(sp_man_id(c.manufacturer), c.identification_number as int)) {
            Some(k) => Ok::<Seq<u8>, DecryptionError>(k), None => Err(DecryptionError::KeyNotFound) }) by { axiom_static_key(&p, c); }
    assert forall|m: u16, n: u32, k: [u8; 16]| #[trigger] sp_first_key(Seq::<(u64, [u8; 16])>::empty().push((sp_key_id(m as int, n as int) as u64, k)), sp_key_id(m as int, n as int)) == Some(k@) by { lemma_one_key(m as int, n as int, k); }
    assert forall|o: Seq<u8>, a: Seq<u8>, b: Seq<u8>| #![trigger a + b, o.subrange(0, a.len() as int)] o == a + b implies o.subrange(0, a.len() as int) == a by { assert(o.subrange(0, a.len() as int) =~= a); }
}
pub proof fn lemma_codes()
    ensures
        forall|d: Seq<Diagnostic>, x: Diagnostic| #[trigger] sp_codes(d.push(x)) == sp_codes(d).push(x.code@),
        sp_codes(Seq::<Diagnostic>::empty()) == Seq::<Seq<char>>::empty(),
{
    assert forall|d: Seq<Diagnostic>, x: Diagnostic| #[trigger] sp_codes(d.push(x)) == sp_codes(d).push(x.code@) by { assert(sp_codes(d.push(x)) =~= sp_codes(d).push(x.code@)); }
    assert(sp_codes(Seq::<Diagnostic>::empty()) =~= Seq::<Seq<char>>::empty());
}
pub open spec fn sp_prepared(r: Result<SecurityContext, OutputError>, b: Option<UserDataBlock<'_>>, link: Option<ManufacturerId>, key: Option<Seq<u8>>, room: int) -> bool {
    let (enc, mode, ell) = sp_secured(b);
    match r {
        Ok(c) => {
            &&& c.encrypted == enc && c.mode == mode && c.ell_encrypted == ell && c.key_supplied == (key is Some) && c.decrypted == (enc && key is Some)
            &&& if enc && key is Some { c.decrypted_payload is Some && b is Some && sp_open(b->Some_0, link, key->Some_0, room) == Some(c.decrypted_payload->Some_0@) }
                else { c.decrypted_payload is None }
        },
        Err(e) => enc && key is Some && e is Decryption && b is Some && sp_open(b->Some_0, link, key->Some_0, room) is None,
    }
}

// ---- the output
// the records listed for the bytes d behind the header h; `failed`: the list stops at bytes that are no record
pub uninterp spec fn sp_decodes(out: Seq<RecordOutput>, failed: Option<(usize, String)>, d: Seq<u8>, h: Option<LongTplHeader>) -> bool;
pub open spec fn sp_listed(out: Seq<RecordOutput>, failed: Option<(usize, String)>, d: Option<Seq<u8>>, h: Option<LongTplHeader>) -> bool {
    match d { Some(x) => sp_decodes(out, failed, x, h), None => out.len() == 0 && failed is None }
}
pub open spec fn sp_listed_by(out: Seq<RecordOutput>, failed: Option<(usize, String)>, x: Option<DataRecords<'_>>) -> bool {
    match x {
        Some(x) => sp_listed(out, failed, Some(x.data@), match x.long_tpl_header { Some(h) => Some(*h), None => None }),
        None => sp_listed(out, failed, None, None),
    }
}
pub open spec fn sp_given_records<'a>(x: Option<&DataRecords<'a>>) -> Option<DataRecords<'a>> { match x { Some(y) => Some(*y), None => None } }
pub open spec fn sp_opt_hex(o: Option<String>, b: Option<Seq<u8>>) -> bool {
    match b { Some(x) => sp_is(o, sp_hexes(x)), None => o is None }
}
pub open spec fn sp_security_out(o: SecurityOutput, s: (bool, Option<SecurityMode>, bool), key: bool, payload: Option<Seq<u8>>, plain: Option<Seq<u8>>) -> bool {
    let (enc, mode, ell) = s;
    &&& o.payload_protection@ == (if enc { "encrypted"@ } else if ell { "unknown"@ } else { "cleartext"@ })
    &&& o.decryption_state@ == (if !enc { "not_applicable"@ } else if plain is Some { "decrypted_unverified"@ } else { "key_missing"@ })
    &&& o.key_supplied == key
    &&& sp_opt_hex(o.encrypted_payload_hex, if enc { payload } else { None })
    &&& sp_opt_hex(o.decrypted_payload_hex, plain)
    &&& match mode {
            Some(m) => sp_is(o.mode, m.sp_str()) && o.mode_code is Some && (forall|k: int| 0 <= k < 32 && m == #[trigger] sp_mode(k) ==> o.mode_code == Some(k as u8)),
            None => o.mode is None && o.mode_code is None,
        }
}
pub open spec fn sp_codes(d: Seq<Diagnostic>) -> Seq<Seq<char>> { d.map_values(|x: Diagnostic| x.code@) }
pub open spec fn sp_one(c: bool, t: Seq<char>) -> Seq<Seq<char>> { if c { seq![t] } else { Seq::empty() } }
pub open spec fn sp_warned(enc: bool, plain: bool, key: bool, err: bool, failed: bool) -> Seq<Seq<char>> {
    sp_one(err, "application.partial"@)
    + (if enc && !plain { seq!["security.key_missing"@] } else if enc { seq!["security.decrypted_unverified"@] } else { sp_one(key, "security.key_unused"@) })
    + sp_one(failed, "application.record_partial"@)
}
pub open spec fn sp_state(o: DecodedOutput, enc: bool, plain: bool, key: bool, err: bool, failed: bool) -> bool {
    &&& o.decode_state@ == (if err || failed || (enc && !plain) { "partial"@ } else { "complete"@ })
    &&& sp_codes(o.diagnostics@) =~= sp_warned(enc, plain, key, err, failed)
}
pub open spec fn sp_contents(o: DecodedOutput, enc: bool, plain: bool, key: bool, err: bool, d: Option<Seq<u8>>, h: Option<LongTplHeader>) -> bool {
    exists|failed: Option<(usize, String)>| #[trigger] sp_listed(o.records@, failed, d, h) && sp_state(o, enc, plain, key, err, failed is Some)
}
// P24
pub open spec fn sp_answer(r: Result<DecodedOutput, OutputError>, b: Option<UserDataBlock<'_>>, err: bool, link: Option<ManufacturerId>, key: Option<Seq<u8>>, payload: Option<Seq<u8>>) -> bool {
    let s = sp_secured(b);
    let enc = s.0;
    let plain = if enc && key is Some && b is Some { sp_open(b->Some_0, link, key->Some_0, 512) } else { None };
    match r {
        Ok(o) => {
            &&& enc && key is Some ==> plain is Some
            &&& sp_security_out(o.security, s, key is Some, payload, plain)
            &&& sp_contents(o, enc, plain is Some, key is Some, err, if enc { plain } else { sp_source(b) }, if enc && plain is None { None } else { sp_header(b) })
        },
        Err(e) => e is Decryption && enc && key is Some && plain is None,
    }
}
pub open spec fn sp_key_seq(k: Option<[u8; 16]>) -> Option<Seq<u8>> { match k { Some(x) => Some(x@), None => None } }
pub open spec fn sp_key_given(k: Option<&[u8; 16]>) -> Option<Seq<u8>> { match k { Some(x) => Some(x@), None => None } }
pub open spec fn sp_given_seq(k: Option<&[u8]>) -> Option<Seq<u8>> { match k { Some(x) => Some(x@), None => None } }
pub open spec fn sp_wired_payload(f: WiredFrame<'_>) -> Option<Seq<u8>> {
    match f { WiredFrame::LongFrame { data, .. } => Some(data@), WiredFrame::ControlFrame { data, .. } => Some(data@), _ => None }
}
pub open spec fn sp_normalised(d: Seq<u8>, n: Seq<u8>) -> bool {
    exists|s: Option<Seq<u8>>| #[trigger] sp_strip(d, 512, s) && n == (match s { Some(x) => x, None => d })
}

pub open spec fn sp_wired_answer(r: Result<DecodedOutput, OutputError>, d: Seq<u8>, key: Option<Seq<u8>>) -> bool {
    exists|f: WiredFrame<'_>, u: Option<UserDataBlock<'_>>, e: Option<ApplicationLayerError>| #[trigger] sp_wired_parsed(d, f, u, e)
        && sp_answer(r, u, e is Some, None, key, sp_wired_payload(f))
}
pub open spec fn sp_wireless_answer(r: Result<DecodedOutput, OutputError>, n: Seq<u8>, key: Option<Seq<u8>>) -> bool {
    exists|f: WirelessFrame<'_>, u: Option<UserDataBlock<'_>>, e: Option<ApplicationLayerError>| #[trigger] sp_wireless_parsed(n, f, u, e)
        && sp_answer(r, u, e is Some, Some(f.manufacturer_id), key, Some(f.data@))
}
pub open spec fn sp_answered(r: Result<DecodedOutput, OutputError>, d: Seq<u8>, key: Option<Seq<u8>>) -> bool {
    if d.len() == 0 { r is Err && r->Err_0 is EmptyInput }
    else if sp_wired_ok(d) { sp_wired_answer(r, d, key) }
    else { exists|n: Seq<u8>| sp_normalised(d, n) && (if #[trigger] sp_wireless_ok(n) { sp_wireless_answer(r, n, key) } else { r is Err && r->Err_0 is InvalidFrame }) }
}

// ---- P23: headers
pub open spec fn sp_truth(b: bool) -> Seq<char> { if b { "true"@ } else { "false"@ } }
pub open spec fn sp_address_text(a: Address) -> Seq<char> {
    match a {
        Address::Uninitalized => "Uninitalized"@,
        Address::Primary(n) => "Primary ("@ + sp_dec(n as int) + ")"@,
        Address::Secondary => "Secondary"@,
        Address::Broadcast { reply_required } => "Broadcast (Reply Required: "@ + sp_truth(reply_required) + ")"@,
    }
}
pub open spec fn sp_function_name(f: Function) -> Seq<char> {
    match f {
        Function::SndNk { prm } => "SND_NKE (PRM: "@ + sp_truth(prm) + ")"@,
        Function::SndUd { fcb } => "SND_UD (FCB: "@ + sp_truth(fcb) + ")"@,
        Function::SndUd2 => "SND_UD2"@,
        Function::SndUd3 => "SND_UD3"@,
        Function::SndNr => "SND_NR"@,
        Function::SendIr => "SND_IR"@,
        Function::AccNr => "ACC_NR"@,
        Function::AccDmd => "ACC_DMD"@,
        Function::ReqUd1 { fcb } => "REQ_UD1 (FCB: "@ + sp_truth(fcb) + ")"@,
        Function::ReqUd2 { fcb } => "REQ_UD2 (FCB: "@ + sp_truth(fcb) + ")"@,
        Function::RspUd { acd, dfc } => "RSP_UD (ACD: "@ + sp_truth(acd) + ", DFC: "@ + sp_truth(dfc) + ")"@,
        Function::Ack => "ACK"@,
        Function::Nack => "NACK"@,
        Function::CnfIr => "CNF_IR"@,
    }
}
pub open spec fn sp_raw_out(o: DecodedOutput, d: Seq<u8>, n: Seq<u8>, payload: Option<Seq<u8>>) -> bool {
    &&& o.raw.original_frame_hex@ == sp_hexes(d) && o.raw.normalized_frame_hex@ == sp_hexes(n) && o.raw.byte_length == d.len()
    &&& o.raw.format_a_crc_stripped == (d.len() != n.len()) && sp_opt_hex(o.raw.payload_hex, payload)
}
pub open spec fn sp_called(o: FrameOutput, kind: Seq<char>, f: Function, a: Address) -> bool {
    o.kind@ == kind && sp_is(o.function, sp_function_name(f)) && sp_is(o.address, sp_address_text(a)) && o.control_field is None
}
pub open spec fn sp_wired_frame(o: FrameOutput, f: WiredFrame<'_>) -> bool {
    match f {
        WiredFrame::LongFrame { function, address, .. } => sp_called(o, "long"@, function, address),
        WiredFrame::ControlFrame { function, address, .. } => sp_called(o, "control"@, function, address),
        WiredFrame::ShortFrame { function, address } => sp_called(o, "short"@, function, address),
        WiredFrame::SingleCharacter { .. } => o.kind@ == "single_character"@ && o.function is None && o.address is None && o.control_field is None,
    }
}
pub open spec fn sp_wireless_frame(o: FrameOutput, f: WirelessFrame<'_>) -> bool {
    &&& o.kind@ == "wireless"@ && o.address is None && sp_is(o.control_field, sp_hex(f.control_field as int, 2))
    &&& match f.function { Some(g) => sp_is(o.function, sp_function_name(g)), None => o.function is None }
}
pub open spec fn sp_heads(o: DecodedOutput, b: Option<UserDataBlock<'_>>, link: Option<ManufacturerId>) -> bool {
    sp_meter_out(o.meter, b, link) && sp_transport_out(o.transport, b)
}
pub open spec fn sp_wired_heads(o: DecodedOutput, d: Seq<u8>) -> bool {
    exists|f: WiredFrame<'_>, u: Option<UserDataBlock<'_>>, e: Option<ApplicationLayerError>| #[trigger] sp_wired_parsed(d, f, u, e)
        && o.protocol@ == "wired"@ && sp_wired_frame(o.frame, f) && sp_heads(o, u, None) && sp_raw_out(o, d, d, sp_wired_payload(f))
}
pub open spec fn sp_wireless_heads(o: DecodedOutput, d: Seq<u8>, n: Seq<u8>) -> bool {
    exists|f: WirelessFrame<'_>, u: Option<UserDataBlock<'_>>, e: Option<ApplicationLayerError>| #[trigger] sp_wireless_parsed(n, f, u, e)
        && o.protocol@ == "wireless"@ && sp_wireless_frame(o.frame, f) && sp_heads(o, u, Some(f.manufacturer_id)) && sp_raw_out(o, d, n, Some(f.data@))
}
pub open spec fn sp_headed(o: DecodedOutput, d: Seq<u8>) -> bool {
    if sp_wired_ok(d) { sp_wired_heads(o, d) }
    else { exists|n: Seq<u8>| sp_normalised(d, n) && #[trigger] sp_wireless_ok(n) && sp_wireless_heads(o, d, n) }
}
impl VToStr for Address {
    open spec fn sp_str(&self) -> Seq<char> { sp_address_text(*self) }
    fn v_to_string(&self) -> (r: String) { let mut f = crate::dep::Formatter::v_start(); let _ = self.fmt(&mut f); proof { assert(Seq::<char>::empty() + sp_address_text(*self) =~= sp_address_text(*self)); } f.v_done() }
}
