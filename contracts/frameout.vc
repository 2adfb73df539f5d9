fn wired_mbus_link_layer::Address::Display::fmt
  inherent: yes
  spec:
    ensures final(f)@ =~= old(f)@ + sp_address_text(*self), r is Ok,

fn m_bus_parser::output::frame_function_name
  spec@P23:
    ensures r@ =~= sp_function_name(*function),
  spec@P24,P27:
    ensures true,

fn m_bus_parser::output::enrichment_for
  spec:
    ensures true,

fn m_bus_parser::mbus_data::MbusData<WiredFrame>::TryFrom<&[u8]>::try_from
  inherent: yes
  spec:
    ensures
        r is Ok <==> sp_wired_ok(data@),
        match r {
            Ok(m) => sp_block_valid(m.user_data) && sp_wired_parsed(data@, m.frame, m.user_data, m.application_error)
                && (match sp_source(m.user_data) { Some(d) => m.data_records is Some && sp_records_at(m.data_records->Some_0, d, None), None => m.data_records is None }),
            Err(_) => true,
        },

fn m_bus_parser::mbus_data::MbusData<WirelessFrame>::TryFrom<&[u8]>::try_from
  inherent: yes
  spec:
    ensures
        r is Ok <==> sp_wireless_ok(data@),
        match r {
            Ok(m) => sp_block_valid(m.user_data) && sp_link_valid(Some(m.frame.manufacturer_id)) && sp_wireless_parsed(data@, m.frame, m.user_data, m.application_error)
                && (match sp_source(m.user_data) { Some(d) => m.data_records is Some && sp_records_at(m.data_records->Some_0, d, None), None => m.data_records is None }),
            Err(_) => true,
        },

fn m_bus_parser::output::decrypt_user_data
  spec@P24,P27:
    requires sp_block_ok(*user_data), sp_link_valid(sp_given_id(wireless_id)),
    ensures
        final(output)@.len() == old(output)@.len(),
        match r {
            Ok(n) => n <= final(output)@.len() && sp_open(*user_data, sp_given_id(wireless_id), key@, old(output)@.len() as int) == Some(final(output)@.subrange(0, n as int)),
            Err(_) => sp_open(*user_data, sp_given_id(wireless_id), key@, old(output)@.len() as int) is None,
        },
  spec@P23:
    ensures true,

  start@P24,P27:
        proof { lemma_static_keys(); assert(output.len() == output@.len()); }

fn m_bus_parser::output::prepare_security
  spec@P24,P27:
    requires sp_block_valid(sp_given_block(user_data)), sp_link_valid(sp_given_id(wireless_id)),
    ensures sp_prepared(r, sp_given_block(user_data), sp_given_id(wireless_id), sp_key_given(key), old(output)@.len() as int),
  spec@P23:
    ensures true,

fn m_bus_parser::output::decrypted_records
  spec@P23:
    ensures true,
  spec@!P23:
    ensures match sp_source(sp_given_block(block)) {
        Some(_) => r is Some && sp_records_at(r->Some_0, decrypted@, sp_header(sp_given_block(block))),
        None => r is None,
    },

fn m_bus_parser::output::build_output
  spec@P24,P27:
    requires security_context.decrypted == (security_context.decrypted_payload is Some), security_context.decrypted ==> security_context.encrypted,
    ensures
        sp_security_out(r.security, (security_context.encrypted, security_context.mode, security_context.ell_encrypted), security_context.key_supplied, sp_given_seq(payload),
            match security_context.decrypted_payload { Some(p) => Some(p@), None => None }),
        exists|failed: Option<(usize, String)>| #[trigger] sp_listed_by(r.records@, failed, sp_given_records(records))
            && sp_state(r, security_context.encrypted, security_context.decrypted, security_context.key_supplied, application_error is Some, failed is Some),
  spec@P23:
    ensures
        r.protocol@ == protocol@, r.frame == frame, sp_heads(r, sp_given_block(user_data), sp_given_id(wireless_id)),
        r.raw.original_frame_hex@ == sp_hexes(original@) && r.raw.normalized_frame_hex@ == sp_hexes(normalized@) && r.raw.byte_length == original@.len(),
        r.raw.format_a_crc_stripped == format_a_crc_stripped && sp_opt_hex(r.raw.payload_hex, sp_given_seq(payload)),

  start@P24,P27:
        proof { lemma_codes(); }
  end@P24,P27:
        proof {
            assert(sp_codes(__r.diagnostics@) =~= sp_warned(security_context.encrypted, security_context.decrypted, security_context.key_supplied, application_error is Some, record_error is Some));
            assert(sp_listed_by(__r.records@, record_error, sp_given_records(records)));
        }

fn m_bus_parser::output::build_wired_output
  spec@P24,P27:
    requires security_context.decrypted == (security_context.decrypted_payload is Some), security_context.decrypted ==> security_context.encrypted,
    ensures
        sp_security_out(r.security, (security_context.encrypted, security_context.mode, security_context.ell_encrypted), security_context.key_supplied, sp_wired_payload(parsed.frame),
            match security_context.decrypted_payload { Some(p) => Some(p@), None => None }),
        exists|failed: Option<(usize, String)>| #[trigger] sp_listed_by(r.records@, failed, parsed.data_records)
            && sp_state(r, security_context.encrypted, security_context.decrypted, security_context.key_supplied, parsed.application_error is Some, failed is Some),
  spec@P23:
    ensures
        r.protocol@ == "wired"@, sp_wired_frame(r.frame, parsed.frame), sp_heads(r, parsed.user_data, None), sp_raw_out(r, original@, original@, sp_wired_payload(parsed.frame)),

fn m_bus_parser::output::build_wireless_output
  spec@P24,P27:
    requires security_context.decrypted == (security_context.decrypted_payload is Some), security_context.decrypted ==> security_context.encrypted,
    ensures
        sp_security_out(r.security, (security_context.encrypted, security_context.mode, security_context.ell_encrypted), security_context.key_supplied, Some(parsed.frame.data@),
            match security_context.decrypted_payload { Some(p) => Some(p@), None => None }),
        exists|failed: Option<(usize, String)>| #[trigger] sp_listed_by(r.records@, failed, parsed.data_records)
            && sp_state(r, security_context.encrypted, security_context.decrypted, security_context.key_supplied, parsed.application_error is Some, failed is Some),
  spec@P23:
    requires format_a_crc_stripped == (original@.len() != normalized@.len()),
    ensures
        r.protocol@ == "wireless"@, sp_wireless_frame(r.frame, parsed.frame), sp_heads(r, parsed.user_data, Some(parsed.frame.manufacturer_id)),
        sp_raw_out(r, original@, normalized@, Some(parsed.frame.data@)),

fn m_bus_parser::output::decode_bytes
  start@P24,P27:
        hide(sp_open); hide(sp_security_out); hide(sp_state); hide(sp_block_ok); hide(sp_man_valid);
  start:
        hide(sp_block); hide(sp_wired_matches); hide(sp_wireless); hide(sp_strip); hide(sp_wired_ok); hide(sp_wireless_ok); hide(sp_wired_app); hide(sp_app);
  spec@P24,P27:
    ensures sp_answered(r, data@, sp_key_seq(options.key)),
  spec@P23:
    ensures match r { Ok(o) => sp_headed(o, data@), Err(_) => true },

fn m_bus_parser::output::collect_records
  spec@P24,P27:
    ensures sp_listed_by(r.0@, r.1, sp_given_records(records)),
  spec@P23:
    ensures true,

fn m_bus_application_layer::variable_user_data::DataRecords::From<&[u8]>::from
  fromspec: DataRecords { offset: 0, data: v, long_tpl_header: None }
  spec:
    ensures r.offset == 0, r.data@ == data@, r.long_tpl_header is None,

fn m_bus_core::decryption::StaticKeyProvider::KeyProvider::get_key @P24,P27
  spec:
    ensures true,

fn m_bus_parser::MbusError::From<FrameError>::from
  spec:
    ensures true,

fn m_bus_parser::MbusError::From<ApplicationLayerError>::from
  spec:
    ensures true,

fn m_bus_parser::MbusError::From<user_data::variable_user_data::DataRecordError>::from
  spec:
    ensures true,

fn m_bus_parser::MbusError::From<wireless_mbus_link_layer::FrameError>::from
  spec:
    ensures true,

fn m_bus_application_layer::data_information::DataRecordError::From<data_information::DataInformationError>::from
  spec:
    ensures true,

