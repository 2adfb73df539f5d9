fn m_bus_application_layer::ControlInformation::from
  spec@P13,P14:
    ensures
        byte == 0x50 ==> r == Ok::<ControlInformation, ApplicationLayerError>(ControlInformation::ResetAtApplicationLevel),
        byte == 0x72 ==> r == Ok::<ControlInformation, ApplicationLayerError>(ControlInformation::ResponseWithVariableDataStructure { lsb_order: false }),
        byte == 0x76 ==> r == Ok::<ControlInformation, ApplicationLayerError>(ControlInformation::ResponseWithVariableDataStructure { lsb_order: true }),
        byte == 0x73 || byte == 0x77 ==> r == Ok::<ControlInformation, ApplicationLayerError>(ControlInformation::ResponseWithFixedDataStructure),
        byte == 0x78 ==> r == Ok::<ControlInformation, ApplicationLayerError>(ControlInformation::ApplicationLayerNoTransport),
        sp_is_short_ci(byte) ==> r == Ok::<ControlInformation, ApplicationLayerError>(ControlInformation::ApplicationLayerShortTransport),
        byte == 0x8C ==> r == Ok::<ControlInformation, ApplicationLayerError>(ControlInformation::ExtendedLinkLayerI),
        byte == 0x8D ==> r == Ok::<ControlInformation, ApplicationLayerError>(ControlInformation::ExtendedLinkLayerII),
        byte == 0x8E ==> r == Ok::<ControlInformation, ApplicationLayerError>(ControlInformation::ExtendedLinkLayerIII),
        match r {
            Ok(ControlInformation::ResetAtApplicationLevel) => byte == 0x50,
            Ok(ControlInformation::ResponseWithVariableDataStructure { lsb_order }) => byte == 0x72 || byte == 0x76,
            Ok(ControlInformation::ResponseWithFixedDataStructure) => byte == 0x73 || byte == 0x77,
            Ok(ControlInformation::ApplicationLayerNoTransport) => byte == 0x78,
            Ok(ControlInformation::ApplicationLayerShortTransport) => sp_is_short_ci(byte),
            Ok(ControlInformation::ExtendedLinkLayerI) => byte == 0x8C,
            Ok(ControlInformation::ExtendedLinkLayerII) => byte == 0x8D,
            Ok(ControlInformation::ExtendedLinkLayerIII) => byte == 0x8E,
            _ => true,
        },
  spec@P05:
    ensures true,
  start@P13,P14:
        proof { assert(0x72u8 & 0x04 == 0) by (bit_vector); assert(0x76u8 & 0x04 != 0) by (bit_vector); }

fn m_bus_application_layer::ApplicationResetSubcode::from
  spec@P13:
    ensures r == sp_subcode(value),
  spec@P05:
    ensures true,
  start@P13:
        proof { assert(value & 0b1111 == value % 16) by (bit_vector); }

fn m_bus_application_layer::Counter::from_bcd_hex_digits
  spec@P13:
    ensures
        r is Ok <==> sp_bcd4_ok(digits@),
        match r { Ok(c) => c.count == sp_bcd4(digits@), Err(_) => true },
  spec@P05:
    ensures true,

fn m_bus_application_layer::extended_link_layer::ExtendedLinkLayer::parse
  spec@P13,P14:
    ensures
        match format {
            EllFormat::FormatI => true,
            EllFormat::FormatII => match r { Ok((e, n)) => data@.len() >= 8 && n == 8 && sp_ell2(e, data@, 0), Err(_) => data@.len() < 8 },
            EllFormat::FormatIII => match r { Ok((e, n)) => data@.len() >= 16 && n == 16 && sp_ell3(e, data@, 0), Err(_) => data@.len() < 16 },
        },
  spec@P05:
    ensures match r { Ok((e, n)) => n <= data@.len(), Err(_) => true },

fn m_bus_application_layer::extended_link_layer::ExtendedLinkLayer::parse_format_i
  spec@P13,P14:
    ensures true,
  spec@P05:
    ensures match r { Ok((e, n)) => n <= data@.len(), Err(_) => true },

fn m_bus_application_layer::extended_link_layer::ExtendedLinkLayer::parse_format_ii
  spec@P13,P14:
    ensures match r { Ok((e, n)) => data@.len() >= 8 && n == 8 && sp_ell2(e, data@, 0), Err(_) => data@.len() < 8 },
  spec@P05:
    ensures match r { Ok((e, n)) => n <= data@.len(), Err(_) => true },

fn m_bus_application_layer::extended_link_layer::ExtendedLinkLayer::parse_format_iii
  spec@P13,P14:
    ensures match r { Ok((e, n)) => data@.len() >= 16 && n == 16 && sp_ell3(e, data@, 0), Err(_) => data@.len() < 16 },
  spec@P05:
    ensures match r { Ok((e, n)) => n <= data@.len(), Err(_) => true },

fn m_bus_application_layer::UserDataBlock::TryFrom<&[u8]>::try_from
  inherent: yes
  spec@P13,P23,P24,P27:
    ensures sp_block(r, data@),
    decreases data@.len(),
  spec@P05:
    ensures match r { Ok(UserDataBlock::VariableDataStructureWithLongTplHeader { long_tpl_header, .. }) => sp_header_ok(long_tpl_header), _ => true },
    decreases data@.len(),
  attr@P13,P14: #[verifier::rlimit(400)]
  start@P13:
        proof { assert(forall|x: u8| #[trigger] (x & 255) == x) by (bit_vector); }
  start@P14:
        proof { assert forall|a: u8, b: u8| sp_cf_enc(#[trigger] sp_le(a, b)) == (b % 32 != 0) by { }; }
  spec@P14:
    ensures sp_enc_block(r, data@),
    decreases data@.len(),

fn m_bus_application_layer::DataRecords::new @!P05
  spec:
    ensures r.offset == 0, r.data == data, r.long_tpl_header == long_tpl_header,

fn m_bus_application_layer::parse_data_records @!P05
  spec:
    ensures r.offset == 0, r.data == data, r.long_tpl_header is None,

fn m_bus_application_layer::parse_data_records_with_header @!P05
  spec:
    ensures r.offset == 0, r.data == data, r.long_tpl_header == Some(header),

fn m_bus_application_layer::LongTplHeader::is_encrypted
  spec@P14,P15,P27:
    ensures r == (sp_cf_mode(self.short_tpl_header.configuration_field.raw) != SecurityMode::NoEncryption),
  spec@P05:
    ensures true,

fn m_bus_application_layer::ShortTplHeader::is_encrypted
  spec@P14,P15,P27:
    ensures r == (sp_cf_mode(self.configuration_field.raw) != SecurityMode::NoEncryption),
  spec@P05:
    ensures true,

fn m_bus_application_layer::UserDataBlock::is_encrypted
  spec@P14:
    ensures
        sp_block_enc(*self) ==> r == Some(true),
        !sp_block_enc(*self) ==> r != Some(true),
  spec@P05:
    ensures true,

fn m_bus_application_layer::UserDataBlock::data_records
  spec@P14:
    ensures
        sp_block_enc(*self) ==> r is None,
        match r {
            Some(x) => sp_block_data(*self) == Some(x.data@) && x.offset == 0
                && (match *self {
                    UserDataBlock::VariableDataStructureWithLongTplHeader { long_tpl_header, .. } => x.long_tpl_header == Some(&long_tpl_header),
                    _ => x.long_tpl_header is None,
                }),
            None => sp_block_enc(*self) || sp_block_data(*self) is None,
        },
  spec@P05:
    ensures match r { Some(x) => x.offset <= x.data@.len(), None => true },

fn m_bus_application_layer::UserDataBlock::variable_data_len
  spec@P15:
    ensures r == (match sp_block_data(*self) { Some(s) => s.len() as int, None => 0 }),
  spec@P05:
    ensures true,

fn m_bus_application_layer::UserDataBlock::decrypt_variable_data
  spec@P15,P24,P27:
    requires sp_block_ok(*self),
    ensures
        final(output)@.len() == old(output)@.len(),
        match *self {
            UserDataBlock::VariableDataStructureWithLongTplHeader { long_tpl_header, variable_data_block, .. } =>
                sp_decrypt_long(provider, long_tpl_header, variable_data_block@, old(output)@, final(output)@, r),
            _ => r is Err,
        },
  spec@P05:
    requires sp_block_ok(*self),

fn m_bus_application_layer::UserDataBlock::decrypt_variable_data_with_context
  spec@P15,P24,P27:
    requires sp_block_ok(*self), sp_man_valid(manufacturer),
    ensures
        final(output)@.len() == old(output)@.len(),
        match *self {
            UserDataBlock::VariableDataStructureWithLongTplHeader { long_tpl_header, variable_data_block, .. } =>
                sp_decrypt_long(provider, long_tpl_header, variable_data_block@, old(output)@, final(output)@, r),
            UserDataBlock::VariableDataStructureWithShortTplHeader { short_tpl_header, variable_data_block, .. } => {
                let c = KeyContext { manufacturer, identification_number, version, device_type,
                    security_mode: sp_cf_mode(short_tpl_header.configuration_field.raw), access_number: short_tpl_header.access_number };
                if c.security_mode == SecurityMode::NoEncryption { r is Err }
                else { sp_decrypted(sp_provider_key(provider, c), c, variable_data_block@, old(output)@, final(output)@, r) }
            },
            _ => r is Err,
        },
  spec@P05:
    requires sp_block_ok(*self), sp_man_valid(manufacturer),
