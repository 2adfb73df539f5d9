fn m_bus_parser::rscada_xml::render_fixed
  spec:
    ensures true,
fn m_bus_parser::rscada_xml::render_with_optional_decryption
  start:
        hide(sp_xmany); hide(sp_xhead); hide(sp_open);
  spec:
    requires
        sp_block_valid(sp_given_block(user_data)), sp_link_valid(sp_given_id(wireless_id)), sp_header(sp_given_block(user_data)) == Some(*header),
        sp_xparsed(sp_given_block(user_data), sp_given_records(records)),
    ensures sp_xsafe(r, sp_xopen() + sp_xlong(*header), sp_given_block(user_data), sp_given_id(wireless_id), sp_key_given(key)),
fn m_bus_parser::rscada_xml::render_wireless_with_optional_decryption
  start:
        hide(sp_xmany); hide(sp_xhead); hide(sp_open);
  spec:
    requires
        sp_block_valid(parsed.user_data), sp_link_valid(Some(parsed.frame.manufacturer_id)), sp_xparsed(parsed.user_data, parsed.data_records),
        parsed.user_data is Some && parsed.user_data->Some_0 is VariableDataStructureWithShortTplHeader,
    ensures sp_xsafe(r, sp_xradio(parsed.frame.manufacturer_id, access, status, signature), parsed.user_data, Some(parsed.frame.manufacturer_id), sp_key_given(key)),
fn m_bus_parser::rscada_xml::render_wireless
  start:
        hide(sp_xmany); hide(sp_xhead); hide(sp_open); hide(sp_xsafe);
  spec:
    requires sp_block_valid(parsed.user_data), sp_link_valid(Some(parsed.frame.manufacturer_id)), sp_xparsed(parsed.user_data, parsed.data_records),
    ensures sp_xanswer(r, parsed.user_data, Some(parsed.frame.manufacturer_id), sp_key_given(key)),
fn m_bus_parser::rscada_xml::render_from_bytes
  start:
        hide(sp_xmany); hide(sp_xhead); hide(sp_open); hide(sp_xsafe); hide(sp_block); hide(sp_wired_matches); hide(sp_wireless); hide(sp_strip); hide(sp_wired_ok); hide(sp_wireless_ok); hide(sp_wired_app); hide(sp_app);
        proof { assert(data@.subrange(0, data@.len() as int) =~= data@); }
  spec:
    ensures sp_xframe(r, data@, sp_key_given(key)),
fn m_bus_parser::output::render_bytes
  start:
        hide(sp_xframe);
  spec:
    ensures format is Xml ==> match r { Ok(t) => sp_xframe(Ok(t), data@, sp_key_seq(options.decode.key)), Err(_) => exists|m: String| #[trigger] sp_xframe(Err(m), data@, sp_key_seq(options.decode.key)) },
fn m_bus_parser::mbus_data::render_annotated_bytes
  spec:
    ensures true,
fn m_bus_parser::annotate::annotate_and_render
  spec:
    ensures true,
fn m_bus_parser::output::render_table
  spec:
    ensures true,
fn m_bus_parser::output::render_csv
  spec:
    ensures true,
fn m_bus_parser::output::render_mermaid
  spec:
    ensures true,
