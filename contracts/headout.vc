fn m_bus_core::IdentificationNumber::Display::fmt
  inherent: yes
  spec:
    ensures final(f)@ == old(f)@ + sp_id_text(*self), r is Ok,

fn m_bus_core::ManufacturerCode::Display::fmt
  inherent: yes
  spec:
    ensures final(f)@ == old(f)@ + sp_man_text(*self), r is Ok,

fn m_bus_parser::output::hex_string
  spec:
    ensures r@ == sp_hexes(data@),
  loop 0 before:
        proof { assert(data@.subrange(0, 0) =~= Seq::<u8>::empty()); }
  loop 0:
        invariant $i <= $e, $e == data@.len(), $s@ == data@, v_col@ == sp_hexes(data@.subrange(0, $i as int)),
        decreases $e - $i,
  loop 0 start:
        proof { assert(data@.subrange(0, $i as int).drop_last() =~= data@.subrange(0, $i - 1)); assert(data@.subrange(0, $i as int).last() == data@[$i - 1]); }
  loop 0 after:
        proof { assert(data@.subrange(0, $e as int) =~= data@); }

fn m_bus_parser::output::add_short_transport
  spec:
    requires old(transport).access_numbers@.len() == 0, old(transport).statuses@.len() == 0,
    ensures sp_short_out(*final(transport), source@, *header), final(transport).header_kind == old(transport).header_kind, final(transport).ell == old(transport).ell,

fn m_bus_parser::output::ell_output
  spec:
    ensures sp_ell_out(r, *ell),

fn m_bus_parser::output::identity_from_wireless
  spec:
    ensures sp_link(r, *id),

fn m_bus_parser::output::identity_from_long
  spec:
    ensures sp_long_identity(r, *header),

fn m_bus_parser::output::meter_and_transport
  spec:
    ensures sp_meter_out(r.0, sp_given_block(user_data), sp_given_id(wireless_id)), sp_transport_out(r.1, sp_given_block(user_data)),
  start:
        proof { lemma_sources(); }

fn m_bus_parser::output::security_fields
  spec:
    ensures r == sp_secured(sp_given_block(user_data)),

fn m_bus_core::DeviceType::Display::fmt
  inherent: yes
  spec:
    ensures final(f)@ =~= old(f)@ + sp_device_text(*self), r is Ok,

fn m_bus_application_layer::StatusField::Display::fmt
  inherent: yes
  spec:
    ensures final(f)@ =~= old(f)@ + sp_status_text(self.flag_bits), r is Ok,
  start:
    proof { lemma_mask(self.flag_bits); lemma_status(self.flag_bits); reveal_with_fuel(sp_flags, 9); lemma_all_no_bytes(); }
