fn m_bus_parser::rscada_xml::product_name
  spec:
    ensures r@ == sp_xproduct(manufacturer@, version, medium, id),
fn m_bus_parser::rscada_xml::medium_lookup
  spec:
    ensures r@ == sp_xmedium(medium),
fn m_bus_parser::rscada_xml::vib_unit_normalize
  spec:
    ensures match r {
        Some(x) => sp_xunit(vif, vifes@, sp_own(*custom_vif), value) == Some((x.0@, x.1, x.2@)),
        None => sp_xunit(vif, vifes@, sp_own(*custom_vif), value) is None,
    },
fn m_bus_parser::rscada_xml::function_string
  spec:
    ensures r@ == sp_xfunction(dif),
fn m_bus_parser::rscada_xml::storage_number
  loops: 1
  spec:
    requires difes@.len() <= 11,
    ensures r == sp_storage(dif, difes@, difes@.len() as int),
  loop 0 before:
        proof { reveal_with_fuel(sp_storage, 1); assert(1u64 << 0u64 == 1 && 1u64 << 1u64 == 2) by (bit_vector); }
  loop 0:
        invariant
            $i <= $e, $e == difes@.len(), $s@ == difes@, $e <= 11,
            bit_index == 4 * $i + 1,
            result == sp_storage(dif, difes@, $i as int), result < (1u64 << ((4 * $i + 1) as u64)),
        decreases $e - $i,
  loop 0 start:
        proof {
            let j = ($i - 1) as u64;
            assert(1u64 << 4u64 == 16) by (bit_vector);
            lemma_or_field(result, (dife % 16) as u64, 4, (4 * j + 1) as u64);
        }
fn m_bus_parser::rscada_xml::tariff
  loops: 1
  spec:
    requires difes@.len() <= 11,
    ensures r == sp_tariff(difes@, difes@.len() as int),
  loop 0 before:
        proof { reveal_with_fuel(sp_tariff, 1); assert(1u64 << 0u64 == 1) by (bit_vector); }
  loop 0:
        invariant
            $i <= $e, $e == difes@.len(), $s@ == difes@, $e <= 11,
            bit_index == 2 * $i,
            result == sp_tariff(difes@, $i as int), result < (1u64 << ((2 * $i) as u64)),
        decreases $e - $i,
  loop 0 start:
        proof {
            let j = ($i - 1) as u64;
            assert(1u64 << 2u64 == 4) by (bit_vector);
            lemma_or_field(result, ((dife / 16) % 4) as u64, 2, (2 * j) as u64);
        }
fn m_bus_parser::rscada_xml::device
  loops: 1
  spec:
    requires difes@.len() <= 11,
    ensures r == sp_subunit(difes@, difes@.len() as int),
  loop 0 before:
        proof { reveal_with_fuel(sp_subunit, 1); assert(1u64 << 0u64 == 1) by (bit_vector); }
  loop 0:
        invariant
            $i <= $e, $e == difes@.len(), $s@ == difes@, $e <= 11,
            result == sp_subunit(difes@, $i as int), result < (1u64 << ($i as u64)),
        decreases $e - $i,
  loop 0 start:
        proof {
            let j = ($i - 1) as u64;
            assert(1u64 << 1u64 == 2) by (bit_vector);
            lemma_or_field(result, ((dife / 64) % 2) as u64, 1, j);
        }
fn m_bus_parser::rscada_xml::int_decode
  loops: 1
  spec:
    requires 1 <= bytes@.len() <= 8,
    ensures r == f_of(sp_twos(bytes@, bytes@.len() as int)),
  loop 0:
        invariant
            $i <= bytes@.len(), 1 <= bytes@.len() <= 8, $s@ == bytes@, neg == (bytes@[bytes@.len() - 1] >= 128),
            value == sp_xint(bytes@, neg, $i as int), 
            $i == bytes@.len() ==> value == 0,
            $i < bytes@.len() ==> 0 <= value < 128 * sp_p256(bytes@.len() - 1 - $i),
        decreases $i,
  loop 0 start:
        proof {
            assert(forall|b: u8| #[trigger] (b ^ 0xFF) == 255 - b) by (bit_vector);
            lemma_xstep(bytes@, neg, $i as int, value as int);
        }
  loop 0 after:
        proof { lemma_xint(bytes@, neg, 0); reveal_with_fuel(sp_p256, 9); }
fn m_bus_parser::rscada_xml::bcd_decode
  loops: 1
  spec:
    requires 1 <= bytes@.len() <= 8,
    ensures r == f_of(sp_xsigned(bytes@, bytes@.len() as int)),
  loop 0:
        invariant
            $i <= bytes@.len(), 1 <= bytes@.len() <= 8, $s@ == bytes@,
            value == sp_xbcd(bytes@, bytes@.len() as int, $i as int), 0 <= value, 99 * value <= 105 * (sp_p100(bytes@.len() - $i) - 1),
        decreases $i,
  loop 0 start:
        proof { lemma_xbstep(bytes@, bytes@.len() as int, $i as int, value as int); }
fn m_bus_parser::rscada_xml::str_decode
  loops: 1
  spec:
    ensures r@ == sp_xstr(bytes@),
  loop 0:
        invariant $i <= bytes@.len(), $s@ == bytes@, v_col@.len() == bytes@.len() - $i, forall|j: int| 0 <= j < v_col@.len() ==> #[trigger] v_col@[j] == bytes@[bytes@.len() - 1 - j],
        decreases $i,
  loop 0 after:
        proof { assert(v_col@ =~= bytes@.reverse()); }
fn m_bus_parser::rscada_xml::bin_decode
  loops: 1
  spec:
    ensures r@ == sp_xbin(bytes@),
  loop 0 before:
        let ghost __ty: Seq<String> = v_col@;
  loop 0:
        invariant $i <= $e, $e == bytes@.len(), $s@ == bytes@, v_col@.len() == $i, forall|j: int| 0 <= j < $i ==> (#[trigger] v_col@[j])@ == sp_hex(bytes@[j] as int, 2),
        decreases $e - $i,
  loop 0 end:
        proof { assert(Seq::<char>::empty() + sp_hex(bytes@[$i - 1] as int, 2) =~= sp_hex(bytes@[$i - 1] as int, 2)); }
  loop 0 after:
        proof { assert(v_col@.map_values(|s: String| s@) =~= Seq::new(bytes@.len(), |i: int| sp_hex(bytes@[i] as int, 2))); }
fn m_bus_parser::rscada_xml::date_g_decode
  spec:
    ensures r@ == sp_xday(bytes@[0], bytes@[1]),
  start:
        proof {
            assert(forall|a: u8, b: u8| #[trigger] (((a & 0xE0) >> 5) | ((b & 0xF0) >> 1)) == a / 32 + 8 * (b / 16)) by (bit_vector);
        }
fn m_bus_parser::rscada_xml::date_f_decode
  spec:
    ensures r@ == sp_xf(bytes@),
  start:
        proof {
            assert(forall|a: u8, b: u8| #[trigger] (((a & 0xE0) >> 5) | ((b & 0xF0) >> 1)) == a / 32 + 8 * (b / 16)) by (bit_vector);
        }
fn m_bus_parser::rscada_xml::date_i_decode
  spec:
    ensures r@ == sp_xi(bytes@),
  start:
        proof {
            assert(forall|a: u8, b: u8| #[trigger] (((a & 0xE0) >> 5) | ((b & 0xF0) >> 1)) == a / 32 + 8 * (b / 16)) by (bit_vector);
        }
fn m_bus_parser::rscada_xml::variable_value_decode
  spec:
    ensures match r { Ok(v) => sp_xvalue(dif, vif_raw, vife0, data@) == Some(sp_xv(v)), Err(_) => sp_xvalue(dif, vif_raw, vife0, data@) is None },
  start:
        proof { lemma_xprefix(data@); }
fn m_bus_parser::rscada_xml::normalize_record
  loops: 3
  spec:
    requires exists|d: Seq<u8>| #[trigger] sp_record(*record, d),
    ensures sp_xr(r) == sp_xrecord(*record),
  start:
        let ghost h = record.data_record_header.raw_data_record_header;
        proof {
            let d = choose|d: Seq<u8>| #[trigger] sp_record(*record, d);
            lemma_header_size(h, d);
        }
  loop 0 before:
        let ghost __ty: Seq<u8> = v_col@;
  loop 0:
        invariant extensions.0@.len() <= 11, $i <= extensions.0@.len(), $it.0@ =~= extensions.0@.subrange($i as int, extensions.0@.len() as int), v_col@ =~= extensions.0@.subrange(0, $i as int),
        ensures v_col@ =~= extensions.0@,
        decreases $it.0@.len(),
  loop 1 before:
        let ghost __ty: Seq<u8> = v_col@;
  loop 1:
        invariant $i <= $e, $e == $s@.len(), $s@ == extensions@, v_col@.len() == $i, forall|j: int| 0 <= j < $i ==> #[trigger] v_col@[j] == extensions@[j].data,
        decreases $e - $i,
  loop 1 after:
        proof { assert(v_col@ =~= sp_datas(extensions@)); }
  loop 2:
        invariant $i <= $s@.len(), $s@ == chars@, v_col@.len() == chars@.len() - $i, forall|j: int| 0 <= j < v_col@.len() ==> #[trigger] v_col@[j] == chars@[chars@.len() - 1 - j],
        decreases $i,
  loop 2 after:
        proof { assert(v_col@ =~= chars@.reverse()); }
fn m_bus_parser::rscada_xml::render_variable_record
  spec:
    requires exists|d: Seq<u8>| #[trigger] sp_record(*record, d),
    ensures r@ == sp_xtext(index as int, *record),
fn m_bus_parser::rscada_xml::render_variable_header
  loops: 1
  spec:
    ensures r@ == sp_xlong(*header),
  start:
        proof { lemma_hex4(); }
  loop 0:
        invariant $i <= $e, $e == 3, $s@ == code.code@, v_col@ =~= code.code@.subrange(0, $i as int),
        decreases $e - $i,
  loop 0 after:
        proof { assert(v_col@ =~= sp_man_text(*code)); }
fn m_bus_parser::rscada_xml::render_variable
  attr: #[verifier::loop_isolation(false)]
  loops: 1
  spec:
    requires match records { Some(x) => x.offset <= x.data@.len(), None => true },
    ensures match records { Some(x) => sp_xmany(r@, sp_xopen() + sp_xlong(*header), x.data@, x.offset as int), None => r@ == sp_xopen() + sp_xlong(*header) + "</MBusData>\n"@ },
  start:
        hide(sp_record); hide(sp_xtext); hide(sp_at); hide(sp_skip); hide(sp_is_special);
  loop 0 before:
        let ghost base = out@;
        let ghost mut recs: Seq<crate::m_bus_application_layer::data_record::DataRecord<'_>> = Seq::empty();
        let ghost mut stopped = false;
        let ghost d = records.data@;
        let ghost o = records.offset as int;
        proof { assert(base == sp_xopen() + sp_xlong(*header)); }
        proof {
            lemma_at_first(recs, d, o); lemma_skip_up(d, o);
            assert(base + sp_xtexts(recs, 0) =~= base);
            assert(records.data.len() == records.data@.len());
            assert forall|i: int| 0 <= i <= d.len() implies i <= #[trigger] sp_skip(d, i) <= d.len() by { lemma_skip_up(d, i); }
        }
        #[verifier::allow_complex_invariants]
  loop 0:
        invariant_except_break
            stopped ==> $it.offset == d.len() && 0 <= sp_at(recs, d, o, recs.len() as int) < d.len() && !sp_is_special(d[sp_at(recs, d, o, recs.len() as int)]),
            !stopped ==> sp_skip(d, $it.offset as int) == sp_at(recs, d, o, recs.len() as int),
        invariant
            forall|i: int| 0 <= i <= d.len() ==> i <= #[trigger] sp_skip(d, i) <= d.len(),
            $it.data@ == d, $it.offset <= d.len(), d.len() <= usize::MAX,
            v_n == recs.len(), v_n <= $it.offset, $i <= $it.offset, sp_xrun(recs, d, o), out@ == base + sp_xtexts(recs, recs.len() as int),
        ensures sp_xlist(recs, d, o), out@ == base + sp_xtexts(recs, recs.len() as int),
        decreases d.len() - $it.offset,
  loop 0 start:
        let ghost was = recs;
        proof {
            if v_got is Ok {
                assert(sp_record(v_got->Ok_0, d.subrange(sp_at(recs, d, o, recs.len() as int), d.len() as int)));
                lemma_xrun(recs, v_got->Ok_0, d, o);
                lemma_at_push(recs, v_got->Ok_0, d, o);
                lemma_xtexts(recs, v_got->Ok_0, recs.len() as int);
                recs = recs.push(v_got->Ok_0);
            } else {
                stopped = true;
            }
        }
        let ghost before = out@;
  loop 0 end:
        proof { if v_got is Ok { assert(out@ =~= base + sp_xtexts(recs, recs.len() as int)); } }
  loop 0 after:
        proof { assert(sp_xlist(recs, d, o) && out@ == base + sp_xtexts(recs, recs.len() as int)); }
  end:
        proof {
            if records is Some { assert(exists|recs: Seq<crate::m_bus_application_layer::data_record::DataRecord<'_>>| #[trigger] sp_xlist(recs, records->Some_0.data@, records->Some_0.offset as int) && __r@ == sp_xopen() + sp_xlong(*header) + sp_xtexts(recs, recs.len() as int) + "</MBusData>\n"@); }
            else { assert(__r@ == sp_xopen() + sp_xlong(*header) + "</MBusData>\n"@); }
        }
fn m_bus_parser::rscada_xml::render_wireless_variable
  attr: #[verifier::loop_isolation(false)]
  loops: 1
  spec:
    requires match records { Some(x) => x.offset <= x.data@.len(), None => true },
    ensures match records { Some(x) => sp_xmany(r@, sp_xhead(sp_xopen(), identity.identification_number.number, sp_man_text(identity.manufacturer_code), identity.version, sp_device_code(identity.device_type), access, status, signature), x.data@, x.offset as int), None => r@ == sp_xhead(sp_xopen(), identity.identification_number.number, sp_man_text(identity.manufacturer_code), identity.version, sp_device_code(identity.device_type), access, status, signature) + "</MBusData>\n"@ },
  start:
        hide(sp_record); hide(sp_xtext); hide(sp_at); hide(sp_skip); hide(sp_is_special);
        proof { lemma_hex4(); }
  loop 0 before:
        let ghost base = out@;
        let ghost mut recs: Seq<crate::m_bus_application_layer::data_record::DataRecord<'_>> = Seq::empty();
        let ghost mut stopped = false;
        let ghost d = records.data@;
        let ghost o = records.offset as int;
        proof { assert(base == sp_xhead(sp_xopen(), identity.identification_number.number, sp_man_text(identity.manufacturer_code), identity.version, sp_device_code(identity.device_type), access, status, signature)); }
        proof {
            lemma_at_first(recs, d, o); lemma_skip_up(d, o);
            assert(base + sp_xtexts(recs, 0) =~= base);
            assert(records.data.len() == records.data@.len());
            assert forall|i: int| 0 <= i <= d.len() implies i <= #[trigger] sp_skip(d, i) <= d.len() by { lemma_skip_up(d, i); }
        }
        #[verifier::allow_complex_invariants]
  loop 0:
        invariant_except_break
            stopped ==> $it.offset == d.len() && 0 <= sp_at(recs, d, o, recs.len() as int) < d.len() && !sp_is_special(d[sp_at(recs, d, o, recs.len() as int)]),
            !stopped ==> sp_skip(d, $it.offset as int) == sp_at(recs, d, o, recs.len() as int),
        invariant
            forall|i: int| 0 <= i <= d.len() ==> i <= #[trigger] sp_skip(d, i) <= d.len(),
            $it.data@ == d, $it.offset <= d.len(), d.len() <= usize::MAX,
            v_n == recs.len(), v_n <= $it.offset, $i <= $it.offset, sp_xrun(recs, d, o), out@ == base + sp_xtexts(recs, recs.len() as int),
        ensures sp_xlist(recs, d, o), out@ == base + sp_xtexts(recs, recs.len() as int),
        decreases d.len() - $it.offset,
  loop 0 start:
        let ghost was = recs;
        proof {
            if v_got is Ok {
                assert(sp_record(v_got->Ok_0, d.subrange(sp_at(recs, d, o, recs.len() as int), d.len() as int)));
                lemma_xrun(recs, v_got->Ok_0, d, o);
                lemma_at_push(recs, v_got->Ok_0, d, o);
                lemma_xtexts(recs, v_got->Ok_0, recs.len() as int);
                recs = recs.push(v_got->Ok_0);
            } else {
                stopped = true;
            }
        }
        let ghost before = out@;
  loop 0 end:
        proof { if v_got is Ok { assert(out@ =~= base + sp_xtexts(recs, recs.len() as int)); } }
  loop 0 after:
        proof { assert(sp_xlist(recs, d, o) && out@ == base + sp_xtexts(recs, recs.len() as int)); }
  end:
        proof {
            if records is Some { assert(exists|recs: Seq<crate::m_bus_application_layer::data_record::DataRecord<'_>>| #[trigger] sp_xlist(recs, records->Some_0.data@, records->Some_0.offset as int) && __r@ == sp_xhead(sp_xopen(), identity.identification_number.number, sp_man_text(identity.manufacturer_code), identity.version, sp_device_code(identity.device_type), access, status, signature) + sp_xtexts(recs, recs.len() as int) + "</MBusData>\n"@); }
            else { assert(__r@ == sp_xhead(sp_xopen(), identity.identification_number.number, sp_man_text(identity.manufacturer_code), identity.version, sp_device_code(identity.device_type), access, status, signature) + "</MBusData>\n"@); }
        }
