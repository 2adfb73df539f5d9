fn m_bus_application_layer::data_record::DataRecord::value
  spec:
    ensures match r { Some(v) => self.data.value == Some(*v), None => self.data.value is None },

fn m_bus_application_layer::data_record::DataRecord::data_information
  spec:
    ensures match r { Some(v) => self.data_record_header.processed_data_record_header.data_information == Some(*v), None => self.data_record_header.processed_data_record_header.data_information is None },

fn m_bus_application_layer::data_record::DataRecord::value_information
  spec:
    ensures match r { Some(v) => self.data_record_header.processed_data_record_header.value_information == Some(*v), None => self.data_record_header.processed_data_record_header.value_information is None },

fn m_bus_application_layer::data_record::DataRecord::raw_bytes
  spec:
    ensures r@ == self.raw_bytes@,

fn m_bus_parser::output::temporal_value
  spec:
    ensures true,

fn m_bus_parser::output::finite_number
  spec:
    ensures true,

fn m_bus_parser::output::record_offset_power10
  spec:
    ensures sp_offset(r, sp_adds_of(*record)),
  start:
        proof {
            assert(forall|x: u8| (#[trigger] (x & 0x7F)) == x % 128) by (bit_vector);
            assert(forall|x: u8| (#[trigger] (x & 0b11)) == x % 4) by (bit_vector);
        }
  loop 0 before:
        let ghost x = extensions@;
        let ghost vif = block.value_information.data;
        let ghost k = sp_true_vif(vif, x);
        let ghost __ty: Option<isize> = offset;
  loop 0:
        invariant
            $i <= $e || $i == k, $i >= k, $e == x.len(), $s@ == x, k == true_vif_extensions,
            sp_offset(offset, sp_scan_adds(x, k, $i as int).found), extended_table == sp_scan_adds(x, k, $i as int).ext,
            forall|c: u8| (#[trigger] (c & 0x7F)) == c % 128,
            forall|c: u8| (#[trigger] (c & 0b11)) == c % 4,
        decreases $e - $i,

fn m_bus_parser::output::exact_bcd_significand
  spec:
    requires bytes@.len() <= 9, sp_packed(bytes@, bytes@.len() as int),
    ensures
        sp_itext(r@), sp_lead(sp_mag(r@)),
        forall|rev: bool, sign: int| #![trigger sp_bcd_read(bytes@, rev, sign)] (sign == 1 || sign == -1) && (sp_bcd_read(bytes@, rev, sign) == 0 || sp_about(parsed, sp_bcd_read(bytes@, rev, sign))) ==> sp_ival(r@) == sp_bcd_read(bytes@, rev, sign),
  start:
        proof {
            assert(bytes.len() == bytes@.len());
            assert(forall|x: u8| (#[trigger] (x & 0x0F)) == x % 16) by (bit_vector);
            assert(forall|x: u8| (#[trigger] (x >> 4)) == x / 16) by (bit_vector);
        }
        let ghost n = bytes@.len() as int;
  loop 0 before:
        proof { assert(0 * sp_p10(2 * n) == 0); lemma_p10_mono(0, 0); }
  loop 0:
        invariant
            $i <= $e, $e == n, $s@ == bytes@, n == bytes@.len(), n <= 9, sp_packed(bytes@, n),
            sp_horner(first_most_significant as int, bytes@, n, true, n - $i),
            forall|c: u8| (#[trigger] (c & 0x0F)) == c % 16, forall|c: u8| (#[trigger] (c >> 4)) == c / 16,
        decreases $e - $i,
  loop 0 start:
        proof { lemma_horner(first_most_significant as int, bytes@, n, true, n - $i + 1); }
  loop 1 before:
        proof { assert(0 * sp_p10(2 * n) == 0); }
  loop 1:
        invariant
            $i <= n, $s@ == bytes@, n == bytes@.len(), n <= 9, sp_packed(bytes@, n),
            sp_horner(last_most_significant as int, bytes@, n, false, $i as int),
            forall|c: u8| (#[trigger] (c & 0x0F)) == c % 16, forall|c: u8| (#[trigger] (c >> 4)) == c / 16,
        decreases $i,
  loop 1 start:
        proof { lemma_horner(last_most_significant as int, bytes@, n, false, $i + 1); }
  loop 1 after:
        proof {
            lemma_far(bytes@, n);
            assert(first_most_significant * sp_p10(0) == first_most_significant);
            assert(last_most_significant * sp_p10(0) == last_most_significant);
            lemma_dec_text(first_most_significant as int, true);
            lemma_dec_text(first_most_significant as int, false);
            lemma_dec_text(last_most_significant as int, true);
            lemma_dec_text(last_most_significant as int, false);
            assert forall|rev: bool, sign: int, m: int| #[trigger] sp_near_to(m, parsed, sp_bcd_read(bytes@, rev, sign)) implies sp_u64_of(parsed, m) by {
                axiom_rep_neg(m);
                axiom_near(m);
                axiom_near(-m);
            }
        }

fn m_bus_parser::output::exact_variable_significand
  spec:
    requires data@.len() >= 1, 0xC0 <= data@[0], sp_var_ok(data@[0]), data@.len() == 1 + sp_var_len(data@[0]),
        data@[0] <= 0xDF ==> sp_packed(data@.subrange(1, data@.len() as int), data@.len() - 1),
    ensures
        match r { Some(t) => sp_itext(t@) && sp_lead(sp_mag(t@)), None => data@[0] == 0xE0 },
        data@[0] >= 0xE0 && r is Some ==> sp_ival(r->Some_0@) == sp_var_number(data@, false) && sp_ival(r->Some_0@) == sp_var_number(data@, true),
        forall|rev: bool| #![trigger sp_var_number(data@, rev)] data@[0] <= 0xDF && (sp_var_number(data@, rev) == 0 || sp_about(parsed, sp_var_number(data@, rev)))
            ==> r is Some && sp_ival(r->Some_0@) == sp_var_number(data@, rev),
  start:
        proof {
            assert(forall|x: u8| (#[trigger] (x & 0x0F)) == x % 16) by (bit_vector);
            let c = data@.subrange(1, data@.len() as int);
            assert(c.len() == data@.len() - 1);
            assert(forall|rev: bool| #[trigger] sp_var_number(data@, rev) == (if data@[0] <= 0xDF { sp_bcd_read(c, rev, if data@[0] <= 0xCF { 1 } else { -1 }) } else { sp_twos(c, c.len() as int) }));
        }

fn m_bus_parser::output::exact_significand
  spec:
    requires exists|d: Seq<u8>, rev: bool| #[trigger] sp_fed(*record, d, rev), sp_is_number(record.data.value), !(sp_coding_in(*record) is Real32Bit),
        record.data.value == Some(DataType::Number(parsed)) || record.data.value == Some(DataType::LossyNumber(parsed)),
    ensures forall|d: Seq<u8>, rev: bool| #[trigger] sp_fed(*record, d, rev) ==> ({
        let n = sp_number(sp_coding_in(*record), d.subrange(sp_header_len(d), d.len() as int), rev);
        match r { Some(t) => sp_int_text(t@, n), None => parsed == f_of(0) && n == 0 }
    }),
  start:
        proof {
            lemma_fed_all(*record, parsed);
            let t = sp_tail(*record);
            assert(t.subrange(0, t.len() as int) =~= t);
            assert forall|n: int| #[trigger] f_of(n) == parsed && f_int(n) implies sp_int_text(Seq::<char>::empty() + (if n < 0 { seq!['-'] + sp_dec(-n) } else { sp_dec(n) }), n) by {
                if n < 0 { lemma_dec_text(-n, true); } else { lemma_dec_text(n, false); }
            }
        }

fn m_bus_parser::output::value_output
  spec:
    requires exists|d: Seq<u8>, rev: bool| #[trigger] sp_fed(*record, d, rev),
    ensures forall|d: Seq<u8>, rev: bool| #[trigger] sp_fed(*record, d, rev) ==> sp_written(r, *record, d, rev),
  start:
        proof {
            lemma_dec_text(0, false);
            assert(f_int(0));
        }
fn m_bus_parser::output::special_function_name
  spec:
    ensures true,
fn m_bus_parser::output::record_function_name
  spec:
    ensures true,
fn m_bus_parser::output::special_record_name
  spec:
    ensures true,
fn m_bus_parser::output::data_coding_name
  spec:
    ensures true,
fn m_bus_parser::output::unit_output
  spec:
    ensures true,
fn m_bus_parser::output::quantity_name
  spec:
    ensures true,
fn m_bus_parser::output::record_output
  spec:
    requires exists|d: Seq<u8>, rev: bool| #[trigger] sp_fed(*record, d, rev),
    ensures forall|d: Seq<u8>, rev: bool| #[trigger] sp_fed(*record, d, rev) ==> sp_written(r.value, *record, d, rev),
fn m_bus_application_layer::data_record::DataRecord::data_record_header_hex
  spec:
    ensures true,
fn m_bus_application_layer::data_record::DataRecord::data_hex
  spec:
    ensures true,
fn m_bus_application_layer::variable_user_data::DataRecords::From<&[u8]>::from
  spec:
    ensures r.offset == 0, r.data@ == data@, r.long_tpl_header is None,

fn m_bus_application_layer::variable_user_data::DataRecords::From<(&[u8],&LongTplHeader)>::from
  spec:
    ensures r.offset == 0, r.data@ == __a0.0@, r.long_tpl_header == Some(__a0.1),

fn m_bus_parser::output::collect_records
  attr: #[verifier::loop_isolation(false)]
  spec:
    requires match records { Some(x) => x.offset <= x.data@.len(), None => true },
    ensures
        match records {
            Some(x) => sp_outputs(r.0@, x.data@, x.offset as int, sp_lsb(x.long_tpl_header), r.1 is None),
            None => r.0@.len() == 0 && r.1 is None,
        },
  start:
        hide(sp_fed); hide(sp_written); hide(sp_record); hide(sp_at); hide(sp_skip);
        proof { lemma_at_first(Seq::empty(), records->Some_0.data@, records->Some_0.offset as int); }
        let ghost mut recs: Seq<crate::m_bus_application_layer::data_record::DataRecord<'_>> = Seq::empty();
        let ghost d = records->Some_0.data@;
        let ghost o = records->Some_0.offset as int;
        let ghost rev = sp_lsb(records->Some_0.long_tpl_header);
  loop 0 before:
        let ghost __ty: Seq<RecordOutput> = output@;
        proof {
            assert(records.data.len() == records.data@.len());
            assert forall|i: int| 0 <= i <= d.len() implies i <= #[trigger] sp_skip(d, i) by { lemma_skip_up(d, i); }
        }
        #[verifier::allow_complex_invariants]
  loop 0:
        invariant_except_break sp_skip(d, $it.offset as int) == sp_at(recs, d, o, recs.len() as int),
        invariant
            forall|i: int| 0 <= i <= d.len() ==> i <= #[trigger] sp_skip(d, i),
            $it.data@ == d, rev == sp_lsb($it.long_tpl_header), $it.offset <= d.len(), d.len() <= usize::MAX,
            sp_listed(output@, recs, d, o, rev),
            $i == recs.len(), $i <= $it.offset, offset <= $it.offset,
        ensures sp_listed(output@, recs, d, o, rev), sp_at(recs, d, o, recs.len() as int) == d.len(),
        decreases d.len() - $it.offset,
  loop 0 start:
        let ghost outs = output@;
        let ghost was = recs;
        proof {
            if item is Ok {
                lemma_at_push(recs, item->Ok_0, d, o);
                recs = recs.push(item->Ok_0);
            }
        }
  loop 0 end:
        proof { lemma_listed_push(outs, was, output@[outs.len() as int], item->Ok_0, d, o, rev); }

fn m_bus_parser::output::decode_data_records
  start:
        hide(sp_fed); hide(sp_written);
  spec:
    ensures match r {
        Ok(out) => sp_outputs(out@, data@, 0, false, true),
        Err(_) => true,
    },
