fn m_bus_application_layer::data_record::DataRecord::value_information
  spec:
    ensures match r { Some(v) => self.data_record_header.processed_data_record_header.value_information == Some(*v), None => self.data_record_header.processed_data_record_header.value_information is None },

fn m_bus_application_layer::data_record::DataRecord::data_information
  spec:
    ensures match r { Some(v) => self.data_record_header.processed_data_record_header.data_information == Some(*v), None => self.data_record_header.processed_data_record_header.data_information is None },

fn m_bus_application_layer::data_record::DataRecord::raw_bytes
  spec:
    ensures r@ == self.raw_bytes@,

fn m_bus_application_layer::data_record::DataRecord::data_record_header_hex
  spec:
    requires exists|d: Seq<u8>| #[trigger] sp_record(*self, d),
    ensures forall|d: Seq<u8>| #[trigger] sp_record(*self, d) ==> r@ == sp_spaced(d.subrange(0, sp_header_len(d))),
  start:
        proof { lemma_record_sizes(*self); }
        let ghost b = self.raw_bytes@.subrange(0, sp_header_size(self.data_record_header.raw_data_record_header));
        let ghost words = b.map_values(|x: u8| sp_hex(x as int, 2));
  loop 0 before:
        let ghost __ty: Seq<String> = v_col@;
  loop 0:
        invariant
            $i <= $e, $e == b.len(), $s@ == b, words == b.map_values(|x: u8| sp_hex(x as int, 2)),
            v_col@.len() == $i, forall|j: int| 0 <= j < $i ==> (#[trigger] v_col@[j])@ == words[j],
        decreases $e - $i,
  loop 0 after:
        proof { assert(v_col@.map_values(|s: String| s@) =~= words); }

fn m_bus_application_layer::data_record::DataRecord::data_hex
  spec:
    requires exists|d: Seq<u8>| #[trigger] sp_record(*self, d),
    ensures forall|d: Seq<u8>| #[trigger] sp_record(*self, d) ==> r@ == sp_spaced(d.subrange(sp_header_len(d), self.raw_bytes@.len() as int)),
  start:
        proof { lemma_record_sizes(*self); }
        let ghost b = self.raw_bytes@.subrange(sp_header_size(self.data_record_header.raw_data_record_header), self.raw_bytes@.len() as int);
        let ghost words = b.map_values(|x: u8| sp_hex(x as int, 2));
  loop 0 before:
        let ghost __ty: Seq<String> = v_col@;
  loop 0:
        invariant
            $i <= $e, $e == b.len(), $s@ == b, words == b.map_values(|x: u8| sp_hex(x as int, 2)),
            v_col@.len() == $i, forall|j: int| 0 <= j < $i ==> (#[trigger] v_col@[j])@ == words[j],
        decreases $e - $i,
  loop 0 after:
        proof { assert(v_col@.map_values(|s: String| s@) =~= words); }

fn m_bus_parser::output::special_function_name
  spec:
    ensures r@ == sp_special_text(function),

fn m_bus_parser::output::record_function_name
  spec:
    ensures r@ == (match function {
        FunctionField::InstantaneousValue => "Instantaneous value"@,
        FunctionField::MaximumValue => "Maximum value"@,
        FunctionField::MinimumValue => "Minimum value"@,
        FunctionField::ValueDuringErrorState => "Value during error state"@,
    }),

fn m_bus_parser::output::special_record_name
  spec:
    ensures true,

fn m_bus_parser::output::data_coding_name
  spec:
    ensures r@ == sp_coding_text(coding),

fn m_bus_parser::output::ucum_component
  spec:
    ensures match sp_unit_text(*unit) { Some(t) => r is Some && r->Some_0@ == t, None => r is None },

fn m_bus_parser::output::unit_output
  spec:
    ensures sp_all_known(units@) ==> r@ == sp_units_text(units@),
  loop 0 before:
        let ghost __ty: Seq<String> = v_col@;
  loop 0:
        invariant_except_break v_all,
        invariant
            $i <= $e, $e == units@.len(), $s@ == units@,
            v_col@.len() <= $i, v_all ==> v_col@.len() == $i,
            forall|j: int| 0 <= j < v_col@.len() ==> sp_unit_text(units@[j]) == Some((#[trigger] v_col@[j])@),
        ensures v_col@.len() <= units@.len(), v_all ==> v_col@.len() == units@.len(), !v_all ==> !sp_all_known(units@),
        decreases $e - $i,
  loop 0 start:
        let ghost was = v_col@;
  loop 0 end:
        proof { assert(v_col@ =~= was.push(v_col@[was.len() as int])); }
  loop 0 after:
        proof { if v_all { assert(v_col@.map_values(|s: String| s@) =~= units@.map_values(|x: Unit| sp_unit_text(x)->Some_0)); } }

fn m_bus_parser::output::quantity_name
  spec:
    ensures true,

fn m_bus_parser::output::value_output
  spec:
    ensures true,

fn m_bus_parser::output::record_output
  spec:
    requires exists|d: Seq<u8>| #[trigger] sp_record(*record, d),
    ensures r.index == index, forall|d: Seq<u8>| #[trigger] sp_record(*record, d) ==> sp_mirror(r, *record, d),
  start:
        proof { lemma_record_fields(*record); }

fn m_bus_application_layer::variable_user_data::DataRecords::From<(&[u8],&LongTplHeader)>::from
  spec:
    ensures r.offset == 0, r.data@ == __a0.0@, r.long_tpl_header == Some(__a0.1),

fn m_bus_application_layer::variable_user_data::DataRecords::From<&[u8]>::from
  spec:
    ensures r.offset == 0, r.data@ == data@, r.long_tpl_header is None,

fn m_bus_parser::output::collect_records
  attr: #[verifier::loop_isolation(false)]
  spec:
    requires match records { Some(x) => x.offset <= x.data@.len(), None => true },
    ensures
        match records {
            Some(x) => sp_mirrors(r.0@, x.data@, x.offset as int, r.1 is None),
            None => r.0@.len() == 0 && r.1 is None,
        },
  start:
        hide(sp_mirror); hide(sp_record); hide(sp_at); hide(sp_skip);
        proof { lemma_at_first(Seq::empty(), records->Some_0.data@, records->Some_0.offset as int); }
        let ghost mut recs: Seq<crate::m_bus_application_layer::data_record::DataRecord<'_>> = Seq::empty();
        let ghost d = records->Some_0.data@;
        let ghost o = records->Some_0.offset as int;
  loop 0 before:
        let ghost __ty: Seq<RecordOutput> = output@;
        proof {
            assert(records.data.len() == records.data@.len());
            assert forall|i: int| 0 <= i <= d.len() implies i <= #[trigger] sp_skip(d, i) by { lemma_skip_up(d, i); }
        }
        #[verifier::allow_complex_invariants]
  loop 0:
        invariant_except_break sp_skip(d, $it.offset as int) == sp_at(recs, d, o, recs.len() as int),
        invariant
            forall|i: int| 0 <= i <= d.len() ==> i <= #[trigger] sp_skip(d, i),
            $it.data@ == d, $it.offset <= d.len(), d.len() <= usize::MAX,
            sp_mirror_list(output@, recs, d, o),
            $i == recs.len(), $i <= $it.offset, offset <= $it.offset,
        ensures sp_mirror_list(output@, recs, d, o), sp_at(recs, d, o, recs.len() as int) == d.len(),
        decreases d.len() - $it.offset,
  loop 0 start:
        let ghost outs = output@;
        let ghost was = recs;
        proof {
            if item is Ok {
                lemma_at_push(recs, item->Ok_0, d, o);
                recs = recs.push(item->Ok_0);
            }
        }
  loop 0 end:
        proof { lemma_mirror_push(outs, was, output@[outs.len() as int], item->Ok_0, d, o); }

fn m_bus_parser::output::decode_data_records
  start:
        hide(sp_mirror); hide(sp_record);
  spec:
    ensures match r {
        Ok(out) => sp_mirrors(out@, data@, 0, true),
        Err(_) => true,
    },
