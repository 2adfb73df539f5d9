fn m_bus_parser::output::single
  spec:
    ensures r == (match *component { SingleEveryOrInvalid::Single(x) => Some(x), _ => None }),

fn m_bus_parser::output::month_number
  spec:
    ensures r == Some(sp_month_number(month) as u8),

fn m_bus_parser::output::component_json
  spec:
    ensures sp_component(*component, r),

fn m_bus_parser::output::temporal_iso
  spec:
    ensures
        kind@ == "date"@ ==> (match r {
            Some(t) => day is Single && month is Single && year is Single && t@ == sp_iso_date(year->Single_0, month->Single_0, day->Single_0),
            None => !(day is Single && month is Single && year is Single),
        }),
        kind@ == "time"@ ==> (match r {
            Some(t) => sp_given(hour) && sp_given(minute) && sp_given(second)
                && t@ == sp_iso_time(sp_the(hour), sp_the(minute)) + ":"@ + sp_padded(sp_the(second) as int, 2),
            None => !(sp_given(hour) && sp_given(minute) && sp_given(second)),
        }),
        kind@ == "datetime"@ ==> (match r {
            Some(t) => day is Single && month is Single && year is Single && sp_given(hour) && sp_given(minute) && (second is Some ==> sp_given(second))
                && t@ == (if second is Some { sp_iso_date(year->Single_0, month->Single_0, day->Single_0) + "T"@ + sp_iso_time(sp_the(hour), sp_the(minute)) + ":"@ + sp_padded(sp_the(second) as int, 2) }
                    else { sp_iso_date(year->Single_0, month->Single_0, day->Single_0) + "T"@ + sp_iso_time(sp_the(hour), sp_the(minute)) + ":00"@ }),
            None => !(day is Single && month is Single && year is Single && sp_given(hour) && sp_given(minute) && (second is Some ==> sp_given(second))),
        }),
  start:
        proof { lemma_kinds(); }

fn m_bus_parser::output::temporal_value
  spec:
    requires kind@ == "date"@ || kind@ == "time"@ || kind@ == "datetime"@,
    ensures
        kind@ == "date"@ ==> sp_timed(r, Some(DataType::Date(*day, *month, *year))),
        kind@ == "time"@ && hour is Some && minute is Some && second is Some ==> sp_timed(r, Some(DataType::Time(*second->Some_0, *minute->Some_0, *hour->Some_0))),
        kind@ == "datetime"@ && hour is Some && minute is Some && second is None ==> sp_timed(r, Some(DataType::DateTime(*day, *month, *year, *hour->Some_0, *minute->Some_0))),
        kind@ == "datetime"@ && hour is Some && minute is Some && second is Some ==> sp_timed(r, Some(DataType::DateTimeWithSeconds(*day, *month, *year, *hour->Some_0, *minute->Some_0, *second->Some_0))),
  start:
        proof { lemma_kinds(); }

fn m_bus_parser::output::finite_number
  spec:
    ensures true,
fn m_bus_parser::output::record_offset_power10
  spec:
    ensures true,
fn m_bus_parser::output::exact_significand
  spec:
    ensures true,
fn m_bus_parser::output::scaled_decimal
  spec:
    ensures true,
fn m_bus_parser::output::value_output
  spec:
    ensures sp_timed(r, record.data.value),
fn m_bus_application_layer::data_record::DataRecord::value
  spec:
    ensures match r { Some(v) => self.data.value == Some(*v), None => self.data.value is None },
fn m_bus_application_layer::data_record::DataRecord::value_information
  spec:
    ensures match r { Some(v) => self.data_record_header.processed_data_record_header.value_information == Some(*v), None => self.data_record_header.processed_data_record_header.value_information is None },
fn m_bus_application_layer::data_record::DataRecord::data_information
  spec:
    ensures match r { Some(v) => self.data_record_header.processed_data_record_header.data_information == Some(*v), None => self.data_record_header.processed_data_record_header.data_information is None },
fn m_bus_application_layer::data_record::DataRecord::raw_bytes
  spec:
    ensures r@ == self.raw_bytes@,
fn m_bus_parser::output::special_function_name
  spec:
    ensures true,
fn m_bus_parser::output::record_function_name
  spec:
    ensures true,
fn m_bus_parser::output::special_record_name
  spec:
    ensures true,
fn m_bus_parser::output::data_coding_name
  spec:
    ensures true,
fn m_bus_parser::output::unit_output
  spec:
    ensures true,
fn m_bus_parser::output::quantity_name
  spec:
    ensures true,
fn m_bus_application_layer::data_record::DataRecord::data_record_header_hex
  spec:
    ensures true,
fn m_bus_application_layer::data_record::DataRecord::data_hex
  spec:
    ensures true,
fn m_bus_application_layer::variable_user_data::DataRecords::From<(&[u8],&LongTplHeader)>::from
  spec:
    ensures r.offset == 0, r.data@ == __a0.0@, r.long_tpl_header == Some(__a0.1),

fn m_bus_application_layer::variable_user_data::DataRecords::From<&[u8]>::from
  spec:
    ensures r.offset == 0, r.data@ == data@, r.long_tpl_header is None,

fn m_bus_parser::output::record_output
  spec:
    ensures sp_timed(r.value, record.data.value),

fn m_bus_parser::output::collect_records
  attr: #[verifier::loop_isolation(false)]
  spec:
    requires match records { Some(x) => x.offset <= x.data@.len(), None => true },
    ensures
        match records {
            Some(x) => sp_times(r.0@, x.data@, x.offset as int, r.1 is None),
            None => r.0@.len() == 0 && r.1 is None,
        },
  start:
        hide(sp_timed); hide(sp_read); hide(sp_record); hide(sp_at); hide(sp_skip);
        proof { lemma_at_first(Seq::empty(), records->Some_0.data@, records->Some_0.offset as int); }
        let ghost mut recs: Seq<crate::m_bus_application_layer::data_record::DataRecord<'_>> = Seq::empty();
        let ghost d = records->Some_0.data@;
        let ghost o = records->Some_0.offset as int;
  loop 0 before:
        let ghost __ty: Seq<RecordOutput> = output@;
        proof {
            assert(records.data.len() == records.data@.len());
            assert forall|i: int| 0 <= i <= d.len() implies i <= #[trigger] sp_skip(d, i) by { lemma_skip_up(d, i); }
        }
        #[verifier::allow_complex_invariants]
  loop 0:
        invariant_except_break sp_skip(d, $it.offset as int) == sp_at(recs, d, o, recs.len() as int),
        invariant
            forall|i: int| 0 <= i <= d.len() ==> i <= #[trigger] sp_skip(d, i),
            $it.data@ == d, $it.offset <= d.len(), d.len() <= usize::MAX,
            sp_time_list(output@, recs, d, o),
            $i == recs.len(), $i <= $it.offset, offset <= $it.offset,
        ensures sp_time_list(output@, recs, d, o), sp_at(recs, d, o, recs.len() as int) == d.len(),
        decreases d.len() - $it.offset,
  loop 0 start:
        let ghost outs = output@;
        let ghost was = recs;
        proof {
            if item is Ok {
                lemma_at_push(recs, item->Ok_0, d, o);
                recs = recs.push(item->Ok_0);
            }
        }
  loop 0 end:
        proof { lemma_time_push(outs, was, output@[outs.len() as int], item->Ok_0, d, o); }

fn m_bus_parser::output::decode_data_records
  start:
        hide(sp_timed); hide(sp_read);
  spec:
    ensures match r {
        Ok(out) => sp_times(out@, data@, 0, true),
        Err(_) => true,
    },
