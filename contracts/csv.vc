fn m_bus_parser::output::csv_record_values
  spec:
    ensures sp_words(r@) == sp_record_cells(*record),
  end:
    assert(sp_words(__r@) =~= sp_record_cells(*record));

fn m_bus_parser::output::csv_frame_row
  loops: 3
  spec:
    ensures sp_words(r@) == sp_frame_cells(*decoded),
  loop 0 before:
    assert(sp_words(v_col@) =~= sp_raws($s@.take(0)));
  loop 0:
    invariant
      $s@ == decoded.transport.statuses@, $e == $s@.len(), $i <= $e,
      sp_words(v_col@) == sp_raws($s@.take($i as int)),
    decreases $e - $i,
  loop 0 start:
    let ghost __c = v_col@;
  loop 0 end:
    proof {
      lemma_words_push(__c, v_col@.last());
      assert(v_col@ =~= __c.push(v_col@.last()));
      lemma_take_next($s@, $i as int - 1);
      assert(v_col@.last()@ =~= sp_raws($s@)[$i - 1]);
      assert(sp_words(v_col@) =~= sp_raws($s@.take($i as int)));
    }
  loop 1 before:
    assert(sp_words(v_col@) =~= sp_access($s@.take(0)));
  loop 1:
    invariant
      $s@ == decoded.transport.access_numbers@, $e == $s@.len(), $i <= $e,
      sp_words(v_col@) == sp_access($s@.take($i as int)),
    decreases $e - $i,
  loop 1 start:
    let ghost __c = v_col@;
  loop 1 end:
    proof {
      lemma_words_push(__c, v_col@.last());
      assert(v_col@ =~= __c.push(v_col@.last()));
      lemma_take_next($s@, $i as int - 1);
      assert(v_col@.last()@ =~= sp_access($s@)[$i - 1]);
      assert(sp_words(v_col@) =~= sp_access($s@.take($i as int)));
    }
  loop 2 before:
    assert(sp_words(v_col@) =~= sp_codes($s@.take(0)));
  loop 2:
    invariant
      $s@ == decoded.diagnostics@, $e == $s@.len(), $i <= $e,
      sp_words(v_col@) == sp_codes($s@.take($i as int)),
    decreases $e - $i,
  loop 2 start:
    let ghost __c = v_col@;
  loop 2 end:
    proof {
      lemma_words_push(__c, v_col@.last());
      assert(v_col@ =~= __c.push(v_col@.last()));
      lemma_take_next($s@, $i as int - 1);
      assert(v_col@.last()@ =~= sp_codes($s@)[$i - 1]);
      assert(sp_words(v_col@) =~= sp_codes($s@.take($i as int)));
    }
  end:
    assert(decoded.transport.statuses@.take(decoded.transport.statuses@.len() as int) =~= decoded.transport.statuses@);
    assert(decoded.transport.access_numbers@.take(decoded.transport.access_numbers@.len() as int) =~= decoded.transport.access_numbers@);
    assert(decoded.diagnostics@.take(decoded.diagnostics@.len() as int) =~= decoded.diagnostics@);
    assert(sp_words(__r@) =~= sp_frame_cells(*decoded));

fn m_bus_parser::output::value_display
  loops: 1
  spec:
    ensures r@ == sp_value_cell(*record),
  start:
    proof { reveal_strlit(""); }
  loop 0:
    invariant
      $e == $s@.len(), $i <= $e,
      sp_words(v_col@) =~= sp_components($s@.take($i as int)),
    decreases $e - $i,
  loop 0 start:
    let ghost __c = v_col@;
  loop 0 end:
    proof {
      lemma_words_push(__c, v_col@.last());
      assert(v_col@ =~= __c.push(v_col@.last()));
      lemma_take_next($s@, $i as int - 1);
      assert(v_col@.last()@ =~= sp_component($s@[$i - 1]));
      assert(sp_words(v_col@) =~= sp_components($s@.take($i as int)));
    }
  loop 0 after:
    assert($s@.take($s@.len() as int) =~= $s@);
  end:
    assert(__r@ =~= sp_value_cell(*record));

fn m_bus_parser::output::render_csv
  loops: 4
  spec:
    ensures r is Ok, r->Ok_0@ == sp_csv(seq![sp_columns(decoded.records@), sp_cells(*decoded, decoded.records@)]),
  loop 0 before:
    assert(sp_words(headers@) =~= sp_frame_columns());
    assert($s@.take(0) =~= Seq::<RecordOutput>::empty());
  loop 0:
    invariant
      $s@ == decoded.records@, $e == $s@.len(), $i <= $e,
      sp_strs(RECORD_FIELDS@) == sp_record_names(),
      sp_words(headers@) == sp_columns($s@.take($i as int)),
    decreases $e - $i,
  loop 0 start:
    proof { lemma_take_next(decoded.records@, $i as int - 1); }
    let ghost __h = headers@;
  loop 1 before:
    assert(sp_words(headers@) =~= sp_words(__h) + sp_record_columns(*record).take(0));
  loop 1:
    invariant
      sp_strs($s@) == sp_record_names(), $e == $s@.len(), $i <= $e,
      sp_words(headers@) == sp_words(__h) + sp_record_columns(*record).take($i as int),
    decreases $e - $i,
  loop 1 start:
    proof { lemma_take_next(sp_record_columns(*record), $i as int - 1); assert(sp_strs($s@)[$i - 1] == $s@[$i - 1]@); }
    let ghost __h1 = headers@;
  loop 1 end:
    proof {
      lemma_words_push(__h1, headers@.last());
      assert(headers@ =~= __h1.push(headers@.last()));
      assert(headers@.last()@ =~= sp_record_columns(*record)[$i - 1]);
      assert(sp_words(headers@) =~= sp_words(__h) + sp_record_columns(*record).take($i as int));
    }
  loop 1 after:
    assert(sp_record_columns(*record).take(11) =~= sp_record_columns(*record));
  loop 2 before:
    assert(decoded.records@.take(decoded.records@.len() as int) =~= decoded.records@);
    assert(writer@ =~= seq![sp_columns(decoded.records@)]);
    assert($s@.take(0) =~= Seq::<RecordOutput>::empty());
  loop 2:
    invariant
      $s@ == decoded.records@, $e == $s@.len(), $i <= $e,
      sp_words(row@) == sp_cells(*decoded, $s@.take($i as int)),
    decreases $e - $i,
  loop 2 start:
    proof { lemma_take_next(decoded.records@, $i as int - 1); }
    let ghost __r0 = row@;
  loop 2 after:
    assert(decoded.records@.take(decoded.records@.len() as int) =~= decoded.records@);
    assert(sp_words(row@) == sp_cells(*decoded, decoded.records@));
    proof { lemma_rows_match(*decoded, decoded.records@); }
    assert(writer@.push(sp_words(row@)) =~= seq![sp_columns(decoded.records@), sp_cells(*decoded, decoded.records@)]);
  loop 3 before:
    assert(sp_words(row@) =~= sp_words(__r0) + sp_words($s@).take(0));
  loop 3:
    invariant
      $e == $s@.len(), $i <= $e,
      sp_words(row@) == sp_words(__r0) + sp_words($s@).take($i as int),
    decreases $e - $i,
  loop 3 start:
    proof { lemma_take_next(sp_words($s@), $i as int - 1); }
    let ghost __r1 = row@;
  loop 3 end:
    proof {
      lemma_words_push(__r1, row@.last());
      assert(row@ =~= __r1.push(row@.last()));
      assert(sp_words(row@) =~= sp_words(__r0) + sp_words($s@).take($i as int));
    }
  loop 3 after:
    assert(sp_words($s@).take($s@.len() as int) =~= sp_words($s@));
  end:
    proof {
      assert(decoded.records@.take(decoded.records@.len() as int) =~= decoded.records@);
      if __r is Ok {
        let t = sp_csv(seq![sp_columns(decoded.records@), sp_cells(*decoded, decoded.records@)]);
        assert(sp_words(headers@) == sp_columns(decoded.records@));
        axiom_text_of_bytes(__r->Ok_0@, t);
      }
    }

fn m_bus_parser::output::decode_bytes
  spec:
    ensures r == sp_decoded(data@, *options),

fn m_bus_parser::output::render_bytes
  spec:
    ensures format is Csv ==> match sp_decoded(data@, options.decode) {
        Ok(d) => r is Ok && r->Ok_0@ == sp_csv(seq![sp_columns(d.records@), sp_cells(d, d.records@)]),
        Err(_) => r is Err,
    },

fn m_bus_parser::rscada_xml::render_from_bytes
  spec:
    ensures true,

fn m_bus_parser::mbus_data::render_annotated_bytes
  spec:
    ensures true,

fn m_bus_parser::annotate::annotate_and_render
  spec:
    ensures true,

fn m_bus_parser::output::render_table
  spec:
    ensures true,

fn m_bus_parser::output::render_mermaid
  spec:
    ensures true,

fn m_bus_application_layer::data_information::DataRecordError::From<data_information::DataInformationError>::from
  spec:
    ensures true,

fn m_bus_parser::MbusError::From<FrameError>::from
  spec:
    ensures true,

fn m_bus_parser::MbusError::From<ApplicationLayerError>::from
  spec:
    ensures true,

fn m_bus_parser::MbusError::From<user_data::variable_user_data::DataRecordError>::from
  spec:
    ensures true,

fn m_bus_parser::MbusError::From<wireless_mbus_link_layer::FrameError>::from
  spec:
    ensures true,

fn m_bus_parser::output::OutputFormat::as_str
  spec:
    ensures true,
