fn m_bus_parser::MbusError::From<FrameError>::from
  spec:
    ensures true,

fn m_bus_parser::MbusError::From<ApplicationLayerError>::from
  spec:
    ensures true,

fn m_bus_parser::MbusError::From<user_data::variable_user_data::DataRecordError>::from
  spec:
    ensures true,

fn m_bus_parser::MbusError::From<wireless_mbus_link_layer::FrameError>::from
  spec:
    ensures true,

fn m_bus_parser::annotate::is_long_tpl_encrypted
  spec:
    ensures true,

fn m_bus_parser::annotate::is_short_tpl_encrypted
  spec:
    requires skip_count <= 2,

fn m_bus_parser::annotate::annotate_long_tpl_header
  spec:
    requires base + 13 <= usize::MAX, app_data@.len() >= 13, sp_tiled(old(segments)@, base as int),
    ensures sp_tiled(final(segments)@, base + 13),
  start:
        broadcast use lemma_tiled_push;

fn m_bus_parser::annotate::annotate_data_records
  loops: 1
  attr: #[verifier::rlimit(100)]
  spec:
    requires base + data@.len() <= usize::MAX, sp_tiled(old(segments)@, base as int),
    ensures sp_tiled(final(segments)@, base + data@.len()),
  start:
        broadcast use lemma_tiled_push;
  loop 0:
        invariant_except_break
            sp_tiled(segments@, base + offset),
        invariant
            base + data@.len() <= usize::MAX, offset <= data@.len(), record_index <= offset,
        ensures
            sp_tiled(segments@, base + data@.len()),
        decreases data@.len() - offset,
  loop 0 start:
        broadcast use lemma_tiled_push;

fn m_bus_parser::annotate::annotate_application_layer
  attr: #[verifier::rlimit(100)]
  spec:
    requires base + app_data@.len() <= usize::MAX, sp_tiled(old(segments)@, base as int),
    ensures sp_tiled(final(segments)@, base + app_data@.len()),
    decreases app_data@.len(),
  start:
        broadcast use lemma_tiled_push;

fn m_bus_parser::annotate::annotate_long_or_control_frame
  spec:
    requires data@.len() == user_data_slice@.len() + 8, old(segments)@ == Seq::<ByteSegment>::empty(),
    ensures sp_tiled(final(segments)@, data@.len() as int),
  start:
        broadcast use lemma_tiled_push;
        proof { assert(data.len() == data@.len()); lemma_tiled_none(Seq::empty()); }

fn m_bus_parser::annotate::annotate_wired
  spec:
    ensures match r { Ok(s) => sp_tiled(s@, data@.len() as int), Err(_) => true },
  start:
        broadcast use lemma_tiled_push;
        proof { lemma_tiled_none(Seq::empty()); }

fn m_bus_parser::annotate::annotate_wireless_inner
  spec:
    ensures match r { Ok(s) => sp_tiled(s@, data@.len() as int), Err(_) => true },
  start:
        broadcast use lemma_tiled_push;
        proof { assert(data.len() == data@.len()); lemma_tiled_none(Seq::empty()); }

fn m_bus_parser::annotate::annotate_wireless_format_a
  loops: 6
  attr: #[verifier::rlimit(200)]
  spec:
    requires original@.len() >= 12, stripped@.len() == sp_fullmap(original@).len(),
    ensures match r { Ok(s) => sp_tiled(s@, original@.len() as int), Err(_) => true },
  start:
        let ghost __m = sp_fullmap(original@);
        let ghost __c = sp_fullcrcs(original@);
        let ghost __len = original@.len() as int;
        proof { assert(original.len() == original@.len()); lemma_full(original@); }
  loop 0 before:
        let ghost __ty: Seq<ByteSegment> = segments@;
        proof {
            assert forall|k: int| 0 <= k < stripped_segments@.len() implies (#[trigger] stripped_segments@[k]).end <= __m.len() && stripped_segments@[k].start < stripped_segments@[k].end by {
                lemma_tiled_within(stripped_segments@, __m.len() as int, k);
            }
        }
  loop 0:
        invariant
            $i <= $e, $e == stripped_segments@.len(), segments@.len() == $i, $s@ == stripped_segments@,
            offset_map@ == __m, __m.len() >= 10, sp_layout(__m, __c, 0, __len), __len <= usize::MAX,
            forall|k: int| 0 <= k < stripped_segments@.len() ==> (#[trigger] stripped_segments@[k]).end <= __m.len() && stripped_segments@[k].start < stripped_segments@[k].end,
            forall|k: int| 0 <= k < segments@.len() ==> (#[trigger] segments@[k]).start == sp_at(__m, stripped_segments@[k].start as int)
                && segments@[k].end == sp_at(__m, stripped_segments@[k].end as int),
        decreases $e - $i,
  loop 0 after:
        proof { lemma_mapped(stripped_segments@, segments@, __m, __c, __len); }
  loop 1 before:
        let ghost __tc: Seq<(usize, usize)> = crc_positions@;
  loop 1:
        invariant
            12 <= pos <= original@.len() <= usize::MAX,
            crc_positions@.len() <= __c.len(),
            __c =~= __c.subrange(0, crc_positions@.len() as int) + sp_crcs(original@, pos as int),
            forall|k: int| 0 <= k < crc_positions@.len() ==> (#[trigger] crc_positions@[k]).0 == __c[k] && crc_positions@[k].1 == __c[k] + 2,
        ensures
            crc_positions@.len() == __c.len(),
        decreases original@.len() - pos,
  loop 1 start:
        let ghost __p0 = pos;
        let ghost __q0 = crc_positions@;
        proof { lemma_blk(original@, pos as int); }
  loop 2:
        invariant_except_break
            !found, pos == __p0, crc_positions@ == __q0,
            sp_blk_from(original@, __p0 as int, $i - 1) == sp_blk(original@, __p0 as int),
        invariant
            1 <= $i <= max_data_len + 1, 1 <= max_data_len <= original@.len() - __p0 - 2, $lo == 1, 12 <= __p0 < original@.len() <= usize::MAX,
        ensures
            !found ==> pos == __p0 && crc_positions@ == __q0 && sp_blk(original@, __p0 as int) == 0,
            found ==> sp_blk(original@, __p0 as int) > 0 && pos == __p0 + sp_blk(original@, __p0 as int) + 2
                && crc_positions@ == __q0.push(((pos - 2) as usize, pos)),
        decreases $i,
  loop 3:
        invariant
            $i <= $e, $e == crc_positions@.len(), $s@ == crc_positions@, $e == __c.len(), __len == original@.len() <= usize::MAX,
            sp_layout(__m, __c, 0, __len), __c[0] == 10,
            forall|k: int| 0 <= k < crc_positions@.len() ==> (#[trigger] crc_positions@[k]).0 == __c[k] && crc_positions@[k].1 == __c[k] + 2,
            sp_pending(segments@, __c, $i as int, __len),
        decreases $e - $i,
  loop 3 start:
        let ghost __j = $i - 1;
        let ghost __s0 = segments@;
        proof { lemma_insert(segments@, __c, __j, __len); }
  loop 4:
        invariant_except_break
            $m0 is None, forall|k: int| 0 <= k < $i ==> (#[trigger] segments@[k]).start < crc_start,
        invariant
            $i <= $e, $e == segments@.len(), $s@ == segments@,
        ensures
            match $m0 {
                None => forall|k: int| 0 <= k < segments@.len() ==> (#[trigger] segments@[k]).start < crc_start,
                Some(p) => p < segments@.len() && segments@[p as int].start >= crc_start && forall|k: int| 0 <= k < p ==> (#[trigger] segments@[k]).start < crc_start,
            },
        decreases $e - $i,
  loop 5 before:
        proof { lemma_done(segments@, __c, __len); }
  loop 5 start:
        proof { reveal(sp_tiled); }
  loop 5:
        invariant
            $m0 <= segments@.len(), sp_tiled(segments@, __len),
        decreases segments@.len() - $m0,

fn m_bus_parser::annotate::annotate_frame
  spec:
    ensures match r { Ok(s) => sp_tiled(s@, data@.len() as int), Err(_) => true },
