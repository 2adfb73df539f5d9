fn m_bus_parser::MbusError::From<FrameError>::from
  spec:
    ensures true,

fn m_bus_parser::MbusError::From<ApplicationLayerError>::from
  spec:
    ensures true,

fn m_bus_parser::MbusError::From<user_data::variable_user_data::DataRecordError>::from
  spec:
    ensures true,

fn m_bus_parser::MbusError::From<wireless_mbus_link_layer::FrameError>::from
  spec:
    ensures true,

fn m_bus_parser::annotate::is_long_tpl_encrypted
  spec:
    ensures r == (app_data@.len() >= 13 && app_data@[12] % 32 != 0),

fn m_bus_parser::annotate::is_short_tpl_encrypted
  spec:
    requires skip_count <= 2,
    ensures r == (app_data@.len() >= skip_count + 4 && app_data@[skip_count + 3] % 32 != 0),

fn m_bus_parser::annotate::annotate_long_tpl_header
  spec:
    requires base + 13 <= usize::MAX, app_data@.len() >= 13,
    ensures sp_fields(final(segments)@, old(segments)@, base as int, Layer::AppHeader, sp_long_fields()),

fn m_bus_parser::annotate::annotate_data_records
  loops: 1
  attr: #[verifier::rlimit(200)]
  spec:
    requires base + data@.len() <= usize::MAX,
    ensures sp_walked(final(segments)@, old(segments)@, base as int, data@),
  start:
        broadcast use lemma_walk_push;
        proof { lemma_walk_none(segments@, base as int, data@); }
  loop 0:
        invariant_except_break
            sp_walk(segments@, old(segments)@, base as int, data@) == Some(Place { pos: offset as int, rec: -1, idx: record_index as int }),
        invariant
            base + data@.len() <= usize::MAX, offset <= data@.len(), record_index <= offset,
        ensures
            sp_walked(segments@, old(segments)@, base as int, data@),
        decreases data@.len() - offset,
  loop 0 start:
        broadcast use {lemma_walk_push, lemma_shown_record};

fn m_bus_parser::annotate::annotate_application_layer
  attr: #[verifier::rlimit(100)]
  spec:
    requires base + app_data@.len() <= usize::MAX,
    ensures sp_app(final(segments)@, old(segments)@, base as int, app_data@),
    decreases app_data@.len(),
  start:
        broadcast use {lemma_walk_prefix, lemma_app_prefix};
  end:
        proof {
            let f = sp_head_fields(app_data@[0]);
            let s0 = old(segments)@;
            let s1 = segments@.subrange(0, (s0.len() + f.len()) as int);
            if sp_head_len(app_data@[0]) > 0 {
                assert(s1.subrange(0, s0.len() as int) =~= s0);
                assert(sp_fields(s1, s0, base as int, Layer::AppHeader, f));
                let h = sp_head_len(app_data@[0]);
                let rest = app_data@.subrange(h, app_data@.len() as int);
                if rest.len() == 0 { assert(segments@ =~= s1); }
                else if sp_secured(app_data@) { assert(segments@.subrange(0, s1.len() as int) =~= s1);
                    assert(sp_fields(segments@, s1, base + h, Layer::RecordField, seq![(0, rest.len() as int, SegmentKind::EncryptedPayload)])); }
                else if app_data@[0] == 0x8C { assert(sp_app(segments@, s1, base + h, rest)); }
                else if app_data@[0] == 0x8D || app_data@[0] == 0x8E { }
                else { assert(sp_walked(segments@, s1, base + h, rest)); }
            }
        }

fn m_bus_parser::annotate::annotate_long_or_control_frame
  spec:
    requires data@.len() == user_data_slice@.len() + 8, user_data_slice@ == data@.subrange(6, data@.len() - 2), old(segments)@ == Seq::<ByteSegment>::empty(),
    ensures sp_long_shown(final(segments)@, data@, is_control),
  start:
        broadcast use {lemma_app_prefix, lemma_drop_two};
  end:
        proof {
            let s1 = segments@.subrange(0, 5);
            let s2 = segments@.subrange(0, segments@.len() - 2);
            let u = data@.subrange(6, data@.len() - 2);
            assert(s2.subrange(0, 5) =~= s1);
            if u.len() == 0 { assert(s2 =~= s1); }
            assert(sp_fields(s1, Seq::empty(), 0, Layer::Frame, seq![(0, 1, SegmentKind::StartByte), (1, 3, SegmentKind::Length), (3, 4, SegmentKind::StartByte),
                (4, 5, SegmentKind::CField), (5, 6, SegmentKind::AField)]));
            assert(sp_fields(segments@, s2, data@.len() - 2, Layer::Frame, seq![(0, 1, SegmentKind::Checksum), (1, 2, SegmentKind::StopByte)]));
        }

fn m_bus_parser::annotate::annotate_wired
  spec:
    ensures match r { Ok(s) => sp_wired_ok(data@) && sp_wired_shown(s@, data@), Err(_) => !sp_wired_ok(data@) },

fn m_bus_parser::annotate::annotate_wireless_inner
  spec:
    ensures match r { Ok(s) => sp_wireless_ok(data@) && sp_radio_shown(s@, data@), Err(_) => !sp_wireless_ok(data@) },
  start:
        broadcast use {lemma_app_prefix, lemma_drop_one};
        proof { assert(data.len() == data@.len()); }
  end:
        proof {
            if __r is Ok {
                let s = __r->Ok_0@;
                let s1 = s.subrange(0, 6);
                let e = if sp_trailing(data@) { data@.len() - 2 } else { data@.len() as int };
                let s2 = if sp_trailing(data@) { s.subrange(0, s.len() - 1) } else { s };
                assert(s2.subrange(0, 6) =~= s1);
                if e == 10 { assert(s2 =~= s1); }
                assert(sp_fields(s1, Seq::empty(), 0, Layer::Frame, seq![(0, 1, SegmentKind::LField), (1, 2, SegmentKind::CField), (2, 4, SegmentKind::ManufacturerCode),
                    (4, 8, SegmentKind::IdentificationNumber), (8, 9, SegmentKind::Version), (9, 10, SegmentKind::DeviceType)]));
                assert(sp_app(s2, s1, 10, data@.subrange(10, e)));
            }
        }

fn m_bus_parser::annotate::annotate_wireless_format_a
  loops: 6
  attr: #[verifier::rlimit(200)]
  spec:
    requires 12 <= original@.len() <= 100000, stripped@.len() <= 100000,
    ensures match r { Ok(s) => sp_wireless_ok(stripped@) && sp_blocks_shown(s@, original@, stripped@), Err(_) => !sp_wireless_ok(stripped@) },
  start:
        broadcast use lemma_app_prefix;
        let ghost __m = sp_fullmap(original@);
        let ghost __c = sp_fullcrcs(original@);
        let ghost __len = original@.len() as int;
        proof { assert(original.len() == original@.len()); lemma_full(original@); lemma_few_crcs(__c, __m, __len); }
  loop 0 before:
        let ghost __ty: Seq<ByteSegment> = segments@;
        proof { reveal(sp_all_named); assert(sp_all_named(segments@, stripped_segments@, __m, __c)); }
  loop 0:
        invariant
            $i <= $e, $e == stripped_segments@.len(), $s@ == stripped_segments@,
            offset_map@ == __m, __m.len() >= 10, sp_layout(__m, __c, 0, __len), __len <= usize::MAX,
            sp_all_named(segments@, stripped_segments@, __m, __c), segments@.len() == $i,
        decreases $e - $i,
  loop 0 start:
        proof {
            lemma_named(stripped_segments@, __m, __c);
            assert forall|x: ByteSegment| sp_within(x, stripped_segments@[$i - 1], __m) implies #[trigger] sp_named(x, stripped_segments@, __m, __c) by {
                lemma_named_here(x, stripped_segments@, __m, __c, $i - 1);
            }
        }
  loop 1 before:
        let ghost __tc: Seq<(usize, usize)> = crc_positions@;
  loop 1:
        invariant
            12 <= pos <= original@.len() <= usize::MAX,
            crc_positions@.len() <= __c.len(),
            __c =~= __c.subrange(0, crc_positions@.len() as int) + sp_crcs(original@, pos as int),
            forall|k: int| 0 <= k < crc_positions@.len() ==> (#[trigger] crc_positions@[k]).0 == __c[k] && crc_positions@[k].1 == __c[k] + 2,
        ensures
            crc_positions@.len() == __c.len(),
        decreases original@.len() - pos,
  loop 1 start:
        let ghost __p0 = pos;
        let ghost __q0 = crc_positions@;
        proof { lemma_blk(original@, pos as int); }
  loop 2:
        invariant_except_break
            !found, pos == __p0, crc_positions@ == __q0,
            sp_blk_from(original@, __p0 as int, $i - 1) == sp_blk(original@, __p0 as int),
        invariant
            1 <= $i <= max_data_len + 1, 1 <= max_data_len <= original@.len() - __p0 - 2, $lo == 1, 12 <= __p0 < original@.len() <= usize::MAX,
        ensures
            !found ==> pos == __p0 && crc_positions@ == __q0 && sp_blk(original@, __p0 as int) == 0,
            found ==> sp_blk(original@, __p0 as int) > 0 && pos == __p0 + sp_blk(original@, __p0 as int) + 2
                && crc_positions@ == __q0.push(((pos - 2) as usize, pos)),
        decreases $i,
  loop 3:
        invariant
            $i <= $e, $e == crc_positions@.len(), $s@ == crc_positions@, $e == __c.len(), __len == original@.len() <= usize::MAX,
            sp_layout(__m, __c, 0, __len), __c[0] == 10,
            forall|k: int| 0 <= k < crc_positions@.len() ==> (#[trigger] crc_positions@[k]).0 == __c[k] && crc_positions@[k].1 == __c[k] + 2,
            sp_all_named(segments@, stripped_segments@, __m, __c), segments@.len() <= 100000 + 2 * $i, $e <= 100000,
        decreases $e - $i,
  loop 3 start:
        let ghost __j = $i - 1;
        let ghost __s0 = segments@;
        proof {
            assert forall|x: ByteSegment| x.start == __c[__j] && x.end == __c[__j] + 2 && x.kind == SegmentKind::Crc && x.layer == Layer::Frame && x.group is None
                implies #[trigger] sp_named(x, stripped_segments@, __m, __c) by { lemma_named_crc(x, stripped_segments@, __m, __c, __j); }
            lemma_named(stripped_segments@, __m, __c);
            lemma_named_pieces(segments@, stripped_segments@, __m, __c);
        }
  loop 4:
        invariant_except_break
            $m0 is None, forall|k: int| 0 <= k < $i ==> (#[trigger] segments@[k]).start < crc_start,
        invariant
            $i <= $e, $e == segments@.len(), $s@ == segments@,
        ensures
            match $m0 {
                None => forall|k: int| 0 <= k < segments@.len() ==> (#[trigger] segments@[k]).start < crc_start,
                Some(p) => p < segments@.len() && segments@[p as int].start >= crc_start && forall|k: int| 0 <= k < p ==> (#[trigger] segments@[k]).start < crc_start,
            },
        decreases $e - $i,
  loop 5:
        invariant
            $m0 <= segments@.len(), sp_all_named(segments@, stripped_segments@, __m, __c),
        decreases segments@.len() - $m0,
  loop 5 start:
        proof { lemma_named(stripped_segments@, __m, __c); }

fn m_bus_parser::annotate::annotate_frame
  spec:
    ensures match r { Ok(s) => sp_shown(s@, data@), Err(_) => !sp_wired_ok(data@) && !sp_wireless_ok(data@) },
