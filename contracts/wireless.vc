fn wireless_mbus_link_layer::crc16_en13757
  loops: 2
  spec@P05:
    ensures true,
  loop 0@P05:
    invariant $i <= $e, $e == $s@.len(),
    decreases $e - $i,
  loop 1@P05:
    invariant 0 <= $i <= 8, $e == 8,
    decreases 8 - $i,
  spec@P03,P04,P18:
    ensures r == sp_crc(data@),
  loop 0@P03,P04,P18:
    invariant
        $i <= $e, $e == $s@.len(),
        $m0 == sp_crc_reg($s@.subrange(0, $i as int)),
    decreases $e - $i,
  loop 0 before@P03,P04,P18:
        proof { reveal(sp_crc_reg); assert($s@.subrange(0, 0) =~= Seq::<u8>::empty()); }
  loop 0 start@P03,P04,P18:
        proof {
            reveal(sp_crc_reg);
            assert($s@.subrange(0, $i as int).drop_last() =~= $s@.subrange(0, $i - 1));
        }
  loop 0 after@P03,P04,P18:
        proof { assert($s@.subrange(0, $e as int) =~= $s@); }
  loop 1 before@P03,P04,P18:
        proof { reveal(sp_crc_reg); reveal_with_fuel(sp_crc_bits, 2); }
        let ghost __c0 = $m0;
  loop 1@P03,P04,P18:
    invariant
        0 <= $i <= 8, $e == 8,
        $m0 == sp_crc_bits(__c0, $i as nat),
    decreases 8 - $i,

fn wireless_mbus_link_layer::trailing_frame_crc_start
  spec@P05,P18:
    ensures match r { Some(n) => 10 <= n && n == data@.len() - 2, None => true },
  spec@P03,P25:
    ensures r == (if sp_trailing(data@) { Some((data@.len() - 2) as usize) } else { None::<usize> }),

fn wireless_mbus_link_layer::ManufacturerId::TryFrom<&[u8]>::try_from
  spec@P05,P18:
    ensures r is Ok ==> data@.len() >= 9,
  spec@P03:
    ensures
        r is Ok <==> data@.len() >= 9 && sp_man_ok(sp_le(data@[0], data@[1])) && sp_bcd4_ok(data@.subrange(2, 6)),
        match r { Ok(m) => sp_meter(m, data@), Err(_) => true },
  start@P03:
        proof {
            if data@.len() >= 6 { assert(data@.subrange(2, 6) =~= seq![data@[2], data@[3], data@[4], data@[5]]); }
            assert(forall|b: u8| #[trigger] ((b >> 4) & 0x0F) == b / 16) by (bit_vector);
        }

fn wireless_mbus_link_layer::WirelessFrame::TryFrom<&[u8]>::try_from
  spec@P05:
    ensures true,
  spec@P18:
    ensures r is Ok ==> data@.len() >= 11,
  spec@P03,P23,P24,P27,P25:
    ensures
        r is Ok <==> sp_wireless_ok(data@),
        match r { Ok(f) => sp_wireless(data@, f), Err(_) => true },
  start@P03:
        proof {
            if data@.len() >= 8 { assert(data@.subrange(2, data@.len() as int).subrange(2, 6) =~= data@.subrange(4, 8)); }
        }

fn wireless_mbus_link_layer::strip_format_a_crcs
  loops: 2
  attr@P04: #[verifier::rlimit(100)]
  spec@P05:
    ensures true,
  spec@P04,P23,P24,P27,P25:
    ensures
        final(output)@.len() == old(output)@.len(),
        sp_strip(data@, old(output)@.len() as int, match r { Some(s) => Some(s@), None => None::<Seq<u8>> }),
        match r { Some(s) => s@.len() <= final(output)@.len() && s@ == final(output)@.subrange(0, s@.len() as int), None => true },
  start@P04:
        proof {
            assert(forall|f: Seq<u8>| 10 <= f.len() && data@ == #[trigger] sp_format_a(f) ==> sp_is_format_a(data@) && sp_unformat(data@) == f) by {
                assert forall|f: Seq<u8>| 10 <= f.len() && data@ == #[trigger] sp_format_a(f) implies sp_is_format_a(data@) && sp_unformat(data@) == f by { lemma_format_a(f); }
            }
        }
  loop 0 before@P05:
        let ghost __room = output@.len();
        let ghost __ty: (usize, usize) = (pos, out_pos);
  loop 0@P05:
    invariant_except_break
        out_pos + 2 <= pos,
    invariant
        12 <= pos <= data@.len(), 10 <= out_pos <= data@.len(), data@.len() <= output@.len(), output@.len() == __room, data@.len() <= usize::MAX,
    decreases data@.len() - pos,
  loop 1 before@P05:
        let ghost __p0 = pos;
        let ghost __o0 = out_pos;
  loop 1@P05:
    invariant_except_break
        !found, pos == __p0, out_pos == __o0,
    invariant
        12 <= __p0 < data@.len(), 10 <= __o0, __o0 + 2 <= __p0, data@.len() <= output@.len(), output@.len() == __room, data@.len() <= usize::MAX,
        1 <= $i <= max_data_len + 1, max_data_len <= data@.len() - __p0 - 2, $lo == 1,
    ensures
        if found { __p0 < pos <= data@.len() && 10 <= out_pos && out_pos + 2 <= pos } else { pos == __p0 && out_pos == __o0 },
    decreases $i,
  loop 0 before@P04:
        let ghost __room = output@.len();
        let ghost __ty: (usize, usize) = (pos, out_pos);
        let ghost __all = sp_unblocks(sp_from(data@, 12));
        proof { assert(output@.subrange(10, 10) =~= Seq::<u8>::empty()); if __all is Some { assert(Seq::<u8>::empty() + __all->0 =~= __all->0); } }
  loop 0@P04:
    invariant_except_break
        out_pos + 2 <= pos,
        __all is Some ==> sp_unblocks(sp_from(data@, pos as int)) is Some
            && output@.subrange(10, out_pos as int) + sp_unblocks(sp_from(data@, pos as int))->0 =~= __all->0,
    invariant
        12 <= pos <= data@.len(), 10 <= out_pos <= data@.len(), data@.len() <= output@.len(), output@.len() == __room, data@.len() <= usize::MAX,
        forall|k: int| 0 <= k < 10 ==> #[trigger] output@[k] == data@[k],
        sp_crc_at(data@, 0, 10),
        __all == sp_unblocks(sp_from(data@, 12)),
    ensures
        __all is Some ==> output@.subrange(10, out_pos as int) =~= __all->0,
    decreases data@.len() - pos,
  loop 0 start@P04:
        let ghost __p0 = pos;
        let ghost __o0 = out_pos;
        let ghost __out0 = output@;
        proof { lemma_block_step(data@, pos as int); }
  loop 1@P04:
    invariant_except_break
        !found, pos == __p0, out_pos == __o0, output@ == __out0,
        $i == max_data_len + 1 || !sp_crc_at(data@, __p0 as int, __p0 + max_data_len),
    invariant
        12 <= __p0 < data@.len(), 10 <= __o0, __o0 + 2 <= __p0, data@.len() <= output@.len(), output@.len() == __room, data@.len() <= usize::MAX, __out0.len() == __room,
        1 <= $i <= max_data_len + 1, 1 <= max_data_len <= data@.len() - __p0 - 2, $lo == 1,
    ensures
        !found ==> pos == __p0 && out_pos == __o0 && output@ == __out0 && !sp_crc_at(data@, __p0 as int, __p0 + max_data_len),
        found ==> __p0 < pos <= data@.len() && out_pos - __o0 == pos - __p0 - 2 && 1 <= out_pos - __o0 <= max_data_len
            && (sp_crc_at(data@, __p0 as int, __p0 + max_data_len) ==> out_pos - __o0 == max_data_len)
            && (forall|k: int| 0 <= k < __o0 ==> #[trigger] output@[k] == __out0[k])
            && output@.subrange(__o0 as int, out_pos as int) =~= data@.subrange(__p0 as int, pos - 2),
    decreases $i,
  loop 0 end@P04:
        proof {
            if __all is Some {
                assert(output@.subrange(10, out_pos as int) =~= __out0.subrange(10, __o0 as int) + data@.subrange(__p0 as int, pos - 2));
            }
        }
  loop 0 after@P04:
        proof {
            if __all is Some {
                assert(output@.subrange(0, out_pos as int) =~= data@.subrange(0, 10) + __all->0);
            }
        }
  attr@P18: #[verifier::rlimit(100)]
  spec@P18:
    ensures
        match r { Some(s) => data@.len() >= 12 && s@.len() == sp_fullmap(data@).len(), None => true },
  loop 0 before@P18:
        let ghost __room = output@.len();
        let ghost __ty: (usize, usize) = (pos, out_pos);
        let ghost __all = sp_fullmap(data@).len();
  loop 0@P18:
    invariant_except_break
        out_pos + 2 <= pos,
        out_pos + sp_rest_of(data@, pos as int).len() == __all,
    invariant
        12 <= pos <= data@.len(), 10 <= out_pos <= data@.len(), data@.len() <= output@.len(), output@.len() == __room, data@.len() <= usize::MAX,
    ensures
        out_pos == __all,
    decreases data@.len() - pos,
  loop 0 start@P18:
        let ghost __p0 = pos;
        let ghost __o0 = out_pos;
        proof { lemma_blk(data@, pos as int); }
  loop 1@P18:
    invariant_except_break
        !found, pos == __p0, out_pos == __o0,
        sp_blk_from(data@, __p0 as int, $i - 1) == sp_blk(data@, __p0 as int),
    invariant
        12 <= __p0 < data@.len(), 10 <= __o0, __o0 + 2 <= __p0, data@.len() <= output@.len(), output@.len() == __room, data@.len() <= usize::MAX,
        1 <= $i <= max_data_len + 1, 1 <= max_data_len <= data@.len() - __p0 - 2, $lo == 1,
    ensures
        !found ==> pos == __p0 && out_pos == __o0 && sp_blk(data@, __p0 as int) == 0,
        found ==> sp_blk(data@, __p0 as int) > 0 && pos == __p0 + sp_blk(data@, __p0 as int) + 2 && out_pos == __o0 + sp_blk(data@, __p0 as int),
    decreases $i,
