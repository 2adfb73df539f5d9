fn m_bus_parser::annotate::crc16_en13757
  loops: 2
  spec:
    ensures r == sp_crc(data@),
  loop 0:
    invariant
        $i <= $e, $e == $s@.len(),
        $m0 == sp_crc_reg($s@.subrange(0, $i as int)),
    decreases $e - $i,
  loop 0 before:
        proof { reveal(sp_crc_reg); assert($s@.subrange(0, 0) =~= Seq::<u8>::empty()); }
  loop 0 start:
        proof {
            reveal(sp_crc_reg);
            assert($s@.subrange(0, $i as int).drop_last() =~= $s@.subrange(0, $i - 1));
        }
  loop 0 after:
        proof { assert($s@.subrange(0, $e as int) =~= $s@); }
  loop 1 before:
        proof { reveal(sp_crc_reg); reveal_with_fuel(sp_crc_bits, 2); }
        let ghost __c0 = $m0;
  loop 1:
    invariant
        0 <= $i <= 8, $e == 8,
        $m0 == sp_crc_bits(__c0, $i as nat),
    decreases 8 - $i,

fn m_bus_parser::annotate::build_format_a_offset_map
  loops: 6
  attr: #[verifier::rlimit(100)]
  spec:
    requires original@.len() >= 12,
    ensures r@ == sp_fullmap(original@),
  start:
        proof { assert(original.len() == original@.len()); }
  loop 0:
        invariant 0 <= $i <= 10, $e == 10, map@ =~= sp_count(0, $i as int),
        decreases 10 - $i,
  loop 1 before:
        proof { assert(map@ + sp_rest_of(original@, 12) =~= sp_fullmap(original@)); }
  loop 1:
        invariant_except_break
            map@ + sp_rest_of(original@, pos as int) =~= sp_fullmap(original@),
        invariant
            12 <= pos <= original@.len() <= usize::MAX,
        ensures
            map@ =~= sp_fullmap(original@),
        decreases original@.len() - pos,
  loop 1 start:
        let ghost __p0 = pos;
        let ghost __m0: Seq<usize> = map@;
        proof { lemma_blk(original@, pos as int); }
  loop 2:
        invariant 0 <= $i <= $e, __p0 + $e <= original@.len() <= usize::MAX, pos == __p0, map@ =~= __m0 + sp_count(__p0 as int, $i as int),
        decreases $e - $i,
  loop 3:
        invariant_except_break
            !found, pos == __p0, map@ == __m0,
            sp_blk_from(original@, __p0 as int, $i - 1) == sp_blk(original@, __p0 as int),
        invariant
            1 <= $i <= max_data_len + 1, 1 <= max_data_len <= original@.len() - __p0 - 2, $lo == 1, 12 <= __p0 < original@.len() <= usize::MAX,
        ensures
            !found ==> pos == __p0 && map@ == __m0 && sp_blk(original@, __p0 as int) == 0,
            found ==> sp_blk(original@, __p0 as int) > 0 && pos == __p0 + sp_blk(original@, __p0 as int) + 2
                && map@ =~= __m0 + sp_count(__p0 as int, sp_blk(original@, __p0 as int)),
        decreases $i,
  loop 4:
        invariant 0 <= $i <= $e, __p0 + $e <= original@.len() <= usize::MAX, pos == __p0, map@ =~= __m0 + sp_count(__p0 as int, $i as int),
        decreases $e - $i,
  loop 5:
        invariant 0 <= $i <= $e, __p0 + $e <= original@.len() <= usize::MAX, pos == __p0, map@ =~= __m0 + sp_count(__p0 as int, $i as int),
        decreases $e - $i,
