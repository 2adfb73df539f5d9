fn m_bus_application_layer::value_information::ValueInformationCoding::From<&ValueInformationField>::from
  spec@!P12:
    ensures true,
  spec@P12:
    ensures r == sp_coding_of(value_information.data),

fn m_bus_application_layer::value_information::consume_orthhogonal_vife
  attr@P12: #[verifier::spinoff_prover] #[verifier::rlimit(200)]
  spec@P12:
    requires
        vife@.len() <= 10,
        old(labels)@.len() + vife@.len() <= 11,
        old(units)@.len() + 2 * vife@.len() <= 22,
        -1000 <= *old(decimal_scale_exponent) <= 1000,
        -1000 <= *old(decimal_offset_exponent) <= 1000,
    ensures
        sp_is(sp_fold(sp_of(old(labels)@, old(units)@, *old(decimal_scale_exponent) as int, *old(decimal_offset_exponent) as int), vife@, vife@.len() as int),
            final(labels)@, final(units)@, *final(decimal_scale_exponent) as int, *final(decimal_offset_exponent) as int),
  spec@!P12:
    requires
        vife@.len() <= 10,
        old(labels)@.len() + vife@.len() <= 11,
        old(units)@.len() + 2 * vife@.len() <= 22,
        -1000 <= *old(decimal_scale_exponent) <= 1000,
        -1000 <= *old(decimal_offset_exponent) <= 1000,
        sp_no_clock(old(labels)@),
    ensures
        -1090 <= *final(decimal_scale_exponent) <= 1090,
        sp_no_clock(final(labels)@),
  start@!P12:
        broadcast use lemma_no_clock_push;
  loop 0@!P12:
        invariant
            $i <= $e, $e == $s@.len(), $s@ == vife@, vife@.len() <= 10,
            old(labels)@.len() + vife@.len() <= 11, old(units)@.len() + 2 * vife@.len() <= 22,
            labels@.len() <= old(labels)@.len() + $i, units@.len() <= old(units)@.len() + 2 * $i,
            -1000 - 9 * $i <= *decimal_scale_exponent <= 1000 + 9 * $i, -1000 - 9 * $i <= *decimal_offset_exponent <= 1000 + 9 * $i,
            sp_no_clock(labels@),
        decreases $e - $i,
  loop 0 start@!P12:
            broadcast use lemma_no_clock_push;
  loop 0@P12:
        invariant
            $i <= $e, $e == $s@.len(), $s@ == vife@, vife@.len() <= 10,
            old(labels)@.len() + vife@.len() <= 11, old(units)@.len() + 2 * vife@.len() <= 22,
            -1000 <= *old(decimal_scale_exponent) <= 1000, -1000 <= *old(decimal_offset_exponent) <= 1000,
            labels@.len() <= old(labels)@.len() + $i, units@.len() <= old(units)@.len() + 2 * $i,
            -1000 - 9 * $i <= *decimal_scale_exponent <= 1000 + 9 * $i, -1000 - 9 * $i <= *decimal_offset_exponent <= 1000 + 9 * $i,
            sp_is(sp_fold(sp_of(old(labels)@, old(units)@, *old(decimal_scale_exponent) as int, *old(decimal_offset_exponent) as int), vife@, $i as int),
                labels@, units@, *decimal_scale_exponent as int, *decimal_offset_exponent as int),
            sp_fold(sp_of(old(labels)@, old(units)@, *old(decimal_scale_exponent) as int, *old(decimal_offset_exponent) as int), vife@, $i as int).ext == is_extension_of_combinable_orthogonal_vife,
        decreases $e - $i,
  loop 0 start:
            proof { lemma_low(v.data); }

fn m_bus_application_layer::value_information::ValueInformation::TryFrom<&ValueInformationBlock>::try_from
  nobits: yes
  attr@P12: #[verifier::spinoff_prover] #[verifier::rlimit(200)]
  spec@!P12:
    ensures match r { Ok(v) => -1090 <= v.decimal_scale_exponent <= 1090 && sp_no_clock(v.labels@), Err(_) => true },
  start@!P12:
        broadcast use lemma_no_clock_push;
        proof {
            assert(forall|b: u8| (#[trigger] (b & 0x03)) <= 3) by (bit_vector);
            lemma_no_clock_none();
        }
  spec@P12:
    ensures
        match r {
            Ok(v) => match sp_vi(value_information_block.value_information.data, sp_vifes(*value_information_block)) {
                Some(s) => sp_vi_is(v, s),
                None => false,
            },
            Err(_) => match sp_vi(value_information_block.value_information.data, sp_vifes(*value_information_block)) {
                Some(s) => s.labels.len() > 10 || s.units.len() > 10,
                None => true,
            },
        },
  start@P12:
        proof {
            let x = sp_vifes(*value_information_block);
            lemma_low(value_information_block.value_information.data);
            if x.len() > 0 { lemma_low(x[0].data); }
            if x.len() > 1 { lemma_low(x[1].data); }
            assert(x.subrange(0, x.len() as int) =~= x);
            assert(x.subrange(x.len() as int, x.len() as int) =~= Seq::empty());
        }
