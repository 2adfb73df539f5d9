fn m_bus_application_layer::data_information::DataRecordError::From<data_information::DataInformationError>::from
  spec:
    ensures true,

fn m_bus_application_layer::data_information::TextUnit::new
  spec:
    ensures r.0@ == input@,

fn m_bus_application_layer::data_information::bcd_to_value_internal
  spec@P09,P10:
    requires num_digits <= 1000, num_digits % 2 == 0, sign == 1 || sign == -1,
    ensures sp_bcd_case(r, data@, num_digits as int, lsb_order, sign as int),
  spec@P20:
    requires num_digits <= 1000, num_digits % 2 == 0, sign == 1 || sign == -1,
    ensures sp_bcd_case(r, data@, num_digits as int, lsb_order, sign as int), sp_bcd_about(r, data@, num_digits as int, lsb_order, sign as int),
  start@P20:
        let ghost mut mm: int = 0;
  spec@P05,P11,P18:
    requires num_digits <= 1000,
    ensures match r { Ok(d) => d.size <= data@.len(), Err(_) => true },
  spec@P06,P08,P21,P22:
    requires num_digits <= 1000,
    ensures match r { Ok(d) => d.size == (num_digits + 1) / 2 && d.size <= data@.len(), Err(_) => true },
  loop 0@P09,P10:
        invariant
            $i <= $e, $e == num_digits, num_digits <= 1000, num_digits % 2 == 0, data@.len() >= num_digits / 2,
            forall|j: int| 0 <= j < $i ==> (#[trigger] sp_digit(data@, num_digits as int, lsb_order, j)) <= 9,
            $i <= 16 ==> data_value == f_of(sp_bcd_val(data@, num_digits as int, lsb_order, $i as int)),
            $i <= 16 ==> current_weight == f_of(sp_p10($i as int)),
        decreases $e - $i,
  loop 0@P20:
        invariant
            $i <= $e, $e == num_digits, num_digits <= 1000, num_digits % 2 == 0, data@.len() >= num_digits / 2,
            forall|j: int| 0 <= j < $i ==> (#[trigger] sp_digit(data@, num_digits as int, lsb_order, j)) <= 9,
            $i <= 16 ==> data_value == f_of(sp_bcd_val(data@, num_digits as int, lsb_order, $i as int)),
            $i <= 18 ==> current_weight == f_of(sp_p10($i as int)),
            $i <= 18 ==> data_value == f_of(mm) && sp_track(mm, sp_bcd_val(data@, num_digits as int, lsb_order, $i as int), $i as int),
        decreases $e - $i,
  loop 0@P05,P06,P08,P11,P18,P21,P22:
        invariant $i <= $e, $e == num_digits, num_digits <= 1000,
        decreases $e - $i,
  loop 0 start@P09,P10:
        proof {
            assert(forall|b: u8| (#[trigger] (b & 0x0f)) == b % 16) by (bit_vector);
            assert(forall|b: u8| ((#[trigger] (b >> 4)) & 0x0f) == b / 16) by (bit_vector);
            let b = if lsb_order { data@[(num_digits - $i) / 2] } else { data@[($i - 1) / 2] };
            assert(b & 0x0f == b % 16 && (b >> 4) & 0x0f == b / 16);
            assert(sp_digit(data@, num_digits as int, lsb_order, $i - 1) == (if ($i - 1) % 2 == 0 { (b % 16) as int } else { (b / 16) as int }));
            if $i <= 16 && sp_digit(data@, num_digits as int, lsb_order, $i - 1) <= 9 { lemma_bcd_step(data@, num_digits as int, lsb_order, $i - 1); }
        }
  loop 0 start@P20:
        proof {
            assert(forall|b: u8| (#[trigger] (b & 0x0f)) == b % 16) by (bit_vector);
            assert(forall|b: u8| ((#[trigger] (b >> 4)) & 0x0f) == b / 16) by (bit_vector);
            let b = if lsb_order { data@[(num_digits - $i) / 2] } else { data@[($i - 1) / 2] };
            assert(b & 0x0f == b % 16 && (b >> 4) & 0x0f == b / 16);
            assert(sp_digit(data@, num_digits as int, lsb_order, $i - 1) == (if ($i - 1) % 2 == 0 { (b % 16) as int } else { (b / 16) as int }));
            if $i <= 18 && sp_digit(data@, num_digits as int, lsb_order, $i - 1) <= 9 {
                lemma_track(mm, data@, num_digits as int, lsb_order, $i - 1);
                mm = f_near(mm + sp_digit(data@, num_digits as int, lsb_order, $i - 1) * sp_p10($i - 1));
            }
            if $i <= 16 && sp_digit(data@, num_digits as int, lsb_order, $i - 1) <= 9 { lemma_bcd_step(data@, num_digits as int, lsb_order, $i - 1); }
        }
  loop 0 after@P09,P10:
        proof {
            assert(sp_digits_ok(data@, num_digits as int, lsb_order));
            let v = sp_bcd_val(data@, num_digits as int, lsb_order, num_digits as int);
            assert(1 * v == v && -1 * v == -v);
            assert(sign * v == (if sign == 1 { v } else { -v })) by (nonlinear_arith) requires sign == 1 || sign == -1;
            if num_digits <= 16 { lemma_bcd_bound(data@, num_digits as int, lsb_order, num_digits as int); }
        }
  loop 0 after@P20:
        proof {
            assert(sp_digits_ok(data@, num_digits as int, lsb_order));
            let v = sp_bcd_val(data@, num_digits as int, lsb_order, num_digits as int);
            assert(1 * v == v && -1 * v == -v);
            assert(sign * v == (if sign == 1 { v } else { -v })) by (nonlinear_arith) requires sign == 1 || sign == -1;
            if num_digits <= 16 { lemma_bcd_bound(data@, num_digits as int, lsb_order, num_digits as int); }
            if num_digits <= 18 && v != 0 {
                lemma_bcd_bound(data@, num_digits as int, lsb_order, num_digits as int);
                lemma_p10_mono(num_digits as int, 18);
                reveal_with_fuel(sp_p10, 19);
                axiom_rep_neg(mm);
                assert(mm > 0);
                assert(sp_near_to(mm, f_of(mm), v));
                assert(sp_near_to(-mm, f_of(-mm), -v));
            }
        }

fn m_bus_application_layer::data_information::integer_to_value_internal
  spec@P09,P10,P20:
    requires byte_size <= data@.len(),
    ensures
        r.size == byte_size, r.value is Some,
        if byte_size > 8 { r.value->Some_0 is LossyNumber } else { r.value->Some_0 == DataType::Number(f_of(sp_twos(data@, byte_size as int))) },
  spec@P05,P06,P08,P11,P18,P21,P22:
    ensures r.size == byte_size,
  loop 0 before:
        let ghost __ty: u32 = shift;
  loop 0@!P05:
        invariant
            $i <= $e, $s@ == data@, $e <= 8, $e <= byte_size, $e <= data@.len(),
            byte_size <= data@.len() ==> $e == (if byte_size > 8 { 8usize } else { byte_size }),
            shift == 8 * $i, data_value as u64 == sp_le_n(data@, $i as int),
        decreases $e - $i,
  loop 0 start@!P05:
        proof { lemma_int_step(data_value, *byte, data@, ($i - 1) as u32); }
  loop 0 after@!P05:
        proof {
            lemma_int_sign(data_value, data@, $i as u32);
            lemma_p256();
            if 0 < $i < 8 { lemma_le(data@, $i as int); }
            if $i <= 7 { lemma_pow2($i as u32); }
        }
  loop 0@P05:
        invariant $i <= $e, $s@ == data@, $e <= 8, $e <= byte_size, $e <= data@.len(), shift == 8 * $i,
            data_value as u64 == sp_le_n(data@, $i as int),
        decreases $e - $i,
  loop 0 start@P05:
        proof { lemma_int_step(data_value, *byte, data@, ($i - 1) as u32); }
  loop 0 after@P05:
        proof {
            lemma_int_sign(data_value, data@, $i as u32);
            lemma_p256();
            if 0 < $i < 8 { lemma_le(data@, $i as int); }
            if $i <= 7 { lemma_pow2($i as u32); }
        }

fn m_bus_application_layer::data_information::DataFieldCoding::parse
  attr@P20,P22: #[verifier::rlimit(200)]
  spec@P09:
    ensures sp_fixed(*self, input@, sp_lsb(fixed_data_header), r),
        match r { Ok(x) => x.size <= input@.len(), Err(_) => true },
  spec@P05,P18:
    ensures match r { Ok(x) => x.size <= input@.len(), Err(_) => true },
  spec@P06,P08,P21:
    ensures
        match r { Ok(x) => x.size == sp_value_size(*self, input@) && x.size <= input@.len(), Err(_) => true },
        *self is SpecialFunctions && !(*self == DataFieldCoding::SpecialFunctions(SpecialFunctions::Reserved)) ==> r is Ok,
  spec@P20:
    ensures sp_valued(*self, input@, sp_lsb(fixed_data_header), r),
        match r { Ok(x) => x.size == sp_value_size(*self, input@) && x.size <= input@.len(), Err(_) => true },
        *self is SpecialFunctions && !(*self == DataFieldCoding::SpecialFunctions(SpecialFunctions::Reserved)) ==> r is Ok,
  spec@P10:
    ensures *self is VariableLength ==> sp_var(input@, sp_lsb(fixed_data_header), r),
        match r { Ok(x) => x.size <= input@.len(), Err(_) => true },
  spec@P22:
    ensures sp_date(*self, input@, r),
        match r { Ok(x) => x.size == sp_value_size(*self, input@) && x.size <= input@.len(), Err(_) => true },
        *self is SpecialFunctions && !(*self == DataFieldCoding::SpecialFunctions(SpecialFunctions::Reserved)) ==> r is Ok,
  spec@P11:
    ensures sp_date(*self, input@, r),
        match r { Ok(x) => x.size <= input@.len(), Err(_) => true },
  start@P11,P22:
        proof {
            assert(forall|b: u8| (#[trigger] (b & 0x3f)) == b % 64) by (bit_vector);
            assert(forall|b: u8| (#[trigger] (b & 0x1f)) == b % 32) by (bit_vector);
            assert(forall|b: u8| (#[trigger] (b & 0x0f)) == b % 16) by (bit_vector);
            assert(forall|b: u8| (#[trigger] (b >> 0)) == b) by (bit_vector);
            assert(forall|b: u8| (((#[trigger] (b & 0xf0)) as u16) >> 1) == 8 * ((b / 16) as u16)) by (bit_vector);
            assert(forall|b: u8| (((#[trigger] (b & 0xe0)) as u16) >> 5) == ((b / 32) as u16)) by (bit_vector);
            assert(forall|x: u16, y: u16| x % 8 == 0 && y < 8 ==> (#[trigger] (x | y)) == add(x, y)) by (bit_vector);
        }
