fn m_bus_core::ManufacturerCode::from_id
  spec@P17,P03,P13,P15:
    ensures
        r is Ok <==> sp_man_ok(id),
        match r { Ok(m) => sp_is_man(m, id) && sp_man_valid(m) && sp_man_id(m) == id, Err(_) => true },
  spec@P05,P18:
    ensures match r { Ok(m) => sp_man_valid(m), Err(_) => true },
  start@P17,P03,P13,P15:
        proof {
            assert((id as int % 1024) / 32 == (id as int / 32) % 32) by (nonlinear_arith);
            if sp_man_ok(id) {
                assert(id as int == (id as int / 1024) * 1024 + ((id as int / 32) % 32) * 32 + id as int % 32) by (nonlinear_arith);
            }
        }

fn m_bus_core::ManufacturerCode::to_id
  spec@P17,P15,P16,P24,P27:
    requires sp_man_valid(*self),
    ensures r == sp_man_id(*self),
  spec@P05,P18:
    requires sp_man_valid(*self),

fn m_bus_core::bcd_hex_digits_to_u32
  loops: 1
  spec@P17,P03,P13,P14,P15:
    ensures
        r is Ok <==> sp_bcd4_ok(digits@),
        match r { Ok(n) => n == sp_bcd4(digits@), Err(_) => true },
  spec@P05,P18:
    ensures true,
  start@P17,P03,P13,P14,P15:
        proof { lemma_bcd4(digits@); assert(forall|x: u8| #[trigger] (x & 0x0F) == x % 16 && x >> 4 == x / 16) by (bit_vector); assert(forall|x: u8| #[trigger] (x >> 4) == x / 16) by (bit_vector); }
  start@P05,P18:
        proof { assert(forall|x: u8| #[trigger] (x & 0x0F) == x % 16) by (bit_vector); assert(forall|x: u8| #[trigger] (x >> 4) == x / 16) by (bit_vector); }
  loop 0@P17,P03,P13,P14,P15:
    invariant
        $i <= 4, $s@ == digits@, $s@.len() == 4,
        forall|k: int| $i <= k < 4 ==> sp_digit_ok(#[trigger] digits@[k]),
        number as int == sp_bcd_from(digits@, $i as int),
        ($i == 4 ==> number == 0), ($i == 3 ==> number <= 99), ($i == 2 ==> number <= 9999), ($i == 1 ==> number <= 999999), ($i == 0 ==> number <= 99999999),
        forall|x: u8| #[trigger] (x & 0x0F) == x % 16,
        forall|x: u8| #[trigger] (x >> 4) == x / 16,
    decreases $i,
  loop 0@P05,P18:
    invariant
        $i <= 4, $s@.len() == 4,
        ($i == 4 ==> number == 0), ($i == 3 ==> number <= 99), ($i == 2 ==> number <= 9999), ($i == 1 ==> number <= 999999), ($i == 0 ==> number <= 99999999),
        forall|x: u8| #[trigger] (x & 0x0F) == x % 16,
        forall|x: u8| #[trigger] (x >> 4) == x / 16,
    decreases $i,

fn m_bus_core::IdentificationNumber::from_bcd_hex_digits
  spec@P17,P03,P13,P14,P15:
    ensures
        r is Ok <==> sp_bcd4_ok(digits@),
        match r { Ok(n) => n.number == sp_bcd4(digits@), Err(_) => true },
  spec@P05,P18:
    ensures true,

fn m_bus_core::SecurityMode::from_bits
  spec@P17,P14,P15,P23,P24,P27:
    ensures r == sp_mode(mode as int % 32),
  spec@P05,P18:
    ensures true,
  start:
        proof { assert(mode & 0b0001_1111 == mode % 32) by (bit_vector); }

fn m_bus_core::SecurityMode::to_bits
  spec@P17,P24,P27:
    ensures forall|b: int| 0 <= b < 32 && *self == #[trigger] sp_mode(b) ==> r == b,
  spec@P05,P18:
    ensures true,
  start:
        proof { assert(forall|m: u8| #[trigger] (m & 0b0001_1111) == m % 32) by (bit_vector); }

fn m_bus_core::ConfigurationField::from_bytes
  spec@P17,P13,P14,P15,P23,P25:
    ensures r.raw == sp_le(lsb, msb),
  spec@P05,P18:
    ensures true,

fn m_bus_core::ConfigurationField::raw
  spec@P17,P13,P23,P24,P27:
    ensures r == self.raw,
  spec@P05,P18:
    ensures true,

fn m_bus_core::ConfigurationField::security_mode
  spec@P17,P13,P14,P15,P23,P24,P27,P25:
    ensures r == sp_cf_mode(self.raw),
  spec@P05,P18:
    ensures true,
  start:
        proof { assert(forall|x: u16| #[trigger] ((x >> 8) & 0b0001_1111) == (x / 256) % 32) by (bit_vector); }

fn m_bus_core::ConfigurationField::mode_specific_lower
  spec@P17:
    ensures r == self.raw as int % 256,
  spec@P05,P18:
    ensures true,
  start:
        proof { assert(forall|x: u16| #[trigger] (x & 0xFF) == x % 256) by (bit_vector); }

fn m_bus_core::ConfigurationField::mode_specific_upper
  spec@P17:
    ensures r == self.raw as int / 8192,
  spec@P05,P18:
    ensures true,
  start:
        proof { assert(forall|x: u16| #[trigger] ((x >> 13) & 0b0000_0111) == x / 8192) by (bit_vector); }

fn m_bus_core::ConfigurationField::From<u16>::from
  fromspec: ConfigurationField { raw: v }
  spec:
    ensures r.raw == value,

fn m_bus_core::u16::From<ConfigurationField>::from
  fromspec: v.raw
  spec:
    ensures r == cf.raw,

fn m_bus_core::u32::From<IdentificationNumber>::from
  fromspec: v.number
  spec:
    ensures r == id.number,

fn m_bus_core::DeviceType::From<u8>::from
  fromspec@P17,P03,P13,P15: sp_device(v)
  spec@P17,P03,P13,P15:
    ensures r == sp_device(value),
  spec@P05,P18:
    ensures true,

fn m_bus_core::u8::From<DeviceType>::from
  fromspec@P17,P15,P23,P27: sp_device_code(v)
  spec@P17,P15,P23,P27:
    ensures r == sp_device_code(value),
  spec@P05,P18:
    ensures true,
