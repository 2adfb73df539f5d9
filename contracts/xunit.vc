fn m_bus_parser::rscada_xml::vif_unit_normalize
  spec:
    ensures match r { Some(x) => sp_scaled(sp_code((code & 0xF7F) as int), value) == Some((x.0@, x.1, x.2@)), None => sp_scaled(sp_code((code & 0xF7F) as int), value) is None },
  start:
        proof { assert(forall|a: u16| #[trigger] (a & 0xF7F) % 256 < 128) by (bit_vector); }
fn m_bus_parser::rscada_xml::vib_unit_normalize
  spec:
    ensures match r { Some(x) => sp_unit(vif, vifes@, sp_own(*custom_vif), value) == Some((x.0@, x.1, x.2@)), None => sp_unit(vif, vifes@, sp_own(*custom_vif), value) is None },
  start:
        proof {
            assert(forall|a: u8| #[trigger] (a & 0x7F) < 128 && (a & 0x7F) == a % 128) by (bit_vector);
            assert(forall|a: u16| a < 128 ==> #[trigger] (a | 0x100) == a + 256) by (bit_vector);
            assert(forall|a: u16| a < 128 ==> #[trigger] (a | 0x200) == a + 512) by (bit_vector);
            assert(forall|a: u16| a < 128 ==> #[trigger] (a & 0xF7F) == a) by (bit_vector);
            assert(forall|a: u16| 256 <= a < 384 ==> #[trigger] (a & 0xF7F) == a) by (bit_vector);
            assert(forall|a: u16| 512 <= a < 640 ==> #[trigger] (a & 0xF7F) == a) by (bit_vector);
        }
fn m_bus_application_layer::Counter::Display::fmt
  inherent: yes
  spec:
    ensures final(f)@ == old(f)@ + crate::dep::sp_padded(self.count as int, 8), r is Ok,
fn m_bus_parser::rscada_xml::medium_lookup
  spec:
    ensures r@ == sp_medium(medium as int),
fn m_bus_parser::rscada_xml::fixed_medium
  spec:
    ensures r@ == sp_fmedium(cnt1_type as int / 64 + 4 * (cnt2_type as int / 64)),
  start:
        proof { assert(forall|a: u8, b: u8| #[trigger] (((a & 0xC0) >> 6) | ((b & 0xC0) >> 4)) == a / 64 + 4 * (b / 64)) by (bit_vector); }
fn m_bus_parser::rscada_xml::fixed_unit
  spec:
    ensures r@ == sp_funit(medium_unit_byte as int % 64),
fn m_bus_parser::rscada_xml::render_fixed
  spec:
    ensures r@ == sp_fixed(id, access_number, status, device_type_and_unit, *counter1, *counter2),
  start:
        proof { assert(forall|s: u8| #[trigger] (s & 0x40) != 0 <==> (s / 64) % 2 == 1) by (bit_vector); }
fn m_bus_parser::rscada_xml::product_name
  attr: #[verifier::rlimit(80)]
  spec:
    ensures r@ == sp_product(manufacturer@, version as int, medium as int, id as int / 1000000 % 100),
  start:
        proof {
            lemma_names();
            assert(forall|a: u32, b: u32| a < 10 && b < 10 ==> #[trigger] (a << 4 | b) == a * 16 + b) by (bit_vector);
            assert((id / 10_000_000) % 10 * 10 + (id / 1_000_000) % 10 == id / 1_000_000 % 100);
        }
