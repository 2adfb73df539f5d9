fn m_bus_application_layer::data_information::DataInformationField::From<u8>::from
  spec:
    ensures r.data == data,
  fromspec: DataInformationField { data: v }

fn m_bus_application_layer::data_information::DataInformationFieldExtensions::new
  spec:
    ensures r.0@ == data@,

fn m_bus_application_layer::data_information::DataInformationField::has_extension
  spec:
    ensures r == (self.data >= 128),
  start:
        proof { let b = self.data; assert((b & 0x80 != 0) == (b >= 128)) by (bit_vector); }

fn m_bus_application_layer::data_information::DataInformationField::special_function
  spec:
    ensures r == sp_special(self.data),

fn m_bus_application_layer::data_information::DataInformationFieldExtensions::Iterator::next
  inherent: yes
  spec:
    ensures match r {
        Some(x) => old(self).0@.len() > 0 && x.data == old(self).0@[0] && final(self).0@ =~= old(self).0@.subrange(1, old(self).0@.len() as int),
        None => old(self).0@.len() == 0 && final(self).0@ == old(self).0@,
    },

fn m_bus_application_layer::data_information::DataInformationBlock::TryFrom<&[u8]>::try_from
  spec:
    ensures
        r is Ok <==> sp_dif_ok(data@),
        match r { Ok(b) => sp_dib(b, data@), Err(_) => true },
  loop 0:
        invariant_except_break $m0 == $i,
        invariant
            $s@ == data@, $i <= $e, $e == data@.len(),
            forall|j: int| 0 <= j < $m0 ==> (#[trigger] data@[j]) >= 128,
        ensures $m0 <= data@.len(), $m0 < data@.len() ==> data@[$m0 as int] < 128,
            forall|j: int| 0 <= j < $m0 ==> (#[trigger] data@[j]) >= 128,
        decreases $e - $i,
  loop 0 start:
        proof { assert(forall|b: u8| (#[trigger] (b & 0x80)) != 0 <==> b >= 128) by (bit_vector); }
  loop 0 after:
        proof { lemma_run(data@, $m0 as int); }

fn m_bus_application_layer::data_information::DataInformation::TryFrom<&DataInformationBlock>::try_from
  spec:
    ensures
        r is Ok <==> sp_exts(data_information_block.data_information_field_extension).len() <= 11,
        match r { Ok(i) => sp_di(i, *data_information_block), Err(_) => true },
  start:
        proof {
            assert(forall|b: u8| (#[trigger] (b & 0x0f)) == b % 16) by (bit_vector);
            assert(forall|b: u8| (#[trigger] (b & 0x30)) >> 4 == (b / 16) % 4) by (bit_vector);
            assert(forall|b: u8| (#[trigger] (b & 0x40)) >> 6 == (b / 64) % 2) by (bit_vector);
            assert(forall|b: u8| (#[trigger] (b & 0x80)) != 0 <==> b >= 128) by (bit_vector);
        }
  loop 0 before:
        proof { reveal_with_fuel(sp_storage, 1); reveal_with_fuel(sp_tariff, 1); reveal_with_fuel(sp_subunit, 1);
            assert(1u64 << 0u64 == 1 && 1u64 << 1u64 == 2) by (bit_vector); }
        let ghost __ty: (usize, i32, u64, u64) = (extension_index, tariff_index, tariff, device);
  loop 0:
        invariant
            $i <= difes.0@.len(), $i <= 11, $it.0@ =~= difes.0@.subrange($i as int, difes.0@.len() as int),
            difes.0@ == sp_exts(data_information_block.data_information_field_extension),
            dif == data_information_block.data_information_field.data,
            extension_index == $i + 1, tariff_index == 2 * $i,
            storage_number == sp_storage(dif, difes.0@, $i as int), storage_number < (1u64 << ((4 * $i + 1) as u64)),
            tariff == sp_tariff(difes.0@, $i as int), tariff < (1u64 << ((2 * $i) as u64)),
            device == sp_subunit(difes.0@, $i as int), device < (1u64 << ($i as u64)),
            forall|b: u8| (#[trigger] (b & 0x0f)) == b % 16,
            forall|b: u8| (#[trigger] (b & 0x30)) >> 4 == (b / 16) % 4,
            forall|b: u8| (#[trigger] (b & 0x40)) >> 6 == (b / 64) % 2,
            forall|b: u8| (#[trigger] (b & 0x80)) != 0 <==> b >= 128,
        ensures $i == difes.0@.len(),
        decreases $it.0@.len(),
  loop 0 start:
        proof {
            let b = dife.data;
            assert(b == difes.0@[$i - 1]);
            if $i <= 11 {
                assert(1u64 << 4u64 == 16 && 1u64 << 2u64 == 4 && 1u64 << 1u64 == 2) by (bit_vector);
                lemma_or_field(storage_number, (b % 16) as u64, 4, (4 * ($i - 1) + 1) as u64);
                lemma_or_field(tariff, ((b / 16) % 4) as u64, 2, (2 * ($i - 1)) as u64);
                lemma_or_field(device, ((b / 64) % 2) as u64, 1, ($i - 1) as u64);
            }
        }
