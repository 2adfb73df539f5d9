fn m_bus_application_layer::data_information::DataInformationField::From<u8>::from
  spec:
    ensures true,

fn m_bus_application_layer::data_information::DataInformationField::is_special_function
  spec:
    ensures true,

fn m_bus_application_layer::data_information::DataInformationField::has_extension
  spec:
    ensures true,

fn m_bus_application_layer::data_information::DataInformationField::special_function
  spec:
    ensures true,

fn m_bus_application_layer::data_information::DataInformationFieldExtensions::new
  spec:
    ensures r.0@ == data@,

fn m_bus_application_layer::data_information::DataInformationFieldExtensions::Iterator::size_hint
  inherent: yes
  spec:
    ensures r.0 == self.0@.len(),

fn m_bus_application_layer::data_information::DataInformationFieldExtensions::ExactSizeIterator::len
  inherent: yes
  spec:
    ensures r == self.0@.len(),

fn m_bus_application_layer::data_information::DataInformationFieldExtensions::Iterator::next
  inherent: yes
  spec:
    ensures r is Some ==> final(self).0@.len() + 1 == old(self).0@.len(),

fn m_bus_application_layer::data_information::DataInformationBlock::get_size
  spec:
    requires sp_exts(self.data_information_field_extension).len() < usize::MAX,
    ensures r == 1 + sp_exts(self.data_information_field_extension).len(),

fn m_bus_application_layer::data_information::DataInformationBlock::TryFrom<&[u8]>::try_from
  spec:
    ensures match r { Ok(b) => 1 + sp_exts(b.data_information_field_extension).len() <= data@.len(), Err(_) => true },
  loop 0:
        invariant $m0 <= $i, $i <= $e, $e == $s@.len(),
        decreases $e - $i,

fn m_bus_application_layer::data_information::DataInformation::TryFrom<&DataInformationBlock>::try_from
  spec:
    ensures true,
  start:
        proof {
            assert(forall|b: u8| (#[trigger] (b & 0x0f)) <= 15) by (bit_vector);
            assert(forall|b: u8| (#[trigger] ((b & 0x40) >> 6)) <= 1) by (bit_vector);
        }
  loop 0 before:
        let ghost __ty: (usize, i32, u64, u64) = (extension_index, tariff_index, tariff, device);
        proof { assert(1u64 << 1u64 == 2) by (bit_vector); }
  loop 0:
        invariant
            extension_index == $i + 1,
            forall|b: u8| (#[trigger] (b & 0x0f)) <= 15,
            1 <= extension_index <= 12, tariff_index == 2 * (extension_index - 1),
            storage_number < (1u64 << ((4 * (extension_index - 1) + 1) as u64)),
        decreases $it.0@.len(),
  loop 0 start:
        proof {
            if $i <= 11 {
                assert(1u64 << 4u64 == 16) by (bit_vector);
                lemma_or_field(storage_number, (dife.data & 0x0f) as u64, 4, (4 * ($i - 1) + 1) as u64);
            }
        }

fn m_bus_application_layer::data_information::DataInformation::get_size
  spec:
    ensures true,

fn m_bus_application_layer::data_information::Data::get_size
  spec:
    ensures r == self.size,

fn m_bus_application_layer::value_information::ValueInformationField::From<u8>::from
  spec:
    ensures true,

fn m_bus_application_layer::value_information::ValueInformationField::value_information_contains_ascii
  spec:
    ensures true,

fn m_bus_application_layer::value_information::ValueInformationField::has_extension
  spec:
    ensures true,

fn m_bus_application_layer::value_information::ValueInformationFieldExtension::has_extension
  spec:
    ensures true,

fn m_bus_application_layer::value_information::extract_plaintext_vife
  spec:
    ensures match r { Ok(t) => t@.len() < data@.len(), Err(_) => true },
  loop 0:
        invariant $i <= $e, $e == $s@.len(), $e < data@.len(), ascii@.len() == $i,
        decreases $e - $i,

fn m_bus_application_layer::value_information::ValueInformationBlock::get_size
  spec:
    ensures r == sp_vib_size(*self),

fn m_bus_application_layer::value_information::ValueInformationBlock::TryFrom<&[u8]>::try_from
  spec:
    ensures match r { Ok(b) => sp_vib_size(b) <= data@.len(), Err(_) => true },
  loop 0:
        invariant 1 <= offset <= data@.len(), vife@.len() == offset - 1, plaintext_vife is None,
        decreases data@.len() - offset,

fn m_bus_application_layer::data_record::RawDataRecordHeader::TryFrom<&[u8]>::try_from
  spec:
    ensures match r { Ok(h) => sp_header_size(h) <= data@.len(), Err(_) => true },
  start:
        proof { assert(data.len() == data@.len()); }

fn m_bus_application_layer::data_record::ProcessedDataRecordHeader::TryFrom<&RawDataRecordHeader>::try_from
  spec:
    ensures true,

fn m_bus_application_layer::data_record::DataRecordHeader::TryFrom<&[u8]>::try_from
  spec:
    ensures match r { Ok(h) => sp_header_size(h.raw_data_record_header) <= data@.len(), Err(_) => true },

fn m_bus_application_layer::data_record::DataRecordHeader::get_size
  spec:
    requires sp_header_size(self.raw_data_record_header) <= usize::MAX,
    ensures r == sp_header_size(self.raw_data_record_header),

fn m_bus_application_layer::data_record::DataRecord::get_size
  spec:
    ensures r == self.raw_bytes@.len(),

fn m_bus_application_layer::data_record::DataRecord::parse
  spec:
    ensures match r { Ok(x) => 1 <= x.raw_bytes@.len() <= data@.len() && sp_header_size(x.data_record_header.raw_data_record_header) <= x.raw_bytes@.len(), Err(_) => true },
  start:
        proof { assert(data.len() == data@.len()); }

fn m_bus_application_layer::data_record::DataRecord::TryFrom<(&[u8],&LongTplHeader)>::try_from
  spec:
    ensures match r { Ok(x) => 1 <= x.raw_bytes@.len() <= __a0.0@.len(), Err(_) => true },

fn m_bus_application_layer::data_record::DataRecord::TryFrom<&[u8]>::try_from
  spec:
    ensures match r { Ok(x) => 1 <= x.raw_bytes@.len() <= data@.len() && sp_header_size(x.data_record_header.raw_data_record_header) <= x.raw_bytes@.len(), Err(_) => true },

fn m_bus_application_layer::DataRecords::new
  spec:
    ensures r.offset <= r.data@.len(),

fn m_bus_application_layer::parse_data_records
  spec:
    ensures r.offset <= r.data@.len(),

fn m_bus_application_layer::parse_data_records_with_header
  spec:
    ensures r.offset <= r.data@.len(),

fn m_bus_application_layer::DataRecords::Iterator::next
  inherent: yes
  spec:
    ensures
        final(self).data@.len() == old(self).data@.len(),
        old(self).offset <= old(self).data@.len() ==> final(self).offset <= old(self).data@.len(),
        r is Some ==> old(self).offset < final(self).offset,
  loop 0:
        invariant
            self.data@.len() == old(self).data@.len(), old(self).offset <= self.offset,
            old(self).offset <= old(self).data@.len() ==> self.offset <= self.data@.len(),
        decreases self.data@.len() - self.offset,

fn m_bus_core::decryption::KeyProvider::get_key
  spec:
    requires sp_man_valid(context.manufacturer),

fn m_bus_core::decryption::StaticKeyProvider::KeyProvider::get_key
  inherent: yes
  spec:
    requires
        self.count <= N,
        sp_man_valid(context.manufacturer),
  loop 0:
    invariant $i <= $e, $e == $s@.len(),
    decreases $e - $i,

fn m_bus_core::decryption::StaticKeyProvider::add_key
  spec:
    requires old(self).count <= N,
    ensures final(self).count <= N,

fn m_bus_core::decryption::StaticKeyProvider::compute_key_id
  spec:
    ensures true,

fn m_bus_core::decryption::StaticKeyProvider::new
  spec:
    ensures r.count <= N,

fn m_bus_core::decryption::StaticKeyProvider::Default::default
  spec:
    ensures r.count <= N,

fn m_bus_core::decryption::EncryptedPayload::new
  spec:
    ensures r.context == context,
