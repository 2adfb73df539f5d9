fn m_bus_application_layer::data_information::DataInformationField::is_special_function
  spec:
    ensures r == (self.data % 16 == 15),
  start:
        proof { let b = self.data; assert(b & 0x0f == b % 16) by (bit_vector); }

fn m_bus_application_layer::data_information::DataInformationFieldExtensions::Iterator::size_hint
  inherent: yes
  spec:
    ensures r.0 == self.0@.len(),

fn m_bus_application_layer::data_information::DataInformationFieldExtensions::ExactSizeIterator::len
  inherent: yes
  spec:
    ensures r == self.0@.len(),

fn m_bus_application_layer::data_information::DataInformationBlock::get_size
  spec:
    requires sp_exts(self.data_information_field_extension).len() <= 1000,
    ensures r == 1 + sp_exts(self.data_information_field_extension).len(),

fn m_bus_application_layer::data_information::Data::get_size
  spec:
    ensures r == self.size,

fn m_bus_application_layer::data_record::DataRecord::get_size
  spec:
    ensures r == self.raw_bytes@.len(),

fn m_bus_application_layer::data_record::DataRecordHeader::get_size
  spec:
    requires sp_exts(self.raw_data_record_header.data_information_block.data_information_field_extension).len() <= 1000,
    ensures r == sp_header_size(self.raw_data_record_header),

fn m_bus_application_layer::data_record::RawDataRecordHeader::TryFrom<&[u8]>::try_from
  spec:
    ensures
        match r { Ok(h) => sp_raw_header(h, data@), Err(_) => true },
        r is Ok <==> sp_dif_ok(data@) && (sp_is_special(data@[0]) || sp_vib_ok(data@.subrange(sp_dif_len(data@), data@.len() as int))),
  start:
        proof { if data@.len() > 0 { lemma_run_bound(data@.subrange(1, data@.len() as int)); } }

fn m_bus_application_layer::data_record::ProcessedDataRecordHeader::TryFrom<&RawDataRecordHeader>::try_from
  spec:
    ensures
        match r { Ok(p) => sp_processed(p, *raw_data_record_header), Err(_) => true },
        raw_data_record_header.value_information_block is None && sp_exts(raw_data_record_header.data_information_block.data_information_field_extension).len() <= 11 ==> r is Ok,

fn m_bus_application_layer::data_record::DataRecordHeader::TryFrom<&[u8]>::try_from
  spec:
    ensures
        match r { Ok(h) => sp_raw_header(h.raw_data_record_header, data@) && sp_processed(h.processed_data_record_header, h.raw_data_record_header), Err(_) => true },
        sp_dif_ok(data@) && sp_is_special(data@[0]) ==> r is Ok,
  start:
        proof { if data@.len() > 0 { lemma_run_bound(data@.subrange(1, data@.len() as int)); } }

fn m_bus_application_layer::data_record::DataRecord::parse
  start:
        proof {
            assert forall|h: RawDataRecordHeader<'_>| #[trigger] sp_raw_header(h, data@) implies
                sp_header_size(h) == sp_header_len(data@) && 1 <= sp_header_len(data@) <= data@.len()
                && sp_exts(h.data_information_block.data_information_field_extension).len() <= 11 by { lemma_header_size(h, data@); }
        }
  spec@P09:
    ensures match r { Ok(x) => x.raw_bytes@.len() <= data@.len() && sp_headers(x, data@) && (sp_fixed(sp_coding_in(x), data@.subrange(sp_header_len(data@), data@.len() as int), sp_lsb(fixed_data_header), Ok(x.data))), Err(_) => true },
  spec@P10:
    ensures match r { Ok(x) => x.raw_bytes@.len() <= data@.len() && sp_headers(x, data@) && (sp_coding_in(x) is VariableLength ==> sp_var(data@.subrange(sp_header_len(data@), data@.len() as int), sp_lsb(fixed_data_header), Ok(x.data))), Err(_) => true },
  spec@P11:
    ensures match r { Ok(x) => x.raw_bytes@.len() <= data@.len() && sp_headers(x, data@) && (sp_date(sp_coding_in(x), data@.subrange(sp_header_len(data@), data@.len() as int), Ok(x.data))), Err(_) => true },
  spec@P20:
    ensures
        match r { Ok(x) => sp_fed(x, data@, sp_lsb(fixed_data_header)) && sp_record(x, data@), Err(_) => true },
        data@.len() > 0 && (data@[0] == 0x0F || data@[0] == 0x1F || data@[0] == 0x7F) ==> r is Ok,
  spec@P22:
    ensures
        match r { Ok(x) => sp_read(x, data@), Err(_) => true },
        data@.len() > 0 && (data@[0] == 0x0F || data@[0] == 0x1F || data@[0] == 0x7F) ==> r is Ok,
  spec@P06,P08,P21:
    ensures
        match r { Ok(x) => sp_record(x, data@), Err(_) => true },
        data@.len() > 0 && (data@[0] == 0x0F || data@[0] == 0x1F || data@[0] == 0x7F) ==> r is Ok,

fn m_bus_application_layer::data_record::DataRecord::TryFrom<(&[u8],&LongTplHeader)>::try_from
  spec@P09:
    ensures match r { Ok(x) => x.raw_bytes@.len() <= __a0.0@.len() && sp_headers(x, __a0.0@) && (sp_fixed(sp_coding_in(x), __a0.0@.subrange(sp_header_len(__a0.0@), __a0.0@.len() as int), sp_lsb(Some(__a0.1)), Ok(x.data))), Err(_) => true },
  spec@P10:
    ensures match r { Ok(x) => x.raw_bytes@.len() <= __a0.0@.len() && sp_headers(x, __a0.0@) && (sp_coding_in(x) is VariableLength ==> sp_var(__a0.0@.subrange(sp_header_len(__a0.0@), __a0.0@.len() as int), sp_lsb(Some(__a0.1)), Ok(x.data))), Err(_) => true },
  spec@P11:
    ensures match r { Ok(x) => x.raw_bytes@.len() <= __a0.0@.len() && sp_headers(x, __a0.0@) && (sp_date(sp_coding_in(x), __a0.0@.subrange(sp_header_len(__a0.0@), __a0.0@.len() as int), Ok(x.data))), Err(_) => true },
  spec@P20:
    ensures
        match r { Ok(x) => sp_fed(x, __a0.0@, sp_lsb(Some(__a0.1))) && sp_record(x, __a0.0@), Err(_) => true },
        __a0.0@.len() > 0 && (__a0.0@[0] == 0x0F || __a0.0@[0] == 0x1F || __a0.0@[0] == 0x7F) ==> r is Ok,
  spec@P22:
    ensures
        match r { Ok(x) => sp_read(x, __a0.0@), Err(_) => true },
        __a0.0@.len() > 0 && (__a0.0@[0] == 0x0F || __a0.0@[0] == 0x1F || __a0.0@[0] == 0x7F) ==> r is Ok,
  spec@P06,P08,P21:
    ensures
        match r { Ok(x) => sp_record(x, __a0.0@), Err(_) => true },
        __a0.0@.len() > 0 && (__a0.0@[0] == 0x0F || __a0.0@[0] == 0x1F || __a0.0@[0] == 0x7F) ==> r is Ok,

fn m_bus_application_layer::data_record::DataRecord::TryFrom<&[u8]>::try_from
  spec@P09:
    ensures match r { Ok(x) => x.raw_bytes@.len() <= data@.len() && sp_headers(x, data@) && (sp_fixed(sp_coding_in(x), data@.subrange(sp_header_len(data@), data@.len() as int), sp_lsb(None), Ok(x.data))), Err(_) => true },
  spec@P10:
    ensures match r { Ok(x) => x.raw_bytes@.len() <= data@.len() && sp_headers(x, data@) && (sp_coding_in(x) is VariableLength ==> sp_var(data@.subrange(sp_header_len(data@), data@.len() as int), sp_lsb(None), Ok(x.data))), Err(_) => true },
  spec@P11:
    ensures match r { Ok(x) => x.raw_bytes@.len() <= data@.len() && sp_headers(x, data@) && (sp_date(sp_coding_in(x), data@.subrange(sp_header_len(data@), data@.len() as int), Ok(x.data))), Err(_) => true },
  spec@P20:
    ensures
        match r { Ok(x) => sp_fed(x, data@, sp_lsb(None)) && sp_record(x, data@), Err(_) => true },
        data@.len() > 0 && (data@[0] == 0x0F || data@[0] == 0x1F || data@[0] == 0x7F) ==> r is Ok,
  spec@P22:
    ensures
        match r { Ok(x) => sp_read(x, data@), Err(_) => true },
        data@.len() > 0 && (data@[0] == 0x0F || data@[0] == 0x1F || data@[0] == 0x7F) ==> r is Ok,
  spec@P06,P08,P21,P25:
    ensures
        match r { Ok(x) => sp_record(x, data@), Err(_) => true },
        data@.len() > 0 && (data@[0] == 0x0F || data@[0] == 0x1F || data@[0] == 0x7F) ==> r is Ok,

fn m_bus_application_layer::DataRecords::new
  spec:
    ensures r.offset == 0, r.data@ == data@, r.long_tpl_header == long_tpl_header,

fn m_bus_application_layer::DataRecords::Iterator::next
  inherent: yes
  spec@P22:
    ensures
        final(self).data@ == old(self).data@,
        final(self).long_tpl_header == old(self).long_tpl_header,
        old(self).offset <= old(self).data@.len() ==> final(self).offset <= old(self).data@.len(),
        sp_next(old(self).data@, old(self).offset as int, r, final(self).offset as int),
        match r { Some(Ok(x)) => sp_read(x, old(self).data@.subrange(sp_skip(old(self).data@, old(self).offset as int), old(self).data@.len() as int)), _ => true },
  spec@P06,P08,P21,P27:
    ensures
        final(self).data@ == old(self).data@,
        final(self).long_tpl_header == old(self).long_tpl_header,
        old(self).offset <= old(self).data@.len() ==> final(self).offset <= old(self).data@.len(),
        sp_next(old(self).data@, old(self).offset as int, r, final(self).offset as int),
  spec@P20:
    ensures
        final(self).data@ == old(self).data@,
        final(self).long_tpl_header == old(self).long_tpl_header,
        old(self).offset <= old(self).data@.len() ==> final(self).offset <= old(self).data@.len(),
        sp_next(old(self).data@, old(self).offset as int, r, final(self).offset as int),
        match r { Some(Ok(x)) => sp_fed(x, old(self).data@.subrange(sp_skip(old(self).data@, old(self).offset as int), old(self).data@.len() as int), sp_lsb(old(self).long_tpl_header)), _ => true },
  spec@P09:
    ensures
        final(self).data@ == old(self).data@,
        final(self).long_tpl_header == old(self).long_tpl_header,
        match r { Some(Ok(x)) => { let t = old(self).data@.subrange(sp_skip(old(self).data@, old(self).offset as int), old(self).data@.len() as int); let v = t.subrange(sp_header_len(t), t.len() as int); sp_headers(x, t) && (sp_fixed(sp_coding_in(x), v, sp_lsb(old(self).long_tpl_header), Ok(x.data))) }, _ => true },
  spec@P10:
    ensures
        final(self).data@ == old(self).data@,
        final(self).long_tpl_header == old(self).long_tpl_header,
        match r { Some(Ok(x)) => { let t = old(self).data@.subrange(sp_skip(old(self).data@, old(self).offset as int), old(self).data@.len() as int); let v = t.subrange(sp_header_len(t), t.len() as int); sp_headers(x, t) && (sp_coding_in(x) is VariableLength ==> sp_var(v, sp_lsb(old(self).long_tpl_header), Ok(x.data))) }, _ => true },
  spec@P11:
    ensures
        final(self).data@ == old(self).data@,
        final(self).long_tpl_header == old(self).long_tpl_header,
        match r { Some(Ok(x)) => { let t = old(self).data@.subrange(sp_skip(old(self).data@, old(self).offset as int), old(self).data@.len() as int); let v = t.subrange(sp_header_len(t), t.len() as int); sp_headers(x, t) && (sp_date(sp_coding_in(x), v, Ok(x.data))) }, _ => true },
  loop 0@P06,P08,P09,P10,P11,P20,P21,P22:
        invariant
            self.data@ == old(self).data@, self.long_tpl_header == old(self).long_tpl_header,
            old(self).offset <= old(self).data@.len() ==> self.offset <= self.data@.len(),
            sp_skip(self.data@, self.offset as int) == sp_skip(old(self).data@, old(self).offset as int),
        decreases self.data@.len() - self.offset,

fn m_bus_application_layer::data_information::DataInformation::get_size
  spec:
    ensures r == self.size,
