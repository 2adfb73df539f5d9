fn m_bus_application_layer::value_information::ValueInformationField::From<u8>::from
  fromspec: ValueInformationField { data: v }
  spec:
    ensures r.data == data,

fn m_bus_application_layer::value_information::ValueInformationField::value_information_contains_ascii
  spec:
    ensures r == (self.data == 0x7C || self.data == 0xFC),

fn m_bus_application_layer::value_information::ValueInformationField::has_extension
  spec:
    ensures r == (self.data >= 128),
  start:
        proof { let b = self.data; assert((b & 0x80 != 0) == (b >= 128)) by (bit_vector); }

fn m_bus_application_layer::value_information::ValueInformationFieldExtension::has_extension
  spec:
    ensures r == (self.data >= 128),
  start:
        proof { let b = self.data; assert((b & 0x80 != 0) == (b >= 128)) by (bit_vector); }

fn m_bus_application_layer::value_information::extract_plaintext_vife
  spec:
    ensures
        r is Ok <==> data@.len() > 0 && data@[0] <= 9 && data@.len() > data@[0],
        match r { Ok(t) => sp_text(t@, data@), Err(_) => true },
  loop 0:
        invariant
            $i <= $e, $e == $s@.len(), data@.len() > 0, $s@ =~= data@.subrange(1, 1 + data@[0]), data@.len() > data@[0],
            ascii@.len() == $i, $i <= 9, forall|j: int| 0 <= j < $i ==> (#[trigger] ascii@[j]) as u32 == data@[1 + j],
        decreases $e - $i,

fn m_bus_application_layer::value_information::ValueInformationBlock::get_size
  spec:
    ensures r == sp_vib_size(*self), r <= 21,

fn m_bus_application_layer::value_information::ValueInformationBlock::TryFrom<&[u8]>::try_from
  spec:
    ensures
        r is Ok <==> sp_vib_ok(data@),
        match r { Ok(b) => sp_vib(b, data@) && sp_vib_size(b) == sp_vib_len(data@), Err(_) => true },
  loop 0:
        invariant_except_break
            forall|j: int| 1 <= j < offset ==> (#[trigger] data@[j]) >= 128,
            offset == data@.len() ==> offset - 1 == sp_vife_n(data@),
        invariant
            data@.len() > 0, data@[0] >= 128, data@[0] == vif.data, 1 <= offset <= data@.len(), vife@.len() == offset - 1, offset <= 11, plaintext_vife is None,
            forall|j: int| 0 <= j < vife@.len() ==> (#[trigger] vife@[j]).data == data@[1 + j],
        ensures
            offset - 1 == sp_vife_n(data@),
        decreases data@.len() - offset,
  loop 0 start:
            proof {
                let s = data@.subrange(1, data@.len() as int);
                assert(forall|j: int| 0 <= j < offset - 1 ==> s[j] == data@[j + 1]);
                lemma_run_ge(s, offset - 1);
                if offset == 11 { lemma_run_bound(s); assert(sp_vife_n(data@) > 10); }
                if data@[offset as int] < 128 { assert(s[offset - 1] == data@[offset as int]); lemma_run(s, offset - 1); }
            }
  loop 0 end:
            proof {
                if offset == data@.len() {
                    let s = data@.subrange(1, data@.len() as int);
                    assert(forall|j: int| 0 <= j < offset - 1 ==> s[j] == data@[j + 1]);
                    lemma_run(s, offset - 1);
                }
            }
