fn m_bus_core::decryption::KeyProvider::get_key @P15,P24,P27
  spec:
    requires sp_man_valid(context.manufacturer),
    ensures (match r { Ok(k) => Ok::<Seq<u8>, DecryptionError>(k@), Err(e) => Err(e) }) == sp_provider_key(self, *context),

fn m_bus_core::decryption::StaticKeyProvider::KeyProvider::get_key @P16
  inherent: yes
  loops: 1
  spec:
    requires
        self.count <= N,
        sp_man_valid(context.manufacturer),
    ensures
        match r {
            Ok(k) => sp_first_key(sp_keys(*self), sp_key_id(sp_man_id(context.manufacturer), context.identification_number as int)) == Some(k@),
            Err(e) => e == DecryptionError::KeyNotFound
                && sp_first_key(sp_keys(*self), sp_key_id(sp_man_id(context.manufacturer), context.identification_number as int)) is None,
        },
  loop 0 before:
        let ghost __want: int = sp_key_id(sp_man_id(context.manufacturer), context.identification_number as int);
        proof { assert($s@ =~= sp_keys(*self)); lemma_first_key_skip($s@, __want, 0); }
  loop 0:
    invariant_except_break
        sp_found($m0) is None,
        forall|j: int| 0 <= j < $i ==> (#[trigger] $s@[j]).0 as int != __want,
        sp_first_key($s@, __want) == sp_first_key($s@.subrange($i as int, $s@.len() as int), __want),
    invariant
        $i <= $e, $e == $s@.len(), $s@ == sp_keys(*self), key_id as int == __want,
    ensures
        sp_first_key($s@, __want) == sp_found($m0),
    decreases $e - $i,
  loop 0 start:
        proof { lemma_first_key_skip($s@, __want, $i - 1); }
  loop 0 end:
        proof { lemma_first_key_skip($s@, __want, $i as int); }
  loop 0 after:
        proof { }

fn m_bus_core::decryption::StaticKeyProvider::add_key @!P05
  spec:
    requires old(self).count <= N,
    ensures
        r is Ok <==> old(self).count < N,
        final(self).count <= N,
        r is Ok ==> sp_keys(*final(self)) =~= sp_keys(*old(self)).push((sp_key_id(manufacturer_id as int, identification_number as int) as u64, key)),
        r is Err ==> sp_keys(*final(self)) == sp_keys(*old(self)),

fn m_bus_core::decryption::StaticKeyProvider::compute_key_id @!P05
  spec:
    ensures r == sp_key_id(manufacturer_id as int, identification_number as int),
  start:
        proof {
            assert(((manufacturer_id as u64) << 32) | (identification_number as u64) == (manufacturer_id as u64) * 0x1_0000_0000u64 + (identification_number as u64)) by (bit_vector);
        }

fn m_bus_core::decryption::StaticKeyProvider::new @!P05
  spec:
    ensures r.count == 0, sp_keys(r) =~= Seq::<(u64, [u8; 16])>::empty(),

fn m_bus_core::decryption::StaticKeyProvider::Default::default @!P05
  spec:
    ensures r.count == 0,

fn m_bus_core::decryption::decimal_to_bcd
  loops: 1
  spec@P15,P17:
    ensures forall|i: int| 0 <= i < 4 ==> #[trigger] r@[i] == sp_bcd_byte(value as int, i),
  spec@P05:
    ensures true,
  loop 0 before@P15,P17:
        let ghost __v0: int = value as int;
        proof { reveal_with_fuel(sp_pow10, 10); }
  loop 0@P15,P17:
    invariant
        $i <= 4, $e == 4, __v0 >= 0,
        value as int == __v0 / sp_pow10((2 * $i) as nat),
        forall|k: int| 0 <= k < $i ==> #[trigger] bcd@[k] == sp_bcd_byte(__v0, k),
    decreases 4 - $i,
  loop 0 start@P15,P17:
        let ghost __w: int = value as int;
        proof {
            reveal_with_fuel(sp_pow10, 10);
            assert(forall|h: u8, l: u8| h <= 9 && l <= 9 ==> #[trigger] ((h << 4) | l) == h * 16 + l) by (bit_vector);
            lemma_div2(__v0, sp_pow10((2 * $i) as nat));
            lemma_digits(__w);
        }
  loop 0@P05:
    invariant $i <= 4, $e == 4,
    decreases 4 - $i,

fn m_bus_core::decryption::EncryptedPayload::_derive_iv
  spec@P15:
    requires sp_man_valid(self.context.manufacturer),
    ensures r@ =~= sp_iv(self.context),
  spec@P05:
    requires sp_man_valid(self.context.manufacturer),

fn m_bus_core::decryption::EncryptedPayload::new @!P05
  spec:
    ensures r.data == data, r.context == context,

fn m_bus_core::decryption::EncryptedPayload::decrypt_into
  spec@P15:
    requires sp_man_valid(self.context.manufacturer),
    ensures
        final(output)@.len() == old(output)@.len(),
        sp_decrypted(sp_provider_key(provider, self.context), self.context, self.data@, old(output)@, final(output)@, r),
  start@P15:
        proof { assert(forall|a: [u8; 16]| (forall|i: int| 0 <= i < 16 ==> a@[i] == 0) ==> #[trigger] a@ =~= sp_repeat(0, 16)); }
  spec@P05:
    requires sp_man_valid(self.context.manufacturer),

fn m_bus_core::decryption::decrypt_aes_cbc_into
  spec@P15:
    requires iv@.len() == 16,
    ensures
        final(output)@.len() == old(output)@.len(),
        sp_cbc_result(data@, key@, iv@, old(output)@, final(output)@, r),
  start@P15:
        proof {
            let n = data@.len() as int;
            assert(forall|o: Seq<u8>, k: int| o.len() >= n && 0 <= k <= n && (forall|i: int| 0 <= i < n ==> o[i] == data@[i])
                ==> #[trigger] o.subrange(0, k) =~= data@.subrange(0, k));
        }
  spec@P05:
    ensures true,
