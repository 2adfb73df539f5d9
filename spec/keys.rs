//@need m_bus_core::decryption::StaticKeyProvider
use crate::m_bus_core::*;
use crate::m_bus_core::decryption::*;

// ---- key store ------------------------------------------------------------------
pub open spec fn sp_key_id(m: int, n: int) -> int { m * 0x1_0000_0000 + n }

/// distinct meters have distinct identifiers
pub proof fn lemma_key_id_injective(m1: u16, n1: u32, m2: u16, n2: u32)
    requires sp_key_id(m1 as int, n1 as int) == sp_key_id(m2 as int, n2 as int),
    ensures m1 == m2, n1 == n2,
{
    let d = m1 as int - m2 as int;
    assert(d * 0x1_0000_0000 == n2 as int - n1 as int);
}

/// the registered (meter, key) pairs in order
pub open spec fn sp_keys<const N: usize>(p: StaticKeyProvider<N>) -> Seq<(u64, [u8; 16])> {
    p.entries@.subrange(0, p.count as int)
}
pub open spec fn sp_first_key(keys: Seq<(u64, [u8; 16])>, id: int) -> Option<Seq<u8>>
    decreases keys.len(),
{
    if keys.len() == 0 { None }
    else if keys[0].0 as int == id { Some(keys[0].1@) }
    else { sp_first_key(keys.subrange(1, keys.len() as int), id) }
}
pub open spec fn sp_found(r: Option<&(u64, [u8; 16])>) -> Option<Seq<u8>> {
    match r { Some(p) => Some(p.1@), None => None }
}
pub proof fn lemma_first_key_skip(keys: Seq<(u64, [u8; 16])>, id: int, i: int)
    requires 0 <= i <= keys.len(), forall|j: int| 0 <= j < i ==> (#[trigger] keys[j]).0 as int != id,
    ensures sp_first_key(keys, id) == sp_first_key(keys.subrange(i, keys.len() as int), id),
    decreases i,
{
    if i > 0 {
        lemma_first_key_skip(keys, id, i - 1);
        let r = keys.subrange(i - 1, keys.len() as int);
        assert(r[0] == keys[i - 1]);
        assert(r.subrange(1, r.len() as int) =~= keys.subrange(i, keys.len() as int));
    } else {
        assert(keys.subrange(0, keys.len() as int) =~= keys);
    }
}
/// registering another key never changes what is found for a meter that has one
pub proof fn lemma_first_key_push(keys: Seq<(u64, [u8; 16])>, e: (u64, [u8; 16]), id: int)
    ensures sp_first_key(keys.push(e), id) == (match sp_first_key(keys, id) {
        Some(k) => Some(k),
        None => if e.0 as int == id { Some(e.1@) } else { None },
    }),
    decreases keys.len(),
{
    reveal_with_fuel(sp_first_key, 2);
    if keys.len() > 0 {
        let t = keys.subrange(1, keys.len() as int);
        assert(keys.push(e).subrange(1, keys.len() as int + 1) =~= t.push(e));
        if keys[0].0 as int != id { lemma_first_key_push(t, e, id); }
    } else {
        assert(keys.push(e).subrange(1, 1) =~= Seq::<(u64, [u8; 16])>::empty());
    }
}
