//@need wireless_mbus_link_layer::WirelessFrame
//@need wireless_mbus_link_layer::ManufacturerId
use crate::m_bus_core::*;
use crate::wireless_mbus_link_layer::*;

// ---- CRC-16/EN-13757: polynomial 3D65, start 0, complemented -----------------------
pub open spec fn sp_crc_bit(c: u16) -> u16 {
    if c & 0x8000 != 0 { (c << 1) ^ 0x3D65 } else { c << 1 }
}
pub open spec fn sp_crc_bits(c: u16, n: nat) -> u16
    decreases n,
{
    if n == 0 { c } else { sp_crc_bit(sp_crc_bits(c, (n - 1) as nat)) }
}
#[verifier::opaque]
pub open spec fn sp_crc_reg(d: Seq<u8>) -> u16
    decreases d.len(),
{
    if d.len() == 0 { 0u16 } else { sp_crc_bits(sp_crc_reg(d.drop_last()) ^ ((d.last() as u16) << 8), 8) }
}
pub open spec fn sp_crc(d: Seq<u8>) -> u16 { sp_crc_reg(d) ^ 0xFFFF }

/// the two bytes at position p are the checksum of d[a..p], most significant first
pub open spec fn sp_crc_at(d: Seq<u8>, a: int, p: int) -> bool {
    sp_crc(d.subrange(a, p)) as int == d[p + 1] as int + 256 * d[p] as int
}

// ---- P03 ----------------------------------------------------------------------------
pub open spec fn sp_wireless_ok(d: Seq<u8>) -> bool {
    d.len() >= 11 && d.len() == d[0] as int + 1
    && sp_man_ok(sp_le(d[2], d[3]))
    && sp_bcd4_ok(d.subrange(4, 8))
}
/// EN 13757-4 keeps the device type in the upper nibble for the CI bytes A0..AF
pub open spec fn sp_wireless_device(b: u8, ci: u8) -> DeviceType {
    if 0xA0 <= ci <= 0xAF { sp_device((b / 16) as u8) } else { sp_device(b) }
}
pub open spec fn sp_meter(m: ManufacturerId, h: Seq<u8>) -> bool {
    sp_is_man(m.manufacturer_code, sp_le(h[0], h[1]))
    && m.identification_number.number == sp_bcd4(h.subrange(2, 6))
    && m.version == h[6]
    && m.device_type == sp_wireless_device(h[7], h[8])
}
pub open spec fn sp_trailing(d: Seq<u8>) -> bool { d.len() >= 12 && sp_crc_at(d, 0, d.len() - 2) }
pub open spec fn sp_wireless(d: Seq<u8>, f: WirelessFrame<'_>) -> bool {
    f.control_field == d[1]
    && f.function == sp_function(d[1])
    && sp_meter(f.manufacturer_id, d.subrange(2, d.len() as int))
    && f.data@ == d.subrange(10, if sp_trailing(d) { d.len() - 2 } else { d.len() as int })
}

// ---- P04 ----------------------------------------------------------------------------
/// the checksum of s, as it is sent
pub open spec fn sp_crc_sent(s: Seq<u8>) -> Seq<u8> { seq![(sp_crc(s) / 256) as u8, (sp_crc(s) % 256) as u8] }
pub open spec fn sp_least(a: int, b: int) -> int { if a <= b { a } else { b } }

/// Format A encoding of the data behind the first block
pub open spec fn sp_blocks(s: Seq<u8>) -> Seq<u8>
    decreases s.len(),
{
    if s.len() == 0 { s }
    else {
        let n = sp_least(16, s.len() as int);
        s.subrange(0, n) + sp_crc_sent(s.subrange(0, n)) + sp_blocks(s.subrange(n, s.len() as int))
    }
}
pub open spec fn sp_format_a(f: Seq<u8>) -> Seq<u8> {
    f.subrange(0, 10) + sp_crc_sent(f.subrange(0, 10)) + sp_blocks(f.subrange(10, f.len() as int))
}

/// inverse of sp_blocks
pub open spec fn sp_unblocks(d: Seq<u8>) -> Option<Seq<u8>>
    decreases d.len(),
{
    if d.len() == 0 { Some(d) }
    else if d.len() < 3 { None }
    else {
        let n = sp_least(16, d.len() - 2);
        if sp_crc_at(d, 0, n) {
            match sp_unblocks(d.subrange(n + 2, d.len() as int)) { Some(t) => Some(d.subrange(0, n) + t), None => None }
        } else { None }
    }
}
pub proof fn lemma_crc_sent(s: Seq<u8>)
    ensures sp_crc_sent(s)[1] as int + 256 * sp_crc_sent(s)[0] as int == sp_crc(s) as int, sp_crc_sent(s).len() == 2,
{}
pub proof fn lemma_unblocks(s: Seq<u8>)
    ensures sp_unblocks(sp_blocks(s)) == Some(s), sp_blocks(s).len() >= s.len(),
    decreases s.len(),
{
    if s.len() > 0 {
        let n = sp_least(16, s.len() as int);
        let a = s.subrange(0, n);
        let t = s.subrange(n, s.len() as int);
        lemma_unblocks(t);
        lemma_crc_sent(a);
        let d = sp_blocks(s);
        assert(d =~= a + sp_crc_sent(a) + sp_blocks(t));
        assert(d.len() == n + 2 + sp_blocks(t).len());
        if n < 16 { assert(t.len() == 0); assert(sp_blocks(t).len() == 0); }
        assert(sp_least(16, d.len() - 2) == n);
        assert(d.subrange(0, n) =~= a);
        assert(d.subrange(n + 2, d.len() as int) =~= sp_blocks(t));
        assert(a + t =~= s);
    } else {
        assert(sp_blocks(s) =~= s);
    }
}

pub open spec fn sp_from(d: Seq<u8>, p: int) -> Seq<u8> { d.subrange(p, d.len() as int) }
/// one block of the walk over d at position p
pub proof fn lemma_block_step(d: Seq<u8>, p: int)
    requires 0 <= p < d.len(),
    ensures
        d.len() - p < 3 ==> sp_unblocks(sp_from(d, p)) is None,
        d.len() - p >= 3 ==> {
            let n = sp_least(16, d.len() - p - 2);
            sp_unblocks(sp_from(d, p)) == (if sp_crc_at(d, p, p + n) {
                match sp_unblocks(sp_from(d, p + n + 2)) { Some(t) => Some(d.subrange(p, p + n) + t), None => None }
            } else { None })
        },
{
    let r = sp_from(d, p);
    if r.len() >= 3 {
        let n = sp_least(16, r.len() - 2);
        assert(r.subrange(0, n) =~= d.subrange(p, p + n));
        assert(r.subrange(n + 2, r.len() as int) =~= sp_from(d, p + n + 2));
    }
}

/// d is a Format A frame
pub open spec fn sp_is_format_a(d: Seq<u8>) -> bool {
    d.len() >= 12 && sp_crc_at(d, 0, 10) && sp_unblocks(sp_from(d, 12)) is Some
}
pub open spec fn sp_unformat(d: Seq<u8>) -> Seq<u8> {
    d.subrange(0, 10) + sp_unblocks(sp_from(d, 12))->0
}
pub proof fn lemma_format_a(f: Seq<u8>)
    requires f.len() >= 10,
    ensures sp_is_format_a(sp_format_a(f)), sp_unformat(sp_format_a(f)) == f,
{
    let h = f.subrange(0, 10);
    let t = f.subrange(10, f.len() as int);
    lemma_unblocks(t);
    lemma_crc_sent(h);
    let d = sp_format_a(f);
    assert(d.subrange(0, 10) =~= h);
    assert(d.subrange(12, d.len() as int) =~= sp_blocks(t));
    assert(h + t =~= f);
}
pub open spec fn sp_relength(s: Seq<u8>) -> Seq<u8> { s.update(0, (s.len() - 1) as u8) }

/// what stripping d into a buffer of the given room must answer
pub open spec fn sp_strip(d: Seq<u8>, room: int, r: Option<Seq<u8>>) -> bool {
    &&& (d.len() < 12 || room < d.len() || !sp_crc_at(d, 0, 10) ==> r is None)
    &&& (match r { Some(s) => 10 <= s.len() <= 256 && s[0] == s.len() - 1, None => true })
    &&& (forall|f: Seq<u8>| 10 <= f.len() <= 256 && d == #[trigger] sp_format_a(f) && room >= d.len() ==> r is Some && r->0 =~= sp_relength(f))
}
