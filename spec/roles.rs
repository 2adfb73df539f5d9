//@need m_bus_parser::annotate::ByteSegment
//@need m_bus_parser::annotate::SegmentKind
//@need m_bus_parser::annotate::Layer
use crate::m_bus_parser::annotate::{ByteSegment, Layer, SegmentKind};
use crate::m_bus_application_layer::data_record::DataRecord;

// ---- headers: fields at fixed places -------------------------------------------------
pub type Field = (int, int, SegmentKind);
/// s is s0 followed by one segment for each field
pub open spec fn sp_fields(s: Seq<ByteSegment>, s0: Seq<ByteSegment>, base: int, l: Layer, f: Seq<Field>) -> bool {
    &&& s.len() == s0.len() + f.len() && s.subrange(0, s0.len() as int) =~= s0
    &&& forall|i: int| 0 <= i < f.len() ==> {
        let x = #[trigger] s[s0.len() + i];
        x.start == base + f[i].0 && x.end == base + f[i].1 && x.kind == f[i].2 && x.group is None && x.layer == l
    }
}
pub open spec fn sp_long_fields() -> Seq<Field> {
    seq![(0, 1, SegmentKind::CiField), (1, 5, SegmentKind::IdentificationNumber), (5, 7, SegmentKind::ManufacturerCode),
        (7, 8, SegmentKind::Version), (8, 9, SegmentKind::DeviceType), (9, 10, SegmentKind::AccessNumber),
        (10, 11, SegmentKind::Status), (11, 13, SegmentKind::ConfigurationField)]
}
pub open spec fn sp_short_fields(a0: bool) -> Seq<Field> {
    if a0 {
        seq![(0, 1, SegmentKind::CiField), (1, 2, SegmentKind::EncryptionConfigByte), (2, 3, SegmentKind::AccessNumber),
            (3, 4, SegmentKind::Status), (4, 6, SegmentKind::ConfigurationField)]
    } else {
        seq![(0, 1, SegmentKind::CiField), (1, 2, SegmentKind::AccessNumber), (2, 3, SegmentKind::Status), (3, 5, SegmentKind::ConfigurationField)]
    }
}
/// length of the header a control information byte announces; 0: none known
pub open spec fn sp_head_len(ci: u8) -> int {
    if ci == 0x72 || ci == 0x76 { 13 }
    else if ci == 0xA0 { 6 }
    else if ci == 0x7A || 0xA0 < ci <= 0xAF { 5 }
    else if ci == 0x78 { 1 }
    else if ci == 0x8C { 3 }
    else if ci == 0x8D { 9 }
    else if ci == 0x8E { 17 }
    else { 0 }
}
pub open spec fn sp_head_fields(ci: u8) -> Seq<Field> {
    if ci == 0x72 || ci == 0x76 { sp_long_fields() }
    else if ci == 0x7A || 0xA0 <= ci <= 0xAF { sp_short_fields(ci == 0xA0) }
    else if ci == 0x78 { seq![(0, 1, SegmentKind::CiField)] }
    else { seq![(0, 1, SegmentKind::CiField), (1, sp_head_len(ci), SegmentKind::ExtendedLinkLayer)] }
}
/// the five bits of the security mode, in the last byte of the header
pub open spec fn sp_secured(d: Seq<u8>) -> bool {
    let ci = d[0];
    (ci == 0x72 || ci == 0x76 || ci == 0x7A || 0xA0 <= ci <= 0xAF) && d[sp_head_len(ci) - 1] % 32 != 0
}
/// the segments of an application layer block that starts at base
pub open spec fn sp_app(s: Seq<ByteSegment>, s0: Seq<ByteSegment>, base: int, d: Seq<u8>) -> bool
    decreases d.len(),
{
    if d.len() == 0 { s =~= s0 } else {
        let ci = d[0];
        let h = sp_head_len(ci);
        if h == 0 || d.len() < h {
            sp_fields(s, s0, base, Layer::AppHeader, seq![(0, d.len() as int, SegmentKind::Unknown)])
        } else {
            let f = sp_head_fields(ci);
            let s1 = s.subrange(0, (s0.len() + f.len()) as int);
            let rest = d.subrange(h, d.len() as int);
            &&& s.len() >= s0.len() + f.len() && sp_fields(s1, s0, base, Layer::AppHeader, f)
            &&& if rest.len() == 0 { s =~= s1 }
                else if sp_secured(d) { sp_fields(s, s1, base + h, Layer::RecordField, seq![(0, rest.len() as int, SegmentKind::EncryptedPayload)]) }
                else if ci == 0x8C { sp_app(s, s1, base + h, rest) }
                else if ci == 0x8D || ci == 0x8E { s.len() <= s1.len() + rest.len() }
                else { sp_walked(s, s1, base + h, rest) }
        }
    }
}

// ---- records -------------------------------------------------------------------------
/// kind and end of the part that starts at offset p of a record's header
pub open spec fn sp_part(r: Seq<u8>, p: int) -> (SegmentKind, int) {
    let a = sp_dif_len(r);
    let v = r.subrange(a, r.len() as int);
    if p == 0 { (SegmentKind::Dif, 1) }
    else if p < a { (SegmentKind::Dife, a) }
    else if p == a { (SegmentKind::Vif, a + 1) }
    else if p < a + sp_text_at(v) { (SegmentKind::Vife, a + sp_text_at(v)) }
    else if p < sp_header_len(r) { (SegmentKind::PlaintextVif, sp_header_len(r)) }
    else { (SegmentKind::DataPayload, sp_whole(r)) }
}
/// length of a record, given by its header and its DIF
pub open spec fn sp_whole(r: Seq<u8>) -> int {
    sp_header_len(r) + sp_value_size(sp_coding(r[0]), r.subrange(sp_header_len(r), r.len() as int))
}
pub broadcast proof fn lemma_shown_record(x: DataRecord<'_>, r: Seq<u8>)
    requires #[trigger] sp_record(x, r), !sp_is_special(r[0]),
    ensures
        ({
            let h = x.data_record_header.raw_data_record_header;
            let a = sp_dif_len(r);
            let v = r.subrange(a, r.len() as int);
            let b = h.value_information_block->Some_0;
            &&& h.value_information_block is Some && sp_header_size(h) == sp_header_len(r)
            &&& 1 <= a <= 12 && sp_exts(h.data_information_block.data_information_field_extension).len() == a - 1
            &&& sp_vifes(b).len() == sp_vife_n(v) && 0 <= sp_vife_n(v) <= 10 && sp_text_at(v) == 1 + sp_vife_n(v)
            &&& sp_header_len(r) == a + sp_text_at(v) + match b.plaintext_vife { Some(t) => t@.len() + 1, None => 0 }
            &&& sp_header_len(r) <= x.raw_bytes@.len() == sp_whole(r) <= r.len()
        }),
{
    let h = x.data_record_header.raw_data_record_header;
    let v = r.subrange(sp_dif_len(r), r.len() as int);
    lemma_header_size(h, r);
    lemma_run_bound(r.subrange(1, r.len() as int));
    lemma_run_bound(v.subrange(1, v.len() as int));
    reveal(sp_no_clock);
    if v[0] == 0xFC { assert(v.subrange(sp_text_at(v), v.len() as int)[0] == v[sp_text_at(v)]); }
}
/// position, start of the record the position is in (-1: in none), number of whole records before
pub struct Place { pub pos: int, pub rec: int, pub idx: int }

/// x is right as the next segment
pub open spec fn sp_next_is(d: Seq<u8>, base: int, a: Place, x: ByteSegment) -> bool {
    let o = a.pos;
    &&& 0 <= o < d.len() && x.start == base + o && x.start < x.end && x.layer == Layer::RecordField
    &&& if a.rec >= 0 {
        let r = d.subrange(a.rec, d.len() as int);
        let t = sp_part(r, o - a.rec);
        x.kind == t.0 && x.end == base + a.rec + t.1 && x.group is Some && x.group->Some_0 == a.idx
    } else if d[o] == 0x2F {
        x.kind == SegmentKind::IdleFiller && x.end == x.start + 1 && x.group is None
    } else if d[o] == 0x0F || d[o] == 0x1F {
        x.kind == SegmentKind::ManufacturerSpecific && x.end == base + d.len() && x.group is Some && x.group->Some_0 == a.idx
    } else if sp_is_special(d[o]) {
        x.kind == SegmentKind::Unknown && x.end == x.start + 1 && x.group is None
    } else {
        ||| x.kind == SegmentKind::Dif && x.end == x.start + 1 && x.group is Some && x.group->Some_0 == a.idx
        ||| x.kind == SegmentKind::Unknown && x.end == base + d.len() && x.group is None
    }
}
pub open spec fn sp_then(d: Seq<u8>, base: int, a: Place, x: ByteSegment) -> Place {
    let e = x.end - base;
    if a.rec >= 0 {
        if e == a.rec + sp_whole(d.subrange(a.rec, d.len() as int)) { Place { pos: e, rec: -1, idx: a.idx + 1 } } else { Place { pos: e, ..a } }
    } else if x.kind == SegmentKind::Dif { Place { pos: e, rec: a.pos, idx: a.idx } }
    else { Place { pos: e, ..a } }
}
/// where the segments after s0 lead, if each is right
#[verifier::opaque]
pub open spec fn sp_walk(s: Seq<ByteSegment>, s0: Seq<ByteSegment>, base: int, d: Seq<u8>) -> Option<Place>
    decreases s.len(),
{
    if s.len() <= s0.len() { if s =~= s0 { Some(Place { pos: 0, rec: -1, idx: 0 }) } else { None } }
    else {
        match sp_walk(s.drop_last(), s0, base, d) {
            Some(a) => if sp_next_is(d, base, a, s.last()) { Some(sp_then(d, base, a, s.last())) } else { None },
            None => None,
        }
    }
}
/// the segments after s0 show all of d
pub open spec fn sp_walked(s: Seq<ByteSegment>, s0: Seq<ByteSegment>, base: int, d: Seq<u8>) -> bool {
    match sp_walk(s, s0, base, d) { Some(a) => a.pos == d.len() && a.rec == -1, None => false }
}
pub proof fn lemma_walk_none(s: Seq<ByteSegment>, base: int, d: Seq<u8>)
    ensures sp_walk(s, s, base, d) == Some(Place { pos: 0, rec: -1, idx: 0 }),
{ reveal(sp_walk); }
pub broadcast proof fn lemma_walk_push(s: Seq<ByteSegment>, s0: Seq<ByteSegment>, base: int, d: Seq<u8>, x: ByteSegment)
    requires
        sp_walk(s, s0, base, d) is Some,
        sp_next_is(d, base, sp_walk(s, s0, base, d)->Some_0, x),
    ensures #[trigger] sp_walk(s.push(x), s0, base, d) == Some(sp_then(d, base, sp_walk(s, s0, base, d)->Some_0, x)),
{
    lemma_walk_prefix(s, s0, base, d);
    reveal(sp_walk);
    assert(s.push(x).drop_last() =~= s);
}
pub broadcast proof fn lemma_walk_prefix(s: Seq<ByteSegment>, s0: Seq<ByteSegment>, base: int, d: Seq<u8>)
    requires (#[trigger] sp_walk(s, s0, base, d)) is Some,
    ensures s.len() >= s0.len(), s.subrange(0, s0.len() as int) =~= s0, d.len() == 0 ==> s =~= s0,
        s.len() - s0.len() <= sp_walk(s, s0, base, d)->Some_0.pos,
    decreases s.len(),
{
    reveal(sp_walk);
    if s.len() > s0.len() {
        lemma_walk_prefix(s.drop_last(), s0, base, d);
        assert(s.subrange(0, s0.len() as int) =~= s.drop_last().subrange(0, s0.len() as int));
    }
}

pub broadcast proof fn lemma_app_prefix(s: Seq<ByteSegment>, s0: Seq<ByteSegment>, base: int, d: Seq<u8>)
    requires #[trigger] sp_app(s, s0, base, d),
    ensures s0.len() <= s.len() <= s0.len() + d.len(), s.subrange(0, s0.len() as int) =~= s0,
    decreases d.len(),
{
    broadcast use lemma_walk_prefix;
    if d.len() > 0 {
        let f = sp_head_fields(d[0]);
        let h = sp_head_len(d[0]);
        if h > 0 && d.len() >= h {
            let s1 = s.subrange(0, (s0.len() + f.len()) as int);
            let rest = d.subrange(h, d.len() as int);
            assert(s.subrange(0, s0.len() as int) =~= s1.subrange(0, s0.len() as int));
            assert(f.len() <= h);
            if rest.len() > 0 && !sp_secured(d) && d[0] == 0x8C { lemma_app_prefix(s, s1, base + h, rest); }
        }
    }
}

pub broadcast proof fn lemma_drop_one(s: Seq<ByteSegment>, a: ByteSegment)
    ensures #![trigger s.push(a)] s.push(a).subrange(0, s.push(a).len() - 1) == s,
{ assert(s.push(a).subrange(0, s.push(a).len() - 1) =~= s); }
pub broadcast proof fn lemma_drop_two(s: Seq<ByteSegment>, a: ByteSegment, b: ByteSegment)
    ensures #![trigger s.push(a).push(b)] s.push(a).push(b).subrange(0, s.push(a).push(b).len() - 2) == s,
{ assert(s.push(a).push(b).subrange(0, s.push(a).push(b).len() - 2) =~= s); }

// ---- frames --------------------------------------------------------------------------
pub open spec fn sp_wired_shown(s: Seq<ByteSegment>, d: Seq<u8>) -> bool {
    let n = d.len() as int;
    let none = Seq::<ByteSegment>::empty();
    if n == 1 { sp_fields(s, none, 0, Layer::Frame, seq![(0, 1, SegmentKind::StartByte)]) }
    else if n == 5 && d[0] == 0x10 {
        sp_fields(s, none, 0, Layer::Frame, seq![(0, 1, SegmentKind::StartByte), (1, 2, SegmentKind::CField), (2, 3, SegmentKind::AField),
            (3, 4, SegmentKind::Checksum), (4, 5, SegmentKind::StopByte)])
    } else { s.len() >= 7 && sp_long_shown(s, d, d[4] == 0x53) }
}
pub open spec fn sp_long_shown(s: Seq<ByteSegment>, d: Seq<u8>, control: bool) -> bool {
    let n = d.len() as int;
    let none = Seq::<ByteSegment>::empty();
    let s1 = s.subrange(0, 5);
    let s2 = s.subrange(0, s.len() - 2);
    let u = d.subrange(6, n - 2);
    &&& s.len() >= 7
    &&& sp_fields(s1, none, 0, Layer::Frame, seq![(0, 1, SegmentKind::StartByte), (1, 3, SegmentKind::Length), (3, 4, SegmentKind::StartByte),
        (4, 5, SegmentKind::CField), (5, 6, SegmentKind::AField)])
    &&& if control && u.len() > 0 { sp_fields(s2, s1, 6, Layer::AppHeader, seq![(0, u.len() as int, SegmentKind::Unknown)]) }
        else { sp_app(s2, s1, 6, u) }
    &&& sp_fields(s, s2, n - 2, Layer::Frame, seq![(0, 1, SegmentKind::Checksum), (1, 2, SegmentKind::StopByte)])
}
pub open spec fn sp_radio_shown(s: Seq<ByteSegment>, d: Seq<u8>) -> bool {
    let n = d.len() as int;
    let none = Seq::<ByteSegment>::empty();
    let s1 = s.subrange(0, 6);
    let e = if sp_trailing(d) { n - 2 } else { n };
    let s2 = if sp_trailing(d) { s.subrange(0, s.len() - 1) } else { s };
    let u = d.subrange(10, e);
    &&& s.len() >= if sp_trailing(d) { 7int } else { 6int }
    &&& sp_fields(s1, none, 0, Layer::Frame, seq![(0, 1, SegmentKind::LField), (1, 2, SegmentKind::CField), (2, 4, SegmentKind::ManufacturerCode),
        (4, 8, SegmentKind::IdentificationNumber), (8, 9, SegmentKind::Version), (9, 10, SegmentKind::DeviceType)])
    &&& sp_app(s2, s1, 10, u)
    &&& sp_trailing(d) ==> sp_fields(s, s2, n - 2, Layer::Frame, seq![(0, 2, SegmentKind::Crc)])
}

// ---- Format A ------------------------------------------------------------------------
/// where the byte at x of the frame without checksums lies, and where a range that ends before it ends
pub open spec fn sp_origin(m: Seq<usize>, x: int) -> int { if x < m.len() { m[x] as int } else { x } }
/// x lies within the place of y, with the same labels
pub open spec fn sp_within(x: ByteSegment, y: ByteSegment, m: Seq<usize>) -> bool {
    &&& sp_origin(m, y.start as int) <= x.start && x.end <= sp_at(m, y.end as int)
    &&& x.kind == y.kind && x.group == y.group && x.layer == y.layer
}
#[verifier::opaque]
pub open spec fn sp_named(x: ByteSegment, t: Seq<ByteSegment>, m: Seq<usize>, c: Seq<int>) -> bool {
    ||| exists|k: int| 0 <= k < t.len() && sp_within(x, #[trigger] t[k], m)
    ||| x.kind == SegmentKind::Crc && x.layer == Layer::Frame && x.group is None && exists|i: int| 0 <= i < c.len() && #[trigger] c[i] <= x.start && x.end <= c[i] + 2
}
/// every segment is a checksum, or (a piece of) a segment of the frame without checksums
#[verifier::opaque]
pub open spec fn sp_all_named(s: Seq<ByteSegment>, t: Seq<ByteSegment>, m: Seq<usize>, c: Seq<int>) -> bool {
    forall|k: int| 0 <= k < s.len() ==> sp_named(#[trigger] s[k], t, m, c)
}
pub proof fn lemma_named_here(x: ByteSegment, t: Seq<ByteSegment>, m: Seq<usize>, c: Seq<int>, k: int)
    requires 0 <= k < t.len(), sp_within(x, t[k], m),
    ensures sp_named(x, t, m, c),
{ reveal(sp_named); }
pub proof fn lemma_named_crc(x: ByteSegment, t: Seq<ByteSegment>, m: Seq<usize>, c: Seq<int>, i: int)
    requires 0 <= i < c.len(), x.start == c[i], x.end == c[i] + 2, x.kind == SegmentKind::Crc, x.layer == Layer::Frame, x.group is None,
    ensures sp_named(x, t, m, c),
{ reveal(sp_named); }
pub proof fn lemma_named_all(s: Seq<ByteSegment>, t: Seq<ByteSegment>, m: Seq<usize>, c: Seq<int>, k: int)
    requires sp_all_named(s, t, m, c), 0 <= k < s.len(),
    ensures sp_named(s[k], t, m, c),
{ reveal(sp_all_named); }
pub proof fn lemma_named_part(x: ByteSegment, y: ByteSegment, t: Seq<ByteSegment>, m: Seq<usize>, c: Seq<int>)
    requires sp_named(x, t, m, c), x.start <= y.start, y.end <= x.end, x.kind == y.kind, x.group == y.group, x.layer == y.layer,
    ensures sp_named(y, t, m, c),
{
    reveal(sp_named);
    if exists|k: int| 0 <= k < t.len() && sp_within(x, #[trigger] t[k], m) {
        let k = choose|k: int| 0 <= k < t.len() && sp_within(x, #[trigger] t[k], m);
        assert(sp_within(y, t[k], m));
    } else {
        let i = choose|i: int| 0 <= i < c.len() && #[trigger] c[i] <= x.start && x.end <= c[i] + 2;
        assert(c[i] <= y.start);
    }
}
/// what keeps every segment named
pub proof fn lemma_named(t: Seq<ByteSegment>, m: Seq<usize>, c: Seq<int>)
    ensures
        forall|s: Seq<ByteSegment>, x: ByteSegment| sp_all_named(s, t, m, c) && sp_named(x, t, m, c) ==> sp_all_named(#[trigger] s.push(x), t, m, c),
        forall|s: Seq<ByteSegment>, p: int, x: ByteSegment| sp_all_named(s, t, m, c) && sp_named(x, t, m, c) && 0 <= p <= s.len() ==> sp_all_named(#[trigger] s.insert(p, x), t, m, c),
        forall|s: Seq<ByteSegment>, p: int, x: ByteSegment| sp_all_named(s, t, m, c) && sp_named(x, t, m, c) && 0 <= p < s.len() ==> sp_all_named(#[trigger] s.update(p, x), t, m, c),
        forall|s: Seq<ByteSegment>, p: int| sp_all_named(s, t, m, c) && 0 <= p < s.len() ==> sp_all_named(#[trigger] s.remove(p), t, m, c),
{ reveal(sp_all_named); }
/// a piece of the segment k of s is named
pub proof fn lemma_named_pieces(s: Seq<ByteSegment>, t: Seq<ByteSegment>, m: Seq<usize>, c: Seq<int>)
    requires sp_all_named(s, t, m, c),
    ensures
        forall|k: int, y: ByteSegment| 0 <= k < s.len() && (#[trigger] s[k]).start <= y.start && y.end <= s[k].end && s[k].kind == y.kind && s[k].group == y.group && s[k].layer == y.layer
            ==> #[trigger] sp_named(y, t, m, c),
{
    assert forall|k: int, y: ByteSegment| 0 <= k < s.len() && (#[trigger] s[k]).start <= y.start && y.end <= s[k].end && s[k].kind == y.kind && s[k].group == y.group && s[k].layer == y.layer
        implies #[trigger] sp_named(y, t, m, c) by { lemma_named_all(s, t, m, c, k); lemma_named_part(s[k], y, t, m, c); }
}
pub proof fn lemma_few_crcs(c: Seq<int>, m: Seq<usize>, len: int)
    requires 0 <= len, sp_layout(m, c, 0, len),
    ensures c.len() <= len,
{
    if c.len() > 0 { lemma_crc_index(c, m, len, c.len() - 1); assert(c[c.len() - 1] + 2 <= len); }
}
pub proof fn lemma_crc_index(c: Seq<int>, m: Seq<usize>, len: int, k: int)
    requires sp_layout(m, c, 0, len), 0 <= k < c.len(),
    ensures k < c[k], c[k] < len,
    decreases k,
{ if k > 0 { lemma_crc_index(c, m, len, k - 1); } }
/// the segments of a frame d with block checksums, of which z remains without them
pub open spec fn sp_blocks_shown(s: Seq<ByteSegment>, d: Seq<u8>, z: Seq<u8>) -> bool {
    exists|t: Seq<ByteSegment>| #[trigger] sp_radio_shown(t, z) && sp_all_named(s, t, sp_fullmap(d), sp_fullcrcs(d))
}
pub open spec fn sp_shown(s: Seq<ByteSegment>, d: Seq<u8>) -> bool {
    if sp_wired_ok(d) { sp_wired_shown(s, d) }
    else {
        exists|z: Option<Seq<u8>>| #[trigger] sp_strip(d, 512, z)
            && (if z is Some && sp_wireless_ok(z->Some_0) { sp_blocks_shown(s, d, z->Some_0) } else { sp_wireless_ok(d) && sp_radio_shown(s, d) })
    }
}
