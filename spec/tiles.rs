//@need m_bus_parser::annotate::ByteSegment
use crate::m_bus_parser::annotate::ByteSegment;
use crate::wired_mbus_link_layer::WiredFrame;

/// the segments cover 0..end without gap or overlap, and none is empty
#[verifier::opaque]
pub open spec fn sp_tiled(s: Seq<ByteSegment>, end: int) -> bool {
    &&& (s.len() == 0 ==> end == 0)
    &&& (s.len() > 0 ==> s[0].start == 0 && s[s.len() - 1].end == end)
    &&& (forall|k: int| 0 <= k < s.len() ==> (#[trigger] s[k]).start < s[k].end)
    &&& (forall|k: int, l: int| 0 <= k < s.len() - 1 && l == k + 1 ==> (#[trigger] s[k]).end == (#[trigger] s[l]).start)
}
pub open spec fn sp_wired_len(f: WiredFrame<'_>, n: int) -> bool {
    match f {
        WiredFrame::SingleCharacter { character } => n == 1,
        WiredFrame::ShortFrame { function, address } => n == 5,
        WiredFrame::LongFrame { function, address, data } => n == data@.len() + 8,
        WiredFrame::ControlFrame { function, address, data } => n == data@.len() + 8,
    }
}
pub broadcast proof fn lemma_tiled_push(s: Seq<ByteSegment>, e: int, x: ByteSegment)
    requires #[trigger] sp_tiled(s, e), x.start == e, x.start < x.end,
    ensures sp_tiled(#[trigger] s.push(x), x.end as int),
{ reveal(sp_tiled); }
pub proof fn lemma_tiled_none(s: Seq<ByteSegment>)
    requires s.len() == 0,
    ensures sp_tiled(s, 0),
{ reveal(sp_tiled); }

pub proof fn lemma_tiled_within(s: Seq<ByteSegment>, e: int, k: int)
    requires sp_tiled(s, e), 0 <= k < s.len(),
    ensures s[k].end <= e, s[k].start < e, 0 <= s[k].start < s[k].end,
    decreases s.len() - k,
{
    reveal(sp_tiled);
    if k + 1 < s.len() { lemma_tiled_within(s, e, k + 1); }
}

/// s covers the frame except for the checksums c[j..]
#[verifier::opaque]
pub open spec fn sp_pending(s: Seq<ByteSegment>, c: Seq<int>, j: int, len: int) -> bool {
    let e = s[s.len() - 1].end as int;
    &&& s.len() > 0
    &&& sp_tiled(s, e)
    &&& (e == len || (j < c.len() && c[c.len() - 1] == e && e + 2 == len))
    &&& (forall|i: int| j <= i < c.len() ==> #[trigger] c[i] + 2 < e || (i == c.len() - 1 && c[i] == e && e + 2 == len))
    &&& (forall|k: int, i: int| 0 <= k < s.len() && j <= i < c.len() ==> (#[trigger] s[k]).start != #[trigger] c[i] && s[k].start != c[i] + 1)
}
pub proof fn lemma_mapped(t: Seq<ByteSegment>, s: Seq<ByteSegment>, m: Seq<usize>, c: Seq<int>, len: int)
    requires
        sp_layout(m, c, 0, len), len >= 12, m.len() >= 10, m[0] == 0,
        sp_tiled(t, m.len() as int), s.len() == t.len(),
        forall|k: int| 0 <= k < s.len() ==> (#[trigger] s[k]).start == sp_at(m, t[k].start as int) && s[k].end == sp_at(m, t[k].end as int),
    ensures sp_pending(s, c, 0, len),
{
    reveal(sp_pending);
    assert forall|k: int| 0 <= k < t.len() implies (#[trigger] t[k]).end <= m.len() && t[k].start < t[k].end && t[k].start < m.len() by { lemma_tiled_within(t, m.len() as int, k); }
    let e = m[m.len() - 1] + 1;
    assert(s.len() > 0 && t[t.len() - 1].end == m.len() && t[0].start == 0) by { reveal(sp_tiled); }
    assert(s[s.len() - 1].end == e);
    assert forall|i: int| 0 <= i < c.len() implies #[trigger] c[i] + 2 < e || (i == c.len() - 1 && c[i] == e && e + 2 == len) by {
        assert(m[m.len() - 1] != c[i] && m[m.len() - 1] != c[i] + 1);
    }
    assert(forall|k: int, l: int| 0 <= k < t.len() - 1 && l == k + 1 ==> (#[trigger] t[k]).end == (#[trigger] t[l]).start) by { reveal(sp_tiled); }
    assert forall|k: int| 0 <= k < s.len() implies (#[trigger] s[k]).start < s[k].end by {
        assert(t[k].start < t[k].end <= m.len());
        if t[k].end < m.len() { assert(m[t[k].start as int] < m[t[k].end as int]); }
        else if t[k].start < m.len() - 1 { assert(m[t[k].start as int] < m[m.len() - 1]); }
    }
    assert forall|k: int, l: int| 0 <= k < s.len() - 1 && l == k + 1 implies (#[trigger] s[k]).end == (#[trigger] s[l]).start by { assert(t[k].end == t[l].start); }
    assert(sp_tiled(s, e)) by { reveal(sp_tiled); }
    assert forall|k: int, i: int| 0 <= k < s.len() && 0 <= i < c.len() implies (#[trigger] s[k]).start != #[trigger] c[i] && s[k].start != c[i] + 1 by {
        assert(s[k].start == m[t[k].start as int]);
    }
}
pub proof fn lemma_done(s: Seq<ByteSegment>, c: Seq<int>, len: int)
    requires sp_pending(s, c, c.len() as int, len),
    ensures sp_tiled(s, len),
{ reveal(sp_pending); }
/// what putting the checksum c[j] into s leads to
pub proof fn lemma_insert(s: Seq<ByteSegment>, c: Seq<int>, j: int, len: int)
    requires
        sp_pending(s, c, j, len), 0 <= j < c.len(), c[j] >= 10, c[j] + 2 <= len <= usize::MAX,
        forall|a: int, b: int| 0 <= a < b < c.len() ==> #[trigger] c[a] + 2 < #[trigger] c[b],
    ensures
        s.len() > 0, s[0].start == 0,
        forall|p: int, x: ByteSegment, y: ByteSegment, z: ByteSegment|
            sp_place(s, p, c[j]) && s[p - 1].end > c[j] + 2 && x.start == s[p - 1].start && x.end == c[j] && y.start == c[j] && y.end == c[j] + 2
            && z.start == c[j] + 2 && z.end == s[p - 1].end
            ==> sp_pending(#[trigger] s.update(p - 1, x).insert(p, y).insert(p + 1, z), c, j + 1, len),
        forall|p: int, y: ByteSegment| sp_place(s, p, c[j]) && s[p - 1].end <= c[j] && y.start == c[j] && y.end == c[j] + 2
            ==> sp_pending(#[trigger] s.insert(p, y), c, j + 1, len),
        forall|p: int, x: ByteSegment, y: ByteSegment|
            sp_place(s, p, c[j]) && s[p - 1].end == c[j] + 2 && x.start == s[p - 1].start && x.end == c[j] && y.start == c[j] && y.end == c[j] + 2
            ==> sp_pending(#[trigger] s.update(p - 1, x).insert(p, y), c, j + 1, len),
        forall|p: int| sp_place(s, p, c[j]) && s[p - 1].end > c[j] ==> c[j] + 2 <= #[trigger] s[p - 1].end && p <= c[j],
{
    reveal(sp_pending);
    let e = s[s.len() - 1].end as int;
    assert forall|p: int| sp_place(s, p, c[j]) implies p <= c[j] && (#[trigger] s[p - 1].end > c[j] ==> c[j] + 2 <= s[p - 1].end) && (s[p - 1].end <= c[j] ==> p == s.len() && e == c[j]) by {
        lemma_tiled_index(s, e, p - 1);
        reveal(sp_tiled);
        if p < s.len() { assert(s[p - 1].end == s[p].start); assert(s[p].start != c[j] && s[p].start != c[j] + 1); }
    }
    assert(s[0].start == 0) by { reveal(sp_tiled); }
    assert forall|p: int, x: ByteSegment, y: ByteSegment, z: ByteSegment|
            sp_place(s, p, c[j]) && s[p - 1].end > c[j] + 2 && x.start == s[p - 1].start && x.end == c[j] && y.start == c[j] && y.end == c[j] + 2
            && z.start == c[j] + 2 && z.end == s[p - 1].end
            implies sp_pending(#[trigger] s.update(p - 1, x).insert(p, y).insert(p + 1, z), c, j + 1, len) by {
        lemma_split(s, c, j, len, p, x, y, z);
    }
    assert forall|p: int, x: ByteSegment, y: ByteSegment|
            sp_place(s, p, c[j]) && s[p - 1].end == c[j] + 2 && x.start == s[p - 1].start && x.end == c[j] && y.start == c[j] && y.end == c[j] + 2
            implies sp_pending(#[trigger] s.update(p - 1, x).insert(p, y), c, j + 1, len) by {
        lemma_fit(s, c, j, len, p, x, y);
    }
    assert forall|p: int, y: ByteSegment| sp_place(s, p, c[j]) && s[p - 1].end <= c[j] && y.start == c[j] && y.end == c[j] + 2
            implies sp_pending(#[trigger] s.insert(p, y), c, j + 1, len) by {
        let t = s.insert(p, y);
        assert(t =~= s.push(y));
        assert(e == c[j] && e + 2 == len && j == c.len() - 1);
        lemma_tiled_push(s, e, y);
    }
}
pub proof fn lemma_tiled_index(s: Seq<ByteSegment>, e: int, k: int)
    requires sp_tiled(s, e), 0 <= k < s.len(),
    ensures k <= s[k].start,
    decreases k,
{
    reveal(sp_tiled);
    if k > 0 { lemma_tiled_index(s, e, k - 1); assert(s[k - 1].end == s[k].start); }
}
pub proof fn lemma_split(s: Seq<ByteSegment>, c: Seq<int>, j: int, len: int, p: int, x: ByteSegment, y: ByteSegment, z: ByteSegment)
    requires
        sp_pending(s, c, j, len), 0 <= j < c.len(), c[j] >= 10, c[j] + 2 <= len <= usize::MAX,
        forall|a: int, b: int| 0 <= a < b < c.len() ==> #[trigger] c[a] + 2 < #[trigger] c[b],
        sp_place(s, p, c[j]), s[p - 1].end > c[j] + 2, x.start == s[p - 1].start, x.end == c[j], y.start == c[j], y.end == c[j] + 2,
        z.start == c[j] + 2, z.end == s[p - 1].end,
    ensures
        sp_pending(s.update(p - 1, x).insert(p, y).insert(p + 1, z), c, j + 1, len),
{
    reveal(sp_pending);
    let e = s[s.len() - 1].end as int;
    lemma_tiled_within(s, e, p - 1);
    let t = s.update(p - 1, x).insert(p, y).insert(p + 1, z);
    assert(t.len() == s.len() + 2);
    assert(forall|k: int| 0 <= k < p - 1 ==> #[trigger] t[k] == s[k]);
    assert(t[p - 1] == x && t[p] == y && t[p + 1] == z);
    assert(forall|k: int| p + 2 <= k < t.len() ==> #[trigger] t[k] == s[k - 2]);
    assert(t[t.len() - 1].end == e);
    assert(sp_tiled(t, e)) by {
        reveal(sp_tiled);
        assert forall|k: int, l: int| 0 <= k < t.len() - 1 && l == k + 1 implies (#[trigger] t[k]).end == (#[trigger] t[l]).start by {
            if k < p - 2 { assert(s[k].end == s[l].start); }
            else if k == p - 2 { assert(s[k].end == s[l].start); }
            else if k == p + 1 { assert(s[p - 1].end == s[p].start); }
            else if k > p + 1 { assert(s[k - 2].end == s[l - 2].start); }
        }
    }
    assert forall|k: int, i: int| 0 <= k < t.len() && j + 1 <= i < c.len() implies (#[trigger] t[k]).start != #[trigger] c[i] && t[k].start != c[i] + 1 by {
        assert(c[j] + 2 < c[i]);
        if k < p - 1 { assert(s[k].start != c[i]); }
        else if k == p - 1 { assert(s[p - 1].start != c[i]); }
        else if k >= p + 2 { assert(s[k - 2].start != c[i]); }
    }
}
pub proof fn lemma_fit(s: Seq<ByteSegment>, c: Seq<int>, j: int, len: int, p: int, x: ByteSegment, y: ByteSegment)
    requires
        sp_pending(s, c, j, len), 0 <= j < c.len(), c[j] >= 10, c[j] + 2 <= len <= usize::MAX,
        forall|a: int, b: int| 0 <= a < b < c.len() ==> #[trigger] c[a] + 2 < #[trigger] c[b],
        sp_place(s, p, c[j]), s[p - 1].end == c[j] + 2, x.start == s[p - 1].start, x.end == c[j], y.start == c[j], y.end == c[j] + 2,
    ensures
        sp_pending(s.update(p - 1, x).insert(p, y), c, j + 1, len),
{
    reveal(sp_pending);
    let e = s[s.len() - 1].end as int;
    lemma_tiled_within(s, e, p - 1);
    let t = s.update(p - 1, x).insert(p, y);
    assert(t.len() == s.len() + 1);
    assert(forall|k: int| 0 <= k < p - 1 ==> #[trigger] t[k] == s[k]);
    assert(t[p - 1] == x && t[p] == y);
    assert(forall|k: int| p + 1 <= k < t.len() ==> #[trigger] t[k] == s[k - 1]);
    assert(t[t.len() - 1].end == e);
    assert(sp_tiled(t, e)) by {
        reveal(sp_tiled);
        assert forall|k: int, l: int| 0 <= k < t.len() - 1 && l == k + 1 implies (#[trigger] t[k]).end == (#[trigger] t[l]).start by {
            if k < p - 2 { assert(s[k].end == s[l].start); }
            else if k == p - 2 { assert(s[k].end == s[l].start); }
            else if k == p { assert(s[p - 1].end == s[p].start); }
            else if k > p { assert(s[k - 1].end == s[l - 1].start); }
        }
    }
    assert forall|k: int, i: int| 0 <= k < t.len() && j + 1 <= i < c.len() implies (#[trigger] t[k]).start != #[trigger] c[i] && t[k].start != c[i] + 1 by {
        assert(c[j] + 2 < c[i]);
        if k < p - 1 { assert(s[k].start != c[i]); }
        else if k == p - 1 { assert(s[p - 1].start != c[i]); }
        else if k >= p + 1 { assert(s[k - 1].start != c[i]); }
    }
}
pub open spec fn sp_place(s: Seq<ByteSegment>, p: int, c: int) -> bool {
    0 < p <= s.len() && s[p - 1].start < c && (p < s.len() ==> s[p].start >= c)
}
