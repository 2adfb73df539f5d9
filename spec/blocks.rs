// ---- Format A ------------------------------------------------------------------------
/// largest n, at most the given one, such that a checksum follows the n bytes at pos
pub open spec fn sp_blk_from(d: Seq<u8>, pos: int, n: int) -> int
    decreases n,
{
    if n <= 0 { 0 } else if sp_crc_at(d, pos, pos + n) { n } else { sp_blk_from(d, pos, n - 1) }
}
pub open spec fn sp_blk(d: Seq<u8>, pos: int) -> int {
    if d.len() - pos < 3 { 0 } else { sp_blk_from(d, pos, sp_least(16, d.len() - pos - 2)) }
}
pub proof fn lemma_blk_from(d: Seq<u8>, pos: int, n: int)
    ensures 0 <= sp_blk_from(d, pos, n), n >= 0 ==> sp_blk_from(d, pos, n) <= n,
    decreases n,
{ if n > 0 { lemma_blk_from(d, pos, n - 1); } }
pub proof fn lemma_blk(d: Seq<u8>, pos: int)
    ensures 0 <= sp_blk(d, pos) <= 16, sp_blk(d, pos) > 0 ==> pos + sp_blk(d, pos) + 2 <= d.len(),
{ if d.len() - pos >= 3 { lemma_blk_from(d, pos, sp_least(16, d.len() - pos - 2)); } }

pub open spec fn sp_count(a: int, n: int) -> Seq<usize> { Seq::new(n as nat, |k: int| (a + k) as usize) }
/// positions in d of the bytes that remain once the checksums are taken out
pub open spec fn sp_rest_of(d: Seq<u8>, pos: int) -> Seq<usize>
    decreases (if pos < d.len() { d.len() - pos } else { 0 }),
{
    if pos >= d.len() { Seq::empty() }
    else if sp_blk(d, pos) <= 0 { sp_count(pos, d.len() - pos) }
    else { sp_count(pos, sp_blk(d, pos)) + sp_rest_of(d, pos + sp_blk(d, pos) + 2) }
}
/// positions of the checksums behind the first block
pub open spec fn sp_crcs(d: Seq<u8>, pos: int) -> Seq<int>
    decreases (if pos < d.len() { d.len() - pos } else { 0 }),
{
    if pos >= d.len() || sp_blk(d, pos) <= 0 { Seq::empty() }
    else { seq![pos + sp_blk(d, pos)] + sp_crcs(d, pos + sp_blk(d, pos) + 2) }
}
pub open spec fn sp_fullmap(d: Seq<u8>) -> Seq<usize> { sp_count(0, 10) + sp_rest_of(d, 12) }
pub open spec fn sp_fullcrcs(d: Seq<u8>) -> Seq<int> { seq![10int] + sp_crcs(d, 12) }

/// m and c describe lo..len: m increasing, c apart, no byte of a checksum in m
pub open spec fn sp_layout(m: Seq<usize>, c: Seq<int>, lo: int, len: int) -> bool {
    &&& (forall|k: int| 0 <= k < m.len() ==> lo <= #[trigger] m[k] < len)
    &&& (forall|k: int, l: int| 0 <= k < l < m.len() ==> #[trigger] m[k] < #[trigger] m[l])
    &&& (forall|i: int| 0 <= i < c.len() ==> lo < #[trigger] c[i] && c[i] + 2 <= len)
    &&& (forall|i: int, j: int| 0 <= i < j < c.len() ==> #[trigger] c[i] + 2 < #[trigger] c[j])
    &&& (forall|k: int, i: int| 0 <= k < m.len() && 0 <= i < c.len() ==> #[trigger] m[k] != #[trigger] c[i] && m[k] != c[i] + 1)
    &&& (lo < len ==> m.len() > 0 && {
            let e = m[m.len() - 1] + 1;
            e == len || (c.len() > 0 && c[c.len() - 1] == e && e + 2 == len)
        })
}
pub proof fn lemma_layout(d: Seq<u8>, pos: int)
    requires 0 <= pos <= d.len() <= usize::MAX,
    ensures sp_layout(sp_rest_of(d, pos), sp_crcs(d, pos), pos, d.len() as int),
    decreases d.len() - pos,
{
    lemma_blk(d, pos);
    let n = sp_blk(d, pos);
    if pos < d.len() && n > 0 { lemma_layout(d, pos + n + 2); }
}
pub proof fn lemma_full(d: Seq<u8>)
    requires 12 <= d.len() <= usize::MAX,
    ensures sp_layout(sp_fullmap(d), sp_fullcrcs(d), 0, d.len() as int), sp_fullmap(d)[0] == 0, sp_fullmap(d).len() >= 10,
        sp_fullcrcs(d).len() > 0, sp_fullcrcs(d)[0] == 10,
{ lemma_layout(d, 12); }

pub open spec fn sp_at(m: Seq<usize>, x: int) -> int { if x < m.len() { m[x] as int } else { m[m.len() - 1] + 1 } }
