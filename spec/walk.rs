// ---- the records of a payload, one behind the other
use crate::m_bus_application_layer::data_record::*;
// where the i-th record starts: behind the one before, fillers left out
pub open spec fn sp_at(recs: Seq<DataRecord<'_>>, d: Seq<u8>, o: int, i: int) -> int
    decreases i,
{ sp_skip(d, if i <= 0 { o } else { sp_at(recs, d, o, i - 1) + recs[i - 1].raw_bytes@.len() }) }
pub proof fn lemma_at_first(recs: Seq<DataRecord<'_>>, d: Seq<u8>, o: int)
    ensures sp_at(recs, d, o, 0) == sp_skip(d, o),
{}
pub proof fn lemma_skip_up(d: Seq<u8>, o: int)
    requires 0 <= o <= d.len(),
    ensures o <= sp_skip(d, o) <= d.len(),
    decreases d.len() - o,
{
    if o < d.len() && sp_skippable(d[o]) { lemma_skip_up(d, o + 1); }
}
pub proof fn lemma_at_same(recs: Seq<DataRecord<'_>>, more: Seq<DataRecord<'_>>, d: Seq<u8>, o: int, i: int)
    requires 0 <= i <= recs.len() <= more.len(), forall|j: int| 0 <= j < recs.len() ==> #[trigger] recs[j] == more[j],
    ensures sp_at(recs, d, o, i) == sp_at(more, d, o, i),
    decreases i,
{
    if i > 0 { lemma_at_same(recs, more, d, o, i - 1); }
}
pub proof fn lemma_at_push(recs: Seq<DataRecord<'_>>, x: DataRecord<'_>, d: Seq<u8>, o: int)
    ensures forall|i: int| 0 <= i <= recs.len() ==> #[trigger] sp_at(recs.push(x), d, o, i) == sp_at(recs, d, o, i),
        sp_at(recs.push(x), d, o, recs.len() as int + 1) == sp_skip(d, sp_at(recs, d, o, recs.len() as int) + x.raw_bytes@.len()),
{
    assert forall|i: int| 0 <= i <= recs.len() implies #[trigger] sp_at(recs.push(x), d, o, i) == sp_at(recs, d, o, i) by { lemma_at_same(recs, recs.push(x), d, o, i); }
    assert(sp_at(recs.push(x), d, o, recs.len() as int) == sp_at(recs, d, o, recs.len() as int));
    assert(recs.push(x)[recs.len() as int] == x);
}
