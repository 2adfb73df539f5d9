//@need m_bus_application_layer::value_information::ValueInformationBlock
//@need m_bus_application_layer::value_information::ValueInformationField
//@need m_bus_application_layer::value_information::ValueInformationFieldExtension
//@need m_bus_application_layer::value_information::ValueLabel
use crate::m_bus_application_layer::value_information::*;

// no quantity that would change the width of the value
#[verifier::opaque]
pub open spec fn sp_no_clock(l: Seq<ValueLabel>) -> bool {
    !l.contains(ValueLabel::Time) && !l.contains(ValueLabel::DateTimeWithSeconds)
}
pub broadcast proof fn lemma_no_clock_push(l: Seq<ValueLabel>, x: ValueLabel)
    requires sp_no_clock(l), !(x is Time), !(x is DateTimeWithSeconds),
    ensures #[trigger] sp_no_clock(l.push(x)),
{
    reveal(sp_no_clock);
    let m = l.push(x);
    assert forall|y: ValueLabel| m.contains(y) implies l.contains(y) || x == y by {
        let i = choose|i: int| 0 <= i < m.len() && m[i] == y;
        if i < l.len() { assert(l[i] == y); }
    }
}
pub proof fn lemma_no_clock_none()
    ensures sp_no_clock(Seq::empty()),
{ reveal(sp_no_clock); }

// number of extension bytes: up to the first without extension bit or the end of the data
pub open spec fn sp_vife_n(d: Seq<u8>) -> int {
    if d[0] < 128 { 0 } else {
        let k = sp_run(d.subrange(1, d.len() as int));
        if k < d.len() - 1 { k + 1 } else { k }
    }
}
pub open spec fn sp_text_at(d: Seq<u8>) -> int { 1 + sp_vife_n(d) }
pub open spec fn sp_vib_ok(d: Seq<u8>) -> bool {
    d.len() > 0 && sp_vife_n(d) <= 10
        && (d[0] == 0xFC ==> {
            let t = sp_text_at(d);
            t < d.len() && d[t] <= 9 && t + 1 + d[t] <= d.len()
        })
}
pub open spec fn sp_vib_len(d: Seq<u8>) -> int {
    if d[0] == 0xFC { sp_text_at(d) + 1 + d[sp_text_at(d)] } else { sp_text_at(d) }
}
pub open spec fn sp_vifes(b: ValueInformationBlock) -> Seq<ValueInformationFieldExtension> {
    match b.value_information_extension { Some(x) => x@, None => Seq::empty() }
}
pub open spec fn sp_vib(b: ValueInformationBlock, d: Seq<u8>) -> bool {
    &&& sp_vib_ok(d)
    &&& b.value_information.data == d[0]
    &&& sp_vifes(b).len() == sp_vife_n(d)
    &&& forall|i: int| 0 <= i < sp_vife_n(d) ==> (#[trigger] sp_vifes(b)[i]).data == d[1 + i]
    &&& (b.plaintext_vife is Some <==> d[0] == 0xFC)
    &&& d[0] == 0xFC ==> sp_text(b.plaintext_vife->Some_0@, d.subrange(sp_text_at(d), d.len() as int))
}
// a length byte followed by that many characters
pub open spec fn sp_text(t: Seq<char>, d: Seq<u8>) -> bool {
    d.len() > 0 && d.len() > d[0] && t.len() == d[0] && forall|i: int| 0 <= i < t.len() ==> (#[trigger] t[i]) as u32 == d[1 + i]
}
pub open spec fn sp_vib_size(b: ValueInformationBlock) -> int {
    1 + sp_vifes(b).len() as int + match b.plaintext_vife { Some(t) => t@.len() as int + 1, None => 0 }
}

// the run of extension bytes is at least n long when n bytes carry the bit
pub proof fn lemma_run_ge(s: Seq<u8>, n: int)
    requires
        0 <= n <= s.len(),
        forall|j: int| 0 <= j < n ==> (#[trigger] s[j]) >= 128,
    ensures sp_run(s) >= n,
    decreases n,
{
    lemma_run_bound(s);
    if n > 0 {
        let t = s.subrange(1, s.len() as int);
        assert(forall|j: int| 0 <= j < n - 1 ==> (#[trigger] t[j]) == s[j + 1]);
        lemma_run_ge(t, n - 1);
    }
}
pub proof fn lemma_run_bound(s: Seq<u8>)
    ensures 0 <= sp_run(s) <= s.len(),
    decreases s.len(),
{
    if s.len() > 0 && s[0] >= 128 { lemma_run_bound(s.subrange(1, s.len() as int)); }
}
pub proof fn lemma_low(b: u8)
    ensures
        b & 0x7F <= 0x7F, b & 7 == (b & 0x7F) % 8, b & 3 == (b & 0x7F) % 4, b & 15 == (b & 0x7F) % 16, b & 0x7F == b % 128,
{
    assert(b & 0x7F <= 0x7F && b & 7 == (b & 0x7F) % 8 && b & 3 == (b & 0x7F) % 4 && b & 15 == (b & 0x7F) % 16 && b & 0x7F == b % 128) by (bit_vector);
}
