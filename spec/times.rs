//@need m_bus_parser::output::ValueOutput
//@need m_bus_parser::output::RecordOutput
//@need m_bus_application_layer::data_information::DataType
//@need m_bus_application_layer::data_information::SingleEveryOrInvalid
//@need m_bus_application_layer::data_information::Month
// What the typed output says about dates and times.
use crate::m_bus_application_layer::data_record::*;
use crate::m_bus_application_layer::data_information::*;
use crate::m_bus_application_layer::value_information::*;
use crate::m_bus_parser::output::{RecordOutput, ValueOutput};
use crate::m_bus_application_layer::variable_user_data::DataRecordError;
use crate::dep::serde_json::Value;

impl VToStr for DataRecordError {
    uninterp spec fn sp_str(&self) -> Seq<char>;
    #[verifier::external_body]
    fn v_to_string(&self) -> (r: String) { unimplemented!() }
}
impl<'a> VToStr for TextUnit<'a> {
    uninterp spec fn sp_str(&self) -> Seq<char>;
    #[verifier::external_body]
    fn v_to_string(&self) -> (r: String) { unimplemented!() }
}
impl crate::dep::Serialize for Month { uninterp spec fn sp_json(&self) -> Value; }

pub open spec fn sp_month_number(m: Month) -> int {
    match m {
        Month::January => 1, Month::February => 2, Month::March => 3, Month::April => 4, Month::May => 5, Month::June => 6,
        Month::July => 7, Month::August => 8, Month::September => 9, Month::October => 10, Month::November => 11, Month::December => 12,
    }
}
// one component of an incomplete date or time
pub open spec fn sp_component<T: crate::dep::Serialize>(c: SingleEveryOrInvalid<T>, v: Value) -> bool {
    match c {
        SingleEveryOrInvalid::Single(x) => v == x.sp_json(),
        SingleEveryOrInvalid::Every() => v is String && v->String_0@ == "every"@,
        SingleEveryOrInvalid::Invalid() => v is String && v->String_0@ == "invalid"@,
    }
}
pub open spec fn sp_has<T: crate::dep::Serialize>(v: Value, k: Seq<char>, c: SingleEveryOrInvalid<T>) -> bool {
    v is Object && v->Object_0@.dom().contains(k) && sp_component(c, v->Object_0@[k])
}
pub open spec fn sp_iso_date(y: u16, m: Month, d: u8) -> Seq<char> {
    sp_padded(y as int, 4) + "-"@ + sp_padded(sp_month_number(m), 2) + "-"@ + sp_padded(d as int, 2)
}
pub open spec fn sp_iso_time(h: u8, m: u8) -> Seq<char> { sp_padded(h as int, 2) + ":"@ + sp_padded(m as int, 2) }
pub open spec fn sp_text_is(v: Option<Value>, t: Seq<char>) -> bool { v is Some && v->Some_0 is String && v->Some_0->String_0@ == t }
pub open spec fn sp_timed(o: ValueOutput, v: Option<DataType<'_>>) -> bool {
    match v {
        Some(DataType::Date(d, m, y)) => o.kind@ == "date"@ && (
            if d is Single && m is Single && y is Single { sp_text_is(o.value, sp_iso_date(y->Single_0, m->Single_0, d->Single_0)) }
            else { o.value is Some && sp_has(o.value->Some_0, "day"@, d) && sp_has(o.value->Some_0, "month"@, m) && sp_has(o.value->Some_0, "year"@, y) }),
        Some(DataType::Time(s, n, h)) => o.kind@ == "time"@ && (
            if s is Single && n is Single && h is Single { sp_text_is(o.value, sp_iso_time(h->Single_0, n->Single_0) + ":"@ + sp_padded(s->Single_0 as int, 2)) }
            else { o.value is Some && sp_has(o.value->Some_0, "hour"@, h) && sp_has(o.value->Some_0, "minute"@, n) && sp_has(o.value->Some_0, "second"@, s) }),
        Some(DataType::DateTime(d, m, y, h, n)) => o.kind@ == "datetime"@ && (
            if d is Single && m is Single && y is Single && h is Single && n is Single {
                sp_text_is(o.value, sp_iso_date(y->Single_0, m->Single_0, d->Single_0) + "T"@ + sp_iso_time(h->Single_0, n->Single_0) + ":00"@)
            } else {
                o.value is Some && sp_has(o.value->Some_0, "day"@, d) && sp_has(o.value->Some_0, "month"@, m) && sp_has(o.value->Some_0, "year"@, y)
                    && sp_has(o.value->Some_0, "hour"@, h) && sp_has(o.value->Some_0, "minute"@, n)
            }),
        Some(DataType::DateTimeWithSeconds(d, m, y, h, n, s)) => o.kind@ == "datetime"@ && (
            if d is Single && m is Single && y is Single && h is Single && n is Single && s is Single {
                sp_text_is(o.value, sp_iso_date(y->Single_0, m->Single_0, d->Single_0) + "T"@ + sp_iso_time(h->Single_0, n->Single_0) + ":"@ + sp_padded(s->Single_0 as int, 2))
            } else {
                o.value is Some && sp_has(o.value->Some_0, "day"@, d) && sp_has(o.value->Some_0, "month"@, m) && sp_has(o.value->Some_0, "year"@, y)
                    && sp_has(o.value->Some_0, "hour"@, h) && sp_has(o.value->Some_0, "minute"@, n) && sp_has(o.value->Some_0, "second"@, s)
            }),
        _ => true,
    }
}
pub open spec fn sp_given(c: Option<&SingleEveryOrInvalid<u8>>) -> bool { c is Some && *c->Some_0 is Single }
pub open spec fn sp_the(c: Option<&SingleEveryOrInvalid<u8>>) -> u8 { (*c->Some_0)->Single_0 }
pub proof fn lemma_kinds()
    ensures "date"@ != "time"@, "date"@ != "datetime"@, "time"@ != "datetime"@,
        "day"@ != "month"@, "day"@ != "year"@, "day"@ != "hour"@, "day"@ != "minute"@, "day"@ != "second"@,
        "month"@ != "year"@, "month"@ != "hour"@, "month"@ != "minute"@, "month"@ != "second"@,
        "year"@ != "hour"@, "year"@ != "minute"@, "year"@ != "second"@,
        "hour"@ != "minute"@, "hour"@ != "second"@, "minute"@ != "second"@,
{
    reveal_strlit("date"); reveal_strlit("time"); reveal_strlit("datetime");
    reveal_strlit("day"); reveal_strlit("month"); reveal_strlit("year"); reveal_strlit("hour"); reveal_strlit("minute"); reveal_strlit("second");
    assert("date"@[0] == 'd' && "time"@[0] == 't');
    assert("year"@[0] == 'y' && "hour"@[0] == 'h');
    assert("minute"@[0] == 'm' && "second"@[0] == 's' && "month"@[0] == 'm' && "minute"@[1] == 'i' && "month"@[1] == 'o');
    assert("date"@.len() == 4 && "datetime"@.len() == 8 && "day"@[0] == 'd');
}
// ---- all records of a payload
#[verifier::opaque]
pub open spec fn sp_time_item(o: RecordOutput, x: DataRecord<'_>, d: Seq<u8>) -> bool { sp_read(x, d) && sp_timed(o.value, x.data.value) }
pub open spec fn sp_time_list(out: Seq<RecordOutput>, recs: Seq<DataRecord<'_>>, d: Seq<u8>, o: int) -> bool {
    &&& out.len() == recs.len()
    &&& forall|i: int| 0 <= i < recs.len() ==> #[trigger] sp_time_item(out[i], recs[i], d.subrange(sp_at(recs, d, o, i), d.len() as int))
}
pub open spec fn sp_times(out: Seq<RecordOutput>, d: Seq<u8>, o: int, whole: bool) -> bool {
    exists|recs: Seq<DataRecord<'_>>| sp_time_list(out, recs, d, o) && (whole ==> #[trigger] sp_at(recs, d, o, recs.len() as int) == d.len())
}
pub proof fn lemma_time_push(out: Seq<RecordOutput>, recs: Seq<DataRecord<'_>>, v: RecordOutput, x: DataRecord<'_>, d: Seq<u8>, o: int)
    requires sp_time_list(out, recs, d, o),
        sp_read(x, d.subrange(sp_at(recs, d, o, recs.len() as int), d.len() as int)),
        sp_timed(v.value, x.data.value),
    ensures sp_time_list(out.push(v), recs.push(x), d, o),
{
    hide(sp_read); hide(sp_timed);
    reveal(sp_time_item);
    lemma_at_push(recs, x, d, o);
    let a = out.push(v);
    let b = recs.push(x);
    assert forall|i: int| 0 <= i < b.len() implies #[trigger] sp_time_item(a[i], b[i], d.subrange(sp_at(b, d, o, i), d.len() as int)) by {
        if i < recs.len() { assert(sp_time_item(out[i], recs[i], d.subrange(sp_at(recs, d, o, i), d.len() as int))); }
    }
}
