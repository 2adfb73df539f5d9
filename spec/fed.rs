// ---- a record as read from bytes, with everything the numeric output depends on
use crate::m_bus_application_layer::data_record::*;
use crate::m_bus_application_layer::data_information::*;

// f is close enough to the number s to tell it from any other reading of the same bytes
pub open spec fn sp_near_to(m: int, f: f64, s: int) -> bool {
    &&& f == f_of(m) && f_ok(m)
    &&& s - 73 <= m <= s + 73 && (f_int(s) ==> m == s)
    &&& (s > 0 ==> m > 0) && (s < 0 ==> m < 0)
    &&& -0x1000000000000000 < m < 0x1000000000000000
}
pub open spec fn sp_about(f: f64, s: int) -> bool { exists|m: int| #[trigger] sp_near_to(m, f, s) }
pub open spec fn sp_bcd_about(r: Result<Data<'_>, DataRecordError>, d: Seq<u8>, n: int, rev: bool, sign: int) -> bool {
    r is Ok && n <= 18 && sp_bcd_val(d, n, rev, n) != 0 ==> r->Ok_0.value is Some && r->Ok_0.value->Some_0 is Number
        && sp_about(r->Ok_0.value->Some_0->Number_0, sign * sp_bcd_val(d, n, rev, n))
}
pub open spec fn sp_var_about(d: Seq<u8>, rev: bool, r: Result<Data<'_>, DataRecordError>) -> bool {
    let n = sp_var_len(d[0]);
    r is Ok && 0xC0 <= d[0] <= 0xDF ==> sp_bcd_about(r, d.subrange(1, 1 + n), 2 * n, rev, if d[0] <= 0xCF { 1 } else { -1 })
}
pub open spec fn sp_numeric(c: DataFieldCoding) -> bool {
    match c {
        DataFieldCoding::Integer8Bit | DataFieldCoding::Integer16Bit | DataFieldCoding::Integer24Bit | DataFieldCoding::Integer32Bit
        | DataFieldCoding::Integer48Bit | DataFieldCoding::Integer64Bit | DataFieldCoding::Real32Bit | DataFieldCoding::VariableLength
        | DataFieldCoding::BCD2Digit | DataFieldCoding::BCD4Digit | DataFieldCoding::BCD6Digit | DataFieldCoding::BCD8Digit | DataFieldCoding::BCDDigit12 => true,
        _ => false,
    }
}
pub open spec fn sp_is_number(v: Option<DataType<'_>>) -> bool { v is Some && (v->Some_0 is Number || v->Some_0 is LossyNumber) }
pub open spec fn sp_valued(c: DataFieldCoding, v: Seq<u8>, rev: bool, r: Result<Data<'_>, DataRecordError>) -> bool {
    &&& sp_fixed(c, v, rev, r)
    &&& (c is VariableLength ==> sp_var(v, rev, r) && sp_var_about(v, rev, r))
    &&& (r is Ok && sp_is_number(r->Ok_0.value) ==> sp_numeric(c))
}
pub open spec fn sp_fed(x: DataRecord<'_>, d: Seq<u8>, rev: bool) -> bool {
    let h = sp_header_len(d);
    let v = d.subrange(h, d.len() as int);
    let n = h + x.data.size;
    &&& sp_headers(x, d)
    &&& x.raw_bytes@.len() == n && n <= d.len() && x.raw_bytes@ =~= d.subrange(0, n)
    &&& sp_valued(sp_coding_in(x), v, rev, Ok(x.data))
}

// ---- reading up to 18 BCD digits with doubles
pub proof fn lemma_p10_rep(k: int)
    requires 0 <= k <= 17,
    ensures f_ok(sp_p10(k)), sp_p10(k) * 10 == sp_p10(k + 1), forall|g: int| 0 <= g <= 9 ==> f_ok(#[trigger] (g * sp_p10(k))), sp_p10(k) >= 1,
{
    lemma_p10_mono(0, k);
    reveal_with_fuel(sp_p10, 19);
    reveal_with_fuel(f_two, 18);
    assert(f_two(16) == 65536 && f_two(17) == 131072);
    axiom_rep(10000000000000000, 152587890625, 16);
    axiom_rep(100000000000000000, 762939453125, 17);
    assert forall|g: int| 0 <= g <= 9 implies f_ok(#[trigger] (g * sp_p10(k))) by {
        if k <= 15 {
            lemma_p10_mono(k, 15);
            let p = sp_p10(k);
            assert(0 <= g * p <= 9 * p) by (nonlinear_arith) requires 0 <= g <= 9, p >= 1;
        } else if k == 16 {
            assert(g * 10000000000000000 == (g * 152587890625) * 65536);
            axiom_rep(g * 10000000000000000, g * 152587890625, 16);
        } else {
            assert(g * 100000000000000000 == (g * 762939453125) * 131072);
            axiom_rep(g * 100000000000000000, g * 762939453125, 17);
        }
    }
    if k <= 15 { lemma_p10_mono(k, 15); }
}
pub open spec fn sp_slack(k: int) -> int { if k <= 15 { 0 } else if k == 16 { 1 } else if k == 17 { 9 } else { 73 } }
pub open spec fn sp_track(m: int, s: int, k: int) -> bool {
    f_ok(m) && 0 <= m && s - sp_slack(k) <= m <= s + sp_slack(k) && (f_int(s) ==> m == s)
}
pub proof fn lemma_track(m: int, d: Seq<u8>, n: int, rev: bool, k: int)
    requires 0 <= k < n, k <= 17, sp_track(m, sp_bcd_val(d, n, rev, k), k), forall|i: int| 0 <= i <= k ==> (#[trigger] sp_digit(d, n, rev, i)) <= 9,
    ensures
        f_ok(sp_p10(k)), sp_p10(k) * 10 == sp_p10(k + 1), f_ok(sp_digit(d, n, rev, k) * sp_p10(k)), f_ok(m), f_ok(10), f_ok(sp_digit(d, n, rev, k)),
        0 <= sp_digit(d, n, rev, k), sp_p10(k) >= 1,
        ({ let q = m + sp_digit(d, n, rev, k) * sp_p10(k);
           f_of(q) == f_of(f_near(q)) && sp_track(f_near(q), sp_bcd_val(d, n, rev, k + 1), k + 1) }),
{
    lemma_p10_rep(k);
    let g = sp_digit(d, n, rev, k);
    let p = sp_p10(k);
    let q = m + g * p;
    assert(0 <= g * p <= 9 * p) by (nonlinear_arith) requires 0 <= g <= 9, p >= 1;
    lemma_bcd_bound(d, n, rev, k);
    lemma_bcd_bound(d, n, rev, k + 1);
    reveal_with_fuel(sp_p10, 19);
    lemma_p10_mono(k, 17);
    lemma_p10_mono(k + 1, 18);
    if k < 15 { lemma_p10_mono(k + 1, 15); }
    axiom_near(q);
    axiom_near(0);
}
