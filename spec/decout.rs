//@need m_bus_application_layer::data_record::DataRecord
//@need m_bus_parser::output::ValueOutput
//@need m_bus_parser::output::RecordOutput
use crate::m_bus_application_layer::data_record::*;
use crate::m_bus_application_layer::data_information::*;
use crate::m_bus_application_layer::value_information::*;
use crate::m_bus_parser::output::{RecordOutput, ValueOutput};
use crate::m_bus_application_layer::variable_user_data::DataRecordError;

impl<'a> VToStr for TextUnit<'a> {
    uninterp spec fn sp_str(&self) -> Seq<char>;
    #[verifier::external_body]
    fn v_to_string(&self) -> (r: String) { unimplemented!() }
}

impl VToStr for DataRecordError {
    uninterp spec fn sp_str(&self) -> Seq<char>;
    #[verifier::external_body]
    fn v_to_string(&self) -> (r: String) { unimplemented!() }
}

// ---- additive correction codes
// extensions that belong to the code itself
pub open spec fn sp_true_vif(vif: u8, x: Seq<ValueInformationFieldExtension>) -> int {
    if vif == 0xFD { if x.len() > 0 && x[0].data % 128 == 0x7D { 2 } else { 1 } }
    else if vif == 0xFB { 1 }
    else { 0 }
}
pub struct Adds { pub found: Seq<isize>, pub ext: bool }
// the codes 78..7B outside the extended table (which a code FC opens for the next one)
pub open spec fn sp_scan_adds(x: Seq<ValueInformationFieldExtension>, k: int, n: int) -> Adds
    decreases n,
{
    if n <= k || n <= 0 { Adds { found: Seq::empty(), ext: false } } else {
        let a = sp_scan_adds(x, k, n - 1);
        let c = x[n - 1].data;
        if c == 0xFC { Adds { found: a.found, ext: true } }
        else if !a.ext && 0x78 <= c % 128 <= 0x7B { Adds { found: a.found.push((c % 4 - 3) as isize), ext: false } }
        else { Adds { found: a.found, ext: false } }
    }
}
pub open spec fn sp_adds(vif: u8, x: Seq<ValueInformationFieldExtension>) -> Seq<isize> {
    if vif == 0xFE || vif == 0xFF { Seq::empty() } else { sp_scan_adds(x, sp_true_vif(vif, x), x.len() as int).found }
}
pub open spec fn sp_adds_of(r: DataRecord<'_>) -> Seq<isize> {
    match r.data_record_header.raw_data_record_header.value_information_block {
        Some(b) => sp_adds(b.value_information.data, sp_vifes(b)),
        None => Seq::empty(),
    }
}
pub open spec fn sp_offset(r: Option<isize>, a: Seq<isize>) -> bool {
    &&& (a.len() == 0 ==> r is None) && (a.len() == 1 ==> r == Some(a[0]))
    &&& (r is Some ==> -3 <= r->Some_0 <= 0)
}

// ---- the number in the data field
pub open spec fn sp_number(c: DataFieldCoding, d: Seq<u8>, rev: bool) -> int {
    match c {
        DataFieldCoding::Integer8Bit => sp_twos(d, 1),
        DataFieldCoding::Integer16Bit => sp_twos(d, 2),
        DataFieldCoding::Integer24Bit => sp_twos(d, 3),
        DataFieldCoding::Integer32Bit => sp_twos(d, 4),
        DataFieldCoding::Integer48Bit => sp_twos(d, 6),
        DataFieldCoding::Integer64Bit => sp_twos(d, 8),
        DataFieldCoding::BCD2Digit => sp_bcd_val(d, 2, rev, 2),
        DataFieldCoding::BCD4Digit => sp_bcd_val(d, 4, rev, 4),
        DataFieldCoding::BCD6Digit => sp_bcd_val(d, 6, rev, 6),
        DataFieldCoding::BCD8Digit => sp_bcd_val(d, 8, rev, 8),
        DataFieldCoding::BCDDigit12 => sp_bcd_val(d, 12, rev, 12),
        _ => sp_var_number(d, rev),
    }
}
pub open spec fn sp_var_number(d: Seq<u8>, rev: bool) -> int {
    let n = sp_var_len(d[0]);
    let c = d.subrange(1, 1 + n);
    if d[0] <= 0xCF { sp_bcd_val(c, 2 * n, rev, 2 * n) }
    else if d[0] <= 0xDF { -sp_bcd_val(c, 2 * n, rev, 2 * n) }
    else { sp_twos(c, n) }
}
// written as an integer
pub open spec fn sp_int_text(t: Seq<char>, n: int) -> bool { sp_itext(t) && sp_lead(sp_mag(t)) && sp_ival(t) == n }

pub open spec fn sp_scale_of(r: DataRecord<'_>) -> int {
    match r.data_record_header.processed_data_record_header.value_information { Some(v) => v.decimal_scale_exponent as int, None => 0 }
}
// the value written for a record read from d
pub open spec fn sp_written(o: ValueOutput, r: DataRecord<'_>, d: Seq<u8>, rev: bool) -> bool {
    let v = d.subrange(sp_header_len(d), d.len() as int);
    let a = sp_adds_of(r);
    sp_is_number(r.data.value) && !(sp_coding_in(r) is Real32Bit) && a.len() <= 1 ==> {
        &&& o.kind@ == "decimal"@
        &&& o.value is Some && o.value->Some_0 is String
        &&& sp_scaled(o.value->Some_0->String_0@, sp_number(sp_coding_in(r), v, rev), sp_scale_of(r), if a.len() == 1 { Some(a[0]) } else { None })
    }
}

// ---- lemmas
pub proof fn lemma_dec(n: int)
    requires n >= 0,
    ensures sp_dig(sp_dec(n)), sp_lead(sp_dec(n)), sp_num(sp_dec(n)) == n, sp_dec(n).len() > 0, n > 0 ==> sp_dec(n)[0] != '0',
    decreases n,
{
    let last = (48 + n % 10) as char;
    assert(last as int == 48 + n % 10);
    if n < 10 {
        assert(sp_dec(n).drop_last() =~= Seq::empty());
        assert(sp_num(Seq::<char>::empty()) == 0);
    } else {
        lemma_dec(n / 10);
        assert(sp_dec(n).drop_last() =~= sp_dec(n / 10));
        assert forall|i: int| 0 <= i < sp_dec(n).len() implies 48 <= (#[trigger] sp_dec(n)[i]) as u32 <= 57 by {
            if i < sp_dec(n / 10).len() { assert(sp_dec(n)[i] == sp_dec(n / 10)[i]); }
        }
        assert(sp_dec(n)[0] == sp_dec(n / 10)[0]);
    }
}
pub proof fn lemma_dec_text(n: int, neg: bool)
    requires n >= 0,
    ensures sp_int_text(if neg { seq!['-'] + sp_dec(n) } else { sp_dec(n) }, if neg { -n } else { n }),
        neg ==> Seq::<char>::empty() + seq!['-'] + sp_dec(n) == seq!['-'] + sp_dec(n),
        Seq::<char>::empty() + sp_dec(n) == sp_dec(n),
        Seq::<char>::empty() + (seq!['-'] + sp_dec(n)) == seq!['-'] + sp_dec(n),
        Seq::<char>::empty() + "-"@ + sp_dec(n) == seq!['-'] + sp_dec(n),
        "-"@ + sp_dec(n) == seq!['-'] + sp_dec(n),
{
    lemma_dec(n);
    lemma_texts();
    let t = seq!['-'] + sp_dec(n);
    assert(t.skip(1) =~= sp_dec(n));
    assert(sp_dec(n)[0] != '-');
    assert(Seq::<char>::empty() + seq!['-'] + sp_dec(n) =~= t);
    assert(Seq::<char>::empty() + sp_dec(n) =~= sp_dec(n));
    assert(Seq::<char>::empty() + t =~= t);
    reveal_strlit("-");
    assert("-"@ =~= seq!['-']);
    assert(Seq::<char>::empty() + "-"@ + sp_dec(n) =~= t);
}
// two digits of one byte
pub open spec fn sp_two_digits(b: u8) -> int { (b / 16) * 10 + b % 16 }
pub proof fn lemma_byte_digits(d: Seq<u8>, n: int, rev: bool, k: int)
    requires 0 <= k < n, n <= d.len(),
    ensures ({
        let b = if rev { d[n - 1 - k] } else { d[k] };
        sp_bcd_val(d, 2 * n, rev, 2 * k + 2) == sp_bcd_val(d, 2 * n, rev, 2 * k) + sp_two_digits(b) * sp_p10(2 * k)
        && sp_p10(2 * k + 2) == 100 * sp_p10(2 * k) && sp_p10(2 * k) >= 1
    }),
{
    lemma_p10_mono(0, 2 * k);
    let b = if rev { d[n - 1 - k] } else { d[k] };
    assert((2 * n - 1 - 2 * k) / 2 == n - 1 - k && (2 * n - 1 - (2 * k + 1)) / 2 == n - 1 - k && (2 * k) / 2 == k && (2 * k + 1) / 2 == k);
    assert((2 * k) % 2 == 0 && (2 * k + 1) % 2 == 1);
    reveal_with_fuel(sp_bcd_val, 3);
    reveal_with_fuel(sp_p10, 3);
    let p = sp_p10(2 * k);
    let l = (b % 16) as int;
    let h = (b / 16) as int;
    assert(sp_digit(d, 2 * n, rev, 2 * k) == l && sp_digit(d, 2 * n, rev, 2 * k + 1) == h);
    assert(l * p + h * (10 * p) == (h * 10 + l) * p) by (nonlinear_arith);
}
pub open spec fn sp_packed(d: Seq<u8>, n: int) -> bool { forall|i: int| 0 <= i < n ==> (#[trigger] d[i]) % 16 <= 9 && d[i] / 16 <= 9 }
pub proof fn lemma_packed(d: Seq<u8>, n: int, rev: bool)
    requires 0 <= n <= d.len(), sp_packed(d, n),
    ensures sp_digits_ok(d, 2 * n, rev),
{
    assert forall|i: int| 0 <= i < 2 * n implies (#[trigger] sp_digit(d, 2 * n, rev, i)) <= 9 by {
        let j = if rev { (2 * n - 1 - i) / 2 } else { i / 2 };
        assert(d[j] % 16 <= 9 && d[j] / 16 <= 9);
    }
}
pub proof fn lemma_unpacked(d: Seq<u8>, n: int, rev: bool)
    requires 0 <= n <= d.len(), sp_digits_ok(d, 2 * n, rev),
    ensures sp_packed(d, n),
{
    assert forall|i: int| 0 <= i < n implies (#[trigger] d[i]) % 16 <= 9 && d[i] / 16 <= 9 by {
        let k = if rev { n - 1 - i } else { i };
        assert(sp_digit(d, 2 * n, rev, 2 * k) <= 9 && sp_digit(d, 2 * n, rev, 2 * k + 1) <= 9);
        assert((2 * n - 1 - 2 * k) / 2 == n - 1 - k && (2 * n - 1 - (2 * k + 1)) / 2 == n - 1 - k && (2 * k) / 2 == k && (2 * k + 1) / 2 == k);
    }
}
// the two readings of the same bytes are equal, or far apart if they exceed what a double holds exactly
pub proof fn lemma_far(d: Seq<u8>, n: int)
    requires 0 <= n <= 9, n <= d.len(), sp_packed(d, n),
    ensures ({
        let f = sp_bcd_val(d, 2 * n, true, 2 * n);
        let l = sp_bcd_val(d, 2 * n, false, 2 * n);
        &&& f == l || f - l > 1000 || l - f > 1000 || (f_int(f) && f_int(l))
        &&& (f == 0 <==> l == 0)
        &&& 0 <= f < 1000000000000000000 && 0 <= l < 1000000000000000000
    }),
{
    lemma_packed(d, n, true);
    lemma_packed(d, n, false);
    lemma_bcd_bound(d, 2 * n, true, 2 * n);
    lemma_bcd_bound(d, 2 * n, false, 2 * n);
    lemma_p10_mono(2 * n, 18);
    reveal_with_fuel(sp_p10, 19);
    lemma_zero(d, n, true, 2 * n);
    lemma_zero(d, n, false, 2 * n);
    if n <= 7 { lemma_p10_mono(2 * n, 14); }
    if n == 8 { lemma_far8(d); }
    if n == 9 { lemma_far9(d); }
    let f = sp_bcd_val(d, 2 * n, true, 2 * n);
    let l = sp_bcd_val(d, 2 * n, false, 2 * n);
    if f == 0 { lemma_zeros(d, n, true, false); }
    if l == 0 { lemma_zeros(d, n, false, true); }
}
pub proof fn lemma_zero(d: Seq<u8>, n: int, rev: bool, k: int)
    requires 0 <= n <= d.len(), 0 <= k <= 2 * n, sp_digits_ok(d, 2 * n, rev),
    ensures sp_bcd_val(d, 2 * n, rev, k) == 0 <==> forall|i: int| 0 <= i < k ==> (#[trigger] sp_digit(d, 2 * n, rev, i)) == 0,
    decreases k,
{
    if k > 0 {
        lemma_zero(d, n, rev, k - 1);
        lemma_bcd_bound(d, 2 * n, rev, k - 1);
        lemma_p10_mono(0, k - 1);
        let g = sp_digit(d, 2 * n, rev, k - 1);
        let p = sp_p10(k - 1);
        assert(g > 0 ==> g * p > 0) by (nonlinear_arith) requires p >= 1;
        assert(g == 0 ==> g * p == 0) by (nonlinear_arith);
    }
}
pub proof fn lemma_zeros(d: Seq<u8>, n: int, rev: bool, rev2: bool)
    requires 0 <= n <= d.len(), sp_packed(d, n), rev2 == !rev, sp_bcd_val(d, 2 * n, rev, 2 * n) == 0,
    ensures sp_bcd_val(d, 2 * n, rev2, 2 * n) == 0,
{
    lemma_packed(d, n, rev);
    lemma_packed(d, n, rev2);
    lemma_zero(d, n, rev, 2 * n);
    lemma_zero(d, n, rev2, 2 * n);
    assert forall|i: int| 0 <= i < 2 * n implies (#[trigger] sp_digit(d, 2 * n, rev2, i)) == 0 by {
        let k = i / 2;
        let j = if i % 2 == 0 { 2 * (n - 1 - k) } else { 2 * (n - 1 - k) + 1 };
        assert(sp_digit(d, 2 * n, rev, j) == 0);
        assert((2 * n - 1 - i) / 2 == n - 1 - k);
        assert((2 * n - 1 - j) / 2 == k && j / 2 == n - 1 - k);
    }
}
pub proof fn lemma_far8(d: Seq<u8>)
    requires 8 <= d.len(), sp_packed(d, 8),
    ensures ({
        let f = sp_bcd_val(d, 16, true, 16);
        let l = sp_bcd_val(d, 16, false, 16);
        f == l || f - l > 1000 || l - f > 1000
    }),
{
    lemma_sum(d, 8, true);
    lemma_sum(d, 8, false);
    lemma_hundreds();
    let b = |i: int| sp_two_digits(d[i]);
    assert forall|i: int| 0 <= i < 8 implies 0 <= #[trigger] b(i) <= 99 by { assert(d[i] % 16 <= 9 && d[i] / 16 <= 9); }
    assert(sp_sum(d, 8, false, 1) == sp_sum(d, 8, false, 0) + b(0) * 1);
    assert(sp_sum(d, 8, false, 2) == sp_sum(d, 8, false, 1) + b(1) * 100);
    assert(sp_sum(d, 8, false, 3) == sp_sum(d, 8, false, 2) + b(2) * 10000);
    assert(sp_sum(d, 8, false, 4) == sp_sum(d, 8, false, 3) + b(3) * 1000000);
    assert(sp_sum(d, 8, false, 5) == sp_sum(d, 8, false, 4) + b(4) * 100000000);
    assert(sp_sum(d, 8, false, 6) == sp_sum(d, 8, false, 5) + b(5) * 10000000000);
    assert(sp_sum(d, 8, false, 7) == sp_sum(d, 8, false, 6) + b(6) * 1000000000000);
    assert(sp_sum(d, 8, false, 8) == sp_sum(d, 8, false, 7) + b(7) * 100000000000000);
    assert(sp_sum(d, 8, false, 8) == b(0) + b(1) * 100 + b(2) * 10000 + b(3) * 1000000 + b(4) * 100000000 + b(5) * 10000000000 + b(6) * 1000000000000 + b(7) * 100000000000000);
    assert(sp_sum(d, 8, true, 1) == sp_sum(d, 8, true, 0) + b(7) * 1);
    assert(sp_sum(d, 8, true, 2) == sp_sum(d, 8, true, 1) + b(6) * 100);
    assert(sp_sum(d, 8, true, 3) == sp_sum(d, 8, true, 2) + b(5) * 10000);
    assert(sp_sum(d, 8, true, 4) == sp_sum(d, 8, true, 3) + b(4) * 1000000);
    assert(sp_sum(d, 8, true, 5) == sp_sum(d, 8, true, 4) + b(3) * 100000000);
    assert(sp_sum(d, 8, true, 6) == sp_sum(d, 8, true, 5) + b(2) * 10000000000);
    assert(sp_sum(d, 8, true, 7) == sp_sum(d, 8, true, 6) + b(1) * 1000000000000);
    assert(sp_sum(d, 8, true, 8) == sp_sum(d, 8, true, 7) + b(0) * 100000000000000);
    assert(sp_sum(d, 8, true, 8) == b(7) + b(6) * 100 + b(5) * 10000 + b(4) * 1000000 + b(3) * 100000000 + b(2) * 10000000000 + b(1) * 1000000000000 + b(0) * 100000000000000);
    lemma_far8_lin(b(0), b(1), b(2), b(3), b(4), b(5), b(6), b(7));
}
pub proof fn lemma_hundreds()
    ensures sp_p10(0) == 1, sp_p10(2) == 100, sp_p10(4) == 10000, sp_p10(6) == 1000000, sp_p10(8) == 100000000, sp_p10(10) == 10000000000,
        sp_p10(12) == 1000000000000, sp_p10(14) == 100000000000000, sp_p10(16) == 10000000000000000,
{
    reveal_with_fuel(sp_p10, 19);
}
pub proof fn lemma_far8_lin(b0: int, b1: int, b2: int, b3: int, b4: int, b5: int, b6: int, b7: int)
    requires 0 <= b0 <= 99, 0 <= b1 <= 99, 0 <= b2 <= 99, 0 <= b3 <= 99, 0 <= b4 <= 99, 0 <= b5 <= 99, 0 <= b6 <= 99, 0 <= b7 <= 99,
    ensures ({
        let l = b0 + b1 * 100 + b2 * 10000 + b3 * 1000000 + b4 * 100000000 + b5 * 10000000000 + b6 * 1000000000000 + b7 * 100000000000000;
        let f = b7 + b6 * 100 + b5 * 10000 + b4 * 1000000 + b3 * 100000000 + b2 * 10000000000 + b1 * 1000000000000 + b0 * 100000000000000;
        f == l || f - l > 1000 || l - f > 1000
    }),
{
    lemma_far_lin(b0 - b7, b1 - b6, b2 - b5, b3 - b4, 99999999999999, 999999999900, 9999990000, 99000000);
}
pub proof fn lemma_far_lin(w: int, x: int, y: int, z: int, p: int, q: int, r: int, s: int)
    requires -99 <= w <= 99, -99 <= x <= 99, -99 <= y <= 99, -99 <= z <= 99,
        p - 99 * (q + r + s) > 1000, q - 99 * (r + s) > 1000, r - 99 * s > 1000, s > 1000, q > 0, r > 0,
    ensures ({ let t = w * p + x * q + y * r + z * s; t == 0 || t > 1000 || t < -1000 }),
{
    assert(-99 * q <= x * q <= 99 * q) by (nonlinear_arith) requires -99 <= x <= 99, q > 0;
    assert(-99 * r <= y * r <= 99 * r) by (nonlinear_arith) requires -99 <= y <= 99, r > 0;
    assert(-99 * s <= z * s <= 99 * s) by (nonlinear_arith) requires -99 <= z <= 99, s > 0;
    assert(w > 0 ==> w * p >= p) by (nonlinear_arith) requires p > 0;
    assert(w < 0 ==> w * p <= -p) by (nonlinear_arith) requires p > 0;
    assert(x > 0 ==> x * q >= q) by (nonlinear_arith) requires q > 0;
    assert(x < 0 ==> x * q <= -q) by (nonlinear_arith) requires q > 0;
    assert(y > 0 ==> y * r >= r) by (nonlinear_arith) requires r > 0;
    assert(y < 0 ==> y * r <= -r) by (nonlinear_arith) requires r > 0;
    assert(z > 0 ==> z * s >= s) by (nonlinear_arith) requires s > 0;
    assert(z < 0 ==> z * s <= -s) by (nonlinear_arith) requires s > 0;
    assert(w == 0 ==> w * p == 0) by (nonlinear_arith);
    assert(x == 0 ==> x * q == 0) by (nonlinear_arith);
    assert(y == 0 ==> y * r == 0) by (nonlinear_arith);
    assert(z == 0 ==> z * s == 0) by (nonlinear_arith);
}
pub proof fn lemma_far9(d: Seq<u8>)
    requires 9 <= d.len(), sp_packed(d, 9),
    ensures ({
        let f = sp_bcd_val(d, 18, true, 18);
        let l = sp_bcd_val(d, 18, false, 18);
        f == l || f - l > 1000 || l - f > 1000
    }),
{
    lemma_sum(d, 9, true);
    lemma_sum(d, 9, false);
    lemma_hundreds();
    let b = |i: int| sp_two_digits(d[i]);
    assert forall|i: int| 0 <= i < 9 implies 0 <= #[trigger] b(i) <= 99 by { assert(d[i] % 16 <= 9 && d[i] / 16 <= 9); }
    assert(sp_sum(d, 9, false, 1) == sp_sum(d, 9, false, 0) + b(0) * 1);
    assert(sp_sum(d, 9, false, 2) == sp_sum(d, 9, false, 1) + b(1) * 100);
    assert(sp_sum(d, 9, false, 3) == sp_sum(d, 9, false, 2) + b(2) * 10000);
    assert(sp_sum(d, 9, false, 4) == sp_sum(d, 9, false, 3) + b(3) * 1000000);
    assert(sp_sum(d, 9, false, 5) == sp_sum(d, 9, false, 4) + b(4) * 100000000);
    assert(sp_sum(d, 9, false, 6) == sp_sum(d, 9, false, 5) + b(5) * 10000000000);
    assert(sp_sum(d, 9, false, 7) == sp_sum(d, 9, false, 6) + b(6) * 1000000000000);
    assert(sp_sum(d, 9, false, 8) == sp_sum(d, 9, false, 7) + b(7) * 100000000000000);
    assert(sp_sum(d, 9, false, 9) == sp_sum(d, 9, false, 8) + b(8) * 10000000000000000);
    assert(sp_sum(d, 9, false, 9) == b(0) + b(1) * 100 + b(2) * 10000 + b(3) * 1000000 + b(4) * 100000000 + b(5) * 10000000000 + b(6) * 1000000000000 + b(7) * 100000000000000 + b(8) * 10000000000000000);
    assert(sp_sum(d, 9, true, 1) == sp_sum(d, 9, true, 0) + b(8) * 1);
    assert(sp_sum(d, 9, true, 2) == sp_sum(d, 9, true, 1) + b(7) * 100);
    assert(sp_sum(d, 9, true, 3) == sp_sum(d, 9, true, 2) + b(6) * 10000);
    assert(sp_sum(d, 9, true, 4) == sp_sum(d, 9, true, 3) + b(5) * 1000000);
    assert(sp_sum(d, 9, true, 5) == sp_sum(d, 9, true, 4) + b(4) * 100000000);
    assert(sp_sum(d, 9, true, 6) == sp_sum(d, 9, true, 5) + b(3) * 10000000000);
    assert(sp_sum(d, 9, true, 7) == sp_sum(d, 9, true, 6) + b(2) * 1000000000000);
    assert(sp_sum(d, 9, true, 8) == sp_sum(d, 9, true, 7) + b(1) * 100000000000000);
    assert(sp_sum(d, 9, true, 9) == sp_sum(d, 9, true, 8) + b(0) * 10000000000000000);
    assert(sp_sum(d, 9, true, 9) == b(8) + b(7) * 100 + b(6) * 10000 + b(5) * 1000000 + b(4) * 100000000 + b(3) * 10000000000 + b(2) * 1000000000000 + b(1) * 100000000000000 + b(0) * 10000000000000000);
    lemma_far_lin(b(0) - b(8), b(1) - b(7), b(2) - b(6), b(3) - b(5), 9999999999999999, 99999999999900, 999999990000, 9999000000);
}
pub open spec fn sp_sum(d: Seq<u8>, n: int, rev: bool, k: int) -> int
    decreases k,
{ if k <= 0 { 0 } else { sp_sum(d, n, rev, k - 1) + sp_two_digits(if rev { d[n - k] } else { d[k - 1] }) * sp_p10(2 * (k - 1)) } }
pub proof fn lemma_sum(d: Seq<u8>, n: int, rev: bool)
    requires 0 <= n <= d.len(),
    ensures sp_bcd_val(d, 2 * n, rev, 2 * n) == sp_sum(d, n, rev, n),
{ lemma_sum_to(d, n, rev, n); }
pub proof fn lemma_sum_to(d: Seq<u8>, n: int, rev: bool, k: int)
    requires 0 <= k <= n <= d.len(),
    ensures sp_bcd_val(d, 2 * n, rev, 2 * k) == sp_sum(d, n, rev, k),
    decreases k,
{
    if k > 0 { lemma_sum_to(d, n, rev, k - 1); lemma_byte_digits(d, n, rev, k - 1); }
}
// only the bytes of the number matter
pub proof fn lemma_twos_same(d: Seq<u8>, e: Seq<u8>, n: int)
    requires 0 <= n <= d.len(), n <= e.len(), forall|i: int| 0 <= i < n ==> #[trigger] d[i] == e[i],
    ensures sp_twos(d, n) == sp_twos(e, n),
{ lemma_le_same(d, e, n); }
pub open spec fn sp_bcd_read(d: Seq<u8>, rev: bool, sign: int) -> int {
    let v = sp_bcd_val(d, 2 * d.len() as int, rev, 2 * d.len() as int);
    if sign == 1 { v } else { -v }
}
// sum of digits read so far (first byte most significant when rev)
pub open spec fn sp_horner(acc: int, d: Seq<u8>, n: int, rev: bool, k: int) -> bool {
    &&& acc * sp_p10(2 * k) + sp_bcd_val(d, 2 * n, rev, 2 * k) == sp_bcd_val(d, 2 * n, rev, 2 * n)
    &&& 0 <= acc < sp_p10(2 * (n - k))
}
pub proof fn lemma_horner(acc: int, d: Seq<u8>, n: int, rev: bool, k: int)
    requires 0 < k <= n <= 9, n <= d.len(), sp_packed(d, n), sp_horner(acc, d, n, rev, k),
    ensures ({
        let b = if rev { d[n - k] } else { d[k - 1] };
        sp_horner(acc * 100 + (b / 16) * 10 + b % 16, d, n, rev, k - 1) && acc * 100 + (b / 16) * 10 + b % 16 < 1000000000000000000 && acc < 10000000000000000
        && b / 16 <= 9 && b % 16 <= 9
    }),
{
    lemma_byte_digits(d, n, rev, k - 1);
    let b = if rev { d[n - k] } else { d[k - 1] };
    assert(b % 16 <= 9 && b / 16 <= 9);
    let p = sp_p10(2 * (k - 1));
    let t = sp_two_digits(b);
    assert(acc * (100 * p) + t * p == (acc * 100 + t) * p) by (nonlinear_arith);
    lemma_p10_mono(2 * (n - k + 1), 18);
    lemma_p10_mono(2 * (n - k), 16);
    reveal_with_fuel(sp_p10, 19);
    let q = sp_p10(2 * (n - k));
    assert(sp_p10(2 * (n - k) + 2) == 100 * q) by { reveal_with_fuel(sp_p10, 3); }
}
// |m| survives the way through a double
pub open spec fn sp_u64_of(f: f64, m: int) -> bool {
    let a = if m < 0 { -m } else { m };
    f_near(a) == a && f == f_of(m)
}
// what the output of a number reads: the bytes after the header
pub open spec fn sp_tail(x: DataRecord<'_>) -> Seq<u8> { x.raw_bytes@.subrange(sp_header_size(x.data_record_header.raw_data_record_header), x.raw_bytes@.len() as int) }
pub open spec fn sp_fixed_len(c: DataFieldCoding) -> int {
    match c {
        DataFieldCoding::Integer8Bit | DataFieldCoding::BCD2Digit => 1,
        DataFieldCoding::Integer16Bit | DataFieldCoding::BCD4Digit => 2,
        DataFieldCoding::Integer24Bit | DataFieldCoding::BCD6Digit => 3,
        DataFieldCoding::Integer32Bit | DataFieldCoding::BCD8Digit => 4,
        DataFieldCoding::Integer48Bit | DataFieldCoding::BCDDigit12 => 6,
        DataFieldCoding::Integer64Bit => 8,
        _ => 0,
    }
}
pub open spec fn sp_is_int(c: DataFieldCoding) -> bool {
    c is Integer8Bit || c is Integer16Bit || c is Integer24Bit || c is Integer32Bit || c is Integer48Bit || c is Integer64Bit
}
pub open spec fn sp_tail_ok(x: DataRecord<'_>, d: Seq<u8>, rev: bool, parsed: f64) -> bool {
    let c = sp_coding_in(x);
    let t = sp_tail(x);
    let n = sp_number(c, d.subrange(sp_header_len(d), d.len() as int), rev);
    &&& sp_header_size(x.data_record_header.raw_data_record_header) == sp_header_len(d)
    &&& sp_exts(x.data_record_header.raw_data_record_header.data_information_block.data_information_field_extension).len() <= 11
    &&& 1 <= sp_header_len(d) <= x.raw_bytes@.len() && t.len() == x.data.size
    &&& !(c is Real32Bit) ==> n == sp_number(c, t, rev)
    &&& sp_numeric(c) && (if c is VariableLength {
            &&& t.len() >= 1 && 0xC0 <= t[0] && sp_var_ok(t[0]) && t.len() == 1 + sp_var_len(t[0])
            &&& t[0] <= 0xDF ==> sp_packed(t.subrange(1, t.len() as int), t.len() - 1)
            &&& t[0] <= 0xDF && n != 0 ==> sp_about(parsed, n)
            &&& t[0] == 0xE0 ==> n == 0 && parsed == f_of(0)
        } else if c is Real32Bit { true } else {
            &&& t.len() == sp_fixed_len(c)
            &&& parsed == f_of(n)
            &&& sp_is_int(c) ==> n == sp_twos(t, t.len() as int)
            &&& !sp_is_int(c) ==> 0 <= n < 1000000000000 && f_int(n)
        })
}
#[verifier::spinoff_prover]
#[verifier::rlimit(60)]
pub proof fn lemma_fed(x: DataRecord<'_>, d: Seq<u8>, rev: bool, parsed: f64)
    requires sp_fed(x, d, rev), x.data.value == Some(DataType::Number(parsed)) || x.data.value == Some(DataType::LossyNumber(parsed)),
    ensures sp_tail_ok(x, d, rev, parsed),
{
    let c = sp_coding_in(x);
    let t = sp_tail(x);
    let h = sp_header_len(d);
    let v = d.subrange(h, d.len() as int);
    lemma_header_size(x.data_record_header.raw_data_record_header, d);
    assert(t =~= v.subrange(0, x.data.size as int));
    if c is VariableLength {
        let n = sp_var_len(v[0]);
        assert(t[0] == v[0]);
        assert(t.subrange(1, 1 + n) =~= v.subrange(1, 1 + n));
        assert(t.subrange(1, t.len() as int) =~= t.subrange(1, 1 + n));
        if v[0] <= 0xDF { lemma_unpacked(v.subrange(1, 1 + n), n, rev); }
        assert(-1 * sp_bcd_val(v.subrange(1, 1 + n), 2 * n, rev, 2 * n) == -sp_bcd_val(v.subrange(1, 1 + n), 2 * n, rev, 2 * n));
        assert(1 * sp_bcd_val(v.subrange(1, 1 + n), 2 * n, rev, 2 * n) == sp_bcd_val(v.subrange(1, 1 + n), 2 * n, rev, 2 * n));
    } else if !(c is Real32Bit) {
        let n = sp_fixed_len(c);
        lemma_le_same(v, t, n);
        lemma_bcd_same(v, t, 2 * n, rev, 2 * n);
        if !sp_is_int(c) {
            assert(sp_digits_ok(v, 2 * n, rev));
            lemma_bcd_bound(v, 2 * n, rev, 2 * n);
            lemma_p10_mono(2 * n, 12);
            lemma_hundreds();
            assert(1 * sp_bcd_val(v, 2 * n, rev, 2 * n) == sp_bcd_val(v, 2 * n, rev, 2 * n));
        }
    }
}
pub proof fn lemma_bcd_same(d: Seq<u8>, e: Seq<u8>, n: int, rev: bool, k: int)
    requires 0 <= k <= n, n % 2 == 0, n / 2 <= d.len(), n / 2 <= e.len(), forall|i: int| 0 <= i < n / 2 ==> #[trigger] d[i] == e[i],
    ensures sp_bcd_val(d, n, rev, k) == sp_bcd_val(e, n, rev, k),
    decreases k,
{
    if k > 0 {
        lemma_bcd_same(d, e, n, rev, k - 1);
        let j = if rev { (n - 1 - (k - 1)) / 2 } else { (k - 1) / 2 };
        assert(d[j] == e[j]);
    }
}
pub proof fn lemma_fed_all(x: DataRecord<'_>, parsed: f64)
    requires x.data.value == Some(DataType::Number(parsed)) || x.data.value == Some(DataType::LossyNumber(parsed)),
    ensures forall|d: Seq<u8>, rev: bool| #[trigger] sp_fed(x, d, rev) ==> sp_tail_ok(x, d, rev, parsed),
{
    assert forall|d: Seq<u8>, rev: bool| #[trigger] sp_fed(x, d, rev) implies sp_tail_ok(x, d, rev, parsed) by {
        lemma_fed(x, d, rev, parsed);
    }
}

// ---- all records of a payload
pub open spec fn sp_listed(out: Seq<RecordOutput>, recs: Seq<DataRecord<'_>>, d: Seq<u8>, o: int, rev: bool) -> bool {
    &&& out.len() == recs.len()
    &&& forall|i: int| 0 <= i < recs.len() ==> #[trigger] sp_item(out[i].value, recs[i], d.subrange(sp_at(recs, d, o, i), d.len() as int), rev)
}
pub open spec fn sp_outputs(out: Seq<RecordOutput>, d: Seq<u8>, o: int, rev: bool, whole: bool) -> bool {
    exists|recs: Seq<DataRecord<'_>>| sp_listed(out, recs, d, o, rev) && (whole ==> #[trigger] sp_at(recs, d, o, recs.len() as int) == d.len())
}
#[verifier::opaque]
pub open spec fn sp_item(v: ValueOutput, x: DataRecord<'_>, d: Seq<u8>, rev: bool) -> bool { sp_fed(x, d, rev) && sp_written(v, x, d, rev) }
pub proof fn lemma_listed_push(out: Seq<RecordOutput>, recs: Seq<DataRecord<'_>>, v: RecordOutput, x: DataRecord<'_>, d: Seq<u8>, o: int, rev: bool)
    requires sp_listed(out, recs, d, o, rev),
        sp_fed(x, d.subrange(sp_at(recs, d, o, recs.len() as int), d.len() as int), rev),
        sp_written(v.value, x, d.subrange(sp_at(recs, d, o, recs.len() as int), d.len() as int), rev),
    ensures sp_listed(out.push(v), recs.push(x), d, o, rev),
{
    hide(sp_fed); hide(sp_written);
    reveal(sp_item);
    lemma_at_push(recs, x, d, o);
    let a = out.push(v);
    let b = recs.push(x);
    assert forall|i: int| 0 <= i < b.len() implies #[trigger] sp_item(a[i].value, b[i], d.subrange(sp_at(b, d, o, i), d.len() as int), rev) by {
        if i < recs.len() { assert(sp_item(out[i].value, recs[i], d.subrange(sp_at(recs, d, o, i), d.len() as int), rev)); }
    }
}
