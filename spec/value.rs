//@need m_bus_application_layer::LongTplHeader
//@need m_bus_application_layer::data_information::Data
//@need m_bus_application_layer::data_information::DataType
//@need m_bus_application_layer::data_information::DataFieldCoding
//@need m_bus_application_layer::data_information::Month
//@need m_bus_application_layer::data_information::SingleEveryOrInvalid
//@need m_bus_application_layer::variable_user_data::DataRecordError
use crate::m_bus_application_layer::data_information::*;
use crate::m_bus_application_layer::variable_user_data::DataRecordError;
use crate::m_bus_application_layer::LongTplHeader;

pub open spec fn sp_lsb(h: Option<&LongTplHeader>) -> bool {
    match h { Some(x) => x.lsb_order, None => false }
}

// ---- integers
pub open spec fn sp_p256(n: int) -> int
    decreases n,
{ if n <= 0 { 1 } else { 256 * sp_p256(n - 1) } }
pub open spec fn sp_le_n(d: Seq<u8>, n: int) -> int
    decreases n,
{ if n <= 0 { 0 } else { sp_le_n(d, n - 1) + d[n - 1] as int * sp_p256(n - 1) } }
pub open spec fn sp_twos(d: Seq<u8>, n: int) -> int {
    if n > 0 && d[n - 1] >= 128 { sp_le_n(d, n) - sp_p256(n) } else { sp_le_n(d, n) }
}
pub proof fn lemma_le(d: Seq<u8>, n: int)
    requires 0 <= n <= d.len(),
    ensures 0 <= sp_le_n(d, n) < sp_p256(n), n > 0 ==> (d[n - 1] >= 128 <==> 2 * sp_le_n(d, n) >= sp_p256(n)),
    decreases n,
{
    if n > 0 {
        lemma_le(d, n - 1);
        let b = d[n - 1] as int;
        let p = sp_p256(n - 1);
        assert(b * p + p <= 256 * p) by (nonlinear_arith) requires b <= 255, p > 0;
        assert(b * p >= 0) by (nonlinear_arith) requires b >= 0, p > 0;
        if b >= 128 {
            assert(2 * (b * p) >= 256 * p) by (nonlinear_arith) requires b >= 128, p > 0;
        } else {
            assert(2 * (b * p) + 2 * p <= 256 * p) by (nonlinear_arith) requires b <= 127, p > 0;
        }
    }
}
pub proof fn lemma_p256()
    ensures
        sp_p256(0) == 1, sp_p256(1) == 0x100, sp_p256(2) == 0x10000, sp_p256(3) == 0x1000000, sp_p256(4) == 0x100000000,
        sp_p256(5) == 0x10000000000, sp_p256(6) == 0x1000000000000, sp_p256(7) == 0x100000000000000, sp_p256(8) == 0x10000000000000000,
{
    reveal_with_fuel(sp_p256, 9);
}
pub proof fn lemma_shl(b: u64, k: u32)
    requires b < 256, k <= 7,
    ensures (b << ((8 * k) as u32)) == b * sp_p256(k as int), (1u64 << ((8 * k) as u32)) == sp_p256(k as int),
{
    lemma_p256();
    assert(k == 0 ==> (b << mul(8u32, k)) == b && 1u64 << mul(8u32, k) == 1) by (bit_vector) requires b < 256;
    assert(k == 1 ==> (b << mul(8u32, k)) == mul(b, 0x100) && 1u64 << mul(8u32, k) == 0x100) by (bit_vector) requires b < 256;
    assert(k == 2 ==> (b << mul(8u32, k)) == mul(b, 0x10000) && 1u64 << mul(8u32, k) == 0x10000) by (bit_vector) requires b < 256;
    assert(k == 3 ==> (b << mul(8u32, k)) == mul(b, 0x1000000) && 1u64 << mul(8u32, k) == 0x1000000) by (bit_vector) requires b < 256;
    assert(k == 4 ==> (b << mul(8u32, k)) == mul(b, 0x100000000) && 1u64 << mul(8u32, k) == 0x100000000) by (bit_vector) requires b < 256;
    assert(k == 5 ==> (b << mul(8u32, k)) == mul(b, 0x10000000000) && 1u64 << mul(8u32, k) == 0x10000000000) by (bit_vector) requires b < 256;
    assert(k == 6 ==> (b << mul(8u32, k)) == mul(b, 0x1000000000000) && 1u64 << mul(8u32, k) == 0x1000000000000) by (bit_vector) requires b < 256;
    assert(k == 7 ==> (b << mul(8u32, k)) == mul(b, 0x100000000000000) && 1u64 << mul(8u32, k) == 0x100000000000000) by (bit_vector) requires b < 256;
}
// one more byte of an integer
pub proof fn lemma_int_step(v: i64, b: u8, d: Seq<u8>, k: u32)
    requires k <= 7, k < d.len(), b == d[k as int], (v as u64) == sp_le_n(d, k as int),
    ensures ((v | ((b as i64) << ((8 * k) as u32))) as u64) == sp_le_n(d, k + 1),
{
    lemma_le(d, k as int);
    lemma_le(d, k + 1);
    lemma_shl(b as u64, k);
    lemma_p256();
    let s = (8 * k) as u32;
    assert((v | ((b as i64) << s)) as u64 == add(v as u64, (b as u64) << s)) by (bit_vector)
        requires s <= 56, (v as u64) < (1u64 << s);
}
// interpretation of the collected bits
pub proof fn lemma_int_sign(v: i64, d: Seq<u8>, k: u32)
    requires k <= 8, k <= d.len(), (v as u64) == sp_le_n(d, k as int),
    ensures
        k == 8 ==> v == sp_twos(d, 8),
        k == 0 ==> v == 0,
        0 < k < 8 ==> ((v >> ((8 * k - 1) as u32)) & 1 == 1 <==> d[k - 1] >= 128),
        k < 8 ==> 0 <= v < sp_p256(k as int) && sp_p256(k as int) <= 0x100000000000000,
        0 < k < 8 ==> (v ^ ((sp_p256(k as int) - 1) as i64)) == sp_p256(k as int) - 1 - v,
{
    lemma_le(d, k as int);
    lemma_p256();
    if k < 8 {
        assert(v as u64 <= 0x7fffffffffffffff ==> v >= 0) by (bit_vector);
    } else {
        assert(v as u64 >= 0x8000000000000000u64 ==> v < 0) by (bit_vector);
        assert((v as u64) < 0x8000000000000000u64 ==> v >= 0) by (bit_vector);
        if v < 0 {
            let t = (-(v + 1)) as i64;
            assert((v as u64) == sub(0xffffffffffffffffu64, t as u64)) by (bit_vector) requires t == sub(-1i64, v), v < 0;
            assert(t >= 0);
        }
    }
    if 0 < k < 8 {
        let s = (8 * k - 1) as u32;
        lemma_shl(1, k);
        let m = sp_p256(k as int) as i64;
        assert(((v >> s) & 1 == 1) <==> v as u64 >= (1u64 << s)) by (bit_vector) requires s <= 55, (v as u64) < (1u64 << add(s, 1));
        assert((1u64 << s) == (1u64 << add(s, 1)) / 2) by (bit_vector) requires s <= 55;
        assert(v ^ sub(m, 1) == sub(sub(m, 1), v)) by (bit_vector)
            requires 0 <= v < m, m == 0x100 || m == 0x10000 || m == 0x1000000 || m == 0x100000000 || m == 0x10000000000 || m == 0x1000000000000 || m == 0x100000000000000;
    }
}
pub proof fn lemma_pow2(k: u32)
    requires k <= 7,
    ensures sp_pow(2, (8 * k) as nat) == sp_p256(k as int),
{
    lemma_p256();
    reveal_with_fuel(sp_pow, 58);
}

pub open spec fn sp_int_case(r: Result<Data<'_>, DataRecordError>, d: Seq<u8>, n: int) -> bool {
    if d.len() < n { r is Err } else {
        r is Ok && r->Ok_0.size == n && r->Ok_0.value == Some(DataType::Number(f_of(sp_twos(d, n))))
    }
}

// ---- BCD
pub open spec fn sp_p10(n: int) -> int
    decreases n,
{ if n <= 0 { 1 } else { 10 * sp_p10(n - 1) } }
// digit i of an n-digit number, least significant first
pub open spec fn sp_digit(d: Seq<u8>, n: int, rev: bool, i: int) -> int {
    let b = if rev { d[(n - 1 - i) / 2] } else { d[i / 2] };
    if i % 2 == 0 { (b % 16) as int } else { (b / 16) as int }
}
pub open spec fn sp_bcd_val(d: Seq<u8>, n: int, rev: bool, k: int) -> int
    decreases k,
{ if k <= 0 { 0 } else { sp_bcd_val(d, n, rev, k - 1) + sp_digit(d, n, rev, k - 1) * sp_p10(k - 1) } }
pub open spec fn sp_digits_ok(d: Seq<u8>, n: int, rev: bool) -> bool {
    forall|i: int| 0 <= i < n ==> (#[trigger] sp_digit(d, n, rev, i)) <= 9
}
pub proof fn lemma_p10()
    ensures sp_p10(0) == 1, sp_p10(15) == 1000000000000000, sp_p10(16) == 10000000000000000,
{
    reveal_with_fuel(sp_p10, 17);
}
pub proof fn lemma_p10_mono(a: int, b: int)
    requires 0 <= a <= b,
    ensures 1 <= sp_p10(a) <= sp_p10(b),
    decreases b,
{
    if a < b { lemma_p10_mono(a, b - 1); } else if a > 0 { lemma_p10_mono(a - 1, a - 1); }
}
pub proof fn lemma_bcd_bound(d: Seq<u8>, n: int, rev: bool, k: int)
    requires 0 <= k <= n, forall|i: int| 0 <= i < k ==> (#[trigger] sp_digit(d, n, rev, i)) <= 9,
    ensures 0 <= sp_bcd_val(d, n, rev, k) < sp_p10(k),
    decreases k,
{
    if k > 0 {
        lemma_bcd_bound(d, n, rev, k - 1);
        lemma_p10_mono(0, k - 1);
        let g = sp_digit(d, n, rev, k - 1);
        let p = sp_p10(k - 1);
        assert(0 <= g * p <= 9 * p) by (nonlinear_arith) requires 0 <= g <= 9, p >= 1;
    }
}
// one more digit (up to 16 digits every step is exact or correctly rounded)
pub proof fn lemma_bcd_step(d: Seq<u8>, n: int, rev: bool, k: int)
    requires 0 <= k < n, k < 16, forall|i: int| 0 <= i <= k ==> (#[trigger] sp_digit(d, n, rev, i)) <= 9,
    ensures
        f_int(sp_bcd_val(d, n, rev, k)), f_int(sp_p10(k)), f_int(sp_digit(d, n, rev, k)), f_int(10),
        f_int(sp_digit(d, n, rev, k) * sp_p10(k)), 0 <= sp_digit(d, n, rev, k), sp_p10(k) >= 1,
        sp_p10(k) * 10 == sp_p10(k + 1),
        sp_bcd_val(d, n, rev, k) + sp_digit(d, n, rev, k) * sp_p10(k) == sp_bcd_val(d, n, rev, k + 1),
{
    lemma_p10();
    lemma_bcd_bound(d, n, rev, k);
    lemma_p10_mono(0, k);
    lemma_p10_mono(k, 15);
    let g = sp_digit(d, n, rev, k);
    let p = sp_p10(k);
    assert(0 <= g * p <= 9 * p) by (nonlinear_arith) requires 0 <= g <= 9, p >= 1;
}
pub open spec fn sp_bcd_case(r: Result<Data<'_>, DataRecordError>, d: Seq<u8>, n: int, rev: bool, sign: int) -> bool {
    if d.len() < (n + 1) / 2 || !sp_digits_ok(d, n, rev) { r is Err } else {
        &&& r is Ok && r->Ok_0.size == (n + 1) / 2
        &&& r->Ok_0.value is Some && r->Ok_0.value->Some_0 is Number
        &&& n <= 16 && (sign == 1 || sp_bcd_val(d, n, rev, n) != 0) ==> r->Ok_0.value == Some(DataType::Number(f_of(sign * sp_bcd_val(d, n, rev, n))))
    }
}

pub open spec fn sp_real_case(r: Result<Data<'_>, DataRecordError>, d: Seq<u8>) -> bool {
    if d.len() < 4 { r is Err } else {
        r is Ok && r->Ok_0.size == 4 && r->Ok_0.value == Some(DataType::Number(f_of_f32(f32_of(d.subrange(0, 4)))))
    }
}

// ---- fixed-width fields (P09)
pub open spec fn sp_fixed(c: DataFieldCoding, d: Seq<u8>, rev: bool, r: Result<Data<'_>, DataRecordError>) -> bool {
    match c {
        DataFieldCoding::Integer8Bit => sp_int_case(r, d, 1),
        DataFieldCoding::Integer16Bit => sp_int_case(r, d, 2),
        DataFieldCoding::Integer24Bit => sp_int_case(r, d, 3),
        DataFieldCoding::Integer32Bit => sp_int_case(r, d, 4),
        DataFieldCoding::Integer48Bit => sp_int_case(r, d, 6),
        DataFieldCoding::Integer64Bit => sp_int_case(r, d, 8),
        DataFieldCoding::Real32Bit => sp_real_case(r, d),
        DataFieldCoding::BCD2Digit => sp_bcd_case(r, d, 2, rev, 1),
        DataFieldCoding::BCD4Digit => sp_bcd_case(r, d, 4, rev, 1),
        DataFieldCoding::BCD6Digit => sp_bcd_case(r, d, 6, rev, 1),
        DataFieldCoding::BCD8Digit => sp_bcd_case(r, d, 8, rev, 1),
        DataFieldCoding::BCDDigit12 => sp_bcd_case(r, d, 12, rev, 1),
        _ => true,
    }
}

// ---- variable-length fields (P10)
pub open spec fn sp_var_ok(l: u8) -> bool { l <= 0xC9 || 0xD0 <= l <= 0xD9 || 0xE0 <= l <= 0xF6 }
// bytes announced by the length byte
pub open spec fn sp_var_len(l: u8) -> int {
    if l <= 0xBF { l as int }
    else if l <= 0xCF { l - 0xC0 }
    else if l <= 0xDF { l - 0xD0 }
    else if l <= 0xEF { l - 0xE0 }
    else if l <= 0xF4 { 4 * (l - 0xEC) }
    else if l == 0xF5 { 48 }
    else { 64 }
}
pub open spec fn sp_plus1(q: Result<Data<'_>, DataRecordError>) -> Result<Data<'_>, DataRecordError> {
    match q { Ok(d) => Ok(Data { value: d.value, size: (d.size - 1) as usize }), Err(e) => Err(e) }
}
pub open spec fn sp_var(d: Seq<u8>, rev: bool, r: Result<Data<'_>, DataRecordError>) -> bool {
    if d.len() == 0 || !sp_var_ok(d[0]) || d.len() < 1 + sp_var_len(d[0]) { r is Err } else {
        let l = d[0];
        let n = sp_var_len(l);
        let c = d.subrange(1, 1 + n);
        if l <= 0xBF {
            r is Ok && r->Ok_0.size == n + 1 && r->Ok_0.value is Some && r->Ok_0.value->Some_0 is Text && r->Ok_0.value->Some_0->Text_0.0@ =~= c
        } else if l <= 0xDF {
            (r is Ok ==> r->Ok_0.size == n + 1) && sp_bcd_case(sp_plus1(r), c, 2 * n, rev, if l <= 0xCF { 1 } else { -1 })
        } else {
            r is Ok && r->Ok_0.size == n + 1 && r->Ok_0.value is Some
                && (if n > 8 { r->Ok_0.value->Some_0 is LossyNumber } else { r->Ok_0.value->Some_0 == DataType::Number(f_of(sp_twos(c, n))) })
        }
    }
}

// ---- dates and times (P11)
pub open spec fn sp_minute(b: u8) -> SingleEveryOrInvalid<u8> {
    if b % 64 == 63 { SingleEveryOrInvalid::Every() } else { SingleEveryOrInvalid::Single(b % 64) }
}
pub open spec fn sp_hour(b: u8) -> SingleEveryOrInvalid<u8> {
    if b % 32 == 31 { SingleEveryOrInvalid::Every() } else { SingleEveryOrInvalid::Single(b % 32) }
}
pub open spec fn sp_day(b: u8) -> SingleEveryOrInvalid<u8> {
    if b % 32 == 0 { SingleEveryOrInvalid::Every() } else { SingleEveryOrInvalid::Single(b % 32) }
}
pub open spec fn sp_month(b: u8) -> SingleEveryOrInvalid<Month> {
    let m = b % 16;
    if m == 1 { SingleEveryOrInvalid::Single(Month::January) }
    else if m == 2 { SingleEveryOrInvalid::Single(Month::February) }
    else if m == 3 { SingleEveryOrInvalid::Single(Month::March) }
    else if m == 4 { SingleEveryOrInvalid::Single(Month::April) }
    else if m == 5 { SingleEveryOrInvalid::Single(Month::May) }
    else if m == 6 { SingleEveryOrInvalid::Single(Month::June) }
    else if m == 7 { SingleEveryOrInvalid::Single(Month::July) }
    else if m == 8 { SingleEveryOrInvalid::Single(Month::August) }
    else if m == 9 { SingleEveryOrInvalid::Single(Month::September) }
    else if m == 10 { SingleEveryOrInvalid::Single(Month::October) }
    else if m == 11 { SingleEveryOrInvalid::Single(Month::November) }
    else if m == 12 { SingleEveryOrInvalid::Single(Month::December) }
    else if m == 15 { SingleEveryOrInvalid::Every() }
    else { SingleEveryOrInvalid::Invalid() }
}
// three bits beside the day, four beside the month
pub open spec fn sp_year(day: u8, month: u8) -> SingleEveryOrInvalid<u16> {
    let y = (day / 32 + 8 * (month / 16)) as u16;
    if y == 127 { SingleEveryOrInvalid::Every() } else { SingleEveryOrInvalid::Single(y) }
}
pub open spec fn sp_date(c: DataFieldCoding, d: Seq<u8>, r: Result<Data<'_>, DataRecordError>) -> bool {
    match c {
        DataFieldCoding::DateTypeG => if d.len() < 2 { r is Err } else {
            r is Ok && r->Ok_0.size == 2 && r->Ok_0.value == Some(DataType::Date(sp_day(d[0]), sp_month(d[1]), sp_year(d[0], d[1])))
        },
        DataFieldCoding::DateTimeTypeF => if d.len() < 4 { r is Err } else {
            r is Ok && r->Ok_0.size == 4
                && r->Ok_0.value == Some(DataType::DateTime(sp_day(d[2]), sp_month(d[3]), sp_year(d[2], d[3]), sp_hour(d[1]), sp_minute(d[0])))
        },
        DataFieldCoding::DateTimeTypeJ => if d.len() < 3 { r is Err } else {
            r is Ok && r->Ok_0.size == 3 && r->Ok_0.value == Some(DataType::Time(sp_minute(d[0]), sp_minute(d[1]), sp_hour(d[2])))
        },
        DataFieldCoding::DateTimeTypeI => if d.len() < 6 { r is Err } else {
            r is Ok && r->Ok_0.size == 6
                && r->Ok_0.value == Some(DataType::DateTimeWithSeconds(sp_day(d[3]), sp_month(d[4]), sp_year(d[3], d[4]), sp_hour(d[2]), sp_minute(d[1]), sp_minute(d[0])))
        },
        _ => true,
    }
}
