// Assumed facts about IEEE-754 double arithmetic (round to nearest).
// f_of(n) is the double nearest to the integer n; integers up to 2^53 are represented exactly,
// so sums and products of such doubles are the correctly rounded sums and products.
// A product of value 0 is +0 only when the factors have the same sign.
pub uninterp spec fn f_of(n: int) -> f64;
pub uninterp spec fn f_of_f32(x: f32) -> f64;
pub uninterp spec fn f32_of(b: Seq<u8>) -> f32;
pub open spec fn f_int(n: int) -> bool { -9007199254740992 <= n <= 9007199254740992 }
// n is a double
pub uninterp spec fn f_rep(n: int) -> bool;
pub open spec fn f_ok(n: int) -> bool { f_int(n) || f_rep(n) }

// the rounded sum and product of two doubles
pub uninterp spec fn f_sum(a: f64, b: f64) -> f64;
pub uninterp spec fn f_prod(a: f64, b: f64) -> f64;
// the double nearest to m / 10^e
pub uninterp spec fn f_frac(m: int, e: int) -> f64;
#[verifier::external_body]
pub fn f_dec(m: i64, e: u32) -> (r: f64)
    ensures r == f_frac(m as int, e as int),
{ format!("{m}e-{e}").parse().unwrap() }

#[verifier::external_body]
pub fn f_lit(n: i64) -> (r: f64)
    ensures r == f_of(n as int),
{ n as f64 }
#[verifier::external_body]
pub fn f_add(a: f64, b: f64) -> (r: f64)
    ensures forall|x: int, y: int| a == #[trigger] f_of(x) && b == #[trigger] f_of(y) && f_ok(x) && f_ok(y) ==> r == f_of(x + y),
        r == f_sum(a, b), r == f_sum(b, a),
{ a + b }
#[verifier::external_body]
pub fn f_sub(a: f64, b: f64) -> (r: f64)
    ensures forall|x: int, y: int| a == #[trigger] f_of(x) && b == #[trigger] f_of(y) && f_ok(x) && f_ok(y) ==> r == f_of(x - y),
{ a - b }
#[verifier::external_body]
pub fn f_mul(a: f64, b: f64) -> (r: f64)
    ensures forall|x: int, y: int| a == #[trigger] f_of(x) && b == #[trigger] f_of(y) && f_ok(x) && f_ok(y) && (x * y != 0 || (x >= 0 && y >= 0)) ==> r == f_of(x * y),
        r == f_prod(a, b), r == f_prod(b, a),
        // a factor of one or minus one is exact
        forall|x: int| a == #[trigger] f_of(x) && b == f_of(1) ==> r == f_of(x),
        forall|x: int| a == #[trigger] f_of(x) && b == f_of(-1) && x != 0 ==> r == f_of(-x),
{ a * b }
#[verifier::external_body]
pub fn f_div(a: f64, b: f64) -> (r: f64)
{ a / b }
pub trait VF64 { 
    spec fn sp_f64(&self) -> f64;
    fn v_f64(self) -> (r: f64) where Self: Sized ensures r == self.sp_f64();
}
macro_rules! vf64 { ($($t:ty)*) => { verus!{ $(impl VF64 for $t {
    open spec fn sp_f64(&self) -> f64 { f_of(*self as int) }
    #[verifier::external_body]
    fn v_f64(self) -> (r: f64) { self as f64 }
})* } } }
vf64!{ u8 u16 u32 u64 i8 i16 i32 i64 usize }
impl VF64 for f32 {
    open spec fn sp_f64(&self) -> f64 { f_of_f32(*self) }
    #[verifier::external_body]
    fn v_f64(self) -> (r: f64) { self as f64 }
}
#[verifier::external_body]
pub fn f32_from_le_bytes(b: [u8; 4]) -> (r: f32)
    ensures r == f32_of(b@),
{ f32::from_le_bytes(b) }
