// ---- unit, factor and quantity of a value information field (XML output)
// ten to the power k
pub uninterp spec fn f_pow(x: f64, k: int) -> f64;
pub trait VPowi { spec fn sp_base(&self) -> f64; fn v_powi(self, k: i32) -> (r: f64) where Self: Sized ensures r == f_pow(self.sp_base(), k as int); }
impl VPowi for f64 {
    open spec fn sp_base(&self) -> f64 { *self }
    #[verifier::external_body]
    fn v_powi(self, k: i32) -> (r: f64) { self.powi(k) }
}
pub trait VClone: Sized { spec fn sp_same(&self, r: Self) -> bool; fn v_clone(&self) -> (r: Self) ensures self.sp_same(r); }
impl VClone for Option<String> {
    open spec fn sp_same(&self, r: Self) -> bool { match *self { Some(x) => r is Some && r->Some_0@ == x@, None => r is None } }
    fn v_clone(&self) -> (r: Self) { match self { Some(x) => Some(x.clone()), None => None } }
}
impl VOrDefault<String> for Option<String> {
    open spec fn sp_or(self, r: String) -> bool { match self { Some(x) => r == x, None => r@ == Seq::<char>::empty() } }
    fn v_or_default(self) -> (r: String) { match self { Some(x) => x, None => v_new() } }
}
pub fn v_i32_from(x: u8) -> (r: i32)
    ensures r == x,
{ x as i32 }
// two hexadecimal digits in small letters
pub open spec fn sp_lowdigit(n: int) -> char { if n < 10 { (48 + n) as char } else { (87 + n) as char } }
pub trait VHexLow { spec fn sp_low(&self) -> Seq<char>; fn v_hexlow(&self, t: &mut String) ensures final(t)@ == old(t)@ + self.sp_low(); }
impl VHexLow for u8 {
    open spec fn sp_low(&self) -> Seq<char> { seq![sp_lowdigit(*self as int / 16), sp_lowdigit(*self as int % 16)] }
    #[verifier::external_body]
    fn v_hexlow(&self, t: &mut String) { t.push_str(&format!("{self:02x}")) }
}
// reading a decimal number
pub trait VParse { fn v_parse(&self) -> Result<u64, ()>; }
impl VParse for String {
    #[verifier::external_body]
    fn v_parse(&self) -> (r: Result<u64, ()>)
        ensures forall|n: int, w: int| 0 <= n <= u64::MAX && self@ == #[trigger] sp_padded(n, w) ==> r == Ok::<u64, ()>(n as u64),
    { self.parse().map_err(|_| ()) }
}
impl VOrDefault<u64> for Result<u64, ()> {
    open spec fn sp_or(self, r: u64) -> bool { match self { Ok(x) => r == x, Err(_) => r == 0 } }
    fn v_or_default(self) -> (r: u64) { match self { Ok(x) => x, Err(_) => 0 } }
}
