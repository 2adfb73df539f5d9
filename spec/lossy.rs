// the text made of bytes, invalid parts replaced
pub uninterp spec fn sp_lossy(b: Seq<u8>) -> Seq<char>;
#[verifier::external_body]
pub struct VLossy { }
impl VLossy {
    pub uninterp spec fn view(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn v_into_owned(self) -> (r: String)
        ensures r@ == self@,
    { unimplemented!() }
}
#[verifier::external_body]
pub fn v_from_utf8_lossy(b: &Vec<u8>) -> (r: VLossy)
    ensures r@ == sp_lossy(b@),
{ unimplemented!() }
pub trait VShl { spec fn sp_int(&self) -> int; fn v_wrapping_shl(self, n: u32) -> (r: i64) where Self: Sized
    ensures n == 8 && 0 <= self.sp_int() < 0x80000000000000 ==> r == 256 * self.sp_int(); }
impl VShl for i64 {
    open spec fn sp_int(&self) -> int { *self as int }
    fn v_wrapping_shl(self, n: u32) -> (r: i64) {
        if n == 8 && self >= 0 && self < 0x80000000000000 { self * 256 } else { v_shl_other(self, n) }
    }
}
#[verifier::external_body]
pub fn v_shl_other(x: i64, n: u32) -> i64 { x.wrapping_shl(n) }
pub trait VOrDefault<T> { spec fn sp_or(self, r: T) -> bool where Self: Sized; fn v_or_default(self) -> (r: T) where Self: Sized ensures self.sp_or(r); }
impl VOrDefault<Vec<u8>> for Option<Vec<u8>> {
    open spec fn sp_or(self, r: Vec<u8>) -> bool { match self { Some(x) => r == x, None => r@ == Seq::<u8>::empty() } }
    fn v_or_default(self) -> (r: Vec<u8>) { match self { Some(x) => x, None => { let v = Vec::new(); proof { assert(v@ =~= Seq::<u8>::empty()); } v } } }
}
pub open spec fn sp_into_ref<const N: usize>(r: Result<&[u8; N], LengthError>, s: Seq<u8>) -> bool {
    (r is Ok <==> s.len() == N) && match r { Ok(a) => a@ == s, Err(_) => true }
}
impl<'a> VTryInto<&'a [u8; 2]> for &'a [u8] {
    #[verifier::external_body]
    fn v_try_into(self) -> (r: Result<&'a [u8; 2], LengthError>)
        ensures sp_into_ref::<2>(r, self@),
    { self.try_into().map_err(|_| LengthError) }
}
impl<'a> VTryInto<&'a [u8; 4]> for &'a [u8] {
    #[verifier::external_body]
    fn v_try_into(self) -> (r: Result<&'a [u8; 4], LengthError>)
        ensures sp_into_ref::<4>(r, self@),
    { self.try_into().map_err(|_| LengthError) }
}
impl<'a> VTryInto<&'a [u8; 6]> for &'a [u8] {
    #[verifier::external_body]
    fn v_try_into(self) -> (r: Result<&'a [u8; 6], LengthError>)
        ensures sp_into_ref::<6>(r, self@),
    { self.try_into().map_err(|_| LengthError) }
}
// what `{:.6}` writes
pub uninterp spec fn sp_six(x: f64) -> Seq<char>;
pub trait VShow6 { spec fn sp_f6(&self) -> f64; fn v_show6(&self, t: &mut String) ensures final(t)@ == old(t)@ + sp_six(self.sp_f6()); }
impl VShow6 for f64 {
    open spec fn sp_f6(&self) -> f64 { *self }
    #[verifier::external_body]
    fn v_show6(&self, t: &mut String) { t.push_str(&format!("{self:.6}")) }
}
impl VShow for u32 {
    open spec fn sp_show(&self) -> Seq<char> { sp_dec(*self as int) }
    #[verifier::external_body]
    fn v_show(&self, t: &mut String) { t.push_str(&self.to_string()) }
}
pub trait VControl { spec fn sp_ch(&self) -> char; fn v_is_ascii_control(&self) -> (r: bool) ensures r == ((self.sp_ch() as u32) < 32 || self.sp_ch() as u32 == 127); }
impl VControl for char {
    open spec fn sp_ch(&self) -> char { *self }
    #[verifier::external_body]
    fn v_is_ascii_control(&self) -> (r: bool) { self.is_ascii_control() }
}
#[verifier::external_body]
pub fn v_with_capacity(n: usize) -> (r: String)
    ensures r@ == Seq::<char>::empty(),
{ String::with_capacity(n) }
pub trait VI64 { spec fn sp_i(&self) -> int; fn v_i64(self) -> (r: i64) where Self: Sized ensures r == self.sp_i(); }
impl VI64 for u8 { open spec fn sp_i(&self) -> int { *self as int } fn v_i64(self) -> (r: i64) { self as i64 } }
impl VI64 for u16 { open spec fn sp_i(&self) -> int { *self as int } fn v_i64(self) -> (r: i64) { self as i64 } }
impl VI64 for u32 { open spec fn sp_i(&self) -> int { *self as int } fn v_i64(self) -> (r: i64) { self as i64 } }
pub fn v_i64_from<T: VI64>(x: T) -> (r: i64)
    ensures r == x.sp_i(),
{ x.v_i64() }
