// Assumed specifications of character tests and of reading hexadecimal numbers.
pub uninterp spec fn sp_white(c: char) -> bool;  // char::is_whitespace
pub open spec fn sp_trim_start(s: Seq<char>) -> Seq<char>
    decreases s.len(),
{ if s.len() > 0 && sp_white(s[0]) { sp_trim_start(s.skip(1)) } else { s } }
pub open spec fn sp_trim_end(s: Seq<char>) -> Seq<char>
    decreases s.len(),
{ if s.len() > 0 && sp_white(s.last()) { sp_trim_end(s.drop_last()) } else { s } }
// the text without white space at its start and end
pub open spec fn sp_trim(s: Seq<char>) -> Seq<char> { sp_trim_end(sp_trim_start(s)) }
// value of a hexadecimal digit, or -1
pub open spec fn sp_hv(c: char) -> int {
    if '0' <= c && c <= '9' { c as int - '0' as int }
    else if 'a' <= c && c <= 'f' { c as int - 'a' as int + 10 }
    else if 'A' <= c && c <= 'F' { c as int - 'A' as int + 10 }
    else { -1 }
}
pub trait VTrim { fn v_trim(&self) -> &str; }
impl VTrim for str {
    #[verifier::external_body]
    fn v_trim(&self) -> (r: &str)
        ensures r@ == sp_trim(self@),
    { self.trim() }
}
pub trait VClear { fn v_clear(&mut self); }
impl VClear for String {
    #[verifier::external_body]
    fn v_clear(&mut self)
        ensures final(self)@ == Seq::<char>::empty(),
    { self.clear() }
}
pub trait VChar {
    spec fn sp_c(&self) -> char;
    fn v_is_ascii_hexdigit(&self) -> (r: bool) ensures r == (sp_hv(self.sp_c()) >= 0);
    // space, tab, line feed, form feed, carriage return
    fn v_is_ascii_whitespace(&self) -> (r: bool)
        ensures r == (self.sp_c() as u32 == 32 || self.sp_c() as u32 == 9 || self.sp_c() as u32 == 10 || self.sp_c() as u32 == 12 || self.sp_c() as u32 == 13);
}
impl VChar for char {
    open spec fn sp_c(&self) -> char { *self }
    #[verifier::external_body]
    fn v_is_ascii_hexdigit(&self) -> (r: bool) { self.is_ascii_hexdigit() }
    #[verifier::external_body]
    fn v_is_ascii_whitespace(&self) -> (r: bool) { self.is_ascii_whitespace() }
}
pub trait VMultiple { fn v_is_multiple_of(self, n: usize) -> bool; }
impl VMultiple for usize {
    #[verifier::external_body]
    fn v_is_multiple_of(self, n: usize) -> (r: bool)
        ensures n > 0 ==> r == (self % n == 0),
    { self.is_multiple_of(n) }
}
pub struct NotNumber;
impl NotNumber {
    #[verifier::external_body]
    pub fn to_string(&self) -> String { String::new() }
}
#[verifier::external_body]
pub fn u8_from_str_radix(s: &str, radix: u32) -> (r: Result<u8, NotNumber>)
    ensures radix == 16 && s@.len() == 2 && sp_hv(s@[0]) >= 0 && sp_hv(s@[1]) >= 0 ==> r is Ok && r->Ok_0 == 16 * sp_hv(s@[0]) + sp_hv(s@[1]),
{ u8::from_str_radix(s, radix).map_err(|_| NotNumber) }
