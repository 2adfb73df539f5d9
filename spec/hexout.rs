// Assumed specifications of what format placeholders write, and of joining texts.
pub open spec fn sp_hexdigit(n: int) -> char { if n < 10 { (48 + n) as char } else { (55 + n) as char } }
// at least w hexadecimal digits in capitals
pub open spec fn sp_hex(n: int, w: int) -> Seq<char>
    decreases n, w,
{ if n < 16 && w <= 1 { seq![sp_hexdigit(n)] } else if n < 0 { Seq::empty() } else { sp_hex(n / 16, w - 1).push(sp_hexdigit(n % 16)) } }
pub trait VHex {
    spec fn sp_num(&self) -> int;
    fn v_hex(&self, w: usize, t: &mut String) ensures final(t)@ == old(t)@ + sp_hex(self.sp_num(), w as int);
}
impl VHex for u8 {
    open spec fn sp_num(&self) -> int { *self as int }
    #[verifier::external_body]
    fn v_hex(&self, w: usize, t: &mut String) { t.push_str(&format!("{:0w$X}", self, w = w)) }
}
impl VHex for u16 {
    open spec fn sp_num(&self) -> int { *self as int }
    #[verifier::external_body]
    fn v_hex(&self, w: usize, t: &mut String) { t.push_str(&format!("{:0w$X}", self, w = w)) }
}
impl<'a, T: VHex> VHex for &'a T {
    open spec fn sp_num(&self) -> int { (*self).sp_num() }
    fn v_hex(&self, w: usize, t: &mut String) { let x: &T = *self; T::v_hex(x, w, t); proof { assert(self.sp_num() == T::sp_num(x)); } }
}
pub open spec fn sp_zeros(n: int) -> Seq<char> { Seq::new(if n > 0 { n as nat } else { 0 }, |i: int| '0') }
// at least w decimal digits
pub open spec fn sp_padded(n: int, w: int) -> Seq<char> { sp_zeros(w - sp_dec(n).len()) + sp_dec(n) }
pub trait VPad {
    spec fn sp_nat(&self) -> int;
    fn v_pad(&self, w: usize, t: &mut String) ensures final(t)@ == old(t)@ + sp_padded(self.sp_nat(), w as int);
}
impl VPad for u8 {
    open spec fn sp_nat(&self) -> int { *self as int }
    #[verifier::external_body]
    fn v_pad(&self, w: usize, t: &mut String) { t.push_str(&format!("{:0w$}", self, w = w)) }
}
impl VPad for u16 {
    open spec fn sp_nat(&self) -> int { *self as int }
    #[verifier::external_body]
    fn v_pad(&self, w: usize, t: &mut String) { t.push_str(&format!("{:0w$}", self, w = w)) }
}
pub open spec fn sp_sdec(n: int) -> Seq<char> { if n < 0 { seq!['-'] + sp_dec(-n) } else { sp_dec(n) } }
impl VShow for i32 {
    open spec fn sp_show(&self) -> Seq<char> { sp_sdec(*self as int) }
    #[verifier::external_body]
    fn v_show(&self, t: &mut String) { t.push_str(&self.to_string()) }
}
pub open spec fn sp_join(w: Seq<Seq<char>>, sep: Seq<char>) -> Seq<char>
    decreases w.len(),
{ if w.len() == 0 { Seq::empty() } else if w.len() == 1 { w[0] } else { sp_join(w.drop_last(), sep) + sep + w.last() } }
pub trait VJoin { 
    spec fn sp_words_of(&self) -> Seq<Seq<char>>;
    fn v_join(&self, sep: &str) -> (r: String) ensures r@ == sp_join(self.sp_words_of(), sep@);
}
impl VJoin for Vec<String> {
    open spec fn sp_words_of(&self) -> Seq<Seq<char>> { self@.map_values(|s: String| s@) }
    #[verifier::external_body]
    fn v_join(&self, sep: &str) -> (r: String) { self.join(sep) }
}
