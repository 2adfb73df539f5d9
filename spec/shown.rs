// Stand-in for a formatter: what has been written to it so far.
pub struct FmtError;
#[verifier::external_body]
pub struct Formatter { t: String }
impl Formatter {
    pub uninterp spec fn view(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn v_start() -> (r: Formatter)
        ensures r@ == Seq::<char>::empty(),
    { Formatter { t: String::new() } }
    // writing to a text never fails
    #[verifier::external_body]
    pub fn write_str(&mut self, s: &str) -> (r: Result<(), FmtError>)
        ensures final(self)@ == old(self)@ + s@, r is Ok,
    { self.t.push_str(s); Ok(()) }
    #[verifier::external_body]
    pub fn v_done(self) -> (r: String)
        ensures r@ == self@,
    { self.t }
}
impl VShow for char {
    open spec fn sp_show(&self) -> Seq<char> { seq![*self] }
    #[verifier::external_body]
    fn v_show(&self, t: &mut String) { t.push(*self) }
}
impl VShow for bool {
    open spec fn sp_show(&self) -> Seq<char> { if *self { "true"@ } else { "false"@ } }
    #[verifier::external_body]
    fn v_show(&self, t: &mut String) { t.push_str(&self.to_string()) }
}
impl VShow for u8 {
    open spec fn sp_show(&self) -> Seq<char> { sp_dec(*self as int) }
    #[verifier::external_body]
    fn v_show(&self, t: &mut String) { t.push_str(&self.to_string()) }
}
impl VPad for u32 {
    open spec fn sp_nat(&self) -> int { *self as int }
    #[verifier::external_body]
    fn v_pad(&self, w: usize, t: &mut String) { t.push_str(&format!("{:0w$}", self, w = w)) }
}
// Option::as_deref
pub trait VDeref {
    type T: ?Sized;
    spec fn sp_deref(&self, r: Option<&Self::T>) -> bool;
    fn v_as_deref(&self) -> (r: Option<&Self::T>) ensures self.sp_deref(r);
}
impl VDeref for Option<String> {
    type T = str;
    open spec fn sp_deref(&self, r: Option<&str>) -> bool { match self { Some(s) => r is Some && r->Some_0@ == s@, None => r is None } }
    fn v_as_deref(&self) -> (r: Option<&str>) { match self { Some(s) => Some(s.as_str()), None => None } }
}
impl VDeref for Option<Vec<u8>> {
    type T = [u8];
    open spec fn sp_deref(&self, r: Option<&[u8]>) -> bool { match self { Some(s) => r is Some && r->Some_0@ == s@, None => r is None } }
    fn v_as_deref(&self) -> (r: Option<&[u8]>) { match self { Some(s) => Some(s.as_slice()), None => None } }
}

// what is left of a text when every copy of p at its end is dropped
pub open spec fn sp_trimmed(s: Seq<char>, p: Seq<char>) -> Seq<char>
    decreases s.len(),
{ if 0 < p.len() <= s.len() && s.skip(s.len() - p.len()) == p { sp_trimmed(s.take(s.len() - p.len()), p) } else { s } }
pub trait VTrimEnd {
    spec fn sp_whole(&self) -> Seq<char>;
    fn v_trim_end_matches(&self, p: &str) -> (r: &str) ensures r@ == sp_trimmed(self.sp_whole(), p@);
    fn v_push_str(&mut self, s: &str) ensures final(self).sp_whole() == old(self).sp_whole() + s@;
}
impl VTrimEnd for String {
    open spec fn sp_whole(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn v_trim_end_matches(&self, p: &str) -> (r: &str) { self.trim_end_matches(p) }
    #[verifier::external_body]
    fn v_push_str(&mut self, s: &str) { self.push_str(s) }
}
