// Stand-in for the CSV writer and the text operations around it.
pub open spec fn sp_words(v: Seq<String>) -> Seq<Seq<char>> { v.map_values(|s: String| s@) }
pub open spec fn sp_strs(v: Seq<&str>) -> Seq<Seq<char>> { v.map_values(|s: &str| s@) }
// the CSV text of rows of cells
pub uninterp spec fn sp_csv(rows: Seq<Seq<Seq<char>>>) -> Seq<char>;
#[verifier::external_body]
pub struct VCsv { }
pub struct VCsvError;
impl VToStr for VCsvError {
    uninterp spec fn sp_str(&self) -> Seq<char>;
    #[verifier::external_body]
    fn v_to_string(&self) -> (r: String) { unimplemented!() }
}
pub trait VRow { spec fn sp_row(&self) -> Seq<Seq<char>>; }
impl VRow for Vec<String> { open spec fn sp_row(&self) -> Seq<Seq<char>> { sp_words(self@) } }
impl VRow for &Vec<String> { open spec fn sp_row(&self) -> Seq<Seq<char>> { sp_words((*self)@) } }
impl VCsv {
    pub uninterp spec fn view(&self) -> Seq<Seq<Seq<char>>>;
    #[verifier::external_body]
    pub fn v_write_record<R: VRow>(&mut self, r: R) -> (x: Result<(), VCsvError>)
        ensures x is Ok ==> final(self)@ == old(self)@.push(r.sp_row()), old(self)@.len() == 0 || old(self)@[0].len() == r.sp_row().len() ==> x is Ok,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn into_inner(self) -> (x: Result<Vec<u8>, VCsvError>)
        ensures x is Ok, x->Ok_0@ == sp_bytes(sp_csv(self@)),
    { unimplemented!() }
}
#[verifier::external_body]
pub fn v_csv(b: Vec<u8>) -> (r: VCsv)
    requires b@.len() == 0,
    ensures r@ == Seq::<Seq<Seq<char>>>::empty(),
{ unimplemented!() }
#[verifier::external_body]
pub fn v_csv_text(b: Vec<u8>) -> (r: Result<String, VCsvError>)
    ensures r is Ok ==> sp_bytes(r->Ok_0@) == b@, forall|t: Seq<char>| #[trigger] sp_bytes(t) == b@ ==> r is Ok,
{ unimplemented!() }
// bytes determine the text
#[verifier::external_body]
pub proof fn axiom_text_of_bytes(a: Seq<char>, b: Seq<char>)
    requires sp_bytes(a) == sp_bytes(b),
    ensures a == b,
{ }
pub trait VOrDefault<T> { fn v_or_default(self) -> T; }
impl VOrDefault<String> for Option<String> {
    fn v_or_default(self) -> (r: String)
        ensures r@ == sp_or_empty(self),
    { match self { Some(x) => x, None => v_new() } }
}
pub open spec fn sp_or_empty(x: Option<String>) -> Seq<char> { match x { Some(x) => x@, None => seq![] } }
impl VToStr for u8 {
    open spec fn sp_str(&self) -> Seq<char> { sp_dec(*self as int) }
    #[verifier::external_body]
    fn v_to_string(&self) -> (r: String) { self.to_string() }
}
impl VToStr for usize {
    open spec fn sp_str(&self) -> Seq<char> { sp_dec(*self as int) }
    #[verifier::external_body]
    fn v_to_string(&self) -> (r: String) { self.to_string() }
}
// the text of a JSON value
impl VToStr for serde_json::Number {
    uninterp spec fn sp_str(&self) -> Seq<char>;
    #[verifier::external_body]
    fn v_to_string(&self) -> (r: String) { unimplemented!() }
}
impl VToStr for serde_json::Value {
    uninterp spec fn sp_str(&self) -> Seq<char>;
    #[verifier::external_body]
    fn v_to_string(&self) -> (r: String) { unimplemented!() }
}
impl serde_json::Value {
    pub fn as_str(&self) -> (r: Option<&str>)
        ensures match *self { serde_json::Value::String(s) => r is Some && r->Some_0@ == s@, _ => r is None },
    { match self { serde_json::Value::String(s) => Some(s.as_str()), _ => None } }
}
// the entries of a JSON object in the order of its iterator
impl serde_json::Map {
    pub uninterp spec fn sp_entries(&self) -> Seq<(String, serde_json::Value)>;
}
impl VAll<(String, serde_json::Value)> for serde_json::Map {
    open spec fn sp_seq(&self) -> Seq<(String, serde_json::Value)> { self.sp_entries() }
    #[verifier::external_body]
    fn v_all(&self) -> (r: &[(String, serde_json::Value)]) { unimplemented!() }
}
pub open spec fn sp_without(s: Seq<char>, c: char) -> Seq<char> { s.filter(|x: char| x != c) }
pub trait VReplace { 
    spec fn sp_old(&self) -> Seq<char>;
    fn v_replace(&self, c: char, by: &str) -> (r: String)
        ensures by@.len() == 0 ==> r@ == sp_without(self.sp_old(), c);
}
impl VReplace for String {
    open spec fn sp_old(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn v_replace(&self, c: char, by: &str) -> (r: String) { self.replace(c, by) }
}
