// Stand-in for the part of serde_json used, and further assumed specifications of text operations.
pub mod serde_json {
    use super::*;
    pub struct Number;
    impl Number {
        #[verifier::external_body]
        pub fn from_f64(x: f64) -> Option<Number> { unimplemented!() }
    }
    pub enum Value { Null, Bool(bool), Number(Number), String(String), Object(Map) }
    // an object: its entries by name
    #[verifier::external_body]
    pub struct Map { }
    impl Map {
        pub uninterp spec fn view(&self) -> vstd::map::Map<Seq<char>, Value>;
        #[verifier::external_body]
        pub fn new() -> (r: Map)
            ensures r@ == vstd::map::Map::<Seq<char>, Value>::empty(),
        { unimplemented!() }
        #[verifier::external_body]
        pub fn insert(&mut self, k: String, v: Value) -> Option<Value>
            ensures final(self)@ == old(self)@.insert(k@, v),
        { unimplemented!() }
    }
    pub struct Error;
    #[verifier::external_body]
    pub fn to_value<T: Serialize>(x: &T) -> (r: Result<Value, Error>)
        ensures r == Ok::<Value, Error>(x.sp_json()),
    { unimplemented!() }
}
impl<T, const N: usize> VAll<T> for ArrayVec<T, N> {
    open spec fn sp_seq(&self) -> Seq<T> { self@ }
    fn v_all(&self) -> (r: &[T]) { self.as_slice() }
}
// what serde makes of a value
pub trait Serialize { spec fn sp_json(&self) -> serde_json::Value; }
impl Serialize for u8 { uninterp spec fn sp_json(&self) -> serde_json::Value; }
impl Serialize for u16 { uninterp spec fn sp_json(&self) -> serde_json::Value; }
pub trait VToStr {
    spec fn sp_str(&self) -> Seq<char>;
    fn v_to_string(&self) -> (r: String) ensures r@ == self.sp_str();
}
impl VToStr for str {
    open spec fn sp_str(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn v_to_string(&self) -> (r: String) { self.to_string() }
}
impl VToStr for u64 {
    open spec fn sp_str(&self) -> Seq<char> { sp_dec(*self as int) }
    #[verifier::external_body]
    fn v_to_string(&self) -> (r: String) { self.to_string() }
}
pub fn v_shown<T: VToStr + ?Sized>(x: &T) -> (r: String)
    ensures r@ == x.sp_str(),
{ x.v_to_string() }
pub trait VDiff { fn v_abs_diff(self, o: u64) -> u64; }
impl VDiff for u64 {
    fn v_abs_diff(self, o: u64) -> (r: u64)
        ensures r == (if self >= o { self - o } else { o - self }),
    { if self >= o { self - o } else { o - self } }
}
pub fn isize_from(x: u8) -> (r: isize)
    ensures r == x,
{ x as isize }
impl VShow for usize {
    open spec fn sp_show(&self) -> Seq<char> { sp_dec(*self as int) }
    #[verifier::external_body]
    fn v_show(&self, t: &mut String) { t.push_str(&self.to_string()) }
}
impl<T, const N: usize> VLen for ArrayVec<T, N> {
    open spec fn sp_len(&self) -> int { self@.len() as int }
    fn v_len(&self) -> (r: usize) { self.len() }
    fn v_is_empty(&self) -> (r: bool) { self.len() == 0 }
}
// map and collect with nothing known about the elements
#[verifier::external_body]
pub struct VMapped { }
impl<'a, T> SIter<'a, T> {
    #[verifier::external_body]
    pub fn map<R, F: Fn(&'a T) -> R>(self, f: F) -> VMapped { unimplemented!() }
}
impl VMapped {
    #[verifier::external_body]
    pub fn collect<C>(self) -> C { unimplemented!() }
}
