// Text of annotations: no property speaks about it.
#[verifier::external_body]
pub fn v_text() -> (r: String) { unimplemented!() }
pub fn v_use<T: ?Sized>(_x: &T) {}
pub enum Cow<'a, B: ?Sized> { Borrowed(&'a B), Owned(String) }
impl<'a, B: ?Sized> Cow<'a, B> {
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Self) { unimplemented!() }
}
