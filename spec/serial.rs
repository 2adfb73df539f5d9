// The texts of the serialisation libraries: not described.
#[verifier::external_body]
pub struct VSerialError { x: u8 }
impl VToStr for VSerialError {
    uninterp spec fn sp_str(&self) -> Seq<char>;
    #[verifier::external_body]
    fn v_to_string(&self) -> (r: String) { unimplemented!() }
}
#[verifier::external_body]
pub fn v_json_text<T>(x: &T) -> (r: Result<String, VSerialError>) { unimplemented!() }
#[verifier::external_body]
pub fn v_yaml_text<T>(x: &T) -> (r: Result<String, VSerialError>) { unimplemented!() }
