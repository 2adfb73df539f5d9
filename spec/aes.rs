// Stand-ins for the crates aes and cbc: assumed, not verified.
pub mod aes_cbc {
use vstd::prelude::*;
use crate::spec::*;

pub struct Aes128;
pub struct Array16(pub [u8; 16]);
impl From<[u8; 16]> for Array16 {
    fn from(v: [u8; 16]) -> (r: Self) ensures r.0 == v { Array16(v) }
}
impl vstd::std_specs::convert::FromSpecImpl<[u8; 16]> for Array16 {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: [u8; 16]) -> Self { Array16(v) }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(C)]
pub struct Decryptor<C> { _p: core::marker::PhantomData<C> }
impl<C> Decryptor<C> {
    pub uninterp spec fn key(&self) -> Seq<u8>;
    pub uninterp spec fn iv(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn new(key: &Array16, iv: &Array16) -> (r: Self)
        ensures r.key() == key.0@, r.iv() == iv.0@,
    { unimplemented!() }
    /// AES-128-CBC without padding, in place: refuses only a buffer that is no whole number of blocks
    #[verifier::external_body]
    pub fn decrypt_padded<P>(self, buf: &mut [u8]) -> (r: Result<(), PadError>)
        ensures
            final(buf)@.len() == old(buf)@.len(),
            r is Ok <==> old(buf)@.len() % 16 == 0,
            r is Ok ==> final(buf)@ == sp_aes_cbc(self.key(), self.iv(), old(buf)@),
    { unimplemented!() }
}
pub struct PadError;
pub mod cipher { pub mod block_padding { pub struct NoPadding; } }
}
