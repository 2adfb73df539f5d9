// Stand-in for arrayvec::ArrayVec: assumed, not verified.
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct ArrayVec<T, const CAP: usize> { v: Vec<T> }
pub struct CapacityError;
impl<T, const CAP: usize> View for ArrayVec<T, CAP> {
    type V = Seq<T>;
    uninterp spec fn view(&self) -> Seq<T>;
}
pub broadcast axiom fn axiom_arrayvec_len<T, const CAP: usize>(v: ArrayVec<T, CAP>)
    ensures #[trigger] v@.len() <= CAP;
impl<T, const CAP: usize> ArrayVec<T, CAP> {
    #[verifier::external_body]
    pub fn new() -> (r: Self)
        ensures r@ == Seq::<T>::empty(),
    { unimplemented!() }
    #[verifier::external_body]
    pub const fn len(&self) -> (r: usize)
        ensures r == self@.len(), r <= CAP,
    { unimplemented!() }
    #[verifier::external_body]
    pub const fn is_empty(&self) -> (r: bool)
        ensures r == (self@.len() == 0),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn push(&mut self, x: T)
        requires old(self)@.len() < CAP,
        ensures final(self)@ == old(self)@.push(x),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn try_push(&mut self, x: T) -> (r: Result<(), CapacityError>)
        ensures
            r is Ok <==> old(self)@.len() < CAP,
            final(self)@ == (if old(self)@.len() < CAP { old(self)@.push(x) } else { old(self)@ }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn as_slice(&self) -> (r: &[T])
        ensures r@ == self@, r@.len() <= CAP,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn first(&self) -> (r: Option<&T>)
        ensures match r { Some(x) => self@.len() > 0 && *x == self@[0], None => self@.len() == 0 },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn contains(&self, x: &T) -> (r: bool)
        ensures r == self@.contains(*x),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn try_from(s: &[T]) -> (r: Result<Self, CapacityError>)
        ensures r is Ok <==> s@.len() <= CAP, match r { Ok(a) => a@ == s@, Err(_) => true },
    { unimplemented!() }
}
