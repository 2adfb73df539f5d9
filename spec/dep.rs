// Assumed specifications of the standard library and of dependencies.
// Everything in this file is an assumption; DESIGN.md lists it.

pub assume_specification<'a, T: Copy> [Option::<&'a T>::copied](o: Option<&'a T>) -> (r: Option<T>)
    ensures r == (match o { Some(x) => Some(*x), None => None::<T> });

#[verifier::external_body]
pub const fn u16_from_le_bytes(b: [u8; 2]) -> (r: u16)
    ensures r == b[0] as int + 256 * b[1] as int,
{ u16::from_le_bytes(b) }
#[verifier::external_body]
pub const fn u16_from_be_bytes(b: [u8; 2]) -> (r: u16)
    ensures r == b[1] as int + 256 * b[0] as int,
{ u16::from_be_bytes(b) }

pub trait ToBytes { 
    fn v_to_le_bytes(self) -> [u8; 2];
}
impl ToBytes for u16 {
    #[verifier::external_body]
    fn v_to_le_bytes(self) -> (r: [u8; 2])
        ensures r[0] == (self % 256) as u8, r[1] == (self / 256) as u8,
    { self.to_le_bytes() }
}

pub assume_specification [char::is_ascii_uppercase](c: &char) -> (r: bool)
    ensures r == (65 <= *c as u32 && *c as u32 <= 90);

pub assume_specification<T> [<[T]>::fill] (s: &mut [T], v: T)
    where T: Clone
    ensures
        final(s)@.len() == old(s)@.len(),
        forall|i: int| 0 <= i < old(s)@.len() ==> cloned(v, #[trigger] final(s)@[i]);

pub trait VTryInto<T>: Sized { fn v_try_into(self) -> Result<T, LengthError>; }
pub struct LengthError;
pub open spec fn sp_into<const N: usize>(r: Result<[u8; N], LengthError>, s: Seq<u8>) -> bool {
    (r is Ok <==> s.len() == N) && match r { Ok(a) => a@ == s, Err(_) => true }
}
impl<'a> VTryInto<[u8; 2]> for &'a [u8] {
    #[verifier::external_body]
    fn v_try_into(self) -> (r: Result<[u8; 2], LengthError>)
        ensures sp_into::<2>(r, self@),
    { self.try_into().map_err(|_| LengthError) }
}
impl<'a> VTryInto<[u8; 4]> for &'a [u8] {
    #[verifier::external_body]
    fn v_try_into(self) -> (r: Result<[u8; 4], LengthError>)
        ensures sp_into::<4>(r, self@),
    { self.try_into().map_err(|_| LengthError) }
}
impl<'a> VTryInto<[u8; 6]> for &'a [u8] {
    #[verifier::external_body]
    fn v_try_into(self) -> (r: Result<[u8; 6], LengthError>)
        ensures sp_into::<6>(r, self@),
    { self.try_into().map_err(|_| LengthError) }
}
impl<'a> VTryInto<[u8; 8]> for &'a [u8] {
    #[verifier::external_body]
    fn v_try_into(self) -> (r: Result<[u8; 8], LengthError>)
        ensures sp_into::<8>(r, self@),
    { self.try_into().map_err(|_| LengthError) }
}
impl<'a> VTryInto<[u8; 16]> for &'a [u8] {
    #[verifier::external_body]
    fn v_try_into(self) -> (r: Result<[u8; 16], LengthError>)
        ensures sp_into::<16>(r, self@),
    { self.try_into().map_err(|_| LengthError) }
}

pub assume_specification<T> [<[T]>::reverse] (s: &mut [T])
    ensures final(s)@ == old(s)@.reverse();

// stand-in for core::slice::Iter (verified below; assumed to behave like it)
pub struct SIter<'a, T> { pub s: &'a [T], pub pos: usize }
impl<'a, T> SIter<'a, T> {
    pub open spec fn ok(&self) -> bool { self.pos <= self.s@.len() }
    pub fn next(&mut self) -> (r: Option<&'a T>)
        requires old(self).ok(),
        ensures
            final(self).ok(), final(self).s == old(self).s,
            match r {
                Some(x) => old(self).pos < old(self).s@.len() && *x == old(self).s@[old(self).pos as int] && final(self).pos == old(self).pos + 1,
                None => old(self).pos == old(self).s@.len() && final(self).pos == old(self).pos,
            },
    {
        if self.pos < self.s.len() { let x = &self.s[self.pos]; self.pos = self.pos + 1; Some(x) } else { None }
    }
    pub fn skip(self, n: usize) -> (r: Self)
        requires self.ok(),
        ensures r.ok(), r.s == self.s, r.pos == (if n <= self.s@.len() - self.pos { self.pos + n } else { self.s@.len() as int }),
    {
        if n <= self.s.len() - self.pos { SIter { s: self.s, pos: self.pos + n } } else { SIter { s: self.s, pos: self.s.len() } }
    }
    pub fn as_slice(&self) -> (r: &'a [T])
        requires self.ok(),
        ensures r@ == self.s@.subrange(self.pos as int, self.s@.len() as int),
    {
        vstd::slice::slice_subrange(self.s, self.pos, self.s.len())
    }
}
pub trait VIter<T> { fn v_iter(&self) -> SIter<'_, T>; }
impl<T> VIter<T> for [T] {
    fn v_iter(&self) -> (r: SIter<'_, T>)
        ensures r.ok(), r.pos == 0, r.s@ == self@,
    { SIter { s: self, pos: 0 } }
}

pub fn min_len(a: usize, b: usize) -> (r: usize)
    ensures r == (if a <= b { a } else { b }),
{ if a <= b { a } else { b } }
pub open spec fn sp_pow(b: int, e: nat) -> int
    decreases e,
{ if e == 0 { 1 } else { b * sp_pow(b, (e - 1) as nat) } }
pub trait VPow: Sized {
    spec fn sp_pow_ok(&self, e: u32) -> bool;
    fn v_pow(self, e: u32) -> Self requires self.sp_pow_ok(e);
}
impl VPow for i64 {
    open spec fn sp_pow_ok(&self, e: u32) -> bool { i64::MIN <= sp_pow(*self as int, e as nat) <= i64::MAX }
    #[verifier::external_body]
    fn v_pow(self, e: u32) -> (r: i64)
        ensures r == sp_pow(self as int, e as nat),
    { self.pow(e) }
}
pub trait VDivCeil: Sized { fn v_div_ceil(self, d: usize) -> (r: usize) requires d > 0; }
impl VDivCeil for usize {
    fn v_div_ceil(self, d: usize) -> (r: usize)
        ensures r == (if self as int % d as int == 0 { self as int / d as int } else { self as int / d as int + 1 }),
    {
        if self % d == 0 { self / d } else {
            proof { assert((self as int) / (d as int) < (usize::MAX as int)) by (nonlinear_arith) requires d > 0, (self as int) % (d as int) != 0, self <= usize::MAX; }
            self / d + 1
        }
    }
}
