// Assumed specifications of text operations of the standard library. A text is seen as
// its sequence of characters; its bytes are their UTF-8 encoding.
pub open spec fn sp_bytes(s: Seq<char>) -> Seq<u8> { vstd::utf8::encode_utf8(s) }
pub open spec fn sp_ascii(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) as u32 <= 127 }

pub trait VLen {
    spec fn sp_len(&self) -> int;
    fn v_len(&self) -> (r: usize) ensures r == self.sp_len();
    fn v_is_empty(&self) -> (r: bool) ensures r == (self.sp_len() == 0);
}
impl VLen for str {
    open spec fn sp_len(&self) -> int { sp_bytes(self@).len() as int }
    #[verifier::external_body]
    fn v_len(&self) -> (r: usize) { self.len() }
    #[verifier::external_body]
    fn v_is_empty(&self) -> (r: bool) { self.is_empty() }
}
impl VLen for String {
    open spec fn sp_len(&self) -> int { sp_bytes(self@).len() as int }
    #[verifier::external_body]
    fn v_len(&self) -> (r: usize) { self.len() }
    #[verifier::external_body]
    fn v_is_empty(&self) -> (r: bool) { self.is_empty() }
}
impl<T> VLen for [T] {
    open spec fn sp_len(&self) -> int { self@.len() as int }
    fn v_len(&self) -> (r: usize) { self.len() }
    fn v_is_empty(&self) -> (r: bool) { self.len() == 0 }
}
impl<T> VLen for Vec<T> {
    open spec fn sp_len(&self) -> int { self@.len() as int }
    fn v_len(&self) -> (r: usize) { self.len() }
    fn v_is_empty(&self) -> (r: bool) { self.len() == 0 }
}

// stand-in for core::str::Bytes and its reversal: `next` and `rev` are verified
pub struct VBytes { pub b: Vec<u8>, pub lo: usize, pub hi: usize, pub back: bool }
impl VBytes {
    pub open spec fn ok(&self) -> bool { self.lo <= self.hi <= self.b@.len() }
    // what is still to come, in order of the text
    pub open spec fn rest(&self) -> Seq<u8> { self.b@.subrange(self.lo as int, self.hi as int) }
    pub fn rev(self) -> (r: VBytes)
        requires self.ok(),
        ensures r.ok(), r.rest() == self.rest(), r.back == !self.back,
    { VBytes { b: self.b, lo: self.lo, hi: self.hi, back: !self.back } }
    pub fn next(&mut self) -> (r: Option<u8>)
        requires old(self).ok(),
        ensures
            final(self).ok(), final(self).back == old(self).back,
            match r {
                Some(x) => old(self).rest().len() > 0 && (if old(self).back {
                        x == old(self).rest().last() && final(self).rest() == old(self).rest().drop_last()
                    } else {
                        x == old(self).rest()[0] && final(self).rest() == old(self).rest().subrange(1, old(self).rest().len() as int)
                    }),
                None => old(self).rest().len() == 0 && final(self).rest() == old(self).rest(),
            },
    {
        if self.lo < self.hi {
            if self.back {
                self.hi = self.hi - 1;
                proof { assert(self.rest() =~= old(self).rest().drop_last()); }
                Some(self.b[self.hi])
            } else {
                let x = self.b[self.lo];
                self.lo = self.lo + 1;
                proof { assert(self.rest() =~= old(self).rest().subrange(1, old(self).rest().len() as int)); }
                Some(x)
            }
        } else { None }
    }
}
// stand-in for core::str::Chars
pub struct VChars { pub c: Vec<char>, pub pos: usize }
impl VChars {
    pub open spec fn ok(&self) -> bool { self.pos <= self.c@.len() }
    pub fn next(&mut self) -> (r: Option<char>)
        requires old(self).ok(),
        ensures
            final(self).ok(), final(self).c@ == old(self).c@,
            match r {
                Some(x) => old(self).pos < old(self).c@.len() && x == old(self).c@[old(self).pos as int] && final(self).pos == old(self).pos + 1,
                None => old(self).pos == old(self).c@.len() && final(self).pos == old(self).pos,
            },
    {
        if self.pos < self.c.len() { let x = self.c[self.pos]; self.pos = self.pos + 1; Some(x) } else { None }
    }
}
// stand-in for core::str::CharIndices: the index is the byte offset of the character
pub struct VCharIndices { pub c: Vec<(usize, char)>, pub pos: usize }
impl VCharIndices {
    pub open spec fn ok(&self) -> bool { self.pos <= self.c@.len() }
    pub fn next(&mut self) -> (r: Option<(usize, char)>)
        requires old(self).ok(),
        ensures
            final(self).ok(), final(self).c@ == old(self).c@,
            match r {
                Some(x) => old(self).pos < old(self).c@.len() && x == old(self).c@[old(self).pos as int] && final(self).pos == old(self).pos + 1,
                None => old(self).pos == old(self).c@.len() && final(self).pos == old(self).pos,
            },
    {
        if self.pos < self.c.len() { let x = self.c[self.pos]; self.pos = self.pos + 1; Some(x) } else { None }
    }
}
pub trait VText {
    spec fn sp_text(&self) -> Seq<char>;
    fn v_bytes(&self) -> (r: VBytes)
        ensures r.ok(), !r.back, r.rest() == sp_bytes(self.sp_text());
    fn v_chars(&self) -> (r: VChars)
        ensures r.pos == 0, r.c@ == self.sp_text();
    fn v_char_indices(&self) -> (r: VCharIndices)
        ensures r.pos == 0, r.c@.len() == self.sp_text().len(),
            forall|i: int| 0 <= i < r.c@.len() ==> #[trigger] r.c@[i] == (sp_bytes(self.sp_text().take(i)).len() as usize, self.sp_text()[i]);
    fn v_repeat(&self, n: usize) -> (r: String)
        ensures self.sp_text().len() == 1 ==> r@ == Seq::new(n as nat, |i: int| self.sp_text()[0]);
    fn v_trim_start_matches(&self, c: char) -> (r: &str)
        ensures exists|k: int| 0 <= k <= self.sp_text().len() && r@ == #[trigger] self.sp_text().skip(k)
            && (forall|i: int| 0 <= i < k ==> (#[trigger] self.sp_text()[i]) == c) && (k < self.sp_text().len() ==> self.sp_text()[k] != c);
    fn v_contains(&self, c: char) -> (r: bool)
        ensures r == self.sp_text().contains(c);
    fn v_ends_with(&self, c: char) -> (r: bool)
        ensures r == (self.sp_text().len() > 0 && self.sp_text().last() == c);
}
impl VText for str {
    open spec fn sp_text(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn v_bytes(&self) -> (r: VBytes) { let b = self.as_bytes().to_vec(); let n = b.len(); VBytes { b, lo: 0, hi: n, back: false } }
    #[verifier::external_body]
    fn v_chars(&self) -> (r: VChars) { VChars { c: self.chars().collect(), pos: 0 } }
    #[verifier::external_body]
    fn v_char_indices(&self) -> (r: VCharIndices) { VCharIndices { c: self.char_indices().collect(), pos: 0 } }
    #[verifier::external_body]
    fn v_repeat(&self, n: usize) -> (r: String) { self.repeat(n) }
    #[verifier::external_body]
    fn v_trim_start_matches(&self, c: char) -> (r: &str) { self.trim_start_matches(c) }
    #[verifier::external_body]
    fn v_contains(&self, c: char) -> (r: bool) { self.contains(c) }
    #[verifier::external_body]
    fn v_ends_with(&self, c: char) -> (r: bool) { self.ends_with(c) }
}

// what `{}` writes
pub trait VShow {
    spec fn sp_show(&self) -> Seq<char>;
    fn v_show(&self, t: &mut String) ensures final(t)@ == old(t)@ + self.sp_show();
}
impl VShow for str {
    open spec fn sp_show(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn v_show(&self, t: &mut String) { t.push_str(self) }
}
impl VShow for String {
    open spec fn sp_show(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn v_show(&self, t: &mut String) { t.push_str(self) }
}
impl<'a, T: VShow + ?Sized> VShow for &'a T {
    open spec fn sp_show(&self) -> Seq<char> { (*self).sp_show() }
    fn v_show(&self, t: &mut String) { let x: &T = *self; T::v_show(x, t); proof { assert(self.sp_show() == T::sp_show(x)); } }
}
// decimal digits of a number, without leading zeros
pub open spec fn sp_dec(n: int) -> Seq<char>
    decreases n,
{ if n < 10 { seq![(48 + n) as char] } else { sp_dec(n / 10).push((48 + n % 10) as char) } }
impl VShow for u64 {
    open spec fn sp_show(&self) -> Seq<char> { sp_dec(*self as int) }
    #[verifier::external_body]
    fn v_show(&self, t: &mut String) { t.push_str(&self.to_string()) }
}
#[verifier::external_body]
pub fn v_new() -> (r: String)
    ensures r@ == Seq::<char>::empty(),
{ String::new() }
#[verifier::external_body]
pub fn v_add(t: &mut String, s: &str)
    ensures final(t)@ == old(t)@ + s@,
{ t.push_str(s) }
#[verifier::external_body]
pub fn v_same<T: VShow + ?Sized>(a: &T, b: &str) -> (r: bool)
    ensures r == (a.sp_show() == b@),
{ let mut t = String::new(); a.v_show(&mut t); t == b }

pub trait VPrefix {
    spec fn sp_prefix(&self) -> Seq<char>;
    fn v_of<'a>(&self, s: &'a str) -> Option<&'a str>;
}
impl VPrefix for char {
    open spec fn sp_prefix(&self) -> Seq<char> { seq![*self] }
    #[verifier::external_body]
    fn v_of<'a>(&self, s: &'a str) -> Option<&'a str> { s.strip_prefix(*self) }
}
impl<'b> VPrefix for &'b str {
    open spec fn sp_prefix(&self) -> Seq<char> { (*self)@ }
    #[verifier::external_body]
    fn v_of<'a>(&self, s: &'a str) -> Option<&'a str> { s.strip_prefix(*self) }
}
pub trait VStrip { 
    spec fn sp_all(&self) -> Seq<char>;
    fn v_strip_prefix<P: VPrefix>(&self, p: P) -> (r: Option<&str>)
        ensures match r {
            Some(x) => p.sp_prefix().len() <= self.sp_all().len() && self.sp_all().take(p.sp_prefix().len() as int) == p.sp_prefix() && x@ == self.sp_all().skip(p.sp_prefix().len() as int),
            None => !(p.sp_prefix().len() <= self.sp_all().len() && self.sp_all().take(p.sp_prefix().len() as int) == p.sp_prefix()),
        };
}
impl VStrip for str {
    open spec fn sp_all(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn v_strip_prefix<P: VPrefix>(&self, p: P) -> (r: Option<&str>) { p.v_of(self) }
}

// parts of texts (the bounds are byte offsets; only texts of ASCII characters are covered) and slices
pub trait VCut {
    spec fn sp_cut_ok(&self, a: int, b: int) -> bool;
    spec fn sp_cut(&self, r: &Self, a: int, b: int) -> bool;
    spec fn sp_end(&self) -> int;
    fn v_cut(&self, a: usize, b: usize) -> (r: &Self)
        requires self.sp_cut_ok(a as int, b as int),
        ensures self.sp_cut(r, a as int, b as int);
    fn v_from(&self, a: usize) -> (r: &Self)
        requires self.sp_cut_ok(a as int, self.sp_end()),
        ensures self.sp_cut(r, a as int, self.sp_end());
}
impl VCut for str {
    open spec fn sp_cut_ok(&self, a: int, b: int) -> bool { sp_ascii(self@) && 0 <= a <= b <= self@.len() }
    open spec fn sp_cut(&self, r: &str, a: int, b: int) -> bool { r@ == self@.subrange(a, b) }
    open spec fn sp_end(&self) -> int { self@.len() as int }
    #[verifier::external_body]
    fn v_cut(&self, a: usize, b: usize) -> (r: &str) { &self[a..b] }
    #[verifier::external_body]
    fn v_from(&self, a: usize) -> (r: &str) { &self[a..] }
}
impl<T> VCut for [T] {
    open spec fn sp_cut_ok(&self, a: int, b: int) -> bool { 0 <= a <= b <= self@.len() }
    open spec fn sp_cut(&self, r: &[T], a: int, b: int) -> bool { r@ == self@.subrange(a, b) }
    open spec fn sp_end(&self) -> int { self@.len() as int }
    fn v_cut(&self, a: usize, b: usize) -> (r: &[T]) { vstd::slice::slice_subrange(self, a, b) }
    fn v_from(&self, a: usize) -> (r: &[T]) { vstd::slice::slice_subrange(self, a, self.len()) }
}

pub trait VPop<T>: Sized {
    spec fn sp_items(&self) -> Seq<T>;
    fn v_pop(&mut self) -> (r: Option<T>)
        ensures
            old(self).sp_items().len() > 0 ==> r == Some(old(self).sp_items().last()) && final(self).sp_items() == old(self).sp_items().drop_last(),
            old(self).sp_items().len() == 0 ==> r is None && final(self).sp_items() == old(self).sp_items();
}
impl VPop<u8> for Vec<u8> {
    open spec fn sp_items(&self) -> Seq<u8> { self@ }
    fn v_pop(&mut self) -> (r: Option<u8>) { self.pop() }
}
impl VPop<char> for String {
    open spec fn sp_items(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn v_pop(&mut self) -> (r: Option<char>) { self.pop() }
}
pub trait VInsert { 
    spec fn sp_before(&self) -> Seq<char>;
    fn v_insert(&mut self, at: usize, c: char)
        requires at == 0,
        ensures final(self).sp_before() == seq![c] + old(self).sp_before();
}
impl VInsert for String {
    open spec fn sp_before(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn v_insert(&mut self, at: usize, c: char) { self.insert(at, c) }
}
pub struct NotUtf8;
#[verifier::external_body]
pub fn v_from_utf8(b: Vec<u8>) -> (r: Result<String, NotUtf8>)
    ensures (forall|i: int| 0 <= i < b@.len() ==> (#[trigger] b@[i]) <= 127) ==> r is Ok && r->Ok_0@ == b@.map_values(|x: u8| x as char),
{ String::from_utf8(b).map_err(|_| NotUtf8) }
pub fn v_char_from(b: u8) -> (r: char)
    ensures r == b as char,
{ b as char }

// lexicographic order of the characters (the order of the UTF-8 bytes is the same)
pub open spec fn sp_lex(a: Seq<char>, b: Seq<char>) -> int
    decreases a.len(),
{
    if a.len() == 0 { if b.len() == 0 { 0 } else { -1 } }
    else if b.len() == 0 { 1 }
    else if (a[0] as u32) < (b[0] as u32) { -1 }
    else if (a[0] as u32) > (b[0] as u32) { 1 }
    else { sp_lex(a.skip(1), b.skip(1)) }
}
pub open spec fn sp_order(o: core::cmp::Ordering, d: int) -> bool {
    match o {
        core::cmp::Ordering::Less => d < 0,
        core::cmp::Ordering::Equal => d == 0,
        core::cmp::Ordering::Greater => d > 0,
    }
}
pub trait VCmp {
    spec fn sp_diff(&self, o: &Self) -> int;
    fn v_cmp(&self, o: &Self) -> (r: core::cmp::Ordering)
        ensures sp_order(r, self.sp_diff(o));
}
impl VCmp for usize {
    open spec fn sp_diff(&self, o: &usize) -> int { *self - *o }
    fn v_cmp(&self, o: &usize) -> (r: core::cmp::Ordering) {
        if *self < *o { core::cmp::Ordering::Less } else if *self == *o { core::cmp::Ordering::Equal } else { core::cmp::Ordering::Greater }
    }
}
impl VCmp for str {
    open spec fn sp_diff(&self, o: &str) -> int { sp_lex(self@, o@) }
    #[verifier::external_body]
    fn v_cmp(&self, o: &str) -> (r: core::cmp::Ordering) { self.cmp(o) }
}

pub trait VNum: Sized {
    spec fn sp_int(&self) -> int;
    fn v_min(self, o: Self) -> (r: Self)
        ensures r == (if self.sp_int() <= o.sp_int() { self } else { o });
}
impl VNum for isize {
    open spec fn sp_int(&self) -> int { *self as int }
    fn v_min(self, o: isize) -> (r: isize) { if self <= o { self } else { o } }
}
pub struct OutOfRange;
pub fn usize_try_from(x: isize) -> (r: Result<usize, OutOfRange>)
    ensures match r { Ok(n) => n == x, Err(_) => x < 0 },
{ if x >= 0 { Ok(x as usize) } else { Err(OutOfRange) } }
pub fn u8_try_from(x: i8) -> (r: Result<u8, OutOfRange>)
    ensures match r { Ok(n) => n == x, Err(_) => x < 0 },
{ if x >= 0 { Ok(x as u8) } else { Err(OutOfRange) } }
pub trait VAbs { fn v_unsigned_abs(self) -> usize; }
impl VAbs for isize {
    #[verifier::external_body]
    fn v_unsigned_abs(self) -> (r: usize)
        ensures r == (if self >= 0 { self as int } else { -(self as int) }),
    { self.unsigned_abs() }
}
pub trait VOr<T>: Sized {
    spec fn sp_or(self, d: T) -> T;
    fn v_unwrap_or(self, d: T) -> (r: T) ensures r == self.sp_or(d);
}
impl<T> VOr<T> for Option<T> {
    open spec fn sp_or(self, d: T) -> T { match self { Some(x) => x, None => d } }
    fn v_unwrap_or(self, d: T) -> (r: T) { match self { Some(x) => x, None => d } }
}
impl<T, E> VOr<T> for Result<T, E> {
    open spec fn sp_or(self, d: T) -> T { match self { Ok(x) => x, Err(_) => d } }
    fn v_unwrap_or(self, d: T) -> (r: T) { match self { Ok(x) => x, Err(_) => d } }
}
pub trait VToVec<T> { fn v_to_vec(&self) -> Vec<T>; }
impl VToVec<u8> for [u8] {
    #[verifier::external_body]
    fn v_to_vec(&self) -> (r: Vec<u8>)
        ensures r@ == self@,
    { self.to_vec() }
}
// all elements as a slice
pub trait VAll<T> { 
    spec fn sp_seq(&self) -> Seq<T>;
    fn v_all(&self) -> (r: &[T]) ensures r@ == self.sp_seq();
}
impl<T> VAll<T> for [T] {
    open spec fn sp_seq(&self) -> Seq<T> { self@ }
    fn v_all(&self) -> (r: &[T]) { self }
}
impl<T> VAll<T> for Vec<T> {
    open spec fn sp_seq(&self) -> Seq<T> { self@ }
    fn v_all(&self) -> (r: &[T]) { self.as_slice() }
}
impl<T, const N: usize> VAll<T> for [T; N] {
    open spec fn sp_seq(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn v_all(&self) -> (r: &[T]) { &self[..] }
}
// the Debug text of a value is not described
pub trait VDebug {
    fn v_debug(&self, t: &mut String);
}
impl<T> VDebug for T {
    #[verifier::external_body]
    fn v_debug(&self, t: &mut String) { unimplemented!() }
}
