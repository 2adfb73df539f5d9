// Assumed facts about doubles of integers above 2^53.
pub open spec fn f_two(k: int) -> int
    decreases k,
{ if k <= 0 { 1 } else { 2 * f_two(k - 1) } }
// integers up to 2^53 times a power of two are doubles
pub axiom fn axiom_rep(n: int, m: int, k: int)
    requires n == m * f_two(k), f_int(m), 0 <= k <= 100,
    ensures f_rep(n);
// so are their negations
pub axiom fn axiom_rep_neg(n: int)
    requires f_ok(n),
    ensures f_ok(-n);
// the integer nearest to n that is a double (the distance of doubles is 2 below 2^54, 16 below 2^57, 128 below 2^60)
pub uninterp spec fn f_near(n: int) -> int;
pub axiom fn axiom_near(n: int)
    requires -0x1000000000000000 < n < 0x1000000000000000,
    ensures
        f_of(n) == f_of(f_near(n)), f_rep(f_near(n)),
        f_ok(n) ==> f_near(n) == n, n >= 0 ==> f_near(n) >= 0,
        -0x40000000000000 < n < 0x40000000000000 ==> n - 1 <= f_near(n) <= n + 1,
        -0x200000000000000 < n < 0x200000000000000 ==> n - 8 <= f_near(n) <= n + 8,
        -0x1000000000000000 < n < 0x1000000000000000 ==> n - 64 <= f_near(n) <= n + 64;
#[verifier::external_body]
pub fn f_abs(a: f64) -> (r: f64)
    ensures forall|x: int| a == #[trigger] f_of(x) ==> r == f_of(if x < 0 { -x } else { x }),
{ a.abs() }
#[verifier::external_body]
pub fn v_f_u64(a: f64) -> (r: u64)
    ensures forall|x: int| a == #[trigger] f_of(x) && 0 <= x < 0x1000000000000000 ==> r == f_near(x),
{ a as u64 }
// f_of(0) is +0
#[verifier::external_body]
pub fn v_f_negative(a: f64) -> (r: bool)
    ensures forall|x: int| a == #[trigger] f_of(x) ==> r == (x < 0),
{ a.is_sign_negative() }
// what `{:.0}` writes
pub trait VShow0 {
    spec fn sp_f(&self) -> f64;
    fn v_show0(&self, t: &mut String)
        ensures forall|n: int| self.sp_f() == #[trigger] f_of(n) && f_int(n) ==> final(t)@ == old(t)@ + (if n < 0 { seq!['-'] + sp_dec(-n) } else { sp_dec(n) });
}
impl VShow0 for f64 {
    open spec fn sp_f(&self) -> f64 { *self }
    #[verifier::external_body]
    fn v_show0(&self, t: &mut String) { t.push_str(&format!("{self:.0}")) }
}
impl<'a> VShow0 for &'a f64 {
    open spec fn sp_f(&self) -> f64 { **self }
    #[verifier::external_body]
    fn v_show0(&self, t: &mut String) { t.push_str(&format!("{self:.0}")) }
}
