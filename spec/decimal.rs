use vstd::utf8::*;
// ---- numbers written with decimal digits, most significant first
pub open spec fn sp_dig(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> 48 <= (#[trigger] s[i]) as u32 <= 57 }
pub open spec fn sp_num(s: Seq<char>) -> int
    decreases s.len(),
{ if s.len() == 0 { 0 } else { 10 * sp_num(s.drop_last()) + (s.last() as int - 48) } }
// no superfluous leading zero
pub open spec fn sp_lead(s: Seq<char>) -> bool { s.len() >= 1 && (s.len() > 1 ==> s[0] != '0') }
// a sign in front of the digits
pub open spec fn sp_neg(s: Seq<char>) -> bool { s.len() > 0 && s[0] == '-' }
pub open spec fn sp_mag(s: Seq<char>) -> Seq<char> { if sp_neg(s) { s.skip(1) } else { s } }
pub open spec fn sp_itext(s: Seq<char>) -> bool { sp_mag(s).len() > 0 && sp_dig(sp_mag(s)) }
pub open spec fn sp_ival(s: Seq<char>) -> int { if sp_neg(s) { -sp_num(sp_mag(s)) } else { sp_num(s) } }

// ---- the same on bytes
pub open spec fn sp_bdig(s: Seq<u8>) -> bool { forall|i: int| 0 <= i < s.len() ==> 48 <= (#[trigger] s[i]) <= 57 }
pub open spec fn sp_bnum(s: Seq<u8>) -> int
    decreases s.len(),
{ if s.len() == 0 { 0 } else { 10 * sp_bnum(s.drop_last()) + (s.last() as int - 48) } }
// digits least significant first
pub open spec fn sp_av(s: Seq<u8>, n: int) -> int
    decreases n,
{ if n <= 0 { 0 } else { sp_av(s, n - 1) + (s[n - 1] as int - 48) * sp_p10(n - 1) } }

pub proof fn lemma_dig_bytes(s: Seq<char>)
    requires sp_dig(s),
    ensures sp_bytes(s).len() == s.len(), sp_bdig(sp_bytes(s)), sp_bnum(sp_bytes(s)) == sp_num(s), sp_ascii(s),
        forall|i: int| 0 <= i < s.len() ==> (#[trigger] sp_bytes(s)[i]) as char == s[i],
{
    assert(forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) as u32 <= 127);
    is_ascii_chars_encode_utf8(s);
    let b = sp_bytes(s);
    assert(forall|i: int| 0 <= i < s.len() ==> (#[trigger] b[i]) as char == s[i]);
    lemma_same_num(s, b);
}
pub proof fn lemma_same_num(s: Seq<char>, b: Seq<u8>)
    requires s.len() == b.len(), sp_dig(s), forall|i: int| 0 <= i < s.len() ==> (#[trigger] b[i]) as char == s[i],
    ensures sp_bdig(b), sp_bnum(b) == sp_num(s),
    decreases s.len(),
{
    assert forall|i: int| 0 <= i < b.len() implies 48 <= (#[trigger] b[i]) <= 57 by { assert(s[i] as u32 <= 57); }
    if s.len() > 0 {
        lemma_same_num(s.drop_last(), b.drop_last());
        assert(b[s.len() - 1] as char == s[s.len() - 1]);
    }
}
pub proof fn lemma_num_bound(s: Seq<char>)
    requires sp_dig(s),
    ensures 0 <= sp_num(s) < sp_p10(s.len() as int),
    decreases s.len(),
{
    if s.len() > 0 { lemma_num_bound(s.drop_last()); }
}
pub proof fn lemma_av_bound(s: Seq<u8>, n: int)
    requires sp_bdig(s), 0 <= n <= s.len(),
    ensures 0 <= sp_av(s, n) < sp_p10(n),
    decreases n,
{
    if n > 0 {
        lemma_av_bound(s, n - 1);
        let g = s[n - 1] as int - 48;
        let p = sp_p10(n - 1);
        assert(0 <= g * p <= 9 * p) by (nonlinear_arith) requires 0 <= g <= 9, p >= 1;
    }
}
pub proof fn lemma_av_same(s: Seq<u8>, t: Seq<u8>, n: int)
    requires n <= s.len(), n <= t.len(), forall|i: int| 0 <= i < n ==> #[trigger] s[i] == t[i],
    ensures sp_av(s, n) == sp_av(t, n),
    decreases n,
{
    if n > 0 { lemma_av_same(s, t, n - 1); }
}
pub proof fn lemma_av_push(s: Seq<u8>, x: u8)
    ensures sp_av(s.push(x), s.len() as int + 1) == sp_av(s, s.len() as int) + (x as int - 48) * sp_p10(s.len() as int),
{
    lemma_av_same(s, s.push(x), s.len() as int);
}
// dropping a zero at the most significant end
pub proof fn lemma_av_drop(s: Seq<u8>)
    requires s.len() > 0, s.last() == 48,
    ensures sp_av(s.drop_last(), s.len() - 1) == sp_av(s, s.len() as int),
{
    lemma_av_same(s, s.drop_last(), s.len() - 1);
    let g = s.last() as int - 48;
    assert(g * sp_p10(s.len() - 1) == 0) by (nonlinear_arith) requires g == 0;
}
// one step of adding: what is left of both numbers gives up a digit each
pub proof fn lemma_add_step(out: int, p: int, l: int, l2: int, a: int, r: int, r2: int, b: int, carry: int, sum: int, total: int)
    requires
        out + p * (l + r + carry) == total, l == 10 * l2 + a, r == 10 * r2 + b, sum == a + b + carry,
    ensures
        out + (sum % 10) * p + (10 * p) * (l2 + r2 + sum / 10) == total,
{
    assert(sum == 10 * (sum / 10) + sum % 10);
    assert((sum % 10) * p + (10 * p) * (l2 + r2 + sum / 10) == p * (l + r + carry)) by (nonlinear_arith)
        requires l == 10 * l2 + a, r == 10 * r2 + b, sum == a + b + carry, sum == 10 * (sum / 10) + sum % 10;
}
pub proof fn lemma_sub_step(out: int, p: int, l: int, l2: int, a: int, r: int, r2: int, b: int, bo: int, d: int, bo2: int, total: int)
    requires
        out + p * (l - r - bo) == total, l == 10 * l2 + a, r == 10 * r2 + b, d == a - bo - b + 10 * bo2,
    ensures
        out + d * p + (10 * p) * (l2 - r2 - bo2) == total,
{
    assert(d * p + (10 * p) * (l2 - r2 - bo2) == p * (l - r - bo)) by (nonlinear_arith)
        requires l == 10 * l2 + a, r == 10 * r2 + b, d == a - bo - b + 10 * bo2;
}
// reversed digits as a text
pub open spec fn sp_text_of(s: Seq<u8>) -> Seq<char> { s.map_values(|x: u8| x as char) }
pub proof fn lemma_rev(s: Seq<u8>)
    requires sp_bdig(s),
    ensures
        sp_dig(sp_text_of(s.reverse())), sp_num(sp_text_of(s.reverse())) == sp_av(s, s.len() as int), sp_text_of(s.reverse()).len() == s.len(),
{
    let t = sp_text_of(s.reverse());
    assert forall|i: int| 0 <= i < t.len() implies 48 <= (#[trigger] t[i]) as u32 <= 57 by { assert(s.reverse()[i] == s[s.len() - 1 - i]); }
    lemma_rev_at(s, t, s.len() as int);
    assert(t.take(s.len() as int) =~= t);
}
pub proof fn lemma_rev_at(s: Seq<u8>, t: Seq<char>, k: int)
    requires sp_bdig(s), t.len() == s.len(), 0 <= k <= s.len(), forall|i: int| 0 <= i < s.len() ==> #[trigger] t[i] == s[s.len() - 1 - i] as char,
    ensures sp_num(t.take(k)) * sp_p10(s.len() - k) + sp_av(s, s.len() - k) == sp_av(s, s.len() as int),
    decreases k,
{
    if k > 0 {
        lemma_rev_at(s, t, k - 1);
        assert(t.take(k).drop_last() =~= t.take(k - 1));
        assert(t[k - 1] == s[s.len() - k] as char);
        let x = sp_num(t.take(k - 1));
        let g = s[s.len() - k] as int - 48;
        let p = sp_p10(s.len() - k);
        assert(sp_p10(s.len() - k + 1) == 10 * p);
        assert((10 * x + g) * p == x * (10 * p) + g * p) by (nonlinear_arith);
    } else {
        assert(t.take(0) =~= Seq::<char>::empty());
        assert(0 * sp_p10(s.len() - k) == 0);
    }
}
// leading zeros do not count
pub proof fn lemma_num_split(s: Seq<char>, k: int)
    requires 0 <= k <= s.len(),
    ensures sp_num(s) == sp_num(s.take(k)) * sp_p10(s.len() - k) + sp_num(s.skip(k)),
    decreases s.len() - k,
{
    if k == s.len() {
        assert(s.take(k) =~= s);
        assert(s.skip(k) =~= Seq::<char>::empty());
    } else {
        lemma_num_split(s.drop_last(), k);
        assert(s.drop_last().take(k) =~= s.take(k));
        assert(s.drop_last().skip(k) =~= s.skip(k).drop_last());
        let x = sp_num(s.take(k));
        let p = sp_p10(s.len() - 1 - k);
        assert(10 * (x * p) == x * (10 * p)) by (nonlinear_arith);
    }
}
pub proof fn lemma_num_zeros(s: Seq<char>)
    requires forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) == '0',
    ensures sp_num(s) == 0,
    decreases s.len(),
{
    if s.len() > 0 { lemma_num_zeros(s.drop_last()); }
}
pub proof fn lemma_num_trim(s: Seq<char>, k: int)
    requires 0 <= k <= s.len(), forall|i: int| 0 <= i < k ==> (#[trigger] s[i]) == '0',
    ensures sp_num(s.skip(k)) == sp_num(s),
{
    lemma_num_split(s, k);
    assert forall|i: int| 0 <= i < k implies (#[trigger] s.take(k)[i]) == '0' by { assert(s[i] == '0'); }
    lemma_num_zeros(s.take(k));
    assert(0 * sp_p10(s.len() - k) == 0);
}
// the first digit
pub proof fn lemma_num_first(s: Seq<char>)
    requires sp_dig(s), s.len() > 0,
    ensures sp_num(s) == (s[0] as int - 48) * sp_p10(s.len() - 1) + sp_num(s.skip(1)), s[0] != '0' ==> sp_num(s) >= sp_p10(s.len() - 1),
{
    lemma_num_split(s, 1);
    assert(s.take(1).drop_last() =~= Seq::<char>::empty());
    assert(sp_num(s.take(1).drop_last()) == 0);
    assert(s.take(1).last() == s[0]);
    assert(sp_num(s.take(1)) == s[0] as int - 48);
    assert(sp_dig(s.skip(1))) by { assert forall|i: int| 0 <= i < s.len() - 1 implies 48 <= (#[trigger] s.skip(1)[i]) as u32 <= 57 by { assert(s[i + 1] as u32 <= 57); } }
    lemma_num_bound(s.skip(1));
    if s[0] != '0' {
        let g = s[0] as int - 48;
        let p = sp_p10(s.len() - 1);
        lemma_p10_mono(0, s.len() - 1);
        assert(g >= 1);
        assert(g * p >= p) by (nonlinear_arith) requires g >= 1, p >= 1;
    }
}
pub proof fn lemma_dig_skip(s: Seq<char>, k: int)
    requires sp_dig(s), 0 <= k <= s.len(),
    ensures sp_dig(s.skip(k)), sp_dig(s.take(k)),
{
    assert forall|i: int| 0 <= i < s.len() - k implies 48 <= (#[trigger] s.skip(k)[i]) as u32 <= 57 by { assert(s[i + k] as u32 <= 57); }
    assert forall|i: int| 0 <= i < k implies 48 <= (#[trigger] s.take(k)[i]) as u32 <= 57 by { assert(s[i] as u32 <= 57); }
}
pub proof fn lemma_lex(a: Seq<char>, b: Seq<char>)
    requires a.len() == b.len(), sp_dig(a), sp_dig(b),
    ensures sp_lex(a, b) < 0 <==> sp_num(a) < sp_num(b), sp_lex(a, b) > 0 <==> sp_num(a) > sp_num(b),
    decreases a.len(),
{
    if a.len() > 0 {
        lemma_num_first(a);
        lemma_num_first(b);
        lemma_dig_skip(a, 1);
        lemma_dig_skip(b, 1);
        lemma_lex(a.skip(1), b.skip(1));
        lemma_num_bound(a.skip(1));
        lemma_num_bound(b.skip(1));
        let p = sp_p10(a.len() - 1);
        let x = a[0] as int - 48;
        let y = b[0] as int - 48;
        assert(x < y ==> x * p + p <= y * p) by (nonlinear_arith) requires p >= 1;
        assert(y < x ==> y * p + p <= x * p) by (nonlinear_arith) requires p >= 1;
    }
}
pub proof fn lemma_compare(a: Seq<char>, b: Seq<char>)
    requires sp_dig(a), sp_dig(b), a.len() > 0 ==> a[0] != '0', b.len() > 0 ==> b[0] != '0',
    ensures
        a.len() < b.len() ==> sp_num(a) < sp_num(b), a.len() > b.len() ==> sp_num(a) > sp_num(b),
        a.len() == b.len() ==> (sp_lex(a, b) < 0 <==> sp_num(a) < sp_num(b)) && (sp_lex(a, b) > 0 <==> sp_num(a) > sp_num(b)),
{
    lemma_num_bound(a);
    lemma_num_bound(b);
    if a.len() > 0 { lemma_num_first(a); }
    if b.len() > 0 { lemma_num_first(b); }
    if a.len() < b.len() { lemma_p10_mono(a.len() as int, b.len() - 1); }
    if a.len() > b.len() { lemma_p10_mono(b.len() as int, a.len() - 1); }
    if a.len() == b.len() { lemma_lex(a, b); }
}

pub proof fn lemma_sub_done(out: Seq<u8>, rest: Seq<u8>, borrow: int, total: int)
    requires sp_bdig(out), sp_bdig(rest), 0 <= borrow <= 1, total >= 0,
        sp_av(out, out.len() as int) + sp_p10(out.len() as int) * (0 - sp_bnum(rest) - borrow) == total,
    ensures sp_av(out, out.len() as int) == total,
{
    lemma_av_bound(out, out.len() as int);
    lemma_bnum_bound(rest);
    let z = 0 - sp_bnum(rest) - borrow;
    let p = sp_p10(out.len() as int);
    lemma_p10_mono(0, out.len() as int);
    assert(z < 0 ==> p * z <= -p) by (nonlinear_arith) requires p >= 1;
    assert(z == 0 ==> p * z == 0) by (nonlinear_arith);
}
pub proof fn lemma_bnum_bound(s: Seq<u8>)
    requires sp_bdig(s),
    ensures 0 <= sp_bnum(s),
    decreases s.len(),
{
    if s.len() > 0 { lemma_bnum_bound(s.drop_last()); }
}

// texts that start with digits have no sign
pub broadcast proof fn lemma_plus(s: Seq<char>)
    requires s.len() > 0, #[trigger] sp_dig(s),
    ensures !sp_neg(s), sp_mag(s) == s, sp_itext(s), sp_ival(s) == sp_num(s),
{
    assert(s[0] as u32 >= 48);
}
pub broadcast proof fn lemma_minus(e: Seq<char>, t: Seq<char>)
    requires e == Seq::<char>::empty(),
    ensures sp_neg(#[trigger] ((e + "-"@) + t)), sp_mag((e + "-"@) + t) == t,
{
    reveal_strlit("-");
    assert(((e + "-"@) + t).skip(1) =~= t);
}
pub proof fn lemma_texts()
    ensures "0"@ == seq!['0'], "1"@ == seq!['1'], "-"@ == seq!['-'], "."@ == seq!['.'], "0."@ == seq!['0', '.'],
        sp_dig("0"@), sp_num("0"@) == 0, sp_lead("0"@), sp_dig("1"@), sp_num("1"@) == 1,
{
    reveal_strlit("0");
    reveal_strlit("1");
    reveal_strlit("-");
    reveal_strlit(".");
    reveal_strlit("0.");
    assert("0"@ =~= seq!['0']);
    assert("1"@ =~= seq!['1']);
    assert("-"@ =~= seq!['-']);
    assert("."@ =~= seq!['.']);
    assert("0."@ =~= seq!['0', '.']);
    reveal_with_fuel(sp_num, 2);
}

// ---- the canonical text of n * 10^e
// k digits stand before the decimal point
pub open spec fn sp_point(m: Seq<char>, k: int, n: int, e: int) -> bool {
    &&& 0 < k < m.len() && sp_dig(m.take(k)) && sp_lead(m.take(k)) && m[k] == '.' && sp_dig(m.skip(k + 1))
    &&& m.len() - k - 1 <= -e
    &&& sp_num(m.take(k) + m.skip(k + 1)) * sp_p10(-e - (m.len() - k - 1)) == n
}
pub open spec fn sp_whole(m: Seq<char>, n: int, e: int) -> bool {
    sp_dig(m) && sp_lead(m) && (if e >= 0 { sp_num(m) == n * sp_p10(e) } else { sp_num(m) * sp_p10(-e) == n })
}
pub open spec fn sp_unsigned(m: Seq<char>, n: int, e: int) -> bool {
    sp_whole(m, n, e) || (m.len() > 0 && m.last() != '0' && m.last() != '.' && exists|k: int| sp_point(m, k, n, e))
}
pub open spec fn sp_decimal(t: Seq<char>, n: int, e: int) -> bool {
    if n == 0 { t == seq!['0'] } else { sp_neg(t) == (n < 0) && sp_unsigned(sp_mag(t), if n < 0 { -n } else { n }, e) }
}
pub proof fn lemma_zeros_tail(s: Seq<char>, n: int)
    requires n >= 0, sp_dig(s),
    ensures ({
        let t = s + Seq::new(n as nat, |i: int| '0');
        sp_dig(t) && sp_num(t) == sp_num(s) * sp_p10(n)
    }),
{
    let t = s + Seq::new(n as nat, |i: int| '0');
    lemma_num_split(t, s.len() as int);
    assert(t.take(s.len() as int) =~= s);
    lemma_num_zeros(t.skip(s.len() as int));
}
pub proof fn lemma_num_pos(s: Seq<char>, k: int)
    requires sp_dig(s), 0 <= k < s.len(), s[k] != '0',
    ensures sp_num(s) > 0,
{
    lemma_num_split(s, k);
    lemma_dig_skip(s, k);
    lemma_num_first(s.skip(k));
    lemma_num_bound(s.take(k));
    lemma_p10_mono(0, s.len() - k);
    lemma_p10_mono(0, s.len() - k - 1);
    let x = sp_num(s.take(k));
    let p = sp_p10(s.len() - k);
    assert(x * p >= 0) by (nonlinear_arith) requires x >= 0, p >= 1;
}
// placing the point inside the digits
pub proof fn lemma_point_in(d: Seq<char>, k: int, e: int)
    requires sp_dig(d), sp_lead(d), 0 < k < d.len(), e == -(d.len() - k),
    ensures sp_point(((Seq::<char>::empty() + d.subrange(0, k)) + "."@) + d.subrange(k, d.len() as int), k, sp_num(d), e),
{
    lemma_texts();
    let m = ((Seq::<char>::empty() + d.subrange(0, k)) + "."@) + d.subrange(k, d.len() as int);
    lemma_dig_skip(d, k);
    assert(m.take(k) =~= d.take(k));
    assert(m.skip(k + 1) =~= d.skip(k));
    assert(m.take(k) + m.skip(k + 1) =~= d);
}
pub proof fn lemma_point_before(d: Seq<char>, e: int)
    requires sp_dig(d), 0 < d.len() <= -e,
    ensures sp_point((("0."@ + Seq::new((-e - d.len()) as nat, |i: int| '0')) + d), 1, sp_num(d), e),
{
    lemma_texts();
    let z = Seq::new((-e - d.len()) as nat, |i: int| '0');
    let m = ("0."@ + z) + d;
    assert(m.take(1) =~= seq!['0']);
    assert(m.skip(2) =~= z + d);
    let w = m.take(1) + m.skip(2);
    assert(sp_dig(m.skip(2))) by { assert forall|i: int| 0 <= i < m.skip(2).len() implies 48 <= (#[trigger] m.skip(2)[i]) as u32 <= 57 by { if i >= z.len() { assert(d[i - z.len()] as u32 <= 57); } } }
    lemma_num_trim(w, (1 + z.len()) as int);
    assert(w.skip((1 + z.len()) as int) =~= d);
}
// dropping a zero at the end of the fraction
pub proof fn lemma_point_drop(m: Seq<char>, k: int, n: int, e: int)
    requires sp_point(m, k, n, e), m.last() == '0',
    ensures sp_point(m.drop_last(), k, n, e), k < m.len() - 1,
{
    let d = m.drop_last();
    assert(d.take(k) =~= m.take(k));
    assert(d.skip(k + 1) =~= m.skip(k + 1).drop_last());
    let w = m.take(k) + m.skip(k + 1);
    assert(w.drop_last() =~= d.take(k) + d.skip(k + 1));
    assert(w.last() == '0');
    lemma_dig_skip(m.skip(k + 1), m.len() - k - 2);
    assert(m.skip(k + 1).take(m.len() - k - 2) =~= d.skip(k + 1));
    let x = sp_num(w.drop_last());
    let p = sp_p10(-e - (m.len() - k - 1));
    assert(x * (10 * p) == (10 * x) * p) by (nonlinear_arith);
}
// the fraction has gone
pub proof fn lemma_point_end(m: Seq<char>, k: int, n: int, e: int)
    requires sp_point(m, k, n, e),
    ensures (m.last() == '.') == (k == m.len() - 1), m.last() == '.' ==> sp_whole(m.drop_last(), n, e) , m.contains('.'),
{
    assert(m[k] == '.');
    if k < m.len() - 1 {
        assert(m.last() == m.skip(k + 1)[m.len() - k - 2]);
    } else {
        assert(m.drop_last() =~= m.take(k));
        assert(m.take(k) + m.skip(k + 1) =~= m.take(k));
    }
}
pub proof fn lemma_no_point(m: Seq<char>)
    requires sp_dig(m), m.len() > 0,
    ensures !m.contains('.'), m.last() != '.',
{
    if m.contains('.') {
        let i = choose|i: int| 0 <= i < m.len() && m[i] == '.';
        assert(m[i] as u32 >= 48);
    }
    assert(m[m.len() - 1] as u32 >= 48);
}
pub proof fn lemma_decimal(t: Seq<char>, m: Seq<char>, k: int, neg: bool, n: int, e: int)
    requires
        n > 0, t == (if neg { seq!['-'] + m } else { m }),
        sp_whole(m, n, e) || (sp_point(m, k, n, e) && m.last() != '0' && m.last() != '.'),
    ensures sp_decimal(t, if neg { -n } else { n }, e), m != seq!['0'],
{
    if m == seq!['0'] {
        lemma_num_zeros(m);
        if sp_whole(m, n, e) {
            lemma_p10_mono(0, if e >= 0 { e } else { -e });
            assert(e >= 0 ==> n * sp_p10(e) > 0) by (nonlinear_arith) requires n > 0, e >= 0 ==> sp_p10(e) >= 1;
            assert(0 * sp_p10(-e) == 0);
        }
    }
    assert(sp_unsigned(m, n, e));
    if neg { assert(t.skip(1) =~= m); } else {
        if sp_whole(m, n, e) { assert(m[0] as u32 >= 48); } else { assert(m.take(k)[0] as u32 >= 48); assert(m[0] == m.take(k)[0]); }
    }
}
// n * 10^scale, plus 10^offset if there is an offset
pub open spec fn sp_scaled(t: Seq<char>, n: int, scale: int, offset: Option<isize>) -> bool {
    match offset {
        None => sp_decimal(t, n, scale),
        Some(o) => {
            let m = if o <= scale { o as int } else { scale };
            sp_decimal(t, n * sp_p10(scale - m) + sp_p10(o - m), m)
        }
    }
}

// ---- binary numbers to decimal digits
// digits 0..9, least significant first
pub open spec fn sp_nine(s: Seq<u8>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) <= 9 }
pub open spec fn sp_lv(s: Seq<u8>, n: int) -> int
    decreases n,
{ if n <= 0 { 0 } else { sp_lv(s, n - 1) + s[n - 1] as int * sp_p10(n - 1) } }
pub proof fn lemma_lv_same(s: Seq<u8>, t: Seq<u8>, n: int)
    requires n <= s.len(), n <= t.len(), forall|i: int| 0 <= i < n ==> #[trigger] s[i] == t[i],
    ensures sp_lv(s, n) == sp_lv(t, n),
    decreases n,
{
    if n > 0 { lemma_lv_same(s, t, n - 1); }
}
// the number of the bytes from i on, least significant first
pub open spec fn sp_hi(d: Seq<u8>, i: int) -> int
    decreases d.len() - i,
{ if i >= d.len() { 0 } else { d[i] as int + 256 * sp_hi(d, i + 1) } }
pub proof fn lemma_hi(d: Seq<u8>, i: int)
    requires 0 <= i <= d.len(),
    ensures sp_le_n(d, i) + sp_p256(i) * sp_hi(d, i) == sp_le_n(d, d.len() as int),
    decreases d.len() - i,
{
    if i < d.len() {
        lemma_hi(d, i + 1);
        let p = sp_p256(i);
        let b = d[i] as int;
        let h = sp_hi(d, i + 1);
        assert(p * (b + 256 * h) == b * p + (256 * p) * h) by (nonlinear_arith);
    } else {
        assert(sp_p256(i) * 0 == 0);
    }
}
pub proof fn lemma_le_not(b: Seq<u8>, c: Seq<u8>, n: int)
    requires 0 <= n <= b.len(), b.len() == c.len(), forall|i: int| 0 <= i < n ==> (#[trigger] c[i]) == 255 - b[i],
    ensures sp_le_n(c, n) == sp_p256(n) - 1 - sp_le_n(b, n),
    decreases n,
{
    if n > 0 {
        lemma_le_not(b, c, n - 1);
        let x = b[n - 1] as int;
        let p = sp_p256(n - 1);
        assert((255 - x) * p == 255 * p - x * p) by (nonlinear_arith);
    }
}
pub proof fn lemma_le_tail(s: Seq<u8>, t: Seq<u8>, i: int, n: int)
    requires 0 <= i <= n, n <= s.len(), n <= t.len(), forall|j: int| i <= j < n ==> #[trigger] s[j] == t[j],
    ensures sp_le_n(s, n) - sp_le_n(s, i) == sp_le_n(t, n) - sp_le_n(t, i),
    decreases n - i,
{
    if i < n { lemma_le_tail(s, t, i, n - 1); }
}
pub proof fn lemma_le_same(s: Seq<u8>, t: Seq<u8>, n: int)
    requires n <= s.len(), n <= t.len(), forall|i: int| 0 <= i < n ==> #[trigger] s[i] == t[i],
    ensures sp_le_n(s, n) == sp_le_n(t, n),
    decreases n,
{
    if n > 0 { lemma_le_same(s, t, n - 1); }
}
// adding one: byte i
pub proof fn lemma_inc(s: Seq<u8>, t: Seq<u8>, c: Seq<u8>, i: int, carry: int, sum: int)
    requires
        0 <= i < s.len(), s.len() == t.len(), s.len() == c.len(), forall|j: int| 0 <= j < i ==> #[trigger] s[j] == t[j],
        sp_le_n(s, i) + carry * sp_p256(i) == sp_le_n(c, i) + 1, sum == c[i] as int + carry, t[i] == sum % 256,
    ensures sp_le_n(t, i + 1) + (sum / 256) * sp_p256(i + 1) == sp_le_n(c, i + 1) + 1,
{
    lemma_le_same(s, t, i);
    let p = sp_p256(i);
    let b = c[i] as int;
    let q = sum / 256;
    let m = sum % 256;
    assert(m * p + q * (256 * p) == b * p + carry * p) by (nonlinear_arith) requires 256 * q + m == b + carry;
}
// the magnitude of a negative number
pub proof fn lemma_magnitude(b: Seq<u8>, c: Seq<u8>, v: Seq<u8>, i: int, carry: int)
    requires
        b.len() > 0, b.len() == c.len(), b.len() == v.len(), b.last() >= 128, forall|j: int| 0 <= j < b.len() ==> (#[trigger] c[j]) == 255 - b[j],
        0 <= i <= b.len(), forall|j: int| i <= j < b.len() ==> #[trigger] v[j] == c[j],
        sp_le_n(v, i) + carry * sp_p256(i) == sp_le_n(c, i) + 1, carry == 0 || i == b.len(), carry == 0 || carry == 1,
    ensures sp_le_n(v, v.len() as int) == -sp_twos(b, b.len() as int),
{
    let n = b.len() as int;
    lemma_le_not(b, c, n);
    lemma_le_tail(v, c, i, n);
    lemma_le(b, n);
    lemma_le(v, n);
    assert(0 * sp_p256(i) == 0);
    assert(1 * sp_p256(i) == sp_p256(i));
}
// times 256 plus a byte, digit i
pub proof fn lemma_shift(s: Seq<u8>, t: Seq<u8>, o: Seq<u8>, i: int, byte: int, carry: int, value: int)
    requires
        0 <= i < s.len(), s.len() == t.len(), s.len() == o.len(), forall|j: int| 0 <= j < i ==> #[trigger] s[j] == t[j],
        sp_lv(s, i) + carry * sp_p10(i) == 256 * sp_lv(o, i) + byte, value == o[i] as int * 256 + carry, t[i] == value % 10,
    ensures sp_lv(t, i + 1) + (value / 10) * sp_p10(i + 1) == 256 * sp_lv(o, i + 1) + byte,
{
    lemma_lv_same(s, t, i);
    let p = sp_p10(i);
    let b = o[i] as int;
    let q = value / 10;
    let m = value % 10;
    assert(m * p + q * (10 * p) == 256 * (b * p) + carry * p) by (nonlinear_arith) requires 10 * q + m == b * 256 + carry;
}
pub proof fn lemma_carry(s: Seq<u8>, carry: int, total: int)
    requires sp_lv(s, s.len() as int) + carry * sp_p10(s.len() as int) == total, 0 <= carry < 256,
    ensures sp_lv(s.push((carry % 10) as u8), s.len() as int + 1) + (carry / 10) * sp_p10(s.len() as int + 1) == total,
{
    lemma_lv_same(s, s.push((carry % 10) as u8), s.len() as int);
    let p = sp_p10(s.len() as int);
    let q = carry / 10;
    let m = carry % 10;
    assert(m * p + q * (10 * p) == carry * p) by (nonlinear_arith) requires 10 * q + m == carry;
}
pub proof fn lemma_lv_drop(s: Seq<u8>)
    requires s.len() > 0, s.last() == 0,
    ensures sp_lv(s.drop_last(), s.len() - 1) == sp_lv(s, s.len() as int),
{
    lemma_lv_same(s, s.drop_last(), s.len() - 1);
    assert(0 * sp_p10(s.len() - 1) == 0);
}
// one more digit written, most significant first
pub proof fn lemma_write(t: Seq<char>, s: Seq<u8>, i: int, total: int)
    requires 0 < i <= s.len(), s[i - 1] <= 9, sp_dig(t), sp_num(t) * sp_p10(i) + sp_lv(s, i) == total,
    ensures ({
        let u = t.push(((48 + s[i - 1]) as u8) as char);
        sp_dig(u) && sp_num(u) * sp_p10(i - 1) + sp_lv(s, i - 1) == total
    }),
{
    let c = ((48 + s[i - 1]) as u8) as char;
    let u = t.push(c);
    assert(u.drop_last() =~= t);
    assert forall|j: int| 0 <= j < u.len() implies 48 <= (#[trigger] u[j]) as u32 <= 57 by { if j < t.len() { assert(u[j] == t[j]); } }
    let x = sp_num(t);
    let g = s[i - 1] as int;
    let p = sp_p10(i - 1);
    assert((10 * x + g) * p == x * (10 * p) + g * p) by (nonlinear_arith);
}
