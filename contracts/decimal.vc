fn m_bus_parser::output::split_sign
  spec:
    ensures r.0 == sp_neg(value@), r.1@ == sp_mag(value@),
  start:
        proof {
            if sp_neg(value@) { assert(value@.take(1) =~= seq!['-']); }
            if value@.len() > 0 { assert(value@.take(1)[0] == value@[0]); }
        }

fn m_bus_parser::output::add_abs
  spec:
    requires sp_dig(left@), sp_dig(right@), left@.len() > 0, right@.len() > 0,
    ensures sp_dig(r@), sp_lead(r@), sp_num(r@) == sp_num(left@) + sp_num(right@),
  start:
        let ghost total = sp_num(left@) + sp_num(right@);
        proof { lemma_dig_bytes(left@); lemma_dig_bytes(right@); }
  loop 0 before:
        let ghost __ty: Seq<u8> = output@;
  loop 0:
        invariant
            left.ok(), right.ok(), left.back, right.back, sp_bdig(left.rest()), sp_bdig(right.rest()), sp_bdig(output@), carry <= 1,
            sp_av(output@, output@.len() as int) + sp_p10(output@.len() as int) * (sp_bnum(left.rest()) + sp_bnum(right.rest()) + carry) == total,
            output@.len() > 0 || left.rest().len() > 0,
        ensures sp_bdig(output@), sp_av(output@, output@.len() as int) == total, output@.len() > 0,
        decreases left.rest().len() + right.rest().len() + carry,
  loop 0 start:
        let ghost l0 = left.rest();
        let ghost r0 = right.rest();
        let ghost c0 = carry;
        let ghost o0 = output@;
        proof {
            let z = sp_bnum(l0) + sp_bnum(r0) + c0;
            assert(z == 0 ==> sp_p10(o0.len() as int) * z == 0) by (nonlinear_arith);
        }
  loop 0 end:
        proof {
            let la = if l0.len() > 0 { l0.last() as int - 48 } else { 0 };
            let ra = if r0.len() > 0 { r0.last() as int - 48 } else { 0 };
            lemma_add_step(sp_av(o0, o0.len() as int), sp_p10(o0.len() as int), sp_bnum(l0), sp_bnum(left.rest()), la, sp_bnum(r0), sp_bnum(right.rest()), ra, c0 as int, la + ra + c0, total);
            lemma_av_push(o0, output@.last());
            assert(output@ =~= o0.push(output@.last()));
        }
  loop 1:
        invariant sp_bdig(output@), sp_av(output@, output@.len() as int) == total, output@.len() > 0,
        ensures sp_bdig(output@), sp_av(output@, output@.len() as int) == total, output@.len() > 0, output@.len() > 1 ==> output@.last() != 48,
        decreases output@.len(),
  loop 1 start:
        let ghost o1 = output@;
  loop 1 end:
        proof { lemma_av_drop(o1); }
  loop 1 after:
        proof { lemma_rev(output@); }

fn m_bus_parser::output::subtract_abs
  spec:
    requires sp_dig(larger@), sp_dig(smaller@), larger@.len() > 0, sp_num(larger@) >= sp_num(smaller@),
    ensures sp_dig(r@), sp_lead(r@), sp_num(r@) == sp_num(larger@) - sp_num(smaller@),
  start:
        let ghost total = sp_num(larger@) - sp_num(smaller@);
        proof { lemma_dig_bytes(larger@); lemma_dig_bytes(smaller@); }
  loop 0 before:
        let ghost __ty: Seq<u8> = output@;
  loop 0:
        invariant
            $it.ok(), smaller.ok(), $it.back, smaller.back, sp_bdig($it.rest()), sp_bdig(smaller.rest()), sp_bdig(output@), 0 <= borrow <= 1,
            sp_av(output@, output@.len() as int) + sp_p10(output@.len() as int) * (sp_bnum($it.rest()) - sp_bnum(smaller.rest()) - borrow) == total,
            output@.len() == $i, $i + $it.rest().len() == larger@.len(), larger@.len() <= usize::MAX,
        ensures sp_bdig(output@), output@.len() == larger@.len(), sp_bdig(smaller.rest()), 0 <= borrow <= 1,
            sp_av(output@, output@.len() as int) + sp_p10(output@.len() as int) * (0 - sp_bnum(smaller.rest()) - borrow) == total,
        decreases $it.rest().len(),
  loop 0 start:
        let ghost l2 = $it.rest();
        let ghost r0 = smaller.rest();
        let ghost b0 = borrow;
        let ghost o0 = output@;
  loop 0 end:
        proof {
            let ra = if r0.len() > 0 { r0.last() as int - 48 } else { 0 };
            let x = value as int - 48;
            lemma_sub_step(sp_av(o0, o0.len() as int), sp_p10(o0.len() as int), 10 * sp_bnum(l2) + x, sp_bnum(l2), x, sp_bnum(r0), sp_bnum(smaller.rest()), ra, b0 as int, output@.last() as int - 48, borrow as int, total);
            lemma_av_push(o0, output@.last());
            assert(output@ =~= o0.push(output@.last()));
        }
  loop 0 after:
        proof { lemma_sub_done(output@, smaller.rest(), borrow as int, total); }
  loop 1:
        invariant sp_bdig(output@), sp_av(output@, output@.len() as int) == total, output@.len() > 0,
        ensures sp_bdig(output@), sp_av(output@, output@.len() as int) == total, output@.len() > 0, output@.len() > 1 ==> output@.last() != 48,
        decreases output@.len(),
  loop 1 start:
        let ghost o1 = output@;
  loop 1 end:
        proof { lemma_av_drop(o1); }
  loop 1 after:
        proof { lemma_rev(output@); }

fn m_bus_parser::output::compare_abs
  spec:
    requires sp_dig(left@), sp_dig(right@),
    ensures sp_order(r, sp_num(left@) - sp_num(right@)),
  start:
        proof {
            assert forall|s: Seq<char>, k: int| sp_dig(s) && 0 <= k <= s.len() && (forall|i: int| 0 <= i < k ==> s[i] == '0') && (k < s.len() ==> s[k] != '0')
                implies sp_num(#[trigger] s.skip(k)) == sp_num(s) && sp_dig(s.skip(k)) && sp_bytes(s.skip(k)).len() == s.skip(k).len() && (s.skip(k).len() > 0 ==> s.skip(k)[0] != '0') by {
                lemma_num_trim(s, k);
                lemma_dig_skip(s, k);
                lemma_dig_bytes(s.skip(k));
            }
            assert forall|a: Seq<char>, b: Seq<char>| #![trigger sp_dig(a), sp_dig(b)] sp_dig(a) && sp_dig(b) && (a.len() > 0 ==> a[0] != '0') && (b.len() > 0 ==> b[0] != '0')
                implies (a.len() == b.len() ==> (sp_lex(a, b) < 0 <==> sp_num(a) < sp_num(b)) && (sp_lex(a, b) > 0 <==> sp_num(a) > sp_num(b)))
                && (a.len() < b.len() ==> sp_num(a) < sp_num(b)) && (a.len() > b.len() ==> sp_num(a) > sp_num(b)) by {
                lemma_compare(a, b);
            }
        }

fn m_bus_parser::output::add_signed_decimal_integers
  spec:
    requires sp_itext(left@), sp_itext(right@),
    ensures sp_itext(r@), sp_lead(sp_mag(r@)), sp_ival(r@) == sp_ival(left@) + sp_ival(right@),
  start:
        broadcast use lemma_minus, lemma_plus;
        proof { lemma_texts(); }

fn m_bus_parser::output::apply_power10
  spec:
    requires sp_itext(integer@), sp_lead(sp_mag(integer@)),
    ensures sp_decimal(r@, sp_ival(integer@), exponent as int),
  start:
        broadcast use lemma_plus;
        let ghost d = sp_mag(integer@);
        let ghost n = sp_num(d);
        let ghost e = exponent as int;
        proof { lemma_texts(); lemma_dig_bytes(d); }
  loop 0 before:
        let ghost b = sp_bytes(d);
        proof { assert(b.subrange(0, b.len() as int) =~= b); }
  loop 0:
        invariant_except_break $m0,
        invariant
            $it.ok(), !$it.back, $i <= b.len(), $it.rest() == b.subrange($i as int, b.len() as int), b == sp_bytes(d), b.len() <= usize::MAX,
            $m0 ==> forall|j: int| 0 <= j < $i ==> (#[trigger] b[j]) == 48,
        ensures
            $m0 ==> forall|j: int| 0 <= j < b.len() ==> (#[trigger] b[j]) == 48,
            !$m0 ==> exists|j: int| 0 <= j < b.len() && (#[trigger] b[j]) != 48,
        decreases b.len() - $i,
  loop 0 after:
        proof {
            if $m0 {
                assert forall|j: int| 0 <= j < d.len() implies (#[trigger] d[j]) == '0' by { assert(b[j] as char == d[j]); }
                lemma_num_zeros(d);
            } else {
                let j = choose|j: int| 0 <= j < b.len() && (#[trigger] b[j]) != 48;
                assert(b[j] as char == d[j]);
                lemma_num_pos(d, j);
            }
        }
  loop 1 before:
        let ghost k = if e >= 0 { 0 } else if d.len() > -e { d.len() + e } else { 1 };
        proof {
            if e >= 0 { lemma_zeros_tail(d, e); }
            else if d.len() > -e { lemma_point_in(d, k, e); }
            else {
                lemma_point_before(d, e);
                assert(Seq::<char>::empty() + "0."@ =~= "0."@);
            }
        }
  loop 1:
        invariant
            e >= 0 ==> sp_whole(output@, n, e), e < 0 ==> sp_point(output@, k, n, e),
        decreases output@.len(),
  loop 1 start:
        proof {
            if e >= 0 { lemma_no_point(output@); } else { lemma_point_drop(output@, k, n, e); }
        }
  loop 1 after:
        proof {
            if e >= 0 { lemma_no_point(output@); } else { lemma_point_end(output@, k, n, e); }
            let m = if output@.last() == '.' { output@.drop_last() } else { output@ };
            lemma_decimal(if negative { seq!['-'] + m } else { m }, m, k, negative, n, e);
        }

fn m_bus_parser::output::scaled_decimal
  spec:
    requires
        sp_itext(significand@), sp_lead(sp_mag(significand@)), -2000 <= scale <= 2000,
        match offset { Some(o) => -1000 <= o <= 1000, None => true },
    ensures sp_scaled(r@, sp_ival(significand@), scale as int, offset),
  start:
        broadcast use lemma_plus, lemma_minus;
        let ghost d = sp_mag(significand@);
        let ghost m = match offset { Some(o) => if o <= scale { o as int } else { scale as int }, None => scale as int };
        proof {
            lemma_texts();
            lemma_zeros_tail(d, scale - m);
            lemma_zeros_tail("1"@, match offset { Some(o) => o - m, None => 0 });
            assert(d + Seq::new(0, |i: int| '0') =~= d);
            assert(sp_num(d) * 1 == sp_num(d));
            let x = sp_num(d);
            let p = sp_p10(scale - m);
            assert((-x) * p == -(x * p)) by (nonlinear_arith);
        }

fn m_bus_parser::output::signed_le_decimal
  spec:
    ensures
        (r is None) == (bytes@.len() == 0),
        match r { Some(t) => sp_itext(t@) && sp_lead(sp_mag(t@)) && sp_ival(t@) == sp_twos(bytes@, bytes@.len() as int), None => true },
  start:
        broadcast use lemma_plus;
        let ghost n = bytes@.len() as int;
        let ghost want = if sp_twos(bytes@, n) < 0 { -sp_twos(bytes@, n) } else { sp_twos(bytes@, n) };
        proof {
            lemma_texts();
            lemma_le(bytes@, n);
            assert(bytes.len() == bytes@.len());
            assert(forall|x: u8| (#[trigger] (x & 0x80) != 0) <==> x >= 128) by (bit_vector);
            assert(forall|x: u8| #[trigger] !x == 255 - x) by (bit_vector);
            assert(forall|x: u16| #[trigger] (x >> 8) == x / 256) by (bit_vector);
            assert(forall|x: u16| (#[trigger] (x as u8)) == x % 256) by (bit_vector);
        }
  loop 0:
        invariant $i <= $e, $e == bytes@.len(), $s@ == bytes@, value@.len() == $i, forall|j: int| 0 <= j < $i ==> (#[trigger] value@[j]) == 255 - bytes@[j],
        decreases $e - $i,
  loop 0 start:
        proof { assert(forall|x: u8| #[trigger] !x == 255 - x) by (bit_vector); }
  loop 1 before:
        let ghost c = value@;
        proof { assert(1 * sp_p256(0) == 1); }
  loop 1:
        invariant
            $i <= $e, $e == value@.len(), value@.len() == c.len(), carry <= 1, forall|j: int| $i <= j < c.len() ==> #[trigger] value@[j] == c[j],
            sp_le_n(value@, $i as int) + carry as int * sp_p256($i as int) == sp_le_n(c, $i as int) + 1,
        ensures carry == 0 || $i == $e,
        decreases $e - $i,
  loop 1 start:
        let ghost s0 = value@;
        let ghost c0 = carry;
        proof {
            assert(forall|x: u16| #[trigger] (x >> 8) == x / 256) by (bit_vector);
            assert(forall|x: u16| (#[trigger] (x as u8)) == x % 256) by (bit_vector);
            assert forall|t: Seq<u8>| t.len() == s0.len() && (forall|j: int| 0 <= j < $i ==> s0[j] == t[j]) && t[$i as int] == (c[$i as int] as int + c0) % 256
                implies (#[trigger] sp_le_n(t, $i + 1)) + ((c[$i as int] as int + c0) / 256) * sp_p256($i + 1) == sp_le_n(c, $i + 1) + 1 by {
                lemma_inc(s0, t, c, $i as int, c0 as int, c[$i as int] as int + c0);
            }
        }
  loop 1 after:
        proof { lemma_magnitude(bytes@, c, value@, $i as int, carry as int); }
  loop 2 before:
        let ghost __ty: Seq<u8> = digits@;
        let ghost mag = magnitude@;
        proof {
            assert(sp_lv(digits@, 1) == 0) by { reveal_with_fuel(sp_lv, 2); }
            lemma_hi(mag, 0);
            assert(sp_p256(0) * sp_hi(mag, 0) == sp_hi(mag, 0));
            if !negative { assert(mag =~= bytes@); }
        }
  loop 2:
        invariant
            $i <= mag.len(), $s@ == mag, digits@.len() > 0, sp_nine(digits@), sp_lv(digits@, digits@.len() as int) == sp_hi(mag, $i as int),
        decreases $i,
  loop 2 start:
        let ghost o = digits@;
        proof { assert((*byte as int) * 1 == *byte); }
  loop 2 after:
        proof { assert(sp_lv(digits@, digits@.len() as int) == want); }
  loop 3 before:
        let ghost __ty: u16 = carry;
  loop 3:
        invariant
            $i <= $e, $e == digits@.len(), digits@.len() == o.len(), carry <= 255, sp_nine(o),
            forall|j: int| $i <= j < o.len() ==> #[trigger] digits@[j] == o[j],
            sp_nine(digits@),
            sp_lv(digits@, $i as int) + carry as int * sp_p10($i as int) == 256 * sp_lv(o, $i as int) + *byte as int,
        decreases $e - $i,
  loop 3 start:
        let ghost s0 = digits@;
        let ghost c0 = carry;
  loop 3 end:
        proof { lemma_shift(s0, digits@, o, $i - 1, *byte as int, c0 as int, o[$i - 1] as int * 256 + c0); }
  loop 4 before:
        let ghost total = 256 * sp_lv(o, o.len() as int) + *byte as int;
  loop 4:
        invariant
            digits@.len() > 0, sp_nine(digits@), carry <= 255,
            sp_lv(digits@, digits@.len() as int) + carry as int * sp_p10(digits@.len() as int) == total,
        decreases carry,
  loop 4 start:
        proof { lemma_carry(digits@, carry as int, total); }
  loop 4 after:
        proof { assert(0 * sp_p10(digits@.len() as int) == 0); }
  loop 5:
        invariant digits@.len() > 0, sp_nine(digits@), sp_lv(digits@, digits@.len() as int) == want,
        ensures digits@.len() > 0, sp_nine(digits@), sp_lv(digits@, digits@.len() as int) == want, digits@.len() > 1 ==> digits@.last() != 0,
        decreases digits@.len(),
  loop 5 start:
        proof { if digits@.last() == 0 { lemma_lv_drop(digits@); } }
  loop 6:
        invariant
            $i <= digits@.len(), $s@ == digits@, sp_nine(digits@), value@.len() == digits@.len() - $i, sp_dig(value@),
            digits@.len() > 1 ==> digits@.last() != 0, value@.len() > 1 ==> value@[0] != '0', value@.len() > 0 ==> value@[0] == ((48 + digits@.last()) as u8) as char,
            sp_num(value@) * sp_p10($i as int) + sp_lv(digits@, $i as int) == want,
        decreases $i,
  loop 6 start:
        proof { lemma_write(value@, digits@, $i + 1, want); }
  loop 6 after:
        proof {
            assert(sp_num(value@) * sp_p10(0) == sp_num(value@));
            assert((seq!['-'] + value@).skip(1) =~= value@);
            assert(sp_num(value@) == want);
            if value@ =~= "0"@ { assert(want == 0); }
        }
