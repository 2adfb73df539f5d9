// Accepted spellings of bytes in hexadecimal.
pub open spec fn sp_hexs(t: Seq<char>) -> bool { forall|i: int| 0 <= i < t.len() ==> sp_hv(#[trigger] t[i]) >= 0 }
pub open spec fn sp_sep(c: char) -> bool {
    c as u32 == 32 || c as u32 == 9 || c as u32 == 10 || c as u32 == 12 || c as u32 == 13 || c == ':' || c == '-'
}
// a token without its prefix
pub open spec fn sp_bare(t: Seq<char>) -> Seq<char> {
    if t.len() >= 2 && t[0] == '0' && (t[1] == 'x' || t[1] == 'X') { t.skip(2) } else { t }
}
pub open spec fn sp_tok(t: Seq<char>) -> bool { sp_bare(t).len() == 2 && sp_hexs(sp_bare(t)) }
pub open spec fn sp_pair(t: Seq<char>, i: int) -> u8 { (16 * sp_hv(t[i]) + sp_hv(t[i + 1])) as u8 }
pub open spec fn sp_byte(t: Seq<char>) -> u8 { sp_pair(sp_bare(t), 0) }
// the tokens that have ended, and the one that has not
pub open spec fn sp_scan(t: Seq<char>) -> (Seq<Seq<char>>, Seq<char>)
    decreases t.len(),
{
    if t.len() == 0 { (Seq::empty(), Seq::empty()) }
    else {
        let (w, c) = sp_scan(t.drop_last());
        if !sp_sep(t.last()) { (w, c.push(t.last())) }
        else if c.len() > 0 { (w.push(c), Seq::empty()) }
        else { (w, c) }
    }
}
pub open spec fn sp_words(t: Seq<char>) -> Seq<Seq<char>> {
    if sp_scan(t).1.len() > 0 { sp_scan(t).0.push(sp_scan(t).1) } else { sp_scan(t).0 }
}
pub open spec fn sp_toks(w: Seq<Seq<char>>) -> bool { forall|i: int| 0 <= i < w.len() ==> sp_tok(#[trigger] w[i]) }
pub open spec fn sp_vals(w: Seq<Seq<char>>) -> Seq<u8> { Seq::new(w.len(), |i: int| sp_byte(w[i])) }
pub open spec fn sp_hex_ok(t: Seq<char>) -> bool {
    if sp_hexs(t) { t.len() > 0 && t.len() % 2 == 0 } else { sp_words(t).len() > 0 && sp_toks(sp_words(t)) }
}
pub open spec fn sp_hex_bytes(t: Seq<char>) -> Seq<u8> {
    if sp_hexs(t) { Seq::new((t.len() / 2) as nat, |i: int| sp_pair(t, 2 * i)) } else { sp_vals(sp_words(t)) }
}
// tokens that have ended stay
pub proof fn lemma_scan(t: Seq<char>, k: int)
    requires 0 <= k <= t.len(),
    ensures
        sp_scan(t.take(k)).0.len() <= sp_scan(t).0.len(),
        forall|i: int| 0 <= i < sp_scan(t.take(k)).0.len() ==> #[trigger] sp_scan(t).0[i] == sp_scan(t.take(k)).0[i],
    decreases t.len(),
{
    if k < t.len() {
        lemma_scan(t.drop_last(), k);
        assert(t.drop_last().take(k) =~= t.take(k));
    } else { assert(t.take(k) =~= t); }
}
pub proof fn lemma_bad(t: Seq<char>, k: int, i: int)
    requires 0 <= k <= t.len(), 0 <= i < sp_scan(t.take(k)).0.len(), !sp_tok(sp_scan(t.take(k)).0[i]),
    ensures !sp_toks(sp_words(t)),
{
    lemma_scan(t, k);
    assert(sp_words(t)[i] == sp_scan(t).0[i]);
}
pub proof fn lemma_hex_ascii(t: Seq<char>)
    requires sp_hexs(t),
    ensures sp_ascii(t), sp_bytes(t).len() == t.len(),
{
    assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]) as u32 <= 127 by { assert(sp_hv(t[i]) >= 0); }
    vstd::utf8::is_ascii_chars_encode_utf8(t);
}
pub proof fn lemma_bytes_pos(t: Seq<char>)
    ensures (sp_bytes(t).len() == 0) == (t.len() == 0),
{ reveal_with_fuel(vstd::utf8::encode_utf8, 2); }
pub proof fn lemma_prefixes(t: Seq<char>)
    ensures
        "0x"@ == seq!['0', 'x'], "0X"@ == seq!['0', 'X'],
        t.len() >= 2 ==> (t.take(2) == "0x"@ <==> t[0] == '0' && t[1] == 'x') && (t.take(2) == "0X"@ <==> t[0] == '0' && t[1] == 'X'),
{
    reveal_strlit("0x");
    reveal_strlit("0X");
    assert("0x"@ =~= seq!['0', 'x']);
    assert("0X"@ =~= seq!['0', 'X']);
    if t.len() >= 2 {
        assert(t.take(2)[0] == t[0] && t.take(2)[1] == t[1]);
        if t[0] == '0' && t[1] == 'x' { assert(t.take(2) =~= seq!['0', 'x']); }
        if t[0] == '0' && t[1] == 'X' { assert(t.take(2) =~= seq!['0', 'X']); }
    }
}
