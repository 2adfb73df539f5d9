fn m_bus_parser::output::push_hex_token
  spec:
    ensures match r {
        Ok(_) => sp_tok(token@) && final(output)@ == old(output)@.push(sp_byte(token@)),
        Err(_) => !sp_tok(token@) && final(output)@ == old(output)@,
    },
  start:
        let ghost d = sp_bare(token@);
        proof {
            lemma_prefixes(token@);
            if sp_tok(token@) { lemma_hex_ascii(d); }
        }
  loop 0 before:
        proof { assert(digits@ == d); }
  loop 0:
        invariant_except_break $m0,
        invariant
            $it.ok(), $it.pos == $i, $it.c@ == d,
            $m0 ==> forall|j: int| 0 <= j < $i ==> sp_hv(#[trigger] d[j]) >= 0,
        ensures $m0 == sp_hexs(d),
        decreases d.len() - $i,
  loop 0 start:
        proof { assert(d[$i - 1] == character); }
  loop 0 after:
        proof {
            if $m0 { lemma_hex_ascii(d); }
        }

fn m_bus_parser::output::decode_hex_bytes
  spec:
    ensures match r {
        Ok(b) => sp_hex_ok(sp_trim(input@)) && b@ == sp_hex_bytes(sp_trim(input@)),
        Err(_) => !sp_hex_ok(sp_trim(input@)),
    },
  start:
        let ghost t = sp_trim(input@);
        proof {
            lemma_bytes_pos(t);
            if sp_hexs(t) { lemma_hex_ascii(t); }
        }
  loop 0:
        invariant_except_break $m0,
        invariant
            $it.ok(), $it.pos == $i, $it.c@ == t,
            $m0 ==> forall|j: int| 0 <= j < $i ==> sp_hv(#[trigger] t[j]) >= 0,
        ensures $m0 == sp_hexs(t),
        decreases t.len() - $i,
  loop 0 start:
        proof { assert(t[$i - 1] == character); }
  loop 1:
        invariant
            $i <= $e, $e == t.len(), t.len() % 2 == 0, sp_hexs(t), sp_ascii(t), trimmed@ == t, $i % 2 == 0,
            v_col@.len() == $i / 2, forall|j: int| 0 <= j < v_col@.len() ==> #[trigger] v_col@[j] == sp_pair(t, 2 * j),
        decreases $e - $i,
  loop 1 start:
        proof { assert(sp_hv(t[index as int]) >= 0 && sp_hv(t[index + 1]) >= 0); }
  loop 1 after:
        proof { assert(v_col@ =~= sp_hex_bytes(t)); }
  loop 2 before:
        let ghost __ty: Seq<u8> = bytes@;
        proof { assert(bytes@ =~= sp_vals(sp_scan(t.take(0)).0)); assert(token@ =~= Seq::<char>::empty()); }
  loop 2:
        invariant
            $it.ok(), $it.pos == $i, $it.c@.len() == t.len(), !sp_hexs(t), t == sp_trim(input@),
            forall|j: int| 0 <= j < t.len() ==> (#[trigger] $it.c@[j]).1 == t[j],
            sp_scan(t.take($i as int)).1 == token@, sp_toks(sp_scan(t.take($i as int)).0), bytes@ == sp_vals(sp_scan(t.take($i as int)).0),
        ensures $i == t.len(),
        decreases t.len() - $i,
  loop 2 start:
        let ghost b0 = bytes@;
        proof {
            let k = $i as int;
            assert(t.take(k).drop_last() =~= t.take(k - 1));
            assert(t.take(k).last() == character);
            lemma_bytes_pos(token@);
            let w = sp_scan(t.take(k - 1)).0;
            let c = token@;
            assert(sp_vals(w.push(c)) =~= sp_vals(w).push(sp_byte(c)));
            assert forall|i: int| 0 <= i < w.push(c).len() && sp_tok(c) implies sp_tok(#[trigger] w.push(c)[i]) by { if i < w.len() { assert(w.push(c)[i] == w[i]); } }
            if sp_sep(character) && c.len() > 0 && !sp_tok(c) {
                assert(w.push(c)[w.len() as int] == c);
                lemma_bad(t, k, w.len() as int);
            }
        }
  loop 2 after:
        proof {
            let w = sp_scan(t).0;
            let c = token@;
            assert(t.take(t.len() as int) =~= t);
            lemma_bytes_pos(c);
            assert(sp_vals(w.push(c)) =~= sp_vals(w).push(sp_byte(c)));
            assert forall|i: int| 0 <= i < w.push(c).len() && sp_tok(c) implies sp_tok(#[trigger] w.push(c)[i]) by { if i < w.len() { assert(w.push(c)[i] == w[i]); } }
            assert(w.push(c)[w.len() as int] == c);
        }

fn m_bus_parser::output::decode_hex
  spec:
    ensures if sp_hex_ok(sp_trim(input@)) {
            match sp_decoded(sp_hex_bytes(sp_trim(input@)), *options) { Ok(d) => r is Ok && sp_same_decoded(r->Ok_0, d), Err(_) => r is Err }
        } else { r is Err },

fn m_bus_parser::output::decode_bytes
  spec:
    ensures r == sp_decoded(data@, *options),

fn m_bus_parser::output::decode_data_records_hex
  spec:
    ensures if sp_hex_ok(sp_trim(input@)) { r == sp_records_of(sp_hex_bytes(sp_trim(input@))) } else { r is Err },

fn m_bus_parser::output::decode_data_records
  spec:
    ensures r == sp_records_of(data@),

fn m_bus_parser::output::render_hex
  spec:
    ensures if sp_hex_ok(sp_trim(input@)) { r == sp_rendered(sp_hex_bytes(sp_trim(input@)), format, *options) } else { r is Err },

fn m_bus_parser::output::render_bytes
  spec:
    ensures r == sp_rendered(data@, format, *options),
