fn m_bus_parser::rscada_xml::xml_encode
  loops: 1
  spec:
    ensures r@ == sp_xenc(text@),
  loop 0 before:
        proof { assert(text@.subrange(0, 0) =~= Seq::<char>::empty()); assert(text@.subrange(0, text@.len() as int) =~= text@); }
  loop 0:
        invariant text@.subrange(0, text@.len() as int) == text@, $it.ok(), $it.c@ == text@, $i == $it.pos, out@ == sp_xenc(text@.subrange(0, $i as int)),
        ensures $it.c@ == text@, out@ == sp_xenc(text@),
        decreases text@.len() - $it.pos,
  loop 0 start:
        let ghost was = out@;
        proof { assert(text@.subrange(0, $i as int).drop_last() =~= text@.subrange(0, $i - 1)); assert(text@.subrange(0, $i as int).last() == c); }
  loop 0 end:
        proof { assert(out@ =~= was + sp_xc(c)); assert(text@.subrange(0, text@.len() as int) =~= text@); }
