// Texts of the XML output.
// ---- text
pub open spec fn sp_xc(c: char) -> Seq<char> {
    if (c as u32) < 32 || c as u32 == 127 { seq![' '] } else if c == '&' { "&amp;"@ } else if c == '<' { "&lt;"@ } else if c == '>' { "&gt;"@ } else if c == '"' { "&quot;"@ } else { seq![c] }
}
pub open spec fn sp_xenc(s: Seq<char>) -> Seq<char>
    decreases s.len(),
{ if s.len() == 0 { Seq::empty() } else { sp_xenc(s.drop_last()) + sp_xc(s.last()) } }
pub open spec fn sp_el(a: Seq<char>, x: Seq<char>, b: Seq<char>) -> Seq<char> { Seq::<char>::empty() + a + x + b }
pub open spec fn sp_xopen() -> Seq<char> { Seq::<char>::empty() + "<?xml version=\"1.0\" encoding=\"ISO-8859-1\"?>\n"@ + "<MBusData>\n\n"@ }
