//@need m_bus_core::ManufacturerCode
//@need m_bus_core::ManufacturerCode::Display::fmt
// The text of a manufacturer code.
use crate::m_bus_core::ManufacturerCode;
pub open spec fn sp_man_text(m: ManufacturerCode) -> Seq<char> { seq![m.code[0], m.code[1], m.code[2]] }
impl VToStr for ManufacturerCode {
    open spec fn sp_str(&self) -> Seq<char> { sp_man_text(*self) }
    fn v_to_string(&self) -> (r: String) { let mut f = crate::dep::Formatter::v_start(); let _ = self.fmt(&mut f); proof { assert(Seq::<char>::empty() + sp_man_text(*self) =~= sp_man_text(*self)); } f.v_done() }
}
