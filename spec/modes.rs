//@need m_bus_core::SecurityMode
//@need m_bus_core::SecurityMode::Display::fmt
use crate::m_bus_core::*;

// the names of the security modes
pub open spec fn sp_mode_text(x: SecurityMode) -> Seq<char> {
    match x {
        SecurityMode::NoEncryption => "No encryption used"@,
        SecurityMode::ManufacturerSpecific => "Manufacturer specific usage"@,
        SecurityMode::DesIvZero => "DES; IV = 0 (deprecated)"@,
        SecurityMode::DesIvNonZero => "DES; IV ≠ 0 (deprecated)"@,
        SecurityMode::SpecificUsage4 => "Specific usage (Bibliographical Entry [6])"@,
        SecurityMode::AesCbc128IvNonZero => "AES-CBC-128; IV ≠ 0"@,
        SecurityMode::Reserved6 => "Reserved for future use"@,
        SecurityMode::AesCbc128IvZero => "AES-CBC-128; IV = 0"@,
        SecurityMode::AesCtr128Cmac => "AES-CTR-128; CMAC"@,
        SecurityMode::AesGcm128 => "AES-GCM-128"@,
        SecurityMode::AesCcm128 => "AES-CCM-128"@,
        SecurityMode::Reserved11 => "Reserved for future use"@,
        SecurityMode::Reserved12 => "Reserved for future use"@,
        SecurityMode::SpecificUsage13 => "Specific usage (Bibliographical Entry [8])"@,
        SecurityMode::Reserved14 => "Reserved for future use"@,
        SecurityMode::SpecificUsage15 => "Specific usage (Bibliographical Entry [7])"@,
        SecurityMode::ReservedHigher(mode) => "Reserved for future use (mode "@ + sp_dec(mode as int) + ")"@,
    }
}
impl VToStr for SecurityMode {
    open spec fn sp_str(&self) -> Seq<char> { sp_mode_text(*self) }
    fn v_to_string(&self) -> (r: String) { let mut f = crate::dep::Formatter::v_start(); let _ = self.fmt(&mut f); proof { assert(Seq::<char>::empty() + sp_mode_text(*self) =~= sp_mode_text(*self)); } f.v_done() }
}
