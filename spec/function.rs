//@need m_bus_core::Function
use crate::m_bus_core::Function;

/// EN 60870-5 / EN 13757-2 control bytes.
pub open spec fn sp_function(c: u8) -> Option<Function> {
    if c == 0x40 { Some(Function::SndNk { prm: false }) }
    else if c == 0x44 { Some(Function::SndNr) }
    else if c == 0x53 { Some(Function::SndUd { fcb: false }) }
    else if c == 0x73 { Some(Function::SndUd { fcb: true }) }
    else if c == 0x5A { Some(Function::ReqUd1 { fcb: false }) }
    else if c == 0x7A { Some(Function::ReqUd1 { fcb: true }) }
    else if c == 0x5B { Some(Function::ReqUd2 { fcb: false }) }
    else if c == 0x7B { Some(Function::ReqUd2 { fcb: true }) }
    else if c == 0x08 { Some(Function::RspUd { acd: false, dfc: false }) }
    else if c == 0x18 { Some(Function::RspUd { acd: false, dfc: true }) }
    else if c == 0x28 { Some(Function::RspUd { acd: true, dfc: false }) }
    else if c == 0x38 { Some(Function::RspUd { acd: true, dfc: true }) }
    else { None }
}
