//@need m_bus_parser::output::DecodedOutput
//@need m_bus_parser::output::RecordOutput
//@need m_bus_parser::output::DecodeOptions
//@need m_bus_parser::output::RenderOptions
//@need m_bus_parser::output::OutputFormat
//@need m_bus_parser::output::OutputError
use crate::m_bus_parser::output::*;
// what the functions on bytes return: assumed to depend on their arguments only
pub uninterp spec fn sp_decoded(d: Seq<u8>, o: DecodeOptions) -> Result<DecodedOutput, OutputError>;
pub uninterp spec fn sp_records_of(d: Seq<u8>) -> Result<Vec<RecordOutput>, OutputError>;
pub uninterp spec fn sp_rendered(d: Seq<u8>, f: OutputFormat, o: RenderOptions) -> Result<String, OutputError>;
// the same apart from the text kept beside the result
pub open spec fn sp_same_decoded(a: DecodedOutput, b: DecodedOutput) -> bool {
    &&& a.records == b.records && a.frame == b.frame && a.meter == b.meter && a.transport == b.transport && a.security == b.security
    &&& a.decode_state == b.decode_state && a.protocol == b.protocol && a.diagnostics == b.diagnostics
}
