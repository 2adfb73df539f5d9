//@need m_bus_application_layer::data_information::DataInformationFieldExtensions
//@need m_bus_application_layer::DataRecords
// clone of the types the XML output copies.
use crate::m_bus_application_layer::data_information::*;
pub trait VClone: Sized { spec fn sp_same(&self, r: Self) -> bool; fn v_clone(&self) -> (r: Self) ensures self.sp_same(r); }
impl<'a> VClone for DataInformationFieldExtensions<'a> {
    open spec fn sp_same(&self, r: Self) -> bool { r == *self }
    fn v_clone(&self) -> (r: Self) { self.clone() }
}
impl<'a> VClone for Option<DataInformationFieldExtensions<'a>> {
    open spec fn sp_same(&self, r: Self) -> bool { r == *self }
    fn v_clone(&self) -> (r: Self) { match self { Some(x) => Some(x.clone()), None => None } }
}
impl<'a> VClone for crate::m_bus_application_layer::DataRecords<'a> {
    open spec fn sp_same(&self, r: Self) -> bool { r == *self }
    fn v_clone(&self) -> (r: Self) { self.clone() }
}
