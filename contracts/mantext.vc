fn m_bus_core::ManufacturerCode::Display::fmt
  inherent: yes
  spec:
    ensures final(f)@ == old(f)@ + sp_man_text(*self), r is Ok,
