fn m_bus_core::SecurityMode::Display::fmt
  inherent: yes
  spec:
    ensures final(f)@ =~= old(f)@ + sp_mode_text(*self), r is Ok,
