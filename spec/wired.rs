use crate::wired_mbus_link_layer::{Address, WiredFrame};

pub open spec fn sp_address(a: u8) -> Address {
    if a == 0 { Address::Uninitalized }
    else if a == 253 { Address::Secondary }
    else if a == 254 { Address::Broadcast { reply_required: true } }
    else if a == 255 { Address::Broadcast { reply_required: false } }
    else { Address::Primary(a) }
}

/// Sum of the bytes.
pub open spec fn sp_sum(s: Seq<u8>) -> int
    decreases s.len(),
{
    if s.len() == 0 { 0 } else { sp_sum(s.drop_last()) + s.last() as int }
}

pub open spec fn sp_checksum_ok(d: Seq<u8>, from: int) -> bool {
    sp_sum(d.subrange(from, d.len() - 2)) % 256 == d[d.len() - 2] as int
}

pub open spec fn sp_is_single(d: Seq<u8>) -> bool {
    d.len() == 1 && d[0] == 0xE5
}
pub open spec fn sp_is_short(d: Seq<u8>) -> bool {
    d.len() == 5 && d[0] == 0x10 && d[4] == 0x16
    && sp_checksum_ok(d, 1)
    && sp_function(d[1]) is Some
}
pub open spec fn sp_is_long(d: Seq<u8>) -> bool {
    d.len() >= 8 && d[0] == 0x68 && d[3] == 0x68
    && d[1] == d[2] && d.len() == d[1] as int + 6
    && d[d.len() - 1] == 0x16
    && sp_checksum_ok(d, 4)
    && sp_function(d[4]) is Some
}

/// P01
pub open spec fn sp_wired_ok(d: Seq<u8>) -> bool {
    sp_is_single(d) || sp_is_short(d) || sp_is_long(d)
}

/// P02
pub open spec fn sp_wired_matches(d: Seq<u8>, f: WiredFrame) -> bool {
    match f {
        WiredFrame::SingleCharacter { character } => sp_is_single(d) && character == d[0],
        WiredFrame::ShortFrame { function, address } =>
            sp_is_short(d) && sp_function(d[1]) == Some(function) && address == sp_address(d[2]),
        WiredFrame::LongFrame { function, address, data } =>
            sp_is_long(d) && d[4] != 0x53 && sp_function(d[4]) == Some(function)
            && address == sp_address(d[5]) && data@ == d.subrange(6, d.len() - 2),
        WiredFrame::ControlFrame { function, address, data } =>
            sp_is_long(d) && d[4] == 0x53 && sp_function(d[4]) == Some(function)
            && address == sp_address(d[5]) && data@ == d.subrange(6, d.len() - 2),
    }
}

pub proof fn lemma_sum_nonneg(s: Seq<u8>)
    ensures sp_sum(s) >= 0,
    decreases s.len(),
{ if s.len() > 0 { lemma_sum_nonneg(s.drop_last()); } }
