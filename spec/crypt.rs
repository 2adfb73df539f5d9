//@need m_bus_core::decryption::DecryptionError
//@need m_bus_core::decryption::KeyContext
use crate::m_bus_core::*;
use crate::m_bus_core::decryption::*;

// ---- decryption --------------------------------------------------------------------
/// AES-128-CBC decryption of whole blocks (crates aes and cbc; not interpreted here)
pub uninterp spec fn sp_aes_cbc(key: Seq<u8>, iv: Seq<u8>, data: Seq<u8>) -> Seq<u8>;

/// what the key provider answers
pub uninterp spec fn sp_provider_key<K: ?Sized>(p: &K, c: KeyContext) -> Result<Seq<u8>, DecryptionError>;

pub open spec fn sp_whole(n: int) -> int { n - n % 16 }

/// the plain text of a payload: whole blocks decrypted, the rest unchanged
pub open spec fn sp_plain(key: Seq<u8>, iv: Seq<u8>, data: Seq<u8>) -> Seq<u8> {
    let w = sp_whole(data.len() as int);
    if w == 0 { data } else { sp_aes_cbc(key, iv, data.subrange(0, w)) + data.subrange(w, data.len() as int) }
}

pub open spec fn sp_cbc_result(data: Seq<u8>, key: Seq<u8>, iv: Seq<u8>, old_out: Seq<u8>, new_out: Seq<u8>, r: Result<usize, DecryptionError>) -> bool {
    if key.len() != 16 || data.len() == 0 || old_out.len() < data.len() { r is Err }
    else {
        r == Ok::<usize, DecryptionError>(data.len() as usize)
        && new_out =~= sp_plain(key, iv, data) + old_out.subrange(data.len() as int, old_out.len() as int)
    }
}

pub open spec fn sp_pow10(n: nat) -> int decreases n, { if n == 0 { 1 } else { 10 * sp_pow10((n - 1) as nat) } }

pub open spec fn sp_bcd_byte(v: int, i: int) -> u8 {
    let two = (v / sp_pow10((2 * i) as nat)) % 100;
    ((two / 10) * 16 + two % 10) as u8
}
pub open spec fn sp_repeat(b: u8, n: nat) -> Seq<u8> { Seq::new(n, |i: int| b) }

pub open spec fn sp_iv(c: KeyContext) -> Seq<u8> {
    let m = sp_man_id(c.manufacturer);
    let n = c.identification_number as int;
    seq![
        (m % 256) as u8, (m / 256) as u8,
        sp_bcd_byte(n, 0), sp_bcd_byte(n, 1), sp_bcd_byte(n, 2), sp_bcd_byte(n, 3),
        c.version, sp_device_code(c.device_type),
        c.access_number, c.access_number, c.access_number, c.access_number,
        c.access_number, c.access_number, c.access_number, c.access_number
    ]
}

/// outcome of decrypting one payload, given the answer of the key provider
pub open spec fn sp_decrypted(key: Result<Seq<u8>, DecryptionError>, c: KeyContext, data: Seq<u8>, old_out: Seq<u8>, new_out: Seq<u8>, r: Result<usize, DecryptionError>) -> bool {
    match key {
        Err(_) => r is Err,
        Ok(k) => match c.security_mode {
            SecurityMode::AesCbc128IvZero => sp_cbc_result(data, k, sp_repeat(0, 16), old_out, new_out, r),
            SecurityMode::AesCbc128IvNonZero => sp_cbc_result(data, k, sp_iv(c), old_out, new_out, r),
            // unencrypted data is not decrypted; it is copied when it fits
            SecurityMode::NoEncryption => if old_out.len() < data.len() { r is Err } else {
                r == Ok::<usize, DecryptionError>(data.len() as usize)
                && new_out =~= data + old_out.subrange(data.len() as int, old_out.len() as int)
            },
            _ => r is Err,
        },
    }
}

pub proof fn lemma_div2(v: int, p: int)
    requires p > 0, v >= 0,
    ensures (v / p) / 10 == v / (p * 10), ((v / p) / 10) / 10 == v / (p * 100),
{
    vstd::arithmetic::div_mod::lemma_div_pos_is_pos(v, p);
    vstd::arithmetic::div_mod::lemma_div_denominator(v, p, 10);
    vstd::arithmetic::div_mod::lemma_div_denominator(v, p, 100);
    vstd::arithmetic::div_mod::lemma_div_denominator(v / p, 10, 10);
}
pub proof fn lemma_digits(w: int)
    requires w >= 0,
    ensures (w % 100) / 10 == (w / 10) % 10, (w % 100) % 10 == w % 10,
{ }
