// Shifts and masks by constants, as arithmetic. Generated by tools/bits/gen.py.
pub proof fn lemma_bits_u8()
    ensures
        forall|x: u8, s: u8| s < 8 ==> #[trigger] (x >> s) == (if s == 1 { x / 2 } else { if s == 2 { x / 4 } else { if s == 3 { x / 8 } else { if s == 4 { x / 16 } else { if s == 5 { x / 32 } else { if s == 6 { x / 64 } else { if s == 7 { x / 128 } else { x } } } } } } }),
        forall|x: u8| x <= 127 ==> #[trigger] (x << 1) == x * 2,
        forall|x: u8| x <= 63 ==> #[trigger] (x << 2) == x * 4,
        forall|x: u8| x <= 31 ==> #[trigger] (x << 3) == x * 8,
        forall|x: u8| x <= 15 ==> #[trigger] (x << 4) == x * 16,
        forall|x: u8| x <= 7 ==> #[trigger] (x << 5) == x * 32,
        forall|x: u8| x <= 3 ==> #[trigger] (x << 6) == x * 64,
        forall|x: u8| x <= 1 ==> #[trigger] (x << 7) == x * 128,
        forall|x: u8| #[trigger] (x & 1) == x % 2,
        forall|x: u8| #[trigger] (x & 2) == ((x / 2) % 2) * 2,
        forall|x: u8| #[trigger] (x & 3) == x % 4,
        forall|x: u8| #[trigger] (x & 4) == ((x / 4) % 2) * 4,
        forall|x: u8| #[trigger] (x & 6) == ((x / 2) % 4) * 2,
        forall|x: u8| #[trigger] (x & 7) == x % 8,
        forall|x: u8| #[trigger] (x & 8) == ((x / 8) % 2) * 8,
        forall|x: u8| #[trigger] (x & 12) == ((x / 4) % 4) * 4,
        forall|x: u8| #[trigger] (x & 14) == ((x / 2) % 8) * 2,
        forall|x: u8| #[trigger] (x & 15) == x % 16,
        forall|x: u8| #[trigger] (x & 16) == ((x / 16) % 2) * 16,
        forall|x: u8| #[trigger] (x & 24) == ((x / 8) % 4) * 8,
        forall|x: u8| #[trigger] (x & 28) == ((x / 4) % 8) * 4,
        forall|x: u8| #[trigger] (x & 30) == ((x / 2) % 16) * 2,
        forall|x: u8| #[trigger] (x & 31) == x % 32,
        forall|x: u8| #[trigger] (x & 32) == ((x / 32) % 2) * 32,
        forall|x: u8| #[trigger] (x & 48) == ((x / 16) % 4) * 16,
        forall|x: u8| #[trigger] (x & 56) == ((x / 8) % 8) * 8,
        forall|x: u8| #[trigger] (x & 60) == ((x / 4) % 16) * 4,
        forall|x: u8| #[trigger] (x & 62) == ((x / 2) % 32) * 2,
        forall|x: u8| #[trigger] (x & 63) == x % 64,
        forall|x: u8| #[trigger] (x & 64) == ((x / 64) % 2) * 64,
        forall|x: u8| #[trigger] (x & 96) == ((x / 32) % 4) * 32,
        forall|x: u8| #[trigger] (x & 112) == ((x / 16) % 8) * 16,
        forall|x: u8| #[trigger] (x & 120) == ((x / 8) % 16) * 8,
        forall|x: u8| #[trigger] (x & 124) == ((x / 4) % 32) * 4,
        forall|x: u8| #[trigger] (x & 126) == ((x / 2) % 64) * 2,
        forall|x: u8| #[trigger] (x & 127) == x % 128,
        forall|x: u8| #[trigger] (x & 128) == (x / 128) * 128,
        forall|x: u8| #[trigger] (x & 192) == (x / 64) * 64,
        forall|x: u8| #[trigger] (x & 224) == (x / 32) * 32,
        forall|x: u8| #[trigger] (x & 240) == (x / 16) * 16,
        forall|x: u8| #[trigger] (x & 248) == (x / 8) * 8,
        forall|x: u8| #[trigger] (x & 252) == (x / 4) * 4,
        forall|x: u8| #[trigger] (x & 254) == (x / 2) * 2,
        forall|x: u8| #[trigger] (x & 255) == x,
        forall|x: u8, y: u8| y < 2 && x % 2 == 0 ==> #[trigger] (x | y) == x + y,
        forall|x: u8, y: u8| x < 2 && y % 2 == 0 ==> #[trigger] (x | y) == x + y,
        forall|x: u8, y: u8| y < 4 && x % 4 == 0 ==> #[trigger] (x | y) == x + y,
        forall|x: u8, y: u8| x < 4 && y % 4 == 0 ==> #[trigger] (x | y) == x + y,
        forall|x: u8, y: u8| y < 8 && x % 8 == 0 ==> #[trigger] (x | y) == x + y,
        forall|x: u8, y: u8| x < 8 && y % 8 == 0 ==> #[trigger] (x | y) == x + y,
        forall|x: u8, y: u8| y < 16 && x % 16 == 0 ==> #[trigger] (x | y) == x + y,
        forall|x: u8, y: u8| x < 16 && y % 16 == 0 ==> #[trigger] (x | y) == x + y,
        forall|x: u8, y: u8| y < 32 && x % 32 == 0 ==> #[trigger] (x | y) == x + y,
        forall|x: u8, y: u8| x < 32 && y % 32 == 0 ==> #[trigger] (x | y) == x + y,
        forall|x: u8, y: u8| y < 64 && x % 64 == 0 ==> #[trigger] (x | y) == x + y,
        forall|x: u8, y: u8| x < 64 && y % 64 == 0 ==> #[trigger] (x | y) == x + y,
        forall|x: u8, y: u8| y < 128 && x % 128 == 0 ==> #[trigger] (x | y) == x + y,
        forall|x: u8, y: u8| x < 128 && y % 128 == 0 ==> #[trigger] (x | y) == x + y,
{
    assert((forall|x: u8, s: u8| s < 8 ==> #[trigger] (x >> s) == (if s == 1 { x / 2 } else { if s == 2 { x / 4 } else { if s == 3 { x / 8 } else { if s == 4 { x / 16 } else { if s == 5 { x / 32 } else { if s == 6 { x / 64 } else { if s == 7 { x / 128 } else { x } } } } } } })) && (forall|x: u8| x <= 127 ==> #[trigger] (x << 1) == x * 2) && (forall|x: u8| x <= 63 ==> #[trigger] (x << 2) == x * 4) && (forall|x: u8| x <= 31 ==> #[trigger] (x << 3) == x * 8) && (forall|x: u8| x <= 15 ==> #[trigger] (x << 4) == x * 16) && (forall|x: u8| x <= 7 ==> #[trigger] (x << 5) == x * 32) && (forall|x: u8| x <= 3 ==> #[trigger] (x << 6) == x * 64) && (forall|x: u8| x <= 1 ==> #[trigger] (x << 7) == x * 128) && (forall|x: u8| #[trigger] (x & 1) == x % 2) && (forall|x: u8| #[trigger] (x & 2) == ((x / 2) % 2) * 2) && (forall|x: u8| #[trigger] (x & 3) == x % 4) && (forall|x: u8| #[trigger] (x & 4) == ((x / 4) % 2) * 4)) by (bit_vector);
    assert((forall|x: u8| #[trigger] (x & 6) == ((x / 2) % 4) * 2) && (forall|x: u8| #[trigger] (x & 7) == x % 8) && (forall|x: u8| #[trigger] (x & 8) == ((x / 8) % 2) * 8) && (forall|x: u8| #[trigger] (x & 12) == ((x / 4) % 4) * 4) && (forall|x: u8| #[trigger] (x & 14) == ((x / 2) % 8) * 2) && (forall|x: u8| #[trigger] (x & 15) == x % 16) && (forall|x: u8| #[trigger] (x & 16) == ((x / 16) % 2) * 16) && (forall|x: u8| #[trigger] (x & 24) == ((x / 8) % 4) * 8) && (forall|x: u8| #[trigger] (x & 28) == ((x / 4) % 8) * 4) && (forall|x: u8| #[trigger] (x & 30) == ((x / 2) % 16) * 2) && (forall|x: u8| #[trigger] (x & 31) == x % 32) && (forall|x: u8| #[trigger] (x & 32) == ((x / 32) % 2) * 32)) by (bit_vector);
    assert((forall|x: u8| #[trigger] (x & 48) == ((x / 16) % 4) * 16) && (forall|x: u8| #[trigger] (x & 56) == ((x / 8) % 8) * 8) && (forall|x: u8| #[trigger] (x & 60) == ((x / 4) % 16) * 4) && (forall|x: u8| #[trigger] (x & 62) == ((x / 2) % 32) * 2) && (forall|x: u8| #[trigger] (x & 63) == x % 64) && (forall|x: u8| #[trigger] (x & 64) == ((x / 64) % 2) * 64) && (forall|x: u8| #[trigger] (x & 96) == ((x / 32) % 4) * 32) && (forall|x: u8| #[trigger] (x & 112) == ((x / 16) % 8) * 16) && (forall|x: u8| #[trigger] (x & 120) == ((x / 8) % 16) * 8) && (forall|x: u8| #[trigger] (x & 124) == ((x / 4) % 32) * 4) && (forall|x: u8| #[trigger] (x & 126) == ((x / 2) % 64) * 2) && (forall|x: u8| #[trigger] (x & 127) == x % 128)) by (bit_vector);
    assert((forall|x: u8| #[trigger] (x & 128) == (x / 128) * 128) && (forall|x: u8| #[trigger] (x & 192) == (x / 64) * 64) && (forall|x: u8| #[trigger] (x & 224) == (x / 32) * 32) && (forall|x: u8| #[trigger] (x & 240) == (x / 16) * 16) && (forall|x: u8| #[trigger] (x & 248) == (x / 8) * 8) && (forall|x: u8| #[trigger] (x & 252) == (x / 4) * 4) && (forall|x: u8| #[trigger] (x & 254) == (x / 2) * 2) && (forall|x: u8| #[trigger] (x & 255) == x) && (forall|x: u8, y: u8| y < 2 && x % 2 == 0 ==> #[trigger] (x | y) == x + y) && (forall|x: u8, y: u8| x < 2 && y % 2 == 0 ==> #[trigger] (x | y) == x + y) && (forall|x: u8, y: u8| y < 4 && x % 4 == 0 ==> #[trigger] (x | y) == x + y) && (forall|x: u8, y: u8| x < 4 && y % 4 == 0 ==> #[trigger] (x | y) == x + y)) by (bit_vector);
    assert((forall|x: u8, y: u8| y < 8 && x % 8 == 0 ==> #[trigger] (x | y) == x + y) && (forall|x: u8, y: u8| x < 8 && y % 8 == 0 ==> #[trigger] (x | y) == x + y) && (forall|x: u8, y: u8| y < 16 && x % 16 == 0 ==> #[trigger] (x | y) == x + y) && (forall|x: u8, y: u8| x < 16 && y % 16 == 0 ==> #[trigger] (x | y) == x + y) && (forall|x: u8, y: u8| y < 32 && x % 32 == 0 ==> #[trigger] (x | y) == x + y) && (forall|x: u8, y: u8| x < 32 && y % 32 == 0 ==> #[trigger] (x | y) == x + y) && (forall|x: u8, y: u8| y < 64 && x % 64 == 0 ==> #[trigger] (x | y) == x + y) && (forall|x: u8, y: u8| x < 64 && y % 64 == 0 ==> #[trigger] (x | y) == x + y) && (forall|x: u8, y: u8| y < 128 && x % 128 == 0 ==> #[trigger] (x | y) == x + y) && (forall|x: u8, y: u8| x < 128 && y % 128 == 0 ==> #[trigger] (x | y) == x + y)) by (bit_vector);
}
pub proof fn lemma_bits_u16()
    ensures
        forall|x: u16| #[trigger] (x >> 1) == x / 2,
        forall|x: u16| x <= 32767 ==> #[trigger] (x << 1) == x * 2,
        forall|x: u16| #[trigger] (x >> 2) == x / 4,
        forall|x: u16| x <= 16383 ==> #[trigger] (x << 2) == x * 4,
        forall|x: u16| #[trigger] (x >> 3) == x / 8,
        forall|x: u16| x <= 8191 ==> #[trigger] (x << 3) == x * 8,
        forall|x: u16| #[trigger] (x >> 4) == x / 16,
        forall|x: u16| x <= 4095 ==> #[trigger] (x << 4) == x * 16,
        forall|x: u16| #[trigger] (x >> 5) == x / 32,
        forall|x: u16| x <= 2047 ==> #[trigger] (x << 5) == x * 32,
        forall|x: u16| #[trigger] (x >> 6) == x / 64,
        forall|x: u16| x <= 1023 ==> #[trigger] (x << 6) == x * 64,
        forall|x: u16| #[trigger] (x >> 7) == x / 128,
        forall|x: u16| x <= 511 ==> #[trigger] (x << 7) == x * 128,
        forall|x: u16| #[trigger] (x >> 8) == x / 256,
        forall|x: u16| x <= 255 ==> #[trigger] (x << 8) == x * 256,
        forall|x: u16| #[trigger] (x >> 10) == x / 1024,
        forall|x: u16| x <= 63 ==> #[trigger] (x << 10) == x * 1024,
        forall|x: u16| #[trigger] (x >> 12) == x / 4096,
        forall|x: u16| x <= 15 ==> #[trigger] (x << 12) == x * 4096,
        forall|x: u16| #[trigger] (x & 1) == x % 2,
        forall|x: u16| #[trigger] (x & 2) == ((x / 2) % 2) * 2,
        forall|x: u16| #[trigger] (x & 3) == x % 4,
        forall|x: u16| #[trigger] (x & 4) == ((x / 4) % 2) * 4,
        forall|x: u16| #[trigger] (x & 7) == x % 8,
        forall|x: u16| #[trigger] (x & 8) == ((x / 8) % 2) * 8,
        forall|x: u16| #[trigger] (x & 15) == x % 16,
        forall|x: u16| #[trigger] (x & 16) == ((x / 16) % 2) * 16,
        forall|x: u16| #[trigger] (x & 31) == x % 32,
        forall|x: u16| #[trigger] (x & 32) == ((x / 32) % 2) * 32,
        forall|x: u16| #[trigger] (x & 63) == x % 64,
        forall|x: u16| #[trigger] (x & 64) == ((x / 64) % 2) * 64,
        forall|x: u16| #[trigger] (x & 127) == x % 128,
        forall|x: u16| #[trigger] (x & 128) == ((x / 128) % 2) * 128,
        forall|x: u16| #[trigger] (x & 240) == ((x / 16) % 16) * 16,
        forall|x: u16| #[trigger] (x & 255) == x % 256,
        forall|x: u16| #[trigger] (x & 256) == ((x / 256) % 2) * 256,
        forall|x: u16| #[trigger] (x & 512) == ((x / 512) % 2) * 512,
        forall|x: u16| #[trigger] (x & 992) == ((x / 32) % 32) * 32,
        forall|x: u16| #[trigger] (x & 1023) == x % 1024,
        forall|x: u16| #[trigger] (x & 1024) == ((x / 1024) % 2) * 1024,
        forall|x: u16| #[trigger] (x & 2048) == ((x / 2048) % 2) * 2048,
        forall|x: u16| #[trigger] (x & 4095) == x % 4096,
        forall|x: u16| #[trigger] (x & 4096) == ((x / 4096) % 2) * 4096,
        forall|x: u16| #[trigger] (x & 7936) == ((x / 256) % 32) * 256,
        forall|x: u16| #[trigger] (x & 8192) == ((x / 8192) % 2) * 8192,
        forall|x: u16| #[trigger] (x & 16383) == x % 16384,
        forall|x: u16| #[trigger] (x & 16384) == ((x / 16384) % 2) * 16384,
        forall|x: u16| #[trigger] (x & 31744) == ((x / 1024) % 32) * 1024,
        forall|x: u16| #[trigger] (x & 32767) == x % 32768,
        forall|x: u16| #[trigger] (x & 32768) == (x / 32768) * 32768,
        forall|x: u16| #[trigger] (x & 65280) == (x / 256) * 256,
        forall|x: u16| #[trigger] (x & 65535) == x,
        forall|x: u16, y: u16| y < 2 && x % 2 == 0 ==> #[trigger] (x | y) == x + y,
        forall|x: u16, y: u16| x < 2 && y % 2 == 0 ==> #[trigger] (x | y) == x + y,
        forall|x: u16, y: u16| y < 4 && x % 4 == 0 ==> #[trigger] (x | y) == x + y,
        forall|x: u16, y: u16| x < 4 && y % 4 == 0 ==> #[trigger] (x | y) == x + y,
        forall|x: u16, y: u16| y < 8 && x % 8 == 0 ==> #[trigger] (x | y) == x + y,
        forall|x: u16, y: u16| x < 8 && y % 8 == 0 ==> #[trigger] (x | y) == x + y,
        forall|x: u16, y: u16| y < 16 && x % 16 == 0 ==> #[trigger] (x | y) == x + y,
        forall|x: u16, y: u16| x < 16 && y % 16 == 0 ==> #[trigger] (x | y) == x + y,
        forall|x: u16, y: u16| y < 32 && x % 32 == 0 ==> #[trigger] (x | y) == x + y,
        forall|x: u16, y: u16| x < 32 && y % 32 == 0 ==> #[trigger] (x | y) == x + y,
        forall|x: u16, y: u16| y < 64 && x % 64 == 0 ==> #[trigger] (x | y) == x + y,
        forall|x: u16, y: u16| x < 64 && y % 64 == 0 ==> #[trigger] (x | y) == x + y,
        forall|x: u16, y: u16| y < 128 && x % 128 == 0 ==> #[trigger] (x | y) == x + y,
        forall|x: u16, y: u16| x < 128 && y % 128 == 0 ==> #[trigger] (x | y) == x + y,
        forall|x: u16, y: u16| y < 256 && x % 256 == 0 ==> #[trigger] (x | y) == x + y,
        forall|x: u16, y: u16| x < 256 && y % 256 == 0 ==> #[trigger] (x | y) == x + y,
{
    assert((forall|x: u16| #[trigger] (x >> 1) == x / 2) && (forall|x: u16| x <= 32767 ==> #[trigger] (x << 1) == x * 2) && (forall|x: u16| #[trigger] (x >> 2) == x / 4) && (forall|x: u16| x <= 16383 ==> #[trigger] (x << 2) == x * 4) && (forall|x: u16| #[trigger] (x >> 3) == x / 8) && (forall|x: u16| x <= 8191 ==> #[trigger] (x << 3) == x * 8) && (forall|x: u16| #[trigger] (x >> 4) == x / 16) && (forall|x: u16| x <= 4095 ==> #[trigger] (x << 4) == x * 16) && (forall|x: u16| #[trigger] (x >> 5) == x / 32) && (forall|x: u16| x <= 2047 ==> #[trigger] (x << 5) == x * 32) && (forall|x: u16| #[trigger] (x >> 6) == x / 64) && (forall|x: u16| x <= 1023 ==> #[trigger] (x << 6) == x * 64)) by (bit_vector);
    assert((forall|x: u16| #[trigger] (x >> 7) == x / 128) && (forall|x: u16| x <= 511 ==> #[trigger] (x << 7) == x * 128) && (forall|x: u16| #[trigger] (x >> 8) == x / 256) && (forall|x: u16| x <= 255 ==> #[trigger] (x << 8) == x * 256) && (forall|x: u16| #[trigger] (x >> 10) == x / 1024) && (forall|x: u16| x <= 63 ==> #[trigger] (x << 10) == x * 1024) && (forall|x: u16| #[trigger] (x >> 12) == x / 4096) && (forall|x: u16| x <= 15 ==> #[trigger] (x << 12) == x * 4096) && (forall|x: u16| #[trigger] (x & 1) == x % 2) && (forall|x: u16| #[trigger] (x & 2) == ((x / 2) % 2) * 2) && (forall|x: u16| #[trigger] (x & 3) == x % 4) && (forall|x: u16| #[trigger] (x & 4) == ((x / 4) % 2) * 4)) by (bit_vector);
    assert((forall|x: u16| #[trigger] (x & 7) == x % 8) && (forall|x: u16| #[trigger] (x & 8) == ((x / 8) % 2) * 8) && (forall|x: u16| #[trigger] (x & 15) == x % 16) && (forall|x: u16| #[trigger] (x & 16) == ((x / 16) % 2) * 16) && (forall|x: u16| #[trigger] (x & 31) == x % 32) && (forall|x: u16| #[trigger] (x & 32) == ((x / 32) % 2) * 32) && (forall|x: u16| #[trigger] (x & 63) == x % 64) && (forall|x: u16| #[trigger] (x & 64) == ((x / 64) % 2) * 64) && (forall|x: u16| #[trigger] (x & 127) == x % 128) && (forall|x: u16| #[trigger] (x & 128) == ((x / 128) % 2) * 128) && (forall|x: u16| #[trigger] (x & 240) == ((x / 16) % 16) * 16) && (forall|x: u16| #[trigger] (x & 255) == x % 256)) by (bit_vector);
    assert((forall|x: u16| #[trigger] (x & 256) == ((x / 256) % 2) * 256) && (forall|x: u16| #[trigger] (x & 512) == ((x / 512) % 2) * 512) && (forall|x: u16| #[trigger] (x & 992) == ((x / 32) % 32) * 32) && (forall|x: u16| #[trigger] (x & 1023) == x % 1024) && (forall|x: u16| #[trigger] (x & 1024) == ((x / 1024) % 2) * 1024) && (forall|x: u16| #[trigger] (x & 2048) == ((x / 2048) % 2) * 2048) && (forall|x: u16| #[trigger] (x & 4095) == x % 4096) && (forall|x: u16| #[trigger] (x & 4096) == ((x / 4096) % 2) * 4096) && (forall|x: u16| #[trigger] (x & 7936) == ((x / 256) % 32) * 256) && (forall|x: u16| #[trigger] (x & 8192) == ((x / 8192) % 2) * 8192) && (forall|x: u16| #[trigger] (x & 16383) == x % 16384) && (forall|x: u16| #[trigger] (x & 16384) == ((x / 16384) % 2) * 16384)) by (bit_vector);
    assert((forall|x: u16| #[trigger] (x & 31744) == ((x / 1024) % 32) * 1024) && (forall|x: u16| #[trigger] (x & 32767) == x % 32768) && (forall|x: u16| #[trigger] (x & 32768) == (x / 32768) * 32768) && (forall|x: u16| #[trigger] (x & 65280) == (x / 256) * 256) && (forall|x: u16| #[trigger] (x & 65535) == x) && (forall|x: u16, y: u16| y < 2 && x % 2 == 0 ==> #[trigger] (x | y) == x + y) && (forall|x: u16, y: u16| x < 2 && y % 2 == 0 ==> #[trigger] (x | y) == x + y) && (forall|x: u16, y: u16| y < 4 && x % 4 == 0 ==> #[trigger] (x | y) == x + y) && (forall|x: u16, y: u16| x < 4 && y % 4 == 0 ==> #[trigger] (x | y) == x + y) && (forall|x: u16, y: u16| y < 8 && x % 8 == 0 ==> #[trigger] (x | y) == x + y) && (forall|x: u16, y: u16| x < 8 && y % 8 == 0 ==> #[trigger] (x | y) == x + y) && (forall|x: u16, y: u16| y < 16 && x % 16 == 0 ==> #[trigger] (x | y) == x + y)) by (bit_vector);
    assert((forall|x: u16, y: u16| x < 16 && y % 16 == 0 ==> #[trigger] (x | y) == x + y) && (forall|x: u16, y: u16| y < 32 && x % 32 == 0 ==> #[trigger] (x | y) == x + y) && (forall|x: u16, y: u16| x < 32 && y % 32 == 0 ==> #[trigger] (x | y) == x + y) && (forall|x: u16, y: u16| y < 64 && x % 64 == 0 ==> #[trigger] (x | y) == x + y) && (forall|x: u16, y: u16| x < 64 && y % 64 == 0 ==> #[trigger] (x | y) == x + y) && (forall|x: u16, y: u16| y < 128 && x % 128 == 0 ==> #[trigger] (x | y) == x + y) && (forall|x: u16, y: u16| x < 128 && y % 128 == 0 ==> #[trigger] (x | y) == x + y) && (forall|x: u16, y: u16| y < 256 && x % 256 == 0 ==> #[trigger] (x | y) == x + y) && (forall|x: u16, y: u16| x < 256 && y % 256 == 0 ==> #[trigger] (x | y) == x + y)) by (bit_vector);
}
pub proof fn lemma_bits_u32()
    ensures
        forall|x: u32| #[trigger] (x >> 1) == x / 2,
        forall|x: u32| x <= 2147483647 ==> #[trigger] (x << 1) == x * 2,
        forall|x: u32| #[trigger] (x >> 2) == x / 4,
        forall|x: u32| x <= 1073741823 ==> #[trigger] (x << 2) == x * 4,
        forall|x: u32| #[trigger] (x >> 3) == x / 8,
        forall|x: u32| x <= 536870911 ==> #[trigger] (x << 3) == x * 8,
        forall|x: u32| #[trigger] (x >> 4) == x / 16,
        forall|x: u32| x <= 268435455 ==> #[trigger] (x << 4) == x * 16,
        forall|x: u32| #[trigger] (x >> 5) == x / 32,
        forall|x: u32| x <= 134217727 ==> #[trigger] (x << 5) == x * 32,
        forall|x: u32| #[trigger] (x >> 6) == x / 64,
        forall|x: u32| x <= 67108863 ==> #[trigger] (x << 6) == x * 64,
        forall|x: u32| #[trigger] (x >> 7) == x / 128,
        forall|x: u32| x <= 33554431 ==> #[trigger] (x << 7) == x * 128,
        forall|x: u32| #[trigger] (x >> 8) == x / 256,
        forall|x: u32| x <= 16777215 ==> #[trigger] (x << 8) == x * 256,
        forall|x: u32| #[trigger] (x >> 10) == x / 1024,
        forall|x: u32| x <= 4194303 ==> #[trigger] (x << 10) == x * 1024,
        forall|x: u32| #[trigger] (x >> 12) == x / 4096,
        forall|x: u32| x <= 1048575 ==> #[trigger] (x << 12) == x * 4096,
        forall|x: u32| #[trigger] (x >> 16) == x / 65536,
        forall|x: u32| x <= 65535 ==> #[trigger] (x << 16) == x * 65536,
        forall|x: u32| #[trigger] (x >> 24) == x / 16777216,
        forall|x: u32| x <= 255 ==> #[trigger] (x << 24) == x * 16777216,
        forall|x: u32| #[trigger] (x & 1) == x % 2,
        forall|x: u32| #[trigger] (x & 2) == ((x / 2) % 2) * 2,
        forall|x: u32| #[trigger] (x & 3) == x % 4,
        forall|x: u32| #[trigger] (x & 4) == ((x / 4) % 2) * 4,
        forall|x: u32| #[trigger] (x & 7) == x % 8,
        forall|x: u32| #[trigger] (x & 8) == ((x / 8) % 2) * 8,
        forall|x: u32| #[trigger] (x & 15) == x % 16,
        forall|x: u32| #[trigger] (x & 16) == ((x / 16) % 2) * 16,
        forall|x: u32| #[trigger] (x & 31) == x % 32,
        forall|x: u32| #[trigger] (x & 32) == ((x / 32) % 2) * 32,
        forall|x: u32| #[trigger] (x & 63) == x % 64,
        forall|x: u32| #[trigger] (x & 64) == ((x / 64) % 2) * 64,
        forall|x: u32| #[trigger] (x & 127) == x % 128,
        forall|x: u32| #[trigger] (x & 128) == ((x / 128) % 2) * 128,
        forall|x: u32| #[trigger] (x & 240) == ((x / 16) % 16) * 16,
        forall|x: u32| #[trigger] (x & 255) == x % 256,
        forall|x: u32| #[trigger] (x & 256) == ((x / 256) % 2) * 256,
        forall|x: u32| #[trigger] (x & 512) == ((x / 512) % 2) * 512,
        forall|x: u32| #[trigger] (x & 992) == ((x / 32) % 32) * 32,
        forall|x: u32| #[trigger] (x & 1023) == x % 1024,
        forall|x: u32| #[trigger] (x & 1024) == ((x / 1024) % 2) * 1024,
        forall|x: u32| #[trigger] (x & 2048) == ((x / 2048) % 2) * 2048,
        forall|x: u32| #[trigger] (x & 4095) == x % 4096,
        forall|x: u32| #[trigger] (x & 4096) == ((x / 4096) % 2) * 4096,
        forall|x: u32| #[trigger] (x & 7936) == ((x / 256) % 32) * 256,
        forall|x: u32| #[trigger] (x & 8192) == ((x / 8192) % 2) * 8192,
        forall|x: u32| #[trigger] (x & 16383) == x % 16384,
        forall|x: u32| #[trigger] (x & 16384) == ((x / 16384) % 2) * 16384,
        forall|x: u32| #[trigger] (x & 31744) == ((x / 1024) % 32) * 1024,
        forall|x: u32| #[trigger] (x & 32767) == x % 32768,
        forall|x: u32| #[trigger] (x & 32768) == ((x / 32768) % 2) * 32768,
        forall|x: u32| #[trigger] (x & 65280) == ((x / 256) % 256) * 256,
        forall|x: u32| #[trigger] (x & 65535) == x % 65536,
        forall|x: u32| #[trigger] (x & 16777215) == x % 16777216,
        forall|x: u32| #[trigger] (x & 4294967295) == x,
        forall|x: u32, y: u32| y < 2 && x % 2 == 0 ==> #[trigger] (x | y) == x + y,
        forall|x: u32, y: u32| x < 2 && y % 2 == 0 ==> #[trigger] (x | y) == x + y,
        forall|x: u32, y: u32| y < 4 && x % 4 == 0 ==> #[trigger] (x | y) == x + y,
        forall|x: u32, y: u32| x < 4 && y % 4 == 0 ==> #[trigger] (x | y) == x + y,
        forall|x: u32, y: u32| y < 8 && x % 8 == 0 ==> #[trigger] (x | y) == x + y,
        forall|x: u32, y: u32| x < 8 && y % 8 == 0 ==> #[trigger] (x | y) == x + y,
        forall|x: u32, y: u32| y < 16 && x % 16 == 0 ==> #[trigger] (x | y) == x + y,
        forall|x: u32, y: u32| x < 16 && y % 16 == 0 ==> #[trigger] (x | y) == x + y,
        forall|x: u32, y: u32| y < 32 && x % 32 == 0 ==> #[trigger] (x | y) == x + y,
        forall|x: u32, y: u32| x < 32 && y % 32 == 0 ==> #[trigger] (x | y) == x + y,
        forall|x: u32, y: u32| y < 64 && x % 64 == 0 ==> #[trigger] (x | y) == x + y,
        forall|x: u32, y: u32| x < 64 && y % 64 == 0 ==> #[trigger] (x | y) == x + y,
        forall|x: u32, y: u32| y < 128 && x % 128 == 0 ==> #[trigger] (x | y) == x + y,
        forall|x: u32, y: u32| x < 128 && y % 128 == 0 ==> #[trigger] (x | y) == x + y,
        forall|x: u32, y: u32| y < 256 && x % 256 == 0 ==> #[trigger] (x | y) == x + y,
        forall|x: u32, y: u32| x < 256 && y % 256 == 0 ==> #[trigger] (x | y) == x + y,
        forall|x: u32, y: u32| y < 65536 && x % 65536 == 0 ==> #[trigger] (x | y) == x + y,
        forall|x: u32, y: u32| x < 65536 && y % 65536 == 0 ==> #[trigger] (x | y) == x + y,
        forall|x: u32, y: u32| y < 16777216 && x % 16777216 == 0 ==> #[trigger] (x | y) == x + y,
        forall|x: u32, y: u32| x < 16777216 && y % 16777216 == 0 ==> #[trigger] (x | y) == x + y,
{
    assert((forall|x: u32| #[trigger] (x >> 1) == x / 2) && (forall|x: u32| x <= 2147483647 ==> #[trigger] (x << 1) == x * 2) && (forall|x: u32| #[trigger] (x >> 2) == x / 4) && (forall|x: u32| x <= 1073741823 ==> #[trigger] (x << 2) == x * 4) && (forall|x: u32| #[trigger] (x >> 3) == x / 8) && (forall|x: u32| x <= 536870911 ==> #[trigger] (x << 3) == x * 8) && (forall|x: u32| #[trigger] (x >> 4) == x / 16) && (forall|x: u32| x <= 268435455 ==> #[trigger] (x << 4) == x * 16) && (forall|x: u32| #[trigger] (x >> 5) == x / 32) && (forall|x: u32| x <= 134217727 ==> #[trigger] (x << 5) == x * 32) && (forall|x: u32| #[trigger] (x >> 6) == x / 64) && (forall|x: u32| x <= 67108863 ==> #[trigger] (x << 6) == x * 64)) by (bit_vector);
    assert((forall|x: u32| #[trigger] (x >> 7) == x / 128) && (forall|x: u32| x <= 33554431 ==> #[trigger] (x << 7) == x * 128) && (forall|x: u32| #[trigger] (x >> 8) == x / 256) && (forall|x: u32| x <= 16777215 ==> #[trigger] (x << 8) == x * 256) && (forall|x: u32| #[trigger] (x >> 10) == x / 1024) && (forall|x: u32| x <= 4194303 ==> #[trigger] (x << 10) == x * 1024) && (forall|x: u32| #[trigger] (x >> 12) == x / 4096) && (forall|x: u32| x <= 1048575 ==> #[trigger] (x << 12) == x * 4096) && (forall|x: u32| #[trigger] (x >> 16) == x / 65536) && (forall|x: u32| x <= 65535 ==> #[trigger] (x << 16) == x * 65536) && (forall|x: u32| #[trigger] (x >> 24) == x / 16777216) && (forall|x: u32| x <= 255 ==> #[trigger] (x << 24) == x * 16777216)) by (bit_vector);
    assert((forall|x: u32| #[trigger] (x & 1) == x % 2) && (forall|x: u32| #[trigger] (x & 2) == ((x / 2) % 2) * 2) && (forall|x: u32| #[trigger] (x & 3) == x % 4) && (forall|x: u32| #[trigger] (x & 4) == ((x / 4) % 2) * 4) && (forall|x: u32| #[trigger] (x & 7) == x % 8) && (forall|x: u32| #[trigger] (x & 8) == ((x / 8) % 2) * 8) && (forall|x: u32| #[trigger] (x & 15) == x % 16) && (forall|x: u32| #[trigger] (x & 16) == ((x / 16) % 2) * 16) && (forall|x: u32| #[trigger] (x & 31) == x % 32) && (forall|x: u32| #[trigger] (x & 32) == ((x / 32) % 2) * 32) && (forall|x: u32| #[trigger] (x & 63) == x % 64) && (forall|x: u32| #[trigger] (x & 64) == ((x / 64) % 2) * 64)) by (bit_vector);
    assert((forall|x: u32| #[trigger] (x & 127) == x % 128) && (forall|x: u32| #[trigger] (x & 128) == ((x / 128) % 2) * 128) && (forall|x: u32| #[trigger] (x & 240) == ((x / 16) % 16) * 16) && (forall|x: u32| #[trigger] (x & 255) == x % 256) && (forall|x: u32| #[trigger] (x & 256) == ((x / 256) % 2) * 256) && (forall|x: u32| #[trigger] (x & 512) == ((x / 512) % 2) * 512) && (forall|x: u32| #[trigger] (x & 992) == ((x / 32) % 32) * 32) && (forall|x: u32| #[trigger] (x & 1023) == x % 1024) && (forall|x: u32| #[trigger] (x & 1024) == ((x / 1024) % 2) * 1024) && (forall|x: u32| #[trigger] (x & 2048) == ((x / 2048) % 2) * 2048) && (forall|x: u32| #[trigger] (x & 4095) == x % 4096) && (forall|x: u32| #[trigger] (x & 4096) == ((x / 4096) % 2) * 4096)) by (bit_vector);
    assert((forall|x: u32| #[trigger] (x & 7936) == ((x / 256) % 32) * 256) && (forall|x: u32| #[trigger] (x & 8192) == ((x / 8192) % 2) * 8192) && (forall|x: u32| #[trigger] (x & 16383) == x % 16384) && (forall|x: u32| #[trigger] (x & 16384) == ((x / 16384) % 2) * 16384) && (forall|x: u32| #[trigger] (x & 31744) == ((x / 1024) % 32) * 1024) && (forall|x: u32| #[trigger] (x & 32767) == x % 32768) && (forall|x: u32| #[trigger] (x & 32768) == ((x / 32768) % 2) * 32768) && (forall|x: u32| #[trigger] (x & 65280) == ((x / 256) % 256) * 256) && (forall|x: u32| #[trigger] (x & 65535) == x % 65536) && (forall|x: u32| #[trigger] (x & 16777215) == x % 16777216) && (forall|x: u32| #[trigger] (x & 4294967295) == x) && (forall|x: u32, y: u32| y < 2 && x % 2 == 0 ==> #[trigger] (x | y) == x + y)) by (bit_vector);
    assert((forall|x: u32, y: u32| x < 2 && y % 2 == 0 ==> #[trigger] (x | y) == x + y) && (forall|x: u32, y: u32| y < 4 && x % 4 == 0 ==> #[trigger] (x | y) == x + y) && (forall|x: u32, y: u32| x < 4 && y % 4 == 0 ==> #[trigger] (x | y) == x + y) && (forall|x: u32, y: u32| y < 8 && x % 8 == 0 ==> #[trigger] (x | y) == x + y) && (forall|x: u32, y: u32| x < 8 && y % 8 == 0 ==> #[trigger] (x | y) == x + y) && (forall|x: u32, y: u32| y < 16 && x % 16 == 0 ==> #[trigger] (x | y) == x + y) && (forall|x: u32, y: u32| x < 16 && y % 16 == 0 ==> #[trigger] (x | y) == x + y) && (forall|x: u32, y: u32| y < 32 && x % 32 == 0 ==> #[trigger] (x | y) == x + y) && (forall|x: u32, y: u32| x < 32 && y % 32 == 0 ==> #[trigger] (x | y) == x + y) && (forall|x: u32, y: u32| y < 64 && x % 64 == 0 ==> #[trigger] (x | y) == x + y) && (forall|x: u32, y: u32| x < 64 && y % 64 == 0 ==> #[trigger] (x | y) == x + y) && (forall|x: u32, y: u32| y < 128 && x % 128 == 0 ==> #[trigger] (x | y) == x + y)) by (bit_vector);
    assert((forall|x: u32, y: u32| x < 128 && y % 128 == 0 ==> #[trigger] (x | y) == x + y) && (forall|x: u32, y: u32| y < 256 && x % 256 == 0 ==> #[trigger] (x | y) == x + y) && (forall|x: u32, y: u32| x < 256 && y % 256 == 0 ==> #[trigger] (x | y) == x + y) && (forall|x: u32, y: u32| y < 65536 && x % 65536 == 0 ==> #[trigger] (x | y) == x + y) && (forall|x: u32, y: u32| x < 65536 && y % 65536 == 0 ==> #[trigger] (x | y) == x + y) && (forall|x: u32, y: u32| y < 16777216 && x % 16777216 == 0 ==> #[trigger] (x | y) == x + y) && (forall|x: u32, y: u32| x < 16777216 && y % 16777216 == 0 ==> #[trigger] (x | y) == x + y)) by (bit_vector);
}
pub proof fn lemma_bits_u64()
    ensures
        forall|x: u64| #[trigger] (x >> 1) == x / 2,
        forall|x: u64| x <= 9223372036854775807 ==> #[trigger] (x << 1) == x * 2,
        forall|x: u64| #[trigger] (x >> 2) == x / 4,
        forall|x: u64| x <= 4611686018427387903 ==> #[trigger] (x << 2) == x * 4,
        forall|x: u64| #[trigger] (x >> 3) == x / 8,
        forall|x: u64| x <= 2305843009213693951 ==> #[trigger] (x << 3) == x * 8,
        forall|x: u64| #[trigger] (x >> 4) == x / 16,
        forall|x: u64| x <= 1152921504606846975 ==> #[trigger] (x << 4) == x * 16,
        forall|x: u64| #[trigger] (x >> 5) == x / 32,
        forall|x: u64| x <= 576460752303423487 ==> #[trigger] (x << 5) == x * 32,
        forall|x: u64| #[trigger] (x >> 6) == x / 64,
        forall|x: u64| x <= 288230376151711743 ==> #[trigger] (x << 6) == x * 64,
        forall|x: u64| #[trigger] (x >> 7) == x / 128,
        forall|x: u64| x <= 144115188075855871 ==> #[trigger] (x << 7) == x * 128,
        forall|x: u64| #[trigger] (x >> 8) == x / 256,
        forall|x: u64| x <= 72057594037927935 ==> #[trigger] (x << 8) == x * 256,
        forall|x: u64| #[trigger] (x >> 10) == x / 1024,
        forall|x: u64| x <= 18014398509481983 ==> #[trigger] (x << 10) == x * 1024,
        forall|x: u64| #[trigger] (x >> 12) == x / 4096,
        forall|x: u64| x <= 4503599627370495 ==> #[trigger] (x << 12) == x * 4096,
        forall|x: u64| #[trigger] (x >> 16) == x / 65536,
        forall|x: u64| x <= 281474976710655 ==> #[trigger] (x << 16) == x * 65536,
        forall|x: u64| #[trigger] (x >> 24) == x / 16777216,
        forall|x: u64| x <= 1099511627775 ==> #[trigger] (x << 24) == x * 16777216,
        forall|x: u64| #[trigger] (x >> 32) == x / 4294967296,
        forall|x: u64| x <= 4294967295 ==> #[trigger] (x << 32) == x * 4294967296,
        forall|x: u64| #[trigger] (x >> 40) == x / 1099511627776,
        forall|x: u64| x <= 16777215 ==> #[trigger] (x << 40) == x * 1099511627776,
        forall|x: u64| #[trigger] (x >> 48) == x / 281474976710656,
        forall|x: u64| x <= 65535 ==> #[trigger] (x << 48) == x * 281474976710656,
        forall|x: u64| #[trigger] (x >> 56) == x / 72057594037927936,
        forall|x: u64| x <= 255 ==> #[trigger] (x << 56) == x * 72057594037927936,
        forall|x: u64| #[trigger] (x & 1) == x % 2,
        forall|x: u64| #[trigger] (x & 2) == ((x / 2) % 2) * 2,
        forall|x: u64| #[trigger] (x & 3) == x % 4,
        forall|x: u64| #[trigger] (x & 4) == ((x / 4) % 2) * 4,
        forall|x: u64| #[trigger] (x & 7) == x % 8,
        forall|x: u64| #[trigger] (x & 8) == ((x / 8) % 2) * 8,
        forall|x: u64| #[trigger] (x & 15) == x % 16,
        forall|x: u64| #[trigger] (x & 16) == ((x / 16) % 2) * 16,
        forall|x: u64| #[trigger] (x & 31) == x % 32,
        forall|x: u64| #[trigger] (x & 32) == ((x / 32) % 2) * 32,
        forall|x: u64| #[trigger] (x & 63) == x % 64,
        forall|x: u64| #[trigger] (x & 64) == ((x / 64) % 2) * 64,
        forall|x: u64| #[trigger] (x & 127) == x % 128,
        forall|x: u64| #[trigger] (x & 128) == ((x / 128) % 2) * 128,
        forall|x: u64| #[trigger] (x & 240) == ((x / 16) % 16) * 16,
        forall|x: u64| #[trigger] (x & 255) == x % 256,
        forall|x: u64| #[trigger] (x & 256) == ((x / 256) % 2) * 256,
        forall|x: u64| #[trigger] (x & 512) == ((x / 512) % 2) * 512,
        forall|x: u64| #[trigger] (x & 992) == ((x / 32) % 32) * 32,
        forall|x: u64| #[trigger] (x & 1023) == x % 1024,
        forall|x: u64| #[trigger] (x & 1024) == ((x / 1024) % 2) * 1024,
        forall|x: u64| #[trigger] (x & 2048) == ((x / 2048) % 2) * 2048,
        forall|x: u64| #[trigger] (x & 4095) == x % 4096,
        forall|x: u64| #[trigger] (x & 4096) == ((x / 4096) % 2) * 4096,
        forall|x: u64| #[trigger] (x & 7936) == ((x / 256) % 32) * 256,
        forall|x: u64| #[trigger] (x & 8192) == ((x / 8192) % 2) * 8192,
        forall|x: u64| #[trigger] (x & 16383) == x % 16384,
        forall|x: u64| #[trigger] (x & 16384) == ((x / 16384) % 2) * 16384,
        forall|x: u64| #[trigger] (x & 31744) == ((x / 1024) % 32) * 1024,
        forall|x: u64| #[trigger] (x & 32767) == x % 32768,
        forall|x: u64| #[trigger] (x & 32768) == ((x / 32768) % 2) * 32768,
        forall|x: u64| #[trigger] (x & 65280) == ((x / 256) % 256) * 256,
        forall|x: u64| #[trigger] (x & 65535) == x % 65536,
        forall|x: u64| #[trigger] (x & 16777215) == x % 16777216,
        forall|x: u64| #[trigger] (x & 4294967295) == x % 4294967296,
        forall|x: u64, y: u64| y < 2 && x % 2 == 0 ==> #[trigger] (x | y) == x + y,
        forall|x: u64, y: u64| x < 2 && y % 2 == 0 ==> #[trigger] (x | y) == x + y,
        forall|x: u64, y: u64| y < 4 && x % 4 == 0 ==> #[trigger] (x | y) == x + y,
        forall|x: u64, y: u64| x < 4 && y % 4 == 0 ==> #[trigger] (x | y) == x + y,
        forall|x: u64, y: u64| y < 8 && x % 8 == 0 ==> #[trigger] (x | y) == x + y,
        forall|x: u64, y: u64| x < 8 && y % 8 == 0 ==> #[trigger] (x | y) == x + y,
        forall|x: u64, y: u64| y < 16 && x % 16 == 0 ==> #[trigger] (x | y) == x + y,
        forall|x: u64, y: u64| x < 16 && y % 16 == 0 ==> #[trigger] (x | y) == x + y,
        forall|x: u64, y: u64| y < 32 && x % 32 == 0 ==> #[trigger] (x | y) == x + y,
        forall|x: u64, y: u64| x < 32 && y % 32 == 0 ==> #[trigger] (x | y) == x + y,
        forall|x: u64, y: u64| y < 64 && x % 64 == 0 ==> #[trigger] (x | y) == x + y,
        forall|x: u64, y: u64| x < 64 && y % 64 == 0 ==> #[trigger] (x | y) == x + y,
        forall|x: u64, y: u64| y < 128 && x % 128 == 0 ==> #[trigger] (x | y) == x + y,
        forall|x: u64, y: u64| x < 128 && y % 128 == 0 ==> #[trigger] (x | y) == x + y,
        forall|x: u64, y: u64| y < 256 && x % 256 == 0 ==> #[trigger] (x | y) == x + y,
        forall|x: u64, y: u64| x < 256 && y % 256 == 0 ==> #[trigger] (x | y) == x + y,
        forall|x: u64, y: u64| y < 65536 && x % 65536 == 0 ==> #[trigger] (x | y) == x + y,
        forall|x: u64, y: u64| x < 65536 && y % 65536 == 0 ==> #[trigger] (x | y) == x + y,
        forall|x: u64, y: u64| y < 16777216 && x % 16777216 == 0 ==> #[trigger] (x | y) == x + y,
        forall|x: u64, y: u64| x < 16777216 && y % 16777216 == 0 ==> #[trigger] (x | y) == x + y,
        forall|x: u64, y: u64| y < 4294967296 && x % 4294967296 == 0 ==> #[trigger] (x | y) == x + y,
        forall|x: u64, y: u64| x < 4294967296 && y % 4294967296 == 0 ==> #[trigger] (x | y) == x + y,
{
    assert((forall|x: u64| #[trigger] (x >> 1) == x / 2) && (forall|x: u64| x <= 9223372036854775807 ==> #[trigger] (x << 1) == x * 2) && (forall|x: u64| #[trigger] (x >> 2) == x / 4) && (forall|x: u64| x <= 4611686018427387903 ==> #[trigger] (x << 2) == x * 4) && (forall|x: u64| #[trigger] (x >> 3) == x / 8) && (forall|x: u64| x <= 2305843009213693951 ==> #[trigger] (x << 3) == x * 8) && (forall|x: u64| #[trigger] (x >> 4) == x / 16) && (forall|x: u64| x <= 1152921504606846975 ==> #[trigger] (x << 4) == x * 16) && (forall|x: u64| #[trigger] (x >> 5) == x / 32) && (forall|x: u64| x <= 576460752303423487 ==> #[trigger] (x << 5) == x * 32) && (forall|x: u64| #[trigger] (x >> 6) == x / 64) && (forall|x: u64| x <= 288230376151711743 ==> #[trigger] (x << 6) == x * 64)) by (bit_vector);
    assert((forall|x: u64| #[trigger] (x >> 7) == x / 128) && (forall|x: u64| x <= 144115188075855871 ==> #[trigger] (x << 7) == x * 128) && (forall|x: u64| #[trigger] (x >> 8) == x / 256) && (forall|x: u64| x <= 72057594037927935 ==> #[trigger] (x << 8) == x * 256) && (forall|x: u64| #[trigger] (x >> 10) == x / 1024) && (forall|x: u64| x <= 18014398509481983 ==> #[trigger] (x << 10) == x * 1024) && (forall|x: u64| #[trigger] (x >> 12) == x / 4096) && (forall|x: u64| x <= 4503599627370495 ==> #[trigger] (x << 12) == x * 4096) && (forall|x: u64| #[trigger] (x >> 16) == x / 65536) && (forall|x: u64| x <= 281474976710655 ==> #[trigger] (x << 16) == x * 65536) && (forall|x: u64| #[trigger] (x >> 24) == x / 16777216) && (forall|x: u64| x <= 1099511627775 ==> #[trigger] (x << 24) == x * 16777216)) by (bit_vector);
    assert((forall|x: u64| #[trigger] (x >> 32) == x / 4294967296) && (forall|x: u64| x <= 4294967295 ==> #[trigger] (x << 32) == x * 4294967296) && (forall|x: u64| #[trigger] (x >> 40) == x / 1099511627776) && (forall|x: u64| x <= 16777215 ==> #[trigger] (x << 40) == x * 1099511627776) && (forall|x: u64| #[trigger] (x >> 48) == x / 281474976710656) && (forall|x: u64| x <= 65535 ==> #[trigger] (x << 48) == x * 281474976710656) && (forall|x: u64| #[trigger] (x >> 56) == x / 72057594037927936) && (forall|x: u64| x <= 255 ==> #[trigger] (x << 56) == x * 72057594037927936) && (forall|x: u64| #[trigger] (x & 1) == x % 2) && (forall|x: u64| #[trigger] (x & 2) == ((x / 2) % 2) * 2) && (forall|x: u64| #[trigger] (x & 3) == x % 4) && (forall|x: u64| #[trigger] (x & 4) == ((x / 4) % 2) * 4)) by (bit_vector);
    assert((forall|x: u64| #[trigger] (x & 7) == x % 8) && (forall|x: u64| #[trigger] (x & 8) == ((x / 8) % 2) * 8) && (forall|x: u64| #[trigger] (x & 15) == x % 16) && (forall|x: u64| #[trigger] (x & 16) == ((x / 16) % 2) * 16) && (forall|x: u64| #[trigger] (x & 31) == x % 32) && (forall|x: u64| #[trigger] (x & 32) == ((x / 32) % 2) * 32) && (forall|x: u64| #[trigger] (x & 63) == x % 64) && (forall|x: u64| #[trigger] (x & 64) == ((x / 64) % 2) * 64) && (forall|x: u64| #[trigger] (x & 127) == x % 128) && (forall|x: u64| #[trigger] (x & 128) == ((x / 128) % 2) * 128) && (forall|x: u64| #[trigger] (x & 240) == ((x / 16) % 16) * 16) && (forall|x: u64| #[trigger] (x & 255) == x % 256)) by (bit_vector);
    assert((forall|x: u64| #[trigger] (x & 256) == ((x / 256) % 2) * 256) && (forall|x: u64| #[trigger] (x & 512) == ((x / 512) % 2) * 512) && (forall|x: u64| #[trigger] (x & 992) == ((x / 32) % 32) * 32) && (forall|x: u64| #[trigger] (x & 1023) == x % 1024) && (forall|x: u64| #[trigger] (x & 1024) == ((x / 1024) % 2) * 1024) && (forall|x: u64| #[trigger] (x & 2048) == ((x / 2048) % 2) * 2048) && (forall|x: u64| #[trigger] (x & 4095) == x % 4096) && (forall|x: u64| #[trigger] (x & 4096) == ((x / 4096) % 2) * 4096) && (forall|x: u64| #[trigger] (x & 7936) == ((x / 256) % 32) * 256) && (forall|x: u64| #[trigger] (x & 8192) == ((x / 8192) % 2) * 8192) && (forall|x: u64| #[trigger] (x & 16383) == x % 16384) && (forall|x: u64| #[trigger] (x & 16384) == ((x / 16384) % 2) * 16384)) by (bit_vector);
    assert((forall|x: u64| #[trigger] (x & 31744) == ((x / 1024) % 32) * 1024) && (forall|x: u64| #[trigger] (x & 32767) == x % 32768) && (forall|x: u64| #[trigger] (x & 32768) == ((x / 32768) % 2) * 32768) && (forall|x: u64| #[trigger] (x & 65280) == ((x / 256) % 256) * 256) && (forall|x: u64| #[trigger] (x & 65535) == x % 65536) && (forall|x: u64| #[trigger] (x & 16777215) == x % 16777216) && (forall|x: u64| #[trigger] (x & 4294967295) == x % 4294967296) && (forall|x: u64, y: u64| y < 2 && x % 2 == 0 ==> #[trigger] (x | y) == x + y) && (forall|x: u64, y: u64| x < 2 && y % 2 == 0 ==> #[trigger] (x | y) == x + y) && (forall|x: u64, y: u64| y < 4 && x % 4 == 0 ==> #[trigger] (x | y) == x + y) && (forall|x: u64, y: u64| x < 4 && y % 4 == 0 ==> #[trigger] (x | y) == x + y) && (forall|x: u64, y: u64| y < 8 && x % 8 == 0 ==> #[trigger] (x | y) == x + y)) by (bit_vector);
    assert((forall|x: u64, y: u64| x < 8 && y % 8 == 0 ==> #[trigger] (x | y) == x + y) && (forall|x: u64, y: u64| y < 16 && x % 16 == 0 ==> #[trigger] (x | y) == x + y) && (forall|x: u64, y: u64| x < 16 && y % 16 == 0 ==> #[trigger] (x | y) == x + y) && (forall|x: u64, y: u64| y < 32 && x % 32 == 0 ==> #[trigger] (x | y) == x + y) && (forall|x: u64, y: u64| x < 32 && y % 32 == 0 ==> #[trigger] (x | y) == x + y) && (forall|x: u64, y: u64| y < 64 && x % 64 == 0 ==> #[trigger] (x | y) == x + y) && (forall|x: u64, y: u64| x < 64 && y % 64 == 0 ==> #[trigger] (x | y) == x + y) && (forall|x: u64, y: u64| y < 128 && x % 128 == 0 ==> #[trigger] (x | y) == x + y) && (forall|x: u64, y: u64| x < 128 && y % 128 == 0 ==> #[trigger] (x | y) == x + y) && (forall|x: u64, y: u64| y < 256 && x % 256 == 0 ==> #[trigger] (x | y) == x + y) && (forall|x: u64, y: u64| x < 256 && y % 256 == 0 ==> #[trigger] (x | y) == x + y) && (forall|x: u64, y: u64| y < 65536 && x % 65536 == 0 ==> #[trigger] (x | y) == x + y)) by (bit_vector);
    assert((forall|x: u64, y: u64| x < 65536 && y % 65536 == 0 ==> #[trigger] (x | y) == x + y) && (forall|x: u64, y: u64| y < 16777216 && x % 16777216 == 0 ==> #[trigger] (x | y) == x + y) && (forall|x: u64, y: u64| x < 16777216 && y % 16777216 == 0 ==> #[trigger] (x | y) == x + y) && (forall|x: u64, y: u64| y < 4294967296 && x % 4294967296 == 0 ==> #[trigger] (x | y) == x + y) && (forall|x: u64, y: u64| x < 4294967296 && y % 4294967296 == 0 ==> #[trigger] (x | y) == x + y)) by (bit_vector);
}
