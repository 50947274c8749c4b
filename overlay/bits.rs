// Arithmetic meaning of the shifts and masks the code uses (all proved by bit-vector reasoning).
pub mod bits {
    use super::*;
    pub broadcast proof fn shr_u8_1(v: u8) ensures #[trigger] (v >> 1) == v / 2 { assert((v >> 1) == v / 2) by (bit_vector); }
    pub broadcast proof fn shl_u8_1(v: u8) requires v < 0x80 ensures #[trigger] (v << 1) == v * 0x2 { assert(v < 0x80 ==> (v << 1) == v * 0x2) by (bit_vector); }
    pub broadcast proof fn shr_u8_2(v: u8) ensures #[trigger] (v >> 2) == v / 4 { assert((v >> 2) == v / 4) by (bit_vector); }
    pub broadcast proof fn shl_u8_2(v: u8) requires v < 0x40 ensures #[trigger] (v << 2) == v * 0x4 { assert(v < 0x40 ==> (v << 2) == v * 0x4) by (bit_vector); }
    pub broadcast proof fn shr_u8_4(v: u8) ensures #[trigger] (v >> 4) == v / 16 { assert((v >> 4) == v / 16) by (bit_vector); }
    pub broadcast proof fn shl_u8_4(v: u8) requires v < 0x10 ensures #[trigger] (v << 4) == v * 0x10 { assert(v < 0x10 ==> (v << 4) == v * 0x10) by (bit_vector); }
    pub broadcast proof fn shr_u8_7(v: u8) ensures #[trigger] (v >> 7) == v / 128 { assert((v >> 7) == v / 128) by (bit_vector); }
    pub broadcast proof fn shl_u8_7(v: u8) requires v < 0x2 ensures #[trigger] (v << 7) == v * 0x80 { assert(v < 0x2 ==> (v << 7) == v * 0x80) by (bit_vector); }
    pub broadcast proof fn low_u8_1(v: u8) ensures #[trigger] (v & 0x1) == v % 0x2 { assert((v & 0x1) == v % 0x2) by (bit_vector); }
    pub broadcast proof fn low_u8_2(v: u8) ensures #[trigger] (v & 0x3) == v % 0x4 { assert((v & 0x3) == v % 0x4) by (bit_vector); }
    pub broadcast proof fn low_u8_3(v: u8) ensures #[trigger] (v & 0x7) == v % 0x8 { assert((v & 0x7) == v % 0x8) by (bit_vector); }
    pub broadcast proof fn low_u8_4(v: u8) ensures #[trigger] (v & 0xf) == v % 0x10 { assert((v & 0xf) == v % 0x10) by (bit_vector); }
    pub broadcast proof fn low_u8_5(v: u8) ensures #[trigger] (v & 0x1f) == v % 0x20 { assert((v & 0x1f) == v % 0x20) by (bit_vector); }
    pub broadcast proof fn low_u8_7(v: u8) ensures #[trigger] (v & 0x7f) == v % 0x80 { assert((v & 0x7f) == v % 0x80) by (bit_vector); }
    pub broadcast proof fn bit_u8_1(v: u8) ensures #[trigger] (v & 0x2) == v / 0x2 % 2 * 0x2 { assert((v & 0x2) == v / 0x2 % 2 * 0x2) by (bit_vector); }
    pub broadcast proof fn bit_u8_2(v: u8) ensures #[trigger] (v & 0x4) == v / 0x4 % 2 * 0x4 { assert((v & 0x4) == v / 0x4 % 2 * 0x4) by (bit_vector); }
    pub broadcast proof fn bit_u8_3(v: u8) ensures #[trigger] (v & 0x8) == v / 0x8 % 2 * 0x8 { assert((v & 0x8) == v / 0x8 % 2 * 0x8) by (bit_vector); }
    pub broadcast proof fn bit_u8_4(v: u8) ensures #[trigger] (v & 0x10) == v / 0x10 % 2 * 0x10 { assert((v & 0x10) == v / 0x10 % 2 * 0x10) by (bit_vector); }
    pub broadcast proof fn bit_u8_7(v: u8) ensures #[trigger] (v & 0x80) == v / 0x80 % 2 * 0x80 { assert((v & 0x80) == v / 0x80 % 2 * 0x80) by (bit_vector); }
    pub broadcast proof fn or_u8_1(a: u8, b: u8) requires a % 0x2 == 0, b < 0x2 ensures #[trigger] (a | b) == a + b { assert(a % 0x2 == 0 && b < 0x2 ==> (a | b) == a + b) by (bit_vector); }
    pub broadcast proof fn or_u8_2(a: u8, b: u8) requires a % 0x4 == 0, b < 0x4 ensures #[trigger] (a | b) == a + b { assert(a % 0x4 == 0 && b < 0x4 ==> (a | b) == a + b) by (bit_vector); }
    pub broadcast proof fn or_u8_4(a: u8, b: u8) requires a % 0x10 == 0, b < 0x10 ensures #[trigger] (a | b) == a + b { assert(a % 0x10 == 0 && b < 0x10 ==> (a | b) == a + b) by (bit_vector); }
    pub broadcast proof fn or_u8_7(a: u8, b: u8) requires a % 0x80 == 0, b < 0x80 ensures #[trigger] (a | b) == a + b { assert(a % 0x80 == 0 && b < 0x80 ==> (a | b) == a + b) by (bit_vector); }
    pub broadcast proof fn shr_u16_1(v: u16) ensures #[trigger] (v >> 1) == v / 2 { assert((v >> 1) == v / 2) by (bit_vector); }
    pub broadcast proof fn shl_u16_1(v: u16) requires v < 0x8000 ensures #[trigger] (v << 1) == v * 0x2 { assert(v < 0x8000 ==> (v << 1) == v * 0x2) by (bit_vector); }
    pub broadcast proof fn shr_u16_2(v: u16) ensures #[trigger] (v >> 2) == v / 4 { assert((v >> 2) == v / 4) by (bit_vector); }
    pub broadcast proof fn shl_u16_2(v: u16) requires v < 0x4000 ensures #[trigger] (v << 2) == v * 0x4 { assert(v < 0x4000 ==> (v << 2) == v * 0x4) by (bit_vector); }
    pub broadcast proof fn shr_u16_4(v: u16) ensures #[trigger] (v >> 4) == v / 16 { assert((v >> 4) == v / 16) by (bit_vector); }
    pub broadcast proof fn shl_u16_4(v: u16) requires v < 0x1000 ensures #[trigger] (v << 4) == v * 0x10 { assert(v < 0x1000 ==> (v << 4) == v * 0x10) by (bit_vector); }
    pub broadcast proof fn shr_u16_7(v: u16) ensures #[trigger] (v >> 7) == v / 128 { assert((v >> 7) == v / 128) by (bit_vector); }
    pub broadcast proof fn shl_u16_7(v: u16) requires v < 0x200 ensures #[trigger] (v << 7) == v * 0x80 { assert(v < 0x200 ==> (v << 7) == v * 0x80) by (bit_vector); }
    pub broadcast proof fn shr_u16_8(v: u16) ensures #[trigger] (v >> 8) == v / 256 { assert((v >> 8) == v / 256) by (bit_vector); }
    pub broadcast proof fn shl_u16_8(v: u16) requires v < 0x100 ensures #[trigger] (v << 8) == v * 0x100 { assert(v < 0x100 ==> (v << 8) == v * 0x100) by (bit_vector); }
    pub broadcast proof fn shr_u16_14(v: u16) ensures #[trigger] (v >> 14) == v / 16384 { assert((v >> 14) == v / 16384) by (bit_vector); }
    pub broadcast proof fn shl_u16_14(v: u16) requires v < 0x4 ensures #[trigger] (v << 14) == v * 0x4000 { assert(v < 0x4 ==> (v << 14) == v * 0x4000) by (bit_vector); }
    pub broadcast proof fn low_u16_1(v: u16) ensures #[trigger] (v & 0x1) == v % 0x2 { assert((v & 0x1) == v % 0x2) by (bit_vector); }
    pub broadcast proof fn low_u16_2(v: u16) ensures #[trigger] (v & 0x3) == v % 0x4 { assert((v & 0x3) == v % 0x4) by (bit_vector); }
    pub broadcast proof fn low_u16_3(v: u16) ensures #[trigger] (v & 0x7) == v % 0x8 { assert((v & 0x7) == v % 0x8) by (bit_vector); }
    pub broadcast proof fn low_u16_4(v: u16) ensures #[trigger] (v & 0xf) == v % 0x10 { assert((v & 0xf) == v % 0x10) by (bit_vector); }
    pub broadcast proof fn low_u16_5(v: u16) ensures #[trigger] (v & 0x1f) == v % 0x20 { assert((v & 0x1f) == v % 0x20) by (bit_vector); }
    pub broadcast proof fn low_u16_7(v: u16) ensures #[trigger] (v & 0x7f) == v % 0x80 { assert((v & 0x7f) == v % 0x80) by (bit_vector); }
    pub broadcast proof fn low_u16_8(v: u16) ensures #[trigger] (v & 0xff) == v % 0x100 { assert((v & 0xff) == v % 0x100) by (bit_vector); }
    pub broadcast proof fn low_u16_12(v: u16) ensures #[trigger] (v & 0xfff) == v % 0x1000 { assert((v & 0xfff) == v % 0x1000) by (bit_vector); }
    pub broadcast proof fn low_u16_14(v: u16) ensures #[trigger] (v & 0x3fff) == v % 0x4000 { assert((v & 0x3fff) == v % 0x4000) by (bit_vector); }
    pub broadcast proof fn bit_u16_1(v: u16) ensures #[trigger] (v & 0x2) == v / 0x2 % 2 * 0x2 { assert((v & 0x2) == v / 0x2 % 2 * 0x2) by (bit_vector); }
    pub broadcast proof fn bit_u16_2(v: u16) ensures #[trigger] (v & 0x4) == v / 0x4 % 2 * 0x4 { assert((v & 0x4) == v / 0x4 % 2 * 0x4) by (bit_vector); }
    pub broadcast proof fn bit_u16_3(v: u16) ensures #[trigger] (v & 0x8) == v / 0x8 % 2 * 0x8 { assert((v & 0x8) == v / 0x8 % 2 * 0x8) by (bit_vector); }
    pub broadcast proof fn bit_u16_4(v: u16) ensures #[trigger] (v & 0x10) == v / 0x10 % 2 * 0x10 { assert((v & 0x10) == v / 0x10 % 2 * 0x10) by (bit_vector); }
    pub broadcast proof fn bit_u16_7(v: u16) ensures #[trigger] (v & 0x80) == v / 0x80 % 2 * 0x80 { assert((v & 0x80) == v / 0x80 % 2 * 0x80) by (bit_vector); }
    pub broadcast proof fn bit_u16_15(v: u16) ensures #[trigger] (v & 0x8000) == v / 0x8000 % 2 * 0x8000 { assert((v & 0x8000) == v / 0x8000 % 2 * 0x8000) by (bit_vector); }
    pub broadcast proof fn or_u16_1(a: u16, b: u16) requires a % 0x2 == 0, b < 0x2 ensures #[trigger] (a | b) == a + b { assert(a % 0x2 == 0 && b < 0x2 ==> (a | b) == a + b) by (bit_vector); }
    pub broadcast proof fn or_u16_2(a: u16, b: u16) requires a % 0x4 == 0, b < 0x4 ensures #[trigger] (a | b) == a + b { assert(a % 0x4 == 0 && b < 0x4 ==> (a | b) == a + b) by (bit_vector); }
    pub broadcast proof fn or_u16_4(a: u16, b: u16) requires a % 0x10 == 0, b < 0x10 ensures #[trigger] (a | b) == a + b { assert(a % 0x10 == 0 && b < 0x10 ==> (a | b) == a + b) by (bit_vector); }
    pub broadcast proof fn or_u16_7(a: u16, b: u16) requires a % 0x80 == 0, b < 0x80 ensures #[trigger] (a | b) == a + b { assert(a % 0x80 == 0 && b < 0x80 ==> (a | b) == a + b) by (bit_vector); }
    pub broadcast proof fn or_u16_8(a: u16, b: u16) requires a % 0x100 == 0, b < 0x100 ensures #[trigger] (a | b) == a + b { assert(a % 0x100 == 0 && b < 0x100 ==> (a | b) == a + b) by (bit_vector); }
    pub broadcast proof fn shr_u32_1(v: u32) ensures #[trigger] (v >> 1) == v / 2 { assert((v >> 1) == v / 2) by (bit_vector); }
    pub broadcast proof fn shl_u32_1(v: u32) requires v < 0x80000000 ensures #[trigger] (v << 1) == v * 0x2 { assert(v < 0x80000000 ==> (v << 1) == v * 0x2) by (bit_vector); }
    pub broadcast proof fn shr_u32_2(v: u32) ensures #[trigger] (v >> 2) == v / 4 { assert((v >> 2) == v / 4) by (bit_vector); }
    pub broadcast proof fn shl_u32_2(v: u32) requires v < 0x40000000 ensures #[trigger] (v << 2) == v * 0x4 { assert(v < 0x40000000 ==> (v << 2) == v * 0x4) by (bit_vector); }
    pub broadcast proof fn shr_u32_4(v: u32) ensures #[trigger] (v >> 4) == v / 16 { assert((v >> 4) == v / 16) by (bit_vector); }
    pub broadcast proof fn shl_u32_4(v: u32) requires v < 0x10000000 ensures #[trigger] (v << 4) == v * 0x10 { assert(v < 0x10000000 ==> (v << 4) == v * 0x10) by (bit_vector); }
    pub broadcast proof fn shr_u32_7(v: u32) ensures #[trigger] (v >> 7) == v / 128 { assert((v >> 7) == v / 128) by (bit_vector); }
    pub broadcast proof fn shl_u32_7(v: u32) requires v < 0x2000000 ensures #[trigger] (v << 7) == v * 0x80 { assert(v < 0x2000000 ==> (v << 7) == v * 0x80) by (bit_vector); }
    pub broadcast proof fn shr_u32_8(v: u32) ensures #[trigger] (v >> 8) == v / 256 { assert((v >> 8) == v / 256) by (bit_vector); }
    pub broadcast proof fn shl_u32_8(v: u32) requires v < 0x1000000 ensures #[trigger] (v << 8) == v * 0x100 { assert(v < 0x1000000 ==> (v << 8) == v * 0x100) by (bit_vector); }
    pub broadcast proof fn shr_u32_14(v: u32) ensures #[trigger] (v >> 14) == v / 16384 { assert((v >> 14) == v / 16384) by (bit_vector); }
    pub broadcast proof fn shl_u32_14(v: u32) requires v < 0x40000 ensures #[trigger] (v << 14) == v * 0x4000 { assert(v < 0x40000 ==> (v << 14) == v * 0x4000) by (bit_vector); }
    pub broadcast proof fn shr_u32_16(v: u32) ensures #[trigger] (v >> 16) == v / 65536 { assert((v >> 16) == v / 65536) by (bit_vector); }
    pub broadcast proof fn shl_u32_16(v: u32) requires v < 0x10000 ensures #[trigger] (v << 16) == v * 0x10000 { assert(v < 0x10000 ==> (v << 16) == v * 0x10000) by (bit_vector); }
    pub broadcast proof fn shr_u32_24(v: u32) ensures #[trigger] (v >> 24) == v / 16777216 { assert((v >> 24) == v / 16777216) by (bit_vector); }
    pub broadcast proof fn shl_u32_24(v: u32) requires v < 0x100 ensures #[trigger] (v << 24) == v * 0x1000000 { assert(v < 0x100 ==> (v << 24) == v * 0x1000000) by (bit_vector); }
    pub broadcast proof fn low_u32_1(v: u32) ensures #[trigger] (v & 0x1) == v % 0x2 { assert((v & 0x1) == v % 0x2) by (bit_vector); }
    pub broadcast proof fn low_u32_2(v: u32) ensures #[trigger] (v & 0x3) == v % 0x4 { assert((v & 0x3) == v % 0x4) by (bit_vector); }
    pub broadcast proof fn low_u32_3(v: u32) ensures #[trigger] (v & 0x7) == v % 0x8 { assert((v & 0x7) == v % 0x8) by (bit_vector); }
    pub broadcast proof fn low_u32_4(v: u32) ensures #[trigger] (v & 0xf) == v % 0x10 { assert((v & 0xf) == v % 0x10) by (bit_vector); }
    pub broadcast proof fn low_u32_5(v: u32) ensures #[trigger] (v & 0x1f) == v % 0x20 { assert((v & 0x1f) == v % 0x20) by (bit_vector); }
    pub broadcast proof fn low_u32_7(v: u32) ensures #[trigger] (v & 0x7f) == v % 0x80 { assert((v & 0x7f) == v % 0x80) by (bit_vector); }
    pub broadcast proof fn low_u32_8(v: u32) ensures #[trigger] (v & 0xff) == v % 0x100 { assert((v & 0xff) == v % 0x100) by (bit_vector); }
    pub broadcast proof fn low_u32_12(v: u32) ensures #[trigger] (v & 0xfff) == v % 0x1000 { assert((v & 0xfff) == v % 0x1000) by (bit_vector); }
    pub broadcast proof fn low_u32_14(v: u32) ensures #[trigger] (v & 0x3fff) == v % 0x4000 { assert((v & 0x3fff) == v % 0x4000) by (bit_vector); }
    pub broadcast proof fn low_u32_16(v: u32) ensures #[trigger] (v & 0xffff) == v % 0x10000 { assert((v & 0xffff) == v % 0x10000) by (bit_vector); }
    pub broadcast proof fn bit_u32_1(v: u32) ensures #[trigger] (v & 0x2) == v / 0x2 % 2 * 0x2 { assert((v & 0x2) == v / 0x2 % 2 * 0x2) by (bit_vector); }
    pub broadcast proof fn bit_u32_2(v: u32) ensures #[trigger] (v & 0x4) == v / 0x4 % 2 * 0x4 { assert((v & 0x4) == v / 0x4 % 2 * 0x4) by (bit_vector); }
    pub broadcast proof fn bit_u32_3(v: u32) ensures #[trigger] (v & 0x8) == v / 0x8 % 2 * 0x8 { assert((v & 0x8) == v / 0x8 % 2 * 0x8) by (bit_vector); }
    pub broadcast proof fn bit_u32_4(v: u32) ensures #[trigger] (v & 0x10) == v / 0x10 % 2 * 0x10 { assert((v & 0x10) == v / 0x10 % 2 * 0x10) by (bit_vector); }
    pub broadcast proof fn bit_u32_7(v: u32) ensures #[trigger] (v & 0x80) == v / 0x80 % 2 * 0x80 { assert((v & 0x80) == v / 0x80 % 2 * 0x80) by (bit_vector); }
    pub broadcast proof fn bit_u32_15(v: u32) ensures #[trigger] (v & 0x8000) == v / 0x8000 % 2 * 0x8000 { assert((v & 0x8000) == v / 0x8000 % 2 * 0x8000) by (bit_vector); }
    pub broadcast proof fn bit_u32_31(v: u32) ensures #[trigger] (v & 0x80000000) == v / 0x80000000 % 2 * 0x80000000 { assert((v & 0x80000000) == v / 0x80000000 % 2 * 0x80000000) by (bit_vector); }
    pub broadcast proof fn or_u32_1(a: u32, b: u32) requires a % 0x2 == 0, b < 0x2 ensures #[trigger] (a | b) == a + b { assert(a % 0x2 == 0 && b < 0x2 ==> (a | b) == a + b) by (bit_vector); }
    pub broadcast proof fn or_u32_2(a: u32, b: u32) requires a % 0x4 == 0, b < 0x4 ensures #[trigger] (a | b) == a + b { assert(a % 0x4 == 0 && b < 0x4 ==> (a | b) == a + b) by (bit_vector); }
    pub broadcast proof fn or_u32_4(a: u32, b: u32) requires a % 0x10 == 0, b < 0x10 ensures #[trigger] (a | b) == a + b { assert(a % 0x10 == 0 && b < 0x10 ==> (a | b) == a + b) by (bit_vector); }
    pub broadcast proof fn or_u32_7(a: u32, b: u32) requires a % 0x80 == 0, b < 0x80 ensures #[trigger] (a | b) == a + b { assert(a % 0x80 == 0 && b < 0x80 ==> (a | b) == a + b) by (bit_vector); }
    pub broadcast proof fn or_u32_8(a: u32, b: u32) requires a % 0x100 == 0, b < 0x100 ensures #[trigger] (a | b) == a + b { assert(a % 0x100 == 0 && b < 0x100 ==> (a | b) == a + b) by (bit_vector); }
    pub broadcast proof fn or_u32_16(a: u32, b: u32) requires a % 0x10000 == 0, b < 0x10000 ensures #[trigger] (a | b) == a + b { assert(a % 0x10000 == 0 && b < 0x10000 ==> (a | b) == a + b) by (bit_vector); }
    pub broadcast proof fn cast_u16_u8(v: u16) ensures #[trigger] (v as u8) == v % 0x100 { assert((v as u8) == v % 0x100) by (bit_vector); }
    pub broadcast proof fn cast_u32_u8(v: u32) ensures #[trigger] (v as u8) == v % 0x100 { assert((v as u8) == v % 0x100) by (bit_vector); }
    pub broadcast proof fn cast_u32_u16(v: u32) ensures #[trigger] (v as u16) == v % 0x10000 { assert((v as u16) == v % 0x10000) by (bit_vector); }
    pub broadcast group casts { cast_u16_u8, cast_u32_u8, cast_u32_u16 }
    pub broadcast group bits { shr_u8_1, shl_u8_1, shr_u8_2, shl_u8_2, shr_u8_4, shl_u8_4, shr_u8_7, shl_u8_7, low_u8_1, low_u8_2, low_u8_3, low_u8_4, low_u8_5, low_u8_7, bit_u8_1, bit_u8_2, bit_u8_3, bit_u8_4, bit_u8_7, or_u8_1, or_u8_2, or_u8_4, or_u8_7, shr_u16_1, shl_u16_1, shr_u16_2, shl_u16_2, shr_u16_4, shl_u16_4, shr_u16_7, shl_u16_7, shr_u16_8, shl_u16_8, shr_u16_14, shl_u16_14, low_u16_1, low_u16_2, low_u16_3, low_u16_4, low_u16_5, low_u16_7, low_u16_8, low_u16_12, low_u16_14, bit_u16_1, bit_u16_2, bit_u16_3, bit_u16_4, bit_u16_7, bit_u16_15, or_u16_1, or_u16_2, or_u16_4, or_u16_7, or_u16_8, shr_u32_1, shl_u32_1, shr_u32_2, shl_u32_2, shr_u32_4, shl_u32_4, shr_u32_7, shl_u32_7, shr_u32_8, shl_u32_8, shr_u32_14, shl_u32_14, shr_u32_16, shl_u32_16, shr_u32_24, shl_u32_24, low_u32_1, low_u32_2, low_u32_3, low_u32_4, low_u32_5, low_u32_7, low_u32_8, low_u32_12, low_u32_14, low_u32_16, bit_u32_1, bit_u32_2, bit_u32_3, bit_u32_4, bit_u32_7, bit_u32_15, bit_u32_31, or_u32_1, or_u32_2, or_u32_4, or_u32_7, or_u32_8, or_u32_16 }
}
