/// What the elementary codecs make of a whole attribute value.
pub mod c00 {
    use super::*;
    use crate::seqs::*;
    use crate::bytecodec::*;
    use crate::bytecodec::fixnum::*;
    use crate::bytecodec::bytes::*;
    use crate::bytecodec::null::*;
    use crate::bytecodec::tuple::*;
    use crate::bytecodec::combinator::*;
    use crate::message::whole;
    use crate::net::*;
    use vstd::utf8::{encode_utf8, valid_utf8};

    pub proof fn u8_value(v: Seq<u8>)
        ensures whole(U8Decoder::run0(v)) == if v.len() == 1 { Some(v[0]) } else { None }
    { broadcast use contents; reveal(drop); if v.len() >= 1 { assert(v.take(1)[0] == v[0]); } }
    pub proof fn u16_value(v: Seq<u8>)
        ensures whole(U16beDecoder::run0(v)) == if v.len() == 2 { Some(be16(v)) } else { None }
    { broadcast use contents; reveal(drop); if v.len() == 2 { assert(v.take(2) =~= v); } }
    pub proof fn u32_value(v: Seq<u8>)
        ensures whole(U32beDecoder::run0(v)) == if v.len() == 4 { Some(be32(v)) } else { None }
    { broadcast use contents; reveal(drop); if v.len() == 4 { assert(v.take(4) =~= v); } }
    pub proof fn u64_value(v: Seq<u8>)
        ensures whole(U64beDecoder::run0(v)) == if v.len() == 8 { Some(be64(v)) } else { None }
    { broadcast use contents; reveal(drop); if v.len() == 8 { assert(v.take(8) =~= v); } }
    pub proof fn arr_value<const N: usize>(v: Seq<u8>)
        ensures whole(CopyableBytesDecoder::<[u8; N]>::run0(v)) == if v.len() == N { Some(mk_arr::<N>(v)) } else { None }
    { broadcast use contents; reveal(drop); if v.len() == N { assert(v.take(N as int) =~= v); } }
    pub proof fn null_value(v: Seq<u8>)
        ensures whole(NullDecoder::run0(v)) == if v.len() == 0 { Some(()) } else { None }
    { }
    pub proof fn bytes_value(v: Seq<u8>)
        ensures whole(RemainingBytesDecoder::run0(v)) == Some(mk_vec(v))
    { }
    pub proof fn text_value(v: Seq<u8>)
        requires v.len() <= usize::MAX
        ensures whole(Utf8Decoder::run0(v)) == if valid_utf8(v) { Some(mk_string(v)) } else { None }
    { broadcast use contents; }
    pub proof fn word_text_value(v: Seq<u8>)
        requires v.len() <= usize::MAX
        ensures whole(TupleDecoder::<(U32beDecoder, Utf8Decoder)>::run0(v)) == if v.len() >= 4 && valid_utf8(v.skip(4)) { Some((be32(v.take(4)), mk_string(v.skip(4)))) } else { None }
    { broadcast use contents; reveal(drop); if v.len() >= 4 { assert(drop(v, 4) =~= v.skip(4)); } }
    /// text of at most usize::MAX octets survives encoding and decoding
    pub proof fn text_round(s: String)
        requires encode_utf8(s@).len() <= usize::MAX
        ensures whole(Utf8Decoder::run0(encode_utf8(s@))) == Some(s)
    {
        broadcast use contents;
        vstd::utf8::encode_utf8_valid_utf8(s@);
        text_value(encode_utf8(s@));
        let t = mk_string(encode_utf8(s@));
        assert(t == s);
    }
    pub proof fn text_back(v: Seq<u8>)
        requires valid_utf8(v), v.len() <= usize::MAX
        ensures encode_utf8(mk_string(v)@) == v
    { broadcast use contents; }

    // high and low octets of a 32-bit word
    pub proof fn word(a: u8, b: u8, c: u8, d: u8)
        ensures
            be32(seq![a, b, c, d]) / 0x10000 == be16(seq![a, b]),
            be32(seq![a, b, c, d]) / 0x1000000 == a,
            be32(seq![a, b, c, d]) / 0x100 % 0x100 == c,
            be32(seq![a, b, c, d]) % 0x100 == d,
    {
        let x = be32(seq![a, b, c, d]);
        word_(x, a, b, c, d);
    }
    proof fn word_(x: u32, a: u8, b: u8, c: u8, d: u8) by (bit_vector)
        requires x == a as u32 * 0x1000000 + b as u32 * 0x10000 + c as u32 * 0x100 + d as u32
        ensures x / 0x10000 == a as u32 * 256 + b as u32, x / 0x1000000 == a as u32, x / 0x100 % 0x100 == c as u32, x % 0x100 == d as u32
    { }
    pub proof fn four(v: Seq<u8>)
        requires v.len() == 4
        ensures v == seq![v[0], v[1], v[2], v[3]]
    { assert(v =~= seq![v[0], v[1], v[2], v[3]]); }
}
