/// C01: the message type field.
pub mod c01 {
    use super::*;
    use crate::seqs::*;
    use crate::bytecodec::*;
    use crate::message::*;
    use crate::method::Method;

    /// the interleaving, bit by bit: M11..M7 C1 M6..M4 C0 M3..M0 below two zero bits
    pub proof fn layout(c: MessageClass, m: u16)
        requires m < 0x1000
        ensures ({
            let t = type_bits(c, m);
            let k = class_bits(c);
            &&& t & 0xC000 == 0
            &&& (t >> 4) & 1 == k & 1
            &&& (t >> 8) & 1 == (k >> 1) & 1
            &&& forall|i: u16| i < 4 ==> (#[trigger] (t >> i)) & 1 == (m >> i) & 1
            &&& forall|i: u16| 4 <= i < 7 ==> (#[trigger] (m >> i)) & 1 == (t >> ((i + 1) as u16)) & 1
            &&& forall|i: u16| 7 <= i < 12 ==> (#[trigger] (m >> i)) & 1 == (t >> ((i + 2) as u16)) & 1
        })
    {
        let k = class_bits(c);
        let t = type_bits(c, m);
        bits_type_bits(c, m);
        assert(t == m / 128 % 32 * 512 + k / 2 * 256 + m / 16 % 8 * 32 + k % 2 * 16 + m % 16);
        layout_(k, m, t);
    }
    proof fn layout_(k: u16, m: u16, t: u16) by (bit_vector)
        requires k < 4, m < 0x1000, t == m / 128 % 32 * 512 + k / 2 * 256 + m / 16 % 8 * 32 + k % 2 * 16 + m % 16
        ensures
            t & 0xC000 == 0,
            (t >> 4) & 1 == k & 1,
            (t >> 8) & 1 == (k >> 1) & 1,
            forall|i: u16| i < 4 ==> (#[trigger] (t >> i)) & 1 == (m >> i) & 1,
            forall|i: u16| 4 <= i < 7 ==> (#[trigger] (m >> i)) & 1 == (t >> ((i + 1) as u16)) & 1,
            forall|i: u16| 7 <= i < 12 ==> (#[trigger] (m >> i)) & 1 == (t >> ((i + 2) as u16)) & 1,
    { }
    /// the class codes are those of RFC 5389
    pub proof fn classes()
        ensures
            class_bits(MessageClass::Request) == 0b00, class_bits(MessageClass::Indication) == 0b01,
            class_bits(MessageClass::SuccessResponse) == 0b10, class_bits(MessageClass::ErrorResponse) == 0b11,
    { }
    /// encoding, then decoding: the functions of the crate
    pub fn encode_decode(class: MessageClass, method: Method) -> (r: Type)
        requires method.0 < 0x1000
        ensures r.class == class, r.method == method
    {
        let t = Type { class, method }.as_u16();
        proof { bits_type_bits(class, method.0); }
        match Type::from_u16(t) { Ok(r) => r, Err(_) => { assert(false); Type { class, method } } }
    }
    /// decoding, then encoding; fields with one of the top two bits set are rejected
    pub fn decode_encode(t: u16) -> (r: Option<u16>)
        ensures t < 0x4000 ==> r == Some(t), t >= 0x4000 ==> r is None
    {
        proof { if t < 0x4000 { type_bits_bits(t); } }
        match Type::from_u16(t) { Ok(x) => Some(x.as_u16()), Err(_) => None }
    }
    /// distinct (class, method) pairs have distinct fields
    pub proof fn injective(c: MessageClass, m: u16, d: MessageClass, n: u16)
        requires m < 0x1000, n < 0x1000, type_bits(c, m) == type_bits(d, n)
        ensures c == d, m == n
    { bits_type_bits(c, m); bits_type_bits(d, n); }
    /// on the wire: the field is the first two octets of the encoding and of what is decoded
    pub proof fn on_the_wire<A: crate::attribute::Attribute>(m: Message<A>)
        requires msg_enc(m) is Some, m.method.0 < 0x1000
        ensures
            msg_enc(m)->0.len() >= 2, msg_enc(m)->0.take(2) == eb16(type_bits(m.class, m.method.0)),
            bits_type(be16(msg_enc(m)->0.take(2))) == (Type { class: m.class, method: m.method }),
    {
        let b = msg_enc(m)->0;
        assert(b.take(2) =~= eb16(type_bits(m.class, m.method.0)));
        be16_eb16(type_bits(m.class, m.method.0));
        bits_type_bits(m.class, m.method.0);
    }
    pub proof fn bad_top_bits<A: crate::attribute::Attribute>(s: Seq<u8>)
        requires s.len() >= 2, s[0] >= 0x40
        ensures MessageDecoder::<A>::run0(s) is None
    {
        broadcast use contents;
        reveal(drop);
        assert(be16(s.take(2)) >= 0x4000);
    }
}
