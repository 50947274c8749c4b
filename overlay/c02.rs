/// C02: the header.
pub mod c02 {
    use super::*;
    use crate::seqs::*;
    use crate::bytecodec::*;
    use crate::message::*;
    use crate::attribute::*;
    use crate::transaction_id::TransactionId;

    pub open spec fn cookie() -> Seq<u8> { seq![0x21u8, 0x12u8, 0xA4u8, 0x42u8] }
    pub proof fn cookie_number() ensures eb32(0x2112A442) == cookie(), be32(cookie()) == 0x2112A442
    { assert(eb32(0x2112A442) =~= cookie()) by (compute); be32_eb32(0x2112A442); }

    /// an encoded message: type, length of what follows, cookie, transaction id, attributes
    pub proof fn encoded<A: Attribute>(m: Message<A>)
        requires msg_enc(m) is Some
        ensures ({
            let b = msg_enc(m)->0;
            &&& 20 <= b.len() < 20 + 0x10000
            &&& b.take(2) == eb16(type_bits(m.class, m.method.0))
            &&& be16(b.subrange(2, 4)) == b.len() - 20
            &&& b.subrange(4, 8) == cookie()
            &&& b.subrange(8, 20) == m.transaction_id.0@
        })
    {
        let b = msg_enc(m)->0;
        cookie_number();
        assert(b.take(2) =~= eb16(type_bits(m.class, m.method.0)));
        let body = b.skip(20);
        assert(b.subrange(2, 4) =~= eb16((b.len() - 20) as u16));
        be16_eb16((b.len() - 20) as u16);
        assert(b.subrange(4, 8) =~= eb32(0x2112A442));
        assert(b.subrange(8, 20) =~= m.transaction_id.0@);
    }
    /// the header a stream starts with
    pub open spec fn head(s: Seq<u8>) -> (Type, u16, TransactionId) {
        (bits_type(be16(s.take(2))), be16(s.subrange(2, 4)), TransactionId(mk_arr::<12>(s.subrange(8, 20))))
    }
    pub open spec fn good(s: Seq<u8>) -> bool { s.len() >= 20 && s[0] < 0x40 && s.subrange(4, 8) == cookie() }
    pub proof fn header(s: Seq<u8>)
        ensures
            good(s) ==> <MessageHeaderDecoder as Decode>::run0(s) == Some((head(s), drop(s, 20))),
            !good(s) ==> <MessageHeaderDecoder as Decode>::run0(s) is None,
    {
        broadcast use contents;
        broadcast use drop_drop;
        reveal(drop);
        cookie_number();
        if s.len() >= 20 {
            assert(drop(s, 2).take(2) =~= s.subrange(2, 4));
            assert(drop(s, 4).take(4) =~= s.subrange(4, 8));
            assert(drop(s, 8).take(12) =~= s.subrange(8, 20));
            assert((be16(s.take(2)) < 0x4000) == (s[0] < 0x40));
            let k = s.subrange(4, 8);
            eb32_be32(k);
            assert(be32(k) == 0x2112A442 <==> k == cookie());
        }
    }
    pub open spec fn says<A>(r: DecodedMessage<A>, h: (Type, u16, TransactionId)) -> bool {
        match r {
            Ok(m) => m.class == h.0.class && m.method == h.0.method && m.transaction_id == h.2,
            Err(b) => b.class == h.0.class && b.method == h.0.method && b.transaction_id == h.2,
        }
    }
    /// what is decoded (message or broken-message report) carries the values of the header; a bad header yields neither
    pub proof fn decoded<A: Attribute>(s: Seq<u8>)
        ensures match MessageDecoder::<A>::run0(s) { Some((r, _)) => good(s) && says(r, head(s)), None => true }
    {
        header(s);
        reveal(body0);
    }
    pub proof fn rejected<A: Attribute>(s: Seq<u8>)
        requires !good(s)
        ensures MessageDecoder::<A>::run0(s) is None
    { header(s); }
    /// the transaction id and the class and method read are those written
    pub proof fn through<A: Attribute>(m: Message<A>)
        requires msg_enc(m) is Some, m.method.0 < 0x1000
        ensures good(msg_enc(m)->0), head(msg_enc(m)->0) == ((Type { class: m.class, method: m.method }, (msg_enc(m)->0.len() - 20) as u16, m.transaction_id))
    {
        broadcast use contents;
        encoded(m);
        bits_type_bits(m.class, m.method.0);
        let b = msg_enc(m)->0;
        be16_eb16(type_bits(m.class, m.method.0));
        assert(b[0] == b.take(2)[0]);
    }
}
