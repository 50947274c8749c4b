/// C14: text and byte-string attributes carry exactly their content.
pub mod c14 {
    use super::*;
    use super::c00::*;
    use crate::seqs::*;
    use crate::bytecodec::*;
    use crate::bytecodec::fixnum::*;
    use crate::bytecodec::combinator::*;
    use crate::bytecodec::bytes::AsRefBytes as _;
    use crate::bytecodec::bytes::AsRefStr as _;
    use crate::message::whole;
    use crate::attribute::AttributeType;
    use crate::rfc5389::attributes::*;
    use crate::rfc5766::attributes::*;
    use crate::rfc8016::attributes::*;
    use crate::shim::Cow;
    use vstd::utf8::{encode_utf8, valid_utf8, decode_utf8};

    /// what is decoded from v: the text whose UTF-8 form is v, or nothing when there is none
    pub proof fn username(x: Username, v: Seq<u8>)
        requires v.len() <= usize::MAX
        ensures
            UsernameEncoder::enc(x) == Some(encode_utf8(x.name@)),
            match whole(UsernameDecoder::run0(v)) {
                Some(y) => encode_utf8(y.name@) == v && v.len() < 513,
                None => !valid_utf8(v) || v.len() >= 513,
            },
            encode_utf8(x.name@) == v && v.len() < 513 ==> whole(UsernameDecoder::run0(v)) == Some(x),
    { broadcast use contents; text_value(v); vstd::utf8::encode_utf8_valid_utf8(x.name@); if encode_utf8(x.name@) == v { text_round(x.name); } }
    pub proof fn realm(x: Realm, v: Seq<u8>)
        requires v.len() <= usize::MAX
        ensures
            RealmEncoder::enc(x) == Some(encode_utf8(x.text@)),
            match whole(RealmDecoder::run0(v)) {
                Some(y) => encode_utf8(y.text@) == v && y.text@.len() < 128,
                None => !valid_utf8(v) || mk_string(v)@.len() >= 128,
            },
            encode_utf8(x.text@) == v && x.text@.len() < 128 ==> whole(RealmDecoder::run0(v)) == Some(x),
    { broadcast use contents; text_value(v); vstd::utf8::encode_utf8_valid_utf8(x.text@); if encode_utf8(x.text@) == v { text_round(x.text); } }
    pub proof fn nonce(x: Nonce, v: Seq<u8>)
        requires v.len() <= usize::MAX
        ensures
            NonceEncoder::enc(x) == Some(encode_utf8(x.value@)),
            match whole(NonceDecoder::run0(v)) {
                Some(y) => encode_utf8(y.value@) == v && y.value@.len() < 128,
                None => !valid_utf8(v) || mk_string(v)@.len() >= 128,
            },
            encode_utf8(x.value@) == v && x.value@.len() < 128 ==> whole(NonceDecoder::run0(v)) == Some(x),
    { broadcast use contents; text_value(v); vstd::utf8::encode_utf8_valid_utf8(x.value@); if encode_utf8(x.value@) == v { text_round(x.value); } }
    pub proof fn software(x: Software, v: Seq<u8>)
        requires v.len() <= usize::MAX
        ensures
            SoftwareEncoder::enc(x) == Some(encode_utf8(x.description.text())),
            match whole(SoftwareDecoder::run0(v)) {
                Some(y) => encode_utf8(y.description.text()) == v && y.description.text().len() < 128,
                None => !valid_utf8(v) || mk_string(v)@.len() >= 128,
            },
            encode_utf8(x.description.text()) == v && x.description.text().len() < 128 ==>
                (whole(SoftwareDecoder::run0(v)) matches Some(y) && y.description.text() == x.description.text()),
    {
        broadcast use contents;
        text_value(v);
        let t = x.description.text();
        vstd::utf8::encode_utf8_valid_utf8(t);
        if encode_utf8(t) == v { text_round(string_of(t)); }
    }
    /// the characters counted are those of the one text whose UTF-8 form is v
    pub proof fn same_text(t: Seq<char>, v: Seq<u8>)
        requires encode_utf8(t) == v, v.len() <= usize::MAX
        ensures valid_utf8(v), mk_string(v)@ == t
    { broadcast use contents; vstd::utf8::encode_utf8_valid_utf8(t); text_round(string_of(t)); text_value(v); }
    pub proof fn data(x: Data, v: Seq<u8>)
        requires v.len() <= usize::MAX
        ensures
            DataEncoder::enc(x) == Some(x.0@),
            whole(DataDecoder::run0(v)) matches Some(y) && y.0@ == v,
            whole(DataDecoder::run0(x.0@)) == Some(x),
    { broadcast use contents; bytes_value(v); bytes_value(x.0@); }
    pub proof fn mobility_ticket(x: MobilityTicket, v: Seq<u8>)
        requires v.len() <= usize::MAX
        ensures
            MobilityTicketEncoder::enc(x) == Some(x.0@),
            whole(MobilityTicketDecoder::run0(v)) matches Some(y) && y.0@ == v,
            whole(MobilityTicketDecoder::run0(x.0@)) == Some(x),
    { broadcast use contents; bytes_value(v); bytes_value(x.0@); }

    /// UNKNOWN-ATTRIBUTES: the types in order, two octets each
    #[verifier::opaque]
    pub open spec fn listed(s: Seq<u16>) -> Seq<u8> { Seq::new((2 * s.len()) as nat, |i: int| eb16(s[i / 2])[i % 2]) }
    #[verifier::opaque]
    pub open spec fn list(v: Seq<u8>) -> Seq<u16> { Seq::new((v.len() / 2) as nat, |i: int| be16(v.subrange(2 * i, 2 * i + 2))) }
    proof fn listed_all(s: Seq<u16>)
        ensures enc_all::<U16beEncoder>(s) == Some(listed(s))
        decreases s.len()
    {
        reveal(listed);
        if s.len() > 0 {
            listed_all(s.drop_last());
            assert(enc_all::<U16beEncoder>(s)->0 =~= listed(s));
        } else { assert(listed(s) =~= Seq::empty()); }
    }
    proof fn list_all(v: Seq<u8>)
        ensures coll0::<U16beDecoder>(v) == if v.len() % 2 == 0 { Some(list(v)) } else { None }
        decreases v.len()
    {
        broadcast use contents;
        reveal(drop); reveal(list);
        if v.len() == 0 { assert(list(v) =~= Seq::empty()); }
        else if v.len() >= 2 {
            let t = drop(v, 2);
            assert(t =~= v.skip(2));
            list_all(t);
            if v.len() % 2 == 0 {
                assert(v.take(2) =~= v.subrange(0, 2));
                assert forall|i: int| 0 <= i < list(t).len() implies list(t)[i] == list(v)[i + 1] by { assert(t.subrange(2 * i, 2 * i + 2) =~= v.subrange(2 * (i + 1), 2 * (i + 1) + 2)); }
                assert(seq![be16(v.take(2))] + list(t) =~= list(v));
                assert(U16beDecoder::run0(v) == Some((be16(v.take(2)), t)));
            }
        }
    }
    proof fn list_listed(s: Seq<u16>)
        ensures list(listed(s)) == s, listed(s).len() == 2 * s.len()
    {
        reveal(list); reveal(listed);
        let w = listed(s);
        assert forall|i: int| 0 <= i < s.len() implies list(w)[i] == s[i] by {
            assert(w.subrange(2 * i, 2 * i + 2) =~= eb16(s[i]));
            be16_eb16(s[i]);
        }
        assert(list(w) =~= s);
    }
    proof fn listed_list(v: Seq<u8>)
        requires v.len() % 2 == 0
        ensures listed(list(v)) == v
    {
        reveal(list); reveal(listed);
        assert forall|i: int| 0 <= i < v.len() implies listed(list(v))[i] == v[i] by { eb16_be16(v.subrange(2 * (i / 2), 2 * (i / 2) + 2)); }
        assert(listed(list(v)) =~= v);
    }
    proof fn round_types(s: Seq<u16>)
        ensures codes_of(types_of(s)) == s
    { assert(codes_of(types_of(s)) =~= s); }
    proof fn round_codes(s: Seq<AttributeType>)
        ensures types_of(codes_of(s)) == s
    { assert(types_of(codes_of(s)) =~= s); }
    pub proof fn unknown_attributes(x: UnknownAttributes, v: Seq<u8>)
        requires v.len() <= usize::MAX
        ensures
            UnknownAttributesEncoder::enc(x) == Some(listed(codes_of(x.unknowns@))),
            match whole(UnknownAttributesDecoder::run0(v)) {
                Some(y) => codes_of(y.unknowns@) == list(v) && v.len() % 2 == 0 && UnknownAttributesEncoder::enc(y) == Some(v),
                None => v.len() % 2 == 1,
            },
            listed(codes_of(x.unknowns@)) == v ==> whole(UnknownAttributesDecoder::run0(v)) == Some(x),
    {
        broadcast use contents;
        let c = codes_of(x.unknowns@);
        assert(x.unknowns.len() == x.unknowns@.len());
        listed_all(c);
        list_listed(c);
        round_codes(x.unknowns@);
        list_all(v);
        let l = list(v);
        assert(l.len() == v.len() / 2) by { reveal(list); }
        round_types(l);
        assert(types_of(l).len() == l.len());
        if v.len() % 2 == 0 { listed_list(v); listed_all(l); }
    }
}
