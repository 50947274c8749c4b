/// C13: the fixed layouts. For every attribute: the octets of every value, and the value (or rejection) of every octet string.
pub mod c13 {
    use super::*;
    use super::c00::*;
    use crate::seqs::*;
    use crate::bytecodec::*;
    use crate::message::whole;
    use crate::rfc5245::attributes::*;
    use crate::rfc5389::attributes::*;
    use crate::rfc5766::attributes::*;
    use crate::rfc5780::attributes::*;
    use crate::rfc8656::attributes::*;
    use crate::shim::Duration;

    pub proof fn channel_number(x: ChannelNumber, v: Seq<u8>)
        ensures
            ChannelNumberEncoder::enc(x) == Some(eb16(x.0) + seq![0u8, 0u8]),
            whole(ChannelNumberDecoder::run0(v)) == if v.len() == 4 && 0x4000 <= be16(v.take(2)) <= 0x4FFF { Some(ChannelNumber(be16(v.take(2)))) } else { None },
    {
        u32_value(v);
        if v.len() == 4 { four(v); word(v[0], v[1], v[2], v[3]); assert(v.take(2) =~= seq![v[0], v[1]]); }
        assert(eb32((x.0 * 0x10000) as u32) =~= eb16(x.0) + seq![0u8, 0u8]);
    }
    pub proof fn lifetime(x: Lifetime, v: Seq<u8>)
        ensures
            x.0.secs <= 0xFFFF_FFFF ==> LifetimeEncoder::enc(x) == Some(eb32(x.0.secs as u32)),
            whole(LifetimeDecoder::run0(v)) == if v.len() == 4 { Some(Lifetime(Duration { secs: be32(v) as u64, nanos: 0 })) } else { None },
    { u32_value(v); }
    /// R bit first, seven reserved bits
    pub proof fn even_port(x: EvenPort, v: Seq<u8>)
        ensures
            EvenPortEncoder::enc(x) == Some(seq![if x.0 { 0x80u8 } else { 0u8 }]),
            whole(EvenPortDecoder::run0(v)) == if v.len() == 1 { Some(EvenPort(v[0] >= 0x80)) } else { None },
    { u8_value(v); }
    pub proof fn requested_transport(x: RequestedTransport, v: Seq<u8>)
        ensures
            RequestedTransportEncoder::enc(x) == Some(seq![x.0, 0u8, 0u8, 0u8]),
            whole(RequestedTransportDecoder::run0(v)) == if v.len() == 4 { Some(RequestedTransport(v[0])) } else { None },
    {
        u32_value(v);
        if v.len() == 4 { four(v); word(v[0], v[1], v[2], v[3]); }
        assert(eb32((x.0 * 0x1000000) as u32) =~= seq![x.0, 0u8, 0u8, 0u8]);
    }
    pub proof fn dont_fragment(x: DontFragment, v: Seq<u8>)
        ensures
            DontFragmentEncoder::enc(x) == Some(Seq::<u8>::empty()),
            whole(DontFragmentDecoder::run0(v)) == if v.len() == 0 { Some(DontFragment) } else { None },
    { null_value(v); }
    pub proof fn use_candidate(x: UseCandidate, v: Seq<u8>)
        ensures
            UseCandidateEncoder::enc(x) == Some(Seq::<u8>::empty()),
            whole(UseCandidateDecoder::run0(v)) == if v.len() == 0 { Some(UseCandidate) } else { None },
    { null_value(v); }
    pub proof fn reservation_token(x: ReservationToken, v: Seq<u8>)
        ensures
            ReservationTokenEncoder::enc(x) == Some(eb64(x.0)),
            whole(ReservationTokenDecoder::run0(v)) == if v.len() == 8 { Some(ReservationToken(be64(v))) } else { None },
    { u64_value(v); }
    pub proof fn ice_controlled(x: IceControlled, v: Seq<u8>)
        ensures
            IceControlledEncoder::enc(x) == Some(eb64(x.0)),
            whole(IceControlledDecoder::run0(v)) == if v.len() == 8 { Some(IceControlled(be64(v))) } else { None },
    { u64_value(v); }
    pub proof fn ice_controlling(x: IceControlling, v: Seq<u8>)
        ensures
            IceControllingEncoder::enc(x) == Some(eb64(x.0)),
            whole(IceControllingDecoder::run0(v)) == if v.len() == 8 { Some(IceControlling(be64(v))) } else { None },
    { u64_value(v); }
    pub proof fn priority(x: Priority, v: Seq<u8>)
        ensures
            PriorityEncoder::enc(x) == Some(eb32(x.0)),
            whole(PriorityDecoder::run0(v)) == if v.len() == 4 { Some(Priority(be32(v))) } else { None },
    { u32_value(v); }
    pub proof fn fingerprint(x: Fingerprint, v: Seq<u8>)
        ensures
            FingerprintEncoder::enc(x) == Some(eb32(x.crc32)),
            whole(FingerprintDecoder::run0(v)) == if v.len() == 4 { Some(Fingerprint { crc32: be32(v) }) } else { None },
    { u32_value(v); }
    /// bits A (value 4) and B (value 2) of the last octet
    pub proof fn change_request(x: ChangeRequest, v: Seq<u8>)
        ensures
            ChangeRequestEncoder::enc(x) == Some(seq![0u8, 0u8, 0u8, ((if x.0 { 4int } else { 0 }) + (if x.1 { 2int } else { 0 })) as u8]),
            whole(ChangeRequestDecoder::run0(v)) == if v.len() == 4 { Some(ChangeRequest(v[3] / 4 % 2 == 1, v[3] / 2 % 2 == 1)) } else { None },
    {
        u32_value(v);
        if v.len() == 4 { four(v); word(v[0], v[1], v[2], v[3]); low_bits(be32(v), v[3]); }
        assert(eb32(((if x.0 { 4int } else { 0 }) + (if x.1 { 2int } else { 0 })) as u32) =~= seq![0u8, 0u8, 0u8, ((if x.0 { 4int } else { 0 }) + (if x.1 { 2int } else { 0 })) as u8]);
    }
    proof fn low_bits(x: u32, d: u8) by (bit_vector)
        requires x % 0x100 == d as u32
        ensures x / 4 % 2 == (d / 4 % 2) as u32, x / 2 % 2 == (d / 2 % 2) as u32
    { }
    pub proof fn response_port(x: ResponsePort, v: Seq<u8>)
        ensures
            ResponsePortEncoder::enc(x) == Some(eb16(x.0) + seq![0u8, 0u8]),
            whole(ResponsePortDecoder::run0(v)) == if v.len() == 4 { Some(ResponsePort(be16(v.take(2)))) } else { None },
    {
        u32_value(v);
        if v.len() == 4 { four(v); word(v[0], v[1], v[2], v[3]); assert(v.take(2) =~= seq![v[0], v[1]]); }
        assert(eb32((x.0 * 0x10000) as u32) =~= eb16(x.0) + seq![0u8, 0u8]);
    }
    pub open spec fn family_code(f: AddressFamily) -> u8 { match f { AddressFamily::V4 => 1, AddressFamily::V6 => 2 } }
    pub open spec fn family_of(v: Seq<u8>) -> Option<AddressFamily> {
        if v.len() == 4 && v[0] == 1 { Some(AddressFamily::V4) } else if v.len() == 4 && v[0] == 2 { Some(AddressFamily::V6) } else { None }
    }
    pub proof fn family(f: AddressFamily, v: Seq<u8>)
        ensures
            AddressFamilyEncoder::enc(f) == Some(seq![family_code(f), 0u8, 0u8, 0u8]),
            whole(AddressFamilyDecoder::run0(v)) == family_of(v),
    {
        u32_value(v);
        if v.len() == 4 { four(v); word(v[0], v[1], v[2], v[3]); }
        assert(eb32(fam_word(f)) =~= seq![family_code(f), 0u8, 0u8, 0u8]);
    }
    pub proof fn requested_address_family(x: RequestedAddressFamily, v: Seq<u8>)
        ensures
            RequestedAddressFamilyEncoder::enc(x) == Some(seq![family_code(x.0), 0u8, 0u8, 0u8]),
            whole(RequestedAddressFamilyDecoder::run0(v)) == match family_of(v) { Some(f) => Some(RequestedAddressFamily(f)), None => None },
    { family(x.0, v); }
    pub proof fn additional_address_family(x: AdditionalAddressFamily, v: Seq<u8>)
        ensures
            AdditionalAddressFamilyEncoder::enc(x) == Some(seq![family_code(x.0), 0u8, 0u8, 0u8]),
            whole(AdditionalAddressFamilyDecoder::run0(v)) == match family_of(v) { Some(f) => Some(AdditionalAddressFamily(f)), None => None },
    { family(x.0, v); }
    /// 21 reserved bits, three bits of class, eight bits of number, reason phrase
    pub proof fn error_code(x: ErrorCode, v: Seq<u8>)
        requires 300 <= x.code < 600, v.len() <= usize::MAX
        ensures
            ErrorCodeEncoder::enc(x) == Some(seq![0u8, 0u8, (x.code / 100) as u8, (x.code % 100) as u8] + vstd::utf8::encode_utf8(x.reason_phrase@)),
            whole(ErrorCodeDecoder::run0(v)) == if v.len() >= 4 && 3 <= v[2] % 8 < 6 && v[3] < 100 && vstd::utf8::valid_utf8(v.skip(4)) {
                Some(ErrorCode { code: (v[2] % 8 * 100 + v[3]) as u16, reason_phrase: mk_string(v.skip(4)) }) } else { None },
    {
        word_text_value(v);
        if v.len() >= 4 {
            let h = v.take(4);
            four(h);
            word(h[0], h[1], h[2], h[3]);
            assert(be32(h) / 256 % 8 == h[2] % 8) by { class_bits_of(be32(h), h[2]); }
        }
        assert(eb32((x.code / 100 * 256 + x.code % 100) as u32) =~= seq![0u8, 0u8, (x.code / 100) as u8, (x.code % 100) as u8]);
    }
    proof fn class_bits_of(x: u32, c: u8) by (bit_vector)
        requires x / 0x100 % 0x100 == c as u32
        ensures x / 256 % 8 == (c % 8) as u32
    { }
    // decoding what was encoded gives the value back
    pub proof fn channel_number_back(x: ChannelNumber)
        requires 0x4000 <= x.0 <= 0x4FFF
        ensures whole(ChannelNumberDecoder::run0(ChannelNumberEncoder::enc(x)->0)) == Some(x)
    {
        channel_number(x, Seq::empty()); channel_number(x, ChannelNumberEncoder::enc(x)->0); be16_eb16(x.0);
        assert((eb16(x.0) + seq![0u8, 0u8]).take(2) =~= eb16(x.0));
    }
    pub proof fn lifetime_back(x: Lifetime)
        requires x.0.secs <= 0xFFFF_FFFF, x.0.nanos == 0
        ensures whole(LifetimeDecoder::run0(LifetimeEncoder::enc(x)->0)) == Some(x)
    { lifetime(x, LifetimeEncoder::enc(x)->0); be32_eb32(x.0.secs as u32); }
    pub proof fn even_port_back(x: EvenPort)
        ensures whole(EvenPortDecoder::run0(EvenPortEncoder::enc(x)->0)) == Some(x)
    { even_port(x, Seq::empty()); even_port(x, EvenPortEncoder::enc(x)->0); }
    pub proof fn requested_transport_back(x: RequestedTransport)
        ensures whole(RequestedTransportDecoder::run0(RequestedTransportEncoder::enc(x)->0)) == Some(x)
    { requested_transport(x, Seq::empty()); requested_transport(x, RequestedTransportEncoder::enc(x)->0); }
    pub proof fn dont_fragment_back(x: DontFragment)
        ensures whole(DontFragmentDecoder::run0(DontFragmentEncoder::enc(x)->0)) == Some(x)
    { dont_fragment(x, Seq::empty()); }
    pub proof fn use_candidate_back(x: UseCandidate)
        ensures whole(UseCandidateDecoder::run0(UseCandidateEncoder::enc(x)->0)) == Some(x)
    { use_candidate(x, Seq::empty()); }
    pub proof fn reservation_token_back(x: ReservationToken)
        ensures whole(ReservationTokenDecoder::run0(ReservationTokenEncoder::enc(x)->0)) == Some(x)
    { be64_eb64(x.0); reservation_token(x, eb64(x.0)); }
    pub proof fn ice_controlled_back(x: IceControlled)
        ensures whole(IceControlledDecoder::run0(IceControlledEncoder::enc(x)->0)) == Some(x)
    { be64_eb64(x.0); ice_controlled(x, eb64(x.0)); }
    pub proof fn ice_controlling_back(x: IceControlling)
        ensures whole(IceControllingDecoder::run0(IceControllingEncoder::enc(x)->0)) == Some(x)
    { be64_eb64(x.0); ice_controlling(x, eb64(x.0)); }
    pub proof fn priority_back(x: Priority)
        ensures whole(PriorityDecoder::run0(PriorityEncoder::enc(x)->0)) == Some(x)
    { be32_eb32(x.0); priority(x, eb32(x.0)); }
    pub proof fn fingerprint_back(x: Fingerprint)
        ensures whole(FingerprintDecoder::run0(FingerprintEncoder::enc(x)->0)) == Some(x)
    { be32_eb32(x.crc32); fingerprint(x, eb32(x.crc32)); }
    pub proof fn change_request_back(x: ChangeRequest)
        ensures whole(ChangeRequestDecoder::run0(ChangeRequestEncoder::enc(x)->0)) == Some(x)
    { change_request(x, Seq::empty()); change_request(x, ChangeRequestEncoder::enc(x)->0); }
    pub proof fn response_port_back(x: ResponsePort)
        ensures whole(ResponsePortDecoder::run0(ResponsePortEncoder::enc(x)->0)) == Some(x)
    {
        response_port(x, Seq::empty()); response_port(x, ResponsePortEncoder::enc(x)->0); be16_eb16(x.0);
        assert((eb16(x.0) + seq![0u8, 0u8]).take(2) =~= eb16(x.0));
    }
    pub proof fn requested_address_family_back(x: RequestedAddressFamily)
        ensures whole(RequestedAddressFamilyDecoder::run0(RequestedAddressFamilyEncoder::enc(x)->0)) == Some(x)
    { requested_address_family(x, seq![family_code(x.0), 0u8, 0u8, 0u8]); }
    pub proof fn additional_address_family_back(x: AdditionalAddressFamily)
        ensures whole(AdditionalAddressFamilyDecoder::run0(AdditionalAddressFamilyEncoder::enc(x)->0)) == Some(x)
    { additional_address_family(x, seq![family_code(x.0), 0u8, 0u8, 0u8]); }
    pub proof fn error_code_back(x: ErrorCode)
        requires 300 <= x.code < 600, vstd::utf8::encode_utf8(x.reason_phrase@).len() <= 0xFFFF
        ensures whole(ErrorCodeDecoder::run0(ErrorCodeEncoder::enc(x)->0)) == Some(x)
    {
        broadcast use contents;
        error_code(x, Seq::empty()); error_code(x, ErrorCodeEncoder::enc(x)->0);
        let t = vstd::utf8::encode_utf8(x.reason_phrase@);
        vstd::utf8::encode_utf8_valid_utf8(x.reason_phrase@);
        assert(ErrorCodeEncoder::enc(x)->0.skip(4) =~= t);
        text_round(x.reason_phrase);
        text_value(t);
    }
}
