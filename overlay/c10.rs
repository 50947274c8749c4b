/// C10: address attributes.
pub mod c10 {
    use super::*;
    use super::c00::*;
    use crate::seqs::*;
    use crate::bytecodec::*;
    use crate::bytecodec::bytes::AsRefBytes as _;
    use crate::message::whole;
    use crate::net::*;
    use crate::shim::net::{SocketAddr, IpAddr, Ipv4Addr, Ipv6Addr};
    use crate::rfc5389::attributes::*;
    use crate::rfc5766::attributes::*;
    use crate::rfc5780::attributes::*;
    use crate::attribute::Attribute;
    use crate::spec::*;

    pub open spec fn octets(a: IpAddr) -> Seq<u8> { match a { IpAddr::V4(x) => x.0@, IpAddr::V6(x) => x.0@ } }
    /// zero octet, family 1 (with 4 address octets) or 2 (with 16), port, address
    pub proof fn layout(a: SocketAddr)
        ensures ({
            let v = sa_enc(a);
            &&& SocketAddrEncoder::enc(a) == Some(v)
            &&& v.len() == if a.ip is V4 { 8int } else { 20 }
            &&& v[0] == 0
            &&& v[1] == if a.ip is V4 { 1u8 } else { 2 }
            &&& v.subrange(2, 4) == eb16(a.port)
            &&& v.skip(4) == octets(a.ip)
        })
    {
        let v = sa_enc(a);
        assert(v.subrange(2, 4) =~= eb16(a.port));
        assert(v.skip(4) =~= octets(a.ip));
    }
    /// what a value of address form says; any other family or length is rejected
    pub open spec fn address(v: Seq<u8>) -> Option<SocketAddr> {
        if v.len() == 8 && v[1] == 1 { Some(SocketAddr { ip: IpAddr::V4(Ipv4Addr(mk_arr::<4>(v.skip(4)))), port: be16(v.subrange(2, 4)) }) }
        else if v.len() == 20 && v[1] == 2 { Some(SocketAddr { ip: IpAddr::V6(Ipv6Addr(mk_arr::<16>(v.skip(4)))), port: be16(v.subrange(2, 4)) }) }
        else { None }
    }
    pub proof fn decoded(v: Seq<u8>)
        ensures whole(SocketAddrDecoder::run0(v)) == address(v)
    {
        broadcast use contents;
        reveal(drop);
        if v.len() >= 2 { assert(v.skip(1).take(1)[0] == v[1]); }
        if v.len() >= 4 {
            assert(drop(v, 1) =~= v.skip(1));
            assert(drop(drop(v, 1), 1) =~= v.skip(2));
            assert(v.skip(2).take(2) =~= v.subrange(2, 4));
            assert(drop(v.skip(2), 2) =~= v.skip(4));
            if v.len() == 8 { assert(v.skip(4).take(4) =~= v.skip(4)); }
            if v.len() == 20 { assert(v.skip(4).take(16) =~= v.skip(4)); }
        }
    }
    pub proof fn back(a: SocketAddr)
        ensures address(sa_enc(a)) == Some(a)
    {
        broadcast use contents;
        layout(a);
        be16_eb16(a.port);
    }
    pub proof fn forth(v: Seq<u8>)
        requires address(v) is Some
        ensures v[0] == 0 ==> sa_enc(address(v)->0) == v
    {
        broadcast use contents;
        eb16_be16(v.subrange(2, 4));
        if v[0] == 0 { assert(sa_enc(address(v)->0) =~= v); }
    }
    // the eight address attributes
    pub proof fn mapped_address(x: MappedAddress, v: Seq<u8>, tid: crate::TransactionId, enc: Option<Seq<u8>>)
        ensures
            MappedAddressEncoder::enc(x) == Some(sa_enc(x.0)), x.before_spec(tid) == Some(x), x.after_spec(tid, enc) == Some(x),
            whole(MappedAddressDecoder::run0(v)) == match address(v) { Some(a) => Some(MappedAddress(a)), None => None },
    { decoded(v); }
    pub proof fn alternate_server(x: AlternateServer, v: Seq<u8>, tid: crate::TransactionId, enc: Option<Seq<u8>>)
        ensures
            AlternateServerEncoder::enc(x) == Some(sa_enc(x.0)), x.before_spec(tid) == Some(x), x.after_spec(tid, enc) == Some(x),
            whole(AlternateServerDecoder::run0(v)) == match address(v) { Some(a) => Some(AlternateServer(a)), None => None },
    { decoded(v); }
    pub proof fn response_origin(x: ResponseOrigin, v: Seq<u8>, tid: crate::TransactionId, enc: Option<Seq<u8>>)
        ensures
            ResponseOriginEncoder::enc(x) == Some(sa_enc(x.0)), x.before_spec(tid) == Some(x), x.after_spec(tid, enc) == Some(x),
            whole(ResponseOriginDecoder::run0(v)) == match address(v) { Some(a) => Some(ResponseOrigin(a)), None => None },
    { decoded(v); }
    pub proof fn other_address(x: OtherAddress, v: Seq<u8>, tid: crate::TransactionId, enc: Option<Seq<u8>>)
        ensures
            OtherAddressEncoder::enc(x) == Some(sa_enc(x.0)), x.before_spec(tid) == Some(x), x.after_spec(tid, enc) == Some(x),
            whole(OtherAddressDecoder::run0(v)) == match address(v) { Some(a) => Some(OtherAddress(a)), None => None },
    { decoded(v); }
    pub proof fn xor_mapped_address(x: XorMappedAddress, v: Seq<u8>, tid: crate::TransactionId, enc: Option<Seq<u8>>)
        ensures
            XorMappedAddressEncoder::enc(x) == Some(sa_enc(x.0)),
            x.before_spec(tid) == Some(XorMappedAddress(xor_spec(x.0, tid))), x.after_spec(tid, enc) == Some(XorMappedAddress(xor_spec(x.0, tid))),
            whole(XorMappedAddressDecoder::run0(v)) == match address(v) { Some(a) => Some(XorMappedAddress(a)), None => None },
    { decoded(v); }
    pub proof fn xor_mapped_address2(x: XorMappedAddress2, v: Seq<u8>, tid: crate::TransactionId, enc: Option<Seq<u8>>)
        ensures
            XorMappedAddress2Encoder::enc(x) == Some(sa_enc(x.0)),
            x.before_spec(tid) == Some(XorMappedAddress2(xor_spec(x.0, tid))), x.after_spec(tid, enc) == Some(XorMappedAddress2(xor_spec(x.0, tid))),
            whole(XorMappedAddress2Decoder::run0(v)) == match address(v) { Some(a) => Some(XorMappedAddress2(a)), None => None },
    { decoded(v); }
    pub proof fn xor_peer_address(x: XorPeerAddress, v: Seq<u8>, tid: crate::TransactionId, enc: Option<Seq<u8>>)
        ensures
            XorPeerAddressEncoder::enc(x) == Some(sa_enc(x.0)),
            x.before_spec(tid) == Some(XorPeerAddress(xor_spec(x.0, tid))), x.after_spec(tid, enc) == Some(XorPeerAddress(xor_spec(x.0, tid))),
            whole(XorPeerAddressDecoder::run0(v)) == match address(v) { Some(a) => Some(XorPeerAddress(a)), None => None },
    { decoded(v); }
    pub proof fn xor_relay_address(x: XorRelayAddress, v: Seq<u8>, tid: crate::TransactionId, enc: Option<Seq<u8>>)
        ensures
            XorRelayAddressEncoder::enc(x) == Some(sa_enc(x.0)),
            x.before_spec(tid) == Some(XorRelayAddress(xor_spec(x.0, tid))), x.after_spec(tid, enc) == Some(XorRelayAddress(xor_spec(x.0, tid))),
            whole(XorRelayAddressDecoder::run0(v)) == match address(v) { Some(a) => Some(XorRelayAddress(a)), None => None },
    { decoded(v); }
    pub proof fn type_codes()
        ensures
            MappedAddress::CODEPOINT == 0x0001, XorMappedAddress::CODEPOINT == 0x0020, XorMappedAddress2::CODEPOINT == 0x8020, AlternateServer::CODEPOINT == 0x8023,
            XorPeerAddress::CODEPOINT == 0x0012, XorRelayAddress::CODEPOINT == 0x0016, ResponseOrigin::CODEPOINT == 0x802B, OtherAddress::CODEPOINT == 0x802C,
    { }
    /// on the wire an XOR-* value holds the port XOR 0x2112 and each address octet XOR the octet of the key at its place
    pub proof fn obfuscated(a: SocketAddr, tid: crate::TransactionId)
        ensures ({
            let v = sa_enc(xor_spec(a, tid));
            let key = seq![0x21u8, 0x12u8, 0xA4u8, 0x42u8] + tid.0@;
            &&& v.len() == sa_enc(a).len() && v[1] == sa_enc(a)[1]
            &&& be16(v.subrange(2, 4)) == a.port ^ 0x2112
            &&& forall|i: int| 0 <= i < octets(a.ip).len() ==> #[trigger] v.skip(4)[i] == octets(a.ip)[i] ^ key[i]
        })
    {
        broadcast use contents;
        layout(a);
        layout(xor_spec(a, tid));
        be16_eb16(a.port ^ 0x2112);
    }
    /// and removing the obfuscation of a received value gives back what was obfuscated
    pub proof fn inverse(a: SocketAddr, tid: crate::TransactionId)
        ensures xor_spec(xor_spec(a, tid), tid) == a, address(sa_enc(xor_spec(a, tid))) == Some(xor_spec(a, tid))
    { xor_involution(a, tid); back(xor_spec(a, tid)); }
}
