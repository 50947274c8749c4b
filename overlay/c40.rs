/// What every attribute (and every attribute set) of the crate satisfies: values survive the wire and the wire survives values.
pub mod c40 {
    use super::*;
    use super::c00::*;
    use super::c10::{mapped_address, alternate_server, response_origin, other_address, xor_mapped_address, xor_mapped_address2, xor_peer_address, xor_relay_address, back, forth};
    use super::c13::*;
    use super::c14::*;
    use crate::seqs::*;
    use crate::spec::*;
    use crate::bytecodec::*;
    use crate::message::whole;
    use crate::TransactionId;
    use crate::attribute::{Attribute, AttributeType};
    use crate::rfc5245::attributes::*;
    use crate::rfc5389::attributes::*;
    use crate::rfc5766::attributes::*;
    use crate::rfc5780::attributes::*;
    use crate::rfc8016::attributes::*;
    use crate::rfc8656::attributes::*;

    pub trait Rfc: Attribute {
        /// a public constructor makes it, and decoding makes no other
        spec fn legal(&self) -> bool;
        /// the same value, as far as the wire carries it
        spec fn same(&self, o: Self) -> bool;
        /// the reserved bits of the value v of an attribute of type t are zero
        spec fn clean(t: u16, v: Seq<u8>) -> bool;
        /// after_decode rejects it, given what the preceding part of the message encodes to
        spec fn refused(&self, enc: Option<Seq<u8>>) -> bool;
        proof fn round(&self, tid: TransactionId, enc: Option<Seq<u8>>, v: Seq<u8>)
            requires self.legal(), self.before_spec(tid) matches Some(y) && <Self::Encoder as Encode>::enc(y) == Some(v), v.len() <= 0xFFFF
            ensures
                <Self::Decoder as TryTaggedDecode>::knows(AttributeType(self.type_of())),
                self.before_spec(tid)->0.type_of() == self.type_of(),
                Self::clean(self.type_of(), v),
                match whole(<Self::Decoder as TryTaggedDecode>::tagged_run0(AttributeType(self.type_of()), v)) {
                    None => false,
                    Some(z) => match z.after_spec(tid, enc) { Some(w) => self.same(w) && !self.refused(enc), None => self.refused(enc) },
                };
        proof fn rewire(t: u16, v: Seq<u8>, tid: TransactionId, enc: Option<Seq<u8>>)
            requires <Self::Decoder as TryTaggedDecode>::knows(AttributeType(t)), v.len() <= 0xFFFF
            ensures match whole(<Self::Decoder as TryTaggedDecode>::tagged_run0(AttributeType(t), v)) {
                None => true,
                Some(x) => x.type_of() == t && match x.after_spec(tid, enc) {
                    None => x.refused(enc),
                    Some(z) => !x.refused(enc) && z.legal() && z.type_of() == t && (z.before_spec(tid) matches Some(y) && y.type_of() == t && (Self::clean(t, v) ==> <Self::Encoder as Encode>::enc(y) == Some(v))),
                },
            };
    }
    impl Rfc for ChannelNumber {
        open spec fn legal(&self) -> bool { 0x4000 <= self.0 <= 0x4FFF }
        open spec fn same(&self, o: Self) -> bool { *self == o }
        open spec fn clean(t: u16, v: Seq<u8>) -> bool { v.len() == 4 ==> v[2] == 0 && v[3] == 0 }
        open spec fn refused(&self, enc: Option<Seq<u8>>) -> bool { false }
        proof fn round(&self, tid: TransactionId, enc: Option<Seq<u8>>, v: Seq<u8>) { channel_number_back(*self); channel_number(*self, v);  }
        proof fn rewire(t: u16, v: Seq<u8>, tid: TransactionId, enc: Option<Seq<u8>>) { let x = whole(<ChannelNumberDecoder as TryTaggedDecode>::tagged_run0(AttributeType(t), v)); if x is Some { channel_number(x->0, v); eb16_be16(v.take(2)); if Self::clean(t, v) { assert(eb16((x->0).0) + seq![0u8, 0u8] =~= v); } } }
    }
    impl Rfc for Lifetime {
        open spec fn legal(&self) -> bool { self.0.secs <= 0xFFFF_FFFF && self.0.nanos == 0 }
        open spec fn same(&self, o: Self) -> bool { *self == o }
        open spec fn clean(t: u16, v: Seq<u8>) -> bool { true }
        open spec fn refused(&self, enc: Option<Seq<u8>>) -> bool { false }
        proof fn round(&self, tid: TransactionId, enc: Option<Seq<u8>>, v: Seq<u8>) { lifetime_back(*self); lifetime(*self, v);  }
        proof fn rewire(t: u16, v: Seq<u8>, tid: TransactionId, enc: Option<Seq<u8>>) { let x = whole(<LifetimeDecoder as TryTaggedDecode>::tagged_run0(AttributeType(t), v)); if x is Some { lifetime(x->0, v); eb32_be32(v); } }
    }
    impl Rfc for EvenPort {
        open spec fn legal(&self) -> bool { true }
        open spec fn same(&self, o: Self) -> bool { *self == o }
        open spec fn clean(t: u16, v: Seq<u8>) -> bool { v.len() == 1 ==> v[0] == 0 || v[0] == 0x80 }
        open spec fn refused(&self, enc: Option<Seq<u8>>) -> bool { false }
        proof fn round(&self, tid: TransactionId, enc: Option<Seq<u8>>, v: Seq<u8>) { even_port_back(*self); even_port(*self, v);  }
        proof fn rewire(t: u16, v: Seq<u8>, tid: TransactionId, enc: Option<Seq<u8>>) { let x = whole(<EvenPortDecoder as TryTaggedDecode>::tagged_run0(AttributeType(t), v)); if x is Some { even_port(x->0, v); if Self::clean(t, v) { assert(seq![if (x->0).0 { 0x80u8 } else { 0u8 }] =~= v); } } }
    }
    impl Rfc for RequestedTransport {
        open spec fn legal(&self) -> bool { true }
        open spec fn same(&self, o: Self) -> bool { *self == o }
        open spec fn clean(t: u16, v: Seq<u8>) -> bool { v.len() == 4 ==> v[1] == 0 && v[2] == 0 && v[3] == 0 }
        open spec fn refused(&self, enc: Option<Seq<u8>>) -> bool { false }
        proof fn round(&self, tid: TransactionId, enc: Option<Seq<u8>>, v: Seq<u8>) { requested_transport_back(*self); requested_transport(*self, v);  }
        proof fn rewire(t: u16, v: Seq<u8>, tid: TransactionId, enc: Option<Seq<u8>>) { let x = whole(<RequestedTransportDecoder as TryTaggedDecode>::tagged_run0(AttributeType(t), v)); if x is Some { requested_transport(x->0, v); if Self::clean(t, v) { assert(seq![(x->0).0, 0u8, 0u8, 0u8] =~= v); } } }
    }
    impl Rfc for DontFragment {
        open spec fn legal(&self) -> bool { true }
        open spec fn same(&self, o: Self) -> bool { *self == o }
        open spec fn clean(t: u16, v: Seq<u8>) -> bool { true }
        open spec fn refused(&self, enc: Option<Seq<u8>>) -> bool { false }
        proof fn round(&self, tid: TransactionId, enc: Option<Seq<u8>>, v: Seq<u8>) { dont_fragment_back(*self); dont_fragment(*self, v);  }
        proof fn rewire(t: u16, v: Seq<u8>, tid: TransactionId, enc: Option<Seq<u8>>) { let x = whole(<DontFragmentDecoder as TryTaggedDecode>::tagged_run0(AttributeType(t), v)); if x is Some { dont_fragment(x->0, v); if Self::clean(t, v) { assert(Seq::<u8>::empty() =~= v); } } }
    }
    impl Rfc for UseCandidate {
        open spec fn legal(&self) -> bool { true }
        open spec fn same(&self, o: Self) -> bool { *self == o }
        open spec fn clean(t: u16, v: Seq<u8>) -> bool { true }
        open spec fn refused(&self, enc: Option<Seq<u8>>) -> bool { false }
        proof fn round(&self, tid: TransactionId, enc: Option<Seq<u8>>, v: Seq<u8>) { use_candidate_back(*self); use_candidate(*self, v);  }
        proof fn rewire(t: u16, v: Seq<u8>, tid: TransactionId, enc: Option<Seq<u8>>) { let x = whole(<UseCandidateDecoder as TryTaggedDecode>::tagged_run0(AttributeType(t), v)); if x is Some { use_candidate(x->0, v); if Self::clean(t, v) { assert(Seq::<u8>::empty() =~= v); } } }
    }
    impl Rfc for ReservationToken {
        open spec fn legal(&self) -> bool { true }
        open spec fn same(&self, o: Self) -> bool { *self == o }
        open spec fn clean(t: u16, v: Seq<u8>) -> bool { true }
        open spec fn refused(&self, enc: Option<Seq<u8>>) -> bool { false }
        proof fn round(&self, tid: TransactionId, enc: Option<Seq<u8>>, v: Seq<u8>) { reservation_token_back(*self); reservation_token(*self, v);  }
        proof fn rewire(t: u16, v: Seq<u8>, tid: TransactionId, enc: Option<Seq<u8>>) { let x = whole(<ReservationTokenDecoder as TryTaggedDecode>::tagged_run0(AttributeType(t), v)); if x is Some { reservation_token(x->0, v); eb64_be64(v); } }
    }
    impl Rfc for IceControlled {
        open spec fn legal(&self) -> bool { true }
        open spec fn same(&self, o: Self) -> bool { *self == o }
        open spec fn clean(t: u16, v: Seq<u8>) -> bool { true }
        open spec fn refused(&self, enc: Option<Seq<u8>>) -> bool { false }
        proof fn round(&self, tid: TransactionId, enc: Option<Seq<u8>>, v: Seq<u8>) { ice_controlled_back(*self); ice_controlled(*self, v);  }
        proof fn rewire(t: u16, v: Seq<u8>, tid: TransactionId, enc: Option<Seq<u8>>) { let x = whole(<IceControlledDecoder as TryTaggedDecode>::tagged_run0(AttributeType(t), v)); if x is Some { ice_controlled(x->0, v); eb64_be64(v); } }
    }
    impl Rfc for IceControlling {
        open spec fn legal(&self) -> bool { true }
        open spec fn same(&self, o: Self) -> bool { *self == o }
        open spec fn clean(t: u16, v: Seq<u8>) -> bool { true }
        open spec fn refused(&self, enc: Option<Seq<u8>>) -> bool { false }
        proof fn round(&self, tid: TransactionId, enc: Option<Seq<u8>>, v: Seq<u8>) { ice_controlling_back(*self); ice_controlling(*self, v);  }
        proof fn rewire(t: u16, v: Seq<u8>, tid: TransactionId, enc: Option<Seq<u8>>) { let x = whole(<IceControllingDecoder as TryTaggedDecode>::tagged_run0(AttributeType(t), v)); if x is Some { ice_controlling(x->0, v); eb64_be64(v); } }
    }
    impl Rfc for Priority {
        open spec fn legal(&self) -> bool { true }
        open spec fn same(&self, o: Self) -> bool { *self == o }
        open spec fn clean(t: u16, v: Seq<u8>) -> bool { true }
        open spec fn refused(&self, enc: Option<Seq<u8>>) -> bool { false }
        proof fn round(&self, tid: TransactionId, enc: Option<Seq<u8>>, v: Seq<u8>) { priority_back(*self); priority(*self, v);  }
        proof fn rewire(t: u16, v: Seq<u8>, tid: TransactionId, enc: Option<Seq<u8>>) { let x = whole(<PriorityDecoder as TryTaggedDecode>::tagged_run0(AttributeType(t), v)); if x is Some { priority(x->0, v); eb32_be32(v); } }
    }
    impl Rfc for ChangeRequest {
        open spec fn legal(&self) -> bool { true }
        open spec fn same(&self, o: Self) -> bool { *self == o }
        open spec fn clean(t: u16, v: Seq<u8>) -> bool { v.len() == 4 ==> v[0] == 0 && v[1] == 0 && v[2] == 0 && (v[3] == 0 || v[3] == 2 || v[3] == 4 || v[3] == 6) }
        open spec fn refused(&self, enc: Option<Seq<u8>>) -> bool { false }
        proof fn round(&self, tid: TransactionId, enc: Option<Seq<u8>>, v: Seq<u8>) { change_request_back(*self); change_request(*self, v);  }
        proof fn rewire(t: u16, v: Seq<u8>, tid: TransactionId, enc: Option<Seq<u8>>) { let x = whole(<ChangeRequestDecoder as TryTaggedDecode>::tagged_run0(AttributeType(t), v)); if x is Some { change_request(x->0, v); if Self::clean(t, v) { assert(ChangeRequestEncoder::enc(x->0)->0 =~= v); } } }
    }
    impl Rfc for ResponsePort {
        open spec fn legal(&self) -> bool { true }
        open spec fn same(&self, o: Self) -> bool { *self == o }
        open spec fn clean(t: u16, v: Seq<u8>) -> bool { v.len() == 4 ==> v[2] == 0 && v[3] == 0 }
        open spec fn refused(&self, enc: Option<Seq<u8>>) -> bool { false }
        proof fn round(&self, tid: TransactionId, enc: Option<Seq<u8>>, v: Seq<u8>) { response_port_back(*self); response_port(*self, v);  }
        proof fn rewire(t: u16, v: Seq<u8>, tid: TransactionId, enc: Option<Seq<u8>>) { let x = whole(<ResponsePortDecoder as TryTaggedDecode>::tagged_run0(AttributeType(t), v)); if x is Some { response_port(x->0, v); eb16_be16(v.take(2)); if Self::clean(t, v) { assert(eb16((x->0).0) + seq![0u8, 0u8] =~= v); } } }
    }
    impl Rfc for RequestedAddressFamily {
        open spec fn legal(&self) -> bool { true }
        open spec fn same(&self, o: Self) -> bool { *self == o }
        open spec fn clean(t: u16, v: Seq<u8>) -> bool { v.len() == 4 ==> v[1] == 0 && v[2] == 0 && v[3] == 0 }
        open spec fn refused(&self, enc: Option<Seq<u8>>) -> bool { false }
        proof fn round(&self, tid: TransactionId, enc: Option<Seq<u8>>, v: Seq<u8>) { requested_address_family_back(*self); requested_address_family(*self, v);  }
        proof fn rewire(t: u16, v: Seq<u8>, tid: TransactionId, enc: Option<Seq<u8>>) { let x = whole(<RequestedAddressFamilyDecoder as TryTaggedDecode>::tagged_run0(AttributeType(t), v)); if x is Some { requested_address_family(x->0, v); if Self::clean(t, v) { assert(seq![family_code((x->0).0), 0u8, 0u8, 0u8] =~= v); } } }
    }
    impl Rfc for AdditionalAddressFamily {
        open spec fn legal(&self) -> bool { true }
        open spec fn same(&self, o: Self) -> bool { *self == o }
        open spec fn clean(t: u16, v: Seq<u8>) -> bool { v.len() == 4 ==> v[1] == 0 && v[2] == 0 && v[3] == 0 }
        open spec fn refused(&self, enc: Option<Seq<u8>>) -> bool { false }
        proof fn round(&self, tid: TransactionId, enc: Option<Seq<u8>>, v: Seq<u8>) { additional_address_family_back(*self); additional_address_family(*self, v);  }
        proof fn rewire(t: u16, v: Seq<u8>, tid: TransactionId, enc: Option<Seq<u8>>) { let x = whole(<AdditionalAddressFamilyDecoder as TryTaggedDecode>::tagged_run0(AttributeType(t), v)); if x is Some { additional_address_family(x->0, v); if Self::clean(t, v) { assert(seq![family_code((x->0).0), 0u8, 0u8, 0u8] =~= v); } } }
    }
    impl Rfc for ErrorCode {
        open spec fn legal(&self) -> bool { 300 <= self.code < 600 }
        open spec fn same(&self, o: Self) -> bool { *self == o }
        open spec fn clean(t: u16, v: Seq<u8>) -> bool { v.len() >= 4 ==> v[0] == 0 && v[1] == 0 && v[2] < 8 }
        open spec fn refused(&self, enc: Option<Seq<u8>>) -> bool { false }
        proof fn round(&self, tid: TransactionId, enc: Option<Seq<u8>>, v: Seq<u8>) { let e = vstd::utf8::encode_utf8(self.reason_phrase@); error_code(*self, v); assert(v =~= seq![0u8, 0u8, (self.code / 100) as u8, (self.code % 100) as u8] + e); error_code_back(*self); }
        proof fn rewire(t: u16, v: Seq<u8>, tid: TransactionId, enc: Option<Seq<u8>>) { broadcast use contents; let x = whole(ErrorCodeDecoder::run0(v)); let d = ErrorCode { code: 300, reason_phrase: string_of(Seq::empty()) }; error_code(d, v); if x is Some { error_code(x->0, v); text_back(v.skip(4)); if Self::clean(t, v) { assert(ErrorCodeEncoder::enc(x->0)->0 =~= v); } } }
    }
    impl Rfc for MappedAddress {
        open spec fn legal(&self) -> bool { true }
        open spec fn same(&self, o: Self) -> bool { *self == o }
        open spec fn clean(t: u16, v: Seq<u8>) -> bool { v.len() > 0 ==> v[0] == 0 }
        open spec fn refused(&self, enc: Option<Seq<u8>>) -> bool { false }
        proof fn round(&self, tid: TransactionId, enc: Option<Seq<u8>>, v: Seq<u8>) { let y = self.before_spec(tid)->0; mapped_address(y, v, tid, enc); back(y.0);  }
        proof fn rewire(t: u16, v: Seq<u8>, tid: TransactionId, enc: Option<Seq<u8>>) { let x = whole(MappedAddressDecoder::run0(v)); if x is Some { mapped_address(x->0, v, tid, enc); forth(v);  } }
    }
    impl Rfc for AlternateServer {
        open spec fn legal(&self) -> bool { true }
        open spec fn same(&self, o: Self) -> bool { *self == o }
        open spec fn clean(t: u16, v: Seq<u8>) -> bool { v.len() > 0 ==> v[0] == 0 }
        open spec fn refused(&self, enc: Option<Seq<u8>>) -> bool { false }
        proof fn round(&self, tid: TransactionId, enc: Option<Seq<u8>>, v: Seq<u8>) { let y = self.before_spec(tid)->0; alternate_server(y, v, tid, enc); back(y.0);  }
        proof fn rewire(t: u16, v: Seq<u8>, tid: TransactionId, enc: Option<Seq<u8>>) { let x = whole(AlternateServerDecoder::run0(v)); if x is Some { alternate_server(x->0, v, tid, enc); forth(v);  } }
    }
    impl Rfc for ResponseOrigin {
        open spec fn legal(&self) -> bool { true }
        open spec fn same(&self, o: Self) -> bool { *self == o }
        open spec fn clean(t: u16, v: Seq<u8>) -> bool { v.len() > 0 ==> v[0] == 0 }
        open spec fn refused(&self, enc: Option<Seq<u8>>) -> bool { false }
        proof fn round(&self, tid: TransactionId, enc: Option<Seq<u8>>, v: Seq<u8>) { let y = self.before_spec(tid)->0; response_origin(y, v, tid, enc); back(y.0);  }
        proof fn rewire(t: u16, v: Seq<u8>, tid: TransactionId, enc: Option<Seq<u8>>) { let x = whole(ResponseOriginDecoder::run0(v)); if x is Some { response_origin(x->0, v, tid, enc); forth(v);  } }
    }
    impl Rfc for OtherAddress {
        open spec fn legal(&self) -> bool { true }
        open spec fn same(&self, o: Self) -> bool { *self == o }
        open spec fn clean(t: u16, v: Seq<u8>) -> bool { v.len() > 0 ==> v[0] == 0 }
        open spec fn refused(&self, enc: Option<Seq<u8>>) -> bool { false }
        proof fn round(&self, tid: TransactionId, enc: Option<Seq<u8>>, v: Seq<u8>) { let y = self.before_spec(tid)->0; other_address(y, v, tid, enc); back(y.0);  }
        proof fn rewire(t: u16, v: Seq<u8>, tid: TransactionId, enc: Option<Seq<u8>>) { let x = whole(OtherAddressDecoder::run0(v)); if x is Some { other_address(x->0, v, tid, enc); forth(v);  } }
    }
    impl Rfc for XorMappedAddress {
        open spec fn legal(&self) -> bool { true }
        open spec fn same(&self, o: Self) -> bool { *self == o }
        open spec fn clean(t: u16, v: Seq<u8>) -> bool { v.len() > 0 ==> v[0] == 0 }
        open spec fn refused(&self, enc: Option<Seq<u8>>) -> bool { false }
        proof fn round(&self, tid: TransactionId, enc: Option<Seq<u8>>, v: Seq<u8>) { let y = self.before_spec(tid)->0; xor_mapped_address(y, v, tid, enc); back(y.0); xor_involution(self.0, tid); }
        proof fn rewire(t: u16, v: Seq<u8>, tid: TransactionId, enc: Option<Seq<u8>>) { let x = whole(XorMappedAddressDecoder::run0(v)); if x is Some { xor_mapped_address(x->0, v, tid, enc); forth(v); xor_involution((x->0).0, tid); } }
    }
    impl Rfc for XorMappedAddress2 {
        open spec fn legal(&self) -> bool { true }
        open spec fn same(&self, o: Self) -> bool { *self == o }
        open spec fn clean(t: u16, v: Seq<u8>) -> bool { v.len() > 0 ==> v[0] == 0 }
        open spec fn refused(&self, enc: Option<Seq<u8>>) -> bool { false }
        proof fn round(&self, tid: TransactionId, enc: Option<Seq<u8>>, v: Seq<u8>) { let y = self.before_spec(tid)->0; xor_mapped_address2(y, v, tid, enc); back(y.0); xor_involution(self.0, tid); }
        proof fn rewire(t: u16, v: Seq<u8>, tid: TransactionId, enc: Option<Seq<u8>>) { let x = whole(XorMappedAddress2Decoder::run0(v)); if x is Some { xor_mapped_address2(x->0, v, tid, enc); forth(v); xor_involution((x->0).0, tid); } }
    }
    impl Rfc for XorPeerAddress {
        open spec fn legal(&self) -> bool { true }
        open spec fn same(&self, o: Self) -> bool { *self == o }
        open spec fn clean(t: u16, v: Seq<u8>) -> bool { v.len() > 0 ==> v[0] == 0 }
        open spec fn refused(&self, enc: Option<Seq<u8>>) -> bool { false }
        proof fn round(&self, tid: TransactionId, enc: Option<Seq<u8>>, v: Seq<u8>) { let y = self.before_spec(tid)->0; xor_peer_address(y, v, tid, enc); back(y.0); xor_involution(self.0, tid); }
        proof fn rewire(t: u16, v: Seq<u8>, tid: TransactionId, enc: Option<Seq<u8>>) { let x = whole(XorPeerAddressDecoder::run0(v)); if x is Some { xor_peer_address(x->0, v, tid, enc); forth(v); xor_involution((x->0).0, tid); } }
    }
    impl Rfc for XorRelayAddress {
        open spec fn legal(&self) -> bool { true }
        open spec fn same(&self, o: Self) -> bool { *self == o }
        open spec fn clean(t: u16, v: Seq<u8>) -> bool { v.len() > 0 ==> v[0] == 0 }
        open spec fn refused(&self, enc: Option<Seq<u8>>) -> bool { false }
        proof fn round(&self, tid: TransactionId, enc: Option<Seq<u8>>, v: Seq<u8>) { let y = self.before_spec(tid)->0; xor_relay_address(y, v, tid, enc); back(y.0); xor_involution(self.0, tid); }
        proof fn rewire(t: u16, v: Seq<u8>, tid: TransactionId, enc: Option<Seq<u8>>) { let x = whole(XorRelayAddressDecoder::run0(v)); if x is Some { xor_relay_address(x->0, v, tid, enc); forth(v); xor_involution((x->0).0, tid); } }
    }
    impl Rfc for Username {
        open spec fn legal(&self) -> bool { vstd::utf8::encode_utf8(self.name@).len() < 513 }
        open spec fn same(&self, o: Self) -> bool { *self == o }
        open spec fn clean(t: u16, v: Seq<u8>) -> bool { true }
        open spec fn refused(&self, enc: Option<Seq<u8>>) -> bool { false }
        proof fn round(&self, tid: TransactionId, enc: Option<Seq<u8>>, v: Seq<u8>) { username(*self, v); }
        proof fn rewire(t: u16, v: Seq<u8>, tid: TransactionId, enc: Option<Seq<u8>>) { let x = whole(UsernameDecoder::run0(v)); if x is Some { username(x->0, v); } }
    }
    impl Rfc for Realm {
        open spec fn legal(&self) -> bool { self.text@.len() < 128 }
        open spec fn same(&self, o: Self) -> bool { *self == o }
        open spec fn clean(t: u16, v: Seq<u8>) -> bool { true }
        open spec fn refused(&self, enc: Option<Seq<u8>>) -> bool { false }
        proof fn round(&self, tid: TransactionId, enc: Option<Seq<u8>>, v: Seq<u8>) { realm(*self, v); }
        proof fn rewire(t: u16, v: Seq<u8>, tid: TransactionId, enc: Option<Seq<u8>>) { let x = whole(RealmDecoder::run0(v)); if x is Some { realm(x->0, v); } }
    }
    impl Rfc for Nonce {
        open spec fn legal(&self) -> bool { self.value@.len() < 128 }
        open spec fn same(&self, o: Self) -> bool { *self == o }
        open spec fn clean(t: u16, v: Seq<u8>) -> bool { true }
        open spec fn refused(&self, enc: Option<Seq<u8>>) -> bool { false }
        proof fn round(&self, tid: TransactionId, enc: Option<Seq<u8>>, v: Seq<u8>) { nonce(*self, v); }
        proof fn rewire(t: u16, v: Seq<u8>, tid: TransactionId, enc: Option<Seq<u8>>) { let x = whole(NonceDecoder::run0(v)); if x is Some { nonce(x->0, v); } }
    }
    impl Rfc for Software {
        open spec fn legal(&self) -> bool { self.description.text().len() < 128 }
        open spec fn same(&self, o: Self) -> bool { self.description.text() == o.description.text() }
        open spec fn clean(t: u16, v: Seq<u8>) -> bool { true }
        open spec fn refused(&self, enc: Option<Seq<u8>>) -> bool { false }
        proof fn round(&self, tid: TransactionId, enc: Option<Seq<u8>>, v: Seq<u8>) { software(*self, v); }
        proof fn rewire(t: u16, v: Seq<u8>, tid: TransactionId, enc: Option<Seq<u8>>) { let x = whole(SoftwareDecoder::run0(v)); if x is Some { software(x->0, v); } }
    }
    impl Rfc for Data {
        open spec fn legal(&self) -> bool { self.0@.len() <= 0xFFFF }
        open spec fn same(&self, o: Self) -> bool { *self == o }
        open spec fn clean(t: u16, v: Seq<u8>) -> bool { true }
        open spec fn refused(&self, enc: Option<Seq<u8>>) -> bool { false }
        proof fn round(&self, tid: TransactionId, enc: Option<Seq<u8>>, v: Seq<u8>) { data(*self, v); }
        proof fn rewire(t: u16, v: Seq<u8>, tid: TransactionId, enc: Option<Seq<u8>>) { let x = whole(DataDecoder::run0(v)); if x is Some { data(x->0, v); } }
    }
    impl Rfc for MobilityTicket {
        open spec fn legal(&self) -> bool { true }
        open spec fn same(&self, o: Self) -> bool { *self == o }
        open spec fn clean(t: u16, v: Seq<u8>) -> bool { true }
        open spec fn refused(&self, enc: Option<Seq<u8>>) -> bool { false }
        proof fn round(&self, tid: TransactionId, enc: Option<Seq<u8>>, v: Seq<u8>) { mobility_ticket(*self, v); }
        proof fn rewire(t: u16, v: Seq<u8>, tid: TransactionId, enc: Option<Seq<u8>>) { let x = whole(MobilityTicketDecoder::run0(v)); if x is Some { mobility_ticket(x->0, v); } }
    }
    impl Rfc for UnknownAttributes {
        open spec fn legal(&self) -> bool { true }
        open spec fn same(&self, o: Self) -> bool { *self == o }
        open spec fn clean(t: u16, v: Seq<u8>) -> bool { true }
        open spec fn refused(&self, enc: Option<Seq<u8>>) -> bool { false }
        proof fn round(&self, tid: TransactionId, enc: Option<Seq<u8>>, v: Seq<u8>) { unknown_attributes(*self, v); }
        proof fn rewire(t: u16, v: Seq<u8>, tid: TransactionId, enc: Option<Seq<u8>>) { let x = whole(UnknownAttributesDecoder::run0(v)); if x is Some { unknown_attributes(x->0, v); } }
    }
    impl Rfc for Fingerprint {
        open spec fn legal(&self) -> bool { true }
        open spec fn same(&self, o: Self) -> bool { *self == o }
        open spec fn clean(t: u16, v: Seq<u8>) -> bool { true }
        open spec fn refused(&self, enc: Option<Seq<u8>>) -> bool { match enc { Some(b) => self.crc32 != fp_crc(b), None => true } }
        proof fn round(&self, tid: TransactionId, enc: Option<Seq<u8>>, v: Seq<u8>) { fingerprint_back(*self); fingerprint(*self, v); }
        proof fn rewire(t: u16, v: Seq<u8>, tid: TransactionId, enc: Option<Seq<u8>>) { let x = whole(FingerprintDecoder::run0(v)); if x is Some { fingerprint(x->0, v); eb32_be32(v); } }
    }
    impl Rfc for MessageIntegrity {
        open spec fn legal(&self) -> bool { true }
        open spec fn same(&self, o: Self) -> bool { self.hmac_sha1 == o.hmac_sha1 }
        open spec fn clean(t: u16, v: Seq<u8>) -> bool { true }
        open spec fn refused(&self, enc: Option<Seq<u8>>) -> bool { enc is None }
        proof fn round(&self, tid: TransactionId, enc: Option<Seq<u8>>, v: Seq<u8>) { broadcast use contents; arr_value::<20>(v); }
        proof fn rewire(t: u16, v: Seq<u8>, tid: TransactionId, enc: Option<Seq<u8>>) { broadcast use contents; arr_value::<20>(v); }
    }
    proof fn rfc5389_mapped_address(x: MappedAddress, tid: TransactionId, enc: Option<Seq<u8>>, v: Seq<u8>)
        requires crate::rfc5389::Attribute::MappedAddress(x).legal(), crate::rfc5389::Attribute::MappedAddress(x).before_spec(tid) matches Some(y) && <crate::rfc5389::AttributeEncoder as Encode>::enc(y) == Some(v), v.len() <= 0xFFFF
        ensures
            <crate::rfc5389::AttributeDecoder as TryTaggedDecode>::knows(AttributeType(crate::rfc5389::Attribute::MappedAddress(x).type_of())),
            crate::rfc5389::Attribute::MappedAddress(x).before_spec(tid)->0.type_of() == crate::rfc5389::Attribute::MappedAddress(x).type_of(),
            <crate::rfc5389::Attribute as Rfc>::clean(crate::rfc5389::Attribute::MappedAddress(x).type_of(), v),
            match whole(<crate::rfc5389::AttributeDecoder as TryTaggedDecode>::tagged_run0(AttributeType(crate::rfc5389::Attribute::MappedAddress(x).type_of()), v)) {
                None => false,
                Some(z) => match z.after_spec(tid, enc) { Some(w) => crate::rfc5389::Attribute::MappedAddress(x).same(w) && !crate::rfc5389::Attribute::MappedAddress(x).refused(enc), None => crate::rfc5389::Attribute::MappedAddress(x).refused(enc) },
            },
    { x.round(tid, enc, v); }
    proof fn rfc5389_mapped_address_wire(t: u16, v: Seq<u8>, tid: TransactionId, enc: Option<Seq<u8>>)
        requires t == 0x0001, v.len() <= 0xFFFF
        ensures match whole(<crate::rfc5389::AttributeDecoder as TryTaggedDecode>::tagged_run0(AttributeType(t), v)) {
            None => true,
            Some(x) => x.type_of() == t && match x.after_spec(tid, enc) {
                None => x.refused(enc),
                Some(z) => !x.refused(enc) && z.legal() && z.type_of() == t && (z.before_spec(tid) matches Some(y) && y.type_of() == t && (<crate::rfc5389::Attribute as Rfc>::clean(t, v) ==> <crate::rfc5389::AttributeEncoder as Encode>::enc(y) == Some(v))),
            },
        }
    { MappedAddress::rewire(t, v, tid, enc); }
    proof fn rfc5389_username(x: Username, tid: TransactionId, enc: Option<Seq<u8>>, v: Seq<u8>)
        requires crate::rfc5389::Attribute::Username(x).legal(), crate::rfc5389::Attribute::Username(x).before_spec(tid) matches Some(y) && <crate::rfc5389::AttributeEncoder as Encode>::enc(y) == Some(v), v.len() <= 0xFFFF
        ensures
            <crate::rfc5389::AttributeDecoder as TryTaggedDecode>::knows(AttributeType(crate::rfc5389::Attribute::Username(x).type_of())),
            crate::rfc5389::Attribute::Username(x).before_spec(tid)->0.type_of() == crate::rfc5389::Attribute::Username(x).type_of(),
            <crate::rfc5389::Attribute as Rfc>::clean(crate::rfc5389::Attribute::Username(x).type_of(), v),
            match whole(<crate::rfc5389::AttributeDecoder as TryTaggedDecode>::tagged_run0(AttributeType(crate::rfc5389::Attribute::Username(x).type_of()), v)) {
                None => false,
                Some(z) => match z.after_spec(tid, enc) { Some(w) => crate::rfc5389::Attribute::Username(x).same(w) && !crate::rfc5389::Attribute::Username(x).refused(enc), None => crate::rfc5389::Attribute::Username(x).refused(enc) },
            },
    { x.round(tid, enc, v); }
    proof fn rfc5389_username_wire(t: u16, v: Seq<u8>, tid: TransactionId, enc: Option<Seq<u8>>)
        requires t == 0x0006, v.len() <= 0xFFFF
        ensures match whole(<crate::rfc5389::AttributeDecoder as TryTaggedDecode>::tagged_run0(AttributeType(t), v)) {
            None => true,
            Some(x) => x.type_of() == t && match x.after_spec(tid, enc) {
                None => x.refused(enc),
                Some(z) => !x.refused(enc) && z.legal() && z.type_of() == t && (z.before_spec(tid) matches Some(y) && y.type_of() == t && (<crate::rfc5389::Attribute as Rfc>::clean(t, v) ==> <crate::rfc5389::AttributeEncoder as Encode>::enc(y) == Some(v))),
            },
        }
    { Username::rewire(t, v, tid, enc); }
    proof fn rfc5389_message_integrity(x: MessageIntegrity, tid: TransactionId, enc: Option<Seq<u8>>, v: Seq<u8>)
        requires crate::rfc5389::Attribute::MessageIntegrity(x).legal(), crate::rfc5389::Attribute::MessageIntegrity(x).before_spec(tid) matches Some(y) && <crate::rfc5389::AttributeEncoder as Encode>::enc(y) == Some(v), v.len() <= 0xFFFF
        ensures
            <crate::rfc5389::AttributeDecoder as TryTaggedDecode>::knows(AttributeType(crate::rfc5389::Attribute::MessageIntegrity(x).type_of())),
            crate::rfc5389::Attribute::MessageIntegrity(x).before_spec(tid)->0.type_of() == crate::rfc5389::Attribute::MessageIntegrity(x).type_of(),
            <crate::rfc5389::Attribute as Rfc>::clean(crate::rfc5389::Attribute::MessageIntegrity(x).type_of(), v),
            match whole(<crate::rfc5389::AttributeDecoder as TryTaggedDecode>::tagged_run0(AttributeType(crate::rfc5389::Attribute::MessageIntegrity(x).type_of()), v)) {
                None => false,
                Some(z) => match z.after_spec(tid, enc) { Some(w) => crate::rfc5389::Attribute::MessageIntegrity(x).same(w) && !crate::rfc5389::Attribute::MessageIntegrity(x).refused(enc), None => crate::rfc5389::Attribute::MessageIntegrity(x).refused(enc) },
            },
    { x.round(tid, enc, v); }
    proof fn rfc5389_message_integrity_wire(t: u16, v: Seq<u8>, tid: TransactionId, enc: Option<Seq<u8>>)
        requires t == 0x0008, v.len() <= 0xFFFF
        ensures match whole(<crate::rfc5389::AttributeDecoder as TryTaggedDecode>::tagged_run0(AttributeType(t), v)) {
            None => true,
            Some(x) => x.type_of() == t && match x.after_spec(tid, enc) {
                None => x.refused(enc),
                Some(z) => !x.refused(enc) && z.legal() && z.type_of() == t && (z.before_spec(tid) matches Some(y) && y.type_of() == t && (<crate::rfc5389::Attribute as Rfc>::clean(t, v) ==> <crate::rfc5389::AttributeEncoder as Encode>::enc(y) == Some(v))),
            },
        }
    { MessageIntegrity::rewire(t, v, tid, enc); }
    proof fn rfc5389_error_code(x: ErrorCode, tid: TransactionId, enc: Option<Seq<u8>>, v: Seq<u8>)
        requires crate::rfc5389::Attribute::ErrorCode(x).legal(), crate::rfc5389::Attribute::ErrorCode(x).before_spec(tid) matches Some(y) && <crate::rfc5389::AttributeEncoder as Encode>::enc(y) == Some(v), v.len() <= 0xFFFF
        ensures
            <crate::rfc5389::AttributeDecoder as TryTaggedDecode>::knows(AttributeType(crate::rfc5389::Attribute::ErrorCode(x).type_of())),
            crate::rfc5389::Attribute::ErrorCode(x).before_spec(tid)->0.type_of() == crate::rfc5389::Attribute::ErrorCode(x).type_of(),
            <crate::rfc5389::Attribute as Rfc>::clean(crate::rfc5389::Attribute::ErrorCode(x).type_of(), v),
            match whole(<crate::rfc5389::AttributeDecoder as TryTaggedDecode>::tagged_run0(AttributeType(crate::rfc5389::Attribute::ErrorCode(x).type_of()), v)) {
                None => false,
                Some(z) => match z.after_spec(tid, enc) { Some(w) => crate::rfc5389::Attribute::ErrorCode(x).same(w) && !crate::rfc5389::Attribute::ErrorCode(x).refused(enc), None => crate::rfc5389::Attribute::ErrorCode(x).refused(enc) },
            },
    { x.round(tid, enc, v); }
    proof fn rfc5389_error_code_wire(t: u16, v: Seq<u8>, tid: TransactionId, enc: Option<Seq<u8>>)
        requires t == 0x0009, v.len() <= 0xFFFF
        ensures match whole(<crate::rfc5389::AttributeDecoder as TryTaggedDecode>::tagged_run0(AttributeType(t), v)) {
            None => true,
            Some(x) => x.type_of() == t && match x.after_spec(tid, enc) {
                None => x.refused(enc),
                Some(z) => !x.refused(enc) && z.legal() && z.type_of() == t && (z.before_spec(tid) matches Some(y) && y.type_of() == t && (<crate::rfc5389::Attribute as Rfc>::clean(t, v) ==> <crate::rfc5389::AttributeEncoder as Encode>::enc(y) == Some(v))),
            },
        }
    { ErrorCode::rewire(t, v, tid, enc); }
    proof fn rfc5389_unknown_attributes(x: UnknownAttributes, tid: TransactionId, enc: Option<Seq<u8>>, v: Seq<u8>)
        requires crate::rfc5389::Attribute::UnknownAttributes(x).legal(), crate::rfc5389::Attribute::UnknownAttributes(x).before_spec(tid) matches Some(y) && <crate::rfc5389::AttributeEncoder as Encode>::enc(y) == Some(v), v.len() <= 0xFFFF
        ensures
            <crate::rfc5389::AttributeDecoder as TryTaggedDecode>::knows(AttributeType(crate::rfc5389::Attribute::UnknownAttributes(x).type_of())),
            crate::rfc5389::Attribute::UnknownAttributes(x).before_spec(tid)->0.type_of() == crate::rfc5389::Attribute::UnknownAttributes(x).type_of(),
            <crate::rfc5389::Attribute as Rfc>::clean(crate::rfc5389::Attribute::UnknownAttributes(x).type_of(), v),
            match whole(<crate::rfc5389::AttributeDecoder as TryTaggedDecode>::tagged_run0(AttributeType(crate::rfc5389::Attribute::UnknownAttributes(x).type_of()), v)) {
                None => false,
                Some(z) => match z.after_spec(tid, enc) { Some(w) => crate::rfc5389::Attribute::UnknownAttributes(x).same(w) && !crate::rfc5389::Attribute::UnknownAttributes(x).refused(enc), None => crate::rfc5389::Attribute::UnknownAttributes(x).refused(enc) },
            },
    { x.round(tid, enc, v); }
    proof fn rfc5389_unknown_attributes_wire(t: u16, v: Seq<u8>, tid: TransactionId, enc: Option<Seq<u8>>)
        requires t == 0x000a, v.len() <= 0xFFFF
        ensures match whole(<crate::rfc5389::AttributeDecoder as TryTaggedDecode>::tagged_run0(AttributeType(t), v)) {
            None => true,
            Some(x) => x.type_of() == t && match x.after_spec(tid, enc) {
                None => x.refused(enc),
                Some(z) => !x.refused(enc) && z.legal() && z.type_of() == t && (z.before_spec(tid) matches Some(y) && y.type_of() == t && (<crate::rfc5389::Attribute as Rfc>::clean(t, v) ==> <crate::rfc5389::AttributeEncoder as Encode>::enc(y) == Some(v))),
            },
        }
    { UnknownAttributes::rewire(t, v, tid, enc); }
    proof fn rfc5389_realm(x: Realm, tid: TransactionId, enc: Option<Seq<u8>>, v: Seq<u8>)
        requires crate::rfc5389::Attribute::Realm(x).legal(), crate::rfc5389::Attribute::Realm(x).before_spec(tid) matches Some(y) && <crate::rfc5389::AttributeEncoder as Encode>::enc(y) == Some(v), v.len() <= 0xFFFF
        ensures
            <crate::rfc5389::AttributeDecoder as TryTaggedDecode>::knows(AttributeType(crate::rfc5389::Attribute::Realm(x).type_of())),
            crate::rfc5389::Attribute::Realm(x).before_spec(tid)->0.type_of() == crate::rfc5389::Attribute::Realm(x).type_of(),
            <crate::rfc5389::Attribute as Rfc>::clean(crate::rfc5389::Attribute::Realm(x).type_of(), v),
            match whole(<crate::rfc5389::AttributeDecoder as TryTaggedDecode>::tagged_run0(AttributeType(crate::rfc5389::Attribute::Realm(x).type_of()), v)) {
                None => false,
                Some(z) => match z.after_spec(tid, enc) { Some(w) => crate::rfc5389::Attribute::Realm(x).same(w) && !crate::rfc5389::Attribute::Realm(x).refused(enc), None => crate::rfc5389::Attribute::Realm(x).refused(enc) },
            },
    { x.round(tid, enc, v); }
    proof fn rfc5389_realm_wire(t: u16, v: Seq<u8>, tid: TransactionId, enc: Option<Seq<u8>>)
        requires t == 0x0014, v.len() <= 0xFFFF
        ensures match whole(<crate::rfc5389::AttributeDecoder as TryTaggedDecode>::tagged_run0(AttributeType(t), v)) {
            None => true,
            Some(x) => x.type_of() == t && match x.after_spec(tid, enc) {
                None => x.refused(enc),
                Some(z) => !x.refused(enc) && z.legal() && z.type_of() == t && (z.before_spec(tid) matches Some(y) && y.type_of() == t && (<crate::rfc5389::Attribute as Rfc>::clean(t, v) ==> <crate::rfc5389::AttributeEncoder as Encode>::enc(y) == Some(v))),
            },
        }
    { Realm::rewire(t, v, tid, enc); }
    proof fn rfc5389_nonce(x: Nonce, tid: TransactionId, enc: Option<Seq<u8>>, v: Seq<u8>)
        requires crate::rfc5389::Attribute::Nonce(x).legal(), crate::rfc5389::Attribute::Nonce(x).before_spec(tid) matches Some(y) && <crate::rfc5389::AttributeEncoder as Encode>::enc(y) == Some(v), v.len() <= 0xFFFF
        ensures
            <crate::rfc5389::AttributeDecoder as TryTaggedDecode>::knows(AttributeType(crate::rfc5389::Attribute::Nonce(x).type_of())),
            crate::rfc5389::Attribute::Nonce(x).before_spec(tid)->0.type_of() == crate::rfc5389::Attribute::Nonce(x).type_of(),
            <crate::rfc5389::Attribute as Rfc>::clean(crate::rfc5389::Attribute::Nonce(x).type_of(), v),
            match whole(<crate::rfc5389::AttributeDecoder as TryTaggedDecode>::tagged_run0(AttributeType(crate::rfc5389::Attribute::Nonce(x).type_of()), v)) {
                None => false,
                Some(z) => match z.after_spec(tid, enc) { Some(w) => crate::rfc5389::Attribute::Nonce(x).same(w) && !crate::rfc5389::Attribute::Nonce(x).refused(enc), None => crate::rfc5389::Attribute::Nonce(x).refused(enc) },
            },
    { x.round(tid, enc, v); }
    proof fn rfc5389_nonce_wire(t: u16, v: Seq<u8>, tid: TransactionId, enc: Option<Seq<u8>>)
        requires t == 0x0015, v.len() <= 0xFFFF
        ensures match whole(<crate::rfc5389::AttributeDecoder as TryTaggedDecode>::tagged_run0(AttributeType(t), v)) {
            None => true,
            Some(x) => x.type_of() == t && match x.after_spec(tid, enc) {
                None => x.refused(enc),
                Some(z) => !x.refused(enc) && z.legal() && z.type_of() == t && (z.before_spec(tid) matches Some(y) && y.type_of() == t && (<crate::rfc5389::Attribute as Rfc>::clean(t, v) ==> <crate::rfc5389::AttributeEncoder as Encode>::enc(y) == Some(v))),
            },
        }
    { Nonce::rewire(t, v, tid, enc); }
    proof fn rfc5389_xor_mapped_address(x: XorMappedAddress, tid: TransactionId, enc: Option<Seq<u8>>, v: Seq<u8>)
        requires crate::rfc5389::Attribute::XorMappedAddress(x).legal(), crate::rfc5389::Attribute::XorMappedAddress(x).before_spec(tid) matches Some(y) && <crate::rfc5389::AttributeEncoder as Encode>::enc(y) == Some(v), v.len() <= 0xFFFF
        ensures
            <crate::rfc5389::AttributeDecoder as TryTaggedDecode>::knows(AttributeType(crate::rfc5389::Attribute::XorMappedAddress(x).type_of())),
            crate::rfc5389::Attribute::XorMappedAddress(x).before_spec(tid)->0.type_of() == crate::rfc5389::Attribute::XorMappedAddress(x).type_of(),
            <crate::rfc5389::Attribute as Rfc>::clean(crate::rfc5389::Attribute::XorMappedAddress(x).type_of(), v),
            match whole(<crate::rfc5389::AttributeDecoder as TryTaggedDecode>::tagged_run0(AttributeType(crate::rfc5389::Attribute::XorMappedAddress(x).type_of()), v)) {
                None => false,
                Some(z) => match z.after_spec(tid, enc) { Some(w) => crate::rfc5389::Attribute::XorMappedAddress(x).same(w) && !crate::rfc5389::Attribute::XorMappedAddress(x).refused(enc), None => crate::rfc5389::Attribute::XorMappedAddress(x).refused(enc) },
            },
    { x.round(tid, enc, v); }
    proof fn rfc5389_xor_mapped_address_wire(t: u16, v: Seq<u8>, tid: TransactionId, enc: Option<Seq<u8>>)
        requires t == 0x0020, v.len() <= 0xFFFF
        ensures match whole(<crate::rfc5389::AttributeDecoder as TryTaggedDecode>::tagged_run0(AttributeType(t), v)) {
            None => true,
            Some(x) => x.type_of() == t && match x.after_spec(tid, enc) {
                None => x.refused(enc),
                Some(z) => !x.refused(enc) && z.legal() && z.type_of() == t && (z.before_spec(tid) matches Some(y) && y.type_of() == t && (<crate::rfc5389::Attribute as Rfc>::clean(t, v) ==> <crate::rfc5389::AttributeEncoder as Encode>::enc(y) == Some(v))),
            },
        }
    { XorMappedAddress::rewire(t, v, tid, enc); }
    proof fn rfc5389_xor_mapped_address2(x: XorMappedAddress2, tid: TransactionId, enc: Option<Seq<u8>>, v: Seq<u8>)
        requires crate::rfc5389::Attribute::XorMappedAddress2(x).legal(), crate::rfc5389::Attribute::XorMappedAddress2(x).before_spec(tid) matches Some(y) && <crate::rfc5389::AttributeEncoder as Encode>::enc(y) == Some(v), v.len() <= 0xFFFF
        ensures
            <crate::rfc5389::AttributeDecoder as TryTaggedDecode>::knows(AttributeType(crate::rfc5389::Attribute::XorMappedAddress2(x).type_of())),
            crate::rfc5389::Attribute::XorMappedAddress2(x).before_spec(tid)->0.type_of() == crate::rfc5389::Attribute::XorMappedAddress2(x).type_of(),
            <crate::rfc5389::Attribute as Rfc>::clean(crate::rfc5389::Attribute::XorMappedAddress2(x).type_of(), v),
            match whole(<crate::rfc5389::AttributeDecoder as TryTaggedDecode>::tagged_run0(AttributeType(crate::rfc5389::Attribute::XorMappedAddress2(x).type_of()), v)) {
                None => false,
                Some(z) => match z.after_spec(tid, enc) { Some(w) => crate::rfc5389::Attribute::XorMappedAddress2(x).same(w) && !crate::rfc5389::Attribute::XorMappedAddress2(x).refused(enc), None => crate::rfc5389::Attribute::XorMappedAddress2(x).refused(enc) },
            },
    { x.round(tid, enc, v); }
    proof fn rfc5389_xor_mapped_address2_wire(t: u16, v: Seq<u8>, tid: TransactionId, enc: Option<Seq<u8>>)
        requires t == 0x8020, v.len() <= 0xFFFF
        ensures match whole(<crate::rfc5389::AttributeDecoder as TryTaggedDecode>::tagged_run0(AttributeType(t), v)) {
            None => true,
            Some(x) => x.type_of() == t && match x.after_spec(tid, enc) {
                None => x.refused(enc),
                Some(z) => !x.refused(enc) && z.legal() && z.type_of() == t && (z.before_spec(tid) matches Some(y) && y.type_of() == t && (<crate::rfc5389::Attribute as Rfc>::clean(t, v) ==> <crate::rfc5389::AttributeEncoder as Encode>::enc(y) == Some(v))),
            },
        }
    { XorMappedAddress2::rewire(t, v, tid, enc); }
    proof fn rfc5389_software(x: Software, tid: TransactionId, enc: Option<Seq<u8>>, v: Seq<u8>)
        requires crate::rfc5389::Attribute::Software(x).legal(), crate::rfc5389::Attribute::Software(x).before_spec(tid) matches Some(y) && <crate::rfc5389::AttributeEncoder as Encode>::enc(y) == Some(v), v.len() <= 0xFFFF
        ensures
            <crate::rfc5389::AttributeDecoder as TryTaggedDecode>::knows(AttributeType(crate::rfc5389::Attribute::Software(x).type_of())),
            crate::rfc5389::Attribute::Software(x).before_spec(tid)->0.type_of() == crate::rfc5389::Attribute::Software(x).type_of(),
            <crate::rfc5389::Attribute as Rfc>::clean(crate::rfc5389::Attribute::Software(x).type_of(), v),
            match whole(<crate::rfc5389::AttributeDecoder as TryTaggedDecode>::tagged_run0(AttributeType(crate::rfc5389::Attribute::Software(x).type_of()), v)) {
                None => false,
                Some(z) => match z.after_spec(tid, enc) { Some(w) => crate::rfc5389::Attribute::Software(x).same(w) && !crate::rfc5389::Attribute::Software(x).refused(enc), None => crate::rfc5389::Attribute::Software(x).refused(enc) },
            },
    { x.round(tid, enc, v); }
    proof fn rfc5389_software_wire(t: u16, v: Seq<u8>, tid: TransactionId, enc: Option<Seq<u8>>)
        requires t == 0x8022, v.len() <= 0xFFFF
        ensures match whole(<crate::rfc5389::AttributeDecoder as TryTaggedDecode>::tagged_run0(AttributeType(t), v)) {
            None => true,
            Some(x) => x.type_of() == t && match x.after_spec(tid, enc) {
                None => x.refused(enc),
                Some(z) => !x.refused(enc) && z.legal() && z.type_of() == t && (z.before_spec(tid) matches Some(y) && y.type_of() == t && (<crate::rfc5389::Attribute as Rfc>::clean(t, v) ==> <crate::rfc5389::AttributeEncoder as Encode>::enc(y) == Some(v))),
            },
        }
    { Software::rewire(t, v, tid, enc); }
    proof fn rfc5389_alternate_server(x: AlternateServer, tid: TransactionId, enc: Option<Seq<u8>>, v: Seq<u8>)
        requires crate::rfc5389::Attribute::AlternateServer(x).legal(), crate::rfc5389::Attribute::AlternateServer(x).before_spec(tid) matches Some(y) && <crate::rfc5389::AttributeEncoder as Encode>::enc(y) == Some(v), v.len() <= 0xFFFF
        ensures
            <crate::rfc5389::AttributeDecoder as TryTaggedDecode>::knows(AttributeType(crate::rfc5389::Attribute::AlternateServer(x).type_of())),
            crate::rfc5389::Attribute::AlternateServer(x).before_spec(tid)->0.type_of() == crate::rfc5389::Attribute::AlternateServer(x).type_of(),
            <crate::rfc5389::Attribute as Rfc>::clean(crate::rfc5389::Attribute::AlternateServer(x).type_of(), v),
            match whole(<crate::rfc5389::AttributeDecoder as TryTaggedDecode>::tagged_run0(AttributeType(crate::rfc5389::Attribute::AlternateServer(x).type_of()), v)) {
                None => false,
                Some(z) => match z.after_spec(tid, enc) { Some(w) => crate::rfc5389::Attribute::AlternateServer(x).same(w) && !crate::rfc5389::Attribute::AlternateServer(x).refused(enc), None => crate::rfc5389::Attribute::AlternateServer(x).refused(enc) },
            },
    { x.round(tid, enc, v); }
    proof fn rfc5389_alternate_server_wire(t: u16, v: Seq<u8>, tid: TransactionId, enc: Option<Seq<u8>>)
        requires t == 0x8023, v.len() <= 0xFFFF
        ensures match whole(<crate::rfc5389::AttributeDecoder as TryTaggedDecode>::tagged_run0(AttributeType(t), v)) {
            None => true,
            Some(x) => x.type_of() == t && match x.after_spec(tid, enc) {
                None => x.refused(enc),
                Some(z) => !x.refused(enc) && z.legal() && z.type_of() == t && (z.before_spec(tid) matches Some(y) && y.type_of() == t && (<crate::rfc5389::Attribute as Rfc>::clean(t, v) ==> <crate::rfc5389::AttributeEncoder as Encode>::enc(y) == Some(v))),
            },
        }
    { AlternateServer::rewire(t, v, tid, enc); }
    proof fn rfc5389_fingerprint(x: Fingerprint, tid: TransactionId, enc: Option<Seq<u8>>, v: Seq<u8>)
        requires crate::rfc5389::Attribute::Fingerprint(x).legal(), crate::rfc5389::Attribute::Fingerprint(x).before_spec(tid) matches Some(y) && <crate::rfc5389::AttributeEncoder as Encode>::enc(y) == Some(v), v.len() <= 0xFFFF
        ensures
            <crate::rfc5389::AttributeDecoder as TryTaggedDecode>::knows(AttributeType(crate::rfc5389::Attribute::Fingerprint(x).type_of())),
            crate::rfc5389::Attribute::Fingerprint(x).before_spec(tid)->0.type_of() == crate::rfc5389::Attribute::Fingerprint(x).type_of(),
            <crate::rfc5389::Attribute as Rfc>::clean(crate::rfc5389::Attribute::Fingerprint(x).type_of(), v),
            match whole(<crate::rfc5389::AttributeDecoder as TryTaggedDecode>::tagged_run0(AttributeType(crate::rfc5389::Attribute::Fingerprint(x).type_of()), v)) {
                None => false,
                Some(z) => match z.after_spec(tid, enc) { Some(w) => crate::rfc5389::Attribute::Fingerprint(x).same(w) && !crate::rfc5389::Attribute::Fingerprint(x).refused(enc), None => crate::rfc5389::Attribute::Fingerprint(x).refused(enc) },
            },
    { x.round(tid, enc, v); }
    proof fn rfc5389_fingerprint_wire(t: u16, v: Seq<u8>, tid: TransactionId, enc: Option<Seq<u8>>)
        requires t == 0x8028, v.len() <= 0xFFFF
        ensures match whole(<crate::rfc5389::AttributeDecoder as TryTaggedDecode>::tagged_run0(AttributeType(t), v)) {
            None => true,
            Some(x) => x.type_of() == t && match x.after_spec(tid, enc) {
                None => x.refused(enc),
                Some(z) => !x.refused(enc) && z.legal() && z.type_of() == t && (z.before_spec(tid) matches Some(y) && y.type_of() == t && (<crate::rfc5389::Attribute as Rfc>::clean(t, v) ==> <crate::rfc5389::AttributeEncoder as Encode>::enc(y) == Some(v))),
            },
        }
    { Fingerprint::rewire(t, v, tid, enc); }
    impl Rfc for crate::rfc5389::Attribute {
        open spec fn legal(&self) -> bool { match *self { crate::rfc5389::Attribute::MappedAddress(x) => x.legal(), crate::rfc5389::Attribute::Username(x) => x.legal(), crate::rfc5389::Attribute::MessageIntegrity(x) => x.legal(), crate::rfc5389::Attribute::ErrorCode(x) => x.legal(), crate::rfc5389::Attribute::UnknownAttributes(x) => x.legal(), crate::rfc5389::Attribute::Realm(x) => x.legal(), crate::rfc5389::Attribute::Nonce(x) => x.legal(), crate::rfc5389::Attribute::XorMappedAddress(x) => x.legal(), crate::rfc5389::Attribute::XorMappedAddress2(x) => x.legal(), crate::rfc5389::Attribute::Software(x) => x.legal(), crate::rfc5389::Attribute::AlternateServer(x) => x.legal(), crate::rfc5389::Attribute::Fingerprint(x) => x.legal() } }
        open spec fn same(&self, o: Self) -> bool { match (*self, o) { (crate::rfc5389::Attribute::MappedAddress(x), crate::rfc5389::Attribute::MappedAddress(y)) => x.same(y), (crate::rfc5389::Attribute::Username(x), crate::rfc5389::Attribute::Username(y)) => x.same(y), (crate::rfc5389::Attribute::MessageIntegrity(x), crate::rfc5389::Attribute::MessageIntegrity(y)) => x.same(y), (crate::rfc5389::Attribute::ErrorCode(x), crate::rfc5389::Attribute::ErrorCode(y)) => x.same(y), (crate::rfc5389::Attribute::UnknownAttributes(x), crate::rfc5389::Attribute::UnknownAttributes(y)) => x.same(y), (crate::rfc5389::Attribute::Realm(x), crate::rfc5389::Attribute::Realm(y)) => x.same(y), (crate::rfc5389::Attribute::Nonce(x), crate::rfc5389::Attribute::Nonce(y)) => x.same(y), (crate::rfc5389::Attribute::XorMappedAddress(x), crate::rfc5389::Attribute::XorMappedAddress(y)) => x.same(y), (crate::rfc5389::Attribute::XorMappedAddress2(x), crate::rfc5389::Attribute::XorMappedAddress2(y)) => x.same(y), (crate::rfc5389::Attribute::Software(x), crate::rfc5389::Attribute::Software(y)) => x.same(y), (crate::rfc5389::Attribute::AlternateServer(x), crate::rfc5389::Attribute::AlternateServer(y)) => x.same(y), (crate::rfc5389::Attribute::Fingerprint(x), crate::rfc5389::Attribute::Fingerprint(y)) => x.same(y), _ => false } }
        open spec fn clean(t: u16, v: Seq<u8>) -> bool { if t == 0x0001 { MappedAddress::clean(t, v) } else if t == 0x0006 { Username::clean(t, v) } else if t == 0x0008 { MessageIntegrity::clean(t, v) } else if t == 0x0009 { ErrorCode::clean(t, v) } else if t == 0x000a { UnknownAttributes::clean(t, v) } else if t == 0x0014 { Realm::clean(t, v) } else if t == 0x0015 { Nonce::clean(t, v) } else if t == 0x0020 { XorMappedAddress::clean(t, v) } else if t == 0x8020 { XorMappedAddress2::clean(t, v) } else if t == 0x8022 { Software::clean(t, v) } else if t == 0x8023 { AlternateServer::clean(t, v) } else if t == 0x8028 { Fingerprint::clean(t, v) } else { true } }
        open spec fn refused(&self, enc: Option<Seq<u8>>) -> bool { match *self { crate::rfc5389::Attribute::MappedAddress(x) => x.refused(enc), crate::rfc5389::Attribute::Username(x) => x.refused(enc), crate::rfc5389::Attribute::MessageIntegrity(x) => x.refused(enc), crate::rfc5389::Attribute::ErrorCode(x) => x.refused(enc), crate::rfc5389::Attribute::UnknownAttributes(x) => x.refused(enc), crate::rfc5389::Attribute::Realm(x) => x.refused(enc), crate::rfc5389::Attribute::Nonce(x) => x.refused(enc), crate::rfc5389::Attribute::XorMappedAddress(x) => x.refused(enc), crate::rfc5389::Attribute::XorMappedAddress2(x) => x.refused(enc), crate::rfc5389::Attribute::Software(x) => x.refused(enc), crate::rfc5389::Attribute::AlternateServer(x) => x.refused(enc), crate::rfc5389::Attribute::Fingerprint(x) => x.refused(enc) } }
        proof fn round(&self, tid: TransactionId, enc: Option<Seq<u8>>, v: Seq<u8>) { match *self { crate::rfc5389::Attribute::MappedAddress(x) => rfc5389_mapped_address(x, tid, enc, v), crate::rfc5389::Attribute::Username(x) => rfc5389_username(x, tid, enc, v), crate::rfc5389::Attribute::MessageIntegrity(x) => rfc5389_message_integrity(x, tid, enc, v), crate::rfc5389::Attribute::ErrorCode(x) => rfc5389_error_code(x, tid, enc, v), crate::rfc5389::Attribute::UnknownAttributes(x) => rfc5389_unknown_attributes(x, tid, enc, v), crate::rfc5389::Attribute::Realm(x) => rfc5389_realm(x, tid, enc, v), crate::rfc5389::Attribute::Nonce(x) => rfc5389_nonce(x, tid, enc, v), crate::rfc5389::Attribute::XorMappedAddress(x) => rfc5389_xor_mapped_address(x, tid, enc, v), crate::rfc5389::Attribute::XorMappedAddress2(x) => rfc5389_xor_mapped_address2(x, tid, enc, v), crate::rfc5389::Attribute::Software(x) => rfc5389_software(x, tid, enc, v), crate::rfc5389::Attribute::AlternateServer(x) => rfc5389_alternate_server(x, tid, enc, v), crate::rfc5389::Attribute::Fingerprint(x) => rfc5389_fingerprint(x, tid, enc, v) } }
        proof fn rewire(t: u16, v: Seq<u8>, tid: TransactionId, enc: Option<Seq<u8>>) { if t == 0x0001 { rfc5389_mapped_address_wire(t, v, tid, enc) } else if t == 0x0006 { rfc5389_username_wire(t, v, tid, enc) } else if t == 0x0008 { rfc5389_message_integrity_wire(t, v, tid, enc) } else if t == 0x0009 { rfc5389_error_code_wire(t, v, tid, enc) } else if t == 0x000a { rfc5389_unknown_attributes_wire(t, v, tid, enc) } else if t == 0x0014 { rfc5389_realm_wire(t, v, tid, enc) } else if t == 0x0015 { rfc5389_nonce_wire(t, v, tid, enc) } else if t == 0x0020 { rfc5389_xor_mapped_address_wire(t, v, tid, enc) } else if t == 0x8020 { rfc5389_xor_mapped_address2_wire(t, v, tid, enc) } else if t == 0x8022 { rfc5389_software_wire(t, v, tid, enc) } else if t == 0x8023 { rfc5389_alternate_server_wire(t, v, tid, enc) } else if t == 0x8028 { rfc5389_fingerprint_wire(t, v, tid, enc) } }
    }
    proof fn rfc5766_channel_number(x: ChannelNumber, tid: TransactionId, enc: Option<Seq<u8>>, v: Seq<u8>)
        requires crate::rfc5766::Attribute::ChannelNumber(x).legal(), crate::rfc5766::Attribute::ChannelNumber(x).before_spec(tid) matches Some(y) && <crate::rfc5766::AttributeEncoder as Encode>::enc(y) == Some(v), v.len() <= 0xFFFF
        ensures
            <crate::rfc5766::AttributeDecoder as TryTaggedDecode>::knows(AttributeType(crate::rfc5766::Attribute::ChannelNumber(x).type_of())),
            crate::rfc5766::Attribute::ChannelNumber(x).before_spec(tid)->0.type_of() == crate::rfc5766::Attribute::ChannelNumber(x).type_of(),
            <crate::rfc5766::Attribute as Rfc>::clean(crate::rfc5766::Attribute::ChannelNumber(x).type_of(), v),
            match whole(<crate::rfc5766::AttributeDecoder as TryTaggedDecode>::tagged_run0(AttributeType(crate::rfc5766::Attribute::ChannelNumber(x).type_of()), v)) {
                None => false,
                Some(z) => match z.after_spec(tid, enc) { Some(w) => crate::rfc5766::Attribute::ChannelNumber(x).same(w) && !crate::rfc5766::Attribute::ChannelNumber(x).refused(enc), None => crate::rfc5766::Attribute::ChannelNumber(x).refused(enc) },
            },
    { x.round(tid, enc, v); }
    proof fn rfc5766_channel_number_wire(t: u16, v: Seq<u8>, tid: TransactionId, enc: Option<Seq<u8>>)
        requires t == 0x000c, v.len() <= 0xFFFF
        ensures match whole(<crate::rfc5766::AttributeDecoder as TryTaggedDecode>::tagged_run0(AttributeType(t), v)) {
            None => true,
            Some(x) => x.type_of() == t && match x.after_spec(tid, enc) {
                None => x.refused(enc),
                Some(z) => !x.refused(enc) && z.legal() && z.type_of() == t && (z.before_spec(tid) matches Some(y) && y.type_of() == t && (<crate::rfc5766::Attribute as Rfc>::clean(t, v) ==> <crate::rfc5766::AttributeEncoder as Encode>::enc(y) == Some(v))),
            },
        }
    { ChannelNumber::rewire(t, v, tid, enc); }
    proof fn rfc5766_lifetime(x: Lifetime, tid: TransactionId, enc: Option<Seq<u8>>, v: Seq<u8>)
        requires crate::rfc5766::Attribute::Lifetime(x).legal(), crate::rfc5766::Attribute::Lifetime(x).before_spec(tid) matches Some(y) && <crate::rfc5766::AttributeEncoder as Encode>::enc(y) == Some(v), v.len() <= 0xFFFF
        ensures
            <crate::rfc5766::AttributeDecoder as TryTaggedDecode>::knows(AttributeType(crate::rfc5766::Attribute::Lifetime(x).type_of())),
            crate::rfc5766::Attribute::Lifetime(x).before_spec(tid)->0.type_of() == crate::rfc5766::Attribute::Lifetime(x).type_of(),
            <crate::rfc5766::Attribute as Rfc>::clean(crate::rfc5766::Attribute::Lifetime(x).type_of(), v),
            match whole(<crate::rfc5766::AttributeDecoder as TryTaggedDecode>::tagged_run0(AttributeType(crate::rfc5766::Attribute::Lifetime(x).type_of()), v)) {
                None => false,
                Some(z) => match z.after_spec(tid, enc) { Some(w) => crate::rfc5766::Attribute::Lifetime(x).same(w) && !crate::rfc5766::Attribute::Lifetime(x).refused(enc), None => crate::rfc5766::Attribute::Lifetime(x).refused(enc) },
            },
    { x.round(tid, enc, v); }
    proof fn rfc5766_lifetime_wire(t: u16, v: Seq<u8>, tid: TransactionId, enc: Option<Seq<u8>>)
        requires t == 0x000d, v.len() <= 0xFFFF
        ensures match whole(<crate::rfc5766::AttributeDecoder as TryTaggedDecode>::tagged_run0(AttributeType(t), v)) {
            None => true,
            Some(x) => x.type_of() == t && match x.after_spec(tid, enc) {
                None => x.refused(enc),
                Some(z) => !x.refused(enc) && z.legal() && z.type_of() == t && (z.before_spec(tid) matches Some(y) && y.type_of() == t && (<crate::rfc5766::Attribute as Rfc>::clean(t, v) ==> <crate::rfc5766::AttributeEncoder as Encode>::enc(y) == Some(v))),
            },
        }
    { Lifetime::rewire(t, v, tid, enc); }
    proof fn rfc5766_xor_peer_address(x: XorPeerAddress, tid: TransactionId, enc: Option<Seq<u8>>, v: Seq<u8>)
        requires crate::rfc5766::Attribute::XorPeerAddress(x).legal(), crate::rfc5766::Attribute::XorPeerAddress(x).before_spec(tid) matches Some(y) && <crate::rfc5766::AttributeEncoder as Encode>::enc(y) == Some(v), v.len() <= 0xFFFF
        ensures
            <crate::rfc5766::AttributeDecoder as TryTaggedDecode>::knows(AttributeType(crate::rfc5766::Attribute::XorPeerAddress(x).type_of())),
            crate::rfc5766::Attribute::XorPeerAddress(x).before_spec(tid)->0.type_of() == crate::rfc5766::Attribute::XorPeerAddress(x).type_of(),
            <crate::rfc5766::Attribute as Rfc>::clean(crate::rfc5766::Attribute::XorPeerAddress(x).type_of(), v),
            match whole(<crate::rfc5766::AttributeDecoder as TryTaggedDecode>::tagged_run0(AttributeType(crate::rfc5766::Attribute::XorPeerAddress(x).type_of()), v)) {
                None => false,
                Some(z) => match z.after_spec(tid, enc) { Some(w) => crate::rfc5766::Attribute::XorPeerAddress(x).same(w) && !crate::rfc5766::Attribute::XorPeerAddress(x).refused(enc), None => crate::rfc5766::Attribute::XorPeerAddress(x).refused(enc) },
            },
    { x.round(tid, enc, v); }
    proof fn rfc5766_xor_peer_address_wire(t: u16, v: Seq<u8>, tid: TransactionId, enc: Option<Seq<u8>>)
        requires t == 0x0012, v.len() <= 0xFFFF
        ensures match whole(<crate::rfc5766::AttributeDecoder as TryTaggedDecode>::tagged_run0(AttributeType(t), v)) {
            None => true,
            Some(x) => x.type_of() == t && match x.after_spec(tid, enc) {
                None => x.refused(enc),
                Some(z) => !x.refused(enc) && z.legal() && z.type_of() == t && (z.before_spec(tid) matches Some(y) && y.type_of() == t && (<crate::rfc5766::Attribute as Rfc>::clean(t, v) ==> <crate::rfc5766::AttributeEncoder as Encode>::enc(y) == Some(v))),
            },
        }
    { XorPeerAddress::rewire(t, v, tid, enc); }
    proof fn rfc5766_data(x: Data, tid: TransactionId, enc: Option<Seq<u8>>, v: Seq<u8>)
        requires crate::rfc5766::Attribute::Data(x).legal(), crate::rfc5766::Attribute::Data(x).before_spec(tid) matches Some(y) && <crate::rfc5766::AttributeEncoder as Encode>::enc(y) == Some(v), v.len() <= 0xFFFF
        ensures
            <crate::rfc5766::AttributeDecoder as TryTaggedDecode>::knows(AttributeType(crate::rfc5766::Attribute::Data(x).type_of())),
            crate::rfc5766::Attribute::Data(x).before_spec(tid)->0.type_of() == crate::rfc5766::Attribute::Data(x).type_of(),
            <crate::rfc5766::Attribute as Rfc>::clean(crate::rfc5766::Attribute::Data(x).type_of(), v),
            match whole(<crate::rfc5766::AttributeDecoder as TryTaggedDecode>::tagged_run0(AttributeType(crate::rfc5766::Attribute::Data(x).type_of()), v)) {
                None => false,
                Some(z) => match z.after_spec(tid, enc) { Some(w) => crate::rfc5766::Attribute::Data(x).same(w) && !crate::rfc5766::Attribute::Data(x).refused(enc), None => crate::rfc5766::Attribute::Data(x).refused(enc) },
            },
    { x.round(tid, enc, v); }
    proof fn rfc5766_data_wire(t: u16, v: Seq<u8>, tid: TransactionId, enc: Option<Seq<u8>>)
        requires t == 0x0013, v.len() <= 0xFFFF
        ensures match whole(<crate::rfc5766::AttributeDecoder as TryTaggedDecode>::tagged_run0(AttributeType(t), v)) {
            None => true,
            Some(x) => x.type_of() == t && match x.after_spec(tid, enc) {
                None => x.refused(enc),
                Some(z) => !x.refused(enc) && z.legal() && z.type_of() == t && (z.before_spec(tid) matches Some(y) && y.type_of() == t && (<crate::rfc5766::Attribute as Rfc>::clean(t, v) ==> <crate::rfc5766::AttributeEncoder as Encode>::enc(y) == Some(v))),
            },
        }
    { Data::rewire(t, v, tid, enc); }
    proof fn rfc5766_xor_relay_address(x: XorRelayAddress, tid: TransactionId, enc: Option<Seq<u8>>, v: Seq<u8>)
        requires crate::rfc5766::Attribute::XorRelayAddress(x).legal(), crate::rfc5766::Attribute::XorRelayAddress(x).before_spec(tid) matches Some(y) && <crate::rfc5766::AttributeEncoder as Encode>::enc(y) == Some(v), v.len() <= 0xFFFF
        ensures
            <crate::rfc5766::AttributeDecoder as TryTaggedDecode>::knows(AttributeType(crate::rfc5766::Attribute::XorRelayAddress(x).type_of())),
            crate::rfc5766::Attribute::XorRelayAddress(x).before_spec(tid)->0.type_of() == crate::rfc5766::Attribute::XorRelayAddress(x).type_of(),
            <crate::rfc5766::Attribute as Rfc>::clean(crate::rfc5766::Attribute::XorRelayAddress(x).type_of(), v),
            match whole(<crate::rfc5766::AttributeDecoder as TryTaggedDecode>::tagged_run0(AttributeType(crate::rfc5766::Attribute::XorRelayAddress(x).type_of()), v)) {
                None => false,
                Some(z) => match z.after_spec(tid, enc) { Some(w) => crate::rfc5766::Attribute::XorRelayAddress(x).same(w) && !crate::rfc5766::Attribute::XorRelayAddress(x).refused(enc), None => crate::rfc5766::Attribute::XorRelayAddress(x).refused(enc) },
            },
    { x.round(tid, enc, v); }
    proof fn rfc5766_xor_relay_address_wire(t: u16, v: Seq<u8>, tid: TransactionId, enc: Option<Seq<u8>>)
        requires t == 0x0016, v.len() <= 0xFFFF
        ensures match whole(<crate::rfc5766::AttributeDecoder as TryTaggedDecode>::tagged_run0(AttributeType(t), v)) {
            None => true,
            Some(x) => x.type_of() == t && match x.after_spec(tid, enc) {
                None => x.refused(enc),
                Some(z) => !x.refused(enc) && z.legal() && z.type_of() == t && (z.before_spec(tid) matches Some(y) && y.type_of() == t && (<crate::rfc5766::Attribute as Rfc>::clean(t, v) ==> <crate::rfc5766::AttributeEncoder as Encode>::enc(y) == Some(v))),
            },
        }
    { XorRelayAddress::rewire(t, v, tid, enc); }
    proof fn rfc5766_even_port(x: EvenPort, tid: TransactionId, enc: Option<Seq<u8>>, v: Seq<u8>)
        requires crate::rfc5766::Attribute::EvenPort(x).legal(), crate::rfc5766::Attribute::EvenPort(x).before_spec(tid) matches Some(y) && <crate::rfc5766::AttributeEncoder as Encode>::enc(y) == Some(v), v.len() <= 0xFFFF
        ensures
            <crate::rfc5766::AttributeDecoder as TryTaggedDecode>::knows(AttributeType(crate::rfc5766::Attribute::EvenPort(x).type_of())),
            crate::rfc5766::Attribute::EvenPort(x).before_spec(tid)->0.type_of() == crate::rfc5766::Attribute::EvenPort(x).type_of(),
            <crate::rfc5766::Attribute as Rfc>::clean(crate::rfc5766::Attribute::EvenPort(x).type_of(), v),
            match whole(<crate::rfc5766::AttributeDecoder as TryTaggedDecode>::tagged_run0(AttributeType(crate::rfc5766::Attribute::EvenPort(x).type_of()), v)) {
                None => false,
                Some(z) => match z.after_spec(tid, enc) { Some(w) => crate::rfc5766::Attribute::EvenPort(x).same(w) && !crate::rfc5766::Attribute::EvenPort(x).refused(enc), None => crate::rfc5766::Attribute::EvenPort(x).refused(enc) },
            },
    { x.round(tid, enc, v); }
    proof fn rfc5766_even_port_wire(t: u16, v: Seq<u8>, tid: TransactionId, enc: Option<Seq<u8>>)
        requires t == 0x0018, v.len() <= 0xFFFF
        ensures match whole(<crate::rfc5766::AttributeDecoder as TryTaggedDecode>::tagged_run0(AttributeType(t), v)) {
            None => true,
            Some(x) => x.type_of() == t && match x.after_spec(tid, enc) {
                None => x.refused(enc),
                Some(z) => !x.refused(enc) && z.legal() && z.type_of() == t && (z.before_spec(tid) matches Some(y) && y.type_of() == t && (<crate::rfc5766::Attribute as Rfc>::clean(t, v) ==> <crate::rfc5766::AttributeEncoder as Encode>::enc(y) == Some(v))),
            },
        }
    { EvenPort::rewire(t, v, tid, enc); }
    proof fn rfc5766_requested_transport(x: RequestedTransport, tid: TransactionId, enc: Option<Seq<u8>>, v: Seq<u8>)
        requires crate::rfc5766::Attribute::RequestedTransport(x).legal(), crate::rfc5766::Attribute::RequestedTransport(x).before_spec(tid) matches Some(y) && <crate::rfc5766::AttributeEncoder as Encode>::enc(y) == Some(v), v.len() <= 0xFFFF
        ensures
            <crate::rfc5766::AttributeDecoder as TryTaggedDecode>::knows(AttributeType(crate::rfc5766::Attribute::RequestedTransport(x).type_of())),
            crate::rfc5766::Attribute::RequestedTransport(x).before_spec(tid)->0.type_of() == crate::rfc5766::Attribute::RequestedTransport(x).type_of(),
            <crate::rfc5766::Attribute as Rfc>::clean(crate::rfc5766::Attribute::RequestedTransport(x).type_of(), v),
            match whole(<crate::rfc5766::AttributeDecoder as TryTaggedDecode>::tagged_run0(AttributeType(crate::rfc5766::Attribute::RequestedTransport(x).type_of()), v)) {
                None => false,
                Some(z) => match z.after_spec(tid, enc) { Some(w) => crate::rfc5766::Attribute::RequestedTransport(x).same(w) && !crate::rfc5766::Attribute::RequestedTransport(x).refused(enc), None => crate::rfc5766::Attribute::RequestedTransport(x).refused(enc) },
            },
    { x.round(tid, enc, v); }
    proof fn rfc5766_requested_transport_wire(t: u16, v: Seq<u8>, tid: TransactionId, enc: Option<Seq<u8>>)
        requires t == 0x0019, v.len() <= 0xFFFF
        ensures match whole(<crate::rfc5766::AttributeDecoder as TryTaggedDecode>::tagged_run0(AttributeType(t), v)) {
            None => true,
            Some(x) => x.type_of() == t && match x.after_spec(tid, enc) {
                None => x.refused(enc),
                Some(z) => !x.refused(enc) && z.legal() && z.type_of() == t && (z.before_spec(tid) matches Some(y) && y.type_of() == t && (<crate::rfc5766::Attribute as Rfc>::clean(t, v) ==> <crate::rfc5766::AttributeEncoder as Encode>::enc(y) == Some(v))),
            },
        }
    { RequestedTransport::rewire(t, v, tid, enc); }
    proof fn rfc5766_dont_fragment(x: DontFragment, tid: TransactionId, enc: Option<Seq<u8>>, v: Seq<u8>)
        requires crate::rfc5766::Attribute::DontFragment(x).legal(), crate::rfc5766::Attribute::DontFragment(x).before_spec(tid) matches Some(y) && <crate::rfc5766::AttributeEncoder as Encode>::enc(y) == Some(v), v.len() <= 0xFFFF
        ensures
            <crate::rfc5766::AttributeDecoder as TryTaggedDecode>::knows(AttributeType(crate::rfc5766::Attribute::DontFragment(x).type_of())),
            crate::rfc5766::Attribute::DontFragment(x).before_spec(tid)->0.type_of() == crate::rfc5766::Attribute::DontFragment(x).type_of(),
            <crate::rfc5766::Attribute as Rfc>::clean(crate::rfc5766::Attribute::DontFragment(x).type_of(), v),
            match whole(<crate::rfc5766::AttributeDecoder as TryTaggedDecode>::tagged_run0(AttributeType(crate::rfc5766::Attribute::DontFragment(x).type_of()), v)) {
                None => false,
                Some(z) => match z.after_spec(tid, enc) { Some(w) => crate::rfc5766::Attribute::DontFragment(x).same(w) && !crate::rfc5766::Attribute::DontFragment(x).refused(enc), None => crate::rfc5766::Attribute::DontFragment(x).refused(enc) },
            },
    { x.round(tid, enc, v); }
    proof fn rfc5766_dont_fragment_wire(t: u16, v: Seq<u8>, tid: TransactionId, enc: Option<Seq<u8>>)
        requires t == 0x001a, v.len() <= 0xFFFF
        ensures match whole(<crate::rfc5766::AttributeDecoder as TryTaggedDecode>::tagged_run0(AttributeType(t), v)) {
            None => true,
            Some(x) => x.type_of() == t && match x.after_spec(tid, enc) {
                None => x.refused(enc),
                Some(z) => !x.refused(enc) && z.legal() && z.type_of() == t && (z.before_spec(tid) matches Some(y) && y.type_of() == t && (<crate::rfc5766::Attribute as Rfc>::clean(t, v) ==> <crate::rfc5766::AttributeEncoder as Encode>::enc(y) == Some(v))),
            },
        }
    { DontFragment::rewire(t, v, tid, enc); }
    proof fn rfc5766_reservation_token(x: ReservationToken, tid: TransactionId, enc: Option<Seq<u8>>, v: Seq<u8>)
        requires crate::rfc5766::Attribute::ReservationToken(x).legal(), crate::rfc5766::Attribute::ReservationToken(x).before_spec(tid) matches Some(y) && <crate::rfc5766::AttributeEncoder as Encode>::enc(y) == Some(v), v.len() <= 0xFFFF
        ensures
            <crate::rfc5766::AttributeDecoder as TryTaggedDecode>::knows(AttributeType(crate::rfc5766::Attribute::ReservationToken(x).type_of())),
            crate::rfc5766::Attribute::ReservationToken(x).before_spec(tid)->0.type_of() == crate::rfc5766::Attribute::ReservationToken(x).type_of(),
            <crate::rfc5766::Attribute as Rfc>::clean(crate::rfc5766::Attribute::ReservationToken(x).type_of(), v),
            match whole(<crate::rfc5766::AttributeDecoder as TryTaggedDecode>::tagged_run0(AttributeType(crate::rfc5766::Attribute::ReservationToken(x).type_of()), v)) {
                None => false,
                Some(z) => match z.after_spec(tid, enc) { Some(w) => crate::rfc5766::Attribute::ReservationToken(x).same(w) && !crate::rfc5766::Attribute::ReservationToken(x).refused(enc), None => crate::rfc5766::Attribute::ReservationToken(x).refused(enc) },
            },
    { x.round(tid, enc, v); }
    proof fn rfc5766_reservation_token_wire(t: u16, v: Seq<u8>, tid: TransactionId, enc: Option<Seq<u8>>)
        requires t == 0x0022, v.len() <= 0xFFFF
        ensures match whole(<crate::rfc5766::AttributeDecoder as TryTaggedDecode>::tagged_run0(AttributeType(t), v)) {
            None => true,
            Some(x) => x.type_of() == t && match x.after_spec(tid, enc) {
                None => x.refused(enc),
                Some(z) => !x.refused(enc) && z.legal() && z.type_of() == t && (z.before_spec(tid) matches Some(y) && y.type_of() == t && (<crate::rfc5766::Attribute as Rfc>::clean(t, v) ==> <crate::rfc5766::AttributeEncoder as Encode>::enc(y) == Some(v))),
            },
        }
    { ReservationToken::rewire(t, v, tid, enc); }
    impl Rfc for crate::rfc5766::Attribute {
        open spec fn legal(&self) -> bool { match *self { crate::rfc5766::Attribute::ChannelNumber(x) => x.legal(), crate::rfc5766::Attribute::Lifetime(x) => x.legal(), crate::rfc5766::Attribute::XorPeerAddress(x) => x.legal(), crate::rfc5766::Attribute::Data(x) => x.legal(), crate::rfc5766::Attribute::XorRelayAddress(x) => x.legal(), crate::rfc5766::Attribute::EvenPort(x) => x.legal(), crate::rfc5766::Attribute::RequestedTransport(x) => x.legal(), crate::rfc5766::Attribute::DontFragment(x) => x.legal(), crate::rfc5766::Attribute::ReservationToken(x) => x.legal() } }
        open spec fn same(&self, o: Self) -> bool { match (*self, o) { (crate::rfc5766::Attribute::ChannelNumber(x), crate::rfc5766::Attribute::ChannelNumber(y)) => x.same(y), (crate::rfc5766::Attribute::Lifetime(x), crate::rfc5766::Attribute::Lifetime(y)) => x.same(y), (crate::rfc5766::Attribute::XorPeerAddress(x), crate::rfc5766::Attribute::XorPeerAddress(y)) => x.same(y), (crate::rfc5766::Attribute::Data(x), crate::rfc5766::Attribute::Data(y)) => x.same(y), (crate::rfc5766::Attribute::XorRelayAddress(x), crate::rfc5766::Attribute::XorRelayAddress(y)) => x.same(y), (crate::rfc5766::Attribute::EvenPort(x), crate::rfc5766::Attribute::EvenPort(y)) => x.same(y), (crate::rfc5766::Attribute::RequestedTransport(x), crate::rfc5766::Attribute::RequestedTransport(y)) => x.same(y), (crate::rfc5766::Attribute::DontFragment(x), crate::rfc5766::Attribute::DontFragment(y)) => x.same(y), (crate::rfc5766::Attribute::ReservationToken(x), crate::rfc5766::Attribute::ReservationToken(y)) => x.same(y), _ => false } }
        open spec fn clean(t: u16, v: Seq<u8>) -> bool { if t == 0x000c { ChannelNumber::clean(t, v) } else if t == 0x000d { Lifetime::clean(t, v) } else if t == 0x0012 { XorPeerAddress::clean(t, v) } else if t == 0x0013 { Data::clean(t, v) } else if t == 0x0016 { XorRelayAddress::clean(t, v) } else if t == 0x0018 { EvenPort::clean(t, v) } else if t == 0x0019 { RequestedTransport::clean(t, v) } else if t == 0x001a { DontFragment::clean(t, v) } else if t == 0x0022 { ReservationToken::clean(t, v) } else { true } }
        open spec fn refused(&self, enc: Option<Seq<u8>>) -> bool { match *self { crate::rfc5766::Attribute::ChannelNumber(x) => x.refused(enc), crate::rfc5766::Attribute::Lifetime(x) => x.refused(enc), crate::rfc5766::Attribute::XorPeerAddress(x) => x.refused(enc), crate::rfc5766::Attribute::Data(x) => x.refused(enc), crate::rfc5766::Attribute::XorRelayAddress(x) => x.refused(enc), crate::rfc5766::Attribute::EvenPort(x) => x.refused(enc), crate::rfc5766::Attribute::RequestedTransport(x) => x.refused(enc), crate::rfc5766::Attribute::DontFragment(x) => x.refused(enc), crate::rfc5766::Attribute::ReservationToken(x) => x.refused(enc) } }
        proof fn round(&self, tid: TransactionId, enc: Option<Seq<u8>>, v: Seq<u8>) { match *self { crate::rfc5766::Attribute::ChannelNumber(x) => rfc5766_channel_number(x, tid, enc, v), crate::rfc5766::Attribute::Lifetime(x) => rfc5766_lifetime(x, tid, enc, v), crate::rfc5766::Attribute::XorPeerAddress(x) => rfc5766_xor_peer_address(x, tid, enc, v), crate::rfc5766::Attribute::Data(x) => rfc5766_data(x, tid, enc, v), crate::rfc5766::Attribute::XorRelayAddress(x) => rfc5766_xor_relay_address(x, tid, enc, v), crate::rfc5766::Attribute::EvenPort(x) => rfc5766_even_port(x, tid, enc, v), crate::rfc5766::Attribute::RequestedTransport(x) => rfc5766_requested_transport(x, tid, enc, v), crate::rfc5766::Attribute::DontFragment(x) => rfc5766_dont_fragment(x, tid, enc, v), crate::rfc5766::Attribute::ReservationToken(x) => rfc5766_reservation_token(x, tid, enc, v) } }
        proof fn rewire(t: u16, v: Seq<u8>, tid: TransactionId, enc: Option<Seq<u8>>) { if t == 0x000c { rfc5766_channel_number_wire(t, v, tid, enc) } else if t == 0x000d { rfc5766_lifetime_wire(t, v, tid, enc) } else if t == 0x0012 { rfc5766_xor_peer_address_wire(t, v, tid, enc) } else if t == 0x0013 { rfc5766_data_wire(t, v, tid, enc) } else if t == 0x0016 { rfc5766_xor_relay_address_wire(t, v, tid, enc) } else if t == 0x0018 { rfc5766_even_port_wire(t, v, tid, enc) } else if t == 0x0019 { rfc5766_requested_transport_wire(t, v, tid, enc) } else if t == 0x001a { rfc5766_dont_fragment_wire(t, v, tid, enc) } else if t == 0x0022 { rfc5766_reservation_token_wire(t, v, tid, enc) } }
    }
    proof fn rfc5245_priority(x: Priority, tid: TransactionId, enc: Option<Seq<u8>>, v: Seq<u8>)
        requires crate::rfc5245::Attribute::Priority(x).legal(), crate::rfc5245::Attribute::Priority(x).before_spec(tid) matches Some(y) && <crate::rfc5245::AttributeEncoder as Encode>::enc(y) == Some(v), v.len() <= 0xFFFF
        ensures
            <crate::rfc5245::AttributeDecoder as TryTaggedDecode>::knows(AttributeType(crate::rfc5245::Attribute::Priority(x).type_of())),
            crate::rfc5245::Attribute::Priority(x).before_spec(tid)->0.type_of() == crate::rfc5245::Attribute::Priority(x).type_of(),
            <crate::rfc5245::Attribute as Rfc>::clean(crate::rfc5245::Attribute::Priority(x).type_of(), v),
            match whole(<crate::rfc5245::AttributeDecoder as TryTaggedDecode>::tagged_run0(AttributeType(crate::rfc5245::Attribute::Priority(x).type_of()), v)) {
                None => false,
                Some(z) => match z.after_spec(tid, enc) { Some(w) => crate::rfc5245::Attribute::Priority(x).same(w) && !crate::rfc5245::Attribute::Priority(x).refused(enc), None => crate::rfc5245::Attribute::Priority(x).refused(enc) },
            },
    { x.round(tid, enc, v); }
    proof fn rfc5245_priority_wire(t: u16, v: Seq<u8>, tid: TransactionId, enc: Option<Seq<u8>>)
        requires t == 0x0024, v.len() <= 0xFFFF
        ensures match whole(<crate::rfc5245::AttributeDecoder as TryTaggedDecode>::tagged_run0(AttributeType(t), v)) {
            None => true,
            Some(x) => x.type_of() == t && match x.after_spec(tid, enc) {
                None => x.refused(enc),
                Some(z) => !x.refused(enc) && z.legal() && z.type_of() == t && (z.before_spec(tid) matches Some(y) && y.type_of() == t && (<crate::rfc5245::Attribute as Rfc>::clean(t, v) ==> <crate::rfc5245::AttributeEncoder as Encode>::enc(y) == Some(v))),
            },
        }
    { Priority::rewire(t, v, tid, enc); }
    proof fn rfc5245_use_candidate(x: UseCandidate, tid: TransactionId, enc: Option<Seq<u8>>, v: Seq<u8>)
        requires crate::rfc5245::Attribute::UseCandidate(x).legal(), crate::rfc5245::Attribute::UseCandidate(x).before_spec(tid) matches Some(y) && <crate::rfc5245::AttributeEncoder as Encode>::enc(y) == Some(v), v.len() <= 0xFFFF
        ensures
            <crate::rfc5245::AttributeDecoder as TryTaggedDecode>::knows(AttributeType(crate::rfc5245::Attribute::UseCandidate(x).type_of())),
            crate::rfc5245::Attribute::UseCandidate(x).before_spec(tid)->0.type_of() == crate::rfc5245::Attribute::UseCandidate(x).type_of(),
            <crate::rfc5245::Attribute as Rfc>::clean(crate::rfc5245::Attribute::UseCandidate(x).type_of(), v),
            match whole(<crate::rfc5245::AttributeDecoder as TryTaggedDecode>::tagged_run0(AttributeType(crate::rfc5245::Attribute::UseCandidate(x).type_of()), v)) {
                None => false,
                Some(z) => match z.after_spec(tid, enc) { Some(w) => crate::rfc5245::Attribute::UseCandidate(x).same(w) && !crate::rfc5245::Attribute::UseCandidate(x).refused(enc), None => crate::rfc5245::Attribute::UseCandidate(x).refused(enc) },
            },
    { x.round(tid, enc, v); }
    proof fn rfc5245_use_candidate_wire(t: u16, v: Seq<u8>, tid: TransactionId, enc: Option<Seq<u8>>)
        requires t == 0x0025, v.len() <= 0xFFFF
        ensures match whole(<crate::rfc5245::AttributeDecoder as TryTaggedDecode>::tagged_run0(AttributeType(t), v)) {
            None => true,
            Some(x) => x.type_of() == t && match x.after_spec(tid, enc) {
                None => x.refused(enc),
                Some(z) => !x.refused(enc) && z.legal() && z.type_of() == t && (z.before_spec(tid) matches Some(y) && y.type_of() == t && (<crate::rfc5245::Attribute as Rfc>::clean(t, v) ==> <crate::rfc5245::AttributeEncoder as Encode>::enc(y) == Some(v))),
            },
        }
    { UseCandidate::rewire(t, v, tid, enc); }
    proof fn rfc5245_ice_controlled(x: IceControlled, tid: TransactionId, enc: Option<Seq<u8>>, v: Seq<u8>)
        requires crate::rfc5245::Attribute::IceControlled(x).legal(), crate::rfc5245::Attribute::IceControlled(x).before_spec(tid) matches Some(y) && <crate::rfc5245::AttributeEncoder as Encode>::enc(y) == Some(v), v.len() <= 0xFFFF
        ensures
            <crate::rfc5245::AttributeDecoder as TryTaggedDecode>::knows(AttributeType(crate::rfc5245::Attribute::IceControlled(x).type_of())),
            crate::rfc5245::Attribute::IceControlled(x).before_spec(tid)->0.type_of() == crate::rfc5245::Attribute::IceControlled(x).type_of(),
            <crate::rfc5245::Attribute as Rfc>::clean(crate::rfc5245::Attribute::IceControlled(x).type_of(), v),
            match whole(<crate::rfc5245::AttributeDecoder as TryTaggedDecode>::tagged_run0(AttributeType(crate::rfc5245::Attribute::IceControlled(x).type_of()), v)) {
                None => false,
                Some(z) => match z.after_spec(tid, enc) { Some(w) => crate::rfc5245::Attribute::IceControlled(x).same(w) && !crate::rfc5245::Attribute::IceControlled(x).refused(enc), None => crate::rfc5245::Attribute::IceControlled(x).refused(enc) },
            },
    { x.round(tid, enc, v); }
    proof fn rfc5245_ice_controlled_wire(t: u16, v: Seq<u8>, tid: TransactionId, enc: Option<Seq<u8>>)
        requires t == 0x8029, v.len() <= 0xFFFF
        ensures match whole(<crate::rfc5245::AttributeDecoder as TryTaggedDecode>::tagged_run0(AttributeType(t), v)) {
            None => true,
            Some(x) => x.type_of() == t && match x.after_spec(tid, enc) {
                None => x.refused(enc),
                Some(z) => !x.refused(enc) && z.legal() && z.type_of() == t && (z.before_spec(tid) matches Some(y) && y.type_of() == t && (<crate::rfc5245::Attribute as Rfc>::clean(t, v) ==> <crate::rfc5245::AttributeEncoder as Encode>::enc(y) == Some(v))),
            },
        }
    { IceControlled::rewire(t, v, tid, enc); }
    proof fn rfc5245_ice_controlling(x: IceControlling, tid: TransactionId, enc: Option<Seq<u8>>, v: Seq<u8>)
        requires crate::rfc5245::Attribute::IceControlling(x).legal(), crate::rfc5245::Attribute::IceControlling(x).before_spec(tid) matches Some(y) && <crate::rfc5245::AttributeEncoder as Encode>::enc(y) == Some(v), v.len() <= 0xFFFF
        ensures
            <crate::rfc5245::AttributeDecoder as TryTaggedDecode>::knows(AttributeType(crate::rfc5245::Attribute::IceControlling(x).type_of())),
            crate::rfc5245::Attribute::IceControlling(x).before_spec(tid)->0.type_of() == crate::rfc5245::Attribute::IceControlling(x).type_of(),
            <crate::rfc5245::Attribute as Rfc>::clean(crate::rfc5245::Attribute::IceControlling(x).type_of(), v),
            match whole(<crate::rfc5245::AttributeDecoder as TryTaggedDecode>::tagged_run0(AttributeType(crate::rfc5245::Attribute::IceControlling(x).type_of()), v)) {
                None => false,
                Some(z) => match z.after_spec(tid, enc) { Some(w) => crate::rfc5245::Attribute::IceControlling(x).same(w) && !crate::rfc5245::Attribute::IceControlling(x).refused(enc), None => crate::rfc5245::Attribute::IceControlling(x).refused(enc) },
            },
    { x.round(tid, enc, v); }
    proof fn rfc5245_ice_controlling_wire(t: u16, v: Seq<u8>, tid: TransactionId, enc: Option<Seq<u8>>)
        requires t == 0x802a, v.len() <= 0xFFFF
        ensures match whole(<crate::rfc5245::AttributeDecoder as TryTaggedDecode>::tagged_run0(AttributeType(t), v)) {
            None => true,
            Some(x) => x.type_of() == t && match x.after_spec(tid, enc) {
                None => x.refused(enc),
                Some(z) => !x.refused(enc) && z.legal() && z.type_of() == t && (z.before_spec(tid) matches Some(y) && y.type_of() == t && (<crate::rfc5245::Attribute as Rfc>::clean(t, v) ==> <crate::rfc5245::AttributeEncoder as Encode>::enc(y) == Some(v))),
            },
        }
    { IceControlling::rewire(t, v, tid, enc); }
    impl Rfc for crate::rfc5245::Attribute {
        open spec fn legal(&self) -> bool { match *self { crate::rfc5245::Attribute::Priority(x) => x.legal(), crate::rfc5245::Attribute::UseCandidate(x) => x.legal(), crate::rfc5245::Attribute::IceControlled(x) => x.legal(), crate::rfc5245::Attribute::IceControlling(x) => x.legal() } }
        open spec fn same(&self, o: Self) -> bool { match (*self, o) { (crate::rfc5245::Attribute::Priority(x), crate::rfc5245::Attribute::Priority(y)) => x.same(y), (crate::rfc5245::Attribute::UseCandidate(x), crate::rfc5245::Attribute::UseCandidate(y)) => x.same(y), (crate::rfc5245::Attribute::IceControlled(x), crate::rfc5245::Attribute::IceControlled(y)) => x.same(y), (crate::rfc5245::Attribute::IceControlling(x), crate::rfc5245::Attribute::IceControlling(y)) => x.same(y), _ => false } }
        open spec fn clean(t: u16, v: Seq<u8>) -> bool { if t == 0x0024 { Priority::clean(t, v) } else if t == 0x0025 { UseCandidate::clean(t, v) } else if t == 0x8029 { IceControlled::clean(t, v) } else if t == 0x802a { IceControlling::clean(t, v) } else { true } }
        open spec fn refused(&self, enc: Option<Seq<u8>>) -> bool { match *self { crate::rfc5245::Attribute::Priority(x) => x.refused(enc), crate::rfc5245::Attribute::UseCandidate(x) => x.refused(enc), crate::rfc5245::Attribute::IceControlled(x) => x.refused(enc), crate::rfc5245::Attribute::IceControlling(x) => x.refused(enc) } }
        proof fn round(&self, tid: TransactionId, enc: Option<Seq<u8>>, v: Seq<u8>) { match *self { crate::rfc5245::Attribute::Priority(x) => rfc5245_priority(x, tid, enc, v), crate::rfc5245::Attribute::UseCandidate(x) => rfc5245_use_candidate(x, tid, enc, v), crate::rfc5245::Attribute::IceControlled(x) => rfc5245_ice_controlled(x, tid, enc, v), crate::rfc5245::Attribute::IceControlling(x) => rfc5245_ice_controlling(x, tid, enc, v) } }
        proof fn rewire(t: u16, v: Seq<u8>, tid: TransactionId, enc: Option<Seq<u8>>) { if t == 0x0024 { rfc5245_priority_wire(t, v, tid, enc) } else if t == 0x0025 { rfc5245_use_candidate_wire(t, v, tid, enc) } else if t == 0x8029 { rfc5245_ice_controlled_wire(t, v, tid, enc) } else if t == 0x802a { rfc5245_ice_controlling_wire(t, v, tid, enc) } }
    }
    proof fn rfc5780_change_request(x: ChangeRequest, tid: TransactionId, enc: Option<Seq<u8>>, v: Seq<u8>)
        requires crate::rfc5780::Attribute::ChangeRequest(x).legal(), crate::rfc5780::Attribute::ChangeRequest(x).before_spec(tid) matches Some(y) && <crate::rfc5780::AttributeEncoder as Encode>::enc(y) == Some(v), v.len() <= 0xFFFF
        ensures
            <crate::rfc5780::AttributeDecoder as TryTaggedDecode>::knows(AttributeType(crate::rfc5780::Attribute::ChangeRequest(x).type_of())),
            crate::rfc5780::Attribute::ChangeRequest(x).before_spec(tid)->0.type_of() == crate::rfc5780::Attribute::ChangeRequest(x).type_of(),
            <crate::rfc5780::Attribute as Rfc>::clean(crate::rfc5780::Attribute::ChangeRequest(x).type_of(), v),
            match whole(<crate::rfc5780::AttributeDecoder as TryTaggedDecode>::tagged_run0(AttributeType(crate::rfc5780::Attribute::ChangeRequest(x).type_of()), v)) {
                None => false,
                Some(z) => match z.after_spec(tid, enc) { Some(w) => crate::rfc5780::Attribute::ChangeRequest(x).same(w) && !crate::rfc5780::Attribute::ChangeRequest(x).refused(enc), None => crate::rfc5780::Attribute::ChangeRequest(x).refused(enc) },
            },
    { x.round(tid, enc, v); }
    proof fn rfc5780_change_request_wire(t: u16, v: Seq<u8>, tid: TransactionId, enc: Option<Seq<u8>>)
        requires t == 0x0003, v.len() <= 0xFFFF
        ensures match whole(<crate::rfc5780::AttributeDecoder as TryTaggedDecode>::tagged_run0(AttributeType(t), v)) {
            None => true,
            Some(x) => x.type_of() == t && match x.after_spec(tid, enc) {
                None => x.refused(enc),
                Some(z) => !x.refused(enc) && z.legal() && z.type_of() == t && (z.before_spec(tid) matches Some(y) && y.type_of() == t && (<crate::rfc5780::Attribute as Rfc>::clean(t, v) ==> <crate::rfc5780::AttributeEncoder as Encode>::enc(y) == Some(v))),
            },
        }
    { ChangeRequest::rewire(t, v, tid, enc); }
    proof fn rfc5780_response_origin(x: ResponseOrigin, tid: TransactionId, enc: Option<Seq<u8>>, v: Seq<u8>)
        requires crate::rfc5780::Attribute::ResponseOrigin(x).legal(), crate::rfc5780::Attribute::ResponseOrigin(x).before_spec(tid) matches Some(y) && <crate::rfc5780::AttributeEncoder as Encode>::enc(y) == Some(v), v.len() <= 0xFFFF
        ensures
            <crate::rfc5780::AttributeDecoder as TryTaggedDecode>::knows(AttributeType(crate::rfc5780::Attribute::ResponseOrigin(x).type_of())),
            crate::rfc5780::Attribute::ResponseOrigin(x).before_spec(tid)->0.type_of() == crate::rfc5780::Attribute::ResponseOrigin(x).type_of(),
            <crate::rfc5780::Attribute as Rfc>::clean(crate::rfc5780::Attribute::ResponseOrigin(x).type_of(), v),
            match whole(<crate::rfc5780::AttributeDecoder as TryTaggedDecode>::tagged_run0(AttributeType(crate::rfc5780::Attribute::ResponseOrigin(x).type_of()), v)) {
                None => false,
                Some(z) => match z.after_spec(tid, enc) { Some(w) => crate::rfc5780::Attribute::ResponseOrigin(x).same(w) && !crate::rfc5780::Attribute::ResponseOrigin(x).refused(enc), None => crate::rfc5780::Attribute::ResponseOrigin(x).refused(enc) },
            },
    { x.round(tid, enc, v); }
    proof fn rfc5780_response_origin_wire(t: u16, v: Seq<u8>, tid: TransactionId, enc: Option<Seq<u8>>)
        requires t == 0x802b, v.len() <= 0xFFFF
        ensures match whole(<crate::rfc5780::AttributeDecoder as TryTaggedDecode>::tagged_run0(AttributeType(t), v)) {
            None => true,
            Some(x) => x.type_of() == t && match x.after_spec(tid, enc) {
                None => x.refused(enc),
                Some(z) => !x.refused(enc) && z.legal() && z.type_of() == t && (z.before_spec(tid) matches Some(y) && y.type_of() == t && (<crate::rfc5780::Attribute as Rfc>::clean(t, v) ==> <crate::rfc5780::AttributeEncoder as Encode>::enc(y) == Some(v))),
            },
        }
    { ResponseOrigin::rewire(t, v, tid, enc); }
    proof fn rfc5780_response_port(x: ResponsePort, tid: TransactionId, enc: Option<Seq<u8>>, v: Seq<u8>)
        requires crate::rfc5780::Attribute::ResponsePort(x).legal(), crate::rfc5780::Attribute::ResponsePort(x).before_spec(tid) matches Some(y) && <crate::rfc5780::AttributeEncoder as Encode>::enc(y) == Some(v), v.len() <= 0xFFFF
        ensures
            <crate::rfc5780::AttributeDecoder as TryTaggedDecode>::knows(AttributeType(crate::rfc5780::Attribute::ResponsePort(x).type_of())),
            crate::rfc5780::Attribute::ResponsePort(x).before_spec(tid)->0.type_of() == crate::rfc5780::Attribute::ResponsePort(x).type_of(),
            <crate::rfc5780::Attribute as Rfc>::clean(crate::rfc5780::Attribute::ResponsePort(x).type_of(), v),
            match whole(<crate::rfc5780::AttributeDecoder as TryTaggedDecode>::tagged_run0(AttributeType(crate::rfc5780::Attribute::ResponsePort(x).type_of()), v)) {
                None => false,
                Some(z) => match z.after_spec(tid, enc) { Some(w) => crate::rfc5780::Attribute::ResponsePort(x).same(w) && !crate::rfc5780::Attribute::ResponsePort(x).refused(enc), None => crate::rfc5780::Attribute::ResponsePort(x).refused(enc) },
            },
    { x.round(tid, enc, v); }
    proof fn rfc5780_response_port_wire(t: u16, v: Seq<u8>, tid: TransactionId, enc: Option<Seq<u8>>)
        requires t == 0x0027, v.len() <= 0xFFFF
        ensures match whole(<crate::rfc5780::AttributeDecoder as TryTaggedDecode>::tagged_run0(AttributeType(t), v)) {
            None => true,
            Some(x) => x.type_of() == t && match x.after_spec(tid, enc) {
                None => x.refused(enc),
                Some(z) => !x.refused(enc) && z.legal() && z.type_of() == t && (z.before_spec(tid) matches Some(y) && y.type_of() == t && (<crate::rfc5780::Attribute as Rfc>::clean(t, v) ==> <crate::rfc5780::AttributeEncoder as Encode>::enc(y) == Some(v))),
            },
        }
    { ResponsePort::rewire(t, v, tid, enc); }
    proof fn rfc5780_other_address(x: OtherAddress, tid: TransactionId, enc: Option<Seq<u8>>, v: Seq<u8>)
        requires crate::rfc5780::Attribute::OtherAddress(x).legal(), crate::rfc5780::Attribute::OtherAddress(x).before_spec(tid) matches Some(y) && <crate::rfc5780::AttributeEncoder as Encode>::enc(y) == Some(v), v.len() <= 0xFFFF
        ensures
            <crate::rfc5780::AttributeDecoder as TryTaggedDecode>::knows(AttributeType(crate::rfc5780::Attribute::OtherAddress(x).type_of())),
            crate::rfc5780::Attribute::OtherAddress(x).before_spec(tid)->0.type_of() == crate::rfc5780::Attribute::OtherAddress(x).type_of(),
            <crate::rfc5780::Attribute as Rfc>::clean(crate::rfc5780::Attribute::OtherAddress(x).type_of(), v),
            match whole(<crate::rfc5780::AttributeDecoder as TryTaggedDecode>::tagged_run0(AttributeType(crate::rfc5780::Attribute::OtherAddress(x).type_of()), v)) {
                None => false,
                Some(z) => match z.after_spec(tid, enc) { Some(w) => crate::rfc5780::Attribute::OtherAddress(x).same(w) && !crate::rfc5780::Attribute::OtherAddress(x).refused(enc), None => crate::rfc5780::Attribute::OtherAddress(x).refused(enc) },
            },
    { x.round(tid, enc, v); }
    proof fn rfc5780_other_address_wire(t: u16, v: Seq<u8>, tid: TransactionId, enc: Option<Seq<u8>>)
        requires t == 0x802c, v.len() <= 0xFFFF
        ensures match whole(<crate::rfc5780::AttributeDecoder as TryTaggedDecode>::tagged_run0(AttributeType(t), v)) {
            None => true,
            Some(x) => x.type_of() == t && match x.after_spec(tid, enc) {
                None => x.refused(enc),
                Some(z) => !x.refused(enc) && z.legal() && z.type_of() == t && (z.before_spec(tid) matches Some(y) && y.type_of() == t && (<crate::rfc5780::Attribute as Rfc>::clean(t, v) ==> <crate::rfc5780::AttributeEncoder as Encode>::enc(y) == Some(v))),
            },
        }
    { OtherAddress::rewire(t, v, tid, enc); }
    impl Rfc for crate::rfc5780::Attribute {
        open spec fn legal(&self) -> bool { match *self { crate::rfc5780::Attribute::ChangeRequest(x) => x.legal(), crate::rfc5780::Attribute::ResponseOrigin(x) => x.legal(), crate::rfc5780::Attribute::ResponsePort(x) => x.legal(), crate::rfc5780::Attribute::OtherAddress(x) => x.legal() } }
        open spec fn same(&self, o: Self) -> bool { match (*self, o) { (crate::rfc5780::Attribute::ChangeRequest(x), crate::rfc5780::Attribute::ChangeRequest(y)) => x.same(y), (crate::rfc5780::Attribute::ResponseOrigin(x), crate::rfc5780::Attribute::ResponseOrigin(y)) => x.same(y), (crate::rfc5780::Attribute::ResponsePort(x), crate::rfc5780::Attribute::ResponsePort(y)) => x.same(y), (crate::rfc5780::Attribute::OtherAddress(x), crate::rfc5780::Attribute::OtherAddress(y)) => x.same(y), _ => false } }
        open spec fn clean(t: u16, v: Seq<u8>) -> bool { if t == 0x0003 { ChangeRequest::clean(t, v) } else if t == 0x802b { ResponseOrigin::clean(t, v) } else if t == 0x0027 { ResponsePort::clean(t, v) } else if t == 0x802c { OtherAddress::clean(t, v) } else { true } }
        open spec fn refused(&self, enc: Option<Seq<u8>>) -> bool { match *self { crate::rfc5780::Attribute::ChangeRequest(x) => x.refused(enc), crate::rfc5780::Attribute::ResponseOrigin(x) => x.refused(enc), crate::rfc5780::Attribute::ResponsePort(x) => x.refused(enc), crate::rfc5780::Attribute::OtherAddress(x) => x.refused(enc) } }
        proof fn round(&self, tid: TransactionId, enc: Option<Seq<u8>>, v: Seq<u8>) { match *self { crate::rfc5780::Attribute::ChangeRequest(x) => rfc5780_change_request(x, tid, enc, v), crate::rfc5780::Attribute::ResponseOrigin(x) => rfc5780_response_origin(x, tid, enc, v), crate::rfc5780::Attribute::ResponsePort(x) => rfc5780_response_port(x, tid, enc, v), crate::rfc5780::Attribute::OtherAddress(x) => rfc5780_other_address(x, tid, enc, v) } }
        proof fn rewire(t: u16, v: Seq<u8>, tid: TransactionId, enc: Option<Seq<u8>>) { if t == 0x0003 { rfc5780_change_request_wire(t, v, tid, enc) } else if t == 0x802b { rfc5780_response_origin_wire(t, v, tid, enc) } else if t == 0x0027 { rfc5780_response_port_wire(t, v, tid, enc) } else if t == 0x802c { rfc5780_other_address_wire(t, v, tid, enc) } }
    }
}
