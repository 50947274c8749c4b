/// C16: attributes are dispatched by type code; unknown ones are kept verbatim.
pub mod c16 {
    use super::*;
    use super::c05::*;
    use super::c40::Rfc;
    use crate::convert::TryAsRef;
    use crate::seqs::*;
    use crate::spec::*;
    use crate::bytecodec::*;
    use crate::bytecodec::combinator::*;
    use crate::message::*;
    use crate::attribute::*;
    use crate::{rfc5245, rfc5389, rfc5766, rfc5780};
    use crate::rfc5245::attributes::*;
    use crate::rfc5389::attributes::*;
    use crate::rfc5766::attributes::*;
    use crate::rfc5780::attributes::*;
    use crate::rfc8016::attributes::*;
    use crate::rfc8656::attributes::*;
    use crate::TransactionId;

    // ---- the type codes of the RFCs: which attribute a code stands for in each set
    pub proof fn rfc5389_set(t: u16, v: Seq<u8>)
        ensures
            knows::<rfc5389::Attribute>(t) <==> (t == 0x0001 || t == 0x0006 || t == 0x0008 || t == 0x0009 || t == 0x000a || t == 0x0014 || t == 0x0015 || t == 0x0020 || t == 0x8020 || t == 0x8022 || t == 0x8023 || t == 0x8028),
            t == 0x0001 ==> typed::<rfc5389::Attribute>(t, v) == (match whole(<MappedAddressDecoder as Decode>::run0(v)) { Some(x) => Some(rfc5389::Attribute::MappedAddress(x)), None => None }),
            t == 0x0006 ==> typed::<rfc5389::Attribute>(t, v) == (match whole(<UsernameDecoder as Decode>::run0(v)) { Some(x) => Some(rfc5389::Attribute::Username(x)), None => None }),
            t == 0x0008 ==> typed::<rfc5389::Attribute>(t, v) == (match whole(<MessageIntegrityDecoder as Decode>::run0(v)) { Some(x) => Some(rfc5389::Attribute::MessageIntegrity(x)), None => None }),
            t == 0x0009 ==> typed::<rfc5389::Attribute>(t, v) == (match whole(<ErrorCodeDecoder as Decode>::run0(v)) { Some(x) => Some(rfc5389::Attribute::ErrorCode(x)), None => None }),
            t == 0x000a ==> typed::<rfc5389::Attribute>(t, v) == (match whole(<UnknownAttributesDecoder as Decode>::run0(v)) { Some(x) => Some(rfc5389::Attribute::UnknownAttributes(x)), None => None }),
            t == 0x0014 ==> typed::<rfc5389::Attribute>(t, v) == (match whole(<RealmDecoder as Decode>::run0(v)) { Some(x) => Some(rfc5389::Attribute::Realm(x)), None => None }),
            t == 0x0015 ==> typed::<rfc5389::Attribute>(t, v) == (match whole(<NonceDecoder as Decode>::run0(v)) { Some(x) => Some(rfc5389::Attribute::Nonce(x)), None => None }),
            t == 0x0020 ==> typed::<rfc5389::Attribute>(t, v) == (match whole(<XorMappedAddressDecoder as Decode>::run0(v)) { Some(x) => Some(rfc5389::Attribute::XorMappedAddress(x)), None => None }),
            t == 0x8020 ==> typed::<rfc5389::Attribute>(t, v) == (match whole(<XorMappedAddress2Decoder as Decode>::run0(v)) { Some(x) => Some(rfc5389::Attribute::XorMappedAddress2(x)), None => None }),
            t == 0x8022 ==> typed::<rfc5389::Attribute>(t, v) == (match whole(<SoftwareDecoder as Decode>::run0(v)) { Some(x) => Some(rfc5389::Attribute::Software(x)), None => None }),
            t == 0x8023 ==> typed::<rfc5389::Attribute>(t, v) == (match whole(<AlternateServerDecoder as Decode>::run0(v)) { Some(x) => Some(rfc5389::Attribute::AlternateServer(x)), None => None }),
            t == 0x8028 ==> typed::<rfc5389::Attribute>(t, v) == (match whole(<FingerprintDecoder as Decode>::run0(v)) { Some(x) => Some(rfc5389::Attribute::Fingerprint(x)), None => None }),
    { }
    pub proof fn rfc5766_set(t: u16, v: Seq<u8>)
        ensures
            knows::<rfc5766::Attribute>(t) <==> (t == 0x000c || t == 0x000d || t == 0x0012 || t == 0x0013 || t == 0x0016 || t == 0x0018 || t == 0x0019 || t == 0x001a || t == 0x0022),
            t == 0x000c ==> typed::<rfc5766::Attribute>(t, v) == (match whole(<ChannelNumberDecoder as Decode>::run0(v)) { Some(x) => Some(rfc5766::Attribute::ChannelNumber(x)), None => None }),
            t == 0x000d ==> typed::<rfc5766::Attribute>(t, v) == (match whole(<LifetimeDecoder as Decode>::run0(v)) { Some(x) => Some(rfc5766::Attribute::Lifetime(x)), None => None }),
            t == 0x0012 ==> typed::<rfc5766::Attribute>(t, v) == (match whole(<XorPeerAddressDecoder as Decode>::run0(v)) { Some(x) => Some(rfc5766::Attribute::XorPeerAddress(x)), None => None }),
            t == 0x0013 ==> typed::<rfc5766::Attribute>(t, v) == (match whole(<DataDecoder as Decode>::run0(v)) { Some(x) => Some(rfc5766::Attribute::Data(x)), None => None }),
            t == 0x0016 ==> typed::<rfc5766::Attribute>(t, v) == (match whole(<XorRelayAddressDecoder as Decode>::run0(v)) { Some(x) => Some(rfc5766::Attribute::XorRelayAddress(x)), None => None }),
            t == 0x0018 ==> typed::<rfc5766::Attribute>(t, v) == (match whole(<EvenPortDecoder as Decode>::run0(v)) { Some(x) => Some(rfc5766::Attribute::EvenPort(x)), None => None }),
            t == 0x0019 ==> typed::<rfc5766::Attribute>(t, v) == (match whole(<RequestedTransportDecoder as Decode>::run0(v)) { Some(x) => Some(rfc5766::Attribute::RequestedTransport(x)), None => None }),
            t == 0x001a ==> typed::<rfc5766::Attribute>(t, v) == (match whole(<DontFragmentDecoder as Decode>::run0(v)) { Some(x) => Some(rfc5766::Attribute::DontFragment(x)), None => None }),
            t == 0x0022 ==> typed::<rfc5766::Attribute>(t, v) == (match whole(<ReservationTokenDecoder as Decode>::run0(v)) { Some(x) => Some(rfc5766::Attribute::ReservationToken(x)), None => None }),
    { }
    pub proof fn rfc5245_set(t: u16, v: Seq<u8>)
        ensures
            knows::<rfc5245::Attribute>(t) <==> (t == 0x0024 || t == 0x0025 || t == 0x8029 || t == 0x802a),
            t == 0x0024 ==> typed::<rfc5245::Attribute>(t, v) == (match whole(<PriorityDecoder as Decode>::run0(v)) { Some(x) => Some(rfc5245::Attribute::Priority(x)), None => None }),
            t == 0x0025 ==> typed::<rfc5245::Attribute>(t, v) == (match whole(<UseCandidateDecoder as Decode>::run0(v)) { Some(x) => Some(rfc5245::Attribute::UseCandidate(x)), None => None }),
            t == 0x8029 ==> typed::<rfc5245::Attribute>(t, v) == (match whole(<IceControlledDecoder as Decode>::run0(v)) { Some(x) => Some(rfc5245::Attribute::IceControlled(x)), None => None }),
            t == 0x802a ==> typed::<rfc5245::Attribute>(t, v) == (match whole(<IceControllingDecoder as Decode>::run0(v)) { Some(x) => Some(rfc5245::Attribute::IceControlling(x)), None => None }),
    { }
    pub proof fn rfc5780_set(t: u16, v: Seq<u8>)
        ensures
            knows::<rfc5780::Attribute>(t) <==> (t == 0x0003 || t == 0x802b || t == 0x0027 || t == 0x802c),
            t == 0x0003 ==> typed::<rfc5780::Attribute>(t, v) == (match whole(<ChangeRequestDecoder as Decode>::run0(v)) { Some(x) => Some(rfc5780::Attribute::ChangeRequest(x)), None => None }),
            t == 0x802b ==> typed::<rfc5780::Attribute>(t, v) == (match whole(<ResponseOriginDecoder as Decode>::run0(v)) { Some(x) => Some(rfc5780::Attribute::ResponseOrigin(x)), None => None }),
            t == 0x0027 ==> typed::<rfc5780::Attribute>(t, v) == (match whole(<ResponsePortDecoder as Decode>::run0(v)) { Some(x) => Some(rfc5780::Attribute::ResponsePort(x)), None => None }),
            t == 0x802c ==> typed::<rfc5780::Attribute>(t, v) == (match whole(<OtherAddressDecoder as Decode>::run0(v)) { Some(x) => Some(rfc5780::Attribute::OtherAddress(x)), None => None }),
    { }
    /// each attribute type as a set of its own
    pub proof fn alone(t: u16)
        ensures
            knows::<MappedAddress>(t) <==> t == 0x0001,
            knows::<Username>(t) <==> t == 0x0006,
            knows::<MessageIntegrity>(t) <==> t == 0x0008,
            knows::<ErrorCode>(t) <==> t == 0x0009,
            knows::<UnknownAttributes>(t) <==> t == 0x000a,
            knows::<Realm>(t) <==> t == 0x0014,
            knows::<Nonce>(t) <==> t == 0x0015,
            knows::<XorMappedAddress>(t) <==> t == 0x0020,
            knows::<XorMappedAddress2>(t) <==> t == 0x8020,
            knows::<Software>(t) <==> t == 0x8022,
            knows::<AlternateServer>(t) <==> t == 0x8023,
            knows::<Fingerprint>(t) <==> t == 0x8028,
            knows::<ChannelNumber>(t) <==> t == 0x000c,
            knows::<Lifetime>(t) <==> t == 0x000d,
            knows::<XorPeerAddress>(t) <==> t == 0x0012,
            knows::<Data>(t) <==> t == 0x0013,
            knows::<XorRelayAddress>(t) <==> t == 0x0016,
            knows::<EvenPort>(t) <==> t == 0x0018,
            knows::<RequestedTransport>(t) <==> t == 0x0019,
            knows::<DontFragment>(t) <==> t == 0x001a,
            knows::<ReservationToken>(t) <==> t == 0x0022,
            knows::<Priority>(t) <==> t == 0x0024,
            knows::<UseCandidate>(t) <==> t == 0x0025,
            knows::<IceControlled>(t) <==> t == 0x8029,
            knows::<IceControlling>(t) <==> t == 0x802a,
            knows::<ChangeRequest>(t) <==> t == 0x0003,
            knows::<ResponseOrigin>(t) <==> t == 0x802b,
            knows::<ResponsePort>(t) <==> t == 0x0027,
            knows::<OtherAddress>(t) <==> t == 0x802c,
            knows::<MobilityTicket>(t) <==> t == 0x8030,
            knows::<RequestedAddressFamily>(t) <==> t == 0x0017,
            knows::<AdditionalAddressFamily>(t) <==> t == 0x8000,
    { }

    // ---- lookup by type
    /// the first attribute of the wanted type, in message order
    pub open spec fn found<A: TryAsRef<T>, T>(s: Seq<A>, r: Option<T>) -> bool {
        match r {
            Some(x) => exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).as_spec() == Some(x) && forall|j: int| 0 <= j < i ==> (#[trigger] s[j]).as_spec() is None,
            None => forall|j: int| 0 <= j < s.len() ==> (#[trigger] s[j]).as_spec() is None,
        }
    }
    pub proof fn first<A: TryAsRef<T>, T>(s: Seq<A>)
        ensures found(s, first_of::<A, T>(s))
        decreases s.len()
    {
        if s.len() > 0 {
            let d = s.drop_first();
            first::<A, T>(d);
            if s[0].as_spec() is None {
                assert forall|j: int| 0 < j < s.len() implies #[trigger] s[j] == d[j - 1] by { }
                if first_of::<A, T>(d) is Some {
                    let i = choose|i: int| 0 <= i < d.len() && (#[trigger] d[i]).as_spec() == first_of::<A, T>(d) && forall|j: int| 0 <= j < i ==> (#[trigger] d[j]).as_spec() is None;
                    assert(s[i + 1].as_spec() == first_of::<A, T>(d));
                    assert forall|j: int| 0 <= j < i + 1 implies (#[trigger] s[j]).as_spec() is None by { if j > 0 { assert(s[j] == d[j - 1]); } }
                } else {
                    assert forall|j: int| 0 <= j < s.len() implies (#[trigger] s[j]).as_spec() is None by { if j > 0 { assert(s[j] == d[j - 1]); } }
                }
            } else {
                assert(s[0].as_spec() == first_of::<A, T>(s));
            }
        }
    }
    pub open spec fn opt<T>(r: Option<&T>) -> Option<T> { match r { Some(x) => Some(*x), None => None } }
    pub fn lookup<A: Attribute + TryAsRef<T>, T>(m: &Message<A>) -> (r: Option<&T>) where T: Attribute
        ensures found::<A, T>(known_of(m.attributes@), opt(r))
    {
        proof { first::<A, T>(known_of(m.attributes@)); }
        m.get_attribute::<T>()
    }
    /// the wanted type is the one whose code the attribute carries
    pub proof fn wanted(t: u16)
        ensures
            forall|a: rfc5389::Attribute| #![trigger <rfc5389::Attribute as TryAsRef<MappedAddress>>::as_spec(&a)] match <rfc5389::Attribute as TryAsRef<MappedAddress>>::as_spec(&a) { Some(x) => a == rfc5389::Attribute::MappedAddress(x) && a.type_of() == 0x0001, None => a.type_of() != 0x0001 },
            forall|a: rfc5389::Attribute| #![trigger <rfc5389::Attribute as TryAsRef<Username>>::as_spec(&a)] match <rfc5389::Attribute as TryAsRef<Username>>::as_spec(&a) { Some(x) => a == rfc5389::Attribute::Username(x) && a.type_of() == 0x0006, None => a.type_of() != 0x0006 },
            forall|a: rfc5389::Attribute| #![trigger <rfc5389::Attribute as TryAsRef<MessageIntegrity>>::as_spec(&a)] match <rfc5389::Attribute as TryAsRef<MessageIntegrity>>::as_spec(&a) { Some(x) => a == rfc5389::Attribute::MessageIntegrity(x) && a.type_of() == 0x0008, None => a.type_of() != 0x0008 },
            forall|a: rfc5389::Attribute| #![trigger <rfc5389::Attribute as TryAsRef<ErrorCode>>::as_spec(&a)] match <rfc5389::Attribute as TryAsRef<ErrorCode>>::as_spec(&a) { Some(x) => a == rfc5389::Attribute::ErrorCode(x) && a.type_of() == 0x0009, None => a.type_of() != 0x0009 },
            forall|a: rfc5389::Attribute| #![trigger <rfc5389::Attribute as TryAsRef<UnknownAttributes>>::as_spec(&a)] match <rfc5389::Attribute as TryAsRef<UnknownAttributes>>::as_spec(&a) { Some(x) => a == rfc5389::Attribute::UnknownAttributes(x) && a.type_of() == 0x000a, None => a.type_of() != 0x000a },
            forall|a: rfc5389::Attribute| #![trigger <rfc5389::Attribute as TryAsRef<Realm>>::as_spec(&a)] match <rfc5389::Attribute as TryAsRef<Realm>>::as_spec(&a) { Some(x) => a == rfc5389::Attribute::Realm(x) && a.type_of() == 0x0014, None => a.type_of() != 0x0014 },
            forall|a: rfc5389::Attribute| #![trigger <rfc5389::Attribute as TryAsRef<Nonce>>::as_spec(&a)] match <rfc5389::Attribute as TryAsRef<Nonce>>::as_spec(&a) { Some(x) => a == rfc5389::Attribute::Nonce(x) && a.type_of() == 0x0015, None => a.type_of() != 0x0015 },
            forall|a: rfc5389::Attribute| #![trigger <rfc5389::Attribute as TryAsRef<XorMappedAddress>>::as_spec(&a)] match <rfc5389::Attribute as TryAsRef<XorMappedAddress>>::as_spec(&a) { Some(x) => a == rfc5389::Attribute::XorMappedAddress(x) && a.type_of() == 0x0020, None => a.type_of() != 0x0020 },
            forall|a: rfc5389::Attribute| #![trigger <rfc5389::Attribute as TryAsRef<XorMappedAddress2>>::as_spec(&a)] match <rfc5389::Attribute as TryAsRef<XorMappedAddress2>>::as_spec(&a) { Some(x) => a == rfc5389::Attribute::XorMappedAddress2(x) && a.type_of() == 0x8020, None => a.type_of() != 0x8020 },
            forall|a: rfc5389::Attribute| #![trigger <rfc5389::Attribute as TryAsRef<Software>>::as_spec(&a)] match <rfc5389::Attribute as TryAsRef<Software>>::as_spec(&a) { Some(x) => a == rfc5389::Attribute::Software(x) && a.type_of() == 0x8022, None => a.type_of() != 0x8022 },
            forall|a: rfc5389::Attribute| #![trigger <rfc5389::Attribute as TryAsRef<AlternateServer>>::as_spec(&a)] match <rfc5389::Attribute as TryAsRef<AlternateServer>>::as_spec(&a) { Some(x) => a == rfc5389::Attribute::AlternateServer(x) && a.type_of() == 0x8023, None => a.type_of() != 0x8023 },
            forall|a: rfc5389::Attribute| #![trigger <rfc5389::Attribute as TryAsRef<Fingerprint>>::as_spec(&a)] match <rfc5389::Attribute as TryAsRef<Fingerprint>>::as_spec(&a) { Some(x) => a == rfc5389::Attribute::Fingerprint(x) && a.type_of() == 0x8028, None => a.type_of() != 0x8028 },
            forall|a: rfc5766::Attribute| #![trigger <rfc5766::Attribute as TryAsRef<ChannelNumber>>::as_spec(&a)] match <rfc5766::Attribute as TryAsRef<ChannelNumber>>::as_spec(&a) { Some(x) => a == rfc5766::Attribute::ChannelNumber(x) && a.type_of() == 0x000c, None => a.type_of() != 0x000c },
            forall|a: rfc5766::Attribute| #![trigger <rfc5766::Attribute as TryAsRef<Lifetime>>::as_spec(&a)] match <rfc5766::Attribute as TryAsRef<Lifetime>>::as_spec(&a) { Some(x) => a == rfc5766::Attribute::Lifetime(x) && a.type_of() == 0x000d, None => a.type_of() != 0x000d },
            forall|a: rfc5766::Attribute| #![trigger <rfc5766::Attribute as TryAsRef<XorPeerAddress>>::as_spec(&a)] match <rfc5766::Attribute as TryAsRef<XorPeerAddress>>::as_spec(&a) { Some(x) => a == rfc5766::Attribute::XorPeerAddress(x) && a.type_of() == 0x0012, None => a.type_of() != 0x0012 },
            forall|a: rfc5766::Attribute| #![trigger <rfc5766::Attribute as TryAsRef<Data>>::as_spec(&a)] match <rfc5766::Attribute as TryAsRef<Data>>::as_spec(&a) { Some(x) => a == rfc5766::Attribute::Data(x) && a.type_of() == 0x0013, None => a.type_of() != 0x0013 },
            forall|a: rfc5766::Attribute| #![trigger <rfc5766::Attribute as TryAsRef<XorRelayAddress>>::as_spec(&a)] match <rfc5766::Attribute as TryAsRef<XorRelayAddress>>::as_spec(&a) { Some(x) => a == rfc5766::Attribute::XorRelayAddress(x) && a.type_of() == 0x0016, None => a.type_of() != 0x0016 },
            forall|a: rfc5766::Attribute| #![trigger <rfc5766::Attribute as TryAsRef<EvenPort>>::as_spec(&a)] match <rfc5766::Attribute as TryAsRef<EvenPort>>::as_spec(&a) { Some(x) => a == rfc5766::Attribute::EvenPort(x) && a.type_of() == 0x0018, None => a.type_of() != 0x0018 },
            forall|a: rfc5766::Attribute| #![trigger <rfc5766::Attribute as TryAsRef<RequestedTransport>>::as_spec(&a)] match <rfc5766::Attribute as TryAsRef<RequestedTransport>>::as_spec(&a) { Some(x) => a == rfc5766::Attribute::RequestedTransport(x) && a.type_of() == 0x0019, None => a.type_of() != 0x0019 },
            forall|a: rfc5766::Attribute| #![trigger <rfc5766::Attribute as TryAsRef<DontFragment>>::as_spec(&a)] match <rfc5766::Attribute as TryAsRef<DontFragment>>::as_spec(&a) { Some(x) => a == rfc5766::Attribute::DontFragment(x) && a.type_of() == 0x001a, None => a.type_of() != 0x001a },
            forall|a: rfc5766::Attribute| #![trigger <rfc5766::Attribute as TryAsRef<ReservationToken>>::as_spec(&a)] match <rfc5766::Attribute as TryAsRef<ReservationToken>>::as_spec(&a) { Some(x) => a == rfc5766::Attribute::ReservationToken(x) && a.type_of() == 0x0022, None => a.type_of() != 0x0022 },
            forall|a: rfc5245::Attribute| #![trigger <rfc5245::Attribute as TryAsRef<Priority>>::as_spec(&a)] match <rfc5245::Attribute as TryAsRef<Priority>>::as_spec(&a) { Some(x) => a == rfc5245::Attribute::Priority(x) && a.type_of() == 0x0024, None => a.type_of() != 0x0024 },
            forall|a: rfc5245::Attribute| #![trigger <rfc5245::Attribute as TryAsRef<UseCandidate>>::as_spec(&a)] match <rfc5245::Attribute as TryAsRef<UseCandidate>>::as_spec(&a) { Some(x) => a == rfc5245::Attribute::UseCandidate(x) && a.type_of() == 0x0025, None => a.type_of() != 0x0025 },
            forall|a: rfc5245::Attribute| #![trigger <rfc5245::Attribute as TryAsRef<IceControlled>>::as_spec(&a)] match <rfc5245::Attribute as TryAsRef<IceControlled>>::as_spec(&a) { Some(x) => a == rfc5245::Attribute::IceControlled(x) && a.type_of() == 0x8029, None => a.type_of() != 0x8029 },
            forall|a: rfc5245::Attribute| #![trigger <rfc5245::Attribute as TryAsRef<IceControlling>>::as_spec(&a)] match <rfc5245::Attribute as TryAsRef<IceControlling>>::as_spec(&a) { Some(x) => a == rfc5245::Attribute::IceControlling(x) && a.type_of() == 0x802a, None => a.type_of() != 0x802a },
            forall|a: rfc5780::Attribute| #![trigger <rfc5780::Attribute as TryAsRef<ChangeRequest>>::as_spec(&a)] match <rfc5780::Attribute as TryAsRef<ChangeRequest>>::as_spec(&a) { Some(x) => a == rfc5780::Attribute::ChangeRequest(x) && a.type_of() == 0x0003, None => a.type_of() != 0x0003 },
            forall|a: rfc5780::Attribute| #![trigger <rfc5780::Attribute as TryAsRef<ResponseOrigin>>::as_spec(&a)] match <rfc5780::Attribute as TryAsRef<ResponseOrigin>>::as_spec(&a) { Some(x) => a == rfc5780::Attribute::ResponseOrigin(x) && a.type_of() == 0x802b, None => a.type_of() != 0x802b },
            forall|a: rfc5780::Attribute| #![trigger <rfc5780::Attribute as TryAsRef<ResponsePort>>::as_spec(&a)] match <rfc5780::Attribute as TryAsRef<ResponsePort>>::as_spec(&a) { Some(x) => a == rfc5780::Attribute::ResponsePort(x) && a.type_of() == 0x0027, None => a.type_of() != 0x0027 },
            forall|a: rfc5780::Attribute| #![trigger <rfc5780::Attribute as TryAsRef<OtherAddress>>::as_spec(&a)] match <rfc5780::Attribute as TryAsRef<OtherAddress>>::as_spec(&a) { Some(x) => a == rfc5780::Attribute::OtherAddress(x) && a.type_of() == 0x802c, None => a.type_of() != 0x802c },
    { }

    // ---- listing
    /// the known attributes among the first n
    pub open spec fn count<A>(s: Seq<LosslessAttribute<A>>, n: int) -> int decreases n { if n <= 0 { 0 } else { count(s, n - 1) + if s[n - 1] is Known { 1int } else { 0 } } }
    proof fn count_push<A>(s: Seq<LosslessAttribute<A>>, n: int)
        requires 0 <= n < s.len()
        ensures count(s, n) == count(s.drop_last(), n)
        decreases n
    { if n > 0 { count_push(s, n - 1); assert(s[n - 1] == s.drop_last()[n - 1]); } }
    /// each known attribute is listed among the known, each unknown one among the unknown, in message order, and there are no others
    pub proof fn listed<A>(s: Seq<LosslessAttribute<A>>)
        ensures
            known_of(s).len() == count(s, s.len() as int), known_of(s).len() + unknown_of(s).len() == s.len(),
            forall|i: int| 0 <= i < s.len() ==> 0 <= #[trigger] count(s, i) <= i && match s[i] {
                LosslessAttribute::Known { inner, .. } => count(s, i) < known_of(s).len() && known_of(s)[count(s, i)] == inner,
                LosslessAttribute::Unknown { inner, .. } => i - count(s, i) < unknown_of(s).len() && unknown_of(s)[i - count(s, i)] == inner,
            },
        decreases s.len()
    {
        if s.len() > 0 {
            let d = s.drop_last();
            let n = d.len() as int;
            listed(d);
            count_push(s, n);
            assert forall|i: int| 0 <= i < s.len() implies 0 <= #[trigger] count(s, i) <= i && match s[i] {
                LosslessAttribute::Known { inner, .. } => count(s, i) < known_of(s).len() && known_of(s)[count(s, i)] == inner,
                LosslessAttribute::Unknown { inner, .. } => i - count(s, i) < unknown_of(s).len() && unknown_of(s)[i - count(s, i)] == inner,
            } by {
                count_push(s, i);
                if i < n { assert(s[i] == d[i]); assert(0 <= count(d, i) <= i); }
            }
        }
    }
    pub fn attributes<A: Attribute>(m: &Message<A>) -> (r: Vec<&A>)
        ensures r@.len() == known_of(m.attributes@).len(), forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]) == known_of(m.attributes@)[i]
    { m.attributes() }
    pub fn unknown_attributes<A: Attribute>(m: &Message<A>) -> (r: Vec<&RawAttribute>)
        ensures r@.len() == unknown_of(m.attributes@).len(), forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]) == unknown_of(m.attributes@)[i]
    { m.unknown_attributes() }
    pub fn required(t: AttributeType) -> (r: bool) ensures r == (t.0 < 0x8000) { t.is_comprehension_required() }
    pub fn optional(t: AttributeType) -> (r: bool) ensures r == !(t.0 < 0x8000) { t.is_comprehension_optional() }

    // ---- receiving
    /// attribute i of a delivered message is the one whose type code lies at its place, or kept as it came
    pub open spec fn dispatched<A: Rfc>(a: LosslessAttribute<A>, u: Seq<u8>) -> bool {
        match a {
            LosslessAttribute::Known { inner, .. } => knows::<A>(kind(u)) && inner.type_of() == kind(u) && typed::<A>(kind(u), value(u)) is Some,
            LosslessAttribute::Unknown { inner, .. } => !knows::<A>(kind(u)) && inner.attr_type == AttributeType(kind(u)) && inner.value@ == value(u),
        }
    }
    pub proof fn delivered<A: Rfc>(s: Seq<u8>, i: int)
        requires MessageDecoder::<A>::run0(s) matches Some((Ok(m), _)) && 0 <= i < m.attributes@.len()
        ensures (MessageDecoder::<A>::run0(s)->0).0 matches Ok(m) && dispatched(m.attributes@[i], part(s).skip(at(part(s), i)))
    {
        hide(coll0); hide(at); hide(after_all);
        broadcast use contents;
        outcome::<A>(s);
        let h = super::c02::head(s);
        let w = part(s);
        let r = decoded::<A>(w)->0;
        let n = r.len() as int;
        laid::<A>(w, n);
        assert(mk_vec(r)@ == r);
        after_len(h.0.class, h.0.method, h.2, r, n);
        let z = after_all(h.0.class, h.0.method, h.2, r)->0;
        assert(mk_vec(z)@ == z);
        laid::<A>(w, i);
        one_more(h.0.class, h.0.method, h.2, r, i);
        let p = after_all(h.0.class, h.0.method, h.2, r.take(i))->0;
        again1::<A>(r[i], w.skip(at(w, i)), h.2, msg_enc(prefix(h.0.class, h.0.method, h.2, p)));
    }
    proof fn one_more<A: Attribute>(c: MessageClass, m: crate::method::Method, tid: TransactionId, r: Seq<LosslessAttribute<A>>, i: int)
        requires after_all(c, m, tid, r) is Some, 0 <= i < r.len()
        ensures
            after_all(c, m, tid, r.take(i)) is Some,
            la_after(r[i], tid, msg_enc(prefix(c, m, tid, after_all(c, m, tid, r.take(i))->0))) == Some(after_all(c, m, tid, r)->0[i]),
    {
        after_len(c, m, tid, r, i);
        after_len(c, m, tid, r, i + 1);
        let z = after_all(c, m, tid, r)->0;
        assert(r.take(i + 1).drop_last() =~= r.take(i));
        assert(r.take(i + 1).last() == r[i]);
        assert(z.take(i + 1)[i] == z[i]);
        after_len(c, m, tid, r.take(i), i);
        let p = after_all(c, m, tid, r.take(i))->0;
        assert(after_all(c, m, tid, r.take(i + 1)) == Some(p.push(la_after(r[i], tid, msg_enc(prefix(c, m, tid, p)))->0)));
        assert(z.take(i + 1)[i] == p.push(la_after(r[i], tid, msg_enc(prefix(c, m, tid, p)))->0)[i]);
    }
}
