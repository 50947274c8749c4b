//! The attribute sets the harness exercises: the crate's four enums, every attribute on its own,
//! raw attributes, and two enums built here with the crate's public macro.
use crate::refm::Val;
use bytecodec::Result;
use std::fmt::Debug;
use std::time::Duration;
pub use stun_codec::rfc5245::attributes::*;
pub use stun_codec::rfc5389::attributes::*;
pub use stun_codec::rfc5766::attributes::*;
pub use stun_codec::rfc5780::attributes::*;
pub use stun_codec::rfc8016::attributes::*;
pub use stun_codec::rfc8656::attributes::{AdditionalAddressFamily, AddressFamily, RequestedAddressFamily};
pub use stun_codec::{Attribute, AttributeType, Message, RawAttribute};

pub trait Leaf: Attribute {
    fn to_val(&self) -> Val;
    fn from_val(v: &Val) -> Option<Result<Self>>;
}
macro_rules! leaf {
    ($t:ident, |$s:ident| $view:expr, $p:pat => $mk:expr) => {
        impl Leaf for $t {
            fn to_val(&self) -> Val {
                let $s = self;
                $view
            }
            fn from_val(v: &Val) -> Option<Result<Self>> {
                match v.clone() {
                    $p if v.code() == Self::CODEPOINT => Some($mk),
                    _ => None,
                }
            }
        }
    };
}
macro_rules! addr { ($($t:ident),*) => { $(leaf!($t, |s| Val::Addr($t::CODEPOINT, s.address()), Val::Addr(_, a) => Ok($t::new(a)));)* } }
addr!(
    MappedAddress, AlternateServer, XorMappedAddress, XorMappedAddress2, XorPeerAddress, XorRelayAddress,
    ResponseOrigin, OtherAddress
);
leaf!(Username, |s| Val::Text(6, s.name().to_owned()), Val::Text(_, t) => Username::new(t));
leaf!(Realm, |s| Val::Text(0x14, s.text().to_owned()), Val::Text(_, t) => Realm::new(t));
leaf!(Nonce, |s| Val::Text(0x15, s.value().to_owned()), Val::Text(_, t) => Nonce::new(t));
leaf!(Software, |s| Val::Text(0x8022, s.description().to_owned()), Val::Text(_, t) => Software::new(t));
leaf!(ErrorCode, |s| Val::ErrorCode(s.code(), s.reason_phrase().to_owned()), Val::ErrorCode(c, t) => ErrorCode::new(c, t));
leaf!(UnknownAttributes, |s| Val::Unknowns(s.unknowns().iter().map(|t| t.as_u16()).collect()),
    Val::Unknowns(u) => Ok(UnknownAttributes::new(u.into_iter().map(AttributeType::new).collect())));
leaf!(ChannelNumber, |s| Val::Channel(s.value()), Val::Channel(c) => ChannelNumber::new(c));
leaf!(Lifetime, |s| Val::Lifetime(s.lifetime().as_secs() + if s.lifetime().subsec_nanos() != 0 { 1 << 40 } else { 0 }),
    Val::Lifetime(c) => Lifetime::new(Duration::from_secs(c)));
leaf!(Data, |s| Val::Data(s.data().to_owned()), Val::Data(d) => Data::new(d));
leaf!(EvenPort, |s| Val::EvenPort(s.is_requested()), Val::EvenPort(d) => Ok(EvenPort::new(d)));
leaf!(RequestedTransport, |s| Val::Transport(s.protocol()), Val::Transport(d) => Ok(RequestedTransport::new(d)));
leaf!(DontFragment, |_s| Val::DontFragment, Val::DontFragment => Ok(DontFragment));
leaf!(ReservationToken, |s| Val::Token(s.token()), Val::Token(d) => Ok(ReservationToken::new(d)));
leaf!(Priority, |s| Val::Priority(s.prio()), Val::Priority(d) => Ok(Priority::new(d)));
leaf!(UseCandidate, |_s| Val::UseCandidate, Val::UseCandidate => Ok(UseCandidate::new()));
leaf!(IceControlled, |s| Val::Controlled(s.prio()), Val::Controlled(d) => Ok(IceControlled::new(d)));
leaf!(IceControlling, |s| Val::Controlling(s.prio()), Val::Controlling(d) => Ok(IceControlling::new(d)));
leaf!(ChangeRequest, |s| Val::ChangeReq(s.ip(), s.port()), Val::ChangeReq(a, b) => Ok(ChangeRequest::new(a, b)));
leaf!(ResponsePort, |s| Val::RespPort(s.port()), Val::RespPort(d) => Ok(ResponsePort::new(d)));
leaf!(MobilityTicket, |s| Val::Ticket(s.data().to_owned()), Val::Ticket(d) => if d.is_empty() { Ok(MobilityTicket::empty()) } else { MobilityTicket::new(d) });
fn fam(f: AddressFamily) -> u8 {
    match f {
        AddressFamily::V4 => 1,
        AddressFamily::V6 => 2,
    }
}
fn unfam(f: u8) -> AddressFamily {
    if f == 1 {
        AddressFamily::V4
    } else {
        AddressFamily::V6
    }
}
leaf!(RequestedAddressFamily, |s| Val::Family(0x17, fam(s.address_family())), Val::Family(_, f) => Ok(RequestedAddressFamily::new(unfam(f))));
leaf!(AdditionalAddressFamily, |s| Val::Family(0x8000, fam(s.address_family())), Val::Family(_, f) => Ok(AdditionalAddressFamily::new(unfam(f))));
// values of these two cannot be made directly: they are computed from a message, or decoded
leaf!(MessageIntegrity, |s| Val::Mi(s.hmac_sha1()), Val::Mi(_) => no_value());
leaf!(Fingerprint, |s| Val::Fp(s.crc32()), Val::Fp(_) => no_value());
fn no_value<T>() -> Result<T> {
    Err(bytecodec::ErrorKind::Other.into())
}

/// An attribute set as the harness sees it.
pub trait Set: Attribute + Debug + 'static {
    fn name() -> String;
    fn codes() -> Vec<u16>;
    const RAW: bool = false;
    fn view(&self) -> Val;
    /// `None`: not in this set
    fn build(v: &Val) -> Option<Result<Self>>;
    fn mi(m: MessageIntegrity) -> Option<Self>;
    fn fp(m: Fingerprint) -> Option<Self>;
    fn as_mi(&self) -> Option<&MessageIntegrity>;
    /// for each attribute type of the set, what get_attribute returns
    fn firsts(m: &Message<Self>) -> Vec<(u16, Option<Val>)>;
}
fn same<T: 'static, U: 'static>(t: T) -> Option<U> {
    (Box::new(t) as Box<dyn std::any::Any>).downcast::<U>().ok().map(|b| *b)
}
macro_rules! enum_set {
    ($attr:ty, $name:expr, $any:ident, [$($v:ident),*]) => {
        impl Set for $attr {
            fn name() -> String { $name.to_string() }
            fn codes() -> Vec<u16> { vec![$($v::CODEPOINT),*] }
            fn view(&self) -> Val { match self { $($any::$v(x) => x.to_val()),* } }
            fn build(v: &Val) -> Option<Result<Self>> {
                $(if let Some(r) = <$v as Leaf>::from_val(v) { return Some(r.map(Self::from)); })*
                None
            }
            fn mi(_m: MessageIntegrity) -> Option<Self> {
                $(if let Some(x) = same::<MessageIntegrity, $v>(_m.clone()) { return Some(x.into()); })*
                None
            }
            fn fp(_m: Fingerprint) -> Option<Self> {
                $(if let Some(x) = same::<Fingerprint, $v>(_m.clone()) { return Some(x.into()); })*
                None
            }
            fn as_mi(&self) -> Option<&MessageIntegrity> {
                match self { $($any::$v(x) => (x as &dyn std::any::Any).downcast_ref(),)* }
            }
            fn firsts(m: &Message<Self>) -> Vec<(u16, Option<Val>)> {
                vec![$(($v::CODEPOINT, m.get_attribute::<$v>().map(|a| a.to_val()))),*]
            }
        }
    };
}
use stun_codec::rfc5245::Attribute as A5245;
use stun_codec::rfc5389::Attribute as A5389;
use stun_codec::rfc5766::Attribute as A5766;
use stun_codec::rfc5780::Attribute as A5780;
enum_set!(A5389, "rfc5389::Attribute", A5389, [MappedAddress, Username, MessageIntegrity, ErrorCode, UnknownAttributes, Realm, Nonce,
    XorMappedAddress, XorMappedAddress2, Software, AlternateServer, Fingerprint]);
enum_set!(A5766, "rfc5766::Attribute", A5766, [ChannelNumber, Lifetime, XorPeerAddress, Data, XorRelayAddress, EvenPort,
    RequestedTransport, DontFragment, ReservationToken]);
enum_set!(A5245, "rfc5245::Attribute", A5245, [Priority, UseCandidate, IceControlled, IceControlling]);
enum_set!(A5780, "rfc5780::Attribute", A5780, [ChangeRequest, ResponseOrigin, ResponsePort, OtherAddress]);

stun_codec::define_attribute_enums!(
    All, AllDecoder, AllEncoder,
    [MappedAddress, Username, MessageIntegrity, ErrorCode, UnknownAttributes, Realm, Nonce, XorMappedAddress,
     XorMappedAddress2, Software, AlternateServer, Fingerprint, ChannelNumber, Lifetime, XorPeerAddress, Data,
     XorRelayAddress, EvenPort, RequestedTransport, DontFragment, ReservationToken, Priority, UseCandidate,
     IceControlled, IceControlling, ChangeRequest, ResponseOrigin, ResponsePort, OtherAddress,
     RequestedAddressFamily, AdditionalAddressFamily, MobilityTicket]
);
enum_set!(All, "all attributes", All, [MappedAddress, Username, MessageIntegrity, ErrorCode, UnknownAttributes, Realm, Nonce, XorMappedAddress,
     XorMappedAddress2, Software, AlternateServer, Fingerprint, ChannelNumber, Lifetime, XorPeerAddress, Data,
     XorRelayAddress, EvenPort, RequestedTransport, DontFragment, ReservationToken, Priority, UseCandidate,
     IceControlled, IceControlling, ChangeRequest, ResponseOrigin, ResponsePort, OtherAddress,
     RequestedAddressFamily, AdditionalAddressFamily, MobilityTicket]);

macro_rules! leaf_sets_impl { ($($t:ident),*) => { $(
    impl Set for $t {
        fn name() -> String { stringify!($t).to_string() }
        fn codes() -> Vec<u16> { vec![$t::CODEPOINT] }
        fn view(&self) -> Val { self.to_val() }
        fn build(v: &Val) -> Option<Result<Self>> { <$t as Leaf>::from_val(v) }
        fn mi(m: MessageIntegrity) -> Option<Self> { same(m) }
        fn fp(m: Fingerprint) -> Option<Self> { same(m) }
        fn as_mi(&self) -> Option<&MessageIntegrity> { (self as &dyn std::any::Any).downcast_ref() }
        fn firsts(_m: &Message<Self>) -> Vec<(u16, Option<Val>)> { vec![] }
    })* } }
leaf_sets_impl!(MappedAddress, Username, MessageIntegrity, ErrorCode, UnknownAttributes, Realm, Nonce, XorMappedAddress, XorMappedAddress2, Software, AlternateServer, Fingerprint, ChannelNumber, Lifetime, XorPeerAddress, Data, XorRelayAddress, EvenPort, RequestedTransport, DontFragment, ReservationToken, Priority, UseCandidate, IceControlled, IceControlling, ChangeRequest, ResponseOrigin, ResponsePort, OtherAddress, RequestedAddressFamily, AdditionalAddressFamily, MobilityTicket);

impl Set for RawAttribute {
    fn name() -> String { "RawAttribute".to_string() }
    fn codes() -> Vec<u16> { vec![] }
    const RAW: bool = true;
    fn view(&self) -> Val { Val::Raw(self.get_type().as_u16(), self.value().to_vec()) }
    fn build(v: &Val) -> Option<Result<Self>> {
        match v {
            Val::Raw(c, b) => Some(Ok(RawAttribute::new(AttributeType::new(*c), b.clone()))),
            _ => None,
        }
    }
    fn mi(_: MessageIntegrity) -> Option<Self> { None }
    fn fp(_: Fingerprint) -> Option<Self> { None }
    fn as_mi(&self) -> Option<&MessageIntegrity> { None }
    fn firsts(_m: &Message<Self>) -> Vec<(u16, Option<Val>)> { vec![] }
}

pub use stun_codec::rfc5245::Attribute as T5245;
pub use stun_codec::rfc5389::Attribute as T5389;
pub use stun_codec::rfc5766::Attribute as T5766;
pub use stun_codec::rfc5780::Attribute as T5780;
#[macro_export]
macro_rules! enums { ($f:ident, $c:expr) => { $f::<T5389>($c); $f::<T5766>($c); $f::<T5245>($c); $f::<T5780>($c); $f::<All>($c); } }
#[macro_export]
macro_rules! leaves { ($f:ident, $c:expr) => { $f::<MappedAddress>($c); $f::<Username>($c); $f::<MessageIntegrity>($c); $f::<ErrorCode>($c); $f::<UnknownAttributes>($c); $f::<Realm>($c); $f::<Nonce>($c); $f::<XorMappedAddress>($c); $f::<XorMappedAddress2>($c); $f::<Software>($c); $f::<AlternateServer>($c); $f::<Fingerprint>($c); $f::<ChannelNumber>($c); $f::<Lifetime>($c); $f::<XorPeerAddress>($c); $f::<Data>($c); $f::<XorRelayAddress>($c); $f::<EvenPort>($c); $f::<RequestedTransport>($c); $f::<DontFragment>($c); $f::<ReservationToken>($c); $f::<Priority>($c); $f::<UseCandidate>($c); $f::<IceControlled>($c); $f::<IceControlling>($c); $f::<ChangeRequest>($c); $f::<ResponseOrigin>($c); $f::<ResponsePort>($c); $f::<OtherAddress>($c); $f::<RequestedAddressFamily>($c); $f::<AdditionalAddressFamily>($c); $f::<MobilityTicket>($c); } }
