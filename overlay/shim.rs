// Stand-ins for std and the small dependency crates (see DESIGN.md, trusted base).
pub mod shim {
    use super::*;
    use crate::seqs::*;
    use vstd::utf8::*;
    pub fn min_len(a: usize, b: usize) -> (r: usize) ensures r == (if a <= b { a } else { b }) { if a <= b { a } else { b } }
    pub fn str_len(s: &String) -> (r: usize) ensures r == encode_utf8(s@).len() { s.as_str().as_bytes().len() }
    pub fn strlen(s: &str) -> (r: usize) ensures r == encode_utf8(s@).len() { s.as_bytes().len() }
    #[verifier::external_body]
    pub fn char_count(s: &String) -> (r: usize) ensures r == s@.len() { s.chars().count() }
    pub fn to_be(x: u32) -> (r: [u8; 4]) ensures r@ == eb32(x) {
        let r = [(x / 0x1000000) as u8, (x / 0x10000 % 256) as u8, (x / 0x100 % 256) as u8, (x % 256) as u8];
        proof { assert(r@ =~= eb32(x)); }
        r
    }
    pub fn from_be_u32(x: [u8; 4]) -> (r: u32) ensures r == be32(x@) {
        x[0] as u32 * 0x1000000 + x[1] as u32 * 0x10000 + x[2] as u32 * 0x100 + x[3] as u32
    }
    pub assume_specification [<u8 as core::convert::From<bool>>::from] (b: bool) -> (r: u8) ensures r == (if b { 1u8 } else { 0u8 });
    /// &mut a[..n]
    #[verifier::external_body]
    pub fn head_mut<const N: usize>(a: &mut [u8; N], n: usize) -> (r: &mut [u8])
        requires n <= N
        ensures r@ == old(a)@.take(n as int), final(r)@.len() == n, final(a)@ == final(r)@ + old(a)@.skip(n as int)
        no_unwind
    { &mut a[..n] }
    #[verifier::external_body]
    pub fn panic() -> (r: !) requires false { unimplemented!() }
    #[verifier::external_body]
    pub fn unsupported_format() -> (r: String) { unimplemented!() }
    /// format!("{}{}...") over displayed strings
    #[verifier::external_body]
    pub fn fmt3(p0: &str, a: &str, p1: &str, b: &str, p2: &str, c: &str, p3: &str) -> (r: String)
        ensures r@ == p0@ + a@ + p1@ + b@ + p2@ + c@ + p3@
    { unimplemented!() }
    #[verifier::external_body]
    pub fn fmt2(p0: &str, a: &str, p1: &str, b: &str, p2: &str) -> (r: String) ensures r@ == p0@ + a@ + p1@ + b@ + p2@ { unimplemented!() }
    #[verifier::external_body]
    pub fn fmt1(p0: &str, a: &str, p1: &str) -> (r: String) ensures r@ == p0@ + a@ + p1@ { unimplemented!() }

    pub open spec fn somes<U>(m: Seq<Option<U>>) -> Seq<U> decreases m.len() {
        if m.len() == 0 { Seq::empty() } else if m.last() is Some { somes(m.drop_last()).push(m.last()->0) } else { somes(m.drop_last()) }
    }
    pub fn filter_map<'a, T, U, F: Fn(&'a T) -> Option<U>>(x: &'a [T], f: F) -> (r: Vec<U>)
        requires forall|i: int| 0 <= i < x@.len() ==> call_requires(f, (&#[trigger] x@[i],))
        ensures exists|m: Seq<Option<U>>| m.len() == x@.len() && (forall|i: int| 0 <= i < x@.len() ==> call_ensures(f, (&x@[i],), #[trigger] m[i])) && r@ == somes(m)
    {
        let mut r = Vec::new();
        let ghost mut m: Seq<Option<U>> = Seq::empty();
        let mut k = 0;
        while k < x.len()
            invariant
                k <= x@.len(), m.len() == k, r@ == somes(m),
                forall|i: int| 0 <= i < x@.len() ==> call_requires(f, (&#[trigger] x@[i],)),
                forall|i: int| 0 <= i < k ==> call_ensures(f, (&x@[i],), #[trigger] m[i]),
            decreases x@.len() - k
        {
            let u = f(&x[k]);
            proof { assert(m.push(u).drop_last() =~= m); m = m.push(u); }
            match u { Some(v) => { r.push(v); } None => {} }
            k += 1;
        }
        r
    }
    #[verifier::loop_isolation(false)]
    pub fn filter_map_next<T, U, F: Fn(T) -> Option<U>>(x: Vec<T>, f: F) -> (r: Option<U>)
        requires forall|i: int| 0 <= i < x@.len() ==> call_requires(f, (#[trigger] x@[i],))
        ensures
            match r {
                Some(u) => exists|k: int| 0 <= k < x@.len() && call_ensures(f, (#[trigger] x@[k],), Some(u))
                    && forall|i: int| 0 <= i < k ==> call_ensures(f, (#[trigger] x@[i],), None::<U>),
                None => forall|i: int| 0 <= i < x@.len() ==> call_ensures(f, (#[trigger] x@[i],), None::<U>),
            }
    {
        let ghost s = x@;
        let mut x = vec::IntoIter(x);
        let ghost mut k = 0int;
        loop
            invariant
                0 <= k <= s.len(), x.0@ == s.skip(k),
                forall|i: int| 0 <= i < s.len() ==> call_requires(f, (#[trigger] s[i],)),
                forall|i: int| 0 <= i < k ==> call_ensures(f, (#[trigger] s[i],), None::<U>),
            decreases s.len() - k
        {
            match x.next() {
                None => { return None; }
                Some(t) => {
                    proof { assert(t == s[k]); assert(s.skip(k).drop_first() =~= s.skip(k + 1)); }
                    match f(t) {
                        Some(u) => { return Some(u); }
                        None => {}
                    }
                    proof { k = k + 1; }
                }
            }
        }
    }
    pub fn map_collect<T, U, F: Fn(T) -> U>(x: Vec<T>, f: F) -> (r: Vec<U>)
        requires forall|i: int| 0 <= i < x@.len() ==> call_requires(f, (#[trigger] x@[i],))
        ensures r@.len() == x@.len(), forall|i: int| 0 <= i < x@.len() ==> call_ensures(f, (x@[i],), #[trigger] r@[i])
    {
        let ghost s = x@;
        let mut x = vec::IntoIter(x);
        let mut r = Vec::new();
        let ghost mut k = 0int;
        loop
            invariant
                0 <= k <= s.len(), x.0@ == s.skip(k), r@.len() == k,
                forall|i: int| 0 <= i < s.len() ==> call_requires(f, (#[trigger] s[i],)),
                forall|i: int| 0 <= i < k ==> call_ensures(f, (s[i],), #[trigger] r@[i]),
            ensures k == s.len()
            decreases s.len() - k
        {
            match x.next() {
                None => { break; }
                Some(t) => {
                    proof { assert(t == s[k]); assert(s.skip(k).drop_first() =~= s.skip(k + 1)); k = k + 1; }
                    let u = f(t);
                    r.push(u);
                }
            }
        }
        r
    }
    pub mod vec {
        use super::*;
        pub struct IntoIter<T>(pub Vec<T>);
        impl<T> IntoIter<T> {
            pub fn next(&mut self) -> (r: Option<T>)
                ensures
                    old(self).0@.len() == 0 ==> r is None && final(self).0@ == old(self).0@,
                    old(self).0@.len() > 0 ==> r == Some(old(self).0@[0]) && final(self).0@ == old(self).0@.drop_first(),
            {
                if self.0.len() == 0 { None } else {
                    let __r = self.0.remove(0);
                    proof { assert(self.0@ =~= old(self).0@.drop_first()); }
                    Some(__r)
                }
            }
        }
    }
    pub fn into_iter<T>(x: Vec<T>) -> (r: vec::IntoIter<T>) ensures r.0 == x { vec::IntoIter(x) }

    #[derive(Clone, Copy)]
    pub struct Duration { pub secs: u64, pub nanos: u32 }
    impl Duration {
        pub fn from_secs(s: u64) -> (r: Self) ensures r.secs == s, r.nanos == 0 { Duration { secs: s, nanos: 0 } }
        pub fn as_secs(&self) -> (r: u64) ensures r == self.secs { self.secs }
        pub fn subsec_nanos(&self) -> (r: u32) ensures r == self.nanos { self.nanos }
    }
    pub enum Cow<'a, B: ?Sized> { Borrowed(&'a B), Owned(String) }
    impl<'a> Cow<'a, str> {
        pub open spec fn text(&self) -> Seq<char> { match *self { Cow::Borrowed(s) => s@, Cow::Owned(s) => s@ } }
        pub fn as_str(&self) -> (r: &str) ensures r@ == self.text() { match self { Cow::Borrowed(s) => s, Cow::Owned(s) => s.as_str() } }
    }
    impl<'a> crate::bytecodec::bytes::AsRefStr for Cow<'a, str> {
        open spec fn text(&self) -> Seq<char> { match *self { Cow::Borrowed(s) => s@, Cow::Owned(s) => s@ } }
        fn as_ref(&self) -> (r: &str) { match self { Cow::Borrowed(s) => s, Cow::Owned(s) => s.as_str() } }
    }
    impl vstd::std_specs::convert::FromSpecImpl<String> for Cow<'static, str> {
        open spec fn obeys_from_spec() -> bool { true }
        open spec fn from_spec(v: String) -> Self { Cow::Owned(v) }
    }
    impl From<String> for Cow<'static, str> { fn from(v: String) -> (r: Self) { Cow::Owned(v) } }

    pub assume_specification [std::string::String::as_bytes](s: &String) -> (r: &[u8]) ensures r@ == vstd::utf8::encode_utf8(s@);

    pub mod net {
        use super::*;
        #[derive(Clone, Copy)]
        pub struct Ipv4Addr(pub [u8; 4]);
        #[derive(Clone, Copy)]
        pub struct Ipv6Addr(pub [u8; 16]);
        impl Ipv4Addr { pub fn octets(&self) -> (r: [u8; 4]) ensures r == self.0 { self.0 } }
        impl Ipv6Addr { pub fn octets(&self) -> (r: [u8; 16]) ensures r == self.0 { self.0 } }
        impl vstd::std_specs::convert::FromSpecImpl<[u8; 4]> for Ipv4Addr {
            open spec fn obeys_from_spec() -> bool { true }
            open spec fn from_spec(v: [u8; 4]) -> Self { Ipv4Addr(v) }
        }
        impl From<[u8; 4]> for Ipv4Addr { fn from(v: [u8; 4]) -> (r: Self) { Ipv4Addr(v) } }
        impl vstd::std_specs::convert::FromSpecImpl<[u8; 16]> for Ipv6Addr {
            open spec fn obeys_from_spec() -> bool { true }
            open spec fn from_spec(v: [u8; 16]) -> Self { Ipv6Addr(v) }
        }
        impl From<[u8; 16]> for Ipv6Addr { fn from(v: [u8; 16]) -> (r: Self) { Ipv6Addr(v) } }
        #[derive(Clone, Copy)]
        pub enum IpAddr { V4(Ipv4Addr), V6(Ipv6Addr) }
        impl IpAddr {
            pub fn is_ipv4(&self) -> (r: bool) ensures r == (self is V4) { match self { IpAddr::V4(_) => true, IpAddr::V6(_) => false } }
            pub fn is_ipv6(&self) -> (r: bool) ensures r == (self is V6) { match self { IpAddr::V4(_) => false, IpAddr::V6(_) => true } }
        }
        /// std's SocketAddr without the IPv6 flow label and scope id, which STUN does not carry
        #[derive(Clone, Copy)]
        pub struct SocketAddr { pub ip: IpAddr, pub port: u16 }
        impl SocketAddr {
            pub fn new(ip: IpAddr, port: u16) -> (r: Self) ensures r.ip == ip, r.port == port { SocketAddr { ip, port } }
            pub fn ip(&self) -> (r: IpAddr) ensures r == self.ip { self.ip }
            pub fn port(&self) -> (r: u16) ensures r == self.port { self.port }
            pub fn is_ipv4(&self) -> (r: bool) ensures r == (self.ip is V4) { self.ip.is_ipv4() }
            pub fn is_ipv6(&self) -> (r: bool) ensures r == (self.ip is V6) { self.ip.is_ipv6() }
        }
    }
    pub mod byteorder {
        use super::*;
        pub struct BigEndian;
        pub trait ByteOrder {}
        pub fn write_u16_in(v: &mut Vec<u8>, lo: usize, hi: usize, x: u16)
            requires lo <= hi <= old(v)@.len(), hi - lo >= 2
            ensures final(v)@ == old(v)@.update(lo as int, eb16(x)[0]).update(lo + 1, eb16(x)[1])
        { v[lo] = (x / 256) as u8; v[lo + 1] = (x % 256) as u8; }
    }
    pub mod crc {
        use super::*;
        #[derive(Clone, Copy)]
        pub struct Algorithm { pub id: u32 }
        pub const CRC_32_ISO_HDLC: Algorithm = Algorithm { id: 1 };
        pub uninterp spec fn crc_of(alg: Algorithm, data: Seq<u8>) -> u32;
        pub struct Crc<W> { pub alg: Algorithm, pub w: core::marker::PhantomData<W> }
        impl Crc<u32> {
            #[verifier::external_body]
            pub fn new(alg: &Algorithm) -> (r: Self) ensures r.alg == *alg { unimplemented!() }
            #[verifier::external_body]
            pub fn checksum(&self, data: &[u8]) -> (r: u32) ensures r == crc_of(self.alg, data@) { unimplemented!() }
        }
    }
    pub mod md5 {
        use super::*;
        pub uninterp spec fn md5_of(data: Seq<u8>) -> Seq<u8>;
        pub struct Digest(pub [u8; 16]);
        /// what implements AsRef<[u8]>
        pub trait Octets { spec fn octets(&self) -> Seq<u8>; }
        impl Octets for &[u8] { open spec fn octets(&self) -> Seq<u8> { (*self)@ } }
        impl Octets for Vec<u8> { open spec fn octets(&self) -> Seq<u8> { self@ } }
        impl Octets for &Vec<u8> { open spec fn octets(&self) -> Seq<u8> { self@ } }
        impl Octets for &str { open spec fn octets(&self) -> Seq<u8> { vstd::utf8::encode_utf8((*self)@) } }
        impl Octets for String { open spec fn octets(&self) -> Seq<u8> { vstd::utf8::encode_utf8(self@) } }
        impl Octets for &String { open spec fn octets(&self) -> Seq<u8> { vstd::utf8::encode_utf8(self@) } }
        #[verifier::external_body]
        pub fn compute<T: Octets>(data: T) -> (r: Digest) ensures r.0@ == md5_of(data.octets()) { unimplemented!() }
    }
    pub mod sha1 {
        pub struct Sha1;
    }
    pub mod hmac {
        use super::*;
        pub uninterp spec fn hmac_sha1_of(key: Seq<u8>, data: Seq<u8>) -> Seq<u8>;
        pub struct Hmac<H> { pub h: core::marker::PhantomData<H>, pub key: Ghost<Seq<u8>>, pub data: Ghost<Seq<u8>> }
        #[derive(Debug)]
        pub struct InvalidLength;
        pub struct CtOutput { pub v: [u8; 20] }
        impl CtOutput { pub fn into_bytes(self) -> (r: [u8; 20]) ensures r == self.v { self.v } }
        pub trait Mac: Sized {
            spec fn key_(&self) -> Seq<u8>;
            spec fn data_(&self) -> Seq<u8>;
            fn new_from_slice(key: &[u8]) -> (r: std::result::Result<Self, InvalidLength>)
                ensures r is Ok, r->Ok_0.key_() == key@, r->Ok_0.data_() == Seq::<u8>::empty();
            fn update(&mut self, data: &[u8])
                ensures final(self).key_() == old(self).key_(), final(self).data_() == old(self).data_() + data@;
            fn finalize(self) -> (r: CtOutput)
                ensures r.v@ == hmac_sha1_of(self.key_(), self.data_());
        }
        impl Mac for Hmac<crate::shim::sha1::Sha1> {
            open spec fn key_(&self) -> Seq<u8> { self.key@ }
            open spec fn data_(&self) -> Seq<u8> { self.data@ }
            #[verifier::external_body]
            fn new_from_slice(key: &[u8]) -> (r: std::result::Result<Self, InvalidLength>) { unimplemented!() }
            #[verifier::external_body]
            fn update(&mut self, data: &[u8]) { unimplemented!() }
            #[verifier::external_body]
            fn finalize(self) -> (r: CtOutput) { unimplemented!() }
        }
    }
}
