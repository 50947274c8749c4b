/// C15: no value outside its documented range can be constructed or decoded.
pub mod c15 {
    use super::*;
    use super::c05::*;
    use super::c40::Rfc;
    use crate::seqs::*;
    use crate::spec::*;
    use crate::shim::*;
    use crate::bytecodec::*;
    use crate::bytecodec::combinator::*;
    use crate::message::*;
    use crate::attribute::*;
    use crate::method::Method;
    use crate::rfc5389::attributes::*;
    use crate::rfc5766::attributes::*;
    use crate::TransactionId;

    // ---- constructing: exactly the documented range, the value given, and invalid input otherwise
    pub open spec fn built<T>(r: Result<T>, ok: bool, x: T) -> bool { if ok { r == Ok::<T, Error>(x) } else { r matches Err(e) && e.kind == ErrorKind::InvalidInput } }
    pub open spec fn octets(s: Seq<char>) -> int { vstd::utf8::encode_utf8(s).len() as int }
    pub fn method(code: u16) -> (r: Result<Method>) ensures built(r, code < 0x1000, Method(code)) { Method::new(code) }
    pub fn error_code(code: u16, reason: String) -> (r: Result<ErrorCode>)
        ensures built(r, 300 <= code <= 599, ErrorCode { code, reason_phrase: reason }), r matches Ok(x) ==> x.legal()
    { ErrorCode::new(code, reason) }
    pub fn channel_number(n: u16) -> (r: Result<ChannelNumber>) ensures built(r, 0x4000 <= n <= 0x4FFF, ChannelNumber(n)), r matches Ok(x) ==> x.legal() { ChannelNumber::new(n) }
    pub fn channel_ends() -> (r: (ChannelNumber, ChannelNumber)) ensures r.0 == ChannelNumber(0x4000), r.1 == ChannelNumber(0x4FFF), r.0.legal(), r.1.legal() { (ChannelNumber::min(), ChannelNumber::max()) }
    /// the next one, the first after the last
    pub fn channel_next(x: ChannelNumber) -> (r: ChannelNumber)
        requires x.legal()
        ensures r.legal(), r.0 == if x.0 == 0x4FFF { 0x4000 } else { x.0 + 1 }
    { x.wrapping_increment() }
    pub fn username(name: String) -> (r: Result<Username>) ensures built(r, octets(name@) < 513, Username { name }), r matches Ok(x) ==> x.legal() { Username::new(name) }
    pub fn realm(text: String) -> (r: Result<Realm>) ensures built(r, text@.len() < 128, Realm { text }), r matches Ok(x) ==> x.legal() { Realm::new(text) }
    pub fn nonce(value: String) -> (r: Result<Nonce>) ensures built(r, value@.len() < 128, Nonce { value }), r matches Ok(x) ==> x.legal() { Nonce::new(value) }
    pub fn software(description: String) -> (r: Result<Software>)
        ensures built(r, description@.len() < 128, Software { description: Cow::Owned(description) }), r matches Ok(x) ==> x.legal()
    { Software::new(description) }
    pub fn data_bytes(v: Vec<u8>) -> (r: Result<Data>) ensures built(r, v@.len() <= 0xFFFF, Data(v)), r matches Ok(x) ==> x.legal() { Data::new(v) }
    /// whole seconds: the rest is dropped
    pub fn lifetime(d: Duration) -> (r: Result<Lifetime>) ensures built(r, d.secs <= 0xFFFF_FFFF, Lifetime(Duration { secs: d.secs, nanos: 0 })), r matches Ok(x) ==> x.legal() { Lifetime::new(d) }
    pub fn lifetime_seconds(s: u32) -> (r: Lifetime) ensures r == Lifetime(Duration { secs: s as u64, nanos: 0 }), r.legal() { Lifetime::from_u32(s) }

    // ---- decoding
    pub open spec fn all_in_range<A: Rfc>(s: Seq<LosslessAttribute<A>>) -> bool {
        forall|i: int| 0 <= i < s.len() ==> ((#[trigger] s[i]) matches LosslessAttribute::Known { inner, .. } ==> inner.legal())
    }
    /// whatever the octets: the method, and every attribute of a delivered message, is one its constructor makes
    pub proof fn delivered<A: Rfc>(s: Seq<u8>)
        ensures match MessageDecoder::<A>::run0(s) {
            None => true,
            Some((Err(e), _)) => e.method.0 < 0x1000,
            Some((Ok(m), _)) => m.method.0 < 0x1000 && all_in_range(m.attributes@),
        }
    {
        hide(coll0); hide(at); hide(after_all); hide(la_after);
        broadcast use contents;
        outcome::<A>(s);
        if MessageDecoder::<A>::run0(s) is Some {
            let h = super::c02::head(s);
            let w = part(s);
            let t = be16(s.take(2));
            assert(t < 0x4000) by { assert(s[0] < 0x40); }
            type_bits_bits(t);
            match MessageDecoder::<A>::run0(s) {
                Some((Ok(m), _)) => {
                    let r = decoded::<A>(w)->0;
                    let n = r.len() as int;
                    laid::<A>(w, n);
                    assert(mk_vec(r)@ == r);
                    after_len(h.0.class, h.0.method, h.2, r, n);
                    let z = after_all(h.0.class, h.0.method, h.2, r)->0;
                    assert(mk_vec(z)@ == z);
                    in_range::<A>(h.0.class, h.0.method, h.2, w, n);
                    assert(r.take(n) =~= r);
                },
                _ => { },
            }
        }
    }
    proof fn in_range<A: Rfc>(c: MessageClass, m: Method, tid: TransactionId, w: Seq<u8>, n: int)
        requires decoded::<A>(w) is Some, 0 <= n <= decoded::<A>(w)->0.len(), after_all(c, m, tid, decoded::<A>(w)->0.take(n)) is Some, w.len() <= 0xFFFF
        ensures all_in_range(after_all(c, m, tid, decoded::<A>(w)->0.take(n))->0)
        decreases n
    {
        hide(coll0); hide(at); hide(la_after);
        let r = decoded::<A>(w)->0;
        if n > 0 {
            assert(r.take(n).drop_last() =~= r.take(n - 1));
            assert(r.take(n).last() == r[n - 1]);
            in_range::<A>(c, m, tid, w, n - 1);
            laid::<A>(w, n - 1);
            let p = after_all(c, m, tid, r.take(n - 1))->0;
            again1::<A>(r[n - 1], w.skip(at(w, n - 1)), tid, msg_enc(prefix(c, m, tid, p)));
        }
    }
}
