/// C11: MESSAGE-INTEGRITY covers exactly the preceding message and is accepted iff equal.
pub mod c11 {
    use super::*;
    use super::c05::*;
    use super::c40::Rfc;
    use super::c12::{upto, adjusted, preceding};
    use crate::seqs::*;
    use crate::spec::*;
    use crate::bytecodec::*;
    use crate::bytecodec::combinator::*;
    use crate::message::*;
    use crate::attribute::*;
    use crate::rfc5389;
    use crate::rfc5389::attributes::*;
    use crate::shim::hmac::hmac_sha1_of;
    use crate::TransactionId;

    // ---- computing: the HMAC of the encoding of the preceding part, its length reaching to the end of this attribute (24 octets)
    pub open spec fn tag(b: Seq<u8>, key: Seq<u8>) -> Seq<u8> { hmac_sha1_of(key, upto(b, b.len() as int, 24)) }
    pub fn short_term<A: Attribute>(m: &Message<A>, password: &str) -> (r: Result<MessageIntegrity>)
        ensures r is Ok <==> msg_enc(*m) is Some, r matches Ok(x) ==> x.hmac_sha1@ == tag(msg_enc(*m)->0, short_key(password))
    {
        proof { if msg_enc(*m) is Some { enc_len(*m); adjusted(msg_enc(*m)->0, 24); } }
        MessageIntegrity::new_short_term_credential(m, password)
    }
    pub fn long_term<A: Attribute>(m: &Message<A>, username: &Username, realm: &Realm, password: &str) -> (r: Result<MessageIntegrity>)
        ensures r is Ok <==> msg_enc(*m) is Some, r matches Ok(x) ==> x.hmac_sha1@ == tag(msg_enc(*m)->0, long_key(username, realm, password))
    {
        proof { if msg_enc(*m) is Some { enc_len(*m); adjusted(msg_enc(*m)->0, 24); } }
        MessageIntegrity::new_long_term_credential(m, username, realm, password)
    }

    // ---- checking
    /// x is attribute k, a MESSAGE-INTEGRITY, of the message m delivered for the octets s (reserved bits before it being zero: KF1)
    pub open spec fn arrived(x: MessageIntegrity, m: Message<rfc5389::Attribute>, k: int, s: Seq<u8>) -> bool {
        &&& MessageDecoder::<rfc5389::Attribute>::run0(s) matches Some((Ok(z), t)) && z == m
        &&& 0 <= k < m.attributes@.len()
        &&& m.attributes@[k] matches LosslessAttribute::Known { inner: rfc5389::Attribute::MessageIntegrity(y), .. } && y == x
        &&& clean::<rfc5389::Attribute>(part(s), k)
    }
    /// its 20 octets
    pub open spec fn sent_tag(s: Seq<u8>, k: int) -> Seq<u8> { value(part(s).skip(at(part(s), k))) }
    /// the HMAC over the octets received before it
    pub open spec fn right_tag(s: Seq<u8>, k: int, key: Seq<u8>) -> Seq<u8> { hmac_sha1_of(key, upto(s, 20 + at(part(s), k), 24)) }
    pub proof fn kept(x: MessageIntegrity, m: Message<rfc5389::Attribute>, k: int, s: Seq<u8>)
        requires arrived(x, m, k, s)
        ensures
            kind(part(s).skip(at(part(s), k))) == 0x0008,
            x.hmac_sha1@ == sent_tag(s, k) && sent_tag(s, k).len() == 20,
            x.preceding_message_bytes@ == upto(s, 20 + at(part(s), k), 24),
    {
        hide(coll0); hide(at); hide(after_all); hide(super::c05::clean);
        broadcast use contents;
        outcome::<rfc5389::Attribute>(s);
        let h = super::c02::head(s);
        let w = part(s);
        let r = decoded::<rfc5389::Attribute>(w)->0;
        let n = r.len() as int;
        laid::<rfc5389::Attribute>(w, n);
        after_len(h.0.class, h.0.method, h.2, r, n);
        assert(mk_vec(r)@ == r);
        let z = after_all(h.0.class, h.0.method, h.2, r)->0;
        assert(mk_vec(z)@ == z);
        laid::<rfc5389::Attribute>(w, k);
        accepted::<rfc5389::Attribute>(h.0.class, h.0.method, h.2, w, k);
        preceding::<rfc5389::Attribute>(s, k, 24);
        let u = w.skip(at(w, k));
        rfc5389::Attribute::rewire(kind(u), value(u), h.2, None);
        super::c00::arr_value::<20>(value(u));
        let e = msg_bytes(h.0.class, h.0.method, h.2, w.take(at(w, k)));
        assert(mk_vec(with_len(e, 24))@ == with_len(e, 24)) by { assert(e.len() == 20 + at(w, k)); }
    }
    pub fn check_short_term(x: &MessageIntegrity, Ghost(m): Ghost<Message<rfc5389::Attribute>>, Ghost(k): Ghost<int>, Ghost(s): Ghost<Seq<u8>>, password: &str) -> (r: std::result::Result<(), ErrorCode>)
        requires arrived(*x, m, k, s)
        ensures r is Ok <==> sent_tag(s, k) == right_tag(s, k, short_key(password)), r is Err ==> r->Err_0 == mk_code(401, "Unauthorized"@)
    {
        proof { kept(*x, m, k, s); }
        x.check_short_term_credential(password)
    }
    pub fn check_long_term(x: &MessageIntegrity, Ghost(m): Ghost<Message<rfc5389::Attribute>>, Ghost(k): Ghost<int>, Ghost(s): Ghost<Seq<u8>>, username: &Username, realm: &Realm, password: &str) -> (r: std::result::Result<(), ErrorCode>)
        requires arrived(*x, m, k, s)
        ensures r is Ok <==> sent_tag(s, k) == right_tag(s, k, long_key(username, realm, password)), r is Err ==> r->Err_0 == mk_code(401, "Unauthorized"@)
    {
        proof { kept(*x, m, k, s); }
        x.check_long_term_credential(username, realm, password)
    }
}
