/// C12: FINGERPRINT is verified against the preceding message on every decode.
pub mod c12 {
    use super::*;
    use super::c04::inner;
    use super::c05::*;
    use super::c40::Rfc;
    use crate::seqs::*;
    use crate::spec::*;
    use crate::bytecodec::*;
    use crate::bytecodec::combinator::*;
    use crate::message::*;
    use crate::attribute::*;
    use crate::method::Method;
    use crate::rfc5389;
    use crate::rfc5389::attributes::*;
    use crate::TransactionId;

    // ---- what covers what
    /// the first n octets of the message s, its length field saying that the attributes end extra octets behind them
    pub open spec fn upto(s: Seq<u8>, n: int, extra: int) -> Seq<u8> { s.take(2) + eb16((n - 20 + extra) as u16) + s.subrange(4, n) }
    /// CRC-32 of that with room for the FINGERPRINT attribute, XORed with "STUN"
    pub open spec fn crc(s: Seq<u8>, n: int) -> u32 {
        crate::shim::crc::crc_of(crate::shim::crc::CRC_32_ISO_HDLC, upto(s, n, 8)) ^ 0x5354_554e
    }
    pub proof fn adjusted(b: Seq<u8>, extra: int)
        requires b.len() >= 20
        ensures with_len(b, extra) == upto(b, b.len() as int, extra)
    { assert(with_len(b, extra) =~= upto(b, b.len() as int, extra)); }
    /// the preceding part re-encoded, its length adjusted, is the octets received
    pub proof fn preceding<A: Attribute>(s: Seq<u8>, k: int, extra: int)
        requires super::c02::good(s), s.len() >= 20 + super::c02::head(s).1, decoded::<A>(part(s)) is Some, 0 <= k <= decoded::<A>(part(s))->0.len()
        ensures ({
            let h = super::c02::head(s);
            let p = at(part(s), k);
            with_len(msg_bytes(h.0.class, h.0.method, h.2, part(s).take(p)), extra) == upto(s, 20 + p, extra) && 20 <= 20 + p <= 20 + h.1
        })
    {
        let h = super::c02::head(s);
        let w = part(s);
        laid::<A>(w, k);
        let p = at(w, k);
        header_again(s);
        let b = msg_bytes(h.0.class, h.0.method, h.2, w.take(p));
        let g = msg_bytes(h.0.class, h.0.method, h.2, w);
        adjusted(b, extra);
        assert(b.len() == 20 + p && g.len() == 20 + h.1);
        assert forall|i: int| 0 <= i < 20 + p && i != 2 && i != 3 implies b[i] == s[i] by {
            assert(b[i] == g[i]);
            assert(g[i] == s.take(20 + h.1)[i]);
        }
        assert(upto(b, 20 + p, extra) =~= upto(s, 20 + p, extra));
    }

    // ---- computing
    /// Fingerprint::new: over the encoding of the preceding part, room for the attribute counted in
    pub fn computed<A: Attribute>(m: &Message<A>) -> (r: Result<Fingerprint>)
        ensures
            r is Ok <==> msg_enc(*m) is Some,
            r matches Ok(f) ==> f.crc32 == crc(msg_enc(*m)->0, msg_enc(*m)->0.len() as int),
    {
        proof { enc_len(*m); if msg_enc(*m) is Some { adjusted(msg_enc(*m)->0, 8); } }
        Fingerprint::new(m)
    }

    // ---- verifying
    /// attribute k does not refuse what precedes it
    pub open spec fn agrees<A: Rfc>(s: Seq<u8>, k: int) -> bool {
        let h = super::c02::head(s);
        decoded::<A>(part(s))->0[k] matches LosslessAttribute::Known { inner, .. } ==> !inner.refused(Some(msg_bytes(h.0.class, h.0.method, h.2, part(s).take(at(part(s), k)))))
    }
    /// delivered exactly when no attribute refuses what precedes it (reserved bits of the attributes being zero: KF1)
    pub proof fn decides<A: Rfc>(s: Seq<u8>)
        requires
            super::c02::good(s), s.len() >= 20 + super::c02::head(s).1, decoded::<A>(part(s)) is Some,
            clean::<A>(part(s), decoded::<A>(part(s))->0.len() as int),
        ensures ({
            let h = super::c02::head(s);
            let w = part(s);
            let r = decoded::<A>(w)->0;
            &&& MessageDecoder::<A>::run0(s) is Some
            &&& (MessageDecoder::<A>::run0(s)->0).0 is Ok <==> forall|k: int| 0 <= k < r.len() ==> #[trigger] agrees::<A>(s, k)
        })
    {
        hide(coll0); hide(super::c05::clean); hide(after_all); hide(la_after); hide(at);
        broadcast use contents;
        outcome::<A>(s);
        let h = super::c02::head(s);
        let w = part(s);
        let r = decoded::<A>(w)->0;
        let n = r.len() as int;
        laid::<A>(w, n) ;
        assert(r.take(n) =~= r);
        assert(mk_vec(r)@ == r);
        match after_all(h.0.class, h.0.method, h.2, r) {
            None => { let k = refusal::<A>(h.0.class, h.0.method, h.2, w, n); assert(!agrees::<A>(s, k)); },
            Some(z) => {
                assert forall|k: int| 0 <= k < r.len() implies #[trigger] agrees::<A>(s, k) by {
                    less::<A>(w, n, k);
                    accepted::<A>(h.0.class, h.0.method, h.2, w, k);
                }
            },
        }
    }
    proof fn less<A: Rfc>(w: Seq<u8>, n: int, k: int)
        requires super::c05::clean::<A>(w, n), k <= n
        ensures super::c05::clean::<A>(w, k)
    { }
    /// a FINGERPRINT attribute of the message carries the CRC of what precedes it
    pub open spec fn matching(s: Seq<u8>, k: int) -> bool {
        let u = part(s).skip(at(part(s), k));
        kind(u) == 0x8028 ==> be32(value(u)) == crc(s, 20 + at(part(s), k))
    }
    /// the RFC 5389 attributes: FINGERPRINT alone decides
    pub proof fn verified(s: Seq<u8>)
        requires
            super::c02::good(s), s.len() >= 20 + super::c02::head(s).1, decoded::<rfc5389::Attribute>(part(s)) is Some,
            clean::<rfc5389::Attribute>(part(s), decoded::<rfc5389::Attribute>(part(s))->0.len() as int),
        ensures
            MessageDecoder::<rfc5389::Attribute>::run0(s) is Some,
            (MessageDecoder::<rfc5389::Attribute>::run0(s)->0).0 is Ok <==> forall|k: int| 0 <= k < decoded::<rfc5389::Attribute>(part(s))->0.len() ==> #[trigger] matching(s, k),
    {
        hide(coll0); hide(super::c05::clean); hide(after_all); hide(la_after); hide(at);
        let h = super::c02::head(s);
        let w = part(s);
        let r = decoded::<rfc5389::Attribute>(w)->0;
        decides::<rfc5389::Attribute>(s);
        assert forall|k: int| 0 <= k < r.len() implies agrees::<rfc5389::Attribute>(s, k) == #[trigger] matching(s, k) by { at_k(s, k); }
        assert forall|k: int| 0 <= k < r.len() implies #[trigger] agrees::<rfc5389::Attribute>(s, k) == matching(s, k) by { at_k(s, k); }
    }
    /// what attribute k of the RFC 5389 set refuses
    pub proof fn at_k(s: Seq<u8>, k: int)
        requires super::c02::good(s), s.len() >= 20 + super::c02::head(s).1, decoded::<rfc5389::Attribute>(part(s)) is Some, 0 <= k < decoded::<rfc5389::Attribute>(part(s))->0.len()
        ensures agrees::<rfc5389::Attribute>(s, k) == matching(s, k)
    {
        hide(coll0); hide(at);
        let w = part(s);
        let u = w.skip(at(w, k));
        laid::<rfc5389::Attribute>(w, k);
        preceding::<rfc5389::Attribute>(s, k, 8);
        let r = decoded::<rfc5389::Attribute>(w)->0;
        if r[k] is Known {
            rfc5389::Attribute::rewire(kind(u), value(u), super::c02::head(s).2, None);
            if kind(u) == 0x8028 {
                super::c13::fingerprint(Fingerprint { crc32: 0 }, value(u));
            }
        } else { assert(!knows::<rfc5389::Attribute>(kind(u))); }
    }
}
