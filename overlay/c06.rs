/// C06: decoding is total and stays inside the declared length.
pub mod c06 {
    use super::*;
    use super::c05::{laid, after_len, outcome, part, decoded};
    use super::c02::{good, head};
    use crate::seqs::*;
    use crate::bytecodec::*;
    use crate::bytecodec::combinator::coll0;
    use crate::message::*;
    use crate::attribute::*;

    /// message or report: exactly 20 octets and the declared length are consumed; an input that ends earlier gives neither
    pub proof fn extent<A: Attribute>(s: Seq<u8>)
        ensures
            MessageDecoder::<A>::run0(s) is Some <==> good(s) && s.len() >= 20 + head(s).1,
            MessageDecoder::<A>::run0(s) matches Some((_, t)) ==> t == s.skip(20 + head(s).1),
    { outcome::<A>(s); }
    /// what follows the message does not matter
    pub proof fn inside<A: Attribute>(s: Seq<u8>, t: Seq<u8>)
        requires good(s), s.len() >= 20 + head(s).1
        ensures (MessageDecoder::<A>::run0(s)->0).0 == (MessageDecoder::<A>::run0(s + t)->0).0
    {
        outcome::<A>(s); outcome::<A>(s + t);
        assert((s + t).take(2) =~= s.take(2)); assert((s + t).subrange(2, 4) =~= s.subrange(2, 4));
        assert((s + t).subrange(4, 8) =~= s.subrange(4, 8)); assert((s + t).subrange(8, 20) =~= s.subrange(8, 20));
        assert(part(s + t) =~= part(s));
    }
    /// attributes that do not decode always give a report, with class, method and transaction id of the header
    pub proof fn malformed<A: Attribute>(s: Seq<u8>)
        requires good(s), s.len() >= 20 + head(s).1, decoded::<A>(part(s)) is None
        ensures MessageDecoder::<A>::run0(s) == Some((broken::<A>(head(s)), s.skip(20 + head(s).1)))
    { outcome::<A>(s); }
    /// and a message is delivered only with every attribute decoded and accepted by its hook
    pub proof fn delivered<A: Attribute>(s: Seq<u8>)
        ensures MessageDecoder::<A>::run0(s) matches Some((Ok(m), _)) ==> {
            &&& m.class == head(s).0.class && m.method == head(s).0.method && m.transaction_id == head(s).2
            &&& decoded::<A>(part(s)) matches Some(r) && after_all(m.class, m.method, m.transaction_id, r) == Some(m.attributes@)
        }
    {
        hide(after_all); hide(coll0);
        outcome::<A>(s);
        let h = head(s);
        if good(s) && s.len() >= 20 + h.1 && decoded::<A>(part(s)) is Some {
            assert(part(s).len() <= 0xFFFF);
            let r = decoded::<A>(part(s))->0;
            laid::<A>(part(s), r.len() as int);
            if after_all(h.0.class, h.0.method, h.2, r) is Some { after_len::<A>(h.0.class, h.0.method, h.2, r, r.len() as int); }
            assert(mk_vec(r)@ == r) by { broadcast use contents; }
            let o = after_all(h.0.class, h.0.method, h.2, r);
            if o is Some { assert(mk_vec(o->0)@ == o->0) by { broadcast use contents; } }
        }
    }
}
