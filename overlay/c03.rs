/// C03: encoded messages are TLV streams of the declared length.
pub mod c03 {
    use super::*;
    use crate::seqs::*;
    use crate::bytecodec::*;
    use crate::bytecodec::combinator::*;
    use crate::message::*;
    use crate::attribute::*;

    pub open spec fn zeros(n: int) -> Seq<u8> { Seq::new(n as nat, |i: int| 0u8) }
    /// the padding an attribute carries fits the length of its value
    pub open spec fn tidy<A: Attribute>(a: LosslessAttribute<A>) -> bool {
        la_value(a) matches Some(v) ==> la_padding(a, v.len() as int).len() == pad_len(v.len() as int)
    }
    pub open spec fn built<A>(a: LosslessAttribute<A>) -> bool { a matches LosslessAttribute::Known { padding, .. } && padding is None }
    pub open spec fn all_tidy<A: Attribute>(s: Seq<LosslessAttribute<A>>) -> bool { forall|i: int| 0 <= i < s.len() ==> tidy(#[trigger] s[i]) }
    pub open spec fn all_built<A>(s: Seq<LosslessAttribute<A>>) -> bool { forall|i: int| 0 <= i < s.len() ==> built(#[trigger] s[i]) }
    /// attributes given to add_attribute have no padding of their own: it is the minimal number of zeros
    pub proof fn built_tidy<A: Attribute>(a: LosslessAttribute<A>)
        requires built(a)
        ensures tidy(a), forall|n: int| #[trigger] la_padding(a, n) == zeros(pad_len(n))
    { assert forall|n: int| #[trigger] la_padding(a, n) == zeros(pad_len(n)) by { pad0_bytes(n); } }
    pub open spec fn tlv(t: u16, v: Seq<u8>, pad: Seq<u8>) -> Seq<u8> { eb16(t) + eb16(v.len() as u16) + v + pad }
    /// one attribute: type, true length, value, padding to a multiple of four; refused when the length does not fit
    pub proof fn one<A: Attribute>(a: LosslessAttribute<A>)
        ensures match la_value(a) {
            None => la_enc(a) is None,
            Some(v) => if v.len() > 0xFFFF { la_enc(a) is None } else {
                &&& la_enc(a) == Some(tlv(la_type(a), v, la_padding(a, v.len() as int)))
                &&& be16(eb16(v.len() as u16)) == v.len()
                &&& tidy(a) ==> la_enc(a)->0.len() % 4 == 0 && la_padding(a, v.len() as int).len() < 4
                &&& built(a) ==> la_padding(a, v.len() as int) == zeros(pad_len(v.len() as int))
            },
        }
    {
        if la_value(a) is Some {
            let v = la_value(a)->0;
            let p = la_padding(a, v.len() as int);
            if built(a) { built_tidy(a); }
            be16_eb16(v.len() as u16);
            assert(eb16(la_type(a)) + (eb16(v.len() as u16) + (v + p)) =~= tlv(la_type(a), v, p));
        }
    }
    /// the attributes follow one another in order, each where the previous one ends
    pub proof fn in_order<A: Attribute>(s: Seq<LosslessAttribute<A>>, i: int)
        requires enc_all::<LosslessAttributeEncoder<A>>(s) is Some, 0 <= i < s.len()
        ensures ({
            let o = enc_all::<LosslessAttributeEncoder<A>>(s.take(i));
            let e = enc_all::<LosslessAttributeEncoder<A>>(s.take(i + 1));
            let b = enc_all::<LosslessAttributeEncoder<A>>(s)->0;
            &&& o is Some && e is Some && la_enc(s[i]) is Some
            &&& e->0 == o->0 + la_enc(s[i])->0
            &&& e->0.len() <= b.len()
            &&& b.take(e->0.len() as int) == e->0
            &&& b.subrange(o->0.len() as int, e->0.len() as int) == la_enc(s[i])->0
        })
        decreases s.len() - i
    {
        let b = enc_all::<LosslessAttributeEncoder<A>>(s)->0;
        assert(s.take(i + 1).drop_last() =~= s.take(i));
        assert(s.take(i + 1).last() == s[i]);
        if i == s.len() - 1 {
            assert(s.take(i + 1) =~= s);
            assert(b.take(b.len() as int) =~= b);
        } else {
            in_order(s, i + 1);
            assert(s.take(i + 2).drop_last() =~= s.take(i + 1));
            let e = enc_all::<LosslessAttributeEncoder<A>>(s.take(i + 1))->0;
            let f = enc_all::<LosslessAttributeEncoder<A>>(s.take(i + 2))->0;
            assert(b.take(e.len() as int) =~= f.take(e.len() as int));
            assert(f.take(e.len() as int) =~= e);
        }
        let o = enc_all::<LosslessAttributeEncoder<A>>(s.take(i))->0;
        let e = enc_all::<LosslessAttributeEncoder<A>>(s.take(i + 1))->0;
        assert(b.subrange(o.len() as int, e.len() as int) =~= b.take(e.len() as int).subrange(o.len() as int, e.len() as int));
        assert(e.subrange(o.len() as int, e.len() as int) =~= la_enc(s[i])->0);
    }
    pub proof fn aligned<A: Attribute>(s: Seq<LosslessAttribute<A>>)
        requires all_tidy(s), enc_all::<LosslessAttributeEncoder<A>>(s) is Some
        ensures enc_all::<LosslessAttributeEncoder<A>>(s)->0.len() % 4 == 0
        decreases s.len()
    {
        if s.len() > 0 {
            assert forall|i: int| 0 <= i < s.drop_last().len() implies tidy(#[trigger] s.drop_last()[i]) by { assert(tidy(s[i])); }
            aligned(s.drop_last());
            assert(tidy(s[s.len() - 1]));
            one(s.last());
        }
    }
    /// the hooks keep order, number and padding of the attributes
    pub proof fn hooks_keep<A: Attribute>(tid: crate::TransactionId, s: Seq<LosslessAttribute<A>>)
        requires before_all(tid, s) is Some
        ensures
            before_all(tid, s)->0.len() == s.len(),
            forall|i: int| 0 <= i < s.len() ==> la_before(s[i], tid) == Some(#[trigger] before_all(tid, s)->0[i]),
        decreases s.len()
    {
        if s.len() > 0 {
            hooks_keep(tid, s.drop_last());
            assert forall|i: int| 0 <= i < s.len() implies la_before(s[i], tid) == Some(#[trigger] before_all(tid, s)->0[i]) by {
                if i < s.len() - 1 { assert(before_all(tid, s)->0[i] == before_all(tid, s.drop_last())->0[i]); }
            }
        }
    }
    /// a message of constructed attributes: declared length = octets behind the header = multiple of four
    pub proof fn constructed<A: Attribute>(m: Message<A>)
        requires msg_enc(m) is Some, all_built(m.attributes@)
        ensures
            msg_enc(m)->0.len() % 4 == 0,
            be16(msg_enc(m)->0.subrange(2, 4)) == msg_enc(m)->0.len() - 20,
    {
        let s = before_all(m.transaction_id, m.attributes@)->0;
        hooks_keep(m.transaction_id, m.attributes@);
        assert forall|i: int| 0 <= i < s.len() implies tidy(#[trigger] s[i]) by { assert(built(m.attributes@[i])); built_tidy(s[i]); }
        aligned(s);
        super::c02::encoded(m);
    }
    /// the octets behind the header are the attributes in the order in which they were added
    pub proof fn body<A: Attribute>(m: Message<A>)
        requires msg_enc(m) is Some
        ensures
            before_all(m.transaction_id, m.attributes@) is Some,
            before_all(m.transaction_id, m.attributes@)->0.len() == m.attributes@.len(),
            enc_all::<LosslessAttributeEncoder<A>>(before_all(m.transaction_id, m.attributes@)->0) == Some(msg_enc(m)->0.skip(20)),
    {
        hooks_keep(m.transaction_id, m.attributes@);
        let b = enc_all::<LosslessAttributeEncoder<A>>(before_all(m.transaction_id, m.attributes@)->0)->0;
        assert(msg_enc(m)->0.skip(20) =~= b);
    }
    /// nothing is wrapped: an attribute part of more than 65535 octets is refused
    pub proof fn refused<A: Attribute>(m: Message<A>)
        ensures match before_all(m.transaction_id, m.attributes@) {
            Some(s) => match enc_all::<LosslessAttributeEncoder<A>>(s) { Some(b) => b.len() > 0xFFFF ==> msg_enc(m) is None, None => msg_enc(m) is None },
            None => msg_enc(m) is None,
        }
    { }
}
