/// C05 (and the ground C04, C11 and C12 stand on): what was received is what is encoded again.
pub mod c05 {
    use super::*;
    use super::c40::Rfc;
    use crate::seqs::*;
    use crate::spec::*;
    use crate::bytecodec::*;
    use crate::bytecodec::bytes::{AsRefBytes, AsMutBytes, bytes_run0};
    use crate::bytecodec::fixnum::*;
    use crate::bytecodec::combinator::*;
    use crate::message::*;
    use crate::attribute::*;
    use crate::method::Method;
    use crate::TransactionId;

    // ---- where an attribute lies in the octets w that start with it
    pub open spec fn kind(w: Seq<u8>) -> u16 { be16(w.take(2)) }
    pub open spec fn size(w: Seq<u8>) -> int { be16(w.subrange(2, 4)) as int }
    pub open spec fn span(w: Seq<u8>) -> int { 4 + size(w) + pad_len(size(w)) }
    pub open spec fn value(w: Seq<u8>) -> Seq<u8> { w.subrange(4, 4 + size(w)) }
    pub open spec fn padding(w: Seq<u8>) -> Seq<u8> { w.subrange(4 + size(w), span(w)) }
    /// a whole attribute: type, length, value, padding
    pub open spec fn fits(w: Seq<u8>) -> bool { w.len() >= 4 && w.len() >= span(w) }
    pub proof fn parts(w: Seq<u8>)
        requires fits(w)
        ensures
            w.take(span(w)) == eb16(kind(w)) + (eb16(size(w) as u16) + (value(w) + padding(w))),
            value(w).len() == size(w), size(w) <= 0xFFFF, padding(w).len() == pad_len(size(w)),
    {
        eb16_be16(w.take(2));
        eb16_be16(w.subrange(2, 4));
        assert(w.take(span(w)) =~= eb16(kind(w)) + (eb16(size(w) as u16) + (value(w) + padding(w))));
    }
    pub open spec fn knows<A: Attribute>(t: u16) -> bool { <A::Decoder as TryTaggedDecode>::knows(AttributeType(t)) }
    pub open spec fn typed<A: Attribute>(t: u16, v: Seq<u8>) -> Option<A> { whole(<A::Decoder as TryTaggedDecode>::tagged_run0(AttributeType(t), v)) }
    pub open spec fn padded<A>(a: LosslessAttribute<A>, p: Seq<u8>) -> bool {
        match a { LosslessAttribute::Known { padding, .. } => padding matches Some(q) && q.bytes() == p, LosslessAttribute::Unknown { padding, .. } => padding matches Some(q) && q.bytes() == p }
    }
    /// an attribute received as the octets w: known types as their decoder has it, others verbatim, padding kept
    pub open spec fn received<A: Attribute>(a: LosslessAttribute<A>, w: Seq<u8>) -> bool {
        &&& fits(w)
        &&& padded(a, padding(w))
        &&& match a {
            LosslessAttribute::Known { inner, .. } => knows::<A>(kind(w)) && typed::<A>(kind(w), value(w)) == Some(inner),
            LosslessAttribute::Unknown { inner, .. } => !knows::<A>(kind(w)) && inner.attr_type.0 == kind(w) && inner.value@ == value(w),
        }
    }
    pub proof fn attribute<A: Attribute>(w: Seq<u8>)
        ensures match LosslessAttributeDecoder::<A>::run0(w) {
            Some((a, t)) => received(a, w) && t == w.skip(span(w)) && span(w) >= 4,
            None => !fits(w) || (knows::<A>(kind(w)) && typed::<A>(kind(w), value(w)) is None),
        }
    {
        broadcast use contents;
        reveal(drop);
        if w.len() >= 4 {
            assert(drop(w, 2) =~= w.skip(2));
            assert(w.skip(2).take(2) =~= w.subrange(2, 4));
            assert(drop(w.skip(2), 2) =~= w.skip(4));
            let s = w.skip(4);
            let n = size(w);
            pad0_bytes(n);
            if s.len() >= n {
                assert(s.take(n) =~= value(w));
                assert(drop(s, n as nat) =~= s.skip(n));
                if s.len() >= n + pad_len(n) {
                    let p = padding(w);
                    assert(s.skip(n).take(pad_len(n)) =~= p);
                    pad0_with(n, p);
                    assert(drop(s.skip(n), pad_len(n) as nat) =~= w.skip(span(w)));
                }
            }
        }
    }
    /// reserved bits of the first attribute in w are zero
    pub open spec fn clean1<A: Rfc>(w: Seq<u8>) -> bool { knows::<A>(kind(w)) ==> A::clean(kind(w), value(w)) }
    /// one attribute: after the hooks of decoding and of encoding its octets are those received
    pub proof fn again1<A: Rfc>(a: LosslessAttribute<A>, w: Seq<u8>, tid: TransactionId, enc: Option<Seq<u8>>)
        requires received(a, w)
        ensures match la_after(a, tid, enc) {
            None => a matches LosslessAttribute::Known { inner, .. } && inner.refused(enc),
            Some(z) => {
                &&& a matches LosslessAttribute::Known { inner, .. } ==> !inner.refused(enc)
                &&& la_type(z) == kind(w)
                &&& z matches LosslessAttribute::Known { inner, .. } ==> inner.legal()
                &&& la_before(z, tid) matches Some(y) && (clean1::<A>(w) ==> la_enc(y) == Some(w.take(span(w))))
            },
        }
    {
        parts(w);
        match a {
            LosslessAttribute::Known { inner, padding } => { A::rewire(kind(w), value(w), tid, enc); },
            LosslessAttribute::Unknown { inner, padding } => { },
        }
    }

    // ---- the sequence of attributes in w
    /// where attribute i starts
    pub open spec fn at(w: Seq<u8>, i: int) -> int decreases i { if i <= 0 { 0 } else { span(w) + at(w.skip(span(w)), i - 1) } }
    pub open spec fn decoded<A: Attribute>(w: Seq<u8>) -> Option<Seq<LosslessAttribute<A>>> { coll0::<LosslessAttributeDecoder<A>>(w) }
    /// reserved bits of the first n attributes are zero
    pub open spec fn clean<A: Rfc>(w: Seq<u8>, n: int) -> bool { forall|i: int| 0 <= i < n ==> clean1::<A>(w.skip(#[trigger] at(w, i))) }
    pub proof fn laid<A: Attribute>(w: Seq<u8>, i: int)
        requires decoded::<A>(w) is Some, 0 <= i <= decoded::<A>(w)->0.len()
        ensures
            0 <= at(w, i) <= w.len(), i <= at(w, i),
            i == decoded::<A>(w)->0.len() ==> at(w, i) == w.len(),
            i < decoded::<A>(w)->0.len() ==> {
                let u = w.skip(at(w, i));
                received(decoded::<A>(w)->0[i], u) && at(w, i + 1) == at(w, i) + span(u) && at(w, i + 1) <= w.len()
            },
        decreases i
    {
        if w.len() > 0 {
            attribute::<A>(w);
            let t = w.skip(span(w));
            assert(at(w, 1) == span(w) + at(t, 0));
            assert(w.skip(0) =~= w);
            if i > 0 {
                laid::<A>(t, i - 1);
                assert(w.skip(at(w, i)) =~= t.skip(at(t, i - 1)));
            }
        }
    }
    pub proof fn after_len<A: Attribute>(c: MessageClass, m: Method, tid: TransactionId, r: Seq<LosslessAttribute<A>>, i: int)
        requires after_all(c, m, tid, r) is Some, 0 <= i <= r.len()
        ensures after_all(c, m, tid, r.take(i)) == Some(after_all(c, m, tid, r)->0.take(i)), after_all(c, m, tid, r)->0.len() == r.len()
        decreases r.len()
    {
        let z = after_all(c, m, tid, r)->0;
        if r.len() == 0 { assert(r.take(0) =~= r); assert(z.take(0) =~= z); }
        else {
            let d = r.drop_last();
            after_len(c, m, tid, d, if i == r.len() { d.len() as int } else { i });
            if i == r.len() { assert(r.take(i) =~= r); assert(z.take(i) =~= z); }
            else {
                assert(r.take(i) =~= d.take(i));
                assert(z.take(i) =~= after_all(c, m, tid, d)->0.take(i));
            }
        }
    }
    pub open spec fn prefix<A>(c: MessageClass, m: Method, tid: TransactionId, z: Seq<LosslessAttribute<A>>) -> Message<A> {
        Message { class: c, method: m, transaction_id: tid, attributes: mk_vec(z) }
    }
    /// every prefix of the attributes re-encodes to the octets it was received as
    pub proof fn again<A: Rfc>(c: MessageClass, m: Method, tid: TransactionId, w: Seq<u8>, i: int)
        requires
            w.len() <= 0xFFFF, decoded::<A>(w) is Some, 0 <= i <= decoded::<A>(w)->0.len(), clean::<A>(w, i),
            after_all(c, m, tid, decoded::<A>(w)->0.take(i)) is Some,
        ensures ({
            let z = after_all(c, m, tid, decoded::<A>(w)->0.take(i))->0;
            &&& z.len() == i
            &&& before_all(tid, z) is Some
            &&& enc_all::<LosslessAttributeEncoder<A>>(before_all(tid, z)->0) == Some(w.take(at(w, i)))
            &&& msg_enc(prefix(c, m, tid, z)) == Some(msg_bytes(c, m, tid, w.take(at(w, i))))
        })
        decreases i
    {
        broadcast use contents;
        let r = decoded::<A>(w)->0;
        let z = after_all(c, m, tid, r.take(i))->0;
        laid::<A>(w, i);
        if i == 0 {
            assert(w.take(0) =~= Seq::empty());
        } else {
            laid::<A>(w, i - 1);
            assert(r.take(i).drop_last() =~= r.take(i - 1));
            again::<A>(c, m, tid, w, i - 1);
            let p = after_all(c, m, tid, r.take(i - 1))->0;
            let e = msg_enc(prefix(c, m, tid, p));
            assert(r.take(i).last() == r[i - 1]);
            let u = w.skip(at(w, i - 1));
            again1::<A>(r[i - 1], u, tid, e);
            assert(clean1::<A>(u));
            let x = la_after(r[i - 1], tid, e)->0;
            assert(z == p.push(x));
            assert(z.drop_last() =~= p);
            let q = before_all(tid, p)->0;
            let y = la_before(x, tid)->0;
            assert(before_all(tid, z) == Some(q.push(y)));
            assert(q.push(y).drop_last() =~= q);
            assert(w.take(at(w, i - 1)) + u.take(span(u)) =~= w.take(at(w, i)));
        }
    }
    /// and if a hook fails, it is that of an attribute which refuses what precedes it in the octets received
    pub proof fn refusal<A: Rfc>(c: MessageClass, m: Method, tid: TransactionId, w: Seq<u8>, n: int) -> (k: int)
        requires w.len() <= 0xFFFF, decoded::<A>(w) is Some, 0 <= n <= decoded::<A>(w)->0.len(), clean::<A>(w, n), after_all(c, m, tid, decoded::<A>(w)->0.take(n)) is None
        ensures 0 <= k < n, decoded::<A>(w)->0[k] matches LosslessAttribute::Known { inner, .. } && inner.refused(Some(msg_bytes(c, m, tid, w.take(at(w, k)))))
        decreases n
    {
        let r = decoded::<A>(w)->0;
        assert(n > 0);
        assert(r.take(n).drop_last() =~= r.take(n - 1));
        assert(r.take(n).last() == r[n - 1]);
        if after_all(c, m, tid, r.take(n - 1)) is None { refusal::<A>(c, m, tid, w, n - 1) }
        else {
            again::<A>(c, m, tid, w, n - 1);
            laid::<A>(w, n - 1);
            let p = after_all(c, m, tid, r.take(n - 1))->0;
            again1::<A>(r[n - 1], w.skip(at(w, n - 1)), tid, msg_enc(prefix(c, m, tid, p)));
            n - 1
        }
    }
    pub proof fn accepted<A: Rfc>(c: MessageClass, m: Method, tid: TransactionId, w: Seq<u8>, k: int)
        requires w.len() <= 0xFFFF, decoded::<A>(w) is Some, 0 <= k < decoded::<A>(w)->0.len(), clean::<A>(w, k), after_all(c, m, tid, decoded::<A>(w)->0) is Some
        ensures
            decoded::<A>(w)->0[k] matches LosslessAttribute::Known { inner, .. } ==> !inner.refused(Some(msg_bytes(c, m, tid, w.take(at(w, k))))),
            la_after(decoded::<A>(w)->0[k], tid, Some(msg_bytes(c, m, tid, w.take(at(w, k))))) == Some(after_all(c, m, tid, decoded::<A>(w)->0)->0[k]),
    {
        let r = decoded::<A>(w)->0;
        after_len(c, m, tid, r, k);
        after_len(c, m, tid, r, k + 1);
        assert(r.take(k + 1).drop_last() =~= r.take(k));
        assert(r.take(k + 1).last() == r[k]);
        again::<A>(c, m, tid, w, k);
        laid::<A>(w, k);
        let p = after_all(c, m, tid, r.take(k))->0;
        again1::<A>(r[k], w.skip(at(w, k)), tid, msg_enc(prefix(c, m, tid, p)));
        let z = after_all(c, m, tid, r)->0;
        let x = la_after(r[k], tid, msg_enc(prefix(c, m, tid, p)))->0;
        assert(after_all(c, m, tid, r.take(k + 1)) == Some(p.push(x)));
        assert(z.take(k + 1) == p.push(x));
        assert(z.take(k + 1)[k] == z[k]);
        assert(p.len() == k);
        assert(p.push(x)[k] == x);
    }

    // ---- whole messages
    /// the octets behind the header
    pub open spec fn part(s: Seq<u8>) -> Seq<u8> { s.subrange(20, 20 + super::c02::head(s).1) }
    /// the header is what msg_bytes writes
    pub proof fn header_again(s: Seq<u8>)
        requires super::c02::good(s), s.len() >= 20 + super::c02::head(s).1
        ensures ({
            let h = super::c02::head(s);
            msg_bytes(h.0.class, h.0.method, h.2, part(s)) == s.take(20 + h.1)
        })
    {
        broadcast use contents;
        let h = super::c02::head(s);
        let t = be16(s.take(2));
        assert(t < 0x4000) by { assert(s[0] < 0x40); }
        type_bits_bits(t);
        eb16_be16(s.take(2));
        eb16_be16(s.subrange(2, 4));
        super::c02::cookie_number();
        assert(h.2.0@ == s.subrange(8, 20));
        assert(s.subrange(4, 8) == eb32(0x2112A442));
        assert(msg_bytes(h.0.class, h.0.method, h.2, part(s)) =~= s.take(20 + h.1));
    }
    /// what the decoder delivers, in terms of the octets
    pub proof fn outcome<A: Attribute>(s: Seq<u8>)
        ensures match MessageDecoder::<A>::run0(s) {
            None => !super::c02::good(s) || s.len() < 20 + super::c02::head(s).1,
            Some((m, t)) => {
                let h = super::c02::head(s);
                &&& super::c02::good(s) && s.len() >= 20 + h.1 && t == s.skip(20 + h.1)
                &&& m == with_hooks::<A>(h, match decoded::<A>(part(s)) { Some(r) => Some(mk_vec(r)), None => None })
            },
        }
    {
        super::c02::header(s);
        reveal(body0); reveal(drop);
        if super::c02::good(s) {
            let h = super::c02::head(s);
            let d = drop(s, 20);
            assert(d =~= s.skip(20));
            if d.len() >= h.1 {
                assert(d.take(h.1 as int) =~= part(s));
                assert(drop(d, h.1 as nat) =~= s.skip(20 + h.1));
            }
        }
    }
    /// C05
    pub proof fn reencoded<A: Rfc>(s: Seq<u8>)
        ensures match MessageDecoder::<A>::run0(s) {
            Some((Ok(m), t)) => clean::<A>(part(s), m.attributes@.len() as int) ==> msg_enc(m) == Some(s.take(s.len() - t.len())),
            _ => true,
        }
    {
        broadcast use contents;
        outcome::<A>(s);
        match MessageDecoder::<A>::run0(s) {
            Some((Ok(m), t)) => {
                let h = super::c02::head(s);
                let w = part(s);
                let r = decoded::<A>(w)->0;
                laid::<A>(w, r.len() as int);
                after_len(h.0.class, h.0.method, h.2, r, r.len() as int);
                assert(r.take(r.len() as int) =~= r);
                assert(w.take(w.len() as int) =~= w);
                header_again(s);
                if clean::<A>(w, m.attributes@.len() as int) { again::<A>(h.0.class, h.0.method, h.2, w, r.len() as int); }
            },
            _ => { },
        }
    }
}
