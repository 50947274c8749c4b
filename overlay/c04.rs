/// C04: decoding an encoded message gives back the same message.
pub mod c04 {
    use super::*;
    use super::c05::*;
    use super::c40::Rfc;
    use super::c03::in_order;
    use crate::seqs::*;
    use crate::spec::*;
    use crate::bytecodec::*;
    use crate::bytecodec::combinator::*;
    use crate::message::*;
    use crate::attribute::*;
    use crate::method::Method;
    use crate::TransactionId;

    /// an attribute as add_attribute stores it, its value made by a public constructor
    pub open spec fn legal<A: Rfc>(a: LosslessAttribute<A>) -> bool { a matches LosslessAttribute::Known { inner, padding } && padding is None && inner.legal() }
    pub open spec fn all_legal<A: Rfc>(s: Seq<LosslessAttribute<A>>) -> bool { forall|i: int| 0 <= i < s.len() ==> legal(#[trigger] s[i]) }
    /// what the decoder makes of the value octets of a
    pub open spec fn image<A: Rfc>(a: LosslessAttribute<A>, tid: TransactionId) -> Option<A> {
        match la_before(a, tid) {
            Some(LosslessAttribute::Known { inner, .. }) => match <A::Encoder as Encode>::enc(inner) { Some(v) => typed::<A>(inner.type_of(), v), None => None },
            _ => None,
        }
    }
    pub open spec fn arrives<A: Rfc>(z: LosslessAttribute<A>, a: LosslessAttribute<A>, tid: TransactionId) -> bool {
        z matches LosslessAttribute::Known { inner, .. } && image(a, tid) == Some(inner)
    }
    pub open spec fn inner<A>(a: LosslessAttribute<A>) -> A { a->Known_inner }
    /// the received attribute after its hook: the same value, unless the hook refuses it
    pub proof fn hooked<A: Rfc>(z: LosslessAttribute<A>, a: LosslessAttribute<A>, tid: TransactionId, enc: Option<Seq<u8>>)
        requires legal(a), arrives(z, a, tid), la_before(a, tid) matches Some(y) && la_enc(y) is Some
        ensures match la_after(z, tid, enc) {
            None => inner(a).refused(enc),
            Some(x) => x is Known && inner(a).same(inner(x)) && !inner(a).refused(enc),
        }
    {
        let y = inner(la_before(a, tid)->0);
        inner(a).round(tid, enc, <A::Encoder as Encode>::enc(y)->0);
    }
    /// one attribute is decoded from its encoding, whatever follows
    pub proof fn one<A: Rfc>(a: LosslessAttribute<A>, tid: TransactionId, e: Seq<u8>, t: Seq<u8>)
        requires legal(a), la_before(a, tid) matches Some(y) && la_enc(y) == Some(e)
        ensures
            e.len() >= 4, fits(e + t), span(e + t) == e.len(), clean1::<A>(e + t),
            LosslessAttributeDecoder::<A>::run0(e + t) matches Some((z, u)) && u == t && arrives(z, a, tid),
    {
        let y = inner(la_before(a, tid)->0);
        let v = <A::Encoder as Encode>::enc(y)->0;
        let w = e + t;
        inner(a).round(tid, None, v);
        pad0_bytes(v.len() as int);
        be16_eb16(la_type(la_before(a, tid)->0));
        be16_eb16(v.len() as u16);
        assert(w.take(2) =~= eb16(la_type(la_before(a, tid)->0)));
        assert(w.subrange(2, 4) =~= eb16(v.len() as u16));
        assert(size(w) == v.len());
        assert(value(w) =~= v);
        attribute::<A>(w);
        assert(w.skip(span(w)) =~= t);
    }
    /// how many octets the first i attributes encode to
    #[verifier::opaque]
    pub open spec fn off<A: Rfc>(s: Seq<LosslessAttribute<A>>, tid: TransactionId, i: int) -> int {
        enc_all::<LosslessAttributeEncoder<A>>(before_all(tid, s.take(i))->0)->0.len() as int
    }
    /// one after another
    pub proof fn all<A: Rfc>(s: Seq<LosslessAttribute<A>>, tid: TransactionId, t: Seq<u8>)
        requires
            all_legal(s), before_all(tid, s) is Some, enc_all::<LosslessAttributeEncoder<A>>(before_all(tid, s)->0) is Some,
            decoded::<A>(t) is Some,
        ensures ({
            let b = enc_all::<LosslessAttributeEncoder<A>>(before_all(tid, s)->0)->0;
            let w = b + t;
            &&& before_all(tid, s)->0.len() == s.len()
            &&& decoded::<A>(w) is Some && decoded::<A>(w)->0.len() == s.len() + decoded::<A>(t)->0.len()
            &&& at(w, s.len() as int) == b.len()
            &&& forall|i: int| 0 <= i < s.len() ==> arrives(#[trigger] decoded::<A>(w)->0[i], s[i], tid)
            &&& clean::<A>(w, s.len() as int)
            &&& forall|i: int| 0 <= i <= s.len() ==> #[trigger] at(w, i) == off(s, tid, i)
        })
        decreases s.len()
    {
        let b = enc_all::<LosslessAttributeEncoder<A>>(before_all(tid, s)->0)->0;
        let n = s.len() as int;
        if n == 0 {
            assert(b + t =~= t);
            assert(s.take(0) =~= s);
            reveal(off);
        } else {
            let d = s.drop_last();
            let y = before_all(tid, s)->0;
            let e = la_enc(y.last())->0;
            let c = enc_all::<LosslessAttributeEncoder<A>>(before_all(tid, d)->0)->0;
            assert(y.drop_last() =~= before_all(tid, d)->0);
            let u = e + t;
            assert(legal(s[n - 1]));
            one(s[n - 1], tid, e, t);
            let z = (LosslessAttributeDecoder::<A>::run0(u)->0).0;
            assert(decoded::<A>(u) == Some(seq![z] + decoded::<A>(t)->0));
            all::<A>(d, tid, u);
            let w = b + t;
            assert(w =~= c + u);
            let r = decoded::<A>(w)->0;
            laid::<A>(w, n - 1);
            assert(w.skip(at(w, n - 1)) =~= u);
            attribute::<A>(u);
            assert(at(w, n) == b.len());
            // the attribute at n-1 is the one u starts with
            assert(r[n - 1] == z) by { tail_is::<A>(w, n - 1); assert(r.skip(n - 1)[0] == r[n - 1]); assert((seq![z] + decoded::<A>(t)->0)[0] == z); }
            assert forall|i: int| 0 <= i <= n implies #[trigger] at(w, i) == off(s, tid, i) by {
                if i < n { assert(d.take(i) =~= s.take(i)); assert(at(w, i) == off(d, tid, i)); reveal(off); } else { assert(s.take(n) =~= s); reveal(off); }
            }
            assert forall|i: int| 0 <= i < s.len() implies arrives(#[trigger] r[i], s[i], tid) by { if i < n - 1 { assert(s[i] == d[i]); } }
            assert forall|i: int| 0 <= i < n implies clean1::<A>(w.skip(#[trigger] at(w, i))) by { }
        }
    }
    /// what is decoded behind the first i attributes
    pub proof fn tail_is<A: Attribute>(w: Seq<u8>, i: int)
        requires decoded::<A>(w) is Some, 0 <= i <= decoded::<A>(w)->0.len()
        ensures decoded::<A>(w.skip(at(w, i))) == Some(decoded::<A>(w)->0.skip(i)), 0 <= at(w, i) <= w.len()
        decreases i
    {
        laid::<A>(w, i);
        let r = decoded::<A>(w)->0;
        if i == 0 { assert(w.skip(0) =~= w); assert(r.skip(0) =~= r); }
        else {
            laid::<A>(w, 0);
            attribute::<A>(w);
            let t = w.skip(span(w));
            tail_is::<A>(t, i - 1);
            assert(w.skip(at(w, i)) =~= t.skip(at(t, i - 1)));
            assert(r.skip(i) =~= decoded::<A>(t)->0.skip(i - 1));
        }
    }
    /// the attributes before attribute i, as octets
    pub proof fn before_it<A: Rfc>(m: Message<A>, i: int)
        requires all_legal(m.attributes@), msg_enc(m) is Some, 0 <= i <= m.attributes@.len()
        ensures ({
            let w = msg_enc(m)->0.skip(20);
            msg_enc(prefix(m.class, m.method, m.transaction_id, m.attributes@.take(i))) == Some(msg_bytes(m.class, m.method, m.transaction_id, w.take(at(w, i)))) && 0 <= at(w, i) <= w.len()
        })
    {
        hide(enc_all); hide(super::c05::clean); hide(before_all);
        assert(decoded::<A>(Seq::empty()) == Some(Seq::<LosslessAttribute<A>>::empty()));
        broadcast use contents;
        let s = m.attributes@;
        let tid = m.transaction_id;
        let y = before_all(tid, s)->0;
        let w = msg_enc(m)->0.skip(20);
        assert(w =~= enc_all::<LosslessAttributeEncoder<A>>(y)->0);
        all(s, tid, Seq::empty());
        assert(w + Seq::empty() =~= w);
        laid::<A>(w, i);
        prefixes(s, tid, i);
        crate::seqs::vec_is(m.attributes);
        let p = s.take(i);
        assert(mk_vec(p)@ == p);
        let c = enc_all::<LosslessAttributeEncoder<A>>(before_all(tid, p)->0)->0;
        assert(at(w, i) == off(s, tid, i));
        assert(at(w, i) == c.len()) by { reveal(off); }
    }
    pub proof fn prefixes<A: Attribute>(s: Seq<LosslessAttribute<A>>, tid: TransactionId, i: int)
        requires before_all(tid, s) is Some, enc_all::<LosslessAttributeEncoder<A>>(before_all(tid, s)->0) is Some, 0 <= i <= s.len()
        ensures
            before_all(tid, s.take(i)) is Some, before_all(tid, s.take(i))->0 == before_all(tid, s)->0.take(i),
            enc_all::<LosslessAttributeEncoder<A>>(before_all(tid, s.take(i))->0) is Some,
            enc_all::<LosslessAttributeEncoder<A>>(before_all(tid, s)->0)->0.len() >= enc_all::<LosslessAttributeEncoder<A>>(before_all(tid, s.take(i))->0)->0.len(),
            enc_all::<LosslessAttributeEncoder<A>>(before_all(tid, s)->0)->0.take(enc_all::<LosslessAttributeEncoder<A>>(before_all(tid, s.take(i))->0)->0.len() as int) == enc_all::<LosslessAttributeEncoder<A>>(before_all(tid, s.take(i))->0)->0,
            before_all(tid, s)->0.len() == s.len(),
        decreases s.len()
    {
        let y = before_all(tid, s)->0;
        let b = enc_all::<LosslessAttributeEncoder<A>>(y)->0;
        super::c03::hooks_keep(tid, s);
        if i == s.len() { assert(s.take(i) =~= s); assert(y.take(i) =~= y); assert(b.take(b.len() as int) =~= b); }
        else {
            let d = s.drop_last();
            assert(y.drop_last() =~= before_all(tid, d)->0);
            prefixes(d, tid, i);
            assert(s.take(i) =~= d.take(i));
            assert(y.take(i) =~= y.drop_last().take(i));
            let c = enc_all::<LosslessAttributeEncoder<A>>(before_all(tid, d)->0)->0;
            let p = enc_all::<LosslessAttributeEncoder<A>>(before_all(tid, s.take(i))->0)->0;
            assert(b.take(p.len() as int) =~= c.take(p.len() as int));
        }
    }
    pub open spec fn same_attributes<A: Rfc>(s: Seq<LosslessAttribute<A>>, z: Seq<LosslessAttribute<A>>) -> bool {
        z.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> #[trigger] z[i] is Known && inner(s[i]).same(inner(z[i]))
    }
    /// C04: the same message, from exactly the octets encoded; unless an attribute refuses what precedes it (a FINGERPRINT of something else)
    pub proof fn through<A: Rfc>(m: Message<A>)
        requires all_legal(m.attributes@), m.method.0 < 0x1000, msg_enc(m) is Some
        ensures match MessageDecoder::<A>::run0(msg_enc(m)->0) {
            None => false,
            Some((Ok(z), t)) => {
                &&& t.len() == 0 && z.class == m.class && z.method == m.method && z.transaction_id == m.transaction_id
                &&& same_attributes(m.attributes@, z.attributes@)
                &&& forall|k: int| 0 <= k < m.attributes@.len() ==> !inner(#[trigger] m.attributes@[k]).refused(msg_enc(prefix(m.class, m.method, m.transaction_id, m.attributes@.take(k))))
            },
            Some((Err(_), t)) => t.len() == 0 && exists|k: int| 0 <= k < m.attributes@.len() && inner(#[trigger] m.attributes@[k]).refused(msg_enc(prefix(m.class, m.method, m.transaction_id, m.attributes@.take(k)))),
        }
    {
        hide(coll0); hide(enc_all); hide(super::c05::clean); hide(before_all); hide(after_all); hide(msg_enc); hide(la_after); hide(at);
        let w = msg_enc(m)->0.skip(20);
        let tid = m.transaction_id;
        let s = m.attributes@;
        received_all(m);
        let r = decoded::<A>(w)->0;
        let n = s.len() as int;
        assert(r.take(n) =~= r);
        match after_all(m.class, m.method, tid, r) {
            None => {
                let k = refusal::<A>(m.class, m.method, tid, w, n);
                verdict(m, k);
                assert(inner(s[k]).refused(msg_enc(prefix(m.class, m.method, tid, s.take(k)))));
            },
            Some(z) => {
                after_len(m.class, m.method, tid, r, n);
                assert(mk_vec(z)@ == z) by { broadcast use contents; laid::<A>(w, n); }
                assert forall|k: int| 0 <= k < n implies (#[trigger] z[k]) is Known && inner(s[k]).same(inner(z[k])) && !inner(s[k]).refused(msg_enc(prefix(m.class, m.method, tid, s.take(k)))) by {
                    clean_less::<A>(w, n, k);
                    accepted::<A>(m.class, m.method, tid, w, k);
                    verdict(m, k);
                }
                assert forall|k: int| 0 <= k < s.len() implies !inner(#[trigger] s[k]).refused(msg_enc(prefix(m.class, m.method, m.transaction_id, s.take(k)))) by { assert(z[k] is Known); }
            },
        }
    }
    /// all attributes arrive, in order; what is left is the hooks
    proof fn received_all<A: Rfc>(m: Message<A>)
        requires all_legal(m.attributes@), m.method.0 < 0x1000, msg_enc(m) is Some
        ensures ({
            let w = msg_enc(m)->0.skip(20);
            let s = m.attributes@;
            &&& w.len() <= 0xFFFF
            &&& decoded::<A>(w) is Some && decoded::<A>(w)->0.len() == s.len()
            &&& super::c05::clean::<A>(w, s.len() as int)
            &&& forall|i: int| 0 <= i < s.len() ==> arrives(#[trigger] decoded::<A>(w)->0[i], s[i], m.transaction_id)
            &&& MessageDecoder::<A>::run0(msg_enc(m)->0) == Some((match after_all(m.class, m.method, m.transaction_id, decoded::<A>(w)->0) {
                    None => broken::<A>((Type { class: m.class, method: m.method }, w.len() as u16, m.transaction_id)),
                    Some(p) => Ok(prefix(m.class, m.method, m.transaction_id, p)),
                }, Seq::<u8>::empty()))
        })
    {
        hide(enc_all); hide(super::c05::clean); hide(before_all); hide(after_all); hide(at);
        let b = msg_enc(m)->0;
        let w = b.skip(20);
        let s = m.attributes@;
        super::c02::encoded(m);
        super::c02::through(m);
        outcome::<A>(b);
        assert(part(b) =~= w);
        assert(b.skip(b.len() as int) =~= Seq::<u8>::empty());
        assert(w =~= enc_all::<LosslessAttributeEncoder<A>>(before_all(m.transaction_id, s)->0)->0);
        assert(decoded::<A>(Seq::empty()) == Some(Seq::<LosslessAttribute<A>>::empty()));
        all(s, m.transaction_id, Seq::empty());
        assert(w + Seq::empty() =~= w);
        let r = decoded::<A>(w)->0;
        laid::<A>(w, s.len() as int);
        assert(mk_vec(r)@ == r) by { broadcast use contents; }
    }
    /// what the hook says to attribute k: the same as of the attribute encoded
    proof fn verdict<A: Rfc>(m: Message<A>, k: int)
        requires all_legal(m.attributes@), m.method.0 < 0x1000, msg_enc(m) is Some, 0 <= k < m.attributes@.len()
        ensures ({
            let w = msg_enc(m)->0.skip(20);
            let e = msg_enc(prefix(m.class, m.method, m.transaction_id, m.attributes@.take(k)));
            let z = decoded::<A>(w)->0[k];
            let a = m.attributes@[k];
            &&& e == Some(msg_bytes(m.class, m.method, m.transaction_id, w.take(at(w, k))))
            &&& z is Known && inner(z).refused(e) ==> inner(a).refused(e)
            &&& match la_after(z, m.transaction_id, e) { None => inner(a).refused(e), Some(x) => x is Known && inner(a).same(inner(x)) && !inner(a).refused(e) }
        })
    {
        hide(enc_all); hide(super::c05::clean); hide(before_all); hide(after_all); hide(at);
        let w = msg_enc(m)->0.skip(20);
        let tid = m.transaction_id;
        let s = m.attributes@;
        received_all(m);
        before_it(m, k);
        encodable(s, tid, k);
        laid::<A>(w, k);
        let e = msg_enc(prefix(m.class, m.method, tid, s.take(k)));
        assert(legal(s[k]));
        hooked(decoded::<A>(w)->0[k], s[k], tid, e);
        again1::<A>(decoded::<A>(w)->0[k], w.skip(at(w, k)), tid, e);
    }
    proof fn clean_less<A: Rfc>(w: Seq<u8>, n: int, k: int)
        requires super::c05::clean::<A>(w, n), k <= n
        ensures super::c05::clean::<A>(w, k)
    { }
    /// each attribute of a message that encodes does
    proof fn encodable<A: Rfc>(s: Seq<LosslessAttribute<A>>, tid: TransactionId, k: int)
        requires before_all(tid, s) is Some, enc_all::<LosslessAttributeEncoder<A>>(before_all(tid, s)->0) is Some, 0 <= k < s.len()
        ensures la_before(s[k], tid) matches Some(y) && la_enc(y) is Some
    {
        super::c03::hooks_keep(tid, s);
        in_order(before_all(tid, s)->0, k);
    }
}
