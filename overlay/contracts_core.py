"""Contracts of the modules `attribute` and `message`: TLV framing, message framing, hooks."""
from contracts_leaf import decode_impl, encode_impl, sub_run, is_

def add(c):
    attribute(c)
    lossless(c)
    message(c)

def attribute(c):
    c.impl('attribute::trait Attribute', '''
        /// the attribute type on the wire
        spec fn type_of(&self) -> u16;
        /// what before_encode turns the attribute into (None: it fails)
        spec fn before_spec(&self, tid: TransactionId) -> Option<Self>;
        /// what after_decode turns the attribute into, given what the preceding part of the message encodes to
        spec fn after_spec(&self, tid: TransactionId, enc: Option<Seq<u8>>) -> Option<Self>;
        proof fn items_ok() ensures forall|i: Self| #[trigger] <Self::Encoder as Encode>::item_ok(i);''')
    k = 'attribute::trait Attribute::'
    c.fn(k + 'get_type', '            ensures r.0 == self.type_of(),')
    hook = '''            ensures match old(self).%s { Some(x) => r is Ok && *final(self) == x, None => r is Err },'''
    c.fn(k + 'before_encode', hook % 'before_spec(message.transaction_id)')
    c.fn(k + 'after_decode', hook % 'after_spec(message.transaction_id, any_enc(*message))')
    p = 'attribute::AttributeType::'
    c.fn(p + 'new', is_('AttributeType(codepoint)'))
    c.fn(p + 'as_u16', is_('self.0'))
    c.fn(p + 'is_comprehension_required', is_('(self.0 < 0x8000)'))
    c.fn(p + 'is_comprehension_optional', is_('(self.0 >= 0x8000)'))
    c.fn('attribute::From<u16> for AttributeType::from')
    p = 'attribute::RawAttribute::'
    c.fn(p + 'new', is_('(RawAttribute { attr_type, value })'))
    c.fn(p + 'value', '            ensures r@ == self.value@,')
    c.fn(p + 'into_value', is_('self.value'))
    k = 'attribute::Attribute for RawAttribute'
    c.impl(k, '''
            open spec fn type_of(&self) -> u16 { self.attr_type.0 }
            open spec fn before_spec(&self, tid: TransactionId) -> Option<Self> { Some(*self) }
            open spec fn after_spec(&self, tid: TransactionId, enc: Option<Seq<u8>>) -> Option<Self> { Some(*self) }
            proof fn items_ok() { }''')
    for f in ['get_type', 'before_encode', 'after_decode']: c.fn(k + '::' + f, hint='            assert(self.type_of() == self.attr_type.0);' if f == 'get_type' else '')
    c.mod('attribute', '''
    pub open spec fn raw_of(t: AttributeType, o: Option<(Vec<u8>, Seq<u8>)>) -> Option<(RawAttribute, Seq<u8>)> {
        match o { None => None, Some((v, s)) => Some((RawAttribute { attr_type: t, value: v }, s)) }
    }
    impl Steady for RawAttributeDecoder { proof fn steady() { } }''')
    D = 'RawAttributeDecoder'
    decode_impl(c, 'attribute::Decode for ' + D, D,
        run='match self.attr_type { None => None, Some(t) => raw_of(t, self.value.run(s)) }', run0='None',
        ready='self.attr_type is None && self.value.ready()', inv='self.value.inv()', idle='self.value.idle()',
        done='match (self.attr_type, self.value.done()) { (Some(t), Some(v)) => Some(RawAttribute { attr_type: t, value: v }), _ => None }',
        mid='self.value.mid()', req='self.value.req()', greedy='true', total='true', robust='true',
        law='reveal(RawAttributeDecoder::run); self.value.ready_law();')
    k = 'attribute::Decode for RawAttributeDecoder::'
    rv = '            reveal(RawAttributeDecoder::run);'
    for f in ['decode', 'finish_decoding', 'is_idle', 'default']: c.fn(k + f, hint=rv)
    c.fn(k + 'requiring_bytes')
    c.fn('attribute::RawAttributeDecoder::new', '            ensures r.inv(), r.ready(),')
    k = 'attribute::TryTaggedDecode for RawAttributeDecoder'
    c.impl(k, '''
            open spec fn knows(tag: AttributeType) -> bool { true }
            open spec fn tagged_run0(tag: AttributeType, s: Seq<u8>) -> Option<(RawAttribute, Seq<u8>)> { raw_of(tag, RemainingBytesDecoder::run0(s)) }''')
    c.fn(k + '::try_start_decoding', hint=rv + '\n            proof { self.value.ready_law(); }')
    encode_impl(c, 'attribute::Encode for RawAttributeEncoder', inv='self.value.inv()', idle='self.value.idle()', pending='self.value.pending()',
        enc='Some(item.value@)', law='self.value.idle_law();')
    k = 'attribute::Encode for RawAttributeEncoder::'
    for f in ['encode', 'start_encoding', 'requiring_bytes', 'is_idle', 'default']: c.fn(k + f)
    c.fn('attribute::RawAttributeEncoder::new', '            ensures r.inv(), r.idle(), r.pending() == Seq::<u8>::empty(),')
    c.fn('attribute::SizedEncode for RawAttributeEncoder::exact_requiring_bytes')

def lossless(c):
    c.mod('attribute', '''
    use crate::bytecodec::bytes::AsRefBytes as _;
    /// number of padding octets behind a value of n octets
    pub open spec fn pad_len(n: int) -> int { (4 - n % 4) % 4 }
    pub closed spec fn pad0(n: int) -> Padding { Padding { buf: mk_arr::<3>(seq![0u8, 0u8, 0u8]), len: pad_len(n) as usize } }
    pub proof fn pad0_bytes(n: int)
        ensures pad0(n).bytes() == Seq::new(pad_len(n) as nat, |i: int| 0u8)
    {
        broadcast use contents;
        assert(pad0(n).bytes() =~= Seq::new(pad_len(n) as nat, |i: int| 0u8));
    }
    /// received padding replaces the zeros one for one
    pub proof fn pad0_with(n: int, s: Seq<u8>)
        requires s.len() == pad_len(n)
        ensures crate::bytecodec::bytes::AsMutBytes::with_bytes(&pad0(n), s).bytes() == s
    {
        broadcast use contents;
        let p = pad0(n);
        assert(p.buf@ == seq![0u8, 0u8, 0u8]);
        assert(crate::bytecodec::bytes::AsMutBytes::with_bytes(&p, s).bytes() =~= s);
    }
    pub open spec fn la_type<T: Attribute>(a: LosslessAttribute<T>) -> u16 {
        match a { LosslessAttribute::Known { inner, .. } => inner.type_of(), LosslessAttribute::Unknown { inner, .. } => inner.attr_type.0 }
    }
    pub open spec fn la_before<T: Attribute>(a: LosslessAttribute<T>, tid: crate::TransactionId) -> Option<LosslessAttribute<T>> {
        match a {
            LosslessAttribute::Known { inner, padding } => match inner.before_spec(tid) { Some(x) => Some(LosslessAttribute::Known { inner: x, padding }), None => None },
            LosslessAttribute::Unknown { .. } => Some(a),
        }
    }
    pub open spec fn la_after<T: Attribute>(a: LosslessAttribute<T>, tid: crate::TransactionId, enc: Option<Seq<u8>>) -> Option<LosslessAttribute<T>> {
        match a {
            LosslessAttribute::Known { inner, padding } => match inner.after_spec(tid, enc) { Some(x) => Some(LosslessAttribute::Known { inner: x, padding }), None => None },
            LosslessAttribute::Unknown { .. } => Some(a),
        }
    }
    pub open spec fn la_value<T: Attribute>(a: LosslessAttribute<T>) -> Option<Seq<u8>> {
        match a { LosslessAttribute::Known { inner, .. } => <T::Encoder as Encode>::enc(inner), LosslessAttribute::Unknown { inner, .. } => Some(inner.value@) }
    }
    pub open spec fn la_pad<T: Attribute>(a: LosslessAttribute<T>) -> Option<Padding> {
        match a { LosslessAttribute::Known { padding, .. } => padding, LosslessAttribute::Unknown { padding, .. } => padding }
    }
    pub open spec fn la_padding<T: Attribute>(a: LosslessAttribute<T>, n: int) -> Seq<u8> {
        match la_pad(a) { Some(p) => p.bytes(), None => pad0(n).bytes() }
    }
    /// type, length, value, padding
    pub open spec fn la_enc<T: Attribute>(a: LosslessAttribute<T>) -> Option<Seq<u8>> {
        match la_value(a) {
            None => None,
            Some(v) => if v.len() < 0x10000 { Some(eb16(la_type(a)) + (eb16(v.len() as u16) + (v + la_padding(a, v.len() as int)))) } else { None },
        }
    }
    pub open spec fn cut<V>(o: Option<(V, Seq<u8>)>, s: Seq<u8>, n: nat) -> Option<(V, Seq<u8>)> {
        if s.len() < n { None } else { crate::bytecodec::combinator::length_run(o, s, n) }
    }
    pub open spec fn la_known<T: Attribute>(v: Option<(T, Seq<u8>)>, pad: Padding) -> Option<(LosslessAttribute<T>, Seq<u8>)> {
        match v { None => None, Some((x, s1)) => match crate::bytecodec::bytes::bytes_run0(pad, s1) { None => None,
            Some((p, s2)) => Some((LosslessAttribute::Known { inner: x, padding: Some(p) }, s2)) } }
    }
    pub open spec fn la_unknown<T: Attribute>(v: Option<(RawAttribute, Seq<u8>)>, pad: Padding) -> Option<(LosslessAttribute<T>, Seq<u8>)> {
        match v { None => None, Some((x, s1)) => match crate::bytecodec::bytes::bytes_run0(pad, s1) { None => None,
            Some((p, s2)) => Some((LosslessAttribute::Unknown { inner: x, padding: Some(p) }, s2)) } }
    }
    /// value and padding of an attribute of type t and length n
    pub open spec fn la_body<T: Attribute>(t: u16, n: u16, s: Seq<u8>) -> Option<(LosslessAttribute<T>, Seq<u8>)> {
        if <T::Decoder as TryTaggedDecode>::knows(AttributeType(t)) {
            la_known::<T>(cut(<T::Decoder as TryTaggedDecode>::tagged_run0(AttributeType(t), s.take(n as int)), s, n as nat), pad0(n as int))
        } else {
            la_unknown::<T>(cut(RawAttributeDecoder::tagged_run0(AttributeType(t), s.take(n as int)), s, n as nat), pad0(n as int))
        }
    }
    impl<T: Attribute> Renewable for LosslessAttributeDecoder<T> { proof fn renewable() { } proof fn progress(s: Seq<u8>) { reveal(drop); } }''')
    p = 'attribute::LosslessAttribute::'
    c.fn(p + 'new', is_('(LosslessAttribute::Known { inner, padding: None })'))
    c.fn(p + 'as_known', '            ensures match *self { LosslessAttribute::Known { inner, .. } => r is Some && *r->0 == inner, LosslessAttribute::Unknown { .. } => r is None },')
    c.fn(p + 'as_unknown', '            ensures match *self { LosslessAttribute::Known { .. } => r is None, LosslessAttribute::Unknown { inner, .. } => r is Some && *r->0 == inner },')
    c.fn(p + 'get_type', '            ensures r.0 == la_type(*self),')
    c.fn(p + 'before_encode', '            ensures match la_before(*old(self), message.transaction_id) { Some(x) => r is Ok && *final(self) == x, None => r is Err },')
    c.fn(p + 'after_decode', '            ensures match la_after(*old(self), message.transaction_id, any_enc(*message)) { Some(x) => r is Ok && *final(self) == x, None => r is Err },')
    D = 'LosslessAttributeDecoder'
    p1 = lambda f, k: ('match %s.run(s) { None => None, Some((x, s1)) => match self.padding.run(s1) { None => None, '
                       'Some((p, s2)) => Some((LosslessAttribute::%s { inner: x, padding: Some(p) }, s2)) } }' % (f, k))
    dn = lambda f, k: ('match (%s.done(), self.padding.bytes) { (Some(x), Some(p)) => Some(LosslessAttribute::%s { inner: x, padding: Some(p) }), _ => None }' % (f, k))
    decode_impl(c, 'attribute::Decode for ' + D, D,
        run='''if self.value_len.item is None {
                    match self.get_type.run(s) { None => None, Some((t, s1)) => match self.value_len.run(s1) { None => None, Some((n, s2)) => la_body::<T>(t, n, s2) } }
                } else if self.is_known { %s } else { %s }''' % (p1('self.known_value', 'Known'), p1('self.unknown_value', 'Unknown')),
        run0='match U16beDecoder::run0(s) { None => None, Some((t, s1)) => match U16beDecoder::run0(s1) { None => None, Some((n, s2)) => la_body::<T>(t, n, s2) } }',
        inv='''{
                &&& self.get_type.inv() && self.value_len.inv() && self.known_value.inv() && self.unknown_value.inv() && self.padding.inv()
                &&& self.known_value.expected_bytes <= 0xFFFF && self.unknown_value.expected_bytes <= 0xFFFF
                &&& self.value_len.item is None ==> self.known_value.ready() && self.unknown_value.ready() && self.padding.bytes is None
                        && (!self.get_type.idle() ==> self.value_len.ready())
                &&& self.value_len.item is Some ==> self.get_type.ready() && self.padding.bytes is Some
                        && (self.is_known ==> self.unknown_value.ready() && (!self.known_value.idle() ==> !self.padding.mid()))
                        && (!self.is_known ==> self.known_value.ready() && (!self.unknown_value.idle() ==> !self.padding.mid()))
            }''',
        ready='self.get_type.ready() && self.value_len.ready() && self.known_value.ready() && self.unknown_value.ready() && self.padding.bytes is None',
        idle='self.value_len.idle() && (if self.is_known { self.known_value.idle() } else { self.unknown_value.idle() }) && self.padding.idle()',
        done='if self.is_known { %s } else { %s }' % (dn('self.known_value', 'Known'), dn('self.unknown_value', 'Unknown')),
        mid='!self.ready() && !self.idle()', starves='true',
        req='''if self.value_len.idle() { (if self.is_known { self.known_value.req() } else { self.unknown_value.req() }).add_dec(self.padding.req()) }
                else { self.get_type.req().add_dec(self.value_len.req()) }''',
        law='reveal(LosslessAttributeDecoder::run); self.get_type.ready_law(); self.value_len.ready_law();')
    k = 'attribute::Decode for LosslessAttributeDecoder::'
    rv = '            reveal(LosslessAttributeDecoder::run);'
    here = 'drop(buf@ + __rest, offset as nat)'
    body = '            proof { reveal(Length::run); assert(%%s.run(%s) == cut(<%%s>::tagged_run0(attr_type, %s.take(value_len as int)), %s, value_len as nat)); }' % (here, here, here)
    mark = '            proof { assert(__run == self.run(%s)); }' % here
    c.fn(k + 'decode', attrs='#[verifier::spinoff_prover]', hint=rv + '\n            broadcast use crate::seqs::seqs;\n            reveal(<U16beDecoder as Decode>::done);\n            let ghost __run = self.run(buf@ + __rest);',
         before=[(r'self\.is_known = ', '            proof { assert(__run == la_body::<T>(attr_type.0, value_len, %s)); }' % here)],
         tries={f: (mark, 'proof { crate::seqs::end_of(buf@, __rest); reveal(Length::run); }') for f in ('known_value', 'unknown_value', 'padding')},
         after=[(r'self\.known_value\.set_expected_bytes\([^;]*;', body % ('self.known_value', 'T::Decoder')), (r'self\.unknown_value\.set_expected_bytes\([^;]*;', body % ('self.unknown_value', 'RawAttributeDecoder')),
                (r'self\.padding\.set_bytes\([^;]*;', '            proof { assert(self.padding.bytes == Some(pad0(value_len as int))); assert(__run == self.run(%s)); }' % here)])
    for f in ['finish_decoding', 'is_idle', 'default']: c.fn(k + f, hint=rv)
    c.fn(k + 'requiring_bytes')
    E = 'self.get_type.pending() + (self.value_len.pending() + (self.known_value.pending() + (self.unknown_value.pending() + self.padding.pending())))'
    encode_impl(c, 'attribute::Encode for LosslessAttributeEncoder',
        inv='''{
                &&& self.get_type.inv() && self.value_len.inv() && self.known_value.inv() && self.unknown_value.inv() && self.padding.inv()
                &&& self.value_len.idle() ==> self.get_type.idle()
                &&& self.pending().len() <= 0x20000
            }''',
        idle='self.value_len.idle() && self.known_value.idle() && self.unknown_value.idle() && self.padding.idle()',
        pending=E, enc='la_enc(item)', item_ok='true',
        law='''self.get_type.idle_law(); self.value_len.idle_law(); self.known_value.idle_law(); self.unknown_value.idle_law(); self.padding.idle_law();
                assert(self.pending() =~= Seq::<u8>::empty());''')
    k = 'attribute::Encode for LosslessAttributeEncoder::'
    c.fn(k + 'encode')
    c.fn(k + 'start_encoding', hint='''            broadcast use contents;
            broadcast use chain;
            let ghost __i = item;
            let ghost __pad = la_pad(item);
            proof { T::items_ok(); self.get_type.idle_law(); self.value_len.idle_law(); self.known_value.idle_law(); self.unknown_value.idle_law(); self.padding.idle_law(); }''',
         before=[(r'self\.value_len\.start_encoding', '            proof { assert(la_value(__i) is Some); let v = la_value(__i)->0; assert(value_len == v.len()); assert(__pad is None ==> padding == pad0(v.len() as int)); assert(__pad is Some ==> padding == __pad->0); assert(padding.bytes() == la_padding(__i, v.len() as int)); assert(padding.bytes().len() <= 3); assert(self.known_value.pending() + self.unknown_value.pending() == v); }')],
         after=[(r'self\.padding\.start_encoding\(padding\)\?;', '            proof { let v = la_value(__i)->0; let p = self.padding.pending(); assert(self.known_value.pending() + (self.unknown_value.pending() + p) =~= v + p); }')])
    c.fn(k + 'requiring_bytes')
    c.fn(k + 'is_idle', hint='            proof { if self.idle() { self.idle_law(); } }')
    e = 'Seq::<u8>::empty()'
    c.fn(k + 'default', hint='            proof { assert(%s + (%s + (%s + (%s + %s))) =~= %s); }' % (e, e, e, e, e, e))
    c.fn('attribute::SizedEncode for LosslessAttributeEncoder::exact_requiring_bytes')
    p = 'attribute::Padding::'
    c.fn(p + 'default', '            ensures r.bytes() == Seq::<u8>::empty(),')
    c.fn(p + 'new', '            ensures r == pad0(value_len as int),', hint='            broadcast use contents;\n            proof { copy_bound(0u8); }', tail_let='            assert(__r.buf@ =~= seq![0u8, 0u8, 0u8]);')
    k = 'attribute::AsRefBytes for Padding'
    c.impl(k, '        closed spec fn bytes(&self) -> Seq<u8> { if self.len <= 3 { self.buf@.take(self.len as int) } else { Seq::empty() } }')
    c.fn(k + '::as_ref', hint='            proof { use_type_invariant(self); }')
    k = 'attribute::AsMutBytes for Padding'
    c.impl(k, '''        closed spec fn with_bytes(&self, s: Seq<u8>) -> Self { Padding { buf: if self.len <= 3 { mk_arr::<3>(s + self.buf@.skip(self.len as int)) } else { self.buf }, len: self.len } }
        proof fn with_law(&self, x: Seq<u8>, y: Seq<u8>) {
            broadcast use contents;
            if self.len <= 3 {
                let a = x + self.buf@.skip(self.len as int);
                assert(a.skip(self.len as int) =~= self.buf@.skip(self.len as int));
                assert(self.buf@.take(self.len as int) + self.buf@.skip(self.len as int) =~= self.buf@);
            }
        }''')
    c.fn(k + '::as_mut', hint='            broadcast use contents;\n            proof { use_type_invariant(&*self); }',
         subst=[(r'&mut self\.buf\[\.\.self\.len\]', 'crate::shim::head_mut(&mut self.buf, self.len)')])
    c.impl('attribute::Padding', '        #[verifier::type_invariant]\n        pub closed spec fn short(self) -> bool { self.len <= 3 }')

def message(c):
    H = '(Type, u16, TransactionId)'
    c.mod('message', '''
    pub open spec fn class_bits(c: MessageClass) -> u16 {
        match c { MessageClass::Request => 0, MessageClass::Indication => 1, MessageClass::SuccessResponse => 2, MessageClass::ErrorResponse => 3 }
    }
    pub open spec fn bits_class(c: int) -> MessageClass {
        if c == 0 { MessageClass::Request } else if c == 1 { MessageClass::Indication } else if c == 2 { MessageClass::SuccessResponse } else { MessageClass::ErrorResponse }
    }
    /// RFC 5389 figure 3: M11..M7 C1 M6..M4 C0 M3..M0
    pub open spec fn type_bits(c: MessageClass, m: u16) -> u16 {
        (m / 128 % 32 * 512 + class_bits(c) / 2 * 256 + m / 16 % 8 * 32 + class_bits(c) % 2 * 16 + m % 16) as u16
    }
    pub open spec fn bits_type(t: u16) -> Type {
        Type { class: bits_class(t / 256 % 2 * 2 + t / 16 % 2), method: Method((t / 512 % 32 * 128 + t / 32 % 8 * 16 + t % 16) as u16) }
    }
    pub proof fn bits_type_bits(c: MessageClass, m: u16)
        requires m < 0x1000
        ensures bits_type(type_bits(c, m)) == (Type { class: c, method: Method(m) }), type_bits(c, m) < 0x4000
    { bits_type_bits_(class_bits(c), m, type_bits(c, m)); }
    proof fn bits_type_bits_(c: u16, m: u16, t: u16) by (bit_vector)
        requires m < 0x1000, c < 4, t == m / 128 % 32 * 512 + c / 2 * 256 + m / 16 % 8 * 32 + c % 2 * 16 + m % 16
        ensures t < 0x4000, t / 256 % 2 * 2 + t / 16 % 2 == c, t / 512 % 32 * 128 + t / 32 % 8 * 16 + t % 16 == m
    { }
    proof fn type_bits_bits_(t: u16, c: u16, m: u16) by (bit_vector)
        requires t < 0x4000, c == t / 256 % 2 * 2 + t / 16 % 2, m == t / 512 % 32 * 128 + t / 32 % 8 * 16 + t % 16
        ensures m < 0x1000, c < 4, m / 128 % 32 * 512 + c / 2 * 256 + m / 16 % 8 * 32 + c % 2 * 16 + m % 16 == t
    { }
    pub proof fn type_bits_bits(t: u16)
        requires t < 0x4000
        ensures type_bits(bits_type(t).class, bits_type(t).method.0) == t, bits_type(t).method.0 < 0x1000
    { type_bits_bits_(t, (t / 256 % 2 * 2 + t / 16 % 2) as u16, (t / 512 % 32 * 128 + t / 32 % 8 * 16 + t % 16) as u16); }
    pub open spec fn header_of(t: u16, l: u16, k: u32, id: [u8; 12]) -> Option<%(H)s> {
        if t < 0x4000 && k == 0x2112A442 { Some((bits_type(t), l, TransactionId(id))) } else { None }
    }
    pub open spec fn header_run(o: Option<%(H)s>, s: Seq<u8>) -> Option<(%(H)s, Seq<u8>)> { match o { None => None, Some(h) => Some((h, s)) } }

    /// the attributes as the hooks leave them before encoding (None: a hook fails)
    pub open spec fn before_all<A: Attribute>(tid: TransactionId, s: Seq<LosslessAttribute<A>>) -> Option<Seq<LosslessAttribute<A>>>
        decreases s.len()
    {
        if s.len() == 0 { Some(Seq::empty()) } else {
            match before_all(tid, s.drop_last()) { None => None, Some(p) => match crate::attribute::la_before(s.last(), tid) { None => None, Some(x) => Some(p.push(x)) } }
        }
    }
    pub open spec fn msg_bytes(c: MessageClass, m: Method, tid: TransactionId, body: Seq<u8>) -> Seq<u8> {
        eb16(type_bits(c, m.0)) + (eb16(body.len() as u16) + (eb32(0x2112A442) + (tid.0@ + body)))
    }
    /// the encoding of a message
    pub open spec fn msg_enc<A: Attribute>(m: Message<A>) -> Option<Seq<u8>> {
        match before_all(m.transaction_id, m.attributes@) {
            None => None,
            Some(s) => match crate::bytecodec::combinator::enc_all::<LosslessAttributeEncoder<A>>(s) {
                None => None,
                Some(b) => if b.len() < 0x10000 { Some(msg_bytes(m.class, m.method, m.transaction_id, b)) } else { None },
            },
        }
    }
    pub proof fn enc_len<A: Attribute>(m: Message<A>)
        ensures msg_enc(m) is Some ==> 20 <= msg_enc(m)->0.len() < 20 + 0x10000
    { }
    /// the attributes as the hooks leave them after decoding; each hook sees the attributes before its own
    pub open spec fn after_all<A: Attribute>(c: MessageClass, m: Method, tid: TransactionId, s: Seq<LosslessAttribute<A>>) -> Option<Seq<LosslessAttribute<A>>>
        decreases s.len()
    {
        if s.len() == 0 { Some(Seq::empty()) } else {
            match after_all(c, m, tid, s.drop_last()) {
                None => None,
                Some(p) => match crate::attribute::la_after(s.last(), tid, msg_enc(Message { class: c, method: m, transaction_id: tid, attributes: mk_vec(p) })) {
                    None => None,
                    Some(x) => Some(p.push(x)),
                },
            }
        }
    }
    pub proof fn before_prefix<A: Attribute>(tid: TransactionId, s: Seq<LosslessAttribute<A>>, i: int)
        requires 0 <= i <= s.len(), before_all(tid, s.take(i)) is None
        ensures before_all(tid, s) is None
        decreases s.len() - i
    {
        if i < s.len() {
            assert(s.take(i + 1).drop_last() =~= s.take(i));
            before_prefix(tid, s, i + 1);
        } else { assert(s.take(i) =~= s); }
    }
    pub proof fn after_prefix<A: Attribute>(c: MessageClass, m: Method, tid: TransactionId, s: Seq<LosslessAttribute<A>>, i: int)
        requires 0 <= i <= s.len(), after_all(c, m, tid, s.take(i)) is None
        ensures after_all(c, m, tid, s) is None
        decreases s.len() - i
    {
        if i < s.len() {
            assert(s.take(i + 1).drop_last() =~= s.take(i));
            after_prefix(c, m, tid, s, i + 1);
        } else { assert(s.take(i) =~= s); }
    }
    pub open spec fn broken<A>(h: %(H)s) -> DecodedMessage<A> {
        Err(BrokenMessage { method: h.0.method, class: h.0.class, transaction_id: h.2, error: erased() })
    }
    pub open spec fn with_hooks<A: Attribute>(h: %(H)s, v: Option<Vec<LosslessAttribute<A>>>) -> DecodedMessage<A> {
        match v {
            None => broken(h),
            Some(v) => match after_all(h.0.class, h.0.method, h.2, v@) {
                None => broken(h),
                Some(p) => Ok(Message { class: h.0.class, method: h.0.method, transaction_id: h.2, attributes: mk_vec(p) }),
            },
        }
    }
    pub open spec fn whole<T>(o: Option<(T, Seq<u8>)>) -> Option<T> { match o { Some((v, t)) => if t.len() == 0 { Some(v) } else { None }, None => None } }
    /// the body of a message: exactly as many octets as the header says
    pub open spec fn body_run<A: Attribute>(h: %(H)s, n: nat, o: Option<(Vec<LosslessAttribute<A>>, Seq<u8>)>, s: Seq<u8>) -> Option<(DecodedMessage<A>, Seq<u8>)> {
        if s.len() < n { None } else { Some((with_hooks(h, whole(o)), drop(s, n))) }
    }
    /// what a decoder that has seen the header `h` makes of the rest
    #[verifier::opaque]
    pub open spec fn body_of<A: Attribute>(h: %(H)s, a: Length<AttributesDecoder<A>>, s: Seq<u8>) -> Option<(DecodedMessage<A>, Seq<u8>)> {
        body_run(h, a.remaining_bytes as nat, a.inner.run(s.take(a.remaining_bytes as int)), s)
    }
    #[verifier::opaque]
    pub open spec fn body0<A: Attribute>(h: %(H)s, s: Seq<u8>) -> Option<(DecodedMessage<A>, Seq<u8>)> {
        body_run(h, h.1 as nat, <AttributesDecoder<A>>::run0(s.take(h.1 as int)), s)
    }
    pub proof fn body_facts<A: Attribute>(h: %(H)s, a: Length<AttributesDecoder<A>>, s: Seq<u8>)
        ensures
            a.inner.inv() && a.inner.ready() && a.remaining_bytes == h.1 ==> body_of(h, a, s) == body0::<A>(h, s),
            s.len() < a.remaining_bytes ==> body_of(h, a, s) is None,
            a.inner.idle() && a.remaining_bytes == 0 ==> body_of(h, a, s) == Some((with_hooks(h, a.inner.done()), s)),
    {
        reveal(body_of); reveal(body0);
        attrs_facts(a.inner);
        drop_zero(s);
        assert(s.take(0) =~= Seq::empty());
    }
    pub proof fn body_step<A: Attribute>(h: %(H)s, a: Length<AttributesDecoder<A>>, b: Length<AttributesDecoder<A>>, s1: Seq<u8>, s2: Seq<u8>, k: nat)
        requires
            s2 == drop(s1, k), k <= s1.len(),
            k <= a.remaining_bytes, b.remaining_bytes == a.remaining_bytes - k, a.run(s1) == b.run(s2),
        ensures
            body_of(h, a, s1) == body_of(h, b, s2)
    {
        reveal(body_of); reveal(Length::run);
        drop_drop(s1, k, b.remaining_bytes as nat);
        assert(s2.len() == s1.len() - k) by { reveal(drop); }
    }
    pub proof fn attrs_facts<A: Attribute>(a: AttributesDecoder<A>)
        ensures
            a.ready() ==> !a.idle(),
            a.ready() && a.inv() ==> !a.mid(),
            a.ready() && a.inv() ==> forall|s: Seq<u8>| #[trigger] a.run(s) == <AttributesDecoder<A>>::run0(s),
            a.idle() ==> forall|s: Seq<u8>| #[trigger] a.run(s) == done_run(a.done(), s),
    {
        reveal(AttributesDecoder::run); reveal(Collect::run);
        if a.ready() && a.inv() { a.ready_law(); }
    }
    impl<A: Attribute> Steady for AttributesDecoder<A> { proof fn steady() { } }
    /// the typed attributes, in order
    pub open spec fn known_of<A>(s: Seq<LosslessAttribute<A>>) -> Seq<A> decreases s.len() {
        if s.len() == 0 { Seq::empty() } else { match s.last() {
            LosslessAttribute::Known { inner, .. } => known_of(s.drop_last()).push(inner),
            LosslessAttribute::Unknown { .. } => known_of(s.drop_last()) } }
    }
    pub open spec fn unknown_of<A>(s: Seq<LosslessAttribute<A>>) -> Seq<RawAttribute> decreases s.len() {
        if s.len() == 0 { Seq::empty() } else { match s.last() {
            LosslessAttribute::Known { .. } => unknown_of(s.drop_last()),
            LosslessAttribute::Unknown { inner, .. } => unknown_of(s.drop_last()).push(inner) } }
    }
    pub open spec fn known1<A>(a: LosslessAttribute<A>) -> Option<A> { match a { LosslessAttribute::Known { inner, .. } => Some(inner), LosslessAttribute::Unknown { .. } => None } }
    pub open spec fn unknown1<A>(a: LosslessAttribute<A>) -> Option<RawAttribute> { match a { LosslessAttribute::Known { .. } => None, LosslessAttribute::Unknown { inner, .. } => Some(inner) } }
    pub open spec fn opt_is<T>(r: Option<&T>, o: Option<T>) -> bool { match r { Some(x) => o == Some(*x), None => o is None } }
    pub proof fn somes_known<A>(s: Seq<LosslessAttribute<A>>, m: Seq<Option<&A>>)
        requires m.len() == s.len(), forall|i: int| 0 <= i < m.len() ==> opt_is(#[trigger] m[i], known1(s[i]))
        ensures
            crate::shim::somes(m).len() == known_of(s).len(),
            forall|i: int| 0 <= i < known_of(s).len() ==> *(#[trigger] crate::shim::somes(m)[i]) == known_of(s)[i],
        decreases s.len()
    {
        if s.len() > 0 {
            assert(m.last() == m[m.len() - 1]);
            assert forall|i: int| 0 <= i < m.len() - 1 implies opt_is(#[trigger] m.drop_last()[i], known1(s.drop_last()[i])) by { assert(m[i] == m.drop_last()[i]); }
            somes_known(s.drop_last(), m.drop_last());
        }
    }
    pub proof fn somes_unknown<A>(s: Seq<LosslessAttribute<A>>, m: Seq<Option<&RawAttribute>>)
        requires m.len() == s.len(), forall|i: int| 0 <= i < m.len() ==> opt_is(#[trigger] m[i], unknown1(s[i]))
        ensures
            crate::shim::somes(m).len() == unknown_of(s).len(),
            forall|i: int| 0 <= i < unknown_of(s).len() ==> *(#[trigger] crate::shim::somes(m)[i]) == unknown_of(s)[i],
        decreases s.len()
    {
        if s.len() > 0 {
            assert(m.last() == m[m.len() - 1]);
            assert forall|i: int| 0 <= i < m.len() - 1 implies opt_is(#[trigger] m.drop_last()[i], unknown1(s.drop_last()[i])) by { assert(m[i] == m.drop_last()[i]); }
            somes_unknown(s.drop_last(), m.drop_last());
        }
    }
    pub proof fn first_at<A: TryAsRef<T>, T>(s: Seq<A>, k: int)
        requires 0 <= k <= s.len(), forall|i: int| 0 <= i < k ==> (#[trigger] s[i]).as_spec() is None
        ensures
            k == s.len() ==> first_of::<A, T>(s) is None,
            k < s.len() && s[k].as_spec() is Some ==> first_of::<A, T>(s) == s[k].as_spec(),
        decreases s.len()
    {
        if s.len() > 0 {
            if k > 0 {
                assert(s[0].as_spec() is None);
                assert forall|i: int| 0 <= i < k - 1 implies (#[trigger] s.drop_first()[i]).as_spec() is None by { assert(s.drop_first()[i] == s[i + 1]); }
                first_at::<A, T>(s.drop_first(), k - 1);
            }
        }
    }
    pub proof fn first_is<A: TryAsRef<T>, T>(v: Seq<&A>, s: Seq<A>, r: Option<&T>)
        requires
            v.len() == s.len(), forall|i: int| 0 <= i < v.len() ==> *(#[trigger] v[i]) == s[i],
            match r {
                Some(u) => exists|k: int| 0 <= k < v.len() && opt_is(Some(u), (#[trigger] v[k]).as_spec()) && forall|i: int| 0 <= i < k ==> opt_is(None::<&T>, (#[trigger] v[i]).as_spec()),
                None => forall|i: int| 0 <= i < v.len() ==> opt_is(None::<&T>, (#[trigger] v[i]).as_spec()),
            }
        ensures opt_is(r, first_of::<A, T>(s))
    {
        match r {
            Some(u) => {
                let k = choose|k: int| 0 <= k < v.len() && opt_is(Some(u), (#[trigger] v[k]).as_spec()) && forall|i: int| 0 <= i < k ==> opt_is(None::<&T>, (#[trigger] v[i]).as_spec());
                assert forall|i: int| 0 <= i < k implies (#[trigger] s[i]).as_spec() is None by { assert(opt_is(None::<&T>, v[i].as_spec())); }
                first_at::<A, T>(s, k);
            },
            None => {
                assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]).as_spec() is None by { assert(opt_is(None::<&T>, v[i].as_spec())); }
                first_at::<A, T>(s, s.len() as int);
            },
        }
    }
    /// the first typed attribute that is a T
    pub open spec fn first_of<A: TryAsRef<T>, T>(s: Seq<A>) -> Option<T> decreases s.len() {
        if s.len() == 0 { None } else { match s.first().as_spec() { Some(x) => Some(x), None => first_of(s.drop_first()) } }
    }'''.replace('%(H)s', H))
    c.fn('message::MessageClass::from_u8', '            ensures r is Some <==> value < 4, value < 4 ==> r->0 == bits_class(value as int),')
    p = 'message::Message::'
    c.fn(p + 'new', '            ensures r.class == class, r.method == method, r.transaction_id == transaction_id, r.attributes@.len() == 0,')
    for t in ['Message', 'BrokenMessage']:
        for f in ['class', 'method', 'transaction_id']:
            c.fn('message::%s::%s' % (t, f), is_('self.' + f))
    c.fn(p + 'add_attribute', '''            ensures
                final(self).class == old(self).class, final(self).method == old(self).method, final(self).transaction_id == old(self).transaction_id,
                exists|x: A| #[trigger] call_ensures(<I as Into<A>>::into, (attribute,), x)
                    && final(self).attributes@ == old(self).attributes@.push(LosslessAttribute::Known { inner: x, padding: None }),''')
    c.fn(p + 'attributes', '            ensures r@.len() == known_of(self.attributes@).len(), forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]) == known_of(self.attributes@)[i],')
    c.fn(p + 'unknown_attributes', '            ensures r@.len() == unknown_of(self.attributes@).len(), forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]) == unknown_of(self.attributes@)[i],')
    c.fn(p + 'get_attribute', '            ensures match r { Some(x) => first_of::<A, T>(known_of(self.attributes@)) == Some(*x), None => first_of::<A, T>(known_of(self.attributes@)) is None },')
    FM = r'{ let __r = crate::shim::filter_map(self.attributes.as_slice(), |a: &LosslessAttribute<A>| -> (r: Option<&%(t)s>) ensures opt_is(r, %(f)s(*a)) { a.as_%(n)s() }); proof { let m = choose|m: Seq<Option<&%(t)s>>| m.len() == self.attributes@.len() && (forall|i: int| 0 <= i < m.len() ==> opt_is(#[trigger] m[i], %(f)s(self.attributes@[i]))) && __r@ == crate::shim::somes(m); somes_%(n)s(self.attributes@, m); } __r }'
    for f, n, t in [('attributes', 'known', 'A'), ('unknown_attributes', 'unknown', 'RawAttribute')]:
        c.fn(p + f, c.fns[p + f]['clauses'], subst=[(r'crate::shim::filter_map\(self\.attributes\.as_slice\(\), \|a\| a\.as_%s\(\)\)' % n, FM % dict(t=t, n=n, f='%s1' % n))])
    c.fn(p + 'get_attribute', c.fns[p + 'get_attribute']['clauses'],
         subst=[(r'crate::shim::filter_map_next\(self\.attributes\(\), \|a\| a\.try_as_ref\(\)\)', '{ let __s = self.attributes(); let ghost __v = __s@; let __r = crate::shim::filter_map_next(__s, |a: &A| -> (r: Option<&T>) ensures opt_is(r, a.as_spec()) { a.try_as_ref() }); proof { first_is::<A, T>(__v, known_of(self.attributes@), __r); } __r }')])

    D = 'MessageHeaderDecoder'
    run = sub_run([('t', 'self.message_type.run(s)'), ('l', 'self.message_len.run(s1)'), ('k', 'self.magic_cookie.run(s2)'), ('id', 'self.transaction_id.run(s3)')],
                  'header_run(header_of(t, l, k, id), s4)')
    run0 = sub_run([('t', 'U16beDecoder::run0(s)'), ('l', 'U16beDecoder::run0(s1)'), ('k', 'U32beDecoder::run0(s2)'), ('id', '<CopyableBytesDecoder<[u8; 12]>>::run0(s3)')],
                  'header_run(header_of(t, l, k, id), s4)')
    F = ['message_type', 'message_len', 'magic_cookie', 'transaction_id']
    al = lambda f: ' && '.join('self.%s.%s()' % (x, f) for x in F)
    decode_impl(c, 'message::Decode for ' + D, D, run=run, run0=run0, ready=al('ready'),
        inv='''{
                &&& %s
                &&& !self.message_type.idle() ==> self.message_len.ready()
                &&& !self.message_len.idle() ==> self.magic_cookie.ready()
                &&& !self.magic_cookie.idle() ==> self.transaction_id.ready()
            }''' % al('inv'),
        idle='self.transaction_id.idle()',
        done='match (%s) { (Some(t), Some(l), Some(k), Some(id)) => header_of(t, l, k, id), _ => None }' % ', '.join('self.%s.done()' % x for x in F),
        mid='!self.ready() && !self.idle()', robust='true', exact='true', resets='true',
        need='self.message_type.need() + self.message_len.need() + self.magic_cookie.need() + self.transaction_id.need()',
        req='self.message_type.req().add_dec(self.message_len.req()).add_dec(self.magic_cookie.req()).add_dec(self.transaction_id.req())',
        law='reveal(MessageHeaderDecoder::run); ' + ' '.join('self.%s.ready_law();' % x for x in F))
    k = 'message::Decode for MessageHeaderDecoder::'
    rv = '            reveal(MessageHeaderDecoder::run);'
    c.fn(k + 'decode', hint=rv + '\n            broadcast use crate::seqs::seqs;')
    c.fn(k + 'is_idle', hint=rv + '\n            proof { if self.idle() { self.message_type.idle_run(); self.message_len.idle_run(); self.magic_cookie.idle_run(); } }')
    for f in ['finish_decoding', 'default']: c.fn(k + f, hint=rv)
    c.fn(k + 'requiring_bytes')
    c.fn('message::MessageHeaderDecoder::check_magic_cookie', '            ensures r is Ok <==> magic_cookie == 0x2112A442, r is Err ==> invalid(r),')

    D = 'AttributesDecoder'
    V = 'Vec<LosslessAttribute<A>>'
    decode_impl(c, 'message::Decode for ' + D, D, run='if self.last_error is Some { None } else { self.inner.run(s) }',
        run0='<Collect<LosslessAttributeDecoder<A>, %s>>::run0(s)' % V, ready='self.last_error is None && self.inner.ready()',
        inv='self.last_error is None ==> self.inner.inv()', idle='if self.last_error is None { self.inner.idle() } else { self.is_eos }',
        done='if self.last_error is None { self.inner.done() } else { None }',
        mid='if self.last_error is None { self.inner.mid() } else { !self.is_eos }',
        greedy='true', total='true', robust='true',
        req='if self.last_error is None { self.inner.req() } else if self.is_eos { ByteCount::Finite(0) } else { ByteCount::Unknown }',
        law='reveal(AttributesDecoder::run); self.inner.ready_law();')
    k = 'message::Decode for AttributesDecoder::'
    rv = '            reveal(AttributesDecoder::run);'
    c.fn(k + 'decode', hint=rv + '\n            broadcast use crate::seqs::seqs;\n            proof { end_of(buf@, __rest); }')
    for f in ['finish_decoding', 'is_idle', 'default']: c.fn(k + f, hint=rv)
    c.fn(k + 'requiring_bytes')

    D = 'MessageDecoder'
    A0 = '<AttributesDecoder<A>>::run0'
    decode_impl(c, 'message::Decode for ' + D, D,
        run='''if self.header.item is None {
                    match self.header.run(s) { None => None, Some((h, s1)) => body0::<A>(h, s1) }
                } else {
                    body_of(self.header.item->0, self.attributes, s)
                }''',
        run0='match <MessageHeaderDecoder as Decode>::run0(s) { None => None, Some((h, s1)) => body0::<A>(h, s1) }',
        inv='''{
                &&& self.header.inv() && self.attributes.inv()
                &&& self.attributes.expected_bytes <= 0xFFFF
                &&& self.header.item is None ==> self.attributes.ready() && self.attributes.remaining_bytes == 0
                &&& self.header.item is Some ==> (self.attributes.inner.idle() <==> self.attributes.remaining_bytes == 0)
            }''',
        ready='self.header.ready() && self.attributes.ready()', idle='self.header.idle() && self.attributes.idle()',
        done='''if self.header.item is None { None } else {
                    Some(with_hooks(self.header.item->0, if self.attributes.remaining_bytes == 0 { self.attributes.inner.done() } else { None }))
                }''',
        mid='!self.ready() && !self.idle()', starves='true', robust='true', starved='self.header.idle()', resets='true',
        req='self.header.req().add_dec(self.attributes.req())',
        more='''{
                &&& pre.header.item is Some ==> post.header == pre.header && (r matches Ok(k) ==> post.attributes.remaining_bytes == pre.attributes.remaining_bytes - k)
                &&& pre.header.item is None && r is Ok ==> match post.header.item {
                    None => post.header.need() == pre.header.need() - r->Ok_0 && post.header.need() > 0,
                    Some(h) => r->Ok_0 >= pre.header.need() && post.attributes.remaining_bytes == h.1 - (r->Ok_0 - pre.header.need()),
                }
                &&& pre.header.item is None && r is Err && n >= pre.header.need() && post.header.item is None ==> post.ready()
                &&& r is Err && n < pre.header.need() ==> eos.reached()
            }''',
        law='reveal(MessageDecoder::run); self.header.ready_law();')
    k = 'message::Decode for MessageDecoder::'
    rv = '            reveal(MessageDecoder::run);'
    hd = ''.join('\n            hide(<%s as Decode>::%s);' % (x, y) for x in ['AttributesDecoder', 'MessageHeaderDecoder'] for y in ['inv', 'idle', 'done', 'mid', 'ready', 'req', 'run0', 'need'])
    c.fn(k + 'decode', '''            ensures
                old(self).header.item is None ==> match final(self).header.item {
                    None => r is Ok ==> old(self).header.run(buf@ + __rest) == final(self).header.run(drop(buf@ + __rest, r->Ok_0 as nat)),
                    Some(h) => old(self).header.run(buf@ + __rest) is Some && (old(self).header.run(buf@ + __rest)->0).0 == h,
                },''', hint=hd + '\n' + rv + '\n            broadcast use crate::seqs::seqs;\n            proof { attrs_facts(self.attributes.inner); }',
         tries={'header': ('proof { if self.header.inner.ready() { self.header.inner.ready_law(); } }', 'proof { if self.header.inner.ready() { self.header.inner.ready_law(); } }'), 'attributes': ('''let ghost __a = self.attributes; let ghost __s1 = drop(buf@ + __rest, offset as nat); let ghost __o = offset as int;
            proof {
                assert(__s1.len() == buf@.len() + __rest.len() - offset) by { reveal(drop); }
                body_facts(self.header.item->0, __a, __s1);
            }''', '''proof {
                let s2 = drop(buf@ + __rest, offset as nat);
                drop_drop(buf@ + __rest, __o as nat, (offset - __o) as nat);
                body_step(self.header.item->0, __a, self.attributes, __s1, s2, (offset - __o) as nat);
                body_facts(self.header.item->0, self.attributes, Seq::empty());
            }''')})
    for f in ['finish_decoding', 'default']: c.fn(k + f, hint=rv)
    c.fn(k + 'is_idle', hint=rv + '''
            proof {
                if self.idle() {
                    assert forall|s: Seq<u8>| #[trigger] self.run(s) == done_run(self.done(), s) by { body_facts(self.header.item->0, self.attributes, s); }
                }
            }''')
    c.fn(k + 'requiring_bytes', '            ensures r == ByteCount::Finite(if self.header.item is None { self.header.need() as u64 } else { self.attributes.remaining_bytes }),')
    c.fn('message::MessageDecoder::new', '            ensures r.inv(), r.ready(), forall|s: Seq<u8>| #[trigger] r.run(s) == MessageDecoder::<A>::run0(s),')
    c.fn('message::MessageDecoder::finish_decoding_with_header', '''            requires
                old(self).attributes.inv(),
                old(self).attributes.inner.idle() || old(self).attributes.remaining_bytes != 0,
            ensures
                final(self).header == old(self).header,
                match with_hooks((Type { class, method }, 0, transaction_id), if old(self).attributes.remaining_bytes == 0 { old(self).attributes.inner.done() } else { None }) {
                    Ok(m) => r is Ok && r->Ok_0 == m,
                    Err(_) => r is Err,
                },''',
        hint='            broadcast use contents;',
        after=[(r'let attributes_len = message\.attributes\.len\(\);', '            let ghost __orig = message.attributes@;\n            let ghost mut __done = Seq::<LosslessAttribute<A>>::empty();\n            proof { assert(__orig.take(0) =~= Seq::empty()); assert(message.attributes@ =~= __done + __orig.skip(0)); }'),
               (r'let mut attr = __tail\.remove\(0\);', '                    proof { assert(message.attributes@ =~= __done); assert(attr == __orig[i as int]); assert(__tail@ =~= __orig.skip(i + 1)); assert(__orig.take(i + 1).drop_last() =~= __orig.take(i as int)); vec_is(message.attributes); }')],
        before=[(r'decode_result\?;', '                    proof { if decode_result is Err { after_prefix(class, method, transaction_id, __orig, i + 1); } else { __done = __done.push(attr); assert(message.attributes@ =~= __done + __orig.skip(i + 1)); } }'),
                (r'Ok\(message\)\s*\Z', '            proof { assert(__orig.take(attributes_len as int) =~= __orig); assert(message.attributes@ =~= __done); }')],
        loops=['''                invariant
                    attributes_len == __orig.len(), message.class == class, message.method == method, message.transaction_id == transaction_id,
                    __done.len() == i,
                    message.attributes@ == __done + __orig.skip(i as int),
                    after_all(class, method, transaction_id, __orig.take(i as int)) == Some(__done),
                    self.header == old(self).header,
                    old(self).attributes.remaining_bytes == 0, old(self).attributes.inner.done() is Some, old(self).attributes.inner.done()->0@ == __orig,'''])

    F = ['message_type', 'message_len', 'magic_cookie', 'transaction_id', 'attributes']
    E = 'self.%s.pending() + (self.%s.pending() + (self.%s.pending() + (self.%s.pending() + self.%s.pending())))' % tuple(F)
    encode_impl(c, 'message::Encode for MessageEncoder',
        inv='''{
                &&& %s
                &&& self.transaction_id.idle() ==> self.message_type.idle() && self.message_len.idle() && self.magic_cookie.idle()
                &&& self.pending().len() <= 0x20000
            }''' % ' && '.join('self.%s.inv()' % x for x in F),
        idle='self.transaction_id.idle() && self.attributes.idle()', pending=E, enc='msg_enc(item)', guarded='true',
        law=' '.join('self.%s.idle_law();' % x for x in F) + ' assert(self.pending() =~= Seq::<u8>::empty());')
    k = 'message::Encode for MessageEncoder::'
    c.fn(k + 'encode')
    c.fn(k + 'start_encoding', attrs='#[verifier::loop_isolation(false)]', hint='            broadcast use contents;\n            proof { if self.idle() { self.idle_law(); %s } }\n            let ghost __tid = item.transaction_id;' % ' '.join('self.%s.idle_law();' % x for x in F),
        after=[(r'let attributes_len = item\.attributes\.len\(\);', '            let ghost __item = item;\n            let ghost __orig = item.attributes@;\n            let ghost mut __done = Seq::<LosslessAttribute<A>>::empty();\n            proof { assert(__orig.take(0) =~= Seq::empty()); assert(item.attributes@ =~= __done + __orig.skip(0)); }'),
               (r'let mut attr = __tail\.remove\(0\);', '                    proof { assert(attr == __orig[i as int]); assert(item.attributes@ =~= __done); assert(__tail@ =~= __orig.skip(i + 1)); assert(__orig.take(i + 1).drop_last() =~= __orig.take(i as int)); }')],
        before=[(r'encode_result\?;', '                    proof { if encode_result is Err { before_prefix(__tid, __orig, i + 1); } else { __done = __done.push(attr); assert(item.attributes@ =~= __done + __orig.skip(i + 1)); } }'),
                (r'let mut attributes = PreEncode::default\(\);', '            proof { assert(__orig.take(attributes_len as int) =~= __orig); assert(item.attributes@ =~= __done); }'),],
        loops=['''                invariant
                    attributes_len == __orig.len(), item.class == __item.class, item.method == __item.method, item.transaction_id == __tid, __item.transaction_id == __tid,
                    __item.attributes@ == __orig,
                    __done.len() == i,
                    item.attributes@ == __done + __orig.skip(i as int),
                    before_all(__tid, __orig.take(i as int)) == Some(__done),
                    *self == *old(self), self.inv(), self.idle(),'''])
    c.fn(k + 'requiring_bytes')
    c.fn(k + 'is_idle', hint='            proof { if self.idle() { self.idle_law(); } }')
    e = 'Seq::<u8>::empty()'
    c.fn(k + 'default', hint='            proof { assert(%s + (%s + (%s + (%s + %s))) =~= %s); }' % (e, e, e, e, e, e))
    c.fn('message::MessageEncoder::new', '            ensures r.inv(), r.idle(), r.pending() == Seq::<u8>::empty(),')
    c.fn('message::SizedEncode for MessageEncoder::exact_requiring_bytes')
    p = 'message::Type::'
    c.fn(p + 'as_u16', is_('type_bits(self.class, self.method.0)'), tail_bv=('', '''            proof {
                let __c = class; let __m = method;
                assert(__c < 4 ==> ({T}) == __m / 128 % 32 * 512 + __c / 2 * 256 + __m / 16 % 8 * 32 + __c % 2 * 16 + __m % 16) by (bit_vector)
                    requires __c == class, __m == method;
            }'''))
    c.fn(p + 'from_u16', '            ensures r is Ok <==> value < 0x4000, r is Ok ==> r->Ok_0 == bits_type(value), r is Err ==> invalid(r),',
         hint='            proof { assert((value >> 14 == 0) == (value < 0x4000)) by (bit_vector); }',
         let_bv=[('class', '__v < 4 && __v == value / 256 % 2 * 2 + value / 16 % 2'),
                 ('method', 'value < 0x4000 ==> __v == value / 512 % 32 * 128 + value / 32 % 8 * 16 + value % 16')])
