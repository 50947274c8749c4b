"""The contracts: specification functions, pre/postconditions, invariants and proof hints that
tools/splice.py attaches to the functions extracted from /repo.

Nothing in this file is executable code of stun_codec; see DESIGN.md."""
import re
from splice import Contracts

FX = {'U8': ('u8', 1, 's[0]', 'seq![x]', ''),
      'U16be': ('u16', 2, 'be16(s)', 'eb16(x)', ''),
      'U32be': ('u32', 4, 'be32(s)', 'eb32(x)', ''),
      'U64be': ('u64', 8, 'be64(s)', 'eb64(x)', 'be64_eb64(x);')}

def fixnum():
    o = ''
    for n, (t, k, dec, enc, _) in FX.items():
        o += '''
        pub open spec fn n_%(n)s(s: Seq<u8>) -> %(t)s { %(dec)s }
        pub open spec fn b_%(n)s(x: %(t)s) -> Seq<u8> { %(enc)s }
        pub open spec fn m_%(n)s(o: Option<([u8; %(k)d], Seq<u8>)>) -> Option<(%(t)s, Seq<u8>)> {
            match o { None => None, Some((a, t)) => Some((n_%(n)s(a@), t)) }
        }
        pub struct %(n)sDecoder(pub CopyableBytesDecoder<[u8; %(k)d]>);
        impl Decode for %(n)sDecoder {
            type Item = %(t)s;
            open spec fn inv(&self) -> bool { self.0.inv() }
            #[verifier::opaque]
            open spec fn run(&self, s: Seq<u8>) -> Option<(Self::Item, Seq<u8>)> { m_%(n)s(self.0.run(s)) }
            open spec fn run0(s: Seq<u8>) -> Option<(Self::Item, Seq<u8>)> { m_%(n)s(arr_run0::<%(k)d>(s)) }
            open spec fn ready(&self) -> bool { self.0.ready() }
            open spec fn idle(&self) -> bool { self.0.idle() }
            #[verifier::opaque]
            open spec fn done(&self) -> Option<Self::Item> { Some(n_%(n)s(self.0.bytes@)) }
            open spec fn mid(&self) -> bool { self.0.mid() }
            open spec fn starves() -> bool { false }
            open spec fn greedy() -> bool { false }
            open spec fn total() -> bool { false }
            open spec fn robust() -> bool { true }
            open spec fn starved(&self) -> bool { false }
            proof fn ready_law(&self) { reveal(%(n)sDecoder::run); self.0.ready_law(); }
            open spec fn exact() -> bool { true }
            open spec fn resets() -> bool { true }
            open spec fn fresh() -> bool { true }
            open spec fn req(&self) -> ByteCount { self.0.req() }
            open spec fn need(&self) -> nat { self.0.need() }
            open spec fn more(pre: Self, post: Self, n: nat, m: nat, eos: Eos, r: Result<usize>) -> bool { true }
            fn decode(&mut self, buf: &[u8], eos: Eos, Ghost(__rest): Ghost<Seq<u8>>) -> (r: Result<usize>) {
                reveal(%(n)sDecoder::run);
                self.0.decode(buf, eos, Ghost(__rest))
            }
            fn finish_decoding(&mut self) -> (r: Result<Self::Item>)
                ensures r is Ok
            {
                reveal(%(n)sDecoder::done);
                match self.0.finish_decoding() { Ok(__v) => Ok(Self::decode_item(__v)), Err(__e) => Err(__e) }
            }
            fn requiring_bytes(&self) -> (r: ByteCount) {
                self.0.requiring_bytes()
            }
            fn is_idle(&self) -> (r: bool) {
                proof { if self.idle() { self.idle_run(); } }
                self.0.is_idle()
            }
            fn default() -> (r: Self) {
                let __r = %(n)sDecoder(CopyableBytesDecoder::default());
                proof { __r.ready_law(); }
                __r
            }
        }
        impl %(n)sDecoder {
            fn decode_item(b: [u8; %(k)d]) -> (r: %(t)s) ensures r == n_%(n)s(b@) {
                %(rd)s
            }
            pub proof fn idle_run(&self)
                requires self.inv(), self.idle()
                ensures forall|s: Seq<u8>| #[trigger] self.run(s) == done_run(self.done(), s)
            { reveal(%(n)sDecoder::run); reveal(%(n)sDecoder::done); self.0.idle_run(); }
        }
        impl Steady for %(n)sDecoder { proof fn steady() { } }
        impl Renewable for %(n)sDecoder { proof fn renewable() { } proof fn progress(s: Seq<u8>) { reveal(drop); } }
        impl %(n)sEncoder {
            fn encode_item(n: %(t)s, b: &mut [u8; %(k)d]) -> (r: Result<()>) ensures r is Ok, final(b)@ =~= b_%(n)s(n) {
                %(wr)s
                Ok(())
            }
        }
        pub struct %(n)sEncoder(pub BytesEncoder<[u8; %(k)d]>);
        impl Encode for %(n)sEncoder {
            type Item = %(t)s;
            open spec fn inv(&self) -> bool { self.0.inv() && (self.0.idle() <==> self.0.pending().len() == 0) }
            open spec fn idle(&self) -> bool { self.0.idle() }
            open spec fn pending(&self) -> Seq<u8> { self.0.pending() }
            open spec fn item_ok(item: %(t)s) -> bool { true }
            open spec fn enc(item: %(t)s) -> Option<Seq<u8>> { Some(b_%(n)s(item)) }
            open spec fn guarded() -> bool { false }
            proof fn idle_law(&self) { self.0.idle_law(); }
            fn encode(&mut self, buf: &mut [u8], eos: Eos) -> (r: Result<usize>) {
                let ghost __p = self.pending();
                proof { if __p.len() == 0 { self.idle_law(); } }
                self.0.encode(buf, eos)
            }
            fn start_encoding(&mut self, item: Self::Item) -> (r: Result<()>) {
                let mut b = [0u8; %(k)d];
                Self::encode_item(item, &mut b)?;
                self.0.start_encoding(b)
            }
            fn requiring_bytes(&self) -> (r: ByteCount) {
                self.0.requiring_bytes()
            }
            fn is_idle(&self) -> (r: bool)
                ensures r == (self.pending().len() == 0)
            {
                self.0.is_idle()
            }
            fn default() -> (r: Self) {
                %(n)sEncoder(BytesEncoder::default())
            }
        }
        impl SizedEncode for %(n)sEncoder {
            fn exact_requiring_bytes(&self) -> (r: u64) {
                self.0.exact_requiring_bytes()
            }
        }
''' % dict(n=n, t=t, k=k, dec=dec, enc=enc, rd='b[0]' if k == 1 else 'BigEndian::read_%s(&b)' % t, wr='b[0] = n;' if k == 1 else 'BigEndian::write_%s(b, n);' % t)
    return o

# name -> (item type, exact, greedy) of the decoders the attributes wrap
INNER = {'U8Decoder': 'u8', 'U16beDecoder': 'u16', 'U32beDecoder': 'u32', 'U64beDecoder': 'u64',
         'NullDecoder': '()', 'SocketAddrDecoder': 'SocketAddr', 'Utf8Decoder': 'String',
         'RemainingBytesDecoder': 'Vec<u8>', 'CopyableBytesDecoder<[u8; 20]>': '[u8; 20]',
         'TupleDecoder<(U32beDecoder, Utf8Decoder)>': '(u32, String)',
         'Collect<U16beDecoder, Vec<u16>>': 'Vec<u16>', 'AddressFamilyDecoder': 'AddressFamily'}

ADDR = 'XorMappedAddress XorMappedAddress2 XorPeerAddress XorRelayAddress MappedAddress AlternateServer ResponseOrigin OtherAddress'
SA = ('SocketAddrDecoder', 'SocketAddrEncoder')
U32 = ('U32beDecoder', 'U32beEncoder')
def ok(x): return 'Some(%s)' % x

# (module, attribute, (decoder, encoder), value of v, wire form of x, type code)
ATTRS = [
 ('rfc5245', 'Priority', U32, 'Some(Priority(v))', 'x.0', 0x0024),
 ('rfc5245', 'UseCandidate', ('NullDecoder', 'NullEncoder'), 'Some(UseCandidate)', '()', 0x0025),
 ('rfc5245', 'IceControlled', ('U64beDecoder', 'U64beEncoder'), 'Some(IceControlled(v))', 'x.0', 0x8029),
 ('rfc5245', 'IceControlling', ('U64beDecoder', 'U64beEncoder'), 'Some(IceControlling(v))', 'x.0', 0x802A),
 ('rfc5389', 'AlternateServer', SA, 'Some(AlternateServer(v))', 'x.0', 0x8023),
 ('rfc5389', 'ErrorCode', ('TupleDecoder<(U32beDecoder, Utf8Decoder)>', 'TupleEncoder<(U32beEncoder, Utf8Encoder)>'),
    '''{
                let class = v.0 / 256 % 8;
                let number = v.0 % 256;
                if 3 <= class < 6 && number < 100 { Some(ErrorCode { code: (class * 100 + number) as u16, reason_phrase: v.1 }) } else { None }
            }''', '((x.code / 100 * 256 + x.code % 100) as u32, x.reason_phrase)', 0x0009),
 ('rfc5389', 'Fingerprint', U32, 'Some(Fingerprint { crc32: v })', 'x.crc32', 0x8028),
 ('rfc5389', 'MappedAddress', SA, 'Some(MappedAddress(v))', 'x.0', 0x0001),
 ('rfc5389', 'MessageIntegrity', ('CopyableBytesDecoder<[u8; 20]>', 'BytesEncoder<[u8; 20]>'),
    'Some(MessageIntegrity { hmac_sha1: v, preceding_message_bytes: mk_vec(Seq::empty()) })', 'x.hmac_sha1', 0x0008),
 ('rfc5389', 'Nonce', ('Utf8Decoder', 'Utf8Encoder'), 'if v@.len() < 128 { Some(Nonce { value: v }) } else { None }', 'x.value', 0x0015),
 ('rfc5389', 'Realm', ('Utf8Decoder', 'Utf8Encoder'), 'if v@.len() < 128 { Some(Realm { text: v }) } else { None }', 'x.text', 0x0014),
 ('rfc5389', 'Software', ('Utf8Decoder', "Utf8Encoder<Cow<'static, str>>"),
    'if v@.len() < 128 { Some(Software { description: Cow::Owned(v) }) } else { None }', 'x.description', 0x8022),
 ('rfc5389', 'UnknownAttributes', ('Collect<U16beDecoder, Vec<u16>>', 'PreEncode<Repeat<U16beEncoder, vec::IntoIter<u16>>>'),
    'Some(UnknownAttributes { unknowns: mk_vec(types_of(v@)) })',
    'vec::IntoIter(mk_vec(codes_of(x.unknowns@)))', 0x000A),
 ('rfc5389', 'Username', ('Utf8Decoder', 'Utf8Encoder'),
    'if vstd::utf8::encode_utf8(v@).len() < 513 { Some(Username { name: v }) } else { None }', 'x.name', 0x0006),
 ('rfc5389', 'XorMappedAddress', SA, 'Some(XorMappedAddress(v))', 'x.0', 0x0020),
 ('rfc5389', 'XorMappedAddress2', SA, 'Some(XorMappedAddress2(v))', 'x.0', 0x8020),
 ('rfc5766', 'ChannelNumber', U32,
    'if 0x4000 <= v / 0x10000 <= 0x4FFF { Some(ChannelNumber((v / 0x10000) as u16)) } else { None }', '(x.0 * 0x10000) as u32', 0x000C),
 ('rfc5766', 'Lifetime', U32, 'Some(Lifetime(Duration { secs: v as u64, nanos: 0 }))', 'x.0.secs as u32', 0x000D),
 ('rfc5766', 'XorPeerAddress', SA, 'Some(XorPeerAddress(v))', 'x.0', 0x0012),
 ('rfc5766', 'Data', ('RemainingBytesDecoder', 'BytesEncoder'), 'Some(Data(v))', 'x.0', 0x0013),
 ('rfc5766', 'XorRelayAddress', SA, 'Some(XorRelayAddress(v))', 'x.0', 0x0016),
 ('rfc5766', 'EvenPort', ('U8Decoder', 'U8Encoder'), 'Some(EvenPort(v >= 128))', '(if x.0 { 128u8 } else { 0u8 })', 0x0018),
 ('rfc5766', 'RequestedTransport', U32, 'Some(RequestedTransport((v / 0x1000000) as u8))', '(x.0 * 0x1000000) as u32', 0x0019),
 ('rfc5766', 'DontFragment', ('NullDecoder', 'NullEncoder'), 'Some(DontFragment)', '()', 0x001A),
 ('rfc5766', 'ReservationToken', ('U64beDecoder', 'U64beEncoder'), 'Some(ReservationToken(v))', 'x.0', 0x0022),
 ('rfc5780', 'ChangeRequest', U32, 'Some(ChangeRequest(v / 4 % 2 == 1, v / 2 % 2 == 1))',
    '((if x.0 { 4int } else { 0 }) + (if x.1 { 2int } else { 0 })) as u32', 0x0003),
 ('rfc5780', 'ResponseOrigin', SA, 'Some(ResponseOrigin(v))', 'x.0', 0x802B),
 ('rfc5780', 'OtherAddress', SA, 'Some(OtherAddress(v))', 'x.0', 0x802C),
 ('rfc5780', 'ResponsePort', U32, 'Some(ResponsePort((v / 0x10000) as u16))', '(x.0 * 0x10000) as u32', 0x0027),
 ('rfc8016', 'MobilityTicket', ('RemainingBytesDecoder', 'BytesEncoder'), 'Some(MobilityTicket(v))', 'x.0', 0x8030),
 ('rfc8656', 'RequestedAddressFamily', ('AddressFamilyDecoder', 'AddressFamilyEncoder'), 'Some(RequestedAddressFamily(v))', 'x.0', 0x0017),
 ('rfc8656', 'AdditionalAddressFamily', ('AddressFamilyDecoder', 'AddressFamilyEncoder'), 'Some(AdditionalAddressFamily(v))', 'x.0', 0x8000),
]
ENUMS = {
 'rfc5245': 'Priority UseCandidate IceControlled IceControlling'.split(),
 'rfc5389': 'MappedAddress Username MessageIntegrity ErrorCode UnknownAttributes Realm Nonce XorMappedAddress XorMappedAddress2 Software AlternateServer Fingerprint'.split(),
 'rfc5766': 'ChannelNumber Lifetime XorPeerAddress Data XorRelayAddress EvenPort RequestedTransport DontFragment ReservationToken'.split(),
 'rfc5780': 'ChangeRequest ResponseOrigin ResponsePort OtherAddress'.split(),
}
ENC_ITEM = {'NullEncoder': '()', 'SocketAddrEncoder': 'SocketAddr', 'U8Encoder': 'u8', 'U32beEncoder': 'u32', 'U64beEncoder': 'u64',
            'Utf8Encoder': 'String', "Utf8Encoder<Cow<'static, str>>": "Cow<'static, str>", 'BytesEncoder': 'Vec<u8>',
            'BytesEncoder<[u8; 20]>': '[u8; 20]', 'TupleEncoder<(U32beEncoder, Utf8Encoder)>': '(u32, String)',
            'PreEncode<Repeat<U16beEncoder, vec::IntoIter<u16>>>': 'vec::IntoIter<u16>', 'AddressFamilyEncoder': 'AddressFamily'}
def tf(t):  # turbofish: X<..> -> <X<..>>
    return '<%s>' % t

def attribute(c, mod, n, dec, enc, value, wire, code):
    m = mod + '::attributes'
    D, E = n + 'Decoder', n + 'Encoder'
    c.mod(m, '''
        pub open spec fn v_%(n)s(v: %(vt)s) -> Option<%(n)s> { %(value)s }
        pub open spec fn w_%(n)s(x: %(n)s) -> %(wt)s { %(wire)s }
        pub open spec fn m_%(n)s(o: Option<(%(vt)s, Seq<u8>)>) -> Option<(%(n)s, Seq<u8>)> {
            match o { None => None, Some((v, t)) => match v_%(n)s(v) { None => None, Some(x) => Some((x, t)) } }
        }
        impl Steady for %(D)s { proof fn steady() { } }''' % dict(n=n, D=D, vt=INNER[dec], wt=ENC_ITEM[enc], value=value, wire=wire))
    i = tf(dec)
    c.impl('%s::Decode for %s' % (m, D), '''
            open spec fn inv(&self) -> bool { self.0.inv() }
            #[verifier::opaque]
            open spec fn run(&self, s: Seq<u8>) -> Option<(Self::Item, Seq<u8>)> { m_%(n)s(self.0.run(s)) }
            open spec fn run0(s: Seq<u8>) -> Option<(Self::Item, Seq<u8>)> { m_%(n)s(%(i)s::run0(s)) }
            open spec fn ready(&self) -> bool { self.0.ready() }
            open spec fn idle(&self) -> bool { self.0.idle() }
            open spec fn done(&self) -> Option<Self::Item> { match self.0.done() { None => None, Some(v) => v_%(n)s(v) } }
            open spec fn mid(&self) -> bool { self.0.mid() }
            open spec fn starves() -> bool { %(i)s::starves() }
            open spec fn greedy() -> bool { %(i)s::greedy() }
            open spec fn total() -> bool { %(i)s::total() }
            open spec fn robust() -> bool { %(i)s::robust() }
            open spec fn starved(&self) -> bool { self.0.starved() }
            proof fn ready_law(&self) { reveal(%(D)s::run); self.0.ready_law(); }
            open spec fn exact() -> bool { %(i)s::exact() }
            open spec fn resets() -> bool { %(i)s::resets() }
            open spec fn fresh() -> bool { %(i)s::fresh() }
            open spec fn req(&self) -> ByteCount { self.0.req() }
            open spec fn need(&self) -> nat { self.0.need() }
            open spec fn more(pre: Self, post: Self, n: nat, m: nat, eos: Eos, r: Result<usize>) -> bool { true }''' % dict(n=n, D=D, i=i))
    k = '%s::Decode for %s::' % (m, D)
    rv = '            reveal(%s::run);' % D
    c.fn(k + 'decode', hint=rv)
    c.fn(k + 'finish_decoding', hint=rv + '\n            broadcast use {bits, contents};')
    c.fn(k + 'requiring_bytes')
    c.fn(k + 'is_idle', hint=rv)
    c.fn(k + 'default', hint=rv)
    c.fn('%s::%s::new' % (m, D), '                ensures r.inv(), r.ready(), forall|s: Seq<u8>| #[trigger] r.run(s) == %s::run0(s),' % D)
    k = '%s::TryTaggedDecode for %s' % (m, D)
    c.impl(k, '''
            open spec fn knows(tag: AttributeType) -> bool { tag.0 == 0x%04x }
            open spec fn tagged_run0(tag: AttributeType, s: Seq<u8>) -> Option<(%s, Seq<u8>)> { %s::run0(s) }''' % (code, n, D))
    c.fn(k + '::try_start_decoding', hint='            proof { self.ready_law(); }')
    c.impl('%s::Encode for %s' % (m, E), '''
            open spec fn inv(&self) -> bool { self.0.inv() }
            open spec fn idle(&self) -> bool { self.0.idle() }
            open spec fn pending(&self) -> Seq<u8> { self.0.pending() }
            open spec fn item_ok(item: %(n)s) -> bool { true }
            open spec fn enc(item: %(n)s) -> Option<Seq<u8>> { %(i)s::enc(w_%(n)s(item)) }
            open spec fn guarded() -> bool { %(i)s::guarded() }
            proof fn idle_law(&self) { self.0.idle_law(); }''' % dict(n=n, i=tf(enc)))
    k = '%s::Encode for %s::' % (m, E)
    c.fn(k + 'encode')
    c.fn(k + 'start_encoding', hint='            broadcast use {bits, contents};')
    c.fn(k + 'requiring_bytes')
    c.fn(k + 'is_idle')
    c.fn(k + 'default')
    c.fn('%s::%s::new' % (m, E), '                ensures r.inv(), r.idle(), r.pending() == Seq::<u8>::empty(),')
    c.fn('%s::SizedEncode for %s::exact_requiring_bytes' % (m, E))
    k = '%s::Attribute for %s' % (m, n)
    xor = n.startswith('Xor')
    before = after = 'Some(*self)'
    if xor:
        before = after = 'Some(%s(xor_spec(self.0, tid)))' % n
    if n == 'MessageIntegrity':
        after = 'match enc { Some(b) => Some(MessageIntegrity { hmac_sha1: self.hmac_sha1, preceding_message_bytes: mk_vec(with_len(b, 24)) }), None => None }'
    if n == 'Fingerprint':
        after = 'match enc { Some(b) => if self.crc32 == fp_crc(b) { Some(*self) } else { None }, None => None }'
    c.impl(k, '''
            open spec fn type_of(&self) -> u16 { 0x%04x }
            open spec fn before_spec(&self, tid: crate::TransactionId) -> Option<Self> { %s }
            open spec fn after_spec(&self, tid: crate::TransactionId, enc: Option<Seq<u8>>) -> Option<Self> { %s }
            proof fn items_ok() { }''' % (code, before, after))
    c.fn(k + '::get_type')
    c.fn(k + '::before_encode')
    c.fn(k + '::after_decode', hint='            broadcast use contents;\n            proof { any_enc_def(*message); }' if n in ('MessageIntegrity', 'Fingerprint') else '')

def enum(c, mod, vs):
    D, E = 'AttributeDecoder', 'AttributeEncoder'
    m = mod
    def arms(f, none=None, ty='AttributeDecoder'):
        s = ' '.join('%s::%s(a) => %s,' % (ty, v, f(v)) for v in vs)
        return 'match *self { %s %s }' % (s, '%s::None => %s' % (ty, none) if none is not None else '')
    def wrap(v, e): return 'match %s { None => None, Some((x, t)) => Some((Attribute::%s(x), t)) }' % (e, v)
    codes = {n: code for (_, n, _, _, _, code) in ATTRS}
    c.impl('%s::Decode for %s' % (m, D), '''
            open spec fn inv(&self) -> bool { %s }
            #[verifier::opaque]
            open spec fn run(&self, s: Seq<u8>) -> Option<(Self::Item, Seq<u8>)> { %s }
            open spec fn run0(s: Seq<u8>) -> Option<(Self::Item, Seq<u8>)> { None }
            open spec fn ready(&self) -> bool { *self is None }
            open spec fn idle(&self) -> bool { %s }
            open spec fn done(&self) -> Option<Self::Item> { %s }
            open spec fn mid(&self) -> bool { %s }
            open spec fn starves() -> bool { false }
            open spec fn greedy() -> bool { false }
            open spec fn total() -> bool { false }
            open spec fn robust() -> bool { false }
            open spec fn starved(&self) -> bool { false }
            proof fn ready_law(&self) { reveal(%s::run); }
            open spec fn exact() -> bool { false }
            open spec fn resets() -> bool { false }
            open spec fn fresh() -> bool { true }
            open spec fn req(&self) -> ByteCount { %s }
            open spec fn need(&self) -> nat { 0 }
            open spec fn more(pre: Self, post: Self, n: nat, m: nat, eos: Eos, r: Result<usize>) -> bool { true }''' % (
        arms(lambda v: 'a.inv()', 'true'), arms(lambda v: wrap(v, 'a.run(s)'), 'None'),
        arms(lambda v: 'a.idle()', 'true'),
        arms(lambda v: 'match a.done() { None => None, Some(x) => Some(Attribute::%s(x)) }' % v, 'None'),
        arms(lambda v: 'a.mid()', 'false'), D, arms(lambda v: 'a.req()', 'ByteCount::Finite(0)')))
    k = '%s::Decode for %s::' % (m, D)
    rv = '            reveal(%s::run);' % D
    for f in ['decode', 'finish_decoding', 'is_idle', 'default']:
        c.fn(k + f, hint=rv)
    c.fn(k + 'requiring_bytes')
    c.fn('%s::%s::new' % (m, D), '            ensures r.inv(), r.ready(),')
    know = ' || '.join('tag.0 == 0x%04x' % codes[v] for v in vs)
    tr = ''
    for v in vs:
        tr += 'if tag.0 == 0x%04x { %s } else ' % (codes[v], wrap(v, '%sDecoder::run0(s)' % v))
    c.impl('%s::TryTaggedDecode for %s' % (m, D), '''
            open spec fn knows(tag: crate::AttributeType) -> bool { %s }
            open spec fn tagged_run0(tag: crate::AttributeType, s: Seq<u8>) -> Option<(Attribute, Seq<u8>)> { %s { None } }''' % (know, tr))
    c.fn('%s::TryTaggedDecode for %s::try_start_decoding' % (m, D), hint=rv)
    c.mod(m, '    impl Steady for %s { proof fn steady() { } }' % D)
    c.impl('%s::Encode for %s' % (m, E), '''
            open spec fn inv(&self) -> bool { %s }
            open spec fn idle(&self) -> bool { %s }
            #[verifier::opaque]
            open spec fn pending(&self) -> Seq<u8> { %s }
            open spec fn item_ok(item: Attribute) -> bool { true }
            open spec fn enc(item: Attribute) -> Option<Seq<u8>> { match item { %s } }
            open spec fn guarded() -> bool { true }
            proof fn idle_law(&self) { reveal(%s::pending); match *self { %s %s::None => { } } }''' % (
        arms(lambda v: 'a.inv()', 'true', E), arms(lambda v: 'a.idle()', 'true', E), arms(lambda v: 'a.pending()', 'Seq::empty()', E),
        ' '.join('Attribute::%s(a) => %sEncoder::enc(a),' % (v, v) for v in vs), E,
        ' '.join('%s::%s(a) => { a.idle_law(); }' % (E, v) for v in vs), E))
    k = '%s::Encode for %s::' % (m, E)
    rv = '            reveal(%s::pending);' % E
    c.fn(k + 'encode', hint=rv + '''
            proof { assert(self.pending().take(0) + buf@.skip(0) =~= buf@); assert(self.pending().skip(0) =~= self.pending()); }''')
    for f in ['start_encoding', 'is_idle', 'default']:
        c.fn(k + f, hint=rv)
    c.fn(k + 'requiring_bytes')
    c.fn('%s::SizedEncode for %s::exact_requiring_bytes' % (m, E), hint=rv)
    c.fn('%s::%s::new' % (m, E), '            ensures r.inv(), r.idle(),')
    k = '%s::Attribute for Attribute' % m
    am = lambda f: 'match *self { %s }' % ' '.join('Attribute::%s(a) => %s,' % (v, f(v)) for v in vs)
    opt = lambda v, e: 'match %s { None => None, Some(x) => Some(Attribute::%s(x)) }' % (e, v)
    c.impl(k, '''
            open spec fn type_of(&self) -> u16 { %s }
            open spec fn before_spec(&self, tid: crate::TransactionId) -> Option<Self> { %s }
            open spec fn after_spec(&self, tid: crate::TransactionId, enc: Option<Seq<u8>>) -> Option<Self> { %s }
            proof fn items_ok() { assert forall|i: Attribute| #[trigger] <AttributeEncoder as crate::bytecodec::Encode>::item_ok(i) by { reveal(<AttributeEncoder as crate::bytecodec::Encode>::item_ok); } }''' % (am(lambda v: 'a.type_of()'), am(lambda v: opt(v, 'a.before_spec(tid)')), am(lambda v: opt(v, 'a.after_spec(tid, enc)'))))
    for f in ['get_type', 'before_encode', 'after_decode']:
        c.fn(k + '::' + f)
    for v in vs:
        c.fn('%s::From<%s> for Attribute::from' % (m, v))
        k = '%s::convert::TryAsRef<%s> for Attribute' % (m, v)
        k2 = '%s::TryAsRef<%s> for Attribute' % (m, v)
        c.impl(k2, '''            open spec fn as_spec(&self) -> Option<%s> { match *self { Attribute::%s(a) => Some(a), _ => None } }''' % (v, v))
        c.fn(k2 + '::try_as_ref')

def build():
    c = Contracts()
    c.mod_use = '    use vstd::prelude::*; use crate::seqs::*; use crate::bits::*; use crate::spec::*; use crate::bytecodec::*;'
    c.line_rewrites = [(r'pub (buf: \[u8; 3\],|len: usize,)', r'\1')]
    for a in ATTRS:
        mod, n, (d, e), value, wire, code = a
        attribute(c, mod, n, d, e, value, wire, code)
    for m, vs in ENUMS.items():
        enum(c, m, vs)
    for m in ['leaf', 'core']:
        mm = __import__('contracts_' + m)
        mm.add(c)
    return c
