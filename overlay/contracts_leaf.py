"""Contracts of the functions that are not produced by the attribute / enum templates, except those
of the modules `attribute` and `message` (see contracts_core.py)."""
import re

ADDRS = [('rfc5389', 'AlternateServer MappedAddress XorMappedAddress XorMappedAddress2'),
         ('rfc5766', 'XorPeerAddress XorRelayAddress'), ('rfc5780', 'ResponseOrigin OtherAddress')]

# error type -> (module, code, reason phrase)
ERRORS = {
 'RoleConflict': ('rfc5245', 487, 'Role Conflict'),
 'TryAlternate': ('rfc5389', 300, 'Try Alternate'),
 'BadRequest': ('rfc5389', 400, 'Bad Request'),
 'Unauthorized': ('rfc5389', 401, 'Unauthorized'),
 'UnknownAttribute': ('rfc5389', 420, 'Unknown Attribute'),
 'StaleNonce': ('rfc5389', 438, 'Stale Nonce'),
 'ServerError': ('rfc5389', 500, 'Server Error'),
 'Forbidden': ('rfc5766', 403, 'Forbidden'),
 'AllocationMismatch': ('rfc5766', 437, 'Allocation Mismatch'),
 'WrongCredentials': ('rfc5766', 441, 'Wrong Credentials'),
 'UnsupportedTransportProtocol': ('rfc5766', 442, 'Unsupported Transport Protocol'),
 'AllocationQuotaReached': ('rfc5766', 486, 'Allocation Quota Reached'),
 'InsufficientCapacity': ('rfc5766', 508, 'Insufficient Capacity'),
 'MobilityForbidden': ('rfc8016', 405, 'Mobility Forbidden'),
 'AddressFamilyNotSupported': ('rfc8656', 440, 'Address Family not Supported'),
 'PeerAddressFamilyMismatch': ('rfc8656', 443, 'Peer Address Family Mismatch'),
}
METHODS = {'rfc5389': {'BINDING': 1},
           'rfc5766': {'ALLOCATE': 3, 'REFRESH': 4, 'SEND': 6, 'DATA': 7, 'CREATE_PERMISSION': 8, 'CHANNEL_BIND': 9}}

def is_ok(cond, val):
    return ('                ensures\n                    r is Ok <==> %s,\n                    r is Ok ==> r->Ok_0 == (%s),\n'
            '                    r is Err ==> invalid(r),' % (cond, val))
def is_(val, req=''):
    return (('                requires %s,\n' % req) if req else '') + '                ensures r == (%s),' % val

def from_spec(key, h):
    """FromSpecImpl for every `impl From<X> for Y` of the crate"""
    m = re.search(r'From<(\w+)> for (\w+)', key)
    if not m or 'TryFrom' in key or not re.search(r'impl(<.*?>)? From<', h): return ''
    x, y = m.groups()
    head = re.search(r'From<(.*)> for ([^{]*?)\s*\{', h)
    if y == 'ErrorCode' and x in ERRORS:
        e = 'mk_code(%d, "%s"@)' % ERRORS[x][1:]
    elif y == 'ErrorCode' and x == 'Error':
        e = 'if v.kind == ErrorKind::InvalidInput { mk_code(400, "Bad Request"@) } else { mk_code(500, "Server Error"@) }'
    elif y == 'Error' and x == 'BrokenMessage': e = 'Error { kind: ErrorKind::InvalidInput }'
    elif y == 'Method': e = 'Method(v as u16)'
    elif y == 'AttributeType': e = 'AttributeType(v)'
    elif y == 'Attribute': e = 'Attribute::%s(v)' % x
    else: return ''
    return ('    impl vstd::std_specs::convert::FromSpecImpl<%s> for %s {\n        open spec fn obeys_from_spec() -> bool { true }\n'
            '        open spec fn from_spec(v: %s) -> Self { %s }\n    }' % (head.group(1), head.group(2), head.group(1), e))

def sub_run(steps, last):
    """sequential composition: [(variable, option)...] -> nested match"""
    s, depth = '', 0
    for i, (v, e) in enumerate(steps):
        s += 'match %s { None => None, Some((%s, s%d)) => ' % (e, v, i + 1)
        depth += 1
    return s + last + ' }' * depth

def add(c):
    c.impl_pres.append(from_spec)
    c.mod('rfc5389::attributes', '''
        pub open spec fn types_of(s: Seq<u16>) -> Seq<AttributeType> { s.map_values(|c: u16| AttributeType(c)) }
        pub open spec fn codes_of(s: Seq<AttributeType>) -> Seq<u16> { s.map_values(|t: AttributeType| t.0) }
        pub open spec fn mk_code(code: u16, reason: Seq<char>) -> ErrorCode { ErrorCode { code, reason_phrase: string_of(reason) } }''')
    for n, (m, code, _) in ERRORS.items():
        c.fn('%s::errors::From<%s> for ErrorCode::from' % (m, n), hint='                broadcast use contents;')
    for m in ['rfc5245', 'rfc5389', 'rfc5766', 'rfc8016', 'rfc8656']:
        c.mod(m + '::errors', '        pub use crate::rfc5389::attributes::mk_code;')
    for m, d in METHODS.items():
        c.mod(m + '::methods', '        pub proof fn method_codes() ensures %s { }' % ', '.join('%s.0 == %d' % x for x in d.items()))
    c.fn('rfc5389::attributes::From<Error> for ErrorCode::from')
    c.fn('message::From<BrokenMessage> for Error::from')

    # convert
    c.impl('convert::trait TryAsRef', '        spec fn as_spec(&self) -> Option<T>;')
    c.fn('convert::trait TryAsRef::try_as_ref', '            ensures match r { Some(x) => self.as_spec() == Some(*x), None => self.as_spec() is None },')

    # constructors and accessors
    def acc(path, **fns):
        for f, cl in fns.items(): c.fn('%s::%s' % (path, f), cl)
    for m, ns in ADDRS:
        for n in ns.split():
            acc('%s::attributes::%s' % (m, n), new=is_(n + '(addr)'), address=is_('self.0'))
    a = 'rfc5245::attributes::'
    for n, v in [('Priority', 'prio'), ('IceControlled', 'rnd'), ('IceControlling', 'rnd')]:
        acc(a + n, new=is_('%s(%s)' % (n, v)), prio=is_('self.0'))
    acc(a + 'UseCandidate', new=is_('UseCandidate'))
    a = 'rfc5389::attributes::'
    acc(a + 'ErrorCode', new=is_ok('300 <= code < 600', 'ErrorCode { code, reason_phrase }'), code=is_('self.code'),
        reason_phrase='                ensures r@ == self.reason_phrase@,')
    acc(a + 'Fingerprint', crc32=is_('self.crc32'))
    acc(a + 'MessageIntegrity', hmac_sha1=is_('self.hmac_sha1'))
    acc(a + 'Nonce', new=is_ok('value@.len() < 128', 'Nonce { value }'), value='                ensures r@ == self.value@,')
    acc(a + 'Realm', new=is_ok('text@.len() < 128', 'Realm { text }'), text='                ensures r@ == self.text@,')
    acc(a + 'Software', new=is_ok('description@.len() < 128', 'Software { description: Cow::Owned(description) }'),
        new_static=is_('Software { description: Cow::Borrowed(description) }', 'vstd::utf8::encode_utf8(description@).len() < 128'),
        description='                ensures r@ == self.description.text(),')
    acc(a + 'UnknownAttributes', new=is_('UnknownAttributes { unknowns }'), unknowns='                ensures r@ == self.unknowns@,')
    acc(a + 'Username', new=is_ok('vstd::utf8::encode_utf8(name@).len() < 513', 'Username { name }'), name='                ensures r@ == self.name@,')
    a = 'rfc5766::attributes::'
    acc(a + 'ChannelNumber', new=is_ok('0x4000 <= n <= 0x4FFF', 'ChannelNumber(n)'), value=is_('self.0'), min=is_('ChannelNumber(0x4000)'),
        max=is_('ChannelNumber(0x4FFF)'),
        wrapping_increment=is_('ChannelNumber(if self.0 == 0x4FFF { 0x4000 } else { (self.0 + 1) as u16 })', '0x4000 <= self.0 <= 0x4FFF'))
    acc(a + 'Lifetime', new=is_ok('lifetime.secs <= 0xFFFF_FFFF', 'Lifetime(Duration { secs: lifetime.secs, nanos: 0 })'),
        from_u32=is_('Lifetime(Duration { secs: lifetime_seconds as u64, nanos: 0 })'), lifetime=is_('self.0'))
    acc(a + 'Data', new=is_ok('data@.len() <= 0xFFFF', 'Data(data)'), data='                ensures r@ == self.0@,')
    acc(a + 'EvenPort', new=is_('EvenPort(is_requested)'), is_requested=is_('self.0'))
    acc(a + 'RequestedTransport', new=is_('RequestedTransport(protocol)'), protocol=is_('self.0'))
    acc(a + 'ReservationToken', new=is_('ReservationToken(token)'), token=is_('self.0'))
    a = 'rfc5780::attributes::'
    acc(a + 'ChangeRequest', new=is_('ChangeRequest(ip, port)'), ip=is_('self.0'), port=is_('self.1'))
    acc(a + 'ResponsePort', new=is_('ResponsePort(port)'), port=is_('self.0'))
    acc('rfc8016::attributes::MobilityTicket', new='                ensures r is Ok, r->Ok_0 == MobilityTicket(data),',
        empty='                ensures r.0@.len() == 0,', data='                ensures r@ == self.0@,')
    a = 'rfc8656::attributes::'
    for n in ['RequestedAddressFamily', 'AdditionalAddressFamily']:
        acc(a + n, new=is_(n + '(fam)'), address_family=is_('self.0'))
    acc('method::Method', new=is_ok('codepoint < 0x1000', 'Method(codepoint)'), as_u16=is_('self.0'))
    c.fn('method::From<u8> for Method::from')
    acc('transaction_id::TransactionId', new=is_('TransactionId(id)'), as_bytes=is_('&self.0'))
    k = 'transaction_id::AsRefBytes for TransactionId'
    c.impl(k, '        open spec fn bytes(&self) -> Seq<u8> { self.0@ }')
    c.fn(k + '::as_ref')

    c.fn('rfc5389::attributes::Decode for UnknownAttributesDecoder::finish_decoding',
         subst=[(r'crate::shim::map_collect\((\w+), AttributeType::new\)', r'{ let ghost __s = \1@; let __u = crate::shim::map_collect(\1, AttributeType::new); proof { assert(__u@ =~= types_of(__s)); vec_is(__u); } __u }')])
    c.fn('rfc5389::attributes::Encode for UnknownAttributesEncoder::start_encoding',
         subst=[(r'crate::shim::map_collect\(item\.unknowns, \|ty\| ty\.as_u16\(\)\)', r'{ let ghost __s = item.unknowns@; let __u = crate::shim::map_collect(item.unknowns, |ty: AttributeType| -> (r: u16) ensures r == ty.0 { ty.as_u16() }); proof { assert(__u@ =~= codes_of(__s)); vec_is(__u); } __u }')])

    # MESSAGE-INTEGRITY and FINGERPRINT
    a = 'rfc5389::attributes::'
    mi = a + 'MessageIntegrity::'
    c.fn(a + 'Fingerprint::new', '''                ensures
                    r is Ok <==> msg_enc(*message) is Some,
                    r is Ok ==> r->Ok_0.crc32 == fp_crc(msg_enc(*message)->0),''',
         hint='                broadcast use full_range;\n                proof { enc_len(*message); }')
    c.fn(mi + 'message_into_bytes', '''                ensures
                    r is Ok <==> msg_enc(message) is Some,
                    r is Ok ==> r->Ok_0@ == with_len(msg_enc(message)->0, 24),''',
         hint='                proof { enc_len(message); }')
    c.fn(mi + 'generate_hmac_token', '                ensures r@ == crate::shim::hmac::hmac_sha1_of(key@, message@),',
         before=[(r'hasher\.finalize\(\)', '                proof { assert(Seq::<u8>::empty() + message@ =~= message@); }')])
    c.mod('rfc5389::attributes', '''
        /// RFC 5389 15.4: the key of the short-term / long-term credential mechanism
        pub open spec fn short_key(password: &str) -> Seq<u8> { vstd::utf8::encode_utf8(password@) }
        pub open spec fn long_key(username: &Username, realm: &Realm, password: &str) -> Seq<u8> {
            crate::shim::md5::md5_of(vstd::utf8::encode_utf8(username.name@ + seq![':'] + realm.text@ + seq![':'] + password@))
        }
        pub open spec fn mi_is(r: Result<MessageIntegrity>, enc: Option<Seq<u8>>, key: Seq<u8>) -> bool {
            &&& r is Ok <==> enc is Some
            &&& r is Ok ==> r->Ok_0.preceding_message_bytes@ == with_len(enc->0, 24)
                    && r->Ok_0.hmac_sha1@ == crate::shim::hmac::hmac_sha1_of(key, with_len(enc->0, 24))
        }
        pub open spec fn mi_checks(mi: MessageIntegrity, r: std::result::Result<(), ErrorCode>, key: Seq<u8>) -> bool {
            &&& r is Ok <==> mi.hmac_sha1@ =~= crate::shim::hmac::hmac_sha1_of(key, mi.preceding_message_bytes@)
            &&& r is Err ==> r->Err_0 == mk_code(401, "Unauthorized"@)
        }
        pub proof fn long_key_text(u: &Username, r: &Realm, p: &str)
            ensures ""@ + u.name@ + ":"@ + r.text@ + ":"@ + p@ + ""@ == u.name@ + seq![':'] + r.text@ + seq![':'] + p@
        {
            reveal_strlit(""); reveal_strlit(":");
            assert(":"@ =~= seq![':']);
            assert(""@ + u.name@ + ":"@ + r.text@ + ":"@ + p@ + ""@ =~= u.name@ + seq![':'] + r.text@ + seq![':'] + p@);
        }''')
    c.fn(mi + 'new_short_term_credential', '''                ensures mi_is(r, msg_enc(*message), short_key(password)),''')
    c.fn(mi + 'new_long_term_credential', '''                ensures mi_is(r, msg_enc(*message), long_key(username, realm, password)),''', hint='                broadcast use full_range;\n                proof { long_key_text(username, realm, password); }')
    c.fn(mi + 'check_short_term_credential', '                ensures mi_checks(*self, r, short_key(password)),',
         hint='                broadcast use contents;')
    c.fn(mi + 'check_long_term_credential', '                ensures mi_checks(*self, r, long_key(username, realm, password)),',
         hint='                broadcast use {contents, full_range};\n                proof { long_key_text(username, realm, password); }')
    net(c)
    family(c)

def decode_impl(c, key, D, run, run0, ready, inv, idle, done, mid, req, **fl):
    f = dict(starves='false', greedy='false', total='false', robust='false', starved='false', exact='false', resets='false',
             fresh='true', need='0', more='true', law='reveal(%s::run);' % D)
    f.update(fl)
    c.impl(key, '''
            open spec fn inv(&self) -> bool { %s }
            #[verifier::opaque]
            open spec fn run(&self, s: Seq<u8>) -> Option<(Self::Item, Seq<u8>)> { %s }
            open spec fn run0(s: Seq<u8>) -> Option<(Self::Item, Seq<u8>)> { %s }
            open spec fn ready(&self) -> bool { %s }
            open spec fn idle(&self) -> bool { %s }
            open spec fn done(&self) -> Option<Self::Item> { %s }
            open spec fn mid(&self) -> bool { %s }
            open spec fn starves() -> bool { %s }
            open spec fn greedy() -> bool { %s }
            open spec fn total() -> bool { %s }
            open spec fn robust() -> bool { %s }
            open spec fn starved(&self) -> bool { %s }
            proof fn ready_law(&self) { %s }
            open spec fn exact() -> bool { %s }
            open spec fn resets() -> bool { %s }
            open spec fn fresh() -> bool { %s }
            open spec fn req(&self) -> ByteCount { %s }
            open spec fn need(&self) -> nat { %s }
            open spec fn more(pre: Self, post: Self, n: nat, m: nat, eos: Eos, r: Result<usize>) -> bool { %s }''' % (inv, run, run0, ready, idle, done, mid, f['starves'], f['greedy'], f['total'],
                f['robust'], f['starved'], f['law'], f['exact'], f['resets'], f['fresh'], req, f['need'], f['more']))

def encode_impl(c, key, inv, idle, pending, enc, law, item_ok='true', guarded='false', item='Self::Item', opaque=False):
    c.impl(key, '''
            open spec fn inv(&self) -> bool { %s }
            open spec fn idle(&self) -> bool { %s }
            %sopen spec fn pending(&self) -> Seq<u8> { %s }
            open spec fn item_ok(item: %s) -> bool { %s }
            open spec fn enc(item: %s) -> Option<Seq<u8>> { %s }
            open spec fn guarded() -> bool { %s }
            proof fn idle_law(&self) { %s }''' % (inv, idle, '#[verifier::opaque]\n            ' if opaque else '', pending, item, item_ok, item, enc, guarded, law))

def net(c):
    c.mod('net', '''
    use crate::bytecodec::bytes::AsRefBytes as _;
    /// the wire form of an address: zero octet, family, port, address
    pub open spec fn ip_of(b: IpBytes) -> IpAddr {
        match b { IpBytes::V4(a) => IpAddr::V4(crate::shim::net::Ipv4Addr(a)), IpBytes::V6(a) => IpAddr::V6(crate::shim::net::Ipv6Addr(a)) }
    }
    pub open spec fn ip_bytes(a: IpAddr) -> IpBytes { match a { IpAddr::V4(x) => IpBytes::V4(x.0), IpAddr::V6(x) => IpBytes::V6(x.0) } }
    pub open spec fn ip_run0(f: u8, s: Seq<u8>) -> Option<(IpBytes, Seq<u8>)> {
        if f == 1 { if s.len() < 4 { None } else { Some((IpBytes::V4(mk_arr::<4>(s.take(4))), drop(s, 4))) } }
        else if f == 2 { if s.len() < 16 { None } else { Some((IpBytes::V6(mk_arr::<16>(s.take(16))), drop(s, 16))) } }
        else { None }
    }
    pub broadcast proof fn ip_bytes_run0(b: IpBytes, s: Seq<u8>)
        ensures #[trigger] crate::bytecodec::bytes::bytes_run0(b, s) == ip_run0(if b is V4 { 1 } else { 2 }, s)
    { copy_bound(0u8); }
    pub open spec fn sa_enc(a: SocketAddr) -> Seq<u8> {
        seq![0u8] + (seq![if a.ip is V4 { 1u8 } else { 2u8 }] + (eb16(a.port) + ip_bytes(a.ip).bytes()))
    }
    impl Steady for SocketAddrDecoder { proof fn steady() { } }
    impl Renewable for SocketAddrDecoder { proof fn renewable() { } proof fn progress(s: Seq<u8>) { reveal(drop); } }''')
    tail = 'Some((SocketAddr { ip: ip_of(b), port: p }, s%d))'
    p0 = sub_run([('x', 'self.unused.run(s)'), ('f', 'self.family.run(s1)'), ('p', 'self.port.run(s2)'), ('b', 'ip_run0(f, s3)')], tail % 4)
    p1 = sub_run([('p', 'self.port.run(s)'), ('b', 'self.ip.run(s1)')], tail % 2)
    z = sub_run([('x', 'U8Decoder::run0(s)'), ('f', 'U8Decoder::run0(s1)'), ('p', 'U16beDecoder::run0(s2)'), ('b', 'ip_run0(f, s3)')], tail % 4)
    D = 'SocketAddrDecoder'
    decode_impl(c, 'net::Decode for ' + D, D,
        run='if self.family.item is None { %s } else { %s }' % (p0, p1), run0=z,
        inv='''{
                &&& self.unused.inv() && self.family.inv() && self.port.inv() && self.ip.inv()
                &&& self.family.item is None ==> self.port.ready() && self.ip.bytes is None
                &&& self.family.item is Some ==> self.unused.idle() && self.ip.bytes is Some && (self.family.item->0 == 1 || self.family.item->0 == 2)
                &&& !self.unused.idle() ==> !self.family.mid()
                &&& !self.port.idle() ==> !self.ip.mid()
            }''',
        ready='self.unused.ready() && self.family.ready() && self.port.ready() && self.ip.bytes is None',
        idle='self.port.idle() && self.ip.idle()',
        done='match (self.port.done(), self.ip.bytes) { (Some(p), Some(b)) => Some(SocketAddr { ip: ip_of(b), port: p }), _ => None }',
        mid='!self.ready() && !self.idle()',
        req='self.unused.req().add_dec(self.family.req()).add_dec(self.port.req()).add_dec(self.ip.req())',
        law='reveal(SocketAddrDecoder::run); self.unused.ready_law(); self.family.ready_law(); self.port.ready_law();')
    k = 'net::Decode for SocketAddrDecoder::'
    rv = '            reveal(SocketAddrDecoder::run);'
    c.fn(k + 'decode', hint=rv + '\n            broadcast use crate::seqs::seqs;\n            broadcast use ip_bytes_run0;\n            reveal(<U8Decoder as Decode>::done);\n            proof { copy_bound(0u8); }')
    c.fn(k + 'finish_decoding', hint=rv)
    c.fn(k + 'requiring_bytes')
    c.fn(k + 'is_idle', hint=rv)
    c.fn(k + 'default', hint=rv)
    c.fn('net::SocketAddrDecoder::new', '            ensures r.inv(), r.ready(), forall|s: Seq<u8>| #[trigger] r.run(s) == SocketAddrDecoder::run0(s),')
    encode_impl(c, 'net::Encode for SocketAddrEncoder',
        inv='''{
                &&& self.unused.inv() && self.family.inv() && self.port.inv() && self.ip.inv()
                &&& self.ip.idle() ==> self.unused.idle() && self.family.idle() && self.port.idle()
                &&& self.pending().len() <= 20
            }''', idle='self.ip.idle()',
        pending='self.unused.pending() + (self.family.pending() + (self.port.pending() + self.ip.pending()))',
        enc='Some(sa_enc(item))', law='self.unused.idle_law(); self.family.idle_law(); self.port.idle_law(); self.ip.idle_law(); assert(self.pending() =~= Seq::<u8>::empty());')
    k = 'net::Encode for SocketAddrEncoder::'
    c.fn(k + 'encode')
    c.fn(k + 'start_encoding')
    c.fn(k + 'requiring_bytes')
    c.fn(k + 'is_idle', hint='            proof { if self.idle() { self.idle_law(); } }')
    c.fn(k + 'default', hint='            proof { assert(Seq::<u8>::empty() + (Seq::<u8>::empty() + (Seq::<u8>::empty() + Seq::<u8>::empty())) =~= Seq::<u8>::empty()); }')
    c.fn('net::SocketAddrEncoder::new', '            ensures r.inv(), r.idle(), r.pending() == Seq::<u8>::empty(),')
    c.fn('net::SizedEncode for SocketAddrEncoder::exact_requiring_bytes')
    c.fn('net::IpBytes::new', '            ensures r == ip_bytes(ip),')
    k = 'net::AsRefBytes for IpBytes'
    c.impl(k, '        open spec fn bytes(&self) -> Seq<u8> { match *self { IpBytes::V4(a) => a@, IpBytes::V6(a) => a@ } }')
    c.fn(k + '::as_ref')
    k = 'net::AsMutBytes for IpBytes'
    c.impl(k, '''        open spec fn with_bytes(&self, s: Seq<u8>) -> Self { match *self { IpBytes::V4(a) => IpBytes::V4(mk_arr::<4>(s)), IpBytes::V6(a) => IpBytes::V6(mk_arr::<16>(s)) } }
        proof fn with_law(&self, x: Seq<u8>, y: Seq<u8>) { broadcast use contents; }''')
    c.fn(k + '::as_mut', hint='            broadcast use contents;')
    inv = '''                    invariant
                        octets@.len() == %(n)d, %(n2)s,
                        forall|j: int| 0 <= j < %(n)d ==> #[trigger] octets@[j] == if %(lo)sj < i { __o@[j] ^ xor_key(transaction_id)[j] } else { __o@[j] },'''
    c.fn('net::socket_addr_xor', '        ensures r == xor_spec(addr, transaction_id),',
         hint='        broadcast use contents;\n        proof { port_xor(); cookie_bytes(0); cookie_bytes(1); cookie_bytes(2); cookie_bytes(3); }',
         after=[(r'IpAddr::V4\(ip\) => \{\n\s*let mut octets = ip\.octets\(\);', '                let ghost __o = octets;'),
                (r'IpAddr::V6\(ip\) => \{\n\s*let mut octets = ip\.octets\(\);', '                let ghost __o = octets;')],
         before=[(r'let xor_ip = From::from\(octets\);\n\s*SocketAddr::new\(IpAddr::V4', '                proof { assert(octets@ =~= xor_octets(__o@, xor_key(transaction_id))); }'),
                 (r'let xor_ip = From::from\(octets\);\n\s*SocketAddr::new\(IpAddr::V6', '                proof { assert(octets@ =~= xor_octets(__o@, xor_key(transaction_id))); }')],
         subst=[(r'(\*b \^= \(MAGIC_COOKIE >> \(24 - i \* 8\)\) as u8;)', r'\1\n proof { cookie_bytes(i as int); assert(xor_key(transaction_id)[i as int] == seq![0x21u8, 0x12u8, 0xA4u8, 0x42u8][i as int]); }'),
                (r'(\*b \^= transaction_id\.as_bytes\(\)\[i - 4\];)', r'\1\n proof { assert(xor_key(transaction_id)[i as int] == transaction_id.0@[i as int - 4]); }')],
         loops=[inv % dict(n=4, n2='__o == ip.0', lo=''), inv % dict(n=16, n2='__o == ip.0', lo=''), inv % dict(n=16, n2='__o == ip.0', lo='')])

def family(c):
    m = 'rfc8656::attributes'
    c.mod(m, '''
        pub open spec fn fam_of(v: u32) -> Option<AddressFamily> {
            if v / 0x1000000 == 1 { Some(AddressFamily::V4) } else if v / 0x1000000 == 2 { Some(AddressFamily::V6) } else { None }
        }
        pub open spec fn fam_word(f: AddressFamily) -> u32 { match f { AddressFamily::V4 => 0x1000000, AddressFamily::V6 => 0x2000000 } }
        pub open spec fn m_fam(o: Option<(u32, Seq<u8>)>) -> Option<(AddressFamily, Seq<u8>)> {
            match o { None => None, Some((v, t)) => match fam_of(v) { None => None, Some(x) => Some((x, t)) } }
        }
        impl Steady for AddressFamilyDecoder { proof fn steady() { } }''')
    D = 'AddressFamilyDecoder'
    decode_impl(c, m + '::Decode for ' + D, D, run='m_fam(self.family.run(s))', run0='m_fam(U32beDecoder::run0(s))', ready='self.family.ready()',
        inv='self.family.inv()', idle='self.family.idle()', done='match self.family.done() { None => None, Some(v) => fam_of(v) }',
        mid='self.family.mid()', req='self.family.req()', robust='true', exact='true', resets='true', need='self.family.need()',
        law='reveal(AddressFamilyDecoder::run); self.family.ready_law();')
    k = m + '::Decode for AddressFamilyDecoder::'
    rv = '            reveal(AddressFamilyDecoder::run);'
    for f in ['decode', 'finish_decoding', 'is_idle', 'default']: c.fn(k + f, hint=rv)
    c.fn(k + 'requiring_bytes')
    encode_impl(c, m + '::Encode for AddressFamilyEncoder',
        inv='self.family.inv()', idle='self.family.idle()', pending='self.family.pending()',
        enc='Some(eb32(fam_word(item)))', law='self.family.idle_law();')
    k = m + '::Encode for AddressFamilyEncoder::'
    c.fn(k + 'encode', tail_hint='')
    c.fn(k + 'start_encoding')
    c.fn(k + 'requiring_bytes')
    c.fn(k + 'is_idle', hint='            proof { if self.idle() { self.idle_law(); } }')
    c.fn(k + 'default')
    c.fn(m + '::SizedEncode for AddressFamilyEncoder::exact_requiring_bytes')
    del c.fns['rfc8656::attributes::AdditionalAddressFamilyDecoder::new']
    del c.fns['rfc8656::attributes::AdditionalAddressFamilyEncoder::new']
