"""Which functions carry which property, and how the obligations are split over Verus processes."""
import json, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LEAF = r'rfc\d+::attributes::'
CODECS = r'\w+(Decoder|Encoder)::'
ENUM = r'rfc\d+::Attribute(Decoder|Encoder)?::'
BASE = r'^(seqs|bits|shim|spec|bytecodec|constants|convert)(::|$)'
CODEC = [r'^attribute::', r'^message::', r'^transaction_id::', r'^net::', r'^' + LEAF + CODECS, r'^' + LEAF + r'\w+$', r'^' + ENUM, BASE]
RFC = r'^rfc\d+::(attributes::\w+|Attribute)::(round|rewire)$'  # the lemmas of overlay/c40.rs, which Verus names after the implementing type
VALUES = CODEC + [r'^' + LEAF + r'\w+::(new|before_encode|after_decode|get_type|before_spec|after_spec)$']
XOR = r'^rfc\d+::attributes::(Xor\w+|MappedAddress|AlternateServer|ResponseOrigin|OtherAddress)'
FIXED = r'^rfc\d+::attributes::(v_|w_|m_|fam)?\w*(ChannelNumber|Lifetime|EvenPort|RequestedTransport|DontFragment|ReservationToken|Priority|UseCandidate|IceControlled|IceControlling|ChangeRequest|ResponsePort|AddressFamily|Fingerprint|ErrorCode)'
TEXT = r'^rfc\d+::attributes::\w*(Username|Realm|Nonce|Software|ErrorCode|Data|MobilityTicket|UnknownAttributes)'
S = {
 'C01': [r'^message::(Type|MessageClass|bits_|type_)', r'^method::', r'^rfc\d+::methods', r'^message::Message(HeaderDecoder|Encoder)::', BASE],
 'C02': [r'^message::', r'^transaction_id::', BASE],
 'C03': [r'^message::(MessageEncoder|enc_|msg_|Message::)', r'^message::\w+$', r'^attribute::(LosslessAttributeEncoder|RawAttributeEncoder|Padding|\w+$)', r'Encoder::', BASE],
 'C04': VALUES, 'C05': VALUES, 'C06': CODEC + [r'::after_decode$'], 'C07': CODEC, 'C08': CODEC, 'C09': CODEC,
 'C10': [r'^net::', XOR, r'^attribute::LosslessAttribute::', r'^' + ENUM + r'(before_encode|after_decode)', BASE],
 'C11': [r'^rfc5389::attributes::MessageIntegrity', r'^rfc5389::attributes::\w+$', r'^message::', r'^attribute::', r'^' + ENUM + r'(before_encode|after_decode)', BASE],
 'C12': [r'^rfc5389::attributes::Fingerprint', r'^message::', r'^attribute::', r'^' + ENUM + r'(before_encode|after_decode)', BASE],
 'C13': [FIXED, r'^rfc8656::attributes::\w+$', BASE],
 'C14': [TEXT, BASE],
 'C15': [r'^method::', LEAF + r'\w+::(new|default|wrapping|min|max|inc|try|value|code)\w*$', LEAF + r'(ChannelNumber|Lifetime|ErrorCode|Username|Realm|Nonce|Software|Data|MobilityTicket|UnknownAttributes)', BASE],
 'C16': [r'^attribute::', r'^message::Message::', r'^rfc\d+::Attribute', r'try_start_decoding$', r'get_type$', r'CODEPOINT$', BASE],
 'C17': [r'^rfc\d+::errors', r'^rfc5389::attributes::ErrorCode', r'^message::Error::', BASE],
}
# the lemma modules each property's statement is assembled in (overlay/cNN.rs)
USES = {'C03': ['c02', 'c03'], 'C13': ['c00', 'c13'], 'C10': ['c00', 'c10'], 'C14': ['c00', 'c13', 'c14'],
        'C04': ['c00', 'c02', 'c03', 'c10', 'c13', 'c14', 'c40', 'c05', 'c04'], 'C05': ['c00', 'c02', 'c10', 'c13', 'c14', 'c40', 'c05'],
        'C06': ['c02', 'c05', 'c06'], 'C07': ['c02', 'c07'], 'C08': ['c02', 'c07', 'c08'], 'C09': ['c02', 'c07', 'c09'],
        'C11': ['c00', 'c02', 'c10', 'c13', 'c14', 'c40', 'c05', 'c12', 'c11'], 'C12': ['c00', 'c02', 'c10', 'c13', 'c14', 'c40', 'c05', 'c12'], 'C15': ['c00', 'c02', 'c10', 'c13', 'c14', 'c40', 'c05', 'c15'], 'C16': ['c00', 'c02', 'c10', 'c13', 'c14', 'c40', 'c05', 'c16']}
def theorems(p): return USES.get(p, [p.lower()])
class regex:
    def __init__(self, p):
        self.c17 = p == 'C17'
        self.rx, self.c40 = re.compile('|'.join(S[p] + [r'^theorems::(%s)::' % '|'.join(theorems(p))])), 'c40' in theorems(p)
    def search(self, k):
        if k.startswith('message::Error::'): return self.c17  # what a broken-message report becomes: no part of the codec
        return self.c40 if re.match(RFC, k) else self.rx.search(k)
BIG = [['attribute'], ['message'], ['rfc5389::attributes'], ['rfc5389', 'rfc5766', 'rfc5245', 'rfc5780'], ['rfc5766::attributes'],
       ['theorems::c04', 'theorems::c05', 'theorems::c11', 'theorems::c12', 'theorems::c15', 'theorems::c16'], ['theorems::c40', 'theorems::c10', 'theorems::c13', 'theorems::c14'],
       ['rfc5780::attributes', 'rfc8016::attributes', 'rfc8656::attributes', 'rfc5245::attributes'], ['net', 'transaction_id', 'method']]
MODS = {'C01': ['message', 'method', 'rfc5389::methods', 'rfc5766::methods'], 'C02': ['message', 'transaction_id'],
        'C10': ['net', 'attribute', 'rfc5389', 'rfc5766', 'rfc5780', 'rfc5245', 'rfc5389::attributes', 'rfc5766::attributes', 'rfc5780::attributes'],
        'C11': ['message', 'attribute', 'rfc5389::attributes', 'rfc5389', 'rfc5766', 'rfc5780', 'rfc5245'], 'C12': ['message', 'attribute', 'rfc5389::attributes', 'rfc5389', 'rfc5766', 'rfc5780', 'rfc5245'],
        'C13': ['rfc5389::attributes', 'rfc5766::attributes', 'rfc5780::attributes', 'rfc5245::attributes', 'rfc8656::attributes'],
        'C14': ['rfc5389::attributes', 'rfc5766::attributes', 'rfc8016::attributes'],
        'C15': ['method', 'rfc5389::attributes', 'rfc5766::attributes', 'rfc8016::attributes', 'rfc5780::attributes', 'rfc5245::attributes', 'rfc8656::attributes'],
        'C17': ['message', 'rfc5389::attributes', 'rfc5389::errors', 'rfc5766::errors', 'rfc5245::errors', 'rfc8016::errors', 'rfc8656::errors']}
def groups(p, mods):
    base = [m for m in mods if re.match(BASE, m + '::')]
    thms = [m for m in mods if m.startswith('theorems::') and m.split('::')[1] in theorems(p)]
    want = [m for m in MODS.get(p, [m for m in mods if m not in base and not m.startswith('theorems')]) if m in mods] + thms
    out, used = [], set()
    for g in BIG:
        g = [m for m in g if m in want]
        if g: out.append(g); used |= set(g)
    out.append([m for m in want if m not in used] + base)
    return out
def verus_name(key):
    """'m::Decode for XDecoder::f' -> 'm::XDecoder::f'"""
    m = re.match(r'^((?:\w+::)*)(.*) for (\w+)::(\w+)$', key)
    return m.group(1) + m.group(3) + '::' + m.group(4) if m else key
def percent(p): return {'C07': 20, 'C08': 25, 'C01': 60, 'C13': 60, 'C14': 60}.get(p, 100)
# the statements of each property, as named obligations: theorems::cNN::<name> in overlay/cNN.rs
TOP = {'C01': 'layout classes encode_decode decode_encode injective on_the_wire bad_top_bits', 'C02': 'encoded header decoded rejected through',
       'C03': 'one in_order aligned hooks_keep constructed body refused', 'C04': 'through', 'C05': 'reencoded', 'C06': 'extent inside malformed delivered',
       'C07': 'next start step feed take cut_short sliced emit drain', 'C08': 'renewed message messages rejects next', 'C09': 'wanted inside left left_sized',
       'C10': 'layout decoded back forth mapped_address alternate_server response_origin other_address xor_mapped_address xor_mapped_address2 xor_peer_address xor_relay_address type_codes obfuscated inverse',
       'C11': 'short_term long_term kept check_short_term check_long_term', 'C12': 'adjusted preceding computed decides verified at_k',
       'C13': ' '.join(n + b for n in ('channel_number lifetime even_port requested_transport dont_fragment use_candidate reservation_token ice_controlled ice_controlling '
                       'priority fingerprint change_request response_port requested_address_family additional_address_family error_code').split() for b in ('', '_back')),
       'C14': 'username realm nonce software same_text data mobility_ticket unknown_attributes',
       'C15': 'method error_code channel_number channel_ends channel_next username realm nonce software data_bytes lifetime lifetime_seconds delivered',
       'C16': 'rfc5389_set rfc5766_set rfc5245_set rfc5780_set alone first lookup wanted listed attributes unknown_attributes required optional delivered',
       'C17': 'role_conflict try_alternate bad_request unauthorized unknown_attribute stale_nonce server_error forbidden allocation_mismatch wrong_credentials '
              'unsupported_transport_protocol allocation_quota_reached insufficient_capacity mobility_forbidden address_family_not_supported peer_address_family_mismatch broken_message codec_error'}
def top(p): return ['theorems::%s::%s' % (p.lower(), n) for n in TOP[p].split()]
def level(p):
    """proof, unless some function in the property's scope is not discharged (overlay/open.json)"""
    opened, rx = json.load(open(os.path.join(ROOT, 'overlay/open.json'))), regex(p)
    return 'exploration' if any(rx.search(verus_name(k)) for k in opened) else 'proof'
def expected(p):
    f = os.path.join(ROOT, 'overlay/expected.json')
    if not os.path.exists(f): return []
    rx = regex(p)
    return [k for k in json.load(open(f)) if rx.search(k)]
ASSUMPTIONS = [
 'the extraction (extract/) is faithful: it drops derives, tests, error-history annotations (trackable) and rewrites listed in DESIGN.md "Extraction"',
 'the bytecodec bodies the crate relies on are verified too; their text is transcribed and compared, token for token, with the registry source after the rewrites listed in tools/depcheck.py (see bytecodec_bodies)',
 'std, crc, hmac, sha1 and md5 are represented by the shim in overlay/shim.rs (cryptographic functions uninterpreted)',
 'arrays, vectors and strings are determined by their contents (overlay/seqs.rs, contents axioms)',
 'functions listed under open_bounded_stand_in are assumed in the proof and decided by the bounded replay only',
]
