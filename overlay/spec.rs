// Specification vocabulary used by the contracts (no executable counterpart in /repo).
pub mod spec {
    use super::*;
    use crate::seqs::*;
    use crate::bytecodec::*;
    use crate::attribute::*;
    use crate::message::*;
    pub use crate::transaction_id::TransactionId;
    pub use crate::message::{msg_enc, enc_len};
    use crate::shim::net::{SocketAddr, IpAddr, Ipv4Addr, Ipv6Addr};

    /// The attribute type of the message handed to the before_encode / after_decode hooks.
    /// The hooks of the crate are generic in it; here that type is left abstract.
    #[verifier::external_body]
    pub struct AnyAttr { x: u8 }
    #[verifier::external_body]
    pub struct AnyDecoder { x: u8 }
    #[verifier::external_body]
    pub struct AnyEncoder { x: u8 }
    pub uninterp spec fn any_type(a: AnyAttr) -> u16;
    pub uninterp spec fn any_before(a: AnyAttr, tid: TransactionId) -> Option<AnyAttr>;
    pub uninterp spec fn any_after(a: AnyAttr, tid: TransactionId, enc: Option<Seq<u8>>) -> Option<AnyAttr>;
    impl Attribute for AnyAttr {
        type Decoder = AnyDecoder;
        type Encoder = AnyEncoder;
        proof fn items_ok() { }
        open spec fn type_of(&self) -> u16 { any_type(*self) }
        open spec fn before_spec(&self, tid: TransactionId) -> Option<Self> { any_before(*self, tid) }
        open spec fn after_spec(&self, tid: TransactionId, enc: Option<Seq<u8>>) -> Option<Self> { any_after(*self, tid, enc) }
        #[verifier::external_body]
        fn get_type(&self) -> (r: AttributeType) { unimplemented!() }
        #[verifier::external_body]
        fn before_encode(&mut self, message: &Message<AnyAttr>) -> (r: Result<()>) { unimplemented!() }
        #[verifier::external_body]
        fn after_decode(&mut self, message: &Message<AnyAttr>) -> (r: Result<()>) { unimplemented!() }
    }
    pub uninterp spec fn any_d_inv(d: AnyDecoder) -> bool;
    pub uninterp spec fn any_d_run(d: AnyDecoder, s: Seq<u8>) -> Option<(AnyAttr, Seq<u8>)>;
    pub uninterp spec fn any_d_ready(d: AnyDecoder) -> bool;
    pub uninterp spec fn any_d_idle(d: AnyDecoder) -> bool;
    pub uninterp spec fn any_d_done(d: AnyDecoder) -> Option<AnyAttr>;
    pub uninterp spec fn any_d_mid(d: AnyDecoder) -> bool;
    pub uninterp spec fn any_d_req(d: AnyDecoder) -> ByteCount;
    pub uninterp spec fn any_d_run0(tag: AttributeType, s: Seq<u8>) -> Option<(AnyAttr, Seq<u8>)>;
    pub uninterp spec fn any_d_knows(tag: AttributeType) -> bool;
    impl Decode for AnyDecoder {
        type Item = AnyAttr;
        open spec fn inv(&self) -> bool { any_d_inv(*self) }
        open spec fn run(&self, s: Seq<u8>) -> Option<(AnyAttr, Seq<u8>)> { any_d_run(*self, s) }
        open spec fn run0(s: Seq<u8>) -> Option<(AnyAttr, Seq<u8>)> { None }
        open spec fn ready(&self) -> bool { any_d_ready(*self) }
        open spec fn idle(&self) -> bool { any_d_idle(*self) }
        open spec fn done(&self) -> Option<AnyAttr> { any_d_done(*self) }
        open spec fn mid(&self) -> bool { any_d_mid(*self) && !any_d_ready(*self) }
        open spec fn starves() -> bool { false }
        open spec fn greedy() -> bool { false }
        open spec fn total() -> bool { false }
        open spec fn robust() -> bool { false }
        open spec fn starved(&self) -> bool { false }
        open spec fn exact() -> bool { false }
        open spec fn resets() -> bool { false }
        open spec fn fresh() -> bool { false }
        open spec fn req(&self) -> ByteCount { any_d_req(*self) }
        open spec fn need(&self) -> nat { 0 }
        open spec fn more(pre: Self, post: Self, n: nat, m: nat, eos: Eos, r: Result<usize>) -> bool { true }
        proof fn ready_law(&self) { }
        #[verifier::external_body]
        fn decode(&mut self, buf: &[u8], eos: Eos, Ghost(__rest): Ghost<Seq<u8>>) -> (r: Result<usize>) { unimplemented!() }
        #[verifier::external_body]
        fn finish_decoding(&mut self) -> (r: Result<AnyAttr>) { unimplemented!() }
        #[verifier::external_body]
        fn requiring_bytes(&self) -> (r: ByteCount) { unimplemented!() }
        #[verifier::external_body]
        fn is_idle(&self) -> (r: bool) { unimplemented!() }
        #[verifier::external_body]
        fn default() -> (r: Self) { unimplemented!() }
    }
    impl Steady for AnyDecoder { proof fn steady() { } }
    impl TryTaggedDecode for AnyDecoder {
        type Tag = AttributeType;
        open spec fn knows(tag: AttributeType) -> bool { any_d_knows(tag) }
        open spec fn tagged_run0(tag: AttributeType, s: Seq<u8>) -> Option<(AnyAttr, Seq<u8>)> { any_d_run0(tag, s) }
        #[verifier::external_body]
        fn try_start_decoding(&mut self, tag: AttributeType) -> (r: Result<bool>) { unimplemented!() }
    }
    pub uninterp spec fn any_e_inv(d: AnyEncoder) -> bool;
    pub uninterp spec fn any_e_idle(d: AnyEncoder) -> bool;
    pub uninterp spec fn any_e_pending(d: AnyEncoder) -> Seq<u8>;
    pub uninterp spec fn any_e_enc(i: AnyAttr) -> Option<Seq<u8>>;
    impl Encode for AnyEncoder {
        type Item = AnyAttr;
        open spec fn inv(&self) -> bool { any_e_inv(*self) && (any_e_idle(*self) ==> any_e_pending(*self) == Seq::<u8>::empty()) }
        open spec fn idle(&self) -> bool { any_e_idle(*self) }
        open spec fn pending(&self) -> Seq<u8> { any_e_pending(*self) }
        open spec fn item_ok(item: AnyAttr) -> bool { true }
        open spec fn enc(item: AnyAttr) -> Option<Seq<u8>> { any_e_enc(item) }
        open spec fn guarded() -> bool { false }
        proof fn idle_law(&self) { }
        #[verifier::external_body]
        fn encode(&mut self, buf: &mut [u8], eos: Eos) -> (r: Result<usize>) { unimplemented!() }
        #[verifier::external_body]
        fn start_encoding(&mut self, item: AnyAttr) -> (r: Result<()>) { unimplemented!() }
        #[verifier::external_body]
        fn requiring_bytes(&self) -> (r: ByteCount) { unimplemented!() }
        #[verifier::external_body]
        fn is_idle(&self) -> (r: bool) { unimplemented!() }
        #[verifier::external_body]
        fn default() -> (r: Self) { unimplemented!() }
    }
    impl SizedEncode for AnyEncoder {
        #[verifier::external_body]
        fn exact_requiring_bytes(&self) -> (r: u64) { unimplemented!() }
    }

    /// XOR-*: port and address are XORed with the magic cookie followed by the transaction id
    pub open spec fn xor_key(tid: TransactionId) -> Seq<u8> { seq![0x21u8, 0x12u8, 0xA4u8, 0x42u8] + tid.0@ }
    pub open spec fn xor_octets(o: Seq<u8>, key: Seq<u8>) -> Seq<u8> { Seq::new(o.len(), |i: int| o[i] ^ key[i]) }
    pub open spec fn xor_spec(a: SocketAddr, tid: TransactionId) -> SocketAddr {
        SocketAddr {
            ip: match a.ip {
                IpAddr::V4(x) => IpAddr::V4(Ipv4Addr(mk_arr::<4>(xor_octets(x.0@, xor_key(tid))))),
                IpAddr::V6(x) => IpAddr::V6(Ipv6Addr(mk_arr::<16>(xor_octets(x.0@, xor_key(tid))))),
            },
            port: a.port ^ 0x2112,
        }
    }
    pub broadcast proof fn cookie_bytes(i: int)
        requires 0 <= i < 4
        ensures (#[trigger] (0x2112A442u32 >> ((24 - i * 8) as usize))) as u8 == seq![0x21u8, 0x12u8, 0xA4u8, 0x42u8][i]
    {
        assert((0x2112A442u32 >> 24usize) as u8 == 0x21) by (bit_vector);
        assert((0x2112A442u32 >> 16usize) as u8 == 0x12) by (bit_vector);
        assert((0x2112A442u32 >> 8usize) as u8 == 0xA4) by (bit_vector);
        assert((0x2112A442u32 >> 0usize) as u8 == 0x42) by (bit_vector);
    }
    pub proof fn port_xor() ensures (0x2112A442u32 >> 16) as u16 == 0x2112u16 { assert((0x2112A442u32 >> 16) as u16 == 0x2112u16) by (bit_vector); }
    /// C10: the XOR operation is its own inverse
    pub proof fn xor_involution(a: SocketAddr, tid: TransactionId)
        ensures xor_spec(xor_spec(a, tid), tid) == a
    {
        broadcast use contents;
        let p = a.port;
        assert((p ^ 0x2112) ^ 0x2112 == p) by (bit_vector);
        let o = match a.ip { IpAddr::V4(x) => x.0@, IpAddr::V6(x) => x.0@ };
        let k = xor_key(tid);
        assert(xor_octets(xor_octets(o, k), k) =~= o) by {
            assert forall|i: int| 0 <= i < o.len() implies (o[i] ^ k[i]) ^ k[i] == o[i] by {
                let x = o[i];
                let y = k[i];
                assert((x ^ y) ^ y == x) by (bit_vector);
            }
        }
    }
    /// an encoded message `b` with its header length set to end `extra` bytes behind it
    pub open spec fn with_len(b: Seq<u8>, extra: int) -> Seq<u8> {
        let l = (b.len() - 20 + extra) as u16;
        b.update(2, eb16(l)[0]).update(3, eb16(l)[1])
    }
    pub open spec fn fp_crc(b: Seq<u8>) -> u32 { crate::shim::crc::crc_of(crate::shim::crc::CRC_32_ISO_HDLC, with_len(b, 8)) ^ 0x5354_554e }

    /// what the message handed to a hook encodes to
    pub uninterp spec fn any_enc(m: Message<AnyAttr>) -> Option<Seq<u8>>;
    /// its definition (a direct definition would be circular)
    #[verifier::external_body]
    pub proof fn any_enc_def(m: Message<AnyAttr>)
        ensures any_enc(m) == msg_enc::<AnyAttr>(m)
    { }
    /// the hooks are generic in the attribute type of the message: instantiate them
    #[verifier::external_body]
    pub fn as_any<A: Attribute>(m: &Message<A>) -> (r: &Message<AnyAttr>)
        ensures
            r.transaction_id == m.transaction_id,
            any_enc(*r) == msg_enc::<A>(*m),
    { unimplemented!() }
    /// the unsafe `set_len(N)` that ends the hook loops restores exactly the truncated tail
    pub fn hook_len<T>(v: &Vec<T>, n: usize)
        requires v@.len() == n
    { }
    /// an error whose kind the contracts do not track
    #[verifier::external_body]
    pub struct Erased { x: u8 }
    pub uninterp spec fn erased() -> Erased;
    impl Erased {
        #[verifier::external_body]
        pub fn of(e: Error) -> (r: Erased) ensures r == erased() { unimplemented!() }
    }
    impl<A: Attribute> Message<A> {
        /// derived Clone
        #[verifier::external_body]
        pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
    }
}
