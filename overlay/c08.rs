/// C08: no memory of earlier messages.
pub mod c08 {
    use super::*;
    use super::c07::{at, feed, take, joined, missing, start, step};
    use crate::seqs::*;
    use crate::bytecodec::*;
    use crate::message::*;
    use crate::attribute::*;

    /// a decoder which has handed out its item (c07::take, c07::cut_short) is one which does what a new one does
    pub proof fn renewed<A: Attribute>(d: MessageDecoder<A>)
        requires d.inv(), d.ready()
        ensures forall|s: Seq<u8>| #[trigger] d.run(s) == MessageDecoder::<A>::run0(s), missing(d) == 20
    { d.ready_law(); start(d, Seq::empty()); }
    /// m is what a new decoder makes of the slices c
    #[verifier::opaque]
    pub open spec fn as_new<A: Attribute>(c: Seq<Vec<u8>>, m: DecodedMessage<A>) -> bool { MessageDecoder::<A>::run0(joined(c)) matches Some((x, _)) && x == m }
    /// one message, from whatever slices
    pub fn message<A: Attribute>(d: &mut MessageDecoder<A>, c: &Vec<Vec<u8>>) -> (r: Option<DecodedMessage<A>>)
        requires old(d).inv(), old(d).ready(), joined(c@).len() <= usize::MAX
        ensures r matches Some(m) ==> as_new(c@, m) && final(d).inv() && final(d).ready()
    {
        let ghost s = joined(c@) + Seq::empty();
        proof { assert(s =~= joined(c@)); reveal(as_new); }
        let n = match feed(d, c, Ghost(Seq::empty())) { Ok(n) => n, Err(_) => { return None; } };
        if !d.is_idle() { return None; }
        Some(take(d, Ghost(s), Ghost(n as int)))
    }
    /// message after message from one decoder, each as a new decoder has it
    pub fn messages<A: Attribute>(d: &mut MessageDecoder<A>, c: &Vec<Vec<Vec<u8>>>) -> (out: Vec<DecodedMessage<A>>)
        requires old(d).inv(), old(d).ready(), forall|i: int| 0 <= i < c@.len() ==> joined((#[trigger] c@[i])@).len() <= usize::MAX
        ensures out@.len() <= c@.len(), forall|i: int| 0 <= i < out@.len() ==> as_new(c@[i]@, #[trigger] out@[i])
    {
        hide(<MessageDecoder as Decode>::inv);
        hide(<MessageDecoder as Decode>::ready);
        let mut out = Vec::new();
        let mut i: usize = 0;
        while i < c.len()
            invariant
                i <= c@.len(), out@.len() == i, d.inv(), d.ready(), forall|i: int| 0 <= i < c@.len() ==> joined((#[trigger] c@[i])@).len() <= usize::MAX,
                forall|j: int| 0 <= j < i ==> as_new(c@[j]@, #[trigger] out@[j]),
            decreases c@.len() - i
        {
            match message(d, &c[i]) { Some(m) => { out.push(m); }, None => { return out; } }
            i = i + 1;
        }
        out
    }
    /// a bad header is rejected as soon as its 20 octets are there, in whatever slices, and leaves nothing behind
    pub fn rejects<A: Attribute>(d: &mut MessageDecoder<A>, buf: &[u8], eos: Eos, Ghost(rest): Ghost<Seq<u8>>, Ghost(s): Ghost<Seq<u8>>, Ghost(n): Ghost<int>) -> (r: Result<usize>)
        requires
            at(*old(d), s, n), drop(s, n as nat) == buf@ + rest, eos.fits(rest), !super::c02::good(s), n + buf@.len() >= 20,
            !(buf@.len() == 0 && eos.reached() && old(d).mid()),
        ensures r is Err, final(d).inv(), final(d).ready()
    {
        proof { super::c02::header(s); }
        step(d, buf, eos, Ghost(rest), Ghost(s), Ghost(n))
    }
    /// an encoder which is idle takes any message as a new one does; a message it refuses changes nothing
    pub fn next<A: Attribute>(e: &mut MessageEncoder<A>, m: Message<A>) -> (r: Result<()>)
        requires old(e).inv(), old(e).idle()
        ensures
            final(e).inv(),
            r is Ok <==> msg_enc(m) is Some,
            r is Ok ==> final(e).pending() == msg_enc(m)->0,
            r is Err ==> *final(e) == *old(e),
    { e.start_encoding(m) }
}
