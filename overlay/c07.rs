/// C07 (with the ground of C08 and C09): slices do not matter.
pub mod c07 {
    use super::*;
    use crate::seqs::*;
    use crate::bytecodec::*;
    use crate::message::*;
    use crate::attribute::*;

    /// the slices i.. one after another
    pub open spec fn joined(c: Seq<Vec<u8>>) -> Seq<u8> decreases c.len() { if c.len() == 0 { Seq::empty() } else { c.first()@ + joined(c.drop_first()) } }
    pub proof fn next(c: Seq<Vec<u8>>, i: int, rest: Seq<u8>)
        requires 0 <= i < c.len()
        ensures joined(c.skip(i)) + rest == c[i]@ + (joined(c.skip(i + 1)) + rest)
    {
        assert(c.skip(i).drop_first() =~= c.skip(i + 1));
        assert(joined(c.skip(i)) + rest =~= c[i]@ + (joined(c.skip(i + 1)) + rest));
    }
    /// octets the decoder still wants
    pub open spec fn missing<A: Attribute>(d: MessageDecoder<A>) -> int {
        if d.header.item is None { d.header.need() as int } else { d.attributes.remaining_bytes as int }
    }
    /// a decoder which has read n octets of the stream s
    pub open spec fn at<A: Attribute>(d: MessageDecoder<A>, s: Seq<u8>, n: int) -> bool {
        &&& 0 <= n <= s.len()
        &&& d.inv()
        &&& d.run(drop(s, n as nat)) == MessageDecoder::<A>::run0(s)
        &&& match d.header.item {
            None => d.header.run(drop(s, n as nat)) == MessageHeaderDecoder::run0(s) && missing(d) == 20 - n && n < 20,
            Some(h) => MessageHeaderDecoder::run0(s) is Some && (MessageHeaderDecoder::run0(s)->0).0 == h && missing(d) == 20 + h.1 - n && n >= 20,
        }
    }
    pub proof fn start<A: Attribute>(d: MessageDecoder<A>, s: Seq<u8>)
        requires d.inv(), d.ready()
        ensures at(d, s, 0), missing(d) == 20
    {
        reveal(drop);
        assert(drop(s, 0) =~= s);
        d.ready_law();
        d.header.ready_law();
    }
    /// one call of decode; whatever follows the slice
    pub fn step<A: Attribute>(d: &mut MessageDecoder<A>, buf: &[u8], eos: Eos, Ghost(rest): Ghost<Seq<u8>>, Ghost(s): Ghost<Seq<u8>>, Ghost(n): Ghost<int>) -> (r: Result<usize>)
        requires
            at(*old(d), s, n), drop(s, n as nat) == buf@ + rest, eos.fits(rest),
            !(buf@.len() == 0 && eos.reached() && old(d).mid()),
        ensures
            final(d).inv(),
            match r {
                Ok(k) => at(*final(d), s, n + k) && k <= buf@.len() && (!final(d).idle() ==> k == buf@.len() && (eos.reached() ==> MessageDecoder::<A>::run0(s) is None)),
                Err(_) => MessageDecoder::<A>::run0(s) is None && match final(d).header.item {
                    None => n + buf@.len() >= 20 ==> final(d).ready(),
                    Some(h) => MessageHeaderDecoder::run0(s) is Some && (MessageHeaderDecoder::run0(s)->0).0 == h,
                },
            },
    {
        broadcast use seqs;
        proof { reveal(drop); }
        let r = d.decode(buf, eos, Ghost(rest));
        proof { if let Ok(k) = r { if eos.reached() && !d.idle() { assert(drop(s, (n + k) as nat) =~= Seq::<u8>::empty()); } } }
        r
    }
    /// decode slice after slice until a message is complete
    pub fn feed<A: Attribute>(d: &mut MessageDecoder<A>, c: &Vec<Vec<u8>>, Ghost(rest): Ghost<Seq<u8>>) -> (r: Result<usize>)
        requires old(d).inv(), old(d).ready(), joined(c@).len() <= usize::MAX
        ensures match r {
            Ok(n) => at(*final(d), joined(c@) + rest, n as int) && (!final(d).idle() ==> n == joined(c@).len()),
            Err(_) => MessageDecoder::<A>::run0(joined(c@) + rest) is None,
        }
    {
        let ghost s = joined(c@) + rest;
        let mut n: usize = 0;
        let mut i: usize = 0;
        proof {
            start(*d, s);
            assert(c@.skip(0) =~= c@);
            reveal(drop);
            assert(drop(s, 0) =~= s);
        }
        while i < c.len()
            invariant
                i <= c@.len(), s == joined(c@) + rest, joined(c@).len() <= usize::MAX,
                at(*d, s, n as int), drop(s, n as nat) == joined(c@.skip(i as int)) + rest,
                n + joined(c@.skip(i as int)).len() == joined(c@).len(),
            decreases c@.len() - i
        {
            proof { next(c@, i as int, rest); assert(c@.skip(i as int).drop_first() =~= c@.skip(i + 1)); }
            let k = step(d, c[i].as_slice(), Eos::new(false), Ghost(joined(c@.skip(i + 1)) + rest), Ghost(s), Ghost(n as int))?;
            proof { reveal(drop); }
            n = n + k;
            if d.is_idle() { return Ok(n); }
            proof { let x = joined(c@.skip(i + 1)) + rest; assert(k == c[i as int]@.len()); assert(s.skip(n - k) == c[i as int]@ + x); assert(s.skip(n as int) =~= s.skip(n - k).skip(k as int)); assert((c[i as int]@ + x).skip(k as int) =~= x); assert(drop(s, n as nat) =~= joined(c@.skip(i + 1)) + rest); }
            i = i + 1;
        }
        proof { assert(c@.skip(i as int) =~= Seq::empty()); }
        Ok(n)
    }
    /// what a complete decoder hands out is what the whole stream decodes to, and it has read exactly that much
    pub fn take<A: Attribute>(d: &mut MessageDecoder<A>, Ghost(s): Ghost<Seq<u8>>, Ghost(n): Ghost<int>) -> (r: DecodedMessage<A>)
        requires at(*old(d), s, n), old(d).idle()
        ensures MessageDecoder::<A>::run0(s) == Some((r, drop(s, n as nat))), final(d).inv(), final(d).ready()
    {
        let _ = d.is_idle();
        match d.finish_decoding() { Ok(m) => m, Err(_) => { proof { assert(false); } vstd::pervasive::unreached() } }
    }
    /// when the input ends inside a message there is no message: at best a report with what the header said
    pub fn cut_short<A: Attribute>(d: &mut MessageDecoder<A>, Ghost(s): Ghost<Seq<u8>>, Ghost(n): Ghost<int>) -> (r: DecodedMessage<A>)
        requires at(*old(d), s, n), old(d).header.item is Some, missing(*old(d)) > 0
        ensures super::c02::good(s), r == broken::<A>(super::c02::head(s)), final(d).inv(), final(d).ready()
    {
        proof { super::c02::header(s); }
        match d.finish_decoding() { Ok(m) => m, Err(_) => { proof { assert(false); } vstd::pervasive::unreached() } }
    }
    /// C07: two ways of slicing the same stream end with the same item, after the same number of octets
    pub fn sliced<A: Attribute>(d: &mut MessageDecoder<A>, e: &mut MessageDecoder<A>, c: &Vec<Vec<u8>>, b: &Vec<Vec<u8>>, Ghost(rest): Ghost<Seq<u8>>) -> (r: Option<(DecodedMessage<A>, DecodedMessage<A>, usize, usize)>)
        requires old(d).inv(), old(d).ready(), old(e).inv(), old(e).ready(), joined(c@) == joined(b@), joined(c@).len() <= usize::MAX
        ensures r matches Some((x, y, n, k)) ==> x == y && n == k
    {
        let ghost s = joined(c@) + rest;
        let n = match feed(d, c, Ghost(rest)) { Ok(n) => n, Err(_) => { return None; } };
        let k = match feed(e, b, Ghost(rest)) { Ok(n) => n, Err(_) => { return None; } };
        if !d.is_idle() || !e.is_idle() { return None; }
        let x = take(d, Ghost(s), Ghost(n as int));
        let y = take(e, Ghost(s), Ghost(k as int));
        proof { reveal(drop); assert(drop(s, n as nat).len() == s.len() - n); assert(drop(s, k as nat).len() == s.len() - k); }
        Some((x, y, n, k))
    }
    // ---- encoding: buffers do not matter
    /// one call of encode, `done` octets of w being out already
    pub fn emit<A: Attribute>(e: &mut MessageEncoder<A>, buf: &mut [u8], eos: Eos, Ghost(done): Ghost<Seq<u8>>, Ghost(w): Ghost<Seq<u8>>) -> (r: Result<usize>)
        requires old(e).inv(), w == done + old(e).pending()
        ensures
            final(e).inv(), final(buf)@.len() == old(buf)@.len(),
            r matches Ok(k) ==> {
                &&& k <= old(buf)@.len() && w == (done + final(buf)@.take(k as int)) + final(e).pending()
                &&& !final(e).idle() ==> k == old(buf)@.len()
                &&& final(e).idle() ==> w == done + final(buf)@.take(k as int)
            },
            r is Err ==> eos.reached() && done.len() + old(buf)@.len() < w.len(),
    {
        let ghost p = e.pending();
        let r = e.encode(buf, eos);
        proof {
            if let Ok(k) = r {
                assert(buf@.take(k as int) =~= p.take(k as int));
                assert(w =~= (done + buf@.take(k as int)) + e.pending());
                if e.idle() { e.idle_law(); assert(w =~= done + buf@.take(k as int)); }
            }
        }
        r
    }
    /// C07: whatever the buffers, the octets that come out are a prefix of those of encoding at once, and all of them when the encoder is idle
    pub fn drain<A: Attribute>(e: &mut MessageEncoder<A>, sizes: &Vec<usize>) -> (out: Vec<u8>)
        requires old(e).inv()
        ensures final(e).inv(), old(e).pending() == out@ + final(e).pending(), final(e).idle() ==> out@ == old(e).pending()
    {
        let ghost w = e.pending();
        let mut out: Vec<u8> = Vec::new();
        let mut i: usize = 0;
        proof { assert(w =~= out@ + e.pending()); }
        while i < sizes.len()
            invariant i <= sizes@.len(), e.inv(), w == out@ + e.pending(), w == old(e).pending()
            decreases sizes@.len() - i
        {
            let mut b = vec![0u8; sizes[i]];
            let ghost o = out@;
            match emit(e, b.as_mut_slice(), Eos::new(false), Ghost(out@), Ghost(w)) {
                Ok(k) => {
                    let mut j: usize = 0;
                    while j < k
                        invariant j <= k <= b@.len(), out@ == o + b@.take(j as int)
                        decreases k - j
                    {
                        out.push(b[j]);
                        proof { assert(b@.take(j + 1) =~= b@.take(j as int).push(b@[j as int])); assert(out@ =~= o + b@.take(j + 1)); }
                        j = j + 1;
                    }
                },
                Err(_) => { proof { assert(false); } },
            }
            i = i + 1;
        }
        proof { if e.idle() { e.idle_law(); assert(w =~= out@); } }
        out
    }
}
