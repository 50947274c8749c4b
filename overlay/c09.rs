/// C09: reported requirements are exact.
pub mod c09 {
    use super::*;
    use super::c07::{at, missing};
    use crate::seqs::*;
    use crate::bytecodec::*;
    use crate::message::*;
    use crate::attribute::*;

    /// after n octets: what is missing from the header, then what is missing from the message
    pub fn wanted<A: Attribute>(d: &MessageDecoder<A>, Ghost(s): Ghost<Seq<u8>>, Ghost(n): Ghost<int>) -> (r: ByteCount)
        requires at(*d, s, n)
        ensures
            n < 20 ==> r == ByteCount::Finite((20 - n) as u64),
            n >= 20 ==> super::c02::good(s) && 0 <= 20 + super::c02::head(s).1 - n && r == ByteCount::Finite((20 + super::c02::head(s).1 - n) as u64),
    {
        proof { super::c02::header(s); }
        d.requiring_bytes()
    }
    /// reading no more than that never reads past the message
    pub proof fn inside<A: Attribute>(d: MessageDecoder<A>, s: Seq<u8>, n: int)
        requires at(d, s, n), super::c02::good(s)
        ensures n + missing(d) <= 20 + super::c02::head(s).1
    { super::c02::header(s); }
    /// the encoder: as many octets as it will still emit, 0 exactly when there is none
    pub fn left<A: Attribute>(e: &MessageEncoder<A>) -> (r: ByteCount)
        requires e.inv()
        ensures r == ByteCount::Finite(e.pending().len() as u64), e.pending().len() <= u64::MAX
    { e.requiring_bytes() }
    pub fn left_sized<A: Attribute>(e: &MessageEncoder<A>) -> (r: u64)
        requires e.inv()
        ensures r == e.pending().len()
    { e.exact_requiring_bytes() }
}
