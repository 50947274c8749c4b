// Contracts for the bytecodec crate (dependency).  See DESIGN.md "Codec contract".
pub mod bytecodec {
    use super::*;
    use crate::seqs::*;

    // std::cmp-style derives are irrelevant here
    #[derive(Clone, Copy, Debug)]
    pub enum ErrorKind { InvalidInput, DecoderTerminated, EncoderFull, IncompleteDecoding, UnexpectedEos, InconsistentState, Other }
    #[derive(Debug)]
    pub struct Error { pub kind: ErrorKind }
    impl vstd::std_specs::convert::FromSpecImpl<ErrorKind> for Error {
        open spec fn obeys_from_spec() -> bool { true }
        open spec fn from_spec(k: ErrorKind) -> Error { Error { kind: k } }
    }
    impl From<ErrorKind> for Error { fn from(k: ErrorKind) -> (r: Error) { Error { kind: k } } }
    impl Error {
        pub fn kind(&self) -> (r: &ErrorKind) ensures *r == self.kind { &self.kind }
    }
    pub type Result<T> = std::result::Result<T, Error>;
    pub fn mkerr(k: ErrorKind) -> (r: Error) ensures r.kind == k { Error { kind: k } }
    pub open spec fn invalid<T>(r: Result<T>) -> bool { r matches Err(e) && e.kind == ErrorKind::InvalidInput }

    #[derive(Clone, Copy)]
    pub enum ByteCount { Finite(u64), Infinite, Unknown }
    impl ByteCount {
        pub open spec fn add_dec(self, o: ByteCount) -> ByteCount {
            match (self, o) {
                (ByteCount::Finite(a), ByteCount::Finite(b)) => ByteCount::Finite((a + b) as u64),
                (ByteCount::Infinite, _) => ByteCount::Infinite,
                (_, ByteCount::Infinite) => ByteCount::Infinite,
                (ByteCount::Unknown, ByteCount::Unknown) => ByteCount::Unknown,
                (ByteCount::Finite(a), ByteCount::Unknown) => if a == 0 { ByteCount::Unknown } else { ByteCount::Finite(a) },
                (ByteCount::Unknown, ByteCount::Finite(b)) => if b == 0 { ByteCount::Unknown } else { ByteCount::Finite(b) },
            }
        }
        pub open spec fn fin(self) -> nat { match self { ByteCount::Finite(a) => a as nat, _ => 0 } }
        pub fn add_for_decoding(self, other: Self) -> (r: Self)
            requires self.fin() + other.fin() <= u64::MAX
            ensures r == self.add_dec(other)
        {
            match (self, other) {
                (ByteCount::Finite(a), ByteCount::Finite(b)) => ByteCount::Finite(a + b),
                (ByteCount::Infinite, _) => ByteCount::Infinite,
                (_, ByteCount::Infinite) => ByteCount::Infinite,
                (ByteCount::Unknown, ByteCount::Unknown) => ByteCount::Unknown,
                (ByteCount::Finite(0), ByteCount::Unknown) => ByteCount::Unknown,
                (ByteCount::Unknown, ByteCount::Finite(0)) => ByteCount::Unknown,
                (ByteCount::Finite(a), ByteCount::Unknown) => ByteCount::Finite(a),
                (ByteCount::Unknown, ByteCount::Finite(b)) => ByteCount::Finite(b),
            }
        }
        pub fn add_for_encoding(self, other: Self) -> (r: Self)
            requires self.fin() + other.fin() <= u64::MAX
            ensures self is Finite && other is Finite ==> r == ByteCount::Finite((self->Finite_0 + other->Finite_0) as u64)
        {
            match (self, other) {
                (ByteCount::Finite(a), ByteCount::Finite(b)) => ByteCount::Finite(a + b),
                (ByteCount::Infinite, _) => ByteCount::Infinite,
                (_, ByteCount::Infinite) => ByteCount::Infinite,
                (_, ByteCount::Unknown) => ByteCount::Unknown,
                (ByteCount::Unknown, _) => ByteCount::Unknown,
            }
        }
        pub fn to_u64(self) -> (r: Option<u64>) ensures r is Some == self is Finite, self is Finite ==> r->0 == self->Finite_0 {
            if let ByteCount::Finite(n) = self {
                Some(n)
            } else {
                None
            }
        }
        pub fn is_zero(&self) -> (r: bool) ensures r == (*self == ByteCount::Finite(0)) {
            match *self { ByteCount::Finite(0) => true, _ => false }
        }
    }
    #[derive(Clone, Copy)]
    pub struct Eos(pub ByteCount);
    impl Eos {
        pub open spec fn reached(self) -> bool { self.0 == ByteCount::Finite(0) }
        pub fn is_reached(&self) -> (r: bool) ensures r == self.reached() { match self.0 { ByteCount::Finite(n) => n == 0, _ => false } }
        pub fn new(b: bool) -> (r: Self) ensures r.reached() == b, r.0 == (if b { ByteCount::Finite(0) } else { ByteCount::Unknown }) { if b { Eos(ByteCount::Finite(0)) } else { Eos(ByteCount::Unknown) } }
        pub fn with_remaining_bytes(n: ByteCount) -> (r: Self) ensures r == Eos(n) { Eos(n) }
        pub fn remaining_bytes(&self) -> (r: ByteCount) ensures r == self.0 { self.0 }
        /// `rest` is a possible continuation of the input after the current buffer
        pub open spec fn fits(self, rest: Seq<u8>) -> bool { self.0 is Finite ==> rest.len() == self.0->Finite_0 && rest.len() <= isize::MAX }
    }

    pub open spec fn done_run<T>(o: Option<T>, s: Seq<u8>) -> Option<(T, Seq<u8>)> { match o { Some(i) => Some((i, s)), None => None } }

    pub trait Decode: Sized {
        type Item;
        /// representation invariant
        spec fn inv(&self) -> bool;
        /// what this decoder, in its present state, makes of the remaining stream `s`
        spec fn run(&self, s: Seq<u8>) -> Option<(Self::Item, Seq<u8>)>;
        /// what a new decoder makes of `s`
        spec fn run0(s: Seq<u8>) -> Option<(Self::Item, Seq<u8>)>;
        /// nothing consumed yet
        spec fn ready(&self) -> bool;
        spec fn idle(&self) -> bool;
        spec fn done(&self) -> Option<Self::Item>;
        /// an item is partially consumed
        spec fn mid(&self) -> bool;
        /// may report Ok at the end of input although not idle
        spec fn starves() -> bool;
        /// becomes idle at the end of input only
        spec fn greedy() -> bool;
        /// decode never fails
        spec fn total() -> bool;
        /// keeps its invariant when decode fails
        spec fn robust() -> bool;
        /// finish_decoding may be called although not idle
        spec fn starved(&self) -> bool;
        /// the number of missing bytes is known at every moment
        spec fn exact() -> bool;
        /// finish_decoding leaves it ready even when it fails
        spec fn resets() -> bool;
        /// a ready decoder behaves as a new one
        spec fn fresh() -> bool;
        spec fn req(&self) -> ByteCount;
        spec fn need(&self) -> nat;
        /// what else is known about one step from `pre` to `post` on n octets with m more to come
        spec fn more(pre: Self, post: Self, n: nat, m: nat, eos: Eos, r: Result<usize>) -> bool;

        fn decode(&mut self, buf: &[u8], eos: Eos, Ghost(__rest): Ghost<Seq<u8>>) -> (r: Result<usize>)
            requires
                old(self).inv(),
                eos.fits(__rest),
                !(buf@.len() == 0 && eos.reached() && old(self).mid()),
            ensures
                r is Ok || Self::robust() ==> final(self).inv(),
                r matches Ok(n) ==> n <= buf@.len()
                    && old(self).run(buf@ + __rest) == final(self).run(drop(buf@ + __rest, n as nat))
                    && (!final(self).idle() ==> n == buf@.len())
                    && (!final(self).idle() && n > 0 ==> final(self).mid())
                    && (eos.reached() && !final(self).idle() ==> Self::starves() && final(self).run(Seq::empty()) is None)
                    && (Self::greedy() && !old(self).idle() && final(self).idle() ==> n == buf@.len() && eos.reached())
                    && (Self::exact() ==> final(self).need() == old(self).need() - n),
                r is Err ==> old(self).run(buf@ + __rest) is None && !Self::total()
                    && (Self::exact() ==> eos.reached() && buf@.len() < old(self).need()),
                Self::more(*old(self), *final(self), buf@.len(), __rest.len(), eos, r),
            ;
        fn finish_decoding(&mut self) -> (r: Result<Self::Item>)
            requires
                old(self).inv(),
                old(self).idle() || old(self).starved(),
            ensures
                r is Ok || Self::resets() ==> final(self).inv(),
                match r { Ok(i) => old(self).done() == Some(i) && final(self).ready(), Err(_) => old(self).done() is None },
                Self::resets() ==> final(self).ready(),
            ;
        proof fn ready_law(&self)
            requires
                self.inv(),
                self.ready(),
            ensures
                Self::fresh() ==> forall|s: Seq<u8>| #[trigger] self.run(s) == Self::run0(s),
                !self.mid(),
            ;
        fn requiring_bytes(&self) -> (r: ByteCount)
            requires
                self.inv(),
            ensures
                r == self.req(),
                Self::exact() ==> r is Finite && r->Finite_0 == self.need(),
            ;
        fn is_idle(&self) -> (r: bool)
            requires
                self.inv(),
            ensures
                r == self.idle(),
                r ==> !self.mid(),
                Self::exact() ==> self.idle() == (self.need() == 0),
                r ==> forall|s: Seq<u8>| #[trigger] self.run(s) == done_run(self.done(), s),
            ;
        fn default() -> (r: Self)
            ensures
                r.inv(),
                r.ready(),
                !r.mid(),
                forall|s: Seq<u8>| #[trigger] r.run(s) == Self::run0(s),
            ;
    }
    /// never reports Ok at the end of input without being idle
    pub trait Steady: Decode {
        proof fn steady()
            ensures !Self::starves();
    }
    /// once ready it behaves as a new one, and an item takes at least one octet
    pub trait Renewable: Decode {
        proof fn renewable()
            ensures Self::fresh();
        proof fn progress(s: Seq<u8>)
            ensures Self::run0(s) matches Some((i, t)) ==> t.len() < s.len();
    }
    pub trait TryTaggedDecode: Steady {
        type Tag;
        spec fn knows(tag: Self::Tag) -> bool;
        spec fn tagged_run0(tag: Self::Tag, s: Seq<u8>) -> Option<(Self::Item, Seq<u8>)>;
        fn try_start_decoding(&mut self, tag: Self::Tag) -> (r: Result<bool>)
            requires
                old(self).inv(),
                old(self).ready(),
            ensures
                final(self).inv(),
                !final(self).mid(),
                r is Ok,
                r->Ok_0 == Self::knows(tag),
                r->Ok_0 ==> forall|s: Seq<u8>| #[trigger] final(self).run(s) == Self::tagged_run0(tag, s),
                !r->Ok_0 ==> final(self).ready(),
            ;
    }

    pub trait Encode: Sized {
        type Item;
        spec fn inv(&self) -> bool;
        spec fn idle(&self) -> bool;
        /// bytes still to be emitted
        spec fn pending(&self) -> Seq<u8>;
        spec fn item_ok(item: Self::Item) -> bool;
        spec fn enc(item: Self::Item) -> Option<Seq<u8>>;
        /// start_encoding on a busy encoder fails and changes nothing
        spec fn guarded() -> bool;
        fn encode(&mut self, buf: &mut [u8], eos: Eos) -> (r: Result<usize>)
            requires
                old(self).inv(),
            ensures
                final(self).inv(),
                final(buf)@.len() == old(buf)@.len(),
                final(self).pending().len() <= old(self).pending().len(),
                r matches Ok(n) ==> n <= old(buf)@.len() && n <= old(self).pending().len()
                    && final(buf)@ == old(self).pending().take(n as int) + old(buf)@.skip(n as int)
                    && final(self).pending() == old(self).pending().skip(n as int)
                    && (!final(self).idle() ==> n == old(buf)@.len()),
                old(self).pending().len() <= old(buf)@.len() ==> r is Ok && final(self).idle(),
                r is Err ==> eos.reached() && old(buf)@.len() < old(self).pending().len(),
            ;
        fn start_encoding(&mut self, item: Self::Item) -> (r: Result<()>)
            requires
                old(self).inv(),
                Self::item_ok(item),
                old(self).idle() || Self::guarded(),
            ensures
                old(self).idle() ==> (r is Ok <==> Self::enc(item) is Some),
                !old(self).idle() ==> r is Err,
                r is Ok ==> final(self).inv() && final(self).pending() == Self::enc(item)->0
                    && (final(self).pending().len() > 0 ==> !final(self).idle()),
                r is Err && Self::guarded() ==> *final(self) == *old(self),
            ;
        proof fn idle_law(&self)
            requires
                self.inv(),
                self.idle(),
            ensures
                self.pending() == Seq::<u8>::empty(),
            ;
        fn requiring_bytes(&self) -> (r: ByteCount)
            requires
                self.inv(),
            ensures
                r is Finite,
                r->Finite_0 == self.pending().len(),
                r->Finite_0 <= 0xC000_0000_0000_0000,
            ;
        fn is_idle(&self) -> (r: bool)
            requires
                self.inv(),
            ensures
                r == self.idle(),
                r ==> self.pending() == Seq::<u8>::empty(),
            ;
        fn default() -> (r: Self)
            ensures
                r.inv(),
                r.idle(),
                r.pending() == Seq::<u8>::empty(),
            ;
    }
    pub trait SizedEncode: Encode {
        fn exact_requiring_bytes(&self) -> (r: u64)
            requires
                self.inv(),
            ensures
                r == self.pending().len(),
                r <= 0xC000_0000_0000_0000,
            ;
    }
    pub trait EncodeExt: Encode {
        fn encode_into_bytes(&mut self, item: Self::Item) -> (r: Result<Vec<u8>>)
            requires
                old(self).inv(),
                Self::item_ok(item),
                old(self).idle(),
            ensures
                r is Ok ==> Self::enc(item) is Some,
                Self::enc(item) is Some && Self::enc(item)->0.len() <= usize::MAX ==> r is Ok,
                r is Ok ==> r->Ok_0@ == Self::enc(item)->0,
            ;
        fn encode_all(&mut self, writer: &mut Vec<u8>) -> (r: Result<()>)
            requires old(self).inv()
            ensures
                r is Ok,
                final(self).inv(), final(self).idle(),
                final(writer)@ == old(writer)@ + old(self).pending(),
            ;
    }
    impl<E: Encode> EncodeExt for E {
        #[verifier::spinoff_prover]
        fn encode_into_bytes(&mut self, item: Self::Item) -> (r: Result<Vec<u8>>) {
            self.start_encoding(item)?;
            match self.requiring_bytes() {
                ByteCount::Finite(size) => {
                    if !(size <= usize::MAX as u64) { return Err(mkerr(ErrorKind::Other)); }
                    let mut buf = vec![0; size as usize];
                    let ghost __b = buf@;
                    let ghost __p = self.pending();
                    self.encode(&mut buf, Eos::new(true))?;
                    proof { self.idle_law(); assert(__p.take(size as int) + __b.skip(size as int) =~= __p); }
                    if !(self.is_idle()) { return Err(mkerr(ErrorKind::InconsistentState)); }
                    Ok(buf)
                }
                ByteCount::Unknown => {
                    let mut buf = Vec::new();
                    self.encode_all(&mut buf)?;
                    Ok(buf)
                }
                ByteCount::Infinite => { return Err(mkerr(ErrorKind::InvalidInput)); }
            }
        }
        #[verifier::spinoff_prover]
        fn encode_all(&mut self, writer: &mut Vec<u8>) -> (r: Result<()>) {
            let mut buf = [0; 1024];
            let ghost __p = self.pending();
            let ghost __w = writer@;
            let ghost mut __n = 0int;
            proof { assert(__w + __p.take(0) =~= __w); assert(__p.skip(0) =~= __p); }
            while !self.is_idle()
                invariant
                    self.inv(), 0 <= __n <= __p.len(), buf@.len() == 1024,
                    self.pending() == __p.skip(__n),
                    writer@ == __w + __p.take(__n),
                ensures
                    self.inv(), self.idle(), 0 <= __n <= __p.len(),
                    self.pending() == __p.skip(__n),
                    writer@ == __w + __p.take(__n),
                decreases self.pending().len(), (if self.idle() { 0int } else { 1int })
            {
                let ghost __q = self.pending();
                let size = self.encode(&mut buf[..], Eos::new(false))?;
                writer.extend_from_slice(&buf[..size]);
                proof {
                    assert(buf@.take(size as int) =~= __q.take(size as int));
                    assert(__w + __p.take(__n) + __q.take(size as int) =~= __w + __p.take(__n + size));
                    assert(__q.skip(size as int) =~= __p.skip(__n + size));
                    __n = __n + size;
                }
                if !self.is_idle() {
                    if !(size != 0) { return Err(mkerr(ErrorKind::Other)); }
                }
            }
            proof { self.idle_law(); assert(__p.take(__n) =~= __p); }
            Ok(())
        }
    }

    /// The expansion of bytecodec_try_decode!($d, offset, buf, eos) with the early return left to the caller:
    /// `if !try_decode(..)? { return Ok(offset); }`
    pub fn try_decode<D: Decode>(d: &mut D, offset: &mut usize, buf: &[u8], eos: Eos, Ghost(__rest): Ghost<Seq<u8>>) -> (r: Result<bool>)
        requires
            old(d).inv(),
            *old(offset) <= buf@.len(),
            eos.fits(__rest),
            old(d).idle() || !(buf@.len() == *old(offset) && eos.reached() && old(d).mid()),
        ensures
            r is Ok || D::robust() ==> final(d).inv(),
            r matches Ok(go) ==> {
                let s = drop(buf@ + __rest, *final(offset) as nat);
                &&& *old(offset) <= *final(offset) <= buf@.len()
                &&& old(d).run(drop(buf@ + __rest, *old(offset) as nat)) == final(d).run(s)
                &&& go == final(d).idle()
                &&& go ==> !final(d).mid() && forall|s: Seq<u8>| #[trigger] final(d).run(s) == done_run(final(d).done(), s)
                &&& !go ==> *final(offset) == buf@.len() && !old(d).idle()
                &&& !go && *final(offset) > *old(offset) ==> final(d).mid()
                &&& !go && eos.reached() ==> D::starves() && final(d).run(s) is None
                &&& D::greedy() && !old(d).idle() && go ==> *final(offset) == buf@.len() && eos.reached()
                &&& D::exact() ==> final(d).need() == old(d).need() - (*final(offset) - *old(offset))
                &&& old(d).idle() ==> *final(d) == *old(d) && *final(offset) == *old(offset)
                &&& !old(d).idle() ==> D::more(*old(d), *final(d), (buf@.len() - *old(offset)) as nat, __rest.len(), eos, Ok((*final(offset) - *old(offset)) as usize))
            },
            r matches Err(e) ==> {
                &&& !old(d).idle()
                &&& old(d).run(drop(buf@ + __rest, *old(offset) as nat)) is None
                &&& !D::total()
                &&& D::exact() ==> eos.reached() && buf@.len() - *old(offset) < old(d).need()
                &&& D::more(*old(d), *final(d), (buf@.len() - *old(offset)) as nat, __rest.len(), eos, Err(e))
            },
    {
        broadcast use seqs;
        if !d.is_idle() {
            let ghost __o = *offset as int;
            let __l = buf.len();
            let n = d.decode(&buf[*offset..], eos, Ghost(__rest))?;
            *offset += n;
            if !d.is_idle() {
                proof {
                    if eos.reached() { reveal(drop); assert(drop(buf@ + __rest, *offset as nat) =~= Seq::<u8>::empty()); }
                }
                return Ok(false);
            }
        }
        Ok(true)
    }
    /// The expansion of bytecodec_try_encode!($e, offset, buf, eos), likewise.  `t` is what the whole chain had to
    /// emit into a buffer holding `b`, `rest` what the encoders behind this one have.
    pub fn try_encode<E: Encode>(e: &mut E, offset: &mut usize, buf: &mut [u8], eos: Eos, Ghost(t): Ghost<Seq<u8>>, Ghost(b): Ghost<Seq<u8>>, Ghost(rest): Ghost<Seq<u8>>) -> (r: Result<bool>)
        requires
            old(e).inv(),
            drained(t, b, old(buf)@, *old(offset) as int, old(e).pending() + rest),
        ensures
            final(e).inv(),
            final(buf)@.len() == old(buf)@.len() == b.len(),
            final(e).pending().len() <= old(e).pending().len(),
            t.len() == *old(offset) + old(e).pending().len() + rest.len(),
            r matches Ok(go) ==> {
                &&& *old(offset) <= *final(offset) <= b.len()
                &&& go == final(e).idle()
                &&& drained(t, b, final(buf)@, *final(offset) as int, final(e).pending() + rest)
                &&& go ==> final(e).pending() == Seq::<u8>::empty() && drained(t, b, final(buf)@, *final(offset) as int, rest)
                &&& !go ==> *final(offset) == b.len()
            },
            old(e).idle() ==> r == Ok::<bool, Error>(true) && *final(e) == *old(e),
            t.len() <= b.len() ==> r == Ok::<bool, Error>(true),
            r is Err ==> eos.reached() && b.len() < t.len(),
    {
        proof { drained_len(t, b, buf@, *offset as int, e.pending(), rest); }
        if !e.is_idle() {
            let ghost __c = buf@;
            let ghost __q = e.pending();
            let ghost __o = *offset as int;
            let __l = buf.len();
            let n = e.encode(&mut buf[*offset..], eos)?;
            *offset += n;
            proof { drained_step(t, b, __c, buf@, __q, e.pending(), rest, __o, n as int); }
            if !e.is_idle() {
                return Ok(false);
            }
        }
        Ok(true)
    }

    /// no slice is longer than isize::MAX (trusted, a rule of Rust)
    #[verifier::external_body]
    pub fn rust_slice(s: &[u8]) -> (r: &[u8]) ensures r@ == s@, r@.len() <= isize::MAX { s }
    pub mod cmp {
        use super::*;
        pub fn min(a: usize, b: usize) -> (r: usize) ensures r == (if a <= b { a } else { b }) { if a <= b { a } else { b } }
        pub fn min64(a: u64, b: u64) -> (r: u64) ensures r == (if a <= b { a } else { b }) { if a <= b { a } else { b } }
    }
    pub mod mem {
        use super::*;
        pub fn take<T>(v: &mut Vec<T>) -> (r: Vec<T>) ensures r == *old(v), final(v)@ == Seq::<T>::empty() {
            let mut n: Vec<T> = Vec::new();
            std::mem::swap(v, &mut n);
            n
        }
    }
    #[verifier::external_type_specification]
    #[verifier::external_body]
    pub struct ExFromUtf8Error(std::string::FromUtf8Error);
    pub assume_specification [String::from_utf8] (v: Vec<u8>) -> (r: std::result::Result<String, std::string::FromUtf8Error>)
        ensures r is Ok == vstd::utf8::valid_utf8(v@), r is Ok ==> vstd::utf8::encode_utf8(r->Ok_0@) == v@;
    #[verifier::external_body]
    pub fn reserve_exact<T>(v: &mut Vec<T>, n: usize) ensures final(v)@ == old(v)@ { v.reserve_exact(n) }

    pub mod bytes {
        use super::*;
        /// AsRef<[u8]> + AsMut<[u8]> for the buffers the crate hands to bytecodec
        pub trait AsRefBytes: Sized {
            spec fn bytes(&self) -> Seq<u8>;
            fn as_ref(&self) -> (r: &[u8])
                ensures r@ == self.bytes(), r@.len() <= isize::MAX;
        }
        pub trait AsMutBytes: AsRefBytes {
            /// the same buffer holding other bytes
            spec fn with_bytes(&self, s: Seq<u8>) -> Self;
            proof fn with_law(&self, x: Seq<u8>, y: Seq<u8>)
                requires x.len() == self.bytes().len(), y.len() == self.bytes().len()
                ensures self.with_bytes(x).with_bytes(y) == self.with_bytes(y), self.with_bytes(self.bytes()) == *self;
            fn as_mut(&mut self) -> (r: &mut [u8])
                ensures
                    r@ == old(self).bytes(),
                    final(r)@.len() == r@.len(),
                    *final(self) == old(self).with_bytes(final(r)@),
                    final(self).bytes() == final(r)@
                no_unwind;
        }
        impl<const N: usize> AsRefBytes for [u8; N] {
            open spec fn bytes(&self) -> Seq<u8> { self@ }
            fn as_ref(&self) -> (r: &[u8]) { rust_slice(self) }
        }
        impl<const N: usize> AsMutBytes for [u8; N] {
            open spec fn with_bytes(&self, s: Seq<u8>) -> Self { mk_arr::<N>(s) }
            proof fn with_law(&self, x: Seq<u8>, y: Seq<u8>) { broadcast use contents; }
            #[verifier::external_body]
            fn as_mut(&mut self) -> (r: &mut [u8]) { self }
        }
        impl AsRefBytes for Vec<u8> {
            open spec fn bytes(&self) -> Seq<u8> { self@ }
            fn as_ref(&self) -> (r: &[u8]) { rust_slice(self) }
        }

        pub struct CopyableBytesDecoder<B> { pub bytes: B, pub offset: usize }
        impl<const N: usize> CopyableBytesDecoder<[u8; N]> {
            pub open spec fn got(&self) -> Seq<u8> { self.bytes@.take(self.offset as int) }
            proof fn step(&self, pre: Self, h: Seq<u8>, rest: Seq<u8>, n: nat)
                requires
                    n <= h.len(), self.offset == pre.offset + n, self.offset <= N,
                    self.bytes@ == pre.bytes@.take(pre.offset as int) + h.take(n as int) + pre.bytes@.skip(self.offset as int),
                ensures
                    pre.run(h + rest) == self.run(drop(h + rest, n)),
                    h.len() + rest.len() < N - pre.offset ==> pre.run(h + rest) is None,
                    self.idle() ==> forall|s: Seq<u8>| #[trigger] self.run(s) == done_run(self.done(), s)
            {
                reveal(CopyableBytesDecoder::run);
                reveal(drop);
                let s = h + rest;
                assert(drop(s, n).len() == s.len() - n);
                if N - self.offset <= drop(s, n).len() {
                    assert(pre.got() + s.take(N - pre.offset) =~= self.got() + drop(s, n).take(N - self.offset));
                    assert(drop(drop(s, n), (N - self.offset) as nat) =~= drop(s, (N - pre.offset) as nat));
                }
                if self.idle() { self.idle_run(); }
            }
            pub proof fn idle_run(&self)
                requires self.inv(), self.idle()
                ensures forall|s: Seq<u8>| #[trigger] self.run(s) == done_run(self.done(), s)
            {
                broadcast use contents;
                broadcast use seqs;
                reveal(CopyableBytesDecoder::run);
                assert forall|s: Seq<u8>| #[trigger] self.run(s) == done_run(self.done(), s) by {
                    assert(self.got() + s.take(0) =~= self.bytes@);
                }
            }
        }
        impl<const N: usize> Decode for CopyableBytesDecoder<[u8; N]> {
            type Item = [u8; N];
            open spec fn inv(&self) -> bool { self.offset <= N }
            #[verifier::opaque]
            open spec fn run(&self, s: Seq<u8>) -> Option<(Self::Item, Seq<u8>)> {
                let k = N - self.offset;
                if s.len() < k { None } else { Some((mk_arr::<N>(self.got() + s.take(k)), drop(s, k as nat))) }
            }
            open spec fn run0(s: Seq<u8>) -> Option<(Self::Item, Seq<u8>)> { arr_run0::<N>(s) }
            open spec fn ready(&self) -> bool { self.offset == 0 }
            open spec fn idle(&self) -> bool { self.offset == N }
            open spec fn done(&self) -> Option<Self::Item> { Some(self.bytes) }
            open spec fn mid(&self) -> bool { 0 < self.offset < N }
            open spec fn starves() -> bool { false }
            open spec fn greedy() -> bool { false }
            open spec fn total() -> bool { false }
            open spec fn robust() -> bool { true }
            open spec fn starved(&self) -> bool { false }
            proof fn ready_law(&self) { broadcast use contents; reveal(CopyableBytesDecoder::run); assert forall|s: Seq<u8>| #[trigger] self.run(s) == Self::run0(s) by { if s.len() >= N { assert(self.got() + s.take(N as int) =~= s.take(N as int)); } } }
            open spec fn exact() -> bool { true }
            open spec fn resets() -> bool { true }
            open spec fn fresh() -> bool { true }
            open spec fn req(&self) -> ByteCount { ByteCount::Finite((N - self.offset) as u64) }
            open spec fn need(&self) -> nat { (N - self.offset) as nat }
            open spec fn more(pre: Self, post: Self, n: nat, m: nat, eos: Eos, r: Result<usize>) -> bool { true }
            #[verifier::spinoff_prover]
            fn decode(&mut self, buf: &[u8], eos: Eos, Ghost(__rest): Ghost<Seq<u8>>) -> (r: Result<usize>) {
                let ghost __b = self.bytes@;
                let size = cmp::min(buf.len(), AsRefBytes::as_ref(&self.bytes).len() - self.offset);
                (&mut AsMutBytes::as_mut(&mut self.bytes)[self.offset..][..size]).copy_from_slice(&buf[..size]);
                self.offset += size;
                proof {
                    assert(self.bytes@ =~= __b.take(self.offset - size) + buf@.take(size as int) + __b.skip(self.offset as int));
                    self.step(*old(self), buf@, __rest, size as nat);
                    broadcast use seqs;
                }
                if self.offset != AsMutBytes::as_mut(&mut self.bytes).len() {
                    if !(!eos.is_reached()) { return Err(mkerr(ErrorKind::UnexpectedEos)); }
                }
                Ok(size)
            }
            #[verifier::spinoff_prover]
            fn finish_decoding(&mut self) -> (r: Result<Self::Item>) {
                if !(self.offset == AsRefBytes::as_ref(&self.bytes).len()) { return Err(mkerr(ErrorKind::IncompleteDecoding)); }
                self.offset = 0;
                Ok(self.bytes)
            }
            #[verifier::spinoff_prover]
            fn requiring_bytes(&self) -> (r: ByteCount) {
                ByteCount::Finite((AsRefBytes::as_ref(&self.bytes).len() - self.offset) as u64)
            }
            #[verifier::spinoff_prover]
            fn is_idle(&self) -> (r: bool) {
                proof { if self.idle() { self.idle_run(); } }
                self.offset == AsRefBytes::as_ref(&self.bytes).len()
            }
            #[verifier::spinoff_prover]
            fn default() -> (r: Self) {
                let __r = CopyableBytesDecoder { bytes: [0u8; N], offset: 0 };
                proof { __r.ready_law(); }
                __r
            }
        }
        pub open spec fn arr_run0<const N: usize>(s: Seq<u8>) -> Option<([u8; N], Seq<u8>)> {
            if s.len() < N { None } else { Some((mk_arr::<N>(s.take(N as int)), drop(s, N as nat))) }
        }

        pub struct BytesDecoder<B = Vec<u8>> { pub bytes: Option<B>, pub offset: usize }
        impl<B: AsMutBytes> BytesDecoder<B> {
            pub open spec fn left(&self) -> nat { match self.bytes { Some(b) => (b.bytes().len() - self.offset) as nat, None => 0 } }
            proof fn start_law(&self)
                requires self.bytes is Some, self.offset == 0
                ensures forall|s: Seq<u8>| #[trigger] self.run(s) == bytes_run0(self.bytes->0, s)
            {
                reveal(BytesDecoder::run);
                let b = self.bytes->0;
                assert forall|s: Seq<u8>| #[trigger] self.run(s) == bytes_run0(b, s) by {
                    let k = b.bytes().len() as int;
                    if s.len() >= k { assert(b.bytes().take(0) + s.take(k) =~= s.take(k)); }
                }
            }
            proof fn idle_run(&self)
                requires self.inv(), self.idle()
                ensures forall|s: Seq<u8>| #[trigger] self.run(s) == done_run(self.done(), s)
            {
                broadcast use seqs;
                reveal(BytesDecoder::run);
                if self.bytes is Some {
                    let b = self.bytes->0;
                    assert forall|s: Seq<u8>| #[trigger] self.run(s) == done_run(self.done(), s) by {
                        assert(b.bytes().take(self.offset as int) + s.take(0) =~= b.bytes());
                        b.with_law(b.bytes(), b.bytes());
                    }
                }
            }
            #[verifier::spinoff_prover]
            fn exact_requiring_bytes(&self) -> (r: u64)
                requires self.inv()
                ensures r == self.left()
            {
                (match self.bytes.as_ref() { None => 0, Some(b) => b.as_ref().len() - self.offset }) as u64
            }
            pub fn set_bytes(&mut self, bytes: B)
                ensures final(self).inv(), final(self).bytes == Some(bytes), final(self).offset == 0,
                    forall|s: Seq<u8>| #[trigger] final(self).run(s) == bytes_run0(bytes, s),
            {
                self.bytes = Some(bytes);
                self.offset = 0;
                proof { self.start_law(); }
            }
        }
        pub open spec fn bytes_run0<B: AsMutBytes>(b: B, s: Seq<u8>) -> Option<(B, Seq<u8>)> {
            let k = b.bytes().len();
            if s.len() < k { None } else { Some((b.with_bytes(s.take(k as int)), drop(s, k))) }
        }
        impl<B: AsMutBytes> Decode for BytesDecoder<B> {
            type Item = B;
            open spec fn inv(&self) -> bool { self.bytes is Some ==> self.offset <= self.bytes->0.bytes().len() }
            #[verifier::opaque]
            open spec fn run(&self, s: Seq<u8>) -> Option<(Self::Item, Seq<u8>)> {
                match self.bytes {
                    None => None,
                    Some(b) => {
                        let k = b.bytes().len() - self.offset;
                        if s.len() < k { None } else { Some((b.with_bytes(b.bytes().take(self.offset as int) + s.take(k)), drop(s, k as nat))) }
                    }
                }
            }
            open spec fn run0(s: Seq<u8>) -> Option<(Self::Item, Seq<u8>)> { None }
            open spec fn ready(&self) -> bool { self.bytes is None }
            open spec fn idle(&self) -> bool { self.left() == 0 }
            open spec fn done(&self) -> Option<Self::Item> { self.bytes }
            open spec fn mid(&self) -> bool { self.left() > 0 && self.offset > 0 }
            open spec fn starves() -> bool { false }
            open spec fn greedy() -> bool { false }
            open spec fn total() -> bool { false }
            open spec fn robust() -> bool { true }
            open spec fn starved(&self) -> bool { false }
            proof fn ready_law(&self) { reveal(BytesDecoder::run); }
            open spec fn exact() -> bool { false }
            open spec fn resets() -> bool { true }
            open spec fn fresh() -> bool { true }
            open spec fn req(&self) -> ByteCount { ByteCount::Finite(self.left() as u64) }
            open spec fn need(&self) -> nat { self.left() }
            open spec fn more(pre: Self, post: Self, n: nat, m: nat, eos: Eos, r: Result<usize>) -> bool {
                &&& post.bytes is Some == pre.bytes is Some
                &&& r matches Ok(k) ==> post.left() == pre.left() - k
                &&& r is Err ==> pre.bytes is None || eos.reached() && n < pre.left()
            }
            #[verifier::spinoff_prover]
            fn decode(&mut self, buf: &[u8], eos: Eos, Ghost(__rest): Ghost<Seq<u8>>) -> (r: Result<usize>) {
                broadcast use seqs;
                reveal(BytesDecoder::run);
                let ghost __s = buf@ + __rest;
                let size = {
                    let bytes = match self.bytes.as_mut() { Some(__v) => __v, None => { return Err(mkerr(ErrorKind::DecoderTerminated)); } };
                    let size = cmp::min(buf.len(), bytes.as_ref().len() - self.offset);
                    (&mut bytes.as_mut()[self.offset..][..size]).copy_from_slice(&buf[..size]);
                    self.offset += size;
                    size
                };
                proof {
                    let b = old(self).bytes->0;
                    let c = self.bytes->0;
                    let o = old(self).offset as int;
                    assert(c.bytes() =~= b.bytes().take(o) + buf@.take(size as int) + b.bytes().skip(o + size));
                    assert(drop(__s, size as nat).len() == __s.len() - size) by { reveal(drop); }
                    let k = c.bytes().len() - self.offset;
                    if k <= drop(__s, size as nat).len() {
                        let x = b.bytes().take(o) + __s.take(b.bytes().len() - o);
                        let y = c.bytes().take(o + size) + drop(__s, size as nat).take(k);
                        reveal(drop);
                        assert(x =~= y);
                        b.with_law(c.bytes(), y);
                    }
                }
                if self.exact_requiring_bytes() != 0 {
                    if !(!eos.is_reached()) { return Err(mkerr(ErrorKind::UnexpectedEos)); }
                }
                proof { if self.idle() { self.idle_run(); } }
                Ok(size)
            }
            #[verifier::spinoff_prover]
            fn finish_decoding(&mut self) -> (r: Result<Self::Item>) {
                if !(self.exact_requiring_bytes() == 0) { return Err(mkerr(ErrorKind::IncompleteDecoding)); }
                let bytes = match self.bytes.take() { Some(__v) => __v, None => { return Err(mkerr(ErrorKind::DecoderTerminated)); } };
                Ok(bytes)
            }
            #[verifier::spinoff_prover]
            fn requiring_bytes(&self) -> (r: ByteCount)
                ensures r is Finite && r->Finite_0 == self.left()
            {
                ByteCount::Finite(self.exact_requiring_bytes())
            }
            #[verifier::spinoff_prover]
            fn is_idle(&self) -> (r: bool) {
                proof { if self.idle() { self.idle_run(); } }
                self.exact_requiring_bytes() == 0
            }
            #[verifier::spinoff_prover]
            fn default() -> (r: Self) ensures r.bytes is None {
                proof { reveal(BytesDecoder::run); }
                BytesDecoder { bytes: None, offset: 0 }
            }
        }

        pub struct RemainingBytesDecoder { pub buf: Vec<u8>, pub eos: bool }
        pub open spec fn rem_run0(s: Seq<u8>) -> Option<(Vec<u8>, Seq<u8>)> { Some((mk_vec(s), Seq::empty())) }
        impl RemainingBytesDecoder {
            pub fn new() -> (r: Self) ensures r.inv(), r.ready(), forall|s: Seq<u8>| #[trigger] r.run(s) == Self::run0(s) {
                Self::default()
            }
        }
        impl Decode for RemainingBytesDecoder {
            type Item = Vec<u8>;
            open spec fn inv(&self) -> bool { true }
            #[verifier::opaque]
            open spec fn run(&self, s: Seq<u8>) -> Option<(Self::Item, Seq<u8>)> {
                if self.eos { Some((self.buf, s)) } else { Some((mk_vec(self.buf@ + s), Seq::empty())) }
            }
            open spec fn run0(s: Seq<u8>) -> Option<(Self::Item, Seq<u8>)> { rem_run0(s) }
            open spec fn ready(&self) -> bool { !self.eos && self.buf@.len() == 0 }
            open spec fn idle(&self) -> bool { self.eos }
            open spec fn done(&self) -> Option<Self::Item> { Some(self.buf) }
            open spec fn mid(&self) -> bool { !self.eos && self.buf@.len() > 0 }
            open spec fn starves() -> bool { false }
            open spec fn greedy() -> bool { true }
            open spec fn total() -> bool { true }
            open spec fn robust() -> bool { true }
            open spec fn starved(&self) -> bool { false }
            proof fn ready_law(&self) { broadcast use contents; reveal(RemainingBytesDecoder::run); assert forall|s: Seq<u8>| #[trigger] self.run(s) == Self::run0(s) by { assert(self.buf@ + s =~= s); } }
            open spec fn exact() -> bool { false }
            open spec fn resets() -> bool { true }
            open spec fn fresh() -> bool { true }
            open spec fn req(&self) -> ByteCount { if self.eos { ByteCount::Finite(0) } else { ByteCount::Infinite } }
            open spec fn need(&self) -> nat { 0 }
            open spec fn more(pre: Self, post: Self, n: nat, m: nat, eos: Eos, r: Result<usize>) -> bool { true }
            #[verifier::spinoff_prover]
            fn decode(&mut self, buf: &[u8], eos: Eos, Ghost(__rest): Ghost<Seq<u8>>) -> (r: Result<usize>) {
                broadcast use seqs;
                broadcast use contents;
                reveal(RemainingBytesDecoder::run);
                if self.eos {
                    return Ok(0);
                }
                if let Some(remaining) = eos.remaining_bytes().to_u64() {
                                    proof { assert(remaining <= isize::MAX); }
                    reserve_exact(&mut self.buf, rust_slice(buf).len() + remaining as usize);
                }
                self.buf.extend_from_slice(buf);
                self.eos = eos.is_reached();
                proof {
                    let s = buf@ + __rest;
                    reveal(drop);
                    assert(old(self).buf@ + s =~= self.buf@ + drop(s, buf@.len()));
                    if self.eos { assert(drop(s, buf@.len()) =~= Seq::<u8>::empty()); assert(self.buf@ + Seq::<u8>::empty() =~= self.buf@); }
                }
                Ok(buf.len())
            }
            #[verifier::spinoff_prover]
            fn finish_decoding(&mut self) -> (r: Result<Self::Item>) {
                if !(self.eos) { return Err(mkerr(ErrorKind::IncompleteDecoding)); }
                self.eos = false;
                let bytes = mem::take(&mut self.buf);
                Ok(bytes)
            }
            #[verifier::spinoff_prover]
            fn requiring_bytes(&self) -> (r: ByteCount) {
                if self.eos {
                    ByteCount::Finite(0)
                } else {
                    ByteCount::Infinite
                }
            }
            #[verifier::spinoff_prover]
            fn is_idle(&self) -> (r: bool) {
                reveal(RemainingBytesDecoder::run);
                self.eos
            }
            #[verifier::spinoff_prover]
            fn default() -> (r: Self) {
                let __r = RemainingBytesDecoder { buf: Vec::new(), eos: false };
                proof { __r.ready_law(); }
                __r
            }
        }

        pub struct Utf8Decoder(pub RemainingBytesDecoder);
        pub open spec fn utf8_of(o: Option<(Vec<u8>, Seq<u8>)>) -> Option<(String, Seq<u8>)> {
            match o {
                None => None,
                Some((v, t)) => if vstd::utf8::valid_utf8(v@) { Some((mk_string(v@), t)) } else { None },
            }
        }
        impl Utf8Decoder {
            pub fn new() -> (r: Self) ensures r.inv(), r.ready(), forall|s: Seq<u8>| #[trigger] r.run(s) == Self::run0(s) {
                proof { reveal(Utf8Decoder::run); }
                Utf8Decoder(RemainingBytesDecoder::new())
            }
        }
        impl Decode for Utf8Decoder {
            type Item = String;
            open spec fn inv(&self) -> bool { true }
            #[verifier::opaque]
            open spec fn run(&self, s: Seq<u8>) -> Option<(Self::Item, Seq<u8>)> { utf8_of(self.0.run(s)) }
            open spec fn run0(s: Seq<u8>) -> Option<(Self::Item, Seq<u8>)> { utf8_of(rem_run0(s)) }
            open spec fn ready(&self) -> bool { self.0.ready() }
            open spec fn idle(&self) -> bool { self.0.idle() }
            open spec fn done(&self) -> Option<Self::Item> { if vstd::utf8::valid_utf8(self.0.buf@) { Some(mk_string(self.0.buf@)) } else { None } }
            open spec fn mid(&self) -> bool { self.0.mid() }
            open spec fn starves() -> bool { false }
            open spec fn greedy() -> bool { true }
            open spec fn total() -> bool { true }
            open spec fn robust() -> bool { true }
            open spec fn starved(&self) -> bool { false }
            proof fn ready_law(&self) { reveal(Utf8Decoder::run); self.0.ready_law(); }
            open spec fn exact() -> bool { false }
            open spec fn resets() -> bool { true }
            open spec fn fresh() -> bool { true }
            open spec fn req(&self) -> ByteCount { self.0.req() }
            open spec fn need(&self) -> nat { 0 }
            open spec fn more(pre: Self, post: Self, n: nat, m: nat, eos: Eos, r: Result<usize>) -> bool { true }
            #[verifier::spinoff_prover]
            fn decode(&mut self, buf: &[u8], eos: Eos, Ghost(__rest): Ghost<Seq<u8>>) -> (r: Result<usize>) {
                reveal(Utf8Decoder::run);
                self.0.decode(buf, eos, Ghost(__rest))
            }
            #[verifier::spinoff_prover]
            fn finish_decoding(&mut self) -> (r: Result<Self::Item>) {
                broadcast use contents;
                let b = self.0.finish_decoding()?;
                let s = match String::from_utf8(b) { Ok(__v) => __v, Err(_) => { return Err(mkerr(ErrorKind::InvalidInput)); } };
                Ok(s)
            }
            #[verifier::spinoff_prover]
            fn requiring_bytes(&self) -> (r: ByteCount) {
                self.0.requiring_bytes()
            }
            #[verifier::spinoff_prover]
            fn is_idle(&self) -> (r: bool) {
                reveal(Utf8Decoder::run);
                self.0.is_idle()
            }
            #[verifier::spinoff_prover]
            fn default() -> (r: Self) {
                proof { reveal(Utf8Decoder::run); }
                Utf8Decoder(RemainingBytesDecoder::default())
            }
        }

        pub struct BytesEncoder<B = Vec<u8>> { pub bytes: Option<B>, pub offset: usize }
        impl<B: AsRefBytes> Encode for BytesEncoder<B> {
            type Item = B;
            open spec fn inv(&self) -> bool { self.bytes is Some ==> self.offset <= self.bytes->0.bytes().len() }
            open spec fn idle(&self) -> bool { self.bytes is None }
            #[verifier::opaque]
            open spec fn pending(&self) -> Seq<u8> { match self.bytes { Some(b) => b.bytes().skip(self.offset as int), None => Seq::empty() } }
            open spec fn item_ok(item: B) -> bool { true }
            open spec fn enc(item: B) -> Option<Seq<u8>> { Some(item.bytes()) }
            open spec fn guarded() -> bool { false }
            proof fn idle_law(&self) { reveal(BytesEncoder::pending); }
            #[verifier::spinoff_prover]
            fn encode(&mut self, buf: &mut [u8], eos: Eos) -> (r: Result<usize>)
                ensures old(self).pending().len() > 0 ==> (final(self).idle() <==> final(self).pending().len() == 0)
             {
                reveal(BytesEncoder::pending);
                let mut size = 0;
                let ghost __p = self.pending();
                let ghost __b = buf@;
                proof { assert(__p.take(0) + __b.skip(0) =~= __b); assert(__p.skip(0) =~= __p); }
                let drop_item = if let Some(ref b) = self.bytes {
                    size = cmp::min(buf.len(), b.as_ref().len() - self.offset);
                    (&mut buf[..size]).copy_from_slice(&b.as_ref()[self.offset..][..size]);
                    self.offset += size;
                    proof {
                        assert(buf@ =~= __p.take(size as int) + __b.skip(size as int));
                        assert(b.bytes().skip(self.offset as int) =~= __p.skip(size as int));
                    }
                    if self.offset == b.as_ref().len() {
                        true
                    } else {
                        if !(!eos.is_reached()) { return Err(mkerr(ErrorKind::UnexpectedEos)); }
                        false
                    }
                } else {
                    false
                };
                if drop_item {
                    self.bytes = None;
                }
                Ok(size)
            }
            #[verifier::spinoff_prover]
            fn start_encoding(&mut self, item: Self::Item) -> (r: Result<()>)
                ensures r is Ok ==> !final(self).idle()
             {
                reveal(BytesEncoder::pending);
                if !(self.is_idle()) { return Err(mkerr(ErrorKind::EncoderFull)); }
                self.bytes = Some(item);
                self.offset = 0;
                proof { assert(self.pending() =~= self.bytes->0.bytes()); }
                Ok(())
            }
            #[verifier::spinoff_prover]
            fn requiring_bytes(&self) -> (r: ByteCount)
                ensures r is Finite && r->Finite_0 <= 0x7fff_ffff_ffff_ffff
             {
                ByteCount::Finite(self.exact_requiring_bytes())
            }
            #[verifier::spinoff_prover]
            fn is_idle(&self) -> (r: bool) {
                reveal(BytesEncoder::pending);
                self.bytes.is_none()
            }
            #[verifier::spinoff_prover]
            fn default() -> (r: Self) {
                reveal(BytesEncoder::pending);
                BytesEncoder { bytes: None, offset: 0 }
            }
        }
        impl<B: AsRefBytes> SizedEncode for BytesEncoder<B> {
            #[verifier::spinoff_prover]
            fn exact_requiring_bytes(&self) -> (r: u64)
                ensures r <= 0x7fff_ffff_ffff_ffff
             {
                reveal(BytesEncoder::pending);
                (match self.bytes.as_ref() { None => 0, Some(b) => b.as_ref().len() - self.offset }) as u64
            }
        }
        /// AsRef<str>
        pub trait AsRefStr: Sized {
            spec fn text(&self) -> Seq<char>;
            fn as_ref(&self) -> (r: &str)
                ensures r@ == self.text();
        }
        impl AsRefStr for String {
            open spec fn text(&self) -> Seq<char> { self@ }
            fn as_ref(&self) -> (r: &str) { self.as_str() }
        }
        pub struct Utf8Bytes<T>(pub T);
        impl<T: AsRefStr> AsRefBytes for Utf8Bytes<T> {
            open spec fn bytes(&self) -> Seq<u8> { vstd::utf8::encode_utf8(self.0.text()) }
            fn as_ref(&self) -> (r: &[u8]) {
                rust_slice(self.0.as_ref().as_bytes())
            }
        }
        pub struct Utf8Encoder<S = String>(pub BytesEncoder<Utf8Bytes<S>>);
        impl<S: AsRefStr> Encode for Utf8Encoder<S> {
            type Item = S;
            open spec fn inv(&self) -> bool { self.0.inv() }
            open spec fn idle(&self) -> bool { self.0.idle() }
            #[verifier::opaque]
            open spec fn pending(&self) -> Seq<u8> { self.0.pending() }
            open spec fn item_ok(item: S) -> bool { true }
            open spec fn enc(item: S) -> Option<Seq<u8>> { Some(vstd::utf8::encode_utf8(item.text())) }
            open spec fn guarded() -> bool { false }
            proof fn idle_law(&self) { reveal(Utf8Encoder::pending); self.0.idle_law(); }
            #[verifier::spinoff_prover]
            fn encode(&mut self, buf: &mut [u8], eos: Eos) -> (r: Result<usize>) {
                reveal(Utf8Encoder::pending);
                self.0.encode(buf, eos)
            }
            #[verifier::spinoff_prover]
            fn start_encoding(&mut self, item: Self::Item) -> (r: Result<()>) {
                reveal(Utf8Encoder::pending);
                self.0.start_encoding(Utf8Bytes(item))
            }
            #[verifier::spinoff_prover]
            fn requiring_bytes(&self) -> (r: ByteCount)
                ensures r is Finite && r->Finite_0 <= 0x7fff_ffff_ffff_ffff
             {
                reveal(Utf8Encoder::pending);
                self.0.requiring_bytes()
            }
            #[verifier::spinoff_prover]
            fn is_idle(&self) -> (r: bool) {
                reveal(Utf8Encoder::pending);
                self.0.is_idle()
            }
            #[verifier::spinoff_prover]
            fn default() -> (r: Self) {
                reveal(Utf8Encoder::pending);
                Utf8Encoder(BytesEncoder::default())
            }
        }
        impl<S: AsRefStr> SizedEncode for Utf8Encoder<S> {
            #[verifier::spinoff_prover]
            fn exact_requiring_bytes(&self) -> (r: u64)
                ensures r <= 0x7fff_ffff_ffff_ffff
             {
                reveal(Utf8Encoder::pending);
                self.0.exact_requiring_bytes()
            }
        }
    }

    pub mod null {
        use super::*;
        pub struct NullDecoder;
        impl Decode for NullDecoder {
            type Item = ();
            open spec fn inv(&self) -> bool { true }
            open spec fn run(&self, s: Seq<u8>) -> Option<(Self::Item, Seq<u8>)> { Some(((), s)) }
            open spec fn run0(s: Seq<u8>) -> Option<(Self::Item, Seq<u8>)> { Some(((), s)) }
            open spec fn ready(&self) -> bool { true }
            open spec fn idle(&self) -> bool { true }
            open spec fn done(&self) -> Option<Self::Item> { Some(()) }
            open spec fn mid(&self) -> bool { false }
            open spec fn starves() -> bool { false }
            open spec fn greedy() -> bool { false }
            open spec fn total() -> bool { true }
            open spec fn robust() -> bool { true }
            open spec fn starved(&self) -> bool { false }
            proof fn ready_law(&self) {  }
            open spec fn exact() -> bool { true }
            open spec fn resets() -> bool { true }
            open spec fn fresh() -> bool { true }
            open spec fn req(&self) -> ByteCount { ByteCount::Finite(0) }
            open spec fn need(&self) -> nat { 0 }
            open spec fn more(pre: Self, post: Self, n: nat, m: nat, eos: Eos, r: Result<usize>) -> bool { true }
            fn decode(&mut self, _buf: &[u8], _eos: Eos, Ghost(__rest): Ghost<Seq<u8>>) -> (r: Result<usize>) { broadcast use seqs; Ok(0) }
            fn finish_decoding(&mut self) -> (r: Result<Self::Item>) { Ok(()) }
            fn requiring_bytes(&self) -> (r: ByteCount) { ByteCount::Finite(0) }
            fn is_idle(&self) -> (r: bool) { true }
            fn default() -> (r: Self) { NullDecoder }
        }
        pub struct NullEncoder;
        impl Encode for NullEncoder {
            type Item = ();
            open spec fn inv(&self) -> bool { true }
            open spec fn idle(&self) -> bool { true }
            open spec fn pending(&self) -> Seq<u8> { Seq::empty() }
            open spec fn item_ok(item: ()) -> bool { true }
            open spec fn enc(item: ()) -> Option<Seq<u8>> { Some(Seq::empty()) }
            open spec fn guarded() -> bool { false }
            proof fn idle_law(&self) {  }
            fn encode(&mut self, buf: &mut [u8], eos: Eos) -> (r: Result<usize>) {
                proof { assert(self.pending().take(0) + old(buf)@.skip(0) =~= old(buf)@); assert(self.pending().skip(0) =~= self.pending()); }
                Ok(0)
            }
            fn start_encoding(&mut self, item: Self::Item) -> (r: Result<()>) { Ok(()) }
            fn requiring_bytes(&self) -> (r: ByteCount) { ByteCount::Finite(0) }
            fn is_idle(&self) -> (r: bool) { true }
            fn default() -> (r: Self) { NullEncoder }
        }
        impl SizedEncode for NullEncoder {
            fn exact_requiring_bytes(&self) -> (r: u64) { 0 }
        }
    }

    pub mod tuple {
        use super::*;
        use super::fixnum::*;
        use super::bytes::*;
        pub struct TupleDecoder<D> { pub inner: D }
        impl Decode for TupleDecoder<(U32beDecoder, Utf8Decoder)> {
            type Item = (u32, String);
            open spec fn inv(&self) -> bool {
                self.inner.0.inv() && self.inner.1.inv() && (self.inner.0.idle() || self.inner.1.ready())
            }
            open spec fn run(&self, s: Seq<u8>) -> Option<(Self::Item, Seq<u8>)> {
                match self.inner.0.run(s) { None => None, Some((a, s1)) => match self.inner.1.run(s1) { None => None, Some((b, s2)) => Some(((a, b), s2)) } }
            }
            open spec fn run0(s: Seq<u8>) -> Option<(Self::Item, Seq<u8>)> {
                match U32beDecoder::run0(s) { None => None, Some((a, s1)) => match Utf8Decoder::run0(s1) { None => None, Some((b, s2)) => Some(((a, b), s2)) } }
            }
            open spec fn ready(&self) -> bool { self.inner.0.ready() && self.inner.1.ready() }
            open spec fn idle(&self) -> bool { self.inner.0.idle() && self.inner.1.idle() }
            open spec fn done(&self) -> Option<Self::Item> {
                match (self.inner.0.done(), self.inner.1.done()) { (Some(a), Some(b)) => Some((a, b)), _ => None }
            }
            open spec fn mid(&self) -> bool { !self.ready() && !self.idle() }
            open spec fn starves() -> bool { false }
            open spec fn greedy() -> bool { true }
            open spec fn total() -> bool { false }
            open spec fn robust() -> bool { true }
            open spec fn starved(&self) -> bool { false }
            proof fn ready_law(&self) { self.inner.0.ready_law(); self.inner.1.ready_law(); }
            open spec fn exact() -> bool { false }
            open spec fn resets() -> bool { true }
            open spec fn fresh() -> bool { true }
            open spec fn req(&self) -> ByteCount { self.inner.0.req().add_dec(self.inner.1.req()) }
            open spec fn need(&self) -> nat { 0 }
            open spec fn more(pre: Self, post: Self, n: nat, m: nat, eos: Eos, r: Result<usize>) -> bool { true }
            fn decode(&mut self, buf: &[u8], eos: Eos, Ghost(__rest): Ghost<Seq<u8>>) -> (r: Result<usize>) {
                broadcast use seqs;
                let mut offset = 0;
                if !try_decode(&mut self.inner.0, &mut offset, buf, eos, Ghost(__rest))? { return Ok(offset); }
                if !try_decode(&mut self.inner.1, &mut offset, buf, eos, Ghost(__rest))? { return Ok(offset); }
                Ok(offset)
            }
            fn finish_decoding(&mut self) -> (r: Result<Self::Item>) {
                Ok((self.inner.0.finish_decoding()?, self.inner.1.finish_decoding()?))
            }
            fn requiring_bytes(&self) -> (r: ByteCount) {
                ByteCount::Finite(0).add_for_decoding(self.inner.0.requiring_bytes()).add_for_decoding(self.inner.1.requiring_bytes())
            }
            fn is_idle(&self) -> (r: bool) {
                self.inner.0.is_idle() && self.inner.1.is_idle()
            }
            fn default() -> (r: Self) {
                TupleDecoder { inner: (U32beDecoder::default(), Utf8Decoder::default()) }
            }
        }
        pub struct TupleEncoder<D> { pub inner: D }
        impl Encode for TupleEncoder<(U32beEncoder, Utf8Encoder)> {
            type Item = (u32, String);
            open spec fn inv(&self) -> bool {
                self.inner.0.inv() && self.inner.1.inv() && self.inner.0.pending().len() <= 4
            }
            open spec fn idle(&self) -> bool { self.inner.0.idle() && self.inner.1.idle() }
            open spec fn pending(&self) -> Seq<u8> { self.inner.0.pending() + self.inner.1.pending() }
            open spec fn item_ok(item: Self::Item) -> bool { U32beEncoder::item_ok(item.0) && Utf8Encoder::<String>::item_ok(item.1) }
            open spec fn enc(item: Self::Item) -> Option<Seq<u8>> {
                match (U32beEncoder::enc(item.0), Utf8Encoder::<String>::enc(item.1)) { (Some(a), Some(b)) => Some(a + b), _ => None }
            }
            open spec fn guarded() -> bool { false }
            proof fn idle_law(&self) { self.inner.0.idle_law(); self.inner.1.idle_law(); assert(self.pending() =~= Seq::<u8>::empty()); }
            fn encode(&mut self, buf: &mut [u8], eos: Eos) -> (r: Result<usize>) {
                let ghost __t = self.pending(); let ghost __b = buf@;
                proof { drained_start(__t, __b); }
                let mut offset = 0;
                if !try_encode(&mut self.inner.0, &mut offset, buf, eos, Ghost(__t), Ghost(__b), Ghost(self.inner.1.pending()))? { proof { drained_end(__t, __b, buf@, offset as int, self.inner.0.pending(), self.inner.1.pending()); } return Ok(offset); }
                proof { drained_last(__t, __b, buf@, offset as int, self.inner.1.pending()); }
                if !try_encode(&mut self.inner.1, &mut offset, buf, eos, Ghost(__t), Ghost(__b), Ghost(Seq::<u8>::empty()))? { proof { drained_end(__t, __b, buf@, offset as int, self.inner.1.pending(), Seq::<u8>::empty()); no_suffix(self.inner.1.pending()); no_prefix(self.inner.0.pending(), self.inner.1.pending()); } return Ok(offset); }
                proof { drained_end(__t, __b, buf@, offset as int, self.inner.1.pending(), Seq::<u8>::empty()); no_suffix(self.inner.1.pending()); no_prefix(self.inner.0.pending(), self.inner.1.pending()); }
                Ok(offset)
            }
            fn start_encoding(&mut self, item: Self::Item) -> (r: Result<()>) {
                self.inner.0.start_encoding(item.0)?;
                self.inner.1.start_encoding(item.1)?;
                Ok(())
            }
            fn requiring_bytes(&self) -> (r: ByteCount) {
                ByteCount::Finite(0).add_for_encoding(self.inner.0.requiring_bytes()).add_for_encoding(self.inner.1.requiring_bytes())
            }
            fn is_idle(&self) -> (r: bool) {
                proof { if self.idle() { self.idle_law(); } }
                self.inner.0.is_idle() && self.inner.1.is_idle()
            }
            fn default() -> (r: Self) {
                TupleEncoder { inner: (U32beEncoder::default(), Utf8Encoder::default()) }
            }
        }
        impl SizedEncode for TupleEncoder<(U32beEncoder, Utf8Encoder)> {
            fn exact_requiring_bytes(&self) -> (r: u64) {
                0 + self.inner.0.exact_requiring_bytes() + self.inner.1.exact_requiring_bytes()
            }
        }
    }

    pub mod fixnum {
        use super::*;
        /// the byteorder crate (trusted)
        pub struct BigEndian;
        impl BigEndian {
            pub fn read_u16(b: &[u8]) -> (r: u16) requires b@.len() >= 2 ensures r == be16(b@) { b[0] as u16 * 256 + b[1] as u16 }
            pub fn read_u32(b: &[u8]) -> (r: u32) requires b@.len() >= 4 ensures r == be32(b@) {
                b[0] as u32 * 0x1000000 + b[1] as u32 * 0x10000 + b[2] as u32 * 0x100 + b[3] as u32
            }
            pub fn read_u64(b: &[u8]) -> (r: u64) requires b@.len() >= 8 ensures r == be64(b@) {
                (b[0] as u32 * 0x1000000 + b[1] as u32 * 0x10000 + b[2] as u32 * 0x100 + b[3] as u32) as u64 * 0x1_0000_0000
                    + (b[4] as u32 * 0x1000000 + b[5] as u32 * 0x10000 + b[6] as u32 * 0x100 + b[7] as u32) as u64
            }
            pub fn write_u16(b: &mut [u8], n: u16) requires old(b)@.len() == 2 ensures final(b)@ == eb16(n) {
                b[0] = (n / 256) as u8;
                b[1] = (n % 256) as u8;
                proof { assert(b@ =~= eb16(n)); }
            }
            pub fn write_u32(b: &mut [u8], n: u32) requires old(b)@.len() == 4 ensures final(b)@ == eb32(n) {
                b[0] = (n / 0x1000000) as u8;
                b[1] = (n / 0x10000 % 256) as u8;
                b[2] = (n / 0x100 % 256) as u8;
                b[3] = (n % 256) as u8;
                proof { assert(b@ =~= eb32(n)); }
            }
            pub fn write_u64(b: &mut [u8], n: u64) requires old(b)@.len() == 8 ensures final(b)@ == eb64(n) {
                let h = (n / 0x1_0000_0000) as u32;
                let l = (n % 0x1_0000_0000) as u32;
                b[0] = (h / 0x1000000) as u8;
                b[1] = (h / 0x10000 % 256) as u8;
                b[2] = (h / 0x100 % 256) as u8;
                b[3] = (h % 256) as u8;
                b[4] = (l / 0x1000000) as u8;
                b[5] = (l / 0x10000 % 256) as u8;
                b[6] = (l / 0x100 % 256) as u8;
                b[7] = (l % 256) as u8;
                proof { assert(b@ =~= eb64(n)); }
            }
        }
        use super::bytes::*;
//@FIXNUM
    }

    pub mod combinator {
        use super::*;
        use super::bytes::*;

        pub struct Peekable<D: Decode> { pub inner: D, pub item: Option<D::Item> }
        impl<D: Decode> Peekable<D> {
            pub fn peek(&self) -> (r: Option<&D::Item>)
                ensures r is Some == self.item is Some, r is Some ==> *r->0 == self.item->0
            {
                self.item.as_ref()
            }
        }
        impl<D: Decode> Decode for Peekable<D> {
            type Item = D::Item;
            open spec fn inv(&self) -> bool { self.inner.inv() && (self.item is Some ==> self.inner.ready()) }
            #[verifier::opaque]
            open spec fn run(&self, s: Seq<u8>) -> Option<(Self::Item, Seq<u8>)> {
                match self.item { Some(i) => Some((i, s)), None => self.inner.run(s) }
            }
            open spec fn run0(s: Seq<u8>) -> Option<(Self::Item, Seq<u8>)> { D::run0(s) }
            open spec fn ready(&self) -> bool { self.item is None && self.inner.ready() }
            open spec fn idle(&self) -> bool { self.item is Some }
            open spec fn done(&self) -> Option<Self::Item> { self.item }
            open spec fn mid(&self) -> bool { self.item is None && self.inner.mid() }
            open spec fn starves() -> bool { D::starves() }
            open spec fn greedy() -> bool { false }
            open spec fn total() -> bool { false }
            open spec fn robust() -> bool { D::robust() && D::resets() }
            open spec fn starved(&self) -> bool { false }
            proof fn ready_law(&self) { reveal(Peekable::run); assert(Self::fresh() == D::fresh()); self.inner.ready_law(); }
            open spec fn exact() -> bool { false }
            open spec fn resets() -> bool { true }
            open spec fn fresh() -> bool { D::fresh() }
            open spec fn req(&self) -> ByteCount { if self.item is Some { ByteCount::Finite(0) } else { self.inner.req() } }
            open spec fn need(&self) -> nat { if self.item is Some { 0 } else { self.inner.need() } }
            open spec fn more(pre: Self, post: Self, n: nat, m: nat, eos: Eos, r: Result<usize>) -> bool {
                &&& D::exact() && r is Ok ==> post.need() == pre.need() - r->Ok_0
                &&& r is Err ==> pre.item is None && post.item is None
                &&& D::exact() && r is Ok && post.item is None ==> post.need() > 0
                &&& D::exact() && D::resets() && r is Err ==> (n >= pre.need() ==> post.ready()) && (n < pre.need() ==> eos.reached())
                &&& pre.item is Some ==> post == pre && r == Ok::<usize, Error>(0)
            }
            #[verifier::spinoff_prover]
            fn decode(&mut self, buf: &[u8], eos: Eos, Ghost(__rest): Ghost<Seq<u8>>) -> (r: Result<usize>) {
                broadcast use seqs;
                reveal(Peekable::run);
                if self.item.is_none() {
                    let size = self.inner.decode(buf, eos, Ghost(__rest))?;
                    if self.inner.is_idle() {
                        self.item = Some(self.inner.finish_decoding()?);
                    }
                    Ok(size)
                } else {
                    Ok(0)
                }
            }
            fn finish_decoding(&mut self) -> (r: Result<Self::Item>) {
                let item = match self.item.take() { Some(__v) => __v, None => { return Err(mkerr(ErrorKind::IncompleteDecoding)); } };
                Ok(item)
            }
            fn requiring_bytes(&self) -> (r: ByteCount) ensures D::exact() ==> r is Finite && r->Finite_0 == self.need() {
                if self.item.is_some() {
                    ByteCount::Finite(0)
                } else {
                    self.inner.requiring_bytes()
                }
            }
            fn is_idle(&self) -> (r: bool) {
                reveal(Peekable::run);
                self.item.is_some()
            }
            fn default() -> (r: Self) {
                reveal(Peekable::run);
                Peekable { inner: D::default(), item: None }
            }
        }

        pub struct Length<D> { pub inner: D, pub expected_bytes: u64, pub remaining_bytes: u64 }
        pub open spec fn length_run<T>(o: Option<(T, Seq<u8>)>, s: Seq<u8>, n: nat) -> Option<(T, Seq<u8>)> {
            match o { Some((i, t)) => if t.len() == 0 { Some((i, drop(s, n))) } else { None }, None => None }
        }
        impl<D: Steady> Length<D> {
            pub fn inner_mut(&mut self) -> (r: &mut D)
                ensures
                    *r == old(self).inner,
                    final(self).inner == *final(r),
                    final(self).expected_bytes == old(self).expected_bytes,
                    final(self).remaining_bytes == old(self).remaining_bytes,
            {
                &mut self.inner
            }
            pub fn set_expected_bytes(&mut self, bytes: u64) -> (r: Result<()>)
                requires bytes <= 0x7fff_ffff
                ensures
                    r is Ok <==> old(self).remaining_bytes == old(self).expected_bytes,
                    r is Err ==> *final(self) == *old(self),
                    r is Ok ==> final(self).expected_bytes == bytes && final(self).remaining_bytes == bytes && final(self).inner == old(self).inner,
            {
                if !(self.remaining_bytes == self.expected_bytes) { return Err(mkerr(ErrorKind::IncompleteDecoding)); }
                self.expected_bytes = bytes;
                self.remaining_bytes = bytes;
                Ok(())
            }
        }
        impl<D: Steady> Decode for Length<D> {
            type Item = D::Item;
            open spec fn inv(&self) -> bool {
                self.inner.inv() && self.remaining_bytes <= self.expected_bytes <= 0x7fff_ffff && (self.remaining_bytes == 0 ==> !self.inner.mid())
            }
            #[verifier::opaque]
            open spec fn run(&self, s: Seq<u8>) -> Option<(Self::Item, Seq<u8>)> {
                if s.len() < self.remaining_bytes { None } else {
                    length_run(self.inner.run(s.take(self.remaining_bytes as int)), s, self.remaining_bytes as nat)
                }
            }
            open spec fn run0(s: Seq<u8>) -> Option<(Self::Item, Seq<u8>)> { length_run(D::run0(Seq::empty()), s, 0) }
            open spec fn ready(&self) -> bool { self.inner.ready() && self.remaining_bytes == self.expected_bytes }
            open spec fn idle(&self) -> bool { self.inner.idle() }
            open spec fn done(&self) -> Option<Self::Item> { if self.remaining_bytes == 0 { self.inner.done() } else { None } }
            open spec fn mid(&self) -> bool { self.inner.mid() }
            open spec fn starves() -> bool { true }
            open spec fn greedy() -> bool { false }
            open spec fn total() -> bool { false }
            open spec fn robust() -> bool { D::robust() && D::total() }
            open spec fn starved(&self) -> bool { self.remaining_bytes != 0 }
            proof fn ready_law(&self) { self.inner.ready_law(); }
            open spec fn exact() -> bool { false }
            open spec fn resets() -> bool { false }
            open spec fn fresh() -> bool { false }
            open spec fn req(&self) -> ByteCount { ByteCount::Finite(self.remaining_bytes) }
            open spec fn need(&self) -> nat { self.remaining_bytes as nat }
            open spec fn more(pre: Self, post: Self, n: nat, m: nat, eos: Eos, r: Result<usize>) -> bool {
                &&& post.expected_bytes == pre.expected_bytes
                &&& r is Ok || D::total() ==> post.inv()
                &&& r matches Ok(k) ==> post.remaining_bytes == pre.remaining_bytes - k
                        && (!post.idle() ==> post.remaining_bytes > 0)
                        && (D::greedy() && !pre.idle() && post.idle() ==> post.remaining_bytes == 0)
                &&& r is Err && D::total() ==> n + m < pre.remaining_bytes
                        && post.remaining_bytes == pre.remaining_bytes && post.inner == pre.inner
            }
            #[verifier::spinoff_prover]
            fn decode(&mut self, buf: &[u8], eos: Eos, Ghost(__rest): Ghost<Seq<u8>>) -> (r: Result<usize>) {
                broadcast use seqs;
                reveal(Length::run);
                let ghost __s = buf@ + __rest;
                let limit = cmp::min64(buf.len() as u64, self.remaining_bytes) as usize;
                let required = self.remaining_bytes - limit as u64;
                let expected_eos = Eos::with_remaining_bytes(ByteCount::Finite(required));
                if let Some(mut remaining) = eos.remaining_bytes().to_u64() {
                    let _ = rust_slice(buf);
                    remaining += buf.len() as u64;
                    if !(remaining >= required) { return Err(mkerr(ErrorKind::UnexpectedEos)); }
                }
                let ghost __r = self.remaining_bytes as nat;
                let ghost __q = if __s.len() >= __r { __s.subrange(limit as int, __r as int) } else { Seq::new(required as nat, |i: int| 0u8) };
                let ghost __h = buf@.subrange(0, limit as int);
                proof {
                    D::steady();
                    assert(__h.len() == limit);
                    if __s.len() >= __r { assert(__h + __q =~= __s.take(__r as int)); }
                }
                let size = self.inner.decode(&buf[..limit], expected_eos, Ghost(__q))?;
                self.remaining_bytes -= size as u64;
                let _ = self.inner.is_idle();
                proof {
                    reveal(drop);
                    let d = drop(__s, size as nat);
                    let n = (__r - size) as nat;
                    if __s.len() >= __r {
                        assert(d.len() >= n);
                        assert(drop(__h + __q, size as nat) =~= d.take(n as int));
                        assert(drop(d, n) =~= drop(__s, __r));
                    }
                    assert(d.len() == if size <= __s.len() { (__s.len() - size) as nat } else { 0 });
                }
                Ok(size)
            }
            fn finish_decoding(&mut self) -> (r: Result<Self::Item>) ensures final(self).expected_bytes == old(self).expected_bytes {
                if !(self.remaining_bytes == 0) { return Err(mkerr(ErrorKind::IncompleteDecoding)); }
                self.remaining_bytes = self.expected_bytes;
                let __r = self.inner.finish_decoding();
                proof { if __r is Ok { self.inner.ready_law(); } }
                __r
            }
            fn requiring_bytes(&self) -> (r: ByteCount) {
                ByteCount::Finite(self.remaining_bytes)
            }
            fn is_idle(&self) -> (r: bool) {
                broadcast use seqs;
                reveal(Length::run);
                let __r = self.inner.is_idle();
                proof {
                    if __r {
                        assert forall|s: Seq<u8>| #[trigger] self.run(s) == done_run(self.done(), s) by {
                            if s.len() >= self.remaining_bytes {
                                let x = s.take(self.remaining_bytes as int);
                                assert(self.inner.run(x) == done_run(self.inner.done(), x));
                            }
                        }
                    }
                }
                __r
            }
            fn default() -> (r: Self) ensures r.expected_bytes == 0, r.remaining_bytes == 0 {
                broadcast use seqs;
                reveal(Length::run);
                let __r = Length { inner: D::default(), expected_bytes: 0, remaining_bytes: 0 };
                proof {
                    assert forall|s: Seq<u8>| #[trigger] __r.run(s) == Self::run0(s) by {
                        assert(s.take(0) =~= Seq::<u8>::empty());
                    }
                }
                __r
            }
        }

        pub struct Collect<D, T> { pub inner: D, pub items: T, pub eos: bool }
        pub open spec fn coll0<D: Decode>(s: Seq<u8>) -> Option<Seq<D::Item>>
            decreases s.len()
        {
            if s.len() == 0 { Some(Seq::empty()) } else {
                match D::run0(s) {
                    None => None,
                    Some((i, t)) => if t.len() < s.len() {
                        match coll0::<D>(t) { Some(r) => Some(seq![i] + r), None => None }
                    } else { None },
                }
            }
        }
        /// what a collection that has `items` already makes of `s` (its decoder being ready)
        pub open spec fn coll_on<D: Decode>(items: Seq<D::Item>, s: Seq<u8>) -> Option<Seq<D::Item>> {
            match coll0::<D>(s) { Some(r) => Some(items + r), None => None }
        }
        proof fn coll_step<D: Renewable>(items: Seq<D::Item>, s: Seq<u8>)
            requires s.len() > 0
            ensures coll_on::<D>(items, s) == match D::run0(s) { None => None, Some((i, t)) => coll_on::<D>(items + seq![i], t) }
        {
            D::progress(s);
            match D::run0(s) {
                None => {},
                Some((i, t)) => match coll0::<D>(t) {
                    None => {},
                    Some(r) => { assert(items + (seq![i] + r) =~= items + seq![i] + r); },
                },
            }
        }
        pub open spec fn vec_of<T>(o: Option<Seq<T>>) -> Option<(Vec<T>, Seq<u8>)> { match o { Some(r) => Some((mk_vec(r), Seq::empty())), None => None } }
        impl<D: Renewable> Decode for Collect<D, Vec<D::Item>> {
            type Item = Vec<D::Item>;
            open spec fn inv(&self) -> bool { self.inner.inv() && (self.inner.ready() || self.inner.mid()) && (self.eos ==> self.inner.ready()) }
            #[verifier::opaque]
            open spec fn run(&self, s: Seq<u8>) -> Option<(Self::Item, Seq<u8>)> {
                if self.eos { Some((self.items, s)) }
                else if self.inner.ready() { vec_of(coll_on::<D>(self.items@, s)) }
                else { match self.inner.run(s) { None => None, Some((i, t)) => vec_of(coll_on::<D>(self.items@ + seq![i], t)) } }
            }
            open spec fn run0(s: Seq<u8>) -> Option<(Self::Item, Seq<u8>)> { vec_of(coll0::<D>(s)) }
            open spec fn ready(&self) -> bool { !self.eos && self.items@.len() == 0 && self.inner.ready() }
            open spec fn idle(&self) -> bool { self.eos }
            open spec fn done(&self) -> Option<Self::Item> { Some(self.items) }
            open spec fn mid(&self) -> bool { !self.eos && (self.inner.mid() || self.items@.len() > 0) }
            open spec fn starves() -> bool { D::starves() }
            open spec fn greedy() -> bool { true }
            open spec fn total() -> bool { false }
            open spec fn robust() -> bool { false }
            open spec fn starved(&self) -> bool { false }
            proof fn ready_law(&self) { broadcast use contents; reveal(Collect::run); D::renewable(); self.inner.ready_law(); assert forall|s: Seq<u8>| #[trigger] self.run(s) == Self::run0(s) by { let r = coll0::<D>(s); if r is Some { assert(self.items@ + r->0 =~= r->0); } } }
            open spec fn exact() -> bool { false }
            open spec fn resets() -> bool { true }
            open spec fn fresh() -> bool { true }
            open spec fn req(&self) -> ByteCount { if self.eos { ByteCount::Finite(0) } else { self.inner.req() } }
            open spec fn need(&self) -> nat { 0 }
            open spec fn more(pre: Self, post: Self, n: nat, m: nat, eos: Eos, r: Result<usize>) -> bool { true }
            #[verifier::spinoff_prover]
            fn decode(&mut self, buf: &[u8], eos: Eos, Ghost(__rest): Ghost<Seq<u8>>) -> (r: Result<usize>) {
                broadcast use seqs;
                broadcast use contents;
                reveal(Collect::run);
                if self.eos {
                    return Ok(0);
                }
                let ghost __s = buf@ + __rest;
                let mut offset = 0;
                let ghost mut __moved = false;
                proof { D::renewable(); }
                while offset < buf.len()
                    invariant
                        offset <= buf@.len(), !self.eos, self.inner.inv(), self.inner.ready() || self.inner.mid(),
                        __s == buf@ + __rest,
                        eos.fits(__rest),
                        D::fresh(),
                        __moved ==> self.inner.ready() && self.items@.len() > 0,
                        !__moved ==> *self == *old(self) && offset == 0,
                        old(self).run(__s) == self.run(drop(__s, offset as nat)),
                        !(buf@.len() == 0 && eos.reached() && old(self).mid()),
                    decreases (if self.inner.ready() { 0int } else { 1int }), buf.len() - offset
                {
                    reveal(Collect::run);
                    broadcast use seqs;
                    let ghost __w = self.inner.ready();
                    let ghost __x = drop(__s, offset as nat);
                    let ghost __i = self.items@;
                    proof {
                        D::renewable();
                        assert(__x.len() == __s.len() - offset) by { reveal(drop); }
                        if __w {
                            self.inner.ready_law();
                            D::progress(__x);
                            coll_step::<D>(__i, __x);
                            assert(old(self).run(__s) == vec_of(coll_on::<D>(__i, __x)));
                        }
                        assert(old(self).run(__s) == match self.inner.run(__x) { None => None, Some((i, t)) => vec_of(coll_on::<D>(__i + seq![i], t)) });
                    }
                    let _ = self.inner.is_idle();
                    if !try_decode(&mut self.inner, &mut offset, buf, eos, Ghost(__rest))? {
                        proof {
                            if self.inner.ready() { self.inner.ready_law(); }
                            end_of(buf@, __rest);
                        }
                        return Ok(offset);
                    }
                    proof { assert(drop(__s, offset as nat).len() == __s.len() - offset) by { reveal(drop); } }
                    let item = self.inner.finish_decoding()?;
                    self.items.push(item);
                    proof {
                        __moved = true;
                        self.inner.ready_law();
                        assert(self.items@ =~= __i + seq![item]);
                    }
                }
                if eos.is_reached() {
                    proof {
                        end_of(buf@, __rest);
                        assert(coll0::<D>(Seq::empty()) == Some(Seq::<D::Item>::empty()));
                        assert(self.items@ + Seq::<D::Item>::empty() =~= self.items@);
                        vec_is(self.items);
                    }
                    self.eos = true;
                }
                Ok(offset)
            }
            fn finish_decoding(&mut self) -> (r: Result<Self::Item>) {
                if !(self.eos) { return Err(mkerr(ErrorKind::IncompleteDecoding)); }
                self.eos = false;
                let items = mem::take(&mut self.items);
                Ok(items)
            }
            fn requiring_bytes(&self) -> (r: ByteCount) {
                if self.eos {
                    ByteCount::Finite(0)
                } else {
                    self.inner.requiring_bytes()
                }
            }
            fn is_idle(&self) -> (r: bool) {
                reveal(Collect::run);
                self.eos
            }
            fn default() -> (r: Self) {
                let __r = Collect { inner: D::default(), items: Vec::new(), eos: false };
                proof { D::renewable(); __r.ready_law(); }
                __r
            }
        }

        pub struct Repeat<E, I> { pub inner: E, pub items: Option<I> }
        pub struct PreEncode<E> { pub inner: E, pub pre_encoded: BytesEncoder<Vec<u8>> }
        /// concatenation of the encodings of all items
        pub open spec fn enc_all<E: Encode>(s: Seq<E::Item>) -> Option<Seq<u8>>
            decreases s.len()
        {
            if s.len() == 0 { Some(Seq::empty()) } else {
                match (enc_all::<E>(s.drop_last()), E::enc(s.last())) { (Some(a), Some(b)) => Some(a + b), _ => None }
            }
        }
        pub open spec fn all_ok<E: Encode>(s: Seq<E::Item>) -> bool {
            forall|i: int| 0 <= i < s.len() ==> E::item_ok(#[trigger] s[i]) && (E::enc(s[i]) matches Some(b) ==> b.len() > 0)
        }
        /// enc_all, unfolded at the first item
        proof fn enc_all_front<E: Encode>(s: Seq<E::Item>)
            requires s.len() > 0
            ensures enc_all::<E>(s) == match (E::enc(s[0]), enc_all::<E>(s.drop_first())) { (Some(a), Some(b)) => Some(a + b), _ => None }
            decreases s.len()
        {
            reveal_with_fuel(enc_all, 2);
            if s.len() > 1 {
                let t = s.drop_last();
                enc_all_front::<E>(t);
                assert(s.drop_first().drop_last() =~= t.drop_first());
                assert(s.drop_first().last() == s.last());
                match (E::enc(s[0]), enc_all::<E>(t.drop_first()), E::enc(s.last())) {
                    (Some(a), Some(b), Some(c)) => { assert(a + b + c =~= a + (b + c)); },
                    _ => {},
                }
            } else {
                assert(s.drop_last() =~= Seq::<E::Item>::empty());
                assert(s.drop_first() =~= Seq::<E::Item>::empty());
                if E::enc(s[0]) is Some { assert(Seq::<u8>::empty() + E::enc(s[0])->0 =~= E::enc(s[0])->0); assert(E::enc(s[0])->0 + Seq::<u8>::empty() =~= E::enc(s[0])->0); }
            }
        }
        /// Repeat does not meet the contract of Encode (requiring_bytes is Unknown, and an item that cannot be encoded
        /// is only met later), so its methods have contracts of their own.
        impl<E: Encode> Repeat<E, crate::shim::vec::IntoIter<E::Item>> {
            pub open spec fn ok(&self) -> bool {
                &&& self.inner.inv()
                &&& !self.inner.idle() ==> self.inner.pending().len() > 0
                &&& self.items is None ==> self.inner.idle()
                &&& self.items matches Some(it) ==> all_ok::<E>(it.0@)
            }
            spec fn list(&self) -> Seq<E::Item> { match self.items { Some(it) => it.0@, None => Seq::empty() } }
            pub open spec fn count(&self) -> nat { match self.items { Some(it) => it.0@.len(), None => 0 } }
            /// what is still to be emitted; None: an item that cannot be encoded lies ahead
            pub open spec fn ahead(&self) -> Option<Seq<u8>> {
                match self.items {
                    None => Some(Seq::empty()),
                    Some(it) => match enc_all::<E>(it.0@) { Some(b) => Some(self.inner.pending() + b), None => None },
                }
            }
            #[verifier::spinoff_prover]
            fn encode(&mut self, buf: &mut [u8], eos: Eos) -> (r: Result<usize>)
                requires old(self).ok(), !eos.reached()
                ensures
                    final(buf)@.len() == old(buf)@.len(),
                    old(self).ahead() is Some ==> r is Ok,
                    r matches Ok(n) ==> {
                        &&& final(self).ok()
                        &&& n <= old(buf)@.len()
                        &&& final(self).ahead() is Some <==> old(self).ahead() is Some
                        &&& old(self).ahead() matches Some(b) ==> n <= b.len() && final(buf)@ == b.take(n as int) + old(buf)@.skip(n as int) && final(self).ahead() == Some(b.skip(n as int))
                        &&& final(self).items is Some ==> n == old(buf)@.len()
                        &&& n > 0 ==> final(self).count() < old(self).count() || final(self).count() == old(self).count() && final(self).inner.pending().len() < old(self).inner.pending().len()
                        &&& n == 0 ==> final(self).count() <= old(self).count()
                    },
            {
                broadcast use seqs;
                let mut offset = 0;
                let ghost __b = buf@;
                let ghost __a = self.ahead();
                proof {
                    if __a is Some { assert(__a->0.take(0) + __b.skip(0) =~= __b); assert(__a->0.skip(0) =~= __a->0); }
                }
                loop
                    invariant
                        !eos.reached(), self.ok(), offset <= buf@.len(), buf@.len() == __b.len(),
                        __b == old(buf)@, __a == old(self).ahead(),
                        self.ahead() is Some <==> __a is Some,
                        __a is Some ==> offset <= __a->0.len() && buf@ == __a->0.take(offset as int) + __b.skip(offset as int) && self.ahead() == Some(__a->0.skip(offset as int)),
                        offset == 0 ==> *self == *old(self),
                        offset > 0 ==> self.count() < old(self).count() || self.count() == old(self).count() && self.inner.pending().len() < old(self).inner.pending().len(),
                    decreases buf.len() - offset
                {
                    while self.inner.is_idle()
                        invariant
                            self.ok(), offset <= buf@.len(), buf@.len() == __b.len(),
                            __b == old(buf)@, __a == old(self).ahead(),
                            self.ahead() is Some <==> __a is Some,
                            __a is Some ==> offset <= __a->0.len() && buf@ == __a->0.take(offset as int) + __b.skip(offset as int) && self.ahead() == Some(__a->0.skip(offset as int)),
                            offset == 0 && self.inner.idle() ==> *self == *old(self),
                            offset == 0 && !self.inner.idle() ==> *self == *old(self) || self.count() < old(self).count(),
                            offset > 0 ==> self.count() < old(self).count() || self.count() == old(self).count() && self.inner.pending().len() < old(self).inner.pending().len(),
                        ensures !self.inner.idle()
                        decreases (if self.inner.idle() { 1int } else { 0int })
                    {
                        proof { self.inner.idle_law(); }
                        let ghost __i = self.list();
                        if let Some(item) = (match self.items.as_mut() { Some(__v) => __v.next(), None => None }) {
                            proof { enc_all_front::<E>(__i); }
                            self.inner.start_encoding(item)?;
                            proof {
                                if E::enc(item) is Some && enc_all::<E>(__i.drop_first()) is Some {
                                    assert(Seq::<u8>::empty() + (E::enc(item)->0 + enc_all::<E>(__i.drop_first())->0) =~= E::enc(item)->0 + enc_all::<E>(__i.drop_first())->0);
                                }
                            }
                        } else {
                            self.items = None;
                            return Ok(offset);
                        }
                    }
                    let ghost __p = self.inner.pending();
                    let ghost __c = buf@;
                    let size = self.inner.encode(&mut buf[offset..], eos)?;
                    proof {
                        if self.inner.idle() { self.inner.idle_law(); }
                        assert(__p.skip(0) =~= __p);
                        let o = offset as int;
                        let n = size as int;
                        assert(buf@ =~= __c.take(o) + __p.take(n) + __c.skip(o + n));
                        if __a is Some {
                            let a = __a->0;
                            let e = enc_all::<E>(self.list())->0;
                            assert(a.skip(o) == __p + e);
                            assert(__p.skip(n) + e =~= a.skip(o).skip(n));
                            assert(a.skip(o).skip(n) =~= a.skip(o + n));
                            assert(__p.take(n) =~= a.skip(o).take(n));
                            assert(buf@ =~= a.take(o + n) + __b.skip(o + n));
                        }
                    }
                    offset += size;
                    if size == 0 {
                        return Ok(offset);
                    }
                }
            }
            fn start_encoding(&mut self, item: crate::shim::vec::IntoIter<E::Item>) -> (r: Result<()>)
                requires old(self).ok(), all_ok::<E>(item.0@)
                ensures
                    r is Ok <==> old(self).items is None,
                    r is Ok ==> final(self).ok() && final(self).ahead() == enc_all::<E>(item.0@) && final(self).items is Some,
            {
                if !(self.is_idle()) { return Err(mkerr(ErrorKind::EncoderFull)); }
                proof {
                    self.inner.idle_law();
                    if enc_all::<E>(item.0@) is Some { assert(Seq::<u8>::empty() + enc_all::<E>(item.0@)->0 =~= enc_all::<E>(item.0@)->0); }
                }
                self.items = Some(item);
                Ok(())
            }
            fn requiring_bytes(&self) -> (r: ByteCount) ensures r == (if self.items is None { ByteCount::Finite(0) } else { ByteCount::Unknown })
            {
                if self.is_idle() {
                    ByteCount::Finite(0)
                } else {
                    ByteCount::Unknown
                }
            }
            fn is_idle(&self) -> (r: bool) ensures r == self.items is None
            {
                self.items.is_none()
            }
            fn default() -> (r: Self) ensures r.ok(), r.items is None
            {
                Repeat { inner: E::default(), items: None }
            }
            #[verifier::spinoff_prover]
            fn encode_all(&mut self, writer: &mut Vec<u8>) -> (r: Result<()>)
                requires old(self).ok()
                ensures
                    r is Ok <==> old(self).ahead() is Some,
                    r is Ok ==> final(self).ok() && final(self).items is None && final(writer)@ == old(writer)@ + old(self).ahead()->0,
            {
                let mut buf = [0; 1024];
                let ghost __a = self.ahead();
                let ghost __w = writer@;
                let ghost mut __n = 0int;
                proof { if __a is Some { assert(__w + __a->0.take(0) =~= __w); assert(__a->0.skip(0) =~= __a->0); } }
                while !self.is_idle()
                    invariant
                        self.ok(), buf@.len() == 1024, __a == old(self).ahead(), __w == old(writer)@,
                        __a is Some <==> self.ahead() is Some,
                        __a is Some ==> 0 <= __n <= __a->0.len() && self.ahead() == Some(__a->0.skip(__n)) && writer@ == __w + __a->0.take(__n),
                    decreases (if self.items is None { 0int } else { 1int }), self.count(), self.inner.pending().len()
                {
                    let size = self.encode(&mut buf[..], Eos::new(false))?;
                    writer.extend_from_slice(&buf[..size]);
                    proof {
                        if __a is Some {
                            let q = __a->0.skip(__n);
                            assert(buf@.take(size as int) =~= q.take(size as int));
                            assert(__w + __a->0.take(__n) + q.take(size as int) =~= __w + __a->0.take(__n + size));
                            assert(q.skip(size as int) =~= __a->0.skip(__n + size));
                        }
                        __n = __n + size;
                    }
                    if !self.is_idle() {
                        if !(size != 0) { return Err(mkerr(ErrorKind::Other)); }
                    }
                }
                proof { if __a is Some { assert(__a->0.take(__n) =~= __a->0) by { assert(__a->0.skip(__n).len() == 0); } } }
                Ok(())
            }
            #[verifier::spinoff_prover]
            fn encode_into_bytes(&mut self, item: crate::shim::vec::IntoIter<E::Item>) -> (r: Result<Vec<u8>>)
                requires old(self).ok(), old(self).items is None, all_ok::<E>(item.0@)
                ensures
                    r is Ok <==> enc_all::<E>(item.0@) is Some,
                    r is Ok ==> final(self).ok() && final(self).items is None && r->Ok_0@ == enc_all::<E>(item.0@)->0,
            {
                self.start_encoding(item)?;
                match self.requiring_bytes() {
                    ByteCount::Finite(size) => {
                        if !(size <= usize::MAX as u64) { return Err(mkerr(ErrorKind::Other)); }
                        let mut buf = vec![0; size as usize];
                        self.encode(&mut buf, Eos::new(true))?;
                        if !(self.is_idle()) { return Err(mkerr(ErrorKind::InconsistentState)); }
                        Ok(buf)
                    }
                    ByteCount::Unknown => {
                        let mut buf = Vec::new();
                        self.encode_all(&mut buf)?;
                        proof { let a = enc_all::<E>(item.0@); if a is Some { assert(Seq::<u8>::empty() + a->0 =~= a->0); } }
                        Ok(buf)
                    }
                    ByteCount::Infinite => { return Err(mkerr(ErrorKind::InvalidInput)); }
                }
            }
        }
        impl<E: Encode> Encode for PreEncode<Repeat<E, crate::shim::vec::IntoIter<E::Item>>> {
            type Item = crate::shim::vec::IntoIter<E::Item>;
            open spec fn inv(&self) -> bool { self.pre_encoded.inv() && self.inner.ok() && self.inner.items is None }
            open spec fn idle(&self) -> bool { self.pre_encoded.idle() }
            open spec fn pending(&self) -> Seq<u8> { self.pre_encoded.pending() }
            open spec fn item_ok(item: Self::Item) -> bool { all_ok::<E>(item.0@) }
            open spec fn enc(item: Self::Item) -> Option<Seq<u8>> { enc_all::<E>(item.0@) }
            open spec fn guarded() -> bool { false }
            proof fn idle_law(&self) { self.pre_encoded.idle_law(); }
            fn encode(&mut self, buf: &mut [u8], eos: Eos) -> (r: Result<usize>) {
                self.pre_encoded.encode(buf, eos)
            }
            fn start_encoding(&mut self, item: Self::Item) -> (r: Result<()>) {
                let buf = self.inner.encode_into_bytes(item)?;
                self.pre_encoded.start_encoding(buf)?;
                Ok(())
            }
            fn requiring_bytes(&self) -> (r: ByteCount) {
                self.pre_encoded.requiring_bytes()
            }
            fn is_idle(&self) -> (r: bool) {
                self.pre_encoded.is_idle()
            }
            fn default() -> (r: Self) {
                PreEncode { inner: Repeat::default(), pre_encoded: BytesEncoder::default() }
            }
        }
        impl<E: Encode> SizedEncode for PreEncode<Repeat<E, crate::shim::vec::IntoIter<E::Item>>> {
            fn exact_requiring_bytes(&self) -> (r: u64) {
                self.pre_encoded.exact_requiring_bytes()
            }
        }
    }
}
