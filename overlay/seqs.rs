pub mod seqs {
    use super::*;
    #[verifier::opaque]
    pub open spec fn drop(s: Seq<u8>, n: nat) -> Seq<u8> { if n <= s.len() { s.skip(n as int) } else { Seq::empty() } }
    pub broadcast proof fn drop_drop(s: Seq<u8>, a: nat, b: nat)
        ensures #[trigger] drop(drop(s, a), b) == drop(s, a + b)
    { reveal(drop); assert(drop(drop(s, a), b) =~= drop(s, a + b)); }
    pub broadcast proof fn drop_zero(s: Seq<u8>)
        ensures #[trigger] drop(s, 0) == s
    { reveal(drop); assert(drop(s, 0) =~= s); }
    pub broadcast proof fn sub_rest(b: Seq<u8>, i: int, j: int, rest: Seq<u8>)
        requires 0 <= i <= j, j == b.len()
        ensures #[trigger] (b.subrange(i, j) + rest) == drop(b + rest, i as nat)
    { reveal(drop); assert(b.subrange(i, j) + rest =~= drop(b + rest, i as nat)); }
    pub broadcast proof fn skip_rest(b: Seq<u8>, i: int, rest: Seq<u8>)
        requires 0 <= i <= b.len()
        ensures #[trigger] (b.skip(i) + rest) == drop(b + rest, i as nat)
    { reveal(drop); assert(b.skip(i) + rest =~= drop(b + rest, i as nat)); }
    pub proof fn end_of(b: Seq<u8>, rest: Seq<u8>)
        ensures rest.len() == 0 ==> drop(b + rest, b.len()) == Seq::<u8>::empty()
    { reveal(drop); if rest.len() == 0 { assert(drop(b + rest, b.len()) =~= Seq::<u8>::empty()); } }
    pub broadcast group seqs { drop_drop, drop_zero, sub_rest, skip_rest }

    /// mentions `T: Copy`, which the array literal axioms need in scope
    pub proof fn copy_bound<T: Copy>(t: T) { }
    // Arrays, vectors and strings are determined by their contents (trusted).
    pub uninterp spec fn mk_arr<const N: usize>(s: Seq<u8>) -> [u8; N];
    pub broadcast axiom fn ax_mk_arr<const N: usize>(s: Seq<u8>)
        requires s.len() == N
        ensures #[trigger] mk_arr::<N>(s)@ == s;
    pub broadcast axiom fn ax_mk_arr_view<const N: usize>(a: [u8; N])
        ensures mk_arr::<N>(#[trigger] a@) == a;
    pub uninterp spec fn mk_vec<T>(s: Seq<T>) -> Vec<T>;
    pub broadcast axiom fn ax_mk_vec<T>(s: Seq<T>)
        requires s.len() <= usize::MAX
        ensures #[trigger] mk_vec::<T>(s)@ == s;
    pub broadcast axiom fn ax_mk_vec_view<T>(v: Vec<T>)
        ensures mk_vec::<T>(#[trigger] v@) == v;
    pub proof fn vec_is<T>(v: Vec<T>) ensures mk_vec::<T>(v@) == v { broadcast use ax_mk_vec_view; }
    pub uninterp spec fn mk_string(s: Seq<u8>) -> String;
    pub broadcast axiom fn ax_mk_string(s: Seq<u8>)
        requires vstd::utf8::valid_utf8(s), s.len() <= usize::MAX
        ensures vstd::utf8::encode_utf8(#[trigger] mk_string(s)@) == s;
    pub broadcast axiom fn ax_mk_string_view(s: String)
        ensures mk_string(vstd::utf8::encode_utf8(#[trigger] s@)) == s;
    /// the string with the given characters
    pub uninterp spec fn string_of(s: Seq<char>) -> String;
    pub broadcast axiom fn ax_string_of(s: Seq<char>)
        requires vstd::utf8::encode_utf8(s).len() <= usize::MAX
        ensures #[trigger] string_of(s)@ == s;
    pub broadcast axiom fn ax_string_of_view(s: String)
        ensures string_of(#[trigger] s@) == s;
    pub broadcast group contents { ax_mk_arr, ax_mk_arr_view, ax_mk_vec, ax_mk_vec_view, ax_mk_string, ax_mk_string_view, ax_string_of, ax_string_of_view }

    pub broadcast proof fn empty_add(s: Seq<u8>) ensures #[trigger] (Seq::<u8>::empty() + s) == s { assert(Seq::<u8>::empty() + s =~= s); }
    pub broadcast proof fn add_empty(s: Seq<u8>) ensures #[trigger] (s + Seq::<u8>::empty()) == s { assert(s + Seq::<u8>::empty() =~= s); }
    pub broadcast proof fn skip_add(a: Seq<u8>, b: Seq<u8>) ensures #[trigger] (a + b).skip(a.len() as int) == b { assert((a + b).skip(a.len() as int) =~= b); }
    /// `&x[..]` is all of x
    pub broadcast proof fn full_range(s: Seq<u8>, n: int) requires n == s.len() ensures #[trigger] s.subrange(0, n) == s { assert(s.subrange(0, n) =~= s); }
    pub broadcast proof fn small_mod(x: int, m: int) requires 0 <= x < m ensures #[trigger] (x % m) == x { vstd::arithmetic::div_mod::lemma_small_mod(x as nat, m as nat); }
    pub broadcast proof fn mod_self(x: int, m: int) requires x == m, m > 0 ensures #[trigger] (x % m) == 0 { vstd::arithmetic::div_mod::lemma_mod_self_0(m); }
    pub broadcast proof fn mod_range(x: int, m: int) requires m > 0 ensures 0 <= #[trigger] (x % m) < m { vstd::arithmetic::div_mod::lemma_mod_bound(x, m); }
    pub broadcast group mods { small_mod, mod_self, mod_range }
    pub broadcast group chain { empty_add, add_empty, skip_add }
    /// A chain of encoders started with `t` to emit into a buffer holding `b`; `o` octets are written, `p` is left.
    #[verifier::opaque]
    pub open spec fn drained(t: Seq<u8>, b: Seq<u8>, c: Seq<u8>, o: int, p: Seq<u8>) -> bool {
        0 <= o <= t.len() && o <= b.len() && c == t.take(o) + b.skip(o) && p == t.skip(o)
    }
    pub proof fn drained_start(t: Seq<u8>, b: Seq<u8>)
        ensures drained(t, b, b, 0, t)
    { reveal(drained); assert(t.take(0) + b.skip(0) =~= b); assert(t.skip(0) =~= t); }
    pub proof fn drained_len(t: Seq<u8>, b: Seq<u8>, c: Seq<u8>, o: int, q: Seq<u8>, r: Seq<u8>)
        requires drained(t, b, c, o, q + r)
        ensures c.len() == b.len(), o <= b.len(), o + q.len() + r.len() == t.len(), q.len() == 0 ==> drained(t, b, c, o, r)
    { reveal(drained); assert((q + r).len() == q.len() + r.len()); if q.len() == 0 { assert(q + r =~= r); } }
    pub proof fn drained_last(t: Seq<u8>, b: Seq<u8>, c: Seq<u8>, o: int, q: Seq<u8>)
        requires drained(t, b, c, o, q)
        ensures drained(t, b, c, o, q + Seq::<u8>::empty())
    { assert(q + Seq::<u8>::empty() =~= q); }
    pub proof fn drained_step(t: Seq<u8>, b: Seq<u8>, c0: Seq<u8>, c1: Seq<u8>, q0: Seq<u8>, q1: Seq<u8>, r: Seq<u8>, o: int, n: int)
        requires
            drained(t, b, c0, o, q0 + r),
            0 <= n <= q0.len(), o + n <= b.len(),
            c1.len() == c0.len(),
            c1.take(o) =~= c0.take(o),
            c1.skip(o) =~= q0.take(n) + c0.skip(o).skip(n),
            q1 == q0.skip(n),
        ensures
            drained(t, b, c1, o + n, q1 + r),
            q1.len() == 0 ==> drained(t, b, c1, o + n, r),
    {
        reveal(drained);
        let p0 = q0 + r;
        assert(q1 + r =~= p0.skip(n));
        assert(p0.skip(n) =~= t.skip(o + n));
        if q1.len() == 0 { assert(q1 + r =~= r); }
        let e = t.take(o + n) + b.skip(o + n);
        assert forall|i: int| 0 <= i < e.len() implies c1[i] == e[i] by {
            if i < o {
                assert(c1.take(o)[i] == c0.take(o)[i]);
            } else {
                assert(c1[i] == c1.skip(o)[i - o]);
                if i < o + n {
                    assert(q0.take(n)[i - o] == p0[i - o]);
                    assert(p0[i - o] == t[i]);
                } else {
                    assert(c1.skip(o)[i - o] == c0.skip(o).skip(n)[i - o - n]);
                }
            }
        }
        assert(c1 =~= e);
    }
    pub proof fn drained_end(t: Seq<u8>, b: Seq<u8>, c: Seq<u8>, o: int, q: Seq<u8>, r: Seq<u8>)
        requires drained(t, b, c, o, q + r)
        ensures c == t.take(o) + b.skip(o), q + r == t.skip(o), 0 <= o <= t.len(), o <= b.len(), c.len() == b.len()
    { reveal(drained); }
    pub proof fn no_prefix(q: Seq<u8>, r: Seq<u8>)
        ensures q.len() == 0 ==> q + r == r
    { if q.len() == 0 { assert(q + r =~= r); } }
    pub proof fn no_suffix(q: Seq<u8>)
        ensures q + Seq::<u8>::empty() == q
    { assert(q + Seq::<u8>::empty() =~= q); }

    // big-endian numbers
    pub open spec fn be16(s: Seq<u8>) -> u16 { (s[0] as int * 256 + s[1] as int) as u16 }
    pub open spec fn be32(s: Seq<u8>) -> u32 { (s[0] as int * 0x1000000 + s[1] as int * 0x10000 + s[2] as int * 0x100 + s[3] as int) as u32 }
    pub open spec fn be64(s: Seq<u8>) -> u64 { (be32(s.take(4)) as int * 0x1_0000_0000 + be32(s.skip(4)) as int) as u64 }
    pub open spec fn eb16(x: u16) -> Seq<u8> { seq![(x / 256) as u8, (x % 256) as u8] }
    pub open spec fn eb32(x: u32) -> Seq<u8> { seq![(x / 0x1000000) as u8, (x / 0x10000 % 256) as u8, (x / 0x100 % 256) as u8, (x % 256) as u8] }
    pub open spec fn eb64(x: u64) -> Seq<u8> { eb32((x / 0x1_0000_0000) as u32) + eb32((x % 0x1_0000_0000) as u32) }
    pub proof fn be16_eb16(x: u16) ensures be16(eb16(x)) == x, eb16(x).len() == 2 { }
    proof fn be32_eb32_(x: u32) by (bit_vector)
        ensures x / 0x1000000 * 0x1000000 + x / 0x10000 % 256 * 0x10000 + x / 0x100 % 256 * 0x100 + x % 256 == x
    { }
    pub proof fn be32_eb32(x: u32) ensures be32(eb32(x)) == x, eb32(x).len() == 4 { be32_eb32_(x); }
    pub proof fn be64_eb64(x: u64) ensures be64(eb64(x)) == x, eb64(x).len() == 8 {
        let hi = (x / 0x1_0000_0000) as u32;
        let lo = (x % 0x1_0000_0000) as u32;
        be32_eb32(hi);
        be32_eb32(lo);
        assert(eb64(x).take(4) =~= eb32(hi));
        assert(eb64(x).skip(4) =~= eb32(lo));
    }
    pub proof fn eb16_be16(s: Seq<u8>) requires s.len() == 2 ensures eb16(be16(s)) =~= s { }
    proof fn eb32_be32_(x: u32, a: u8, b: u8, c: u8, d: u8) by (bit_vector)
        requires x == a as u32 * 0x1000000 + b as u32 * 0x10000 + c as u32 * 0x100 + d as u32
        ensures x / 0x1000000 == a, x / 0x10000 % 256 == b, x / 0x100 % 256 == c, x % 256 == d
    { }
    pub proof fn eb32_be32(s: Seq<u8>) requires s.len() == 4 ensures eb32(be32(s)) =~= s { eb32_be32_(be32(s), s[0], s[1], s[2], s[3]); }
    pub proof fn eb64_be64(s: Seq<u8>) requires s.len() == 8 ensures eb64(be64(s)) =~= s {
        eb32_be32(s.take(4));
        eb32_be32(s.skip(4));
        let hi = be32(s.take(4));
        let lo = be32(s.skip(4));
        assert(be64(s) / 0x1_0000_0000 == hi && be64(s) % 0x1_0000_0000 == lo);
        assert(eb64(be64(s)) =~= s.take(4) + s.skip(4));
        assert(s.take(4) + s.skip(4) =~= s);
    }
}
