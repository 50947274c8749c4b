#!/usr/bin/env python3
"""Compares the executable text of the bytecodec bodies handed to Verus (module bytecodec of .build/out.rs) with the source the crate is built with.

Both sides are reduced to token sequences: the overlay loses its annotations (proof blocks, ghost code, clauses), the
registry source its error-history macros, and the rewrites listed in DESIGN.md ("The bytecodec bodies") are applied.
Prints one line per body: `same` or `differs` (with the two texts); `depcheck()` returns the same as data."""
import glob, os, re, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def close(t, i):
    """index just behind the bracket matching t[i]"""
    pair, d, j = {'(': ')', '{': '}', '[': ']'}, 0, i
    while True:
        c = t[j]
        if c in '({[': d += 1
        elif c in ')}]':
            d -= 1
            if d == 0: return j + 1
        j += 1

def cut(t, rx, repl=''):
    """every occurrence of rx (ending in an opening bracket) with its bracketed group -> repl(group)"""
    out, i = '', 0
    for m in iter(lambda: re.compile(rx).search(t, i), None):
        e = close(t, m.end() - 1)
        out += t[i:m.start()] + (repl(t[m.end():e - 1]) if callable(repl) else repl)
        i = e
    return out + t[i:]

def args(s):
    out, d, cur = [], 0, ''
    for c in s:
        if c in '({[': d += 1
        if c in ')}]': d -= 1
        if d == 0 and c in ',;': out.append(cur.strip()); cur = ''
        else: cur += c
    return out + [cur.strip()]

def body(t, head, fn):
    """body of fn in the impl whose header matches head"""
    for m in re.finditer(head, t):
        b = t.index('{', m.end() - 1 if t[m.end() - 1] == '{' else m.end())
        blk = t[b:close(t, b)]
        f = re.search(r'fn %s\s*(<[^>(]*>)?\(' % fn, blk)
        if not f: continue
        i = close(blk, f.end() - 1)
        # the body is the last top-level brace group before the next item
        while True:
            j = blk.index('{', i)
            k = close(blk, j)
            rest = blk[k:].lstrip()
            if rest.startswith(('}', 'fn ', 'pub ', '#[', 'proof fn', 'open spec', 'spec fn', '///', '//', 'type ', '@')) or not rest: return blk[j + 1:k - 1]
            i = k
    return None

def common(t):
    t = re.sub(r'//[^\n]*', '', t)
    t = t.replace('std::usize::MAX', 'usize::MAX').replace('0u8', '0').replace('crate::', '')
    return t

def overlay(t):
    t = common(t)
    t = cut(t, r'\bproof\s*\{')
    t = re.sub(r'\blet ghost (mut )?\w+(: [^=;]*)? = [^;]*?(\{[^;]*\})?;', '', t)
    t = re.sub(r'\bbroadcast use [^;]*;', '', t)
    t = re.sub(r'\breveal(_with_fuel)?\([^;]*\);', '', t)
    t = re.sub(r'\n\s*(invariant|ensures|decreases)\b.*?\n\s*\{\n', ' {\n', t, flags=re.S)
    t = cut(t, r',\s*Ghost\(')
    t = re.sub(r'\blet _ = [^;]*;', '', t)
    t = cut(t, r'\brust_slice\(', lambda s: s)
    t = cut(t, r'\bAsRefBytes::as_ref\(', lambda s: '%s.as_ref()' % re.sub(r'^&', '', s.strip()))
    t = cut(t, r'\bAsMutBytes::as_mut\(', lambda s: '%s.as_mut()' % re.sub(r'^&mut ', '', s.strip()))
    t = re.sub(r'match self\.0 \{ ByteCount::Finite\(n\) => n == 0, _ => false \}', 'self.0 == ByteCount::Finite(0)', t)
    t = re.sub(r'match String::from_utf8\((\w+)\) \{ Ok\(__v\) => __v, Err\(_\) => \{ return Err\(mkerr\(ErrorKind::(\w+)\)\); \} \}', r'String::from_utf8(\1).map_err(|e| ErrorKind::\2.cause(e))?', t)
    t = re.sub(r'match ([^{]*) \{ Ok\(__v\) => Ok\(Self::decode_item\(__v\)\), Err\((\w+)\) => Err\(\2\) \}', r'\1.map(Self::decode_item)', t)
    t = re.sub(r'\[0; \d\](?=;)', 'Default::default()', t)
    t = cut(t, r'\bif !\((?=.)', lambda s: 'IFNOT[%s]' % s)
    t = re.sub(r'IFNOT\[(.*)\]\s*\{ return Err\(mkerr\(ErrorKind::(\w+)\)\); \}', r'CHECK[\1 , \2];', t)
    t = re.sub(r'match ([^{]*) \{ Some\(__v\) => __v, None => \{ return Err\(mkerr\(ErrorKind::(\w+)\)\); \} \}', r'SOME[\1, \2]', t)
    t = re.sub(r'\(match ([^{]*) \{ Some\(__v\) => __v\.next\(\), None => None \}\)', r'\1.and_then(Iterator::next)', t)
    t = re.sub(r'\(match ([^{]*) \{ None => 0, Some\(b\) => (.*?) \}\)', r'\1.map_or(0, |b| \2)', t)
    t = re.sub(r'if !try_(decode|encode)\(&mut ([\w.]+), &mut offset, buf, eos\)\? \{\s*return Ok\(offset\);\s*\}', r'TRY_\1(\2);', t)
    t = t.replace('cmp::min64(', 'cmp::min(')
    t = re.sub(r'\breserve_exact\(&mut ([\w.]+), ', r'\1.reserve_exact(', t)
    t = re.sub(r'\blet __r = (.*?);\s*__r\b', r'\1', t, flags=re.S)
    t = re.sub(r'\{ return Err\(mkerr\(ErrorKind::(\w+)\)\); \}', r'PANIC(\1)', t)
    t = re.sub(r'mkerr\(ErrorKind::(\w+)\)', r'ERR(\1)', t)
    t = re.sub(r'writer\.extend_from_slice\((.*?)\);', r'writer.write_all(\1).map_err(Error::from)?;', t)
    return t

def registry(t):
    t = common(t)
    while re.search(r'\btrack!\(', t): t = cut(t, r'\btrack!\(', lambda s: args(s)[0])
    kind = lambda a: a[-1] if False else next(x for x in a if x.startswith('ErrorKind::')).split('::')[1]
    t = cut(t, r'\btrack_assert!\(', lambda s: 'CHECK[%s , %s]' % (args(s)[0], kind(args(s))))
    t = cut(t, r'\btrack_assert_eq!\(', lambda s: 'CHECK[%s == %s , %s]' % (args(s)[0], args(s)[1], kind(args(s))))
    t = cut(t, r'\btrack_assert_ne!\(', lambda s: 'CHECK[%s != %s , %s]' % (args(s)[0], args(s)[1], kind(args(s))))
    t = cut(t, r'\btrack_assert_some!\(', lambda s: 'SOME[%s, %s]' % (args(s)[0], kind(args(s))))
    t = cut(t, r'\btrack_panic!\(', lambda s: 'PANIC(%s)' % kind(args(s)))
    t = cut(t, r'\bbytecodec_try_(?=decode!)decode!\(', lambda s: 'TRY_decode(%s)' % args(s)[0])
    t = cut(t, r'\bbytecodec_try_(?=encode!)encode!\(', lambda s: 'TRY_encode(%s)' % args(s)[0])
    # the tuple macros, at the pairs the crate uses
    t = cut(t, r'\$\(', lambda s: 'REP(%s)' % s)
    t = re.sub(r'REP\((.*)\)(;|,|&&)?\*', lambda m: (m.group(2) or '').join(m.group(1).replace('$i', i) for i in '01'), t)
    t = t.replace('items.extend(iter::once(item))', 'items.push(item)').replace('is_eos_reached', 'b')
    t = re.sub(r'\bt\.([01])\b', r'item.\1', t)
    return t

def tokens(t):
    t = re.sub(r',\s*([)}\]])', r'\1', t)
    return re.findall(r'[A-Za-z_]\w*|\d\w*|=>|==|!=|<=|>=|&&|\|\||\+=|-=|::|\S', t)

# (overlay impl header, registry file, registry impl header, functions)
PAIRS = [
 (r'impl<const N: usize> Decode for CopyableBytesDecoder', 'bytes.rs', r'Decode for CopyableBytesDecoder<', 'decode finish_decoding requiring_bytes is_idle'),
 (r'impl<B: AsMutBytes> Decode for BytesDecoder', 'bytes.rs', r'Decode for BytesDecoder<', 'decode finish_decoding requiring_bytes is_idle'),
 (r'impl<B: AsMutBytes> BytesDecoder', 'bytes.rs', r'SizedDecode for BytesDecoder<|impl<B: AsRef<\[u8\]> \+ AsMut<\[u8\]>> BytesDecoder', 'exact_requiring_bytes set_bytes'),
 (r'Decode for RemainingBytesDecoder', 'bytes.rs', r'Decode for RemainingBytesDecoder', 'decode finish_decoding requiring_bytes is_idle'),
 (r'Decode for Utf8Decoder', 'bytes.rs', r'Decode for Utf8Decoder', 'decode finish_decoding requiring_bytes is_idle'),
 (r' Encode for BytesEncoder', 'bytes.rs', r' Encode for BytesEncoder', 'encode start_encoding requiring_bytes is_idle'),
 (r'SizedEncode for BytesEncoder', 'bytes.rs', r'SizedEncode for BytesEncoder', 'exact_requiring_bytes'),
 (r' Encode for Utf8Encoder', 'bytes.rs', r' Encode for Utf8Encoder', 'encode start_encoding requiring_bytes is_idle'),
 (r'SizedEncode for Utf8Encoder', 'bytes.rs', r'SizedEncode for Utf8Encoder', 'exact_requiring_bytes'),
 (r'AsRefBytes for Utf8Bytes', 'bytes.rs', r'AsRef<\[u8\]> for Utf8Bytes', 'as_ref'),
 (r' Decode for NullDecoder', 'null.rs', r' Decode for NullDecoder', 'decode finish_decoding requiring_bytes is_idle'),
 (r' Encode for NullEncoder', 'null.rs', r' Encode for NullEncoder', 'encode start_encoding requiring_bytes is_idle'),
 (r' SizedEncode for NullEncoder', 'null.rs', r' SizedEncode for NullEncoder', 'exact_requiring_bytes'),
 (r' Decode for TupleDecoder', 'tuple.rs', r' Decode for TupleDecoder', 'decode finish_decoding requiring_bytes is_idle'),
 (r' Encode for TupleEncoder', 'tuple.rs', r' Encode for TupleEncoder', 'encode start_encoding requiring_bytes is_idle'),
 (r' SizedEncode for TupleEncoder', 'tuple.rs', r' SizedEncode for TupleEncoder', 'exact_requiring_bytes'),
 (r' Decode for Peekable', 'combinator.rs', r' Decode for Peekable', 'decode finish_decoding requiring_bytes is_idle'),
 (r'impl<D: Decode> Peekable', 'combinator.rs', r'impl<D: Decode> Peekable', 'peek'),
 (r' Decode for Length', 'combinator.rs', r' Decode for Length', 'decode finish_decoding requiring_bytes is_idle'),
 (r'impl<D: Steady> Length', 'combinator.rs', r'impl<C> Length<', 'inner_mut set_expected_bytes'),
 (r' Decode for Collect', 'combinator.rs', r' Decode for Collect', 'decode finish_decoding requiring_bytes is_idle'),
 (r'impl<E: Encode> Repeat', 'combinator.rs', r' Encode for Repeat', 'encode start_encoding requiring_bytes is_idle'),
 (r'impl<E: Encode> Repeat', 'io.rs', r'pub trait IoEncodeExt', 'encode_all'),
 (r'impl<E: Encode> Repeat', 'encode.rs', r'pub trait EncodeExt', 'encode_into_bytes'),
 (r' EncodeExt for E ', 'encode.rs', r'pub trait EncodeExt', 'encode_into_bytes'),
 (r' EncodeExt for E ', 'io.rs', r'pub trait IoEncodeExt', 'encode_all'),
 (r' Encode for PreEncode', 'combinator.rs', r' Encode for PreEncode', 'encode start_encoding requiring_bytes is_idle'),
 (r'SizedEncode for PreEncode', 'combinator.rs', r'SizedEncode for PreEncode', 'exact_requiring_bytes'),
 (r'impl ByteCount', 'byte_count.rs', r'impl ByteCount', 'add_for_decoding add_for_encoding to_u64'),
 (r'impl Eos', 'eos.rs', r'impl Eos', 'is_reached new with_remaining_bytes remaining_bytes'),
 ] + [x for n in ('U8', 'U16be', 'U32be', 'U64be') for x in (
 (r' Decode for %sDecoder' % n, 'fixnum.rs', r' Decode for \$ty', 'decode finish_decoding requiring_bytes is_idle'),
 (r' Encode for %sEncoder' % n, 'fixnum.rs', r' Encode for \$ty', 'encode start_encoding requiring_bytes is_idle'),
 (r' SizedEncode for %sEncoder' % n, 'fixnum.rs', r' SizedEncode for \$ty', 'exact_requiring_bytes'),
 (r'impl %sDecoder ' % n, 'fixnum.rs', r'impl %sDecoder ' % n, 'decode_item'),
 (r'impl %sEncoder ' % n, 'fixnum.rs', r'impl %sEncoder ' % n, 'encode_item'))]

def source():
    """the bytecodec source the crate's lock file names"""
    lock = open('/repo/Cargo.lock').read() if os.path.exists('/repo/Cargo.lock') else ''
    m = re.search(r'name = "bytecodec"\nversion = "([^"]+)"', lock)
    v = m.group(1) if m else '*'
    home = os.environ.get('CARGO_HOME', os.path.expanduser('~/.cargo'))
    ds = sorted(glob.glob(os.path.join(home, 'registry/src/*/bytecodec-%s/src' % v)))
    return ds[-1] if ds else None

def depcheck(text=os.path.join(ROOT, '.build/out.rs')):
    d, out = source(), []
    if not d: return None, []
    ov = open(text).read()
    i = ov.index('pub mod bytecodec {')
    ov = ov[i:close(ov, i + 18)]
    for oh, f, rh, fns in PAIRS:
        rt = open(os.path.join(d, f)).read()
        rt = rt.split('\n#[cfg(test)]')[0]
        for fn in fns.split():
            a, b = body(ov, oh, fn), body(rt, rh, fn)
            name = '%s: %s::%s' % (f, re.sub(r'^.*(?: for|impl<[^ ]*>|impl<.*>|impl|trait) ', '', ' ' + (oh if f == 'fixnum.rs' else rh)).strip(' <'), fn)
            if a is None or b is None: out.append((name, False, 'not found: %s%s' % ('overlay ' if a is None else '', 'registry' if b is None else ''), '')); continue
            if 'external_body' in a or a.strip() == 'unimplemented!()': out.append((name, False, 'assumed', '')); continue
            x, y = tokens(overlay(a)), tokens(registry(b))
            out.append((name, x == y, ' '.join(x), ' '.join(y)))
    return d, out

if __name__ == '__main__':
    d, out = depcheck()
    print(d)
    for n, same, x, y in out:
        print('same   ' if same else 'differs', n)
        if not same: print('   overlay:  %s\n   registry: %s' % (x, y))
