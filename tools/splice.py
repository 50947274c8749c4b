#!/usr/bin/env python3
"""Splices the contracts of overlay/ into the normalised source of stun_codec.

The executable text comes from norm.rs (mechanically extracted from /repo); this step only adds
ghost text: specification functions, requires/ensures, invariants, proof blocks, the ghost
parameter of Decode::decode, and names for return values."""
import re, sys, os, json
import scope
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'overlay'))

class Fn:
    __slots__ = ('key', 'mod', 'impl', 'name', 'head', 'body', 'indent', 'line', 'tail')

def norm_impl(h):
    """'impl<A: Attribute> Decode for Foo<A> {' -> 'Decode for Foo'"""
    h = h.strip()
    assert h.startswith('impl')
    h = h[4:]
    if h.startswith('<'):
        d = 0
        for i, c in enumerate(h):
            if c == '<': d += 1
            if c == '>' and h[i-1] != '-':
                d -= 1
                if d == 0:
                    h = h[i+1:]
                    break
    h = re.sub(r'\bwhere\b.*', '', h.rstrip('{ '))
    h = h.replace('crate::bytecodec::bytes::', '').replace('crate::bytecodec::', '').replace('crate::convert::', '').replace('crate::', '')
    h = re.sub(r'\s+', ' ', h).strip()
    m = re.match(r'(.*) for ([A-Za-z_0-9]+)', h)
    if m:
        return '%s for %s' % (m.group(1), m.group(2))
    return re.match(r'[A-Za-z_0-9]+', h).group(0)

def match_paren(s, i, o='(', c=')'):
    d = 0
    while i < len(s):
        if s[i] == o: d += 1
        elif s[i] == c:
            d -= 1
            if d == 0: return i
        i += 1
    raise ValueError('unbalanced')

def ghost_decode_calls(body):
    """X.decode(a, b) -> X.decode(a, b, Ghost(__rest))"""
    out, i = '', 0
    for m in re.finditer(r'\.decode\(', body):
        if m.start() < i: continue
        e = match_paren(body, m.end() - 1)
        out += body[i:e].rstrip().rstrip(',') + ', Ghost(__rest))'
        i = e + 1
    return out + body[i:]

TRY = r'^( *)if !self\.(\w+)\.is_idle\(\) \{\n *offset \+= self\.\2\.%s\?;\n *if !self\.\2\.is_idle\(\) \{\n *return Ok\(offset\);\n *\}\n *\};?$'
TRY_E = re.compile(TRY % r'encode\(&mut buf\[offset\.\.\], eos\)', re.M)
TRY_D = re.compile(TRY % r'decode\(&buf\[offset\.\.\], eos, Ghost\(__rest\)\)', re.M)
def try_decode(b, proofs={}):
    """folds every expansion of bytecodec_try_decode!; `proofs`: field -> (before, after)"""
    def step(m):
        i, f = m.group(1), m.group(2)
        pre, post = proofs.get(f, ('', ''))
        return (pre + '\n' if pre else '') + i + 'if !try_decode(&mut self.%s, &mut offset, buf, eos, Ghost(__rest))? { %s return Ok(offset); }' % (f, post) + ('\n' + i + post if post else '')
    return TRY_D.sub(step, b)
def try_encode(b):
    """folds every expansion of bytecodec_try_encode!, naming what the later encoders of the chain still have to emit"""
    fs = [m.group(2) for m in TRY_E.finditer(b)]
    if not fs or len(set(fs)) < len(fs): return b
    def rest(k):
        if k == len(fs): return 'Seq::<u8>::empty()'
        r = 'self.%s.pending()' % fs[-1]
        for f in reversed(fs[k:-1]): r = 'self.%s.pending() + (%s)' % (f, r)
        return r
    def step(m):
        i, f = m.group(1), m.group(2)
        k = fs.index(f)
        pre = 'proof { drained_last(__t, __b, buf@, offset as int, self.%s.pending()); }\n' % f if k == len(fs) - 1 else ''
        end = 'drained_end(__t, __b, buf@, offset as int, self.%s.pending(), %s); ' % (f, rest(k + 1))
        if k == len(fs) - 1: end += 'no_suffix(self.%s.pending()); ' % f
        end += ' '.join('no_prefix(self.%s.pending(), %s);' % (g, rest(fs.index(g) + 1)) for g in reversed(fs[:k]))
        r = pre + 'if !try_encode(&mut self.%s, &mut offset, buf, eos, Ghost(__t), Ghost(__b), Ghost(%s))? { proof { %s } return Ok(offset); }' % (f, rest(k + 1), end)
        return r + ('\nproof { %s }' % end if k == len(fs) - 1 else '')
    return ('            let ghost __t = self.pending(); let ghost __b = buf@;\n'
            '            proof { drained_start(__t, __b); }\n' + TRY_E.sub(step, b))

def tail_of(b):
    """the tail expression of a (rustfmt-ed) function body"""
    b0 = '\n' + b
    ls = [l for l in b.split('\n') if l.strip()]
    base = min(len(l) - len(l.lstrip()) for l in ls)
    ms = list(re.finditer(r'\n {%d}([^ \n})].*)' % base, b0))
    st = ms[-1].start()
    class M:
        def start(self): return max(st - 1, 0)
        def group(self, _): return b0[st + 1:]
    return M()

def parse_head(text):
    """fn header text (up to and excluding the brace or ;) -> (prefix, params, ret, where)"""
    m = re.search(r'\bfn\s+([A-Za-z_0-9]+)', text)
    i = m.end()
    if text[i] == '<':
        i = match_paren(text, i, '<', '>') + 1
    j = match_paren(text, i)
    prefix, params, rest = text[:i], text[i+1:j], text[j+1:]
    where = ''
    w = re.search(r'\bwhere\b', rest)
    if w:
        where, rest = rest[w.start():].strip(), rest[:w.start()]
    ret = ''
    if '->' in rest:
        ret = rest.split('->', 1)[1].strip()
    return m.group(1), prefix, re.sub(r'\s+', ' ', params).strip(), ret, where

def inline_lets(b, t, keep=()):
    """replaces, in the integer expression t, the variables that b binds to call-free expressions"""
    lets = [(m.group(1), m.group(2)) for m in re.finditer(r'^ *let (\w+)(?:: \w+)? = ([^;{}]*?);$', b, re.M) if m.group(1) not in keep and not re.search(r'\w\(|self|\?', m.group(2))]
    for n, e in reversed(lets):
        if len(re.findall(r'\blet (?:mut )?%s\b' % n, b)) != 1: continue
        t = re.sub(r'\b%s\b' % n, lambda _: '(' + e + ')', t)
    return t

class Splicer:
    def __init__(self, contracts):
        self.c = contracts
        self.used_impl, self.used_fn, self.used_mod = set(), set(), set()
        self.fns = []          # every function seen: (key, contracted?)
        self.missing_hints = []
        self.bodies, self.loops = {}, {}

    def run(self, src):
        lines = src.split('\n')
        out = []
        stack = []  # (kind, name, indent)
        i = 0
        seen_impl = set()
        def modpath():
            return '::'.join(n for k, n, _ in stack if k == 'mod')
        def cur():
            return '::'.join(n for _, n, _ in stack)
        while i < len(lines):
            ln = lines[i]
            st = ln.strip()
            ind = len(ln) - len(ln.lstrip())
            if stack and st == '}' and ind == stack[-1][2]:
                k, n, _ = stack[-1]
                if k == 'mod':
                    mp = modpath()
                    if mp in self.c.mods:
                        self.used_mod.add(mp)
                        out.append(self.c.mods[mp])
                out.append(ln)
                stack.pop()
                i += 1
                continue
            if re.match(r'(pub (enum|struct) MyAttribute|impl .* for MyAttribute)', st):
                # private, unused example type of attribute.rs: not extracted
                while not (lines[i].strip() == '}' and len(lines[i]) - len(lines[i].lstrip()) == ind): i += 1
                i += 1
                continue
            m = re.match(r'(pub )?mod (\w+) \{$', st)
            if m:
                stack.append(('mod', m.group(2), ind))
                out.append(ln)
                out.append(' ' * (ind + 4) + 'use super::*;\n' if False else '')
                if self.c.mod_use:
                    out.append(self.c.mod_use)
                i += 1
                continue
            if st.startswith('impl') and not st.startswith('impl_'):
                j = i
                h = st
                while not h.endswith('{') and not h.endswith('{}'):
                    j += 1
                    h += ' ' + lines[j].strip()
                name = norm_impl(h)
                key = (modpath() + '::' if stack else '') + name
                one = h.endswith('{}')
                pre = self.c.before_impl(key, h)
                if pre: out.append(pre)
                out.append(' ' * ind + (h[:-2] + '{' if one else h))
                if key in self.c.impls and key not in seen_impl:
                    self.used_impl.add(key)
                    out.append(self.c.impls[key])
                seen_impl.add(key)
                post = self.c.after_impl(key, h)
                if one:
                    out.append(' ' * ind + '}')
                    if post: out.append(post)
                else:
                    stack.append(('impl', name, ind))
                    if post: self.c.pending_post = getattr(self.c, 'pending_post', {}); self.c.pending_post[len(stack)] = post
                i = j + 1
                continue
            m = re.match(r'pub trait (\w+)', st)
            if m and st.endswith('{'):
                key = (modpath() + '::' if stack else '') + 'trait ' + m.group(1)
                out.append(ln)
                if key in self.c.impls:
                    self.used_impl.add(key)
                    out.append(self.c.impls[key])
                stack.append(('trait', 'trait ' + m.group(1), ind))
                i += 1
                continue
            m = re.match(r'(pub )?(const )?fn (\w+)', st)
            if m:
                j, h = i, st
                while not (h.endswith('{') or h.endswith(';') or h.endswith('{}')):
                    j += 1
                    h += ' ' + lines[j].strip()
                nobody = h.endswith(';')
                empty = h.endswith('{}')
                head = h[:-2] if empty else h[:-1]
                body = []
                k = j + 1
                if not nobody and not empty:
                    while not (lines[k].strip() == '}' and len(lines[k]) - len(lines[k].lstrip()) == ind):
                        body.append(lines[k]); k += 1
                    k += 1
                out.append(self.emit_fn((cur() + '::' if stack else ''), head.strip(), body, ind, nobody))
                i = k
                continue
            for pat, rep in self.c.line_rewrites:
                ln = re.sub(pat, rep, ln)
            out.append(ln)
            i += 1
        return '\n'.join(out)

    def emit_fn(self, path, head, body, ind, nobody):
        name, prefix, params, ret, where = parse_head(head)
        key = path + name
        spec = self.c.fn_spec(key)
        vn = scope.verus_name(key)
        if spec and vn in self.c.bare:
            # the proof annotations do not fit the text of the function: keep its contract only
            spec = {k: v for k, v in spec.items() if k in ('clauses', 'attrs')}
            self.missing_hints.append((key, 'annotations dropped'))
        params = re.sub(r'(^|, )_:', r'\1__x:', params)
        m = re.search(r'impl (Into<\w+>)', params)
        if m and '<' not in prefix:
            prefix += '<I: %s>' % m.group(1)
            params = params.replace('impl ' + m.group(1), 'I')
        sp = ' ' * ind
        if name == 'decode' and 'eos' in params:
            params = params.rstrip(', ') + ', Ghost(__rest): Ghost<Seq<u8>>'
        s = ''
        attrs = spec.get('attrs', '') if spec else ''
        if (key in self.c.open or vn in self.c.skip) and not nobody: attrs += ' #[verifier::external_body]'
        if attrs: s += sp + attrs + '\n'
        s += sp + prefix + '(' + params + ')'
        if ret: s += ' -> (r: %s)' % ret
        if where: s += '\n' + sp + where.rstrip(',') + ','
        if spec and spec.get('clauses'):
            s += '\n' + spec['clauses']
        self.fns.append((key, bool(spec)))
        nl = len(re.findall(r'^\s*(?:for |while |loop \{)', '\n'.join(body), re.M))
        ol = self.loops.get(vn, (0, 0))
        self.bodies[vn] = self.bodies.get(vn, '') + '\n'.join(body)
        self.loops[vn] = (ol[0] + nl, ol[1] + len(spec.get('loops', []) if spec else []))
        if spec: self.used_fn.add(key)
        if nobody:
            return s + (';' if not (spec and spec.get('clauses')) else '\n' + sp + ';')
        if vn in self.c.skip: return s + '\n' + sp + '{ unimplemented!() }'
        b = '\n'.join(body)
        b = re.sub(r'\n\s*use ::bytecodec::\w+;', '', '\n' + b)[1:]
        b = ghost_decode_calls(b)
        if spec:
            for n, inv in reversed(list(enumerate(spec.get('loops', [])))):
                b = self.add_inv(b, n, inv, key)
            for rx, txt in spec.get('after', []):
                m = re.search(rx, b, re.M)
                if not m:
                    self.missing_hints.append((key, rx)); continue
                b = b[:m.end()] + '\n' + txt + b[m.end():]
            for rx, txt in spec.get('before', []):
                m = re.search(rx, b, re.M)
                if not m:
                    self.missing_hints.append((key, rx)); continue
                b = b[:m.start()] + txt + '\n' + b[m.start():]
            for rx, txt in spec.get('subst', []):
                b, k = re.subn(rx, txt, b)
                if not k: self.missing_hints.append((key, rx))
            for nm, cond in spec.get('let_bv', []):
                m = re.search(r'^( *)let %s = ((?:[^;])*?);$' % nm, b, re.M)
                if not m:
                    self.missing_hints.append((key, 'let ' + nm)); continue
                b = b[:m.end()] + '\n%sproof { let __v = %s; assert(%s) by (bit_vector) requires __v == (%s); }' % (m.group(1), nm, cond, inline_lets(b[:m.start()], m.group(2))) + b[m.end():]
            if 'tail_bv' in spec:
                m = tail_of(b)
                cond, pre = spec['tail_bv']
                t = m.group(1)
                b = b[:m.start()] + '\n' + pre.replace('{T}', inline_lets(b[:m.start()], t.strip(), ('class', 'method'))) + '\n' + t
            if 'tail_let' in spec:
                m = tail_of(b)
                b = b[:m.start()] + '\nlet __r = ' + m.group(1).strip() + ';\n' + spec['tail_let'] + '\n__r'
        if name == 'encode': b = try_encode(b)
        if name == 'decode': b = try_decode(b, spec.get('tries', {}) if spec else {})
        h = spec.get('hint', '') if spec else ''
        # tools/vacuity.py: a contradiction asserted on entry or on exit must not be accepted
        if self.c.smoke == 'entry': h += '\nproof { assert(false); }'
        if self.c.smoke == 'exit': b = 'let __rr' + (': ' + ret if ret and 'impl' not in ret else '') + ' = {\n' + b + '\n};\nproof { assert(false); }\n__rr'
        if vn in self.c.boost: h = LIBRARY + '\n' + h
        return s + '\n' + sp + '{' + ('\n' + h if h else '') + '\n' + b + '\n' + sp + '}'

    def add_inv(self, b, n, inv, key):
        ms = list(re.finditer(r'^\s*(?:for \w+ in .*?|while .*?|loop) \{$', b, re.M))
        if n >= len(ms):
            self.missing_hints.append((key, 'loop %d' % n)); return b
        m = ms[n]
        w = re.match(r'\s*while (\w+) < ([\w.()]+) \{', m.group(0))
        if w and 'decreases' not in inv: inv = inv.rstrip().rstrip(',') + ',\n %s <= %s,\n decreases %s - %s,' % (w.group(1), w.group(2), w.group(2), w.group(1))
        return b[:m.end()-1] + '\n' + inv + '\n{' + b[m.end():]

class Contracts:
    def __init__(self):
        self.mods, self.impls, self.fns = {}, {}, {}
        self.open = {}   # functions whose contract is not discharged (yet): assumed, never counted as proved
        self.bare, self.skip, self.boost = set(), set(), set()   # see tools/check.py, proof()
        self.line_rewrites = []
        self.smoke = ''
        self.mod_use = ''
        self.patterns = []
        self.impl_posts, self.impl_pres = [], []
    def mod(self, k, t): self.mods[k] = self.mods.get(k, '') + t + '\n'
    def impl(self, k, t): self.impls[k] = self.impls.get(k, '') + t + '\n'
    def fn(self, k, clauses='', **kw):
        d = dict(kw); d['clauses'] = clauses
        if k in self.fns: self.fns[k].update(d)
        else: self.fns[k] = d
    def pattern(self, rx, f): self.patterns.append((re.compile(rx), f))
    def fn_spec(self, key):
        if key in self.fns: return self.fns[key]
        for rx, f in self.patterns:
            if rx.search(key): return f
        return None
    def before_impl(self, key, h):
        return '\n'.join(t for t in (f(key, h) for f in self.impl_pres) if t)
    def after_impl(self, key, h):
        return ''

# what a function gets to use in a second attempt, when its obligations were not discharged in the first
LIBRARY = '''                broadcast use {bits, casts, full_range, contents, chain, seqs, mods};'''

def assemble(norm, overlay_dir, out_path, bare=(), skip=(), boost=(), smoke='', edit=lambda t: t):
    import contracts
    c = contracts.build()
    op = os.path.join(overlay_dir, 'open.json')
    if os.path.exists(op): c.open = json.load(open(op))
    c.bare, c.skip, c.boost, c.smoke = set(bare), set(skip), set(boost), smoke
    sp = Splicer(c)
    body = sp.run(norm)
    pre = ''
    for f in ['seqs.rs', 'bits.rs', 'shim.rs', 'bytecodec.rs', 'spec.rs']:
        t = edit(open(os.path.join(overlay_dir, f)).read())
        t = t.replace('//@FIXNUM', contracts.fixnum())
        pre += t + '\n'
    th = ''
    for f in sorted(os.listdir(overlay_dir)):
        if re.match(r'c\d\d\.rs$', f): th += edit(open(os.path.join(overlay_dir, f)).read()) + '\n'
    if th: th = 'pub mod theorems {\nuse super::*;\n' + re.sub(r'(?m)^(?=.)', '    ', th) + '}\n'
    text = ('#![allow(unused_imports, dead_code, unused_variables, unused_mut, unused_parens, unused_assignments, non_snake_case)]\n'
            'use vstd::prelude::*;\nuse vstd::utf8::*;\nverus! {\n' + pre + body + '\n' + th + '} // verus!\nfn main() {}\n')
    text = re.sub(r'reveal\((\w+)::(run|done|req)\)', r'reveal(<\1 as crate::bytecodec::Decode>::\2)', text)
    text = re.sub(r'reveal\((\w+)::(pending)\)', r'reveal(<\1 as crate::bytecodec::Encode>::\2)', text)
    open(out_path, 'w').write(text)
    lost = [('impl', k) for k in c.impls if k not in sp.used_impl] + \
           [('fn', k) for k in c.fns if k not in sp.used_fn] + \
           [('mod', k) for k in c.mods if k not in sp.used_mod]
    return sp, lost

if __name__ == '__main__':
    norm = open(sys.argv[1]).read()
    od = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'overlay')
    sp, lost = assemble(norm, od, sys.argv[2])
    for l in lost: print('LOST', l)
    for h in sp.missing_hints: print('HINT', h)
    print('%d functions, %d with contract' % (len(sp.fns), sum(1 for _, x in sp.fns if x)))
    if len(sys.argv) > 3:
        for k, x in sp.fns:
            if not x: print('PLAIN', k)
