#!/usr/bin/env python3
"""vacuity.py   is any proof here vacuous? (a tool for development, no part of the checks)

Asserts a contradiction on entry to every function of the crate, at every normal exit of them, and on entry to
every lemma, theorem and shim function; Verus must refuse each. A function it accepts has a contradictory
precondition, or sits in a context (axioms, broadcast lemmas, callee contracts) that is inconsistent, or never
returns. Needs .build/norm.rs (bash tools/pipe.sh)."""
import os, re, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import prove, splice
B, O = prove.B, os.path.join(prove.ROOT, 'overlay')
ITEM = r'(pub\b|proof\b|spec\b|open\b|closed\b|broadcast\b|fn\b|#\[|\}|impl\b|struct\b|enum\b|trait\b|mod\b|use\b|uninterp\b|axiom\b|const\b|exec\b|type\b|macro_rules|//|$)'

def blank(s):
    return re.sub(r'//[^\n]*|"(?:\\.|[^"\\])*"|b?\'(?:\\.|[^\'\\\n])\'', lambda m: re.sub(r'[^\n]', ' ', m.group(0)), s)

COUNT = [0]
def inject(s):
    """a contradiction at the head of every body of hand-written overlay text"""
    m, ins = blank(s), []
    for f in re.finditer(r'^[ \t]*((?:pub(?:\(crate\))? |open |closed |broadcast |const |proof |spec |exec |uninterp |axiom )*)fn (\w+)', m, re.M):
        if re.search(r'\b(spec|axiom|uninterp)\b', f.group(1)): continue
        i, d, body = f.end(), 0, None
        while i < len(m):
            c = m[i]
            if c in '([': d += 1
            elif c in ')]': d -= 1
            elif c == ';' and d == 0: break
            elif c == '{' and d == 0:
                j, k = i, 0
                while True:
                    k += (m[j] == '{') - (m[j] == '}')
                    if k == 0: break
                    j += 1
                # the last block of an item is its body; blocks before it belong to the contract
                if re.match(ITEM, m[j + 1:].lstrip()): body = i; break
                i = j
            i += 1
        if body is None or 'bit_vector)' in m[f.start():body] or 'external_body' in s[:f.start()].rstrip().split('\n')[-1]: continue
        body += 1 + re.match(r'(\s*(hide\([^;]*\);|broadcast use [^;]*;))*', m[body + 1:]).end()
        ins.append((body, ' assert(false); ' if re.search(r'\bproof\b', f.group(1)) else ' proof { assert(false); } '))
    COUNT[0] += len(ins)
    for pos, t in reversed(ins): s = s[:pos] + t + s[pos:]
    return s

def attempt(what, smoke, edit):
    out = os.path.join(B, 'vac.rs')
    sp, _ = splice.assemble(open(os.path.join(B, 'norm.rs')).read(), O, out, smoke=smoke, edit=edit)
    mods = prove.modules(open(out).read())
    big = [['theorems::c04', 'theorems::c05', 'theorems::c11', 'theorems::c12', 'theorems::c15', 'theorems::c16'], ['theorems::c40'], ['attribute'], ['message'], ['rfc5389::attributes'], ['rfc5766::attributes']]
    res, errs, prob = prove.run(big + [[m for m in mods if not any(m in g for g in big)]], 600, src=out)
    ok, bad = [k for k, r in res.items() if r['ok']], [k for k, r in res.items() if not r['ok']]
    if smoke:
        own = {k for k in sp.bodies if k in res}
        ok, n = [k for k in ok if k in own], len(own)
        print('%s: %d functions, a contradiction accepted in %d %s %s' % (what, n, len(ok), ok[:10], [p[:300] for p in prob]))
    else: print('%s: %d bodies, %d refused, %d other functions %s' % (what, COUNT[0], len(bad), len(ok), [p[:300] for p in prob]))

attempt('on entry', 'entry', lambda t: t)
attempt('at exit', 'exit', lambda t: t)
attempt('lemmas, theorems and shims, on entry', '', inject)
