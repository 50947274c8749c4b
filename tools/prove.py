#!/usr/bin/env python3
"""Runs Verus on .build/out.rs, one process per group of modules, and collects per-function results."""
import json, os, re, subprocess, sys, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = os.path.join(ROOT, '.build')

def modules(src):
    """module paths that contain functions, from the spliced source"""
    out, stack = [], []
    for ln in src.split('\n'):
        m = re.match(r'( *)(?:pub )?mod (\w+) \{$', ln)
        if m:
            while stack and stack[-1][0] >= len(m.group(1)): stack.pop()
            stack.append((len(m.group(1)), m.group(2)))
            out.append('::'.join(n for _, n in stack))
    return out

def short(name):
    return re.sub(r'^out::', '', name)

def run(groups, timeout, src=None, threads=1, quiet=True):
    """groups: list of lists of modules. Returns (results, errors, problems)."""
    src = src or os.path.join(B, 'out.rs')
    procs = []
    for i, g in enumerate(groups):
        cmd = ['verus', src, '--rlimit', '30', '--num-threads', str(threads), '--output-json', '--time-expanded', '--crate-name', 'out']
        for m in g: cmd += ['--verify-only-module', m]
        fo, fe = open(os.path.join(B, 'g%d.json' % i), 'w'), open(os.path.join(B, 'g%d.err' % i), 'w')
        procs.append((g, subprocess.Popen(cmd, stdout=fo, stderr=fe, start_new_session=True), fo.name, fe.name))
    t0 = time.time()
    res, errs, prob = {}, [], []
    for g, p, fo, fe in procs:
        try:
            p.wait(max(1, timeout - (time.time() - t0)))
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9); p.wait()
            prob.append('timeout after %d s: %s' % (timeout, ' '.join(g)))
        err = open(fe).read()
        errs.append((g, err))
        try:
            d = json.load(open(fo))
        except Exception:
            if not any(x.startswith('timeout') and x.endswith(' '.join(g)) for x in prob):
                prob.append('verus gave no result: %s: %s' % (' '.join(g), err[-1500:]))
            continue
        if 'panicked at' in err or 'internal error' in err: prob.append('verus broke down: %s: %s' % (' '.join(g), err[-1500:]))
        vr = d['verification-results']
        REJECT[tuple(g)] = False
        if vr.get('encountered-vir-error') or (vr.get('encountered-error') and not vr.get('verified') and not vr.get('errors')):
            REJECT[tuple(g)] = True
            prob.append('verus rejects the text: %s: %s' % (' '.join(g), ' | '.join(t[:500] for _, t in blocks([(g, err)]))))
            continue
        for m in d['times-ms']['smt']['smt-run-module-times']:
            for f in m['function-breakdown']:
                n = short(f['function'])
                # `impl From<..> for Error` outside bytecodec: Verus names it after Error
                if n == 'bytecodec::Error::from' and m['module'] != 'bytecodec': n = m['module'] + '::Error::from'
                o = res.get(n)
                r = {'ok': f['success'] and (o is None or o['ok']), 'ms': f['time'] + (o['ms'] if o else 0), 'mode': f['mode:'], 'n': 1 + (o['n'] if o else 0),
                     'rlimit': f['rlimit']}
                res[n] = r
    return res, errs, prob

def again(keys, mods, src, timeout):
    """one function at a time from the text src; -> those whose obligations are all discharged"""
    procs = []
    for k in keys:
        m = max((m for m in mods if k.startswith(m + '::')), key=len) if not re.search('::(round|rewire)$', k) else 'theorems::c40'
        procs.append((k, subprocess.Popen(['verus', src, '--rlimit', '60', '--crate-name', 'out', '--output-json', '--time-expanded', '--verify-only-module', m, '--verify-function', k[len(m) + 2:]],
                                          stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, start_new_session=True)))
    t0, ok = time.time(), set()
    for k, p in procs:
        try:
            d = json.loads(p.communicate(timeout=max(1, timeout - (time.time() - t0)))[0])
            fs = [f for m in d['times-ms']['smt']['smt-run-module-times'] for f in m['function-breakdown'] if short(f['function']) == k]
            if fs and all(f['success'] for f in fs) and d['verification-results']['errors'] == 0: ok.add(k)
        except subprocess.TimeoutExpired: os.killpg(p.pid, 9); p.wait()
        except Exception: pass
    return ok

ERR = re.compile(r'\n(?=error)')
def blocks(errs):
    """[(message, text)] of all errors"""
    out = []
    for g, e in errs:
        for b in ERR.split(e):
            m = re.match(r'error(?:\[\w+\])?: (.*)', b)
            if m and 'aborting' not in m.group(1): out.append((m.group(1), b))
    return out

_own = {}
REJECT = {}
def owner(src, text, msg):
    """the function an error block belongs to (verus name)"""
    if src not in _own:
        owners, stack, cur, depth, pend = [], [], None, 0, None
        for ln in src.split('\n'):
            st = ln.strip()
            m = re.match(r'(?:pub )?mod (\w+) \{$', st) or re.match(r'(?:pub )?trait (\w+)', st)
            if m: pend = m.group(1)
            elif re.match(r'impl\b', st) and not st.startswith('impl_'):
                h = re.sub(r'^impl\s*', '', st)
                if h.startswith('<'):
                    d = 0
                    for i, c in enumerate(h):
                        if c == '<': d += 1
                        if c == '>' and h[i - 1] != '-':
                            d -= 1
                            if d == 0: h = h[i + 1:]; break
                h = h.split(' for ')[-1]
                m = re.match(r'\s*(?:\w+::)*(\w+)', h)
                pend = m.group(1) if m else '?'
            else:
                m = re.match(r'(?:pub |open |closed |broadcast |const |proof |spec |exec |uninterp |axiom )*fn (\w+)', st)
                if m: cur = '::'.join([n for _, n in stack] + [m.group(1)])
            owners.append(cur)
            for c in re.sub(r"//.*", '', re.sub(r"'(?:\\.|[^'\\])'", '', re.sub(r'"(?:\\.|[^"\\])*"', '', ln))):
                if c == '{':
                    depth += 1
                    if pend: stack.append((depth, pend)); pend = None
                elif c == '}':
                    if stack and stack[-1][0] == depth: stack.pop()
                    depth -= 1
        _own[src] = owners
    owners = _own[src]
    text = text.split('\n\nnote:')[0]
    locs = [int(x) for x in re.findall(r'out\.rs:(\d+):', text)]
    nums = [int(x) for x in re.findall(r'^\s*(\d+) \|', text, re.M)]
    ln = nums[-1] if 'postcondition' in msg and nums else (locs[0] if locs else None)
    return owners[ln - 1] if ln and ln <= len(owners) else None

def rejected(src_text, errs):
    """the functions behind the errors that kept the verifier from starting on a group"""
    out = set()
    for g, e in errs:
        bl = blocks([(g, e)])
        if REJECT.get(tuple(g)): out |= {owner(src_text, t, '') for _, t in bl}
    return set() if None in out else out

def front_end(src_text, timeout):
    """functions whose text rustc or the Verus front end rejects, or the reason when none can be named"""
    try:
        r = subprocess.run(['verus', os.path.join(B, 'out.rs'), '--no-verify', '--crate-name', 'out', '--output-json'], timeout=timeout,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    except subprocess.TimeoutExpired:
        return set(), 'timeout'
    try: ok = json.loads(r.stdout)['verification-results']['success']
    except Exception: ok = False
    if ok and r.returncode == 0: return set(), ''
    bl = blocks([('', r.stderr)])
    own = [owner(src_text, t, '') for _, t in bl]
    if not bl or None in own: return set(), ' | '.join(t[:600] for (_, t), o in zip(bl, own) if o is None) or r.stderr[-800:]
    return set(own), ''

if __name__ == '__main__':
    src = open(os.path.join(B, 'out.rs')).read()
    ms = modules(src)
    GROUPS = [['theorems::c04', 'theorems::c05', 'theorems::c11', 'theorems::c12', 'theorems::c15', 'theorems::c16'], ['theorems::c40'], ['attribute'], ['message'], ['rfc5389::attributes'], ['rfc5766::attributes'], ['rfc5780::attributes', 'rfc8016::attributes', 'rfc8656::attributes', 'rfc5245::attributes', 'net']]
    rest = [m for m in ms if not any(m in g for g in GROUPS)]
    sel = sys.argv[1:]
    gs = GROUPS + [rest]
    if sel: gs = [[m] for m in sel]
    t = time.time()
    res, errs, prob = run(gs, 200)
    json.dump(res, open(os.path.join(B, 'res.json'), 'w'))
    print('%d functions, %d ok, %.0f s' % (len(res), sum(r['ok'] for r in res.values()), time.time() - t))
    for k, r in res.items():
        if not r['ok']: print('  FAIL', k)
    print(sorted(((r['ms'], k) for k, r in res.items()), reverse=True)[:12])
    for p in prob: print('PROBLEM', p[:600])
    open(os.path.join(B, 'v.txt'), 'w').write('\n'.join(e for _, e in errs))
