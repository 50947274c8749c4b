#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]   decides one property for the current tree of /repo.

 1. proof: extract /repo's code, splice the contracts in, have Verus discharge the obligations of
    every function in the property's scope (scope.py);
 2. replay: run the executable reference specification (harness/) against the real crate; this gives
    the failing input when an obligation is not discharged, and is the bounded stand-in for the
    functions listed in overlay/open.json, which are never counted as proved.
Exit 0: held.  Exit 1 with a VIOLATION line: broken.  Exit 2: the check could not run."""
import json, os, re, shutil, subprocess, sys, threading, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('STUN_SOURCE', '/repo')  # (development only: extract another tree)
B = os.path.join(ROOT, '.build')
sys.path.insert(0, os.path.join(ROOT, 'tools'))
sys.path.insert(0, os.path.join(ROOT, 'overlay'))
import prove, splice, scope, depcheck

T0 = time.time()
def log(*a): print('[%5.1f]' % (time.time() - T0), *a, file=sys.stderr, flush=True)

def sh(cmd, timeout, **kw):
    return subprocess.run(cmd, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)

# ------------------------------------------------------------------ replay harness
def build_harness(profile):
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(B, 'h'))
    r = sh(['cargo', 'build', '--profile', profile, '--offline', '--quiet'], 600, cwd=os.path.join(ROOT, 'harness'), env=env)
    if r.returncode != 0: raise RuntimeError('the replay harness does not build against /repo:\n' + r.stderr[-3000:])
    return os.path.join(B, 'h', profile, 'harness')

def run_harness(exe, prop, seed, percent, procs, timeout):
    """several processes with different seeds; merged result"""
    ps = []
    for i in range(procs):
        s = seed * 1000 + i
        ps.append((s, subprocess.Popen([exe, prop, str(s), str(percent)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)))
    out = dict(evaluations=0, distinct=0, parts={}, samples=[], known=set(), violations=[], seeds=[], incomplete=0)
    end = time.time() + timeout
    for s, p in ps:
        try:
            o, e = p.communicate(timeout=max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            p.kill(); p.communicate(); out['incomplete'] += 1
            continue
        try:
            d = json.loads(o.strip().split('\n')[-1])
        except Exception:
            # the process died: an abort or a stack overflow inside the crate is a failure of the run
            out['violations'].append(dict(seed=s, case='seed %d: the run died (status %s)' % (s, p.returncode), what=e[-800:]))
            continue
        out['evaluations'] += d['evaluations']; out['distinct'] += d['distinct']
        for n, k in d['parts']: out['parts'][n] = out['parts'].get(n, 0) + k
        out['samples'] += d['samples'][:6 if not out['samples'] else 0]
        out['known'] |= set(d['known'])
        out['violations'] += [dict(v, seed=s) for v in d['violations']]
        out['seeds'].append(s)
    return out

# ------------------------------------------------------------------ proof
class Proof:
    def __init__(self): self.res, self.problems, self.blocks, self.sp, self.cmd = {}, [], [], None, ''; self.skipped = set()

def extract():
    d = os.path.join(B, 'stun')
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    shutil.copytree(os.path.join(REPO, 'src'), os.path.join(d, 'src'))
    for f in ('Cargo.toml', 'Cargo.lock'):
        t = open(os.path.join(ROOT, 'shim/stun', f)).read()
        open(os.path.join(d, f), 'w').write(t.replace('"../trackable"', '"%s/shim/trackable"' % ROOT))
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(B, 'target'))
    r = sh(['cargo', '+nightly', 'rustc', '--offline', '--lib', '--', '-Zunpretty=expanded'], 300, cwd=d, env=env)
    if not r.stdout.strip(): raise RuntimeError('macro expansion failed: ' + r.stderr[-1500:])
    open(os.path.join(B, 'expanded.rs'), 'w').write(r.stdout)
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(B, 'x'))
    e = sh(['cargo', 'build', '--offline', '--quiet'], 300, cwd=os.path.join(ROOT, 'extract'), env=env)
    if e.returncode: raise RuntimeError('extractor does not build: ' + e.stderr[-1500:])
    n = os.path.join(B, 'norm.rs')
    if os.path.exists(n): os.remove(n)
    r = sh([os.path.join(B, 'x/debug/extract'), os.path.join(B, 'expanded.rs'), n], 60)
    if r.returncode or not os.path.exists(n): raise RuntimeError('extraction failed: ' + (r.stderr or r.stdout)[-1500:])
    r = sh(['rustfmt', '--edition', '2021', n, '--config', 'max_width=110'], 60)
    if r.returncode: raise RuntimeError('extracted text is not Rust: ' + r.stderr[-1500:])

def proof(prop, pf, timeout):
    try:
        extract()
        log('extracted')
        norm = open(os.path.join(B, 'norm.rs')).read()
        bare, skip, end = set(), set(), time.time() + timeout
        while True:
            pf.sp, pf.lost = splice.assemble(norm, os.path.join(ROOT, 'overlay'), os.path.join(B, 'out.rs'), bare, skip)
            pf.skipped = {k for k in skip if k in pf.sp.bodies}
            src = open(os.path.join(B, 'out.rs')).read()
            # what rustc or the Verus front end rejects: a function whose annotations no longer fit its text is
            # tried without them, then taken out of the proof (undecided, never counted as proved)
            bad, why = prove.front_end(src, min(120, max(10, end - time.time())))
            if not bad and not why:
                log('front end done')
                groups = scope.groups(prop, prove.modules(src))
                pf.cmd = 'verus .build/out.rs --crate-name out ' + ' '.join('--verify-only-module ' + m for g in groups for m in g)
                pf.res, errs, pf.problems = prove.run(groups, max(60, end - time.time()))
                pf.blocks = [(prove.owner(src, t, m), m, t) for m, t in prove.blocks(errs)]
                if not any(p.startswith('verus rejects') for p in pf.problems): break
                bad = prove.rejected(src, errs)
                why = '' if bad else pf.problems[0]
            for k in bad: (skip if k in bare else bare).add(k)
            if why or any(k in pf.skipped or k not in pf.sp.bodies for k in bad) or time.time() > end - 60 or len(bare) > 12:
                pf.problems.append('the front end of the verifier rejects the text: %s %s' % (sorted(bad), why[:1200]))
                return
            log('rejected by the front end:', sorted(bad))
        log('verus done')
        # a second attempt, with the lemma library in scope, at what the first did not discharge
        rx = scope.regex(prop)
        fails = [k for k, r in pf.res.items() if not r['ok'] and rx.search(k) and k not in pf.skipped][:6]
        if fails and end - time.time() > 30:
            splice.assemble(norm, os.path.join(ROOT, 'overlay'), os.path.join(B, 'out2.rs'), bare, skip, fails)
            for k in prove.again(fails, prove.modules(src), os.path.join(B, 'out2.rs'), min(120, end - time.time())):
                pf.res[k]['ok'] = pf.res[k]['second_attempt'] = True
                log('discharged in a second attempt:', k)
    except Exception as e:
        pf.problems.append('%s: %s' % (type(e).__name__, e))
        log('proof stage:', e)

def judge(prop, pf):
    """-> (in-scope obligations, discharged, open, broken [(fn, [messages])], undecided [(fn, why)])"""
    rx = scope.regex(prop)
    opened = json.load(open(os.path.join(ROOT, 'overlay/open.json')))
    verus_open = {scope.verus_name(k): k for k in opened}
    scoped = {k: r for k, r in pf.res.items() if rx.search(k)}
    hinted = {scope.verus_name(k) for k, _ in (pf.sp.missing_hints if pf.sp else [])}
    known_plain = set(json.load(open(os.path.join(ROOT, 'overlay/plain.json'))))
    plain = [k for k, x in (pf.sp.fns if pf.sp else []) if not x and k not in known_plain]
    bodies = pf.sp.bodies if pf.sp else {}
    broken, undecided = [], []
    for k, r in scoped.items():
        if r['ok'] or k in verus_open: continue
        msgs = [(m, t) for o, m, t in pf.blocks if o == k or (o or '').startswith('theorems') and o.split('::')[-2:] == k.split('::')[-2:]]
        body = bodies.get(k, '')
        calls = [p for p in plain if re.search(r'\b%s\s*(::<[^(]*>)?\(' % re.escape(p.split('::')[-1]), body)]
        if k in {scope.verus_name(p) for p in plain}: undecided.append((k, 'new function without contract'))
        elif k in hinted: undecided.append((k, 'the proof annotations no longer fit the text of the function'))
        elif calls: undecided.append((k, 'calls a function without contract: %s' % ', '.join(calls)))
        elif pf.sp.loops.get(k, (0, 0))[0] != pf.sp.loops.get(k, (0, 0))[1]: undecided.append((k, 'loops without invariant'))
        elif msgs and all('rlimit' in m or 'esource limit' in m for m, _ in msgs): undecided.append((k, 'solver gave up (resource limit)'))
        else: broken.append((k, [t for _, t in msgs]))
    undecided += [(k, 'its text is outside what the verifier accepts') for k in sorted(pf.skipped) if rx.search(k)]
    op = [k for k in opened if rx.search(scope.verus_name(k))]
    return scoped, [k for k, r in scoped.items() if r['ok'] and k not in verus_open and k not in pf.skipped], op, broken, undecided

def trusted():
    """mechanical scan of the text handed to Verus for what it assumes"""
    src = open(os.path.join(B, 'out.rs')).read()
    stack, out, pend = [], {}, False
    for ln in src.split('\n'):
        m = re.match(r'( *)(?:pub )?mod (\w+) \{$', ln)
        if m:
            while stack and stack[-1][0] >= len(m.group(1)): stack.pop()
            stack.append((len(m.group(1)), m.group(2)))
        key = '::'.join(n for _, n in stack)
        if 'external_body' in ln: pend = True
        m = re.search(r'\b(axiom )?fn (\w+)', ln) or (re.search(r'\b(struct) (\w+)', ln) if pend else None)
        if m and (pend or m.group(1) == 'axiom '):
            out.setdefault((key, 'axiom' if m.group(1) == 'axiom ' else 'external_body'), []).append(m.group(2)); pend = False
        if re.search(r'\b(assume|admit)\(', ln): out.setdefault((key, 'assume'), []).append(ln.strip())
    return ['%s in %s: %d (%s)' % (k, m, len(v), ', '.join(sorted(set(v)))[:300]) for (m, k), v in sorted(out.items())]

# ------------------------------------------------------------------ known findings
def known_findings(prop):
    out = []
    for ln in open(os.path.join(ROOT, 'known-findings.txt')):
        m = re.match(r'known: property=(\w+) (KF\d+) (.*)', ln)
        if m and m.group(1) == prop: out.append((m.group(2), m.group(3).strip()))
    return out

def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    os.makedirs(B, exist_ok=True)
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    replay = os.path.join(ROOT, 'evidence', prop + '.replay.json')
    pf = Proof()
    th = threading.Thread(target=proof, args=(prop, pf, 260 if tier == 'quick' else 600), daemon=True)
    th.start()
    try:
        exe = build_harness('release' if tier == 'quick' else 'deep')
    except Exception as e:
        print('check %s cannot run: %s' % (prop, e))
        sys.exit(2)
    log('harness built')
    if tier == 'quick': h = run_harness(exe, prop, seed, scope.percent(prop), 4, 240)
    else: h = run_harness(exe, prop, seed, 400, 8, 300)
    log('harness done')
    known = known_findings(prop)
    viol = list(h['violations'])
    for k in sorted(h['known']):
        if not any(k.startswith(i) for i, _ in known): viol.append(dict(seed=seed, case=k, what='not listed in known-findings.txt'))
    ev = dict(property=prop, tier=tier, seed=seed, level=scope.level(prop), wall_s=0, violations=0, coverage={}, assumptions=[])
    cov = ev['coverage']
    cov.update(evaluations=h['evaluations'], distinct_nontrivial=h['distinct'], samples=h['samples'][:8] or ['none'], parts=h['parts'], replay_seeds=h['seeds'],
               rule='replay of the executable reference specification against the crate: cases generated from the seed, partly enumerated (see parts); distinct by hash of the whole case within its part; every case compares the crate with the specification')
    def finish(code):
        ev['wall_s'] = round(time.time() - T0, 1)
        json.dump(ev, open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w'), indent=1)
        sys.stdout.flush(); sys.stderr.flush()
        os._exit(code)
    def report(found, obligations):
        ev['violations'] = len(found) + len(obligations)
        json.dump(dict(property=prop, failing_inputs=found[:5], failed_obligations=obligations,
                       rerun='cd /verif/harness && CARGO_TARGET_DIR=/verif/.build/h cargo run --release --offline -- %s SEED %d   (SEED as listed with the case)' % (prop, scope.percent(prop))),
                  open(replay, 'w'), indent=1)
        for f in found[:2]: print('failing input: %s\n  %s' % (f['case'][:1500], f['what'][:1500]))
        for o in obligations[:4]: print('failed obligation: %s\n%s' % (o['function'], o['verifier'][:1200]))
        print('VIOLATION property=%s replay=%s%s' % (prop, replay, '' if found else ' no-failing-input-found'))
    if viol:
        ev['level'] = 'exploration'
        cov.update(obligations=0, discharged=0, checker_cmd='not waited for: a failing input was found', trusted_base=['n/a'])
        report(viol, [])
        finish(1)
    th.join()
    scoped, good, op, broken, undecided = judge(prop, pf)
    log('%d obligations in scope, %d discharged, %d open, %d broken, %d undecided, problems %d' % (len(scoped), len(good), len(op), len(broken), len(undecided), len(pf.problems)))
    cov.update(obligations=len(scoped) + len([o for o in op if scope.verus_name(o) not in scoped]), discharged=len(good), checker_cmd=pf.cmd or 'not reached', back_end='Verus (Z3)',
               solver_ms=sum(r['ms'] for r in scoped.values()), functions_under_contract=sorted(good)[:2000],
               open_bounded_stand_in=op, undecided=['%s: %s' % u for u in undecided], proof_problems=[p[:1500] for p in pf.problems],
               contracts_lost=[str(x) for x in getattr(pf, 'lost', [])][:50],
               trusted_base=trusted() if os.path.exists(os.path.join(B, 'out.rs')) and not (pf.sp is None) else ['proof not redone'])
    ev['assumptions'] = list(scope.ASSUMPTIONS)
    try:
        src, cmpd = depcheck.depcheck(os.path.join(B, 'out.rs'))
        off = [n for n, same, _, _ in cmpd if not same]
        cov['bytecodec_bodies'] = dict(source=src or 'not found: not compared', compared=len(cmpd), same=len(cmpd) - len(off), differing=off)
        if off or not src: ev['assumptions'].append('the bytecodec bodies named in bytecodec_bodies.differing (all, if the source was not found) are as transcribed')
    except Exception as e: cov['bytecodec_bodies'] = dict(source='not compared: %s' % e, compared=0, same=0, differing=[])
    cov['theorems'] = ['%s: %s' % (t, 'not reached' if t not in pf.res else 'discharged' if t in good else 'not discharged') for t in scope.top(prop)]
    missing = [k for k in scope.expected(prop) + scope.top(prop) if k not in pf.res] if not pf.problems else []
    cov['expected_obligations_absent'] = missing[:50]
    if broken and not pf.problems:
        ev['level'] = 'exploration'
        log('searching for a failing input behind', [k for k, _ in broken])
        try:
            deep = build_harness('deep')
            h2 = run_harness(deep, prop, seed + 1, 600, 8, 240)
            cov['evaluations'] += h2['evaluations']; cov['distinct_nontrivial'] += h2['distinct']
            found = h2['violations']
        except Exception as e:
            log(e); found = []
        report(found, [dict(function=k, verifier='\n'.join(t)[:6000]) for k, t in broken])
        finish(1)
    if pf.problems or undecided or missing:
        ev['level'] = 'exploration'
        print('NOTE property=%s: the proof was not redone in full on this tree (%s); decided by the bounded replay only where it was not' % (
            prop, '; '.join([p.split('\n')[0][:200] for p in pf.problems] + ['%s: %s' % u for u in undecided[:5]] + ['absent: ' + m for m in missing[:5]])))
    for i, t in known:
        if any(k.startswith(i) for k in h['known']): print('KNOWN-FINDING: property=%s %s %s' % (prop, i, t))
    print('ok property=%s: %d obligations in scope, %d discharged, %d open (bounded), %d replay cases' % (prop, cov['obligations'], len(good), len(op), h['evaluations']))
    finish(0)

if __name__ == "__main__": main()
