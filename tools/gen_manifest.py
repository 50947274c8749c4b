#!/usr/bin/env python3
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'tools'))
import scope
props = [json.loads(l)['id'] for l in open(os.path.join(ROOT, 'properties.jsonl'))]
opened = json.load(open(os.path.join(ROOT, 'overlay/open.json')))
checks = []
KF1 = ' KF1 (known-findings.txt): the preceding part is what the crate re-encodes, which differs from the received bytes where a preceding known attribute has non-zero reserved bits.'
NOTES = {'C11': KF1, 'C12': KF1, 'C07': ' KF2 (known-findings.txt): for an input that ends early, which of the two reports is given depends on the slices.'}
for p in props:
    rx = scope.regex(p)
    op = [k for k in opened if rx.search(scope.verus_name(k))]
    note = ('Every obligation of the functions in scope and the theorems %s (overlay/%s.rs) are discharged by Verus on text extracted from /repo on every run; ' % (', '.join(scope.TOP[p].split()), p.lower()) +
            'bytecodec (where marked external), std and the crypto crates are assumed to meet their stated contracts (trusted_base in the evidence). '
            'A replay of an executable reference specification against the real crate supplies failing inputs')
    note += (' and stands in, bounded, for the %d functions in scope that are not discharged (listed in the evidence).' % len(op)) if op else '; it also decides, bounded, when the proof cannot be redone on a changed tree (the run then says so and its evidence has level exploration).'
    note += NOTES.get(p, '')
    checks.append(dict(property=p, quick_cmd='python3 tools/check.py %s quick' % p, thorough_cmd='python3 tools/check.py %s thorough' % p,
                       technique='contract-based deductive verification (Verus) of code extracted from /repo, with replay of a reference specification for failing inputs',
                       level=scope.level(p), level_note=note))
m = dict(version=1, setup_cmd='python3 tools/setup.py', checks=checks, not_applicable=[],
         notes='No hooks in /repo: the proof works on text extracted from /repo/src on every run, the replay uses the public API.')
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
