"""writes MANIFEST.json from the check modules: a module checks/cpNN.py with TECHNIQUE/LEVEL/NOTE claims property PNN"""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}
checks, na = [], []
for l in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(l)['id']
    f = os.path.join(V, 'checks', 'c%s.py' % p.lower())
    if not os.path.exists(f):
        na.append(dict(property=p, reason=NA.get(p, 'not claimed yet: the contracts for this property are not written'))); continue
    src = open(f).read()
    g = lambda k, d: (re.search(r"^%s\s*=\s*'([^'\n]*)'" % k, src, re.M) or re.search(r'^%s\s*=\s*"([^"\n]*)"' % k, src, re.M) or [None, d])[1]
    checks.append(dict(property=p, quick_cmd='python3-vt fv/run.py %s' % p, thorough_cmd='python3-vt fv/run.py %s' % p, evidence_file='evidence/%s.json' % p,
                       technique=g('TECHNIQUE', 'contracts on the real functions, VCs from extracted LLVM IR, prime-field identity + z3 discharge'),
                       level=g('LEVEL', 'other'), level_note=g('NOTE', '')))
m = dict(version=1, setup_cmd='true', checks=checks, not_applicable=na,
         notes='Contract-based deductive verification; verified text is the LLVM IR clang produces from /repo on every run. See DESIGN.md.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
