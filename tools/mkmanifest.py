#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl, the contracts and the table below."""
import json, os, re, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
contracts = {}
for f in sorted(glob.glob(V + '/contracts/*.spec')):
    cur = None
    default = []
    for l in open(f):
        s = l.strip()
        m = re.match(r'func (\S+?\.\S+?)\(', l) or re.match(r'func (\(\S+\)\.[^\s(]+)\(', l)
        if l.startswith('func '):
            cur = re.match(r'func (\([^)]*\)\.[^\s(]+|[^\s(]+)\(', l).group(1)
            ps = list(default)
            trusted = False
            contracts[cur] = ps
        elif s.startswith('props '):
            if cur is None or not l.startswith(' '):
                default = s.split()[1:]
                cur = None if not l.startswith(' ') else cur
            else:
                contracts[cur] = s.split()[1:]
        elif s == 'trusted' and cur:
            contracts.pop(cur, None)
notes = json.load(open(V + '/tools/levels.json'))
checks, na = [], []
for p in props:
    i = p['id']
    n = notes.get(i)
    if not n or n.get('na'):
        na.append({'property': i, 'reason': (n or {}).get('na', 'no check built yet')})
        continue
    fns = sorted(f for f, ps in contracts.items() if i in ps)
    c = {'property': i, 'quick_cmd': 'python3 check.py ' + i, 'thorough_cmd': 'python3 check.py ' + i,
         'evidence_file': 'evidence/%s.json' % i,
         'technique': n.get('technique', 'contract-based deductive verification (SSA verification conditions, z3/cvc5) with replayed counterexamples'),
         'level': n.get('level', 'proof'), 'level_note': n['note']}
    if c['level'] == 'proof' and fns:
        c['theorems'] = fns
    checks.append(c)
m = {'version': 1, 'setup_cmd': 'bash setup.sh',
     'hooks': {'guard': 'verif', 'enable': 'no hooks are needed: contracts live in /verif/contracts and harnesses are overlaid', 'source_commits': []},
     'checks': checks, 'not_applicable': na,
     'notes': 'Contracts in contracts/*.spec are checked against go/ssa of /repo by govc (built from /verif/govc on every run). Bounded executable contracts in harness/ run alongside and supply failing inputs; they are labelled bounded in the evidence.'}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
