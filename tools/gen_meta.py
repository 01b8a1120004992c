#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from the table in tools/props.txt"""
import json, os, sys
base = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# block format: '## ID | title' then 'key: text' lines
props = []
cur = None
for ln in open(base + '/tools/props.txt'):
    ln = ln.rstrip('\n')
    if ln.startswith('## '):
        i, t = ln[3:].split('|', 1)
        cur = {'id': i.strip(), 'title': t.strip()}
        props.append(cur)
    elif ln.strip() and cur is not None:
        k, v = ln.split(':', 1)
        k = k.strip(); v = v.strip()
        if k == 'mech':
            cur.setdefault('mech', []).append(v)
        else:
            cur[k] = v
checks, na = [], []
TECH = ('symbolic execution of the optimised LLVM IR of the real templates; every assertion is decided for all values within the '
        'bounds by exact real algebra with SMT (z3) back end; counterexamples are replayed natively against /repo')
with open(base + '/properties.jsonl', 'w') as f:
    for p in props:
        assert len(p['title']) <= 80, p['title']
        mech = []
        for m in p['mech']:
            n, w = m.split('@', 1)
            mech.append({'name': n.strip(), 'where': w.strip()})
        d = {'id': p['id'], 'title': p['title'], 'statement': p['statement'],
             'quantifier': {'over': p.get('over', 'inputs').split(), 'text': p['for']},
             'why_tests_cant': p['why'],
             'anchors': {'files': p['files'].split(), 'mechanism': mech}}
        for fn in d['anchors']['files']:
            assert os.path.exists('/repo/' + fn), fn
        f.write(json.dumps(d) + '\n')
        if 'na' in p:
            na.append({'property': p['id'], 'reason': p['na']})
        else:
            assert any(x.startswith(p['id']) for x in os.listdir(base + '/harness')), p['id']
            checks.append({'property': p['id'], 'quick_cmd': './check %s quick' % p['id'],
                           'thorough_cmd': './check %s thorough' % p['id'],
                           'technique': p.get('tech', TECH), 'level': 'model_checking',
                           'level_note': p['note']})
m = {'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo are needed: the encoder works on the IR of unmodified headers. Bounds per harness are in harness/*.cc (BOUNDS:) and in the evidence.'}
json.dump(m, open(base + '/MANIFEST.json', 'w'), indent=1)
print(len(props), 'properties', len(checks), 'checks', len(na), 'n/a')

# DESIGN.md
import glob, re
how = dict(l.rstrip('\n').split(': ', 1) for l in open(base + '/tools/how.txt') if l.strip())
d = open(base + '/tools/design_head.md').read()
d += '## 5. The properties and how each is decided\n\n'
for p in props:
    d += '### %s - %s\n\n%s\n\n' % (p['id'], p['title'], p['statement'])
    if 'na' in p:
        d += 'Not applicable: %s\n\n' % p['na']
        continue
    hs = sorted(glob.glob(base + '/harness/%s.cc' % p['id']) + glob.glob(base + '/harness/%s_*.cc' % p['id']))
    n = sum(len(re.findall(r'^\s*H\(', open(h).read(), re.M)) for h in hs)
    t = sum(len(re.findall(r'void ht_\w+\(\)', open(h).read())) for h in hs)
    bd = []
    for h in hs:
        for l in open(h):
            m = re.match(r'// BOUNDS: (.*)', l)
            if m and m.group(1) not in bd:
                bd.append(m.group(1))
    d += '*How:* %s\n\n' % how[p['id']]
    d += '*Quantifier:* %s. *Bounds:* %s. *Not modelled:* %s.\n\n' % (p['for'], '; '.join(bd), p['note'])
    d += '*Why tests cannot settle it:* %s. *Anchors:* %s. *Harness:* %s%s.\n\n' % (
        p['why'], ', '.join(p['files'].split()), ', '.join('harness/' + os.path.basename(h) for h in hs), (' (%d harnesses%s)' % (n, ', %d more thorough' % t if t else '')) if n else '')
c = base + '/tools/catches.txt'
if os.path.exists(c):
    d += '## 6. Planted bugs and which checks catch them\n\n| bug | property | what it needs to show | caught by the quick check |\n|---|---|---|---|\n'
    for l in open(c):
        i, r = l.rstrip('\n').split('\t', 1)
        f = base + '/seeded/%s/meta.json' % i
        if os.path.exists(f):
            m = json.load(open(f))
            d += '| %s | %s | %s | %s |\n' % (i, m['property'], m['needs'], r)
open(base + '/DESIGN.md', 'w').write(d)
