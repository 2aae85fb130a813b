#!/usr/bin/env python3
"""DESIGN.md from its prose, specs.py, properties.jsonl, seeded/ and KNOWN_FINDINGS.txt"""
import json, os, sys, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
import specs
COST = json.load(open(V + '/tools/cost.json')) if os.path.exists(V + '/tools/cost.json') else {}
ev = {}
for f in glob.glob(V + '/evidence/*.json'):
    d = json.load(open(f))
    if d.get('tier') == 'quick': ev[d['property']] = d
for k, d in ev.items(): COST[k] = dict(wall=round(d['wall_s']), paths=d['coverage'].get('states'))
json.dump(COST, open(V + '/tools/cost.json', 'w'), indent=0, sort_keys=True)
out = open(V + '/tools/design_head.md').read() + '\n'
HOW = json.load(open(V + '/tools/how.json'))
for l in open(V + '/properties.jsonl'):
    p = json.loads(l); i = p['id']; out += '### %s %s\n\n' % (i, p['title'])
    if i not in specs.PROPS: out += 'Not applicable: %s.\n\n' % specs.NOT_APPLICABLE[i]; continue
    s = specs.PROPS[i]; hs = sorted({'`%s`' % j.harness for j in s['jobs']}); c = COST.get(i, {})
    out += '%s\n\n- Harness: %s; %d quick jobs, %d more in thorough; quick run about %s s, %s paths.\n- Bounds: %s.\n- Outside: %s.\n\n' % (HOW.get(i, ''), ', '.join(hs), sum(j.tier == 'q' for j in s['jobs']), sum(j.tier == 't' for j in s['jobs']), c.get('wall', '?'), c.get('paths', '?'), s['bounds'], s.get('outside', '-'))
out += '## 4. Planted bugs and the checks that catch them\n\nEach lies in seeded/<id>/ with a demonstration; it passes the repository\'s tests.\n\n| bug | property | what it needs to show | quick check |\n|---|---|---|---|\n'
res = json.load(open(V + '/tools/seed_results.json')) if os.path.exists(V + '/tools/seed_results.json') else {}
for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
    n = f.split('/')[-2]; m = json.load(open(f)); out += '| %s | %s | %s | %s |\n' % (n, m['property'], m['needs'].replace('|', '/'), res.get(n, '?'))
fx = ''.join('* %s\n' % l.strip()[7:] for l in open(V + '/KNOWN_FINDINGS.txt') if l.startswith('fixed:'))
out += '\n' + open(V + '/tools/design_tail.md').read().replace('FIXES', fx.strip())
open(V + '/DESIGN.md', 'w').write(out); print(len(out))
