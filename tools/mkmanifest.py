#!/usr/bin/env python3
import json, sys, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
import specs
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
NA = getattr(specs, 'NOT_APPLICABLE', {})
m = dict(version=1, setup_cmd='make -C engine B=/verif/build', checks=[], not_applicable=[])
for p in props:
    i = p['id']
    if i in specs.PROPS:
        s = specs.PROPS[i]
        m['checks'].append(dict(property=i, quick_cmd='python3 check.py %s quick' % i, thorough_cmd='python3 check.py %s thorough' % i,
            technique=s.get('technique', 'symbolic execution of the real code (LLVM IR) with Z3 deciding every branch and assertion'), level='model_checking',
            level_note='Exhaustive over all inputs within the bounds: %s. Outside: %s. Trusted: clang -O1 lowering, the symx engine (sampled path models are replayed natively and compared), Z3, and the environment models in /verif/rt and /verif/shim.%s' % (s['bounds'], s.get('outside', '-'), (' Assumes: ' + '; '.join(s['assumptions'])) if s.get('assumptions') else '')))
    else: m['not_applicable'].append(dict(property=i, reason=NA.get(i, 'no check built yet')))
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(m['checks']), 'checks,', len(m['not_applicable']), 'not applicable')
