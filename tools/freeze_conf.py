#!/usr/bin/env python3
"""Writes the tables of the controls (conf/*) as data of the specification. Run once; the result is committed."""
import json, os
OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec', 'data')
D = sorted(d for d in os.listdir('/repo/conf') if os.path.isdir('/repo/conf/' + d))
def groups(f):
    r = {}
    for name, arr in json.load(open(f))['groups'].items():
        for x in arr:
            k = str(x['code']) + ('.%d' % x['rest'] if x['rest'] else '')
            r.setdefault(k, [])
            if name not in r[k]: r[k].append(name)
    return r
for d in D:
    g = json.load(open('/repo/conf/%s/grammar.json' % d))
    t = {u: {w: dict(rf=v['range_from'], rt=v['range_to'], df=v['decimal_from'], dt=v['decimal_to'], uq=v['unique'], type=v['type'])
             for w, v in g[u].items()} for u in ('metric', 'imperial')}
    t['gg'] = groups('/repo/conf/%s/gcode_groups.json' % d); t['mg'] = groups('/repo/conf/%s/mcode_groups.json' % d)
    json.dump(t, open('%s/%s.json' % (OUT, d), 'w'), sort_keys=True, separators=(',', ':'))
