"""Compares what the specification shows with what the real code shows, block by block."""
import math, random, json, re
import nc, run
from collections import Counter
from nc import SCALE

UNDEF = object()
def term_value(term):
    """length, or UNDEF where the words describe no circle (end point off the circle, chord longer than the diameter)"""
    t = 0.
    for q in term:
        op, a = q['op'], q['a']
        if op == 'arcc':
            f = [x / SCALE for x in a]; x0, y0, x1, y1, i, j = f[:6]
            if a[7]: x0, x1, i = x0 / 2, x1 / 2, i / 2
            r = math.hypot(i, j); cx, cy = x0 + i, y0 + j
            if r > 0:
                if abs(math.hypot(x1 - cx, y1 - cy) - r) > 1e-7 * max(r, 1e-3): return UNDEF
                d = math.hypot(x1 - x0, y1 - y0)
                if d != 0 and (d < 1e-3 * r or abs(d - 2 * r) < 1e-6 * r and abs(d - 2 * r) > 1e-11 * r): return UNDEF
            elif (x0, y0) != (x1, y1): return UNDEF
        if op == 'arcr':
            f = [x / SCALE for x in a]; x0, y0, x1, y1, r = f[:5]
            if a[5]: x0, x1 = x0 / 2, x1 / 2
            d = math.hypot(x1 - x0, y1 - y0)
            if r == 0 or d > 2 * abs(r) * (1 + 1e-12): return UNDEF
            if d != 0 and d < 1e-3 * abs(r): return UNDEF
            if d > 2 * abs(r) * (1 - 1e-9): return UNDEF if d != 2 * abs(r) else t + math.pi * abs(r)
        t += nc.part(q)
    return t

def term_tol(term):
    """half circles are badly conditioned: both sides round"""
    tol = 0.
    for q in term:
        op, a = q['op'], q['a']
        if op in ('arcc', 'arcr'):
            f = [x / SCALE for x in a]; h = a[7] if op == 'arcc' else a[5]
            d = math.hypot((f[2] - f[0]) / (2 if h else 1), f[3] - f[1])
            r = abs(f[4]) if op == 'arcr' else math.hypot(f[4] / (2 if h else 1), f[5])
            tol += r * (2e-5 if d > 1.999 * r else 1e-6)
    return tol

def compare(prog, exp, obs, fields):
    """-> (index, [differences]) of the first block where they differ, or None, and how many blocks agreed"""
    cfg, blocks = prog
    last = dict(ptotal=0., ttotal=0., pos=None)
    tp, tt, ta, tb = {}, {}, {}, {}         # per tool: expected path and time
    lost = set()            # tools whose totals are undefined
    for k, e in enumerate(exp):
        o = obs[k] if k < len(obs) else dict(crash='the parser stopped')
        if 'crash' in o: return (k, [('crash', o['crash'])]), k
        w, f = term_value(e['w']), term_value(e['f'])
        d = []
        if 'ok' in fields and e['ok'] != o['ok']: d.append(('accepted', e['ok'], e['err'], o['ok'], o['msg']))
        if 'names' in fields and e['names'] and not o['ok'] and not e['ok'] and not any(re.search(r'(?<![A-Za-z0-9])%s(?![A-Za-z0-9.])' % re.escape(x), o['msg']) for x in e['names']):
            d.append(('what the message names', e['names'], o['msg']))
        dp, dt = o['ptotal'] - last['ptotal'], o['ttotal'] - last['ttotal']
        tool = e['tool']
        if 'path' in fields:        # whatever the words: numbers that never go down
            odd = [o[x] for x in ('ptotal', 'ttotal', 'ptool', 'ttool', 'pwork', 'pfast', 'twork', 'tfast') if not (0 <= o[x] < 1e300)]
            if not cfg.p['zval'] and (odd or dp < -1e-9 * o['ptotal'] or dt < -1e-9 * o['ttotal']): return (k, [('path and time', dict(path=o['ptotal'], time=o['ttotal'], before=last, odd=odd))]), k
        scale = max(1., abs(o['ptotal'])) ; tscale = max(1., abs(o['ttotal']))
        if w is UNDEF or f is UNDEF:
            lost.add(tool)
        else:
            tol = term_tol(e['w']) + 2e-8 * scale
            wt = nc.work_time(w, e['rate']) if w > 0 else 0.; ft = 60 * f / cfg.p['maxff'] if f > 0 else 0.
            ttol = 2e-8 * tscale + (term_tol(e['w']) / w * 2 * wt if w > 0 else 0.)
            if 'path' in fields and abs(dp - (w + f)) > tol: d.append(('path of the block', w + f, dp, e['w'], e['f']))
            want_t = wt + ft + e['wait'] / SCALE
            if 'time' in fields and abs(dt - want_t) > ttol:
                d.append(('time of the block', want_t, dt, dict(cut=w, rapid=f, rate=e['rate'], wait=e['wait'])))
            if 'kind' in fields and w + f > 0 and o['ok'] and (abs(o['pwork'] - w) > tol or abs(o['pfast'] - f) > tol):
                d.append(('cutting and rapid path of the block', w, f, o['pwork'], o['pfast']))
            tp[tool] = tp.get(tool, 0) + w + f; tt[tool] = tt.get(tool, 0) + wt + ft
            ta[tool] = ta.get(tool, 0) + tol; tb[tool] = tb.get(tool, 0) + ttol
        last['ptotal'], last['ttotal'] = o['ptotal'], o['ttotal']
        if 'tool' in fields:
            if tool != o['tool']: d.append(('tool', tool, o['tool']))
            elif tool not in lost:
                if abs(tp.get(tool, 0) - o['ptool']) > ta.get(tool, 0) + 2e-8 * max(1, o['ptool']): d.append(('path of the tool', tool, tp.get(tool, 0), o['ptool']))
                if abs(tt.get(tool, 0) - o['ttool']) > tb.get(tool, 0) + 2e-8 * max(1, o['ttool']): d.append(('time of the tool', tool, tt.get(tool, 0), o['ttool']))
        if 'units' in fields and e['units'] != o['units']: d.append(('units', e['units'], o['units']))
        if 'pos' in fields:
            for a in e['pos']:
                if a in 'QLPU': continue
                if a not in o['pos'] or abs(e['pos'][a] / SCALE - o['pos'][a]) > 1e-6 * max(1, abs(o['pos'][a])):
                    d.append(('position', a, e['pos'][a] / SCALE, o['pos'].get(a)))
        if 'vars' in fields and 'vars' in o:
            ev = {i: v / SCALE for i, v in e['env']}
            for i in sorted(set(ev) | set(o['vars'])):
                if i in (3101, 3102):
                    want = math.pi if i == 3101 else math.e
                    if i not in o['vars'] or abs(o['vars'][i] - (ev[i] if abs(ev[i] - want) > 1e-4 else want)) > 1e-9: d.append(('variable', i, want, o['vars'].get(i)))
                elif i not in ev or i not in o['vars'] or abs(ev[i] - o['vars'][i]) > 1e-9 * max(1, abs(ev[i])):
                    d.append(('variable', i, ev.get(i), o['vars'].get(i)))
        if d: return (k, d), k
    return None, len(exp)

def conform(chk, programs, fields, texts=None, rng=None, label='random programs', stop=20):
    """runs the programs on both sides; reports the first difference of each"""
    rng = rng or chk.rng
    if texts is None: texts = [[nc.block_text(b, rng) for b in bl] for c, bl in programs]
    exp, r = run.expect(programs); chk.tlc(r)
    return judge(chk, programs, texts, exp, fields, label)

def judge(chk, programs, texts, exp, fields, label):
    obs = run.observe(programs, texts, 'vars' in fields)
    steps = 0; errs = Counter(); ops = Counter()
    for p, t, e, o in zip(programs, texts, exp, obs):
        bad, n = compare(p, e, o, fields); steps += n
        for x in e:
            errs[x['err'] or 'accepted'] += 1
            for q in x['w'] + x['f']: ops[q['op']] += 1
        if bad:
            k, d = bad
            chk.violation('%s: block %d "%s": %s' % (label, k + 1, t[k], d),
                          dict(settings=p[0].settings(), lines=t[:k + 1], differences=[list(map(str, x)) for x in d],
                               how='parse the lines one by one with these settings; the last one differs from the specification'))
    chk.traces(len(programs))
    chk.extra.setdefault('steps_compared', 0); chk.extra['steps_compared'] += steps
    x = chk.extra.setdefault('verdicts', {})
    for a, b in errs.items(): x[a] = x.get(a, 0) + b
    x = chk.extra.setdefault('motion_parts', {})
    for a, b in ops.items(): x[a] = x.get(a, 0) + b
    if programs: chk.sample(dict(label=label, lines=texts[0][:8], expected=[dict(ok=y['ok'], err=y['err']) for y in exp[0][:8]]))
    return steps

# ------------------------------------------------------------ transition tours
def explore(chk, cases, procs=8):
    """cases: [(Config, alphabet, depth)] -> per case the edges [(src, symbol, dst, show)], src of the start is ''"""
    import tempfile, os
    from concurrent.futures import ThreadPoolExecutor
    def one(part):
        d = tempfile.mkdtemp(prefix='t', dir=run.work())
        json.dump(dict(cases=[dict(c=c.spec(), alphabet=[[nc.slim(w) for w in b] for b in al], depth=dp) for i, (c, al, dp) in part]),
                  open(d + '/in.json', 'w'))
        r = run.tlc('NCTour', env=dict(NC_IN=d + '/in.json'), workers=1, heap='2g')
        return part, r
    parts = [[] for _ in range(min(procs, len(cases)))]
    for i, c in enumerate(cases): parts[i % len(parts)].append((i, c))
    edges = {i: [] for i in range(len(cases))}
    run.work()
    with ThreadPoolExecutor(len(parts)) as ex:
        for part, r in ex.map(one, parts):
            chk.tlc(r)
            node = {}
            for l in r['out'].split('\n'):
                if l.startswith('"EDGE '):
                    e = json.loads(json.loads(l)[5:])
                    i = part[e['n'] - 1][0]; node.setdefault((i, e['t']), None)
                    h = tuple(e['h'])
                    edges[i].append((h[:-1], h[-1] - 1 if h else None, e['t'], e['o'], h))
    res = []
    for i in range(len(cases)):
        # a state is named by the first history that reached it
        name = {}; out = []
        for src, a, t, o, h in edges[i]: name.setdefault(t, h)
        for src, a, t, o, h in edges[i]:
            if h: out.append((src, a, name[t], o))
        res.append(out)
    return res

def tours(edges, length=60):
    """walks from the start that cover every edge: lists of edge numbers"""
    out = {}
    for i, (s, a, t, o) in enumerate(edges): out.setdefault(s, []).append(i)
    todo = {s: list(reversed(x)) for s, x in out.items()}; left = len(edges); walks = []
    def path_to_open(s, limit):
        seen = {s}; q = [(s, ())]
        for s2, p in q:
            if todo.get(s2): return p
            if len(p) >= limit: continue
            for i in out.get(s2, ()):
                t = edges[i][2]
                if t not in seen: seen.add(t); q.append((t, p + (i,)))
        return None
    while left:
        s = (); w = []
        while True:
            if todo.get(s):
                i = todo[s].pop(); left -= 1; w.append(i); s = edges[i][2]
            else:
                p = path_to_open(s, 4 if w else 99)
                if p is None: break
                w += p; 
                for i in p: s = edges[i][2]
            if len(w) >= length: break
        walks.append(w)
        if not w: break
    return walks

def tour(chk, cases, fields, label='tour', length=60):
    for (c, al, dp), ed in zip(cases, explore(chk, cases)):
        ws = tours(ed, length)
        programs = [(c, [al[ed[i][1]] for i in w]) for w in ws]
        exp = [[ed[i][3] for i in w] for w in ws]
        texts = [[nc.block_text(b) for b in bl] for _, bl in programs]
        chk.extra['edges_covered'] = chk.extra.get('edges_covered', 0) + len(ed)
        judge(chk, programs, texts, exp, fields, label)
