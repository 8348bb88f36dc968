"""L01, L02: the library through its flat interface. NCLibrary says what each request does to a parser that is kept."""
import json, math, os, re, tempfile
import nc, run, gen, progs, texts, conform
from nc import num, code, var, none, define, string, SCALE, Config
from progs import X, Y, Z, W, G, M, S, T, FREE, SPIN

FLAGS = ('macro', 'groups', 'calc', 'anal', 'zero')
ON = dict(macro=True, groups=True, anal=True, zero=True)
def parse(b): return dict(op='parse', b=b, l=0)
def switch(**off): return dict(op='switch', sw={k: off.get(k, True) for k in ON}, calc=off.get('calc', True))
def settings(i): return dict(op='settings', c=i)
RESET, FORGET = dict(op='reset'), dict(op='forget')

def bits(q): return ''.join('1' if (q['calc'] if f == 'calc' else q['sw'][f]) else '0' for f in FLAGS)
def fill(q): return dict(dict(b=[], l=0, sw=ON, calc=True, c=1), **{k: ([nc.slim(w) for w in v] if k == 'b' else v) for k, v in q.items()})

def obs(line):
    f = line.split('\t'); o = run.parse_obs(line)
    if 'crash' in o or len(f) < 16: return dict(crash=line)
    o['rg'] = {x.split('=')[0]: tuple(map(float, x.split('=')[1].split(','))) for x in f[13].split(';') if '=' in x}
    o['same'] = f[14] == '1'; o['words'] = run.unesc(f[15]).replace('\x1f', '')
    return o

def near(a, b): return abs(a - b) <= 1e-6 * max(1, abs(a))
def num_of(i, v): return (math.pi if i == 3101 else math.e) if i in (3101, 3102) and abs(v / SCALE - (math.pi if i == 3101 else math.e)) < 1e-4 else v / SCALE

def check_session(chk, cfgs, first, bare, qs, exp, hist, rng, label):
    """-> (command lines, judge: answers -> None)"""
    on = bits(switch(calc=cfgs[first - 1].p['calc']))
    cmds = ['bare\t%s\t%s' % (cfgs[first - 1].p['driver'], on) if bare else 'new\t%s\t%s' % (run.settings_file(cfgs[first - 1]), on)]; show = []
    lns = {q['l'] for q in qs if q['op'] == 'parse'}
    for q in qs:
        if q['op'] == 'parse':
            t = nc.block_text(q['b'], rng); show.append(t)
            cmds.append('%s\t%d\t%s' % ('judge' if rng and rng.random() < .1 else 'parse', q['l'], run.esc(t)))
        else:
            cmds.append(dict(reset='reset', forget='resetvars', settings='', switch='')[q['op']] or
                        ('settings\t' + run.settings_file(cfgs[q['c'] - 1]) if q['op'] == 'settings' else 'flags\t' + bits(q)))
            show.append('<' + cmds[-1] + '>'); cmds.append('state')
    cmds.append('vars'); ask = sorted(rng.sample(sorted(lns), min(3, len(lns)))) if rng else sorted(lns)[:2]
    cmds += ['linevars\t%d' % l for l in ask + [99999]]
    def judge(a):
        def bad(k, what):
            chk.violation('%s: request %d %s: %s' % (label, k + 1, show[k], what),
                          dict(settings=[cfgs[first - 1].settings()] + [cfgs[q['c'] - 1].settings() for q in qs if q['op'] == 'settings'], requests=show[:k + 1],
                               how='give a parser made through the flat interface these requests; the last answer differs from the specification'))
        p = 1; seg = [[], [], [], []]; cfg = cfgs[first - 1]; last = None; known = not bare
        def flush():
            if not seg[0]: return True
            x, n = conform.compare((cfg, seg[0]), seg[1], seg[2], {'ok', 'names', 'path', 'time', 'kind', 'tool', 'units', 'pos'} if known else {'ok', 'names', 'units'})
            chk.extra['blocks'] = chk.extra.get('blocks', 0) + n
            if x: bad(seg[3][x[0]], x[1]); return False
            for y in seg: y.clear()
            return True
        for k, (q, e) in enumerate(zip(qs, exp)):
            if q['op'] != 'parse':
                p += 1
                if q['op'] in ('reset', 'settings'):
                    if not flush(): return
                    if q['op'] == 'settings': cfg = cfgs[q['c'] - 1]; known = True
            o = obs(a[p]) if p < len(a) else dict(crash='the parser stopped'); p += 1
            if 'crash' in o: flush(); return bad(k, 'gives ' + o['crash'])
            if q['op'] == 'parse':
                seg[0].append(q['b']); seg[1].append(e['s']); seg[2].append(o); seg[3].append(k)
                if o['ok'] and o['words'] and o['words'] != texts.squeeze(nc.block_text(q['b'])) and o['words'] != texts.squeeze(show[k]):
                    return bad(k, 'its words are %s' % o['words'])
                if e['s']['ok'] and q['b'] and cmds[p - 1].startswith('parse') and not o['words']: return bad(k, 'it has no words')
            else:
                tot = [o[x] for x in ('ptotal', 'ttotal', 'ptool', 'ttool')]
                if q['op'] in ('reset', 'settings') and any(tot): return bad(k, 'the totals are %s' % tot)
                if q['op'] not in ('reset', 'settings') and last and tot != last: return bad(k, 'the totals go from %s to %s' % (last, tot))
                if o['tool'] != e['tool'] or o['units'] != e['units']: return bad(k, 'tool and units %s' % [e['tool'], o['tool'], e['units'], o['units']])
                if not last or q['op'] in ('reset', 'settings'): pass
            if e['bare'] and (o['pos'] or o['tool'] or any(o[x] for x in ('ptotal', 'ttotal', 'ptool', 'ttool', 'pwork', 'pfast', 'twork', 'tfast'))):
                return flush() and bad(k, 'something moves without a machine')
            last = [o[x] for x in ('ptotal', 'ttotal', 'ptool', 'ttool')]
            if not o['same']: return flush() and bad(k, 'path and time are of different tools')
            for w in set(e['rg']) | set(o['rg']):
                if w in 'QLPU': continue
                if w not in e['rg'] or w not in o['rg']: return flush() and bad(k, 'the words with a range %s %s' % (sorted(e['rg']), sorted(o['rg'])))
                lo, hi = e['rg'][w]; at = e['pos'][w] / SCALE
                if not (near(lo / SCALE, o['rg'][w][0]) and near(hi / SCALE, o['rg'][w][1]) and near(at, o['pos'][w])):
                    return flush() and bad(k, 'range of %s: %s at %s instead of %s at %s' % (w, o['rg'][w], o['pos'][w], (lo / SCALE, hi / SCALE), at))
        if not flush(): return
        K = len(qs) - 1
        def vs(l): return {(int(m.group(1)), int(m.group(2))): float(m.group(3)) for m in re.finditer(r'(\d+)@(-?\d+)=([^;]*);', l)}
        if p >= len(a): return bad(K, 'the parser stopped')
        want = {(i, l): num_of(i, v) for i, l, v in hist}
        for name, got, w in [('variables', vs(a[p]), want)] + [('variables of line %d' % l, vs(a[p + 1 + j]) if p + 1 + j < len(a) else None, {x: v for x, v in want.items() if x[1] == l}) for j, l in enumerate(ask + [99999])]:
            if got is None: return bad(K, 'the parser stopped')
            if set(got) != set(w) or any(abs(got[x] - w[x]) > 1e-9 * max(1, abs(w[x])) for x in w):
                d = [(x, w.get(x), got.get(x)) for x in sorted(set(got) | set(w)) if got.get(x) is None or w.get(x) is None or abs(got[x] - w[x]) > 1e-9 * max(1, abs(w[x]))]
                return bad(K, 'then %s: (variable, line), expected, given %s' % (name, d[:6]))
    return cmds, judge

def replay(chk, items, label, rng=None):
    """items: (cfgs, first, without settings, requests, expected, variables)"""
    run.HARNESS = 'vl'
    js = [check_session(chk, *x, rng, label) for x in items]
    for (c, j), a in zip(js, run.vh([c for c, j in js])):
        if a and a[0] != 'ok': chk.violation('%s: no parser: %s' % (label, a[0]), dict()); break
        j(a)
        if len(chk.violations) > 10: break
    if not chk.violations: given_back(chk, [c for c, j in js][:100], label)
    chk.traces(len(items))
    x = chk.extra.setdefault('requests', {})
    for cf, f, bare, qs, e, h in items:
        for q in qs: x[q['op']] = x.get(q['op'], 0) + 1
    if items: chk.sample(dict(label=label, requests=[q['op'] if q['op'] != 'parse' else nc.block_text(q['b']) for q in items[-1][3]][:12]))

def given_back(chk, groups, label):
    """all that a parser and its answers take is given back: the same session a second time leaves what the first left"""
    for g, a in zip(groups, run.vh([g + ['heap'] + g + ['heap'] for g in groups])):
        if len(a) < 2 * len(g) + 2: chk.violation('%s: the parser stopped at %s' % (label, (g + ['heap'] + g + ['heap'])[len(a)][:200]), dict(requests=g)); return
        d = int(a[-1]) - int(a[len(g)])
        if d: chk.violation('%s: %d bytes are not given back by %s' % (label, d, [x[:60] for x in g[:12]]), dict(requests=g)); return
    chk.traces(len(groups)); chk.extra['sessions_given_back'] = chk.extra.get('sessions_given_back', 0) + len(groups)

def sessions(chk, cfgs, scripts, label):
    """scripts: (first configuration, without settings, requests)"""
    d = tempfile.mkdtemp(prefix='l', dir=run.work()); os.makedirs(d + '/out')
    json.dump(dict(configs=[c.spec() for c in cfgs], scripts=[dict(c=f, bare=bare, q=[fill(q) for q in qs]) for f, bare, qs in scripts]), open(d + '/in.json', 'w'))
    r = run.tlc('NCLibScript', env=dict(NC_IN=d + '/in.json', NC_OUT=d + '/out')); chk.tlc(r); items = []
    for i, (f, bare, qs) in enumerate(scripts):
        e = json.load(open('%s/out/%d.json' % (d, i + 1))); items.append((cfgs, f, bare, qs, e['o'], e['hist']))
    replay(chk, items, label, chk.rng)

def tour(chk, cfgs, cases, label):
    """cases: (first, without settings, alphabet, depth)"""
    d = tempfile.mkdtemp(prefix='l', dir=run.work())
    json.dump(dict(configs=[c.spec() for c in cfgs], cases=[dict(c=f, bare=bare, alphabet=[fill(q) for q in al], depth=dp) for f, bare, al, dp in cases]), open(d + '/in.json', 'w'))
    r = run.tlc('NCLibTour', env=dict(NC_IN=d + '/in.json'), heap='8g'); chk.tlc(r)
    E = {}; name = {}
    for l in r['out'].split('\n'):
        if l.startswith('"EDGE '):
            e = json.loads(json.loads(l)[5:]); h = tuple(e['h']); E.setdefault(e['n'] - 1, []).append((h, e['t'], e['o'], e.get('hist')))
            name.setdefault((e['n'] - 1, e['t']), h)
    items = []
    for n, es in E.items():
        edges = [(h[:-1], h[-1] - 1, name[n, t], (o, hi)) for h, t, o, hi in es if h]
        first, bare, al, dp = cases[n]
        for w in conform.tours(edges, 99):
            items.append((cfgs, first, bare, [dict(al[edges[i][1]], l=k + 1) for k, i in enumerate(w)], [edges[i][3][0] for i in w], edges[w[-1]][3][1]))
        chk.extra['edges_covered'] = chk.extra.get('edges_covered', 0) + len(edges)
    replay(chk, items, label)

def L01(chk):
    r = chk.rng; full = chk.full()
    a = Config(axes=FREE); b = Config(axes={'X': (-200000, 200000), 'Y': (-300000, 300000), 'Z': (-100000, 6000000)}, prog=91, motion=1, plane=18, maxf=500, maxs=900, maxt=5, maxff=5000,
                                     zero={'X': 20000, 'Y': 0, 'Z': -50000}, base={'X': 10000, 'Y': 0, 'Z': 5000000, 'I': 0, 'J': 0, 'K': 0})
    c = Config(driver='haas_lathe', axes=FREE, units='in', operator=True, rot=700, tnum=True)
    al = [parse(x) for x in (G(0) + [X(10), Z(-3)], G(1) + [X(-7), Y(25), W('F', 600)], SPIN, [T(2), M(6)], [define(100, [num('=', 12 * SCALE)])], [var('X', 100)], G(91), G(1, 0) + [Y(2)], [code('H', 3), none('X')], G(20), G(81) + [Z(-5), W('R', 1)], [T(7), M(6)])]
    al += [RESET, FORGET, settings(1), settings(2), switch(), switch(calc=False), switch(macro=False), switch(groups=False, zero=False), switch(anal=False)]
    pick = lambda n: [al[i] for i in sorted(r.sample(range(len(al)), n))]
    N = False; cases = [(1, N, al, 3), (2, N, pick(12), 3), (3, N, pick(12), 3), (1, True, al, 2), (3, True, pick(10), 3)] if not full else [(1, N, al, 3), (2, N, al, 3), (3, N, al, 3), (1, N, pick(11), 4), (2, N, pick(11), 4), (1, True, al, 3), (3, True, al, 3)]
    tour(chk, [a, b, c], cases, 'L01 tour')
    if chk.violations: return
    # all that a reset must forget: every sequence, also those that come to the same state
    import itertools
    seqs = [x for x in itertools.product([parse([T(2), M(6)]), parse([T(7), M(6)]), parse(G(1) + [X(-7), Y(25), W('F', 600)]), parse([W('F', 800), X(3)]), RESET], repeat=5) if RESET in x[1:4] and x[4] != RESET and x[0] != RESET]
    sessions(chk, [a], [(1, False, [dict(q, l=k + 1) for k, q in enumerate(x)]) for x in (seqs if full else r.sample(seqs, 500))], 'L01 reset')
    if chk.violations: return
    # whatever a block leaves behind, and whatever shows it
    d = Config(axes=FREE, autorapid=True, tnum=True, g80rapid=True); e = Config(driver='haas_lathe', axes=FREE, autorapid=True, operator=True, rot=300)
    left = [parse(x) for x in ([T(3)], [T(3), M(6)], G(1) + [X(4), W('F', 600)], G(2) + [X(5), Y(5), W('R', 5)], [W('F', 900)], SPIN, G(18), G(91), G(99), G(98), G(81) + [Z(-5), W('R', 1), W('F', 200)],
                                       G(83) + [Z(-9), W('R', 2), W('Q', 3), W('F', 300)], G(28) + [X(0)], G(96) + [S(90)], G(95), G(0) + [X(33), Y(7), Z(9)])]
    show = [parse(x) for x in (G(1) + [X(-7), Y(25), W('F', 500)], [X(6), Z(2)], G(81) + [Z(-4), W('R', 3), W('F', 100)], G(81) + [X(2)], G(83) + [Z(-2), W('R', 1)], G(2) + [X(3), Z(3), W('R', 9)], [T(5), M(6)], G(28) + [Y(0)])]
    seqs = [(x, RESET, y, z) for x in left for y in show for z in show] + [(x, w, RESET, y, z) for x in left for w in left for y in show[:3] for z in show[:3]]
    for c0, lab in ((d, 'a mill'), (e, 'a lathe')):
        sessions(chk, [c0], [(1, False, [dict(q, l=k + 1) for k, q in enumerate(x)]) for x in (seqs if full else r.sample(seqs, 500))], 'L01 reset of ' + lab)
        if chk.violations: return
    if chk.violations: return
    w = dict(line=5, arc=2, helix=.5, drill=2, tool=1.2, modes=1, home=.5, dwell=.3, other=.5, optional=.3, empty=.2, reject=.7, units=.3, outside=.03, mode=.15, number=.2)
    for _ in range(12 if full else 2):
        cfgs = []; scripts = []
        for _ in range(110):
            c = progs.rcfg(r); i = len(cfgs) + 1; cfgs.append(c)
            k = r.randint(6, 20); parts = [c]
            if r.random() < .6:
                c2 = progs.rcfg(r, driver=c.p['driver']); cfgs.append(c2); parts.append(c2)
            blocks = []
            qs = []; line = 0; now = 0
            for n in range(r.randint(1, 4)):
                bl = gen.Gen(r, parts[now], w, start=True).program(r.randint(3, 16)); bl, vs = with_vars(r, bl)
                for x in bl:
                    line += r.choice([1, 1, 1, 2, 5]); qs.append(dict(parse(x), l=line))
                    if r.random() < .06: qs.append(switch(**{f: r.random() < .75 for f in FLAGS}))
                    if r.random() < .02: qs.append(r.choice([RESET, FORGET]))
                x = r.random()
                if x < .5: qs.append(RESET)
                if x < .35 or .6 < x < .7:
                    qs.append(FORGET); line = 0
                if len(parts) > 1 and r.random() < .5: now = 1 - now; qs.append(settings(i + now))
                if r.random() < .3: qs.append(switch())
            scripts.append((i, r.random() < .12, qs))
        sessions(chk, cfgs, scripts, 'L01 session')
        if chk.violations: return

def with_vars(r, bl):
    """some numbers through variables"""
    out = []; known = {}
    for b in bl:
        if r.random() < .12:
            n = r.choice([1, 33, 100, 101, 500]); v = r.randint(-300, 300) * r.choice([SCALE, 1000]); out.append([define(n, [num('=', v)])]); known[n] = v
        if r.random() < .05 and known:
            n = r.choice(sorted(known)); out.append([define(102, [var('=', n), num('+', 2 * SCALE)])]); known[102] = 1
        if known and r.random() < .25 and b and not any(w['k'] == 'str' for w in b):
            i = r.randrange(len(b))
            if b[i]['k'] == 'num' and b[i]['a'] in 'XYZF': b = b[:i] + [var(b[i]['a'], r.choice(sorted(known) + [102, 599]))] + b[i + 1:]
        out.append(b)
    return out, known

# ------------------------------------------------------------------------ L02
def L02(chk):
    r = chk.rng; full = chk.full(); run.HARNESS = 'vl'
    for d in (nc.DRIVERS if full else r.sample(nc.DRIVERS, 2)):
        t = nc.table(d); sc = []
        for u in ('metric', 'imperial'): sc += [texts.rblock(r, t[u], texts.conv_axes(t[u])) for _ in range(2500 if full else 900)]
        out = [(b, o) for b, o in texts.explore(chk, [], 0, sc, ['conv', 'rot', 'rem'], d) if texts.readable(b)]
        for bare in (False, True):
            for u, to in (('mm', 'in'), ('in', 'mm')):
                if bare and u == 'in': continue      # without settings words are metric
                tt = t['metric' if u == 'mm' else 'imperial']; ok = [(b, o) for b, o in out if texts.valid(b, tt)]
                cases = [(b, 'conv\t' + to, o[to], 'conversion to ' + to) for b, o in ok]
                if u == 'mm':
                    for n in range(9): cases += [(b, 'rot\t%d' % n, texts.one(o['rot'][n]), 'rotation %s' % texts.ROT[n]) for b, o in ok if r.random() < (.5 if full else .12)]
                    for cmd, k, w in (('uncom', 'nc', 'removal of comments'), ('unopt', 'nm', 'removal of marks'), ('unnum', 'nn', 'removal of numbers')):
                        cases += [(b, cmd, texts.one(o[k]), w) for b, o in ok if r.random() < .5]
                texts.ask(chk, cases, d, 'L02', u, bare)
                if chk.violations: return
    texts.numbering(chk, 'L02', [], [], 400 if full else 120, 1, bare=True)
    if chk.violations: return
    jobs = texts.split_programs(chk, 'L02', 500 if full else 80)
    if chk.violations: return
    jobs += texts.split_programs(chk, 'L02 without settings', 300 if full else 50, True)
    if not chk.violations: strings(chk, jobs)

def strings(chk, jobs):
    """a file split into texts is the file split into words: a line for each block, blanks between its words"""
    groups = []; t, b = 'bare\t' + nc.DRIVERS[0], 'N1 G1 X2.5 Y-3 (A) F100'
    given_back(chk, [[t] + [k + '\t' + x for k in ('conv\tin', 'rot\t2', 'uncom', 'unopt', 'unnum', 'renum\tN\t1\t1\t99\t0\t0')] for x in (b, b + '$', '', '/' + b)], 'L02')
    for c, lines, ks, w, ret in jobs:
        lim = w['limit']; t = w['type']
        x = '\t'.join([t, str(lim if t == 'blocks' else 0), str(w['whole'] if t == 'time' else 0), str(w['whole'] if t == 'path' else 0), w['find'], '1' if w['rapid'] else '0', ret] + [run.esc(l) for l in lines])
        groups.append([texts.start(c), 'split\t' + x, texts.start(c), 'splits\t' + x])
    given_back(chk, groups[:40] + groups[-20:], 'L02')
    for (c, lines, ks, w, ret), a in zip(jobs, run.vh(groups)):
        rep = dict(settings=None if c.bare else c.settings(), wish=w, retract=ret, lines=lines)
        if c.bare and w['type'] in ('path', 'time') and len(a) == 4:
            if a[1][:1] != '0' or a[3][:1] != '0' or a[3][1:2] != '\t' or len(a[3]) < 3: chk.violation('L02: splitting by %s without a machine is not reported but gives %s' % (w['type'], a[3]), rep)
            continue
        if len(a) < 4 or a[1][:1] != '1': chk.violation('L02: splitting by %s is refused: %s' % (w['type'], a[1:]), rep); continue
        want = [''.join(b.replace('\x1f', ' ') + '\r\n' for b in ([] if p == '\x1d' else p.split('\x1e'))) for p in map(run.unesc, a[1].split('\t')[2:])]
        got = list(map(run.unesc, a[3].split('\t')[2:]))
        if a[3][:1] != '1' or got != want:
            chk.violation('L02: the texts of splitting by %s are %s instead of %s' % (w['type'], got[:3], want[:3]), rep)
    chk.traces(len(jobs))
