"""The checks of the rules a block is judged by (V01-V04) and of the variables (M01, M03)."""
import random
import nc, gen, run, conform, progs
from nc import num, code, raw, none, var, define, string, SCALE, Config, DRIVERS
from progs import thin, rcfg, rotary, random_part, X, Y, Z, W, G, M, S, T, SPIN, FREE

HUGE = {a: (-1000000000, 1000000000) for a in 'XYZ'}
BIG = dict(axes=HUGE, maxf=100000, maxs=99999, maxt=9999, base={'X': 0, 'Y': 0, 'Z': 0, 'I': 0, 'J': 0, 'K': 0}, texp={'X': 0, 'Y': 0, 'Z': 0})
MOTION = {0, 1, 2, 3, 17, 18, 19, 73, 74, 76, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 94, 95, 96, 97, 98, 99, 20, 21}
NOTWORD = {'#', '=', '+', '-', '*', '/', ':'}
TOP = 2147483647

def cap(w):
    if w['ip'] > TOP: w['ip'] = TOP
    if w['fr'] > TOP: w['fr'] = TOP
    return w

def bounds(l, r, n=None):
    """integer parts around the limits of an address, with signs"""
    v = set()
    for x in (l['rf'], l['rt']):
        for d in (-2, -1, 0, 1, 2): v.add(x + d)
        v.add(-x); v.add(x * 10); v.add(x // 2)
    v |= {0, 1, -1, 9, 10, 99, 100, 101, 999, 1000, 1001, 9998, 9999, 10000, 10001, 99999, 100000, -9999, -10000, -10001, -99999, -100000}
    for _ in range(6): v.add(r.randint(l['rf'], l['rt']))
    return sorted(v)

def spellings(a, l, r):
    """words of the address a, most of them at the limits l"""
    out = []
    ok = (abs(l['rt']) + abs(l['rf'])) // 3 or 1
    for v in bounds(l, r):
        out.append(raw(a, '0' * r.choice([0, 0, 1, 3]) + str(abs(v)), neg=v < 0))
    out.append(raw(a, '0', neg=True)); out.append(raw(a, str(ok), neg=True))
    i = lambda: str(r.choice([0, ok, l['rt'], max(l['rf'], 0)]))
    dt = l['dt']; n = len(str(dt))
    fs = {'0', '00', '5', '9', '99', '999', '9999', '99999', str(dt), str(dt + 1), str(dt // 2 + 1), '0' * n + '1', '0' + str(dt), '1' + '0' * n, '000000000001', '12345678', '123456789012', '50'}
    for f in sorted(fs):
        out.append(cap(raw(a, i(), f))); out.append(cap(raw(a, None, f, neg=r.random() < .3)))
    out.append(raw(a, i(), None, dot=True)); out.append(raw(a, None, None, dot=True)); out.append(none(a))
    out.append(cap(raw(a, '99999999999', None)))
    return [w for w in out if not (w['k'] == 'num' and a == 'G' and w['ip'] in MOTION and w['fr'] != 0)]

def word_cases(chk, driver, units, calc, frac=1.):
    """one program per address: every spelling of it as a block"""
    c = Config(driver=driver, units=units, calc=calc, **BIG); t = nc.table(driver)['metric' if units == 'mm' else 'imperial']
    ps = []
    for a in sorted(t):
        if a in NOTWORD - {'/'}: continue
        if a == 'N' or a == ':' : pass
        l = t[a]
        ws = spellings(a, l, chk.rng)
        if a == '/': ws = [none('/')] + [raw('/', str(x)) for x in (0, 1, 2, 5, 8, 9, 10, 11, 99)] + [raw('/', '1', neg=True), raw('/', '1', '5'), raw('/', '3', None, dot=True), raw('/', '01'), raw('/', '00')]
        ws += [nc.odd(a, x) for x in nc.ODD if a != '/' or x != '=1'] + ([nc.var('/', 9)] if a == '/' else [])
        if frac < 1: ws = [w for w in ws if chk.rng.random() < frac]
        bl = []
        for w in ws:
            b = [w]
            x = chk.rng.random()
            if calc and a == 'G': bl.append(G(0, 80) if False else G(0))
            elif x < .3 and a not in ('/',): b = b + [num('P', 10000)] if a != 'P' else b
            elif x < .5 and a not in ('/', 'N'): b = [code('N', 7)] + b
            bl.append(b)
        # numbers given by a variable are judged like numbers (one definition before each)
        ps.append((c, bl))
    return ps

def V01(chk):
    F = {'ok', 'units'}
    # the limits follow the units: all programs over words between the metric and the inch limits
    cases = []
    for d in DRIVERS:
        t = nc.table(d); al = [G(20), G(21), G(20, 17), [code('G', '021')]]
        diff = [a for a in sorted(t['metric']) if a in t['imperial'] and a not in NOTWORD and t['metric'][a] != t['imperial'][a] and
                any(t['metric'][a][k] != t['imperial'][a][k] for k in ('rf', 'rt', 'df', 'dt'))]
        for a in diff:
            m, i = t['metric'][a], t['imperial'][a]
            if m['rt'] != i['rt']: al.append([raw(a, str(min(m['rt'], i['rt']) + 1))]); 
            if m['rf'] != i['rf']: al.append([raw(a, str(abs(max(m['rf'], i['rf']) - 1)), neg=max(m['rf'], i['rf']) <= 0)])
            if m['dt'] != i['dt']: al.append([raw(a, '1', str(min(m['dt'], i['dt']) + 1))])
        al = al[:4] + chk.rng.sample(al[4:], min(len(al) - 4, 8))
        if any(w[0]['a'] == 'X' for w in al[4:]): al.append(G(20) + [raw('X', '20000')])
        if not diff: al.append([raw('X', '5', '12345')])
        for u in ('mm', 'in'): cases.append((Config(driver=d, units=u, calc=u == 'mm' or chk.rng.random() < .5, **BIG), al, 3 if chk.full() else 2))
    conform.tour(chk, cases, F, 'V01 units', length=120)
    # every spelling of every address of every control in both units
    k = 0
    for d in DRIVERS:
        ps = []
        for u in ('mm', 'in'):
            k += 1
            ps += word_cases(chk, d, u, bool(k % 2), 1. if chk.full() else .45)
            if chk.full(): ps += word_cases(chk, d, u, not k % 2)
        conform.conform(chk, ps, F, label='V01 words of %s' % d)
        if chk.violations: return
    # whole blocks, the units changing now and then
    def mk(r): return Config(driver=r.choice(DRIVERS), units=r.choice(['mm', 'in']), calc=r.random() < .3, **BIG)
    ps = []
    for n in range(thin(chk, 60, 2500)):
        c = mk(chk.rng); ps.append((c, mixed(chk.rng, c, 30)))
    conform.conform(chk, ps, F, label='V01 blocks')

def mixed(r, c, n):
    t = nc.table(c.p['driver']); units = c.p['units']; bl = []
    ad = [a for a in sorted(t['metric']) if a not in NOTWORD and a not in ('G', 'GOTO')]
    for _ in range(n):
        g = t['metric' if units == 'mm' else 'imperial']; b = []
        for a in r.sample(ad, r.randint(1, 5)):
            if a not in g: continue
            l = g[a]; x = r.random()
            if x < .05: w = none(a)
            else:
                ip = r.choice([l['rf'], l['rt'], r.randint(l['rf'], l['rt']), r.randint(l['rf'], l['rt'])])
                if r.random() < .06: ip = r.choice([l['rf'] - 1, l['rt'] + 1])
                f = None
                if r.random() < (.5 if l['dt'] else .03): f = str(r.choice([l['dt'], r.randint(l['df'], l['dt']), 1]))
                if r.random() < .04: f = str(l['dt'] + 1)
                w = raw(a, str(abs(ip)), f, neg=ip < 0)
            b.append(w)
        if r.random() < .25:
            q = r.choice([20, 21]); b.insert(r.randint(0, len(b)), code('G', q))
        if not b: continue
        bl.append(b)
    return bl

# ------------------------------------------------------------------------ V02
def spell(r, a, c, frac_zero=True):
    """a code of the tables, spelled in some way"""
    i, _, f = str(c).partition('.')
    z = r.choice(['', '', '0', '00'])
    if not f and frac_zero and a == 'G' and r.random() < .15: return raw(a, z + i, r.choice([None, '0']), dot=True)
    return raw(a, z + i, (r.choice(['', '', '0']) + f if len(f) == 1 else f) or None)

def by_variable(r, w, n):
    """the word given by the variable n, and its definition"""
    m = dict(w); m['a'] = '='; m['ds'] = m['ds'].lstrip('0') or '0'; m['ip'] = int(m['ds'])
    return define(n, [m]), var(w['a'], n)

def tame(w):
    """leaves out words whose motion the specification does not describe"""
    return w['a'] not in ('L', 'Q') and not (w['a'] == 'G' and (w['ip'] in (53, 28) or w['fd'] and w['fr'] and w['ip'] in MOTION)) and not (w['a'] == 'M' and w['ip'] == 6)

def V02(chk):
    F = {'ok'}; r = chk.rng
    for d in DRIVERS:
        t = nc.table(d); c = Config(driver=d, units=r.choice(['mm', 'in']), calc=False, **BIG); cc = Config(driver=d, calc=True, **BIG)
        gg, mg = t['gg'], t['mg']; ps = []; bl = []
        # pairs: all of a group, some of different groups; in either order, with words between them
        for a, tab in (('G', gg), ('M', mg)):
            cs = sorted(tab)
            for x in range(len(cs)):
                for y in range(x, len(cs)):
                    same = bool(set(tab[cs[x]]) & set(tab[cs[y]]))
                    if not chk.full() and not (r.random() < (.12 if same else .05)): continue
                    if chk.full() and r.random() > (1 if same else .5): continue
                    p = [spell(r, a, cs[x]), spell(r, a, cs[y])]
                    r.shuffle(p)
                    k = r.random()
                    if k < .3: p.insert(1, num('X', 10000))
                    if k < .1: p.insert(0, code('N', 5))
                    if .3 < k < .36: p.insert(1, none('/'))
                    if .36 < k < .4: p.insert(0, string('(', 'a'))
                    bl.append(p)
            # more codes in a block
            for _ in range(thin(chk, 60, 1500)):
                bl.append([spell(r, a, r.choice(cs)) for _ in range(r.randint(3, 5))])
            for _ in range(thin(chk, 40, 600)):
                bl.append([spell(r, 'G', r.choice(sorted(gg))), spell(r, 'M', r.choice(sorted(mg))), spell(r, a, r.choice(cs))])
            # codes no table knows
            for _ in range(thin(chk, 10, 100)):
                q = [raw(a, str(r.randint(0, 999))) for _ in range(2)]; bl.append(q); bl.append([q[0], q[0]])
        # unique addresses, with equal and with different values
        g = t['metric' if c.p['units'] == 'mm' else 'imperial']
        ad = [a for a in sorted(g) if a not in NOTWORD | {'G', 'M', 'GOTO', 'N'}]
        for a in ad:
            v = lambda: raw(a, str(r.randint(max(1, g[a]['rf']), min(g[a]['rt'], 9999))))
            w = v(); o = r.choice(ad)
            bl += [[w, dict(w)], [v(), v()], [v(), code('M', 9), v()], [v(), raw(o, '1') if o != a else code('M', 8), v()]]
            for b in r.sample(ad, thin(chk, 3, 20)):
                if b != a: bl.append([v(), raw(b, str(max(1, g[b]['rf'])))])
        r.shuffle(bl)
        for i in range(0, len(bl), 40): ps.append((c, bl[i:i + 40]))
        # the same with the path calculated, and codes given by variables
        for _ in range(thin(chk, 3, 40)):
            b2 = []
            for q in r.sample([q for q in bl if all(tame(w) for w in q)], 24): b2.append(q)
            ps.append((cc, b2))
            b3 = []
            for q in r.sample([q for q in bl if all(w['k'] == 'num' and w['ip'] < 9999 and not w['neg'] for w in q)], 10):
                q2 = []
                for n, w in enumerate(q):
                    if w['a'] in 'GM' and w['fd'] == 0 and r.random() < .7:
                        dd, vw = by_variable(r, w, 100 + n); b3.append([dd]); q2.append(vw)
                    else: q2.append(w)
                b3.append(q2)
            ps.append((c, b3))
        conform.conform(chk, ps, F, label='V02 blocks of %s' % d)
        if chk.violations: return
    # what follows a rejected block
    al = [G(0, 1), G(17) + [X(1), X(2)], [M(3), M(5)], G(90, 0) + [X(3)], G(1) + [X(5), W('F', 10)], [M(3), S(100)], G(54, 90), [X(1), Y(2), X(1)], [M(8), M(9)], [M(30), M(8)]]
    conform.tour(chk, [(Config(driver=d, axes=FREE), al, 3 if chk.full() else 2) for d in (DRIVERS if chk.full() else r.sample(DRIVERS, 4))], F | {'pos'}, 'V02 sequences')

# ------------------------------------------------------------------------ V03
def V03(chk):
    F = {'ok', 'names'}; r = chk.rng
    hole = [X(5), Z(-10), W('R', 2), W('F', 50)]
    al = [[S(100)], [M(3)], [M(4)], [M(5)], G(1) + [X(1), W('F', 10)], G(81) + hole, G(89) + hole, G(0) + [X(2)], [S(50), M(3)] + G(1) + [X(4), W('F', 10)],
          G(2) + [X(3), W('R', 9)], G(74) + hole, [none('/'), S(5)], [none('/')] + G(1), G(1, 0), [S(10001), M(3)], [M(8), M(9), S(7)], [W('F', 20001)], [W('F', 20000)], [T(31)], [T(30)],
          [string('(', 'S100 M3')], [none('/'), M(4)], [S(10000)], [code('M', '003')], [code('S', '5'), X(1), X(2)], [W('F', 20000.5)], G(80)]
    cases = []
    for d in DRIVERS if chk.full() else r.sample(DRIVERS, 3):
        cases.append((Config(driver=d, calc=False, axes=FREE), al, 4 if chk.full() else 3)); cases.append((Config(driver=d, axes=FREE, operator=True), al, 2))
    small = [b for b in al if not any(w['a'] in 'XYZR' for w in b)] + [G(1), G(83), G(87)]
    cases.append((Config(calc=False, axes=FREE), small, 5 if chk.full() else 4))
    cases.append((Config(driver='haas_mill', axes=FREE), al, 2))
    conform.tour(chk, cases, F, 'V03 histories', length=12)
    # limits: every machine, values around them, tools with offsets on lathes
    def mk(q):
        return rcfg(q, maxs=q.choice([100, 1234, 3000, 10000, 99998]), maxt=q.choice([1, 3, 9, 30, 99]), maxf=q.choice([100, 250, 333, 1200, 20000]),
                    operator=q.random() < .25, calc=q.random() < .7)
    w = dict(limits=5, spindle=4, line=3, drill=.8, arc=.4, tool=1, modes=.4, other=.5, reject=.6, optional=.3, empty=.2, outside=0, units=.2, feedblock=.3)
    random_part(chk, mk, w, F, thin(chk, 300, 6000), 24, 'V03 program', start=False)
    # all values of each word around the limit
    ps = []
    for d in DRIVERS:
        for lim in (7, 12, 99) if chk.full() else (12,):
            c = Config(driver=d, calc=r.random() < .5, axes=FREE, maxs=lim, maxt=lim, maxf=lim, tnum=r.random() < .3); bl = []
            for v in list(range(max(1, lim - 3), lim + 4)) + [lim * 2, lim * 10, 1]:
                bl += [[raw('S', str(v))], [raw('S', '0' + str(v)), M(5)], [raw('T', str(v))], [raw('T', '%02d%02d' % (v % 100, 1))], [raw('T', '0' + str(v))], [raw('F', str(v))], [raw('F', str(v), '5')], [raw('F', str(v), '0')],
                       [raw('F', str(v), None, dot=True)], [raw('F', str(v), '0001')], G(0) + [X(1), raw('F', str(v)), raw('S', str(min(v, lim)))], [raw('F', None, '5')]]
                if nc.MTYPE(d) == 'lathe': bl += [[raw('T', '%d%02d' % (v % 10, 7))], [raw('T', '%02d99' % (v % 100))]]
            ps.append((c, bl))
    conform.conform(chk, ps, F, label='V03 limits')

# ------------------------------------------------------------------------ V04
def V04(chk):
    F = {'ok', 'pos', 'names'}; r = chk.rng
    small = {'X': (-500000, 300000), 'Y': (-200000, 200000), 'Z': (0, 400000)}
    al = [G(0) + [X(30)], G(0) + [X(30.0001)], G(0) + [X(-50)], [X(-50.0001)], [Y(20), Z(0)], [Z(-.0001)], [Z(40), X(1)], [Z(41)], G(91) + [X(30)], [X(-10), Y(5)], G(90), G(28), [T(1), M(6)], [W('B', 10)], G(92) + [X(99)], [S(10), M(3)]]
    b = dict(base={'X': 0, 'Y': 0, 'Z': 100000, 'I': 0, 'J': 0, 'K': 0}, texp={'X': 0, 'Y': 200000, 'Z': 400000})
    cases = [(Config(axes=small, **b), al, 3), (Config(axes=dict(small, B=(-50000, 100000)), zero={'X': 100000, 'Y': -50000, 'Z': 50000}, **b), al, 3),
             (Config(axes=small, driver='fanuc_lathe_system_b', prog=91, tnum=True, **dict(b, texp={'X': 400000, 'Y': 0, 'Z': 1000})), al, 3),
             (Config(axes={'X': (-100000, 100000), 'Z': (-100000, 100000)}, driver='fanuc_millturn_system_b', motion=1, operator=True, **dict(b, base=dict(b['base'], Z=150000))), [x for x in al if x[0]['a'] != 'S'], 3)]
    if chk.full(): cases = [(c, a, 4) for c, a, d in cases]
    conform.tour(chk, cases, F, 'V04 tour')
    def mk(q):
        lo, hi = q.choice([(-300000, 300000), (-500000, 10000), (0, 800000)]), q.choice([(-300000, 300000), (-900000, 900000)])
        zero = {'X': q.choice([0, 100000, -123456]), 'Y': q.choice([0, -55000]), 'Z': q.choice([0, 12345, 70000])} if q.random() < .5 else {'X': 0, 'Y': 0, 'Z': 0}
        c = rcfg(q, axes={'X': lo, 'Y': hi, 'Z': q.choice([(-200000, 500000), (-900000, 900000), (0, 100000)])}, zero=zero,
                 base={'X': q.choice([0, 0, 200000]), 'Y': 0, 'Z': q.choice([100000, 300000, 0]), 'I': 0, 'J': 0, 'K': 0},
                 texp={'X': q.choice([0, 0, 700000]), 'Y': q.choice([0, -400000]), 'Z': q.choice([100000, 500000])}, units='mm')
        return rotary(q, c, .3)
    w = dict(line=8, arc=.6, drill=.6, helix=.2, modes=1, tool=.8, home=.8, other=.5, reject=.4, outside=.12, optional=.3, mode=.25)
    random_part(chk, mk, w, F, thin(chk, 320, 6000), 30, 'V04 program')

# ------------------------------------------------------------------------ M01
NOVAR = {'N', 'O', '/', ':', '(', '#', '%', 'GOTO', ',C', ',R', 'A2', 'B2', 'C2', 'S1', 'S2', 'S3'}
def with_variables(r, blocks, p=.3, undefined=.02):
    """some numbers of the program are given by variables defined before, or by ones that have no value"""
    out = []; env = {}
    def value(v):
        """a definition of v, in one of the ways the specification knows"""
        ops = []
        x = r.random()
        mk = lambda a, q: dict(num(a, q), a=a)
        if x < .5 or abs(v) > 800000000: return [mk('=', v)]
        if x < .6 and env:
            n = r.choice(sorted(env)); q = v - env[n]
            if abs(q) > 900000000: return [mk('=', v)]
            return [var('=', n), mk('+' if q >= 0 else '-', abs(q))]
        if x < .7 and v in env.values(): return [var('=', [n for n in env if env[n] == v][0])]
        k = r.randint(1, 900000)
        return [mk('=', v + k), mk('-', k)] if r.random() < .5 else [mk('=', v - k), mk('+', k)]
    for b in blocks:
        b2 = []
        for w in b:
            if w['k'] == 'num' and w['a'] not in NOVAR and r.random() < p and w['fd'] <= 4:
                if r.random() < undefined:
                    b2.append(var(w['a'], r.randint(900, 909))); continue
                v = nc.val(w); neg = r.random() < .25 and v != 0
                if neg: v = -v
                same = [n for n in env if env[n] == v]
                if same and r.random() < .6: n = r.choice(same)
                else:
                    n = r.randint(100, 119)
                    if any(q['k'] == 'var' and q['id'] == n for q in b2): n = 120 + len(b2)
                    out.append([define(n, value(v))]); env[n] = v
                b2.append(var(w['a'], n, neg=neg))
            else: b2.append(w)
        out.append(b2)
        if r.random() < .05: out.append([define(r.randint(100, 119), [var('=', r.randint(900, 909))])])
        if r.random() < .04: out.append([define(r.randint(100, 119), [])] + r.choice([[], [X(r.randint(-5, 5))], [code('G', r.choice([0, 54]))], [code('M', r.choice([8, 9])), X(1)]]))
        if r.random() < .05:
            n = r.randint(100, 119); v = r.randint(-500000, 500000); out.append([define(n, [dict(num('=', v))])]); env[n] = v
    return out

def M01(chk):
    F = {'ok', 'path', 'time', 'pos', 'vars', 'tool', 'units'}; r = chk.rng
    D = lambda n, *o: [define(n, [dict(num(a, round(v * SCALE)), a=a) if not isinstance(v, str) else var(a, int(v)) for a, v in o])]
    al = [D(1, ('=', 10)), D(1, ('=', -5.5)), D(1, ('=', .0005)), D(1, ('=', '1'), ('+', 1)), D(2, ('=', 1)), D(2, ('=', '1')), [var('X', 1)], [var('X', 1, neg=True)], [var('G', 2), X(3)], [var('S', 2), M(3)],
          [Y(2), var('Z', 3)], [var('G', 2), var('X', 1), var('F', 2)], [var('M', 2)], G(91), D(3, ('=', '2'), ('-', '1')), [define(1, []), X(7)], [X(2), define(2, [])]]
    cases = [(Config(axes=FREE), al, 3), (Config(axes=FREE, prog=91, driver='haas_mill'), al, 3), (Config(axes=FREE, driver='fanuc_lathe_system_a', units='in'), al, 3)]
    if chk.full(): cases = [(c, a, 4) for c, a, d in cases]
    conform.tour(chk, cases, F, 'M01 tour')
    w = dict(line=5, arc=1, drill=1, modes=1, tool=.8, home=.4, dwell=.6, other=.6, reject=.3, outside=0, optional=.3, units=.3, limits=.5, spindle=.3, feedblock=.3, helix=.2)
    left = thin(chk, 300, 6000)
    while left > 0:
        ps = []
        for _ in range(min(left, 300)):
            c = rotary(r, rcfg(r), .2) if r.random() < .8 else rcfg(r, calc=False)
            bl = gen.Gen(r, c, w).program(18)
            ps.append((c, with_variables(r, bl, r.choice([.15, .4, .9]), r.choice([0, 0, .03]))))
        conform.conform(chk, ps, F, label='M01 program'); left -= 300
        if chk.violations: return

# ------------------------------------------------------------------------ M03
def M03(chk):
    F = {'ok', 'vars'}; r = chk.rng
    al = [[W('F', 100)], [W('F', 20.5), S(50)], [S(700)], [M(8)], [M(3), S(9)], [code('N', 10), X(1)], [code('N', 20), M(9)], [W('H', 5)], [W('D', -2), W('H', 1)], [W('B', 30)], [T(1), M(6)], [T(2)], [M(6)],
          G(1, 0) + [W('D', 7)], [S(99999), W('H', 9)], [var('D', 4119)], [define(100, [var('=', 4109)])], [none('/'), W('H', 3)]]
    cases = [(Config(axes=FREE), al, 3), (Config(axes=FREE, tnum=True, driver='fanuc_millturn_system_a'), al, 3), (Config(axes=dict(FREE, B=(-900000, 900000)), driver='fanuc_lathe_system_b', calc=False), al, 3)]
    if chk.full(): cases = [(c, a, 4) for c, a, d in cases] + [(Config(axes=FREE, driver=d), al, 3) for d in DRIVERS]
    conform.tour(chk, cases, F, 'M03 tour')
    w = dict(words=5, read=1, line=2, arc=.4, drill=.4, tool=2, toolodd=.5, modes=.4, other=.5, reject=.6, outside=.02, spindle=.6, limits=.6, dwell=.3, feedblock=.4, optional=.3, number=.3, units=.2)
    left = thin(chk, 300, 6000)
    while left > 0:
        ps = []
        for _ in range(min(left, 300)):
            c = rotary(r, rcfg(r, operator=r.random() < .1), .3)
            bl = gen.Gen(r, c, dict(w, number=.3)).program(24)
            ps.append((c, with_variables(r, bl, .1, .03) if r.random() < .4 else bl))
        conform.conform(chk, ps, F, label='M03 program'); left -= 300
        if chk.violations: return
