"""The program based checks: configurations, generator profiles and tour alphabets per property."""
import random
import nc, gen, run, conform
from nc import num, code, raw, none, var, define, string, SCALE, Config
from gen import Gen

MILLS = [d for d in nc.DRIVERS if nc.MTYPE(d) == 'mill']
LATHES = [d for d in nc.DRIVERS if nc.MTYPE(d) == 'lathe']
TURNS = [d for d in nc.DRIVERS if nc.MTYPE(d) == 'millturn']
MM = SCALE

def rcfg(rng, flags=.25, **fixed):
    """a random machine"""
    kw = {}
    kw['driver'] = fixed.get('driver') or rng.choice(rng.choice([MILLS, MILLS, LATHES, TURNS]))
    for f in ('c0', 'c1', 'c2', 'c3', 'g80rapid', 'tnum', 'autorapid', 'diam2x', 'automeas'): kw[f] = rng.random() < flags
    big = rng.choice([2000000, 10000000, 60000000])
    kw['axes'] = {'X': (-big, big), 'Y': (-big, big), 'Z': (-big, big + 5000000)}
    kw['motion'] = rng.choice([0, 1]); kw['plane'] = rng.choice([17, 17, 18, 19]); kw['prog'] = rng.choice([90, 90, 91])
    kw['ret'] = rng.choice([98, 99]); kw['fmode'] = rng.choice([94, 94, 95]); kw['zval'] = False
    kw['maxff'] = rng.choice([20000, 5000, 12345, 48000]); kw['tex'] = rng.choice([0, 1, 6, 13]); kw['tpal'] = rng.choice([0, 2, 7])
    kw['tmeas'] = rng.choice([0, 3, 5])
    kw['units'] = rng.choice(['mm', 'mm', 'mm', 'in'])
    if rng.random() < .4: kw['zero'] = {'X': rng.choice([0, 100000, -123456]), 'Y': rng.choice([0, -55000]), 'Z': rng.choice([0, 12345, 700000])}
    kw['base'] = {'X': rng.choice([0, 0, 105000, -200000]), 'Y': rng.choice([0, 0, 30000]), 'Z': rng.choice([5000000, 2000000]), 'I': 0, 'J': 0, 'K': 0}
    kw['texp'] = {'X': rng.choice([0, 0, 250000]), 'Y': rng.choice([0, 0, -100000]), 'Z': rng.choice([5000000, 1500000])}
    if rng.random() < .3: kw['palc'] = rng.choice([('M', '60'), ('M', '77')])
    if rng.random() < .3: kw['measc'] = ('M', '35')
    kw.update(fixed)
    return Config(**kw)

def rotary(rng, kw, p=.3):
    axes = dict(kw.p['axes'])
    for a in 'ABC':
        if rng.random() < p: axes[a] = (-3600000, 3600000)
    q = dict(kw.p, axes=axes); return Config(**q)

def random_part(chk, mk, weights, fields, n, length, label, **genkw):
    """n programs of the length; mk: rng -> Config"""
    left = n
    while left > 0:
        k = min(left, max(1, 12000 // length)); left -= k
        ps = []
        for i in range(k):
            c = mk(chk.rng); ps.append((c, Gen(chk.rng, c, weights(chk.rng) if callable(weights) else weights, **genkw).program(length)))
        conform.conform(chk, ps, fields, label=label)
        if chk.violations: break

X, Y, Z = (lambda v: num('X', int(v * MM))), (lambda v: num('Y', int(v * MM))), (lambda v: num('Z', int(v * MM)))
W = lambda a, v: num(a, int(round(v * MM)))
G = lambda *cs: [code('G', c) for c in cs]
M = lambda c: code('M', c)
S = lambda v: code('S', v)
T = lambda v: code('T', v)
SPIN = [S(1000), M(3)]
FREE = {'X': (-9000000, 9000000), 'Y': (-9000000, 9000000), 'Z': (-9000000, 19000000)}

def thin(chk, n_quick, n_full): return n_full if chk.full() else n_quick

# ------------------------------------------------------------------------ P01
def P01(chk):
    F = {'ok', 'path', 'kind', 'pos'}
    al = [G(0) + [X(10)], G(1) + [Y(-5), Z(30), W('F', 100)], [X(20), Z(-7)], G(91), G(90) + [Z(1)], G(28), [T(1), M(6)], SPIN,
          G(0, 1) + [X(3)], [X(1), none('/'), Y(7)], G(92) + [X(4)], G(4) + [X(1)], [Y(3.5)], G(80), [T(7)], [T(2), M(6), M(60)]]
    base = dict(axes=FREE)
    cases = [(Config(**base), al, 3), (Config(prog=91, motion=1, autorapid=True, palc=('M', '60'), texp={'X': 100000, 'Y': 200000, 'Z': 50000}, **base), al, 3),
             (Config(driver='fanuc_lathe_system_b', tnum=True, **base), al, 3),
             (Config(driver='fanuc_millturn_system_a', plane=18, zero={'X': 105000, 'Y': 0, 'Z': -30000}, **base), al, 3)]
    if chk.full(): cases = [(c, a, 4) for c, a, d in cases] + [(Config(driver='haas_mill', prog=91, **base), al, 4), (Config(driver='generic_lathe', diam2x=True, **base), al, 4)]
    conform.tour(chk, cases, F, 'P01 tour')
    w = dict(line=8, modes=1.5, tool=.7, home=.7, dwell=.5, other=1.5, optional=.8, empty=.2, css=.2, reject=.5, drill=.15, arc=.3, mode=.2, outside=.01, number=.15, units=.2)
    mk = lambda r: rotary(r, rcfg(r))
    random_part(chk, mk, w, F, thin(chk, 260, 4500), 32, 'P01 program')
    # machines without a known start position in some axis
    def mk2(r):
        c = rcfg(r); b = {a: v for a, v in c.p['base'].items() if a not in r.choice(['X', 'Z', 'XY', 'YZ'])}
        return Config(**dict(c.p, base=b))
    random_part(chk, mk2, w, F, thin(chk, 40, 800), 16, 'P01 program, unknown start')

# ------------------------------------------------------------------------ P02
def P02(chk):
    findings_P02(chk)
    F = {'ok', 'path', 'kind', 'pos'}
    al = [G(2) + [X(10), Y(10), W('R', 10)], G(3) + [X(0), Y(0), W('I', 5), W('J', 0), W('F', 100)], G(3) + [X(10), Y(0), W('I', 5), W('J', 0)],
          G(1) + [X(0), Y(0), Z(0), W('F', 100)], SPIN, [Y(0), X(0), Z(-4), W('I', 10), W('J', 0), W('K', 0)], [Z(-8)], [X(20), Y(0), Z(-12)],
          G(2) + [X(10), Y(10), Z(-2), W('R', 10)], G(2) + [X(-6), Y(8), W('I', 5), W('J', 4)], [X(0), Y(20), Z(-3)],
          G(2) + [X(1), Y(2), W('I', 3), W('J', 4), W('Q', 1)], G(3) + [X(10), Y(10), W('R', -10)], G(91), G(90)]
    b = dict(axes=FREE, base={'X': 0, 'Y': 0, 'Z': 0, 'I': 0, 'J': 0, 'K': 0})
    cases = [(Config(**b), al, 3), (Config(prog=91, motion=1, **b), al, 3)]
    sw = dict(X='Z', Y='X', Z='Y', I='K', J='I', K='J')
    def turn(al, m):
        out = []
        for blk in al: out.append([dict(w, a=m.get(w['a'], w['a'])) for w in blk])
        return out
    p18 = dict(X='X', Y='Z', Z='Y', I='I', J='K', K='J'); p19 = dict(X='Y', Y='Z', Z='X', I='J', J='K', K='I')
    cases += [(Config(plane=18, **b), turn(al, p18), 3), (Config(plane=19, **b), turn(al, p19), 3),
              (Config(driver='fanuc_lathe_system_a', plane=18, **b), turn(al, p18), 3)]
    if chk.full(): cases = [(c, a, 4) for c, a, d in cases]
    conform.tour(chk, cases, F, 'P02 tour')
    w = dict(line=1.2, arc=6, modal_arc=2, helix=2.5, spiral=1, modes=1, mode=.15, plane=.25, outside=0, tool=.15, home=.1, dwell=.2, other=.3, reject=.3, modehelix=1)
    random_part(chk, lambda r: rcfg(r, units=r.choice(['mm', 'mm', 'in'])), w, F, thin(chk, 260, 4500), 32, 'P02 program')

# ------------------------------------------------------------------------ P03
def P03(chk):
    findings_P03(chk)
    F = {'ok', 'path', 'kind', 'pos'}
    al = [G(81) + [Z(-10), W('R', 2), X(5)], [X(7), Y(3)], G(83) + [Z(-12), W('R', 1), W('Q', 5)], G(73), G(80), [Y(1), code('K', 0)], [X(2), code('K', 3)],
          G(91), G(90), G(98), G(99), G(0) + [X(1), Z(50)], [W('R', 3)], [Z(-20), X(9)], G(84)]
    b = dict(axes=FREE, base={'X': 0, 'Y': 0, 'Z': 500000, 'I': 0, 'J': 0, 'K': 0})
    start = [SPIN + [W('F', 100)]]
    cases = [(Config(operator=True, **b), [[W('F', 100)] + al[0]] + al[1:], 3),
             (Config(operator=True, prog=91, ret=99, c0=True, **b), [[W('F', 100)] + al[0]] + al[1:], 3),
             (Config(operator=True, g80rapid=True, driver='haas_lathe', **b), [[W('F', 100)] + al[0]] + al[1:], 3)]
    cyc = [74, 76, 81, 82, 83, 84, 85, 86, 87, 88, 89, 73]
    al2 = [G(c) + [Z(-10), W('R', 2), X(5), W('Q', 3), W('F', 50)] for c in cyc] + [[X(8)], G(90 if 0 else 98)]
    cases.append((Config(operator=True, ret=99, **b), al2, 2))
    cases.append((Config(operator=True, prog=91, **b), [[dict(w) if w['a'] not in 'RZ' else W(w['a'], -3 if w['a'] == 'R' else -10) for w in x] for x in al2], 2))
    if chk.full(): cases = [(c, a, d + 1) for c, a, d in cases]
    conform.tour(chk, cases, F, 'P03 tour')
    w = dict(line=1, arc=.15, drill=6, modes=.7, mode=.15, plane=.2, outside=0, tool=.15, home=.15, dwell=.1, other=.3, reject=.3, modeblock=.6)
    random_part(chk, lambda r: rcfg(r, flags=.3), w, F, thin(chk, 260, 4500), 32, 'P03 program')
    def zx(r):
        return rcfg(r, driver=r.choice(LATHES), tool=r.choice(['lathe_zx', 'lathe_zxc']))
    random_part(chk, zx, w, F, thin(chk, 30, 300), 24, 'P03 program, lathe without Y')
    random_part(chk, lambda r: rcfg(r, zval=True, prog=90), dict(w, mode=0, modes=0), F, thin(chk, 40, 400), 24, 'P03 program, incremental depth')

# ------------------------------------------------------------------------ P04
def P04(chk):
    findings_P04(chk)
    F = {'ok', 'path', 'kind', 'time'}
    al = [G(1) + [X(10)], [W('F', 100)], [W('F', 250.5), X(3)], G(0) + [Y(7)], SPIN, [S(500)], G(95), G(94), G(96), G(97), G(4) + [W('X', 1.5)], G(4) + [code('P', 700)],
          [T(1), M(6)], [W('F', 0)], G(2) + [X(4), W('R', 20)]]
    cases = [(Config(axes=FREE), al, 3), (Config(axes=FREE, driver='fanuc_lathe_system_b', fmode=95, tnum=True, automeas=True), al, 3),
             (Config(axes=FREE, driver='fanuc_lathe_system_c', operator=True, fmode=95), [a for a in al if a is not SPIN], 3),
             (Config(axes=FREE, driver='fanuc_millturn_system_b', fmode=95, plane=18, prog=91), al, 3)]
    if chk.full(): cases = [(c, a, 4) for c, a, d in cases]
    conform.tour(chk, cases, F, 'P04 tour')
    w = dict(line=6, arc=1, drill=.7, modes=1.2, mode=.1, tool=1, home=.3, dwell=1.5, other=.3, css=1, pallet=1, fword=.4, sword=.3, outside=0, reject=.3, feedblock=.5, optional=.3)
    def mk(r):
        d = r.choice([None, None, r.choice(LATHES), r.choice(TURNS)])
        kw = dict(driver=d) if d else {}
        if r.random() < .5: kw['palc'] = r.choice([('M', '60'), ('M', '77'), ('G', '101')])
        if r.random() < .5: kw['measc'] = r.choice([('M', '35'), ('G', '103')])
        return rcfg(r, fmode=r.choice([94, 95, 95]), operator=r.random() < .15, rot=r.choice([1000, 350]), **kw)
    random_part(chk, mk, w, F, thin(chk, 260, 4500), 32, 'P04 program')

# ------------------------------------------------------------------------ P05
def P05(chk):
    F = {'ok', 'path', 'time', 'tool'}
    al = [[T(1), M(6)], [M(6), T(2)], [T(1)], [T(2)], [M(6)], G(1) + [X(10), W('F', 100)], G(0) + [Y(3)], [X(1), W('F', 50)], SPIN, G(28)]
    cases = [(Config(axes=FREE), al, 4), (Config(axes=FREE, tnum=True, autorapid=True), al, 3),
             (Config(axes=FREE, driver='fanuc_lathe_system_b', tnum=True), [[dict(w, ds='010' + w['ds'], ip=100 + w['ip']) if w['a'] == 'T' else w for w in b] for b in al], 3),
             (Config(axes=FREE, driver='haas_mill', automeas=True, prog=91), al, 3)]
    if chk.full(): cases = [(c, a, d + 1) for c, a, d in cases]
    conform.tour(chk, cases, F, 'P05 tour', length=80)
    w = dict(line=4, arc=.7, drill=.5, tool=3, modes=.4, home=.3, dwell=.4, other=.3, reject=.3, outside=0, optional=.2, toolodd=.6)
    random_part(chk, lambda r: rcfg(r, flags=.35), w, F, thin(chk, 260, 4500), 36, 'P05 program')

# ------------------------------------------------------------------------ P06
ODD = set('XYZIJKRQLFPUW')
def odd(r, blocks, p):
    """the same program with values nobody means"""
    out = []
    for b in blocks:
        nb = []
        for w in b:
            if w['k'] == 'num' and w['a'] in ODD and r.random() < p:
                v = nc.val(w); x = r.random()
                if w['a'] == 'K': v = r.choice([0, -20000, 25000, 3 * SCALE, 1])
                elif x < .35: v = 0
                elif x < .6: v = -v
                elif x < .75: v = r.choice([1, -1, 2, 5, 10])
                elif x < .9: v = max(-9000000, min(9000000, v * r.choice([-40, 7, 30])))
                else: v = r.choice([SCALE, -SCALE, 99999, 5000])
                w = num(w['a'], v)
            nb.append(w)
        if r.random() < p * .3: nb.append(num(r.choice('QLRIJPU'), r.choice([0, 0, -SCALE, SCALE, 1])))
        if r.random() < p * .1 and len(nb) > 1: nb.pop(r.randrange(len(nb)))
        out.append(nb)
    return out

def P06(chk):
    F = {'ok', 'path', 'time', 'kind', 'pos', 'tool'}; r = chk.rng
    b = dict(axes=FREE, base={'X': 0, 'Y': 0, 'Z': 500000, 'I': 0, 'J': 0, 'K': 0})
    cyc = lambda *vs: [G(c) + [Z(z), W('R', rr), W('Q', q)] for c in (83, 73, 76, 87) for z, rr, q in vs]
    al = cyc((-5, 2, 0), (-5, 2, -3)) + [[W('Q', 0), X(3)], [W('Q', 2), X(1)], [Z(2), Y(1)], G(4) + [W('X', -5)], G(4) + [W('U', -1.5)], G(98), G(99), G(91), G(90), G(80)]
    ar = [G(2) + [X(1), Y(2), W('Q', 0)], G(3) + [X(1), Y(2), W('L', 0)], [W('I', 0), W('J', 0), W('Q', 2)], [W('I', 3), W('J', 0), X(2)], [W('L', -2), X(5)], [W('Q', -1)], [W('R', 0), X(1)], G(3) + [X(1), W('R', -5), W('Q', 3)],
          G(1) + [X(7)], [W('F', 0)], [W('F', 100)], G(2) + [X(0), Y(0), Z(0), W('R', 0)], [W('I', 0), W('J', 0)], G(91), G(90)]
    ar_lathe = [[dict(w, a=dict(Y='Z', J='K').get(w['a'], w['a'])) for w in x if w['a'] != 'Z'] for x in ar]
    n = 1 if chk.full() else 0
    cases = [(Config(operator=True, motion=1, **b), [[W('F', 100)]] + al, 2 + n), (Config(operator=True, prog=91, ret=99, g80rapid=True, **b), [[W('F', 100)]] + al, 2 + n),
             (Config(operator=True, **b), ar, 3 + n), (Config(driver='haas_lathe', operator=True, fmode=95, plane=18, **b), ar_lathe, 3 + n)]
    conform.tour(chk, cases, F, 'P06 tour')
    if chk.violations: return
    w = dict(line=3, arc=3, modal_arc=1, helix=1.5, spiral=2, drill=4, modes=1.2, mode=.3, plane=.2, tool=.5, home=.3, dwell=1.5, css=.6, pallet=.3, fword=.4, sword=.2, other=.3, optional=.2, feedblock=.4, outside=0, modehelix=.4, toolodd=.2)
    def mk(r):
        d = r.choice([None, None, r.choice(LATHES), r.choice(TURNS)]); kw = dict(driver=d) if d else {}
        return rcfg(r, fmode=r.choice([94, 95]), operator=r.random() < .5, **kw)
    made = []
    for k in range(thin(chk, 1, 14)):
        ps = []
        for _ in range(300):
            c = mk(r); ps.append((c, odd(r, Gen(r, c, w).program(30), r.choice([.1, .3, .6]))))
        conform.conform(chk, ps, F, label='P06 program'); made += ps[:thin(chk, 40, 60)]
        if chk.violations: return
    shown(chk, made)

def shown(chk, ps):
    """what the server shows of them is a path and a time on every line"""
    import docs, server, session
    u = session.URIS[0]; texts = ['\n'.join(nc.block_text(b, chk.rng) for b in bl) for c, bl in ps]
    jobs = [(b''.join(map(server.frame, [server.opened(u, t), server.lens(u, 1)])), server.args(run.settings_file(c), True)) for (c, bl), t in zip(ps, texts)]
    for (c, bl), t, (out, bad) in zip(ps, texts, server.many(jobs)):
        rep = dict(settings=c.settings(), text=t)
        if bad or len(out) != 2: chk.violation('P06 shown: %s' % (bad or 'the server gives %d answers' % len(out)), rep); continue
        P = T = 0.
        for x in out[1].get('result') or []:
            s = x['command']['title']; v = docs.title(s); k = x['range']['start']['line']
            if v is None: chk.violation('P06 shown: the lens of line %d reads %r' % (k, s), rep); break
            p, q = v.get('Total path', P), v.get('Total time', T); chk.extra['lenses'] = chk.extra.get('lenses', 0) + 1
            if p < P or q < T: chk.violation('P06 shown: the totals of line %d go down: %r' % (k, s), rep); break
            P, T = p, q
    chk.traces(len(ps))

# ------------------------------------------------------- recorded findings
def finding_program(chk, fid, cfg, lines, key, true, what, tol=1e-3):
    """the last line is expected to add `true`; the recorded finding is that it does not"""
    o = run.observe([(cfg, [None] * len(lines))], [lines])[0]
    if len(o) < len(lines) or 'crash' in o[-1]:
        chk.violation('%s: the parser stopped' % fid, dict(lines=lines)); return
    before = o[-2][key] if len(o) > 1 else 0.
    chk.finding(fid, abs(o[-1][key] - before - true) <= tol, what + ' (adds %.4f, the true value is %.4f)' % (o[-1][key] - before, true))

import math
def findings_P02(chk):
    c = Config(axes=FREE)
    finding_program(chk, 'P02-helix-pitch', c, ['S100 M3', 'G1 F100 X10 Y0 Z0', 'G2 X10 Y0 Z-20 I-10 J0 K0'], 'ptotal',
                    math.hypot(2 * math.pi * 10, 20), 'a turn of a helix counts 2 pi sqrt(r^2 + pitch^2)')
def findings_P03(chk):
    c = Config(axes=FREE, zval=True)
    finding_program(chk, 'P03-incremental-depth', c, ['S100 M3', 'G0 X0 Y0 Z10', 'G1 F100', 'G98 G81 X0 Y0 Z-10 R4'], 'ptotal', 6 + 10 + 16,
                    'with incremental depths G81 with G98 counts the retract distance as cut')
def findings_P04(chk):
    c = Config(axes=FREE, driver='fanuc_lathe_system_b', fmode=95)
    d = 40.
    rpm = 100 * 1000 / (math.pi * d)
    finding_program(chk, 'P04-surface-speed', c, ['G96 S100 M3', 'G0 X40 Z0', 'G1 Z-10 F0.2'], 'ttotal', 10 / (.2 * rpm) * 60,
                    'constant surface speed takes the length of the path for the diameter')
