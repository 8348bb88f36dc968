"""M02: expressions. The specification (NCExpr) says which token sequences are expressions and in which order their
operations are carried out; here the operations get their numbers."""
import json, math, os, tempfile
import nc, run
from nc import Config

VAL = {'7': 7., '2.5': 2.5, '3': 3., '12': 12., '0.125': .125, '40': 40., '1': 1., '.5': .5, '100.': 100., '255': 255., '10': 10., '6': 6.}
VARS = {'#1': -4., '#2': 30., '#101': 2.75, '#150': 9., '#503': -.625}
ADD, MUL = ['+', '-', 'OR', 'XOR'], ['*', '/', 'AND', 'MOD']
FN = ['SIN', 'COS', 'TAN', 'ATAN', 'SQRT', 'ABS', 'ROUND', 'FIX', 'FUP', 'BIN', 'BCD']       # the controls know these
FN2 = ['ASIN', 'ACOS', 'EXP', 'LOG', 'LOG10']                                               # and the calculator these as well
ROUGH = {'SIN', 'COS', 'TAN', 'ATAN', 'ASIN', 'ACOS', 'EXP', 'LOG', 'LOG10', 'SQRT', '/'}

def tok(x):
    k = 'val' if x in VAL or x in VARS or x in ('#3101', '#3102') else 'undef' if x.startswith('#') else 'add' if x in ADD else 'mul' if x in MUL else 'fn' if x in FN + FN2 else x
    return dict(k=k, x=x)

class Undef(Exception): pass
def check(v):
    if v != v or abs(v) > 1e8: raise Undef
    return v
def edge(v, rough, step=1., off=0.):
    """v must not lie so near a jump that rounding decides"""
    d = abs((v - off) / step - round((v - off) / step)) * step
    if d < 1e-7 and (rough or d != 0): raise Undef
def whole(v, rough):
    edge(v, rough); return int(v)
def bcd_to_int(v):
    r, p = 0, 1
    while v:
        if v & 15 > 9: raise Undef
        r += (v & 15) * p; p *= 10; v >>= 4
    return r
def int_to_bcd(v): return int(str(v), 16)
def value(post):
    """the value of the operations, None where mathematics gives none or rounding would decide"""
    st = []
    try:
        for t in post:
            x = t['x']
            if t['k'] == 'val':
                v = VAL[x] if x in VAL else VARS[x] if x in VARS else math.pi if x == '#3101' else math.e
                st.append((v, False)); continue
            if t['k'] == 'sign':
                a, ra = st.pop(); st.append((-a if x == '-' else a, ra)); continue
            if t['k'] == 'fn':
                a, ra = st.pop(); rad = math.radians(a)
                if x == 'SIN': v = math.sin(rad)
                elif x == 'COS': v = math.cos(rad)
                elif x == 'TAN':
                    if abs(math.cos(rad)) < 1e-5: raise Undef
                    v = math.tan(rad)
                elif x == 'ATAN': v = math.degrees(math.atan(a))
                elif x in ('ASIN', 'ACOS'):
                    if abs(a) > 1 - 1e-9 and (ra or abs(a) > 1): raise Undef
                    v = math.degrees(math.asin(a) if x == 'ASIN' else math.acos(a))
                elif x == 'SQRT':
                    if a < 0 or (ra and a < 1e-7): raise Undef
                    v = math.sqrt(a)
                elif x == 'ABS': v = abs(a)
                elif x == 'ROUND': edge(a, ra, 1., .5); v = math.floor(abs(a) + .5) * (1 if a >= 0 else -1)
                elif x == 'FIX': edge(a, ra); v = math.trunc(a)
                elif x == 'FUP': edge(a, ra); v = math.ceil(abs(a)) * (1 if a >= 0 else -1)
                elif x == 'EXP':
                    if a > 15: raise Undef
                    v = math.exp(a)
                elif x in ('LOG', 'LOG10'):
                    if a < 1e-6: raise Undef
                    v = math.log(a) if x == 'LOG' else math.log10(a)
                else:
                    if a < 0: raise Undef
                    n = whole(a, ra)
                    if n != a: raise Undef
                    v = int_to_bcd(n) if x == 'BCD' else bcd_to_int(n)
                st.append((check(float(v)), ra or x in ROUGH)); continue
            (b, rb), (a, ra) = st.pop(), st.pop(); r = ra or rb or x in ROUGH
            if x == '+': v = a + b
            elif x == '-': v = a - b
            elif x == '*': v = a * b
            elif x == '/':
                if abs(b) < 1e-9: raise Undef
                v = a / b
            elif x == 'MOD':
                n, d = whole(a, ra), whole(b, rb)
                if d == 0: raise Undef
                v = math.fmod(n, d)
            else:
                n, d = whole(a, ra), whole(b, rb)
                v = n & d if x == 'AND' else n | d if x == 'OR' else n ^ d
            st.append((check(float(v)), r))
        return st[0][0]
    except Undef: return None
    except (OverflowError, ValueError): return None

def text(toks, r=None, curved=False):
    s = ''
    for i, t in enumerate(toks):
        x = t['x']
        if curved and x in '[]' and r.random() < .5: x = {'[': '(', ']': ')'}[x]
        if i and r and r.random() < .15: s += ' '
        s += x
    return s

def explore(chk, alphabet, depth, scripts):
    """-> [(tokens, show)]"""
    d = tempfile.mkdtemp(prefix='e', dir=run.work())
    json.dump(dict(alphabet=[tok(x) for x in alphabet], depth=depth, scripts=[[tok(x) for x in s] for s in scripts]), open(d + '/in.json', 'w'))
    r = run.tlc('NCExprTour', env=dict(NC_IN=d + '/in.json')); chk.tlc(r)
    out = []
    for l in r['out'].split('\n'):
        if l.startswith('"EXPR '):
            e = json.loads(json.loads(l)[5:]); h = e['h']
            out.append(([tok(x) for x in scripts[-h[0] - 1]] if h[0] < 0 else [tok(alphabet[i - 1]) for i in h], e['o']))
    return out

def ends_early(toks):
    """a complete expression and then something that cannot follow it: what the rest of the block means is another matter"""
    oper, depth = False, 0
    for t in toks:
        k = t['k']
        if oper:
            if k in ('add', 'mul'): oper = False
            elif k == ']' and depth: depth -= 1
            else: return True
        elif k in ('val', 'undef'): oper = True
        elif k == '[': depth += 1
        elif k == 'mul' or k == ']' or (k == 'add' and t['x'] not in '+-'): return False
    return False

def only_calc(toks): return any(t['x'] in FN2 or t['x'] == 'MOD' for t in toks)

def judge(chk, cases, label, driver='fanuc_mill'):
    """every expression as the value of a variable in a program, and by the calculator alone"""
    c = Config(driver=driver, calc=False); f = run.settings_file(c); N = 80; r = chk.rng
    groups, meta = [], []
    cases = [(t, o, text(t, r)) for t, o in cases if t and not ends_early(t)]
    prog = [x for x in cases if not only_calc(x[0])]
    pre = ['parse\t%d\t%s=%s' % (i + 1, v, repr(x).replace('-.', '-0.')) for i, (v, x) in enumerate(VARS.items())]
    for i in range(0, len(prog), N):
        part = prog[i:i + N]; g = ['new\t%s\t0' % f] + pre
        for j, (t, o, s) in enumerate(part): g.append('parse\t%d\t#%d=%s' % (10 + j, 200 + j, s))
        g.append('vars'); groups.append(g); meta.append(part)
    seen = vals = 0
    for g, part, a in zip(groups, meta, run.vh(groups)):
        vs = run.parse_vars(a[-1]) if len(a) == len(g) else {}
        for j, (t, o, s) in enumerate(part):
            k = 1 + len(pre) + j
            ob = run.parse_obs(a[k]) if k < len(a) else dict(crash='the parser stopped')
            rep = dict(driver=driver, lines=['%s=%s' % (v, x) for v, x in VARS.items()] + ['#%d=%s' % (200 + j, s)])
            if 'crash' in ob: chk.violation('%s: #9=%s: %s' % (label, s, ob['crash']), rep); break
            good = o['ok'] and o['def']; v = vs.get(200 + j); want = value(o['p']) if good else None; seen += 1
            if good and want is None: continue
            if good: vals += 1
            if ob['ok'] != good: chk.violation('%s: #9=%s should be %s and is %s %s' % (label, s, 'accepted' if good else 'reported', 'accepted' if ob['ok'] else 'reported', ob['msg']), rep)
            elif not good and v is not None: chk.violation('%s: #9=%s is reported and still assigns %r' % (label, s, v), rep)
            elif good and (v is None or abs(v - want) > 1e-9 * max(1., abs(want))): chk.violation('%s: #9=%s gives %r instead of %r' % (label, s, v, want), rep)
    calc = [x for x in cases if x[1]['ok']]
    g = [['new\t%s\t0' % f] + pre + ['expr\t' + text(t, r, True) for t, o, s in calc[i:i + 400]] for i in range(0, len(calc), 400)]
    for i, (q, a) in enumerate(zip(g, run.vh(g))):
        for j, (t, o, s) in enumerate(calc[i * 400:i * 400 + 400]):
            k = 1 + len(pre) + j; l = a[k].split('\t') if k < len(a) else ['EXC', 'the parser stopped']; seen += 1
            rep = dict(expression=q[k], how='ValueCalculator::parse with ' + str(VARS))
            if l[0] == 'EXC': chk.violation('%s: %s: %s' % (label, s, l), rep); break
            want = value(o['p']) if o['def'] else None
            if o['def'] and want is None: continue
            if (l[0] == '1') != o['def']: chk.violation('%s: the calculator %s %s' % (label, 'rejects' if o['def'] else 'accepts', s), rep)
            elif o['def'] and abs(float(l[1]) - want) > 1e-9 * max(1., abs(want)): chk.violation('%s: %s is calculated as %s instead of %r' % (label, s, l[1], want), rep)
    chk.traces(seen); chk.extra['expressions'] = chk.extra.get('expressions', 0) + seen; chk.extra['values_compared'] = chk.extra.get('values_compared', 0) + vals
    if cases: chk.sample(dict(label=label, expression=cases[len(cases) // 2][2], ok=cases[len(cases) // 2][1]['ok']))

def tree(r, depth, fns, ops):
    """tokens of a random expression"""
    x = r.random()
    if depth == 0 or x < .12:
        return [r.choice(sorted(VAL) + sorted(VARS) + ['#3101'])] if r.random() < .985 else ['#' + str(r.randint(900, 909))]
    if x < .22: return [r.choice('+-')] + atom(r, depth - 1, fns, ops)
    if x < .4: return [r.choice(fns), '['] + tree(r, depth - 1, fns, ops) + [']']
    if x < .55: return ['['] + tree(r, depth - 1, fns, ops) + [']']
    return tree(r, depth - 1, fns, ops) + [r.choice(ops)] + tree(r, depth - 1, fns, ops)
def atom(r, depth, fns, ops):
    t = tree(r, depth, fns, ops)
    return t if len(t) == 1 or r.random() < .3 else ['['] + t + [']']

def M02(chk):
    r = chk.rng
    a1 = ['7', '2.5', '#1', '+', '-', '*', '/', 'OR', 'AND', '[', ']', 'ABS', '#900']
    a2 = ['3', '#2', '-', '+', '*', '/', '[', ']', 'SIN', 'XOR', 'FIX', 'ATAN']
    def rnd(n, fns, ops):
        out = []
        while len(out) < n:
            t = tree(r, r.randint(1, 5), fns, ops)
            if len(t) > 40: continue
            if r.random() < .12:                      # something is missing or too much
                i = r.randrange(len(t)); t = t[:i] + (t[i + 1:] if r.random() < .5 else [r.choice(a1)] + t[i:])
            if t: out.append(t)
        return out
    n = 20000 if chk.full() else 2500
    judge(chk, explore(chk, a1, 5 if chk.full() else 4, rnd(n, FN, ADD + MUL[:3])), 'M02')
    if chk.violations: return
    judge(chk, explore(chk, a2, 6 if chk.full() else 4, rnd(n, FN + FN2, ADD + MUL)), 'M02', driver=r.choice(nc.DRIVERS))
    if chk.violations: return
    # each function and operator with many arguments
    s = []
    for f in FN + FN2:
        for v in sorted(VAL) + sorted(VARS): s += [[f, '[', v, ']'], ['-', f, '[', '-', v, ']'], [f, '[', v, '/', '40', ']'], [f, '[', v, '-', '7', ']', '*', '3'], [f, '[', '#1', '+', v, '*', '2.5', ']']]
    for o in ADD + MUL:
        for v in sorted(VAL) + sorted(VARS):
            for w in sorted(VAL) + sorted(VARS): s += [[v, o, w]] + ([['-', v, o, '-', w]] if r.random() < .3 else [])
    judge(chk, explore(chk, a1, 0, s), 'M02 functions', driver=r.choice(nc.DRIVERS))

# ------------------------------------------------------------------------ M04
REL = ['EQ', 'NE', 'GT', 'GE', 'LT', 'LE', 'AND', 'OR', 'XOR']
def ctok(x): return dict(k='rel' if x in REL else tok(x)['k'], x=x)
HEADS = {True: ['X', 'Y', 'Z', 'X-', 'Z+', 'U', 'N7 X', 'G0 X', 'X5 Y', '/X', '/2 Y', 'N9 G90 Z'], False: ['IF', 'WHILE', 'N8 IF', '/IF']}
def conditions(chk, alphabet, depth, scripts, label, driver='fanuc_mill'):
    r = chk.rng; d = tempfile.mkdtemp(prefix='q', dir=run.work())
    json.dump(dict(alphabet=[ctok(x) for x in alphabet], depth=depth, scripts=[[ctok(x) for x in s] for s in scripts]), open(d + '/in.json', 'w'))
    t = run.tlc('NCCondTour', env=dict(NC_IN=d + '/in.json')); chk.tlc(t); cases = []
    for l in t['out'].split('\n'):
        if l.startswith('"COND '):
            e = json.loads(json.loads(l)[5:]); h = e['h']; ts = scripts[-h[0] - 1] if h[0] < 0 else [alphabet[i - 1] for i in h]
            if not ts or '#' in ''.join(ts[:1]): continue
            value = r.random() < .5
            if value and any(x in REL[:6] for x in ts): value = False
            o = e['o']['v' if value else 'c']
            if o == 'other': continue
            if not value and any(x.startswith('#9') for x in ts): continue
            hd = r.choice(HEADS[value]); s = text([ctok(x) for x in ts], r)
            tail = '' if value else r.choice(['GOTO10', 'GOTO 5', 'GOTO#2']) if hd.endswith('IF') else r.choice(['DO1', 'DO 2'])
            if value and o == 'whole': tail = r.choice(['', '', ' F50', ' (A)', ' M8'])
            cases.append((hd + r.choice(['', '', ' ']) + s + tail, o))
    f = run.settings_file(Config(driver=driver, calc=False, evaluate=True) if 0 else Config(driver=driver, calc=False)); N = 80
    pre = ['parse\t%d\t%s=%s' % (i + 1, v, repr(x).replace('-.', '-0.')) for i, (v, x) in enumerate(VARS.items())]
    parts = [cases[i:i + N] for i in range(0, len(cases), N)]; n = {}
    groups = [['new\t%s\t0' % f] + pre + ['parse\t%d\t%s' % (10 + j, s) for j, (s, o) in enumerate(p)] for p in parts]
    for p, a in zip(parts, run.vh(groups)):
        for j, (s, o) in enumerate(p):
            k = 1 + len(pre) + j; ob = run.parse_obs(a[k]) if k < len(a) else dict(crash='the parser stopped')
            rep = dict(driver=driver, lines=['%s=%s' % (v, x) for v, x in VARS.items()] + [s], spec=o); n[o] = n.get(o, 0) + 1
            if 'crash' in ob: chk.violation('%s: %s: %s' % (label, s, ob['crash']), rep); break
            if ob['ok'] != (o == 'whole'): chk.violation('%s: %s is %s and should be %s %s' % (label, s, 'accepted' if ob['ok'] else 'reported', 'accepted' if o == 'whole' else 'reported (%s)' % o, ob['msg']), rep)
    chk.traces(len(cases)); q = chk.extra.setdefault('blocks_by_verdict', {})
    for k in n: q[k] = q.get(k, 0) + n[k]
    if cases: chk.sample(dict(label=label, block=cases[len(cases) // 2][0], verdict=cases[len(cases) // 2][1]))

def ctree(r, depth, fns, rel):
    """what may stand in brackets; conditions joined by AND and OR when rel"""
    if rel and r.random() < .35 and depth > 1: return ['['] + ctree(r, depth - 1, fns, True) + [']', r.choice(['AND', 'OR', 'XOR']), '['] + ctree(r, depth - 1, fns, True) + [']']
    t = [x for x in tree(r, depth, fns, ['+', '-', '*', '/'])]
    return t + ([r.choice(REL[:6])] + tree(r, depth, fns, ['+', '-', '*', '/']) if rel else [])

def M04(chk):
    r = chk.rng; full = chk.full()
    def rnd(n):
        out = []
        while len(out) < n:
            t = ['['] + ctree(r, r.randint(1, 4), FN, r.random() < .5) + [']']
            if len(t) > 40: continue
            x = r.random()
            if x < .35:
                i = r.randrange(len(t))
                t = t[:i] + (t[i + 1:] if x < .2 else [r.choice(['[', ']', '+', '/', 'EQ'])] + t[i:] if x < .3 else [])
            t = [y for y in t if y not in ('#3101', '100.')]
            if t: out.append(t)
        return out
    conditions(chk, ['7', '#1', '+', '/', 'EQ', '[', ']', 'SIN'], 6 if full else 5, rnd(20000 if full else 2500), 'M04')
    if chk.violations: return
    conditions(chk, ['12', '#900', '-', '*', 'AND', '[', ']', 'ABS'], 6 if full else 5, rnd(20000 if full else 2500), 'M04', driver=r.choice(nc.DRIVERS))
    if chk.violations: return
    # every operator between every two numbers, alone and with something before and after it
    s = []
    for o in ['+', '-', '*', '/'] + REL:
        for v in sorted(VAL) + sorted(VARS):
            for w in sorted(VAL) + sorted(VARS): s += [['[', v, o, w, ']'], ['[', '3', '/', v, o, w, '/', '40', ']'] if r.random() < .5 else ['[', '[', v, o, w, ']', '/', v, ']'], ['[', v, o, '-', w, ']']]
        for q in FN: s += [['[', q, '[', '7', ']', o, '[', '3', ']', '/', '12', ']'], ['[', '7', o, q, '[', '40', '/', '12', ']', ']'], ['[', '7', o, q, '[', ']', ']']]
    s = [[y for y in t if y != '100.'] for t in s]
    conditions(chk, ['7'], 0, s, 'M04 operators', driver=r.choice(nc.DRIVERS))
    if chk.violations: return
    c = Config(driver='fanuc_mill', calc=True); f = run.settings_file(c)
    for fid, ls, what, good in (('M04-bracket-value', ['G0 X0', 'X[1+2]'], 'X[1+2] moves to 1 instead of 3: of a value in brackets only the first number counts', lambda a: abs(run.parse_obs(a[-1])['pos'].get('X', 0) - 3) < 1e-9 if 'X' in run.parse_obs(a[-1])['pos'] else abs(run.parse_obs(a[-1])['ptotal'] - 3) < 1e-9),):
        a = run.vh([['new\t%s\t0' % f] + ['parse\t%d\t%s' % (i + 1, l) for i, l in enumerate(ls)]])[0]
        chk.finding(fid, good(a), what)
