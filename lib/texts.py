"""T01, T02, T03, T05: what is done to the text of blocks. The specification (NCText) says what becomes of each item."""
import json, os, tempfile
import nc, run
from nc import Config

def item(w, i='', f='', dot=None, sg='', op='', m='', cl='', x='', eq=''):
    return dict(w=w, sg=sg, op=op, m=m, i=[int(c) for c in i], d=bool(f) if dot is None else dot, f=[int(c) for c in f], cl=cl, x=x, **{'as': eq})
def comment(t): return item('(', x=t)
def name(t): return item('O', x=t)
START = item('%')
def word(s):
    """a plain word from its text, for tables: 'X-5.25' 'G68.2' '/1' ',C5' 'X#5' 'X-#5'"""
    n = 2 if s[0] == ',' else 1
    a, r = s[:n], s[n:]
    sg = r[0] if r[:1] in ('-', '+') else ''; r = r[len(sg):]
    m = '#' if r[:1] == '#' else ''; r = r[len(m):]
    i, dot, f = r.partition('.')
    return item(a, i, f, bool(dot), sg, m=m)

def text_of(it):
    if it['w'] == '(': return '(' + it['x'] + ')'
    if it['w'] == 'O': return 'O' + it['x']
    return it['w'] + it['as'] + it['sg'] + it['op'] + it['m'] + ''.join(map(str, it['i'])) + ('.' if it['d'] else '') + ''.join(map(str, it['f'])) + it['cl']
def spell(b, r=None):
    s = ''
    for k, it in enumerate(b):
        t = text_of(it)
        if r and it['w'] not in '(O%' and it['w'] != '/' and not it['as'] and r.random() < .08: t = it['w'] + ' ' + t[len(it['w']):]
        if k: s += ' ' if it['w'] in '(O%/#+-' or it['as'] or not r or r.random() < .6 else ''
        s += t
    return s

def same(it, t):
    """the text t of a word of the result is the item it: signs and numbers compared by what they mean"""
    e = text_of(it)
    if e == t: return True
    if it['w'] in '(O%': return False
    def norm(s):
        k = len(it['w']); a, r = s[:k], s[k:]
        if it['as']: return s
        neg = r[:1] == '-'; r = r[1:] if r[:1] in ('-', '+') else r
        br = r[:len(r) - len(r.lstrip('['))]; r = r[len(br):]
        m = r[:1] == '#'; r = r[1:] if m else r
        e = r[len(r.rstrip(']')):]; r = r.rstrip(']')
        i, dot, f = r.partition('.')
        if (i + f) and not (i + f).isdigit(): return s
        return (a, neg, br, m, i.lstrip('0'), f.rstrip('0'), bool(i + f), e)
    return norm(e) == norm(t)

def explore(chk, alphabet, depth, scripts, which, driver):
    d = tempfile.mkdtemp(prefix='t', dir=run.work()); t = nc.table(driver)
    def digits(u): return {a: len(str(t[u][a]['dt'])) if t[u][a]['dt'] > 0 else 0 for a in t[u] if t[u][a]['type'] in ('length', 'feed')}
    json.dump(dict(alphabet=alphabet, depth=depth, scripts=scripts, which=which, digits={'mm': digits('metric'), 'in': digits('imperial')}), open(d + '/in.json', 'w'))
    r = run.tlc('NCTextTour', env=dict(NC_IN=d + '/in.json')); chk.tlc(r); out = []
    for l in r['out'].split('\n'):
        if l.startswith('"TEXT '):
            e = json.loads(json.loads(l)[5:]); h = e['h']
            out.append((scripts[-h[0] - 1] if h[0] < 0 else [alphabet[i - 1] for i in h], e['o']))
    return out

ROT = ['X 90', 'X 180', 'X 270', 'Y 90', 'Y 180', 'Y 270', 'Z 90', 'Z 180', 'Z 270']
def ask(chk, cases, driver, label, units='mm', bare=False):
    """cases: (block, command, expected: a list of sets of items, what it is)"""
    c = Config(driver=driver, calc=False, units=units); f = run.settings_file(c); N = 300; groups = []; r = chk.rng
    cs = [(b, spell(b, r), cmd, e, w) for b, cmd, e, w in cases]
    for i in range(0, len(cs), N): groups.append(['bare\t' + driver if bare else 'new\t%s\t0' % f] + ['%s\t%s' % (cmd, s) for b, s, cmd, e, w in cs[i:i + N]])
    n = 0
    for g, (q, a) in enumerate(zip(groups, run.vh(groups))):
        for j, (b, s, cmd, e, w) in enumerate(cs[g * N:g * N + N]):
            l = a[j + 1].split('\t') if j + 1 < len(a) else ['EXC', 'the parser stopped']; rep = dict(driver=driver, units=units, operation=cmd.replace('\t', ' '), block=s); n += 1
            if l[0] == 'EXC': chk.violation('%s: %s of %s: %s' % (label, w, s, l[1:]), rep); break
            got = [x for x in (l[2] if len(l) > 2 else '').replace('\\\\', '\\').split('\x1f')] if len(l) > 2 and l[2] else []
            want = ' '.join(text_of(x[0]) for x in e)
            if l[0] != '1': chk.violation('%s: %s of %s is refused: %s' % (label, w, s, l[1]), rep)
            elif len(got) != len(e) or not all(any(same(it, t) for it in x) for x, t in zip(e, got)):
                chk.violation('%s: %s of %s gives %s instead of %s' % (label, w, s, ' '.join(got), want), rep)
    chk.traces(n); chk.extra['blocks'] = chk.extra.get('blocks', 0) + n
    if cs: chk.sample(dict(operation=cs[len(cs) // 2][4], block=cs[len(cs) // 2][1], expected=' '.join(text_of(x[0]) for x in cs[len(cs) // 2][3])))

def one(seq): return [[it] for it in seq]

# ---------------------------------------------------------------- random blocks
def digits(r, n): return ''.join(r.choice('0123456789') for _ in range(n))
def rnum(r, w, t, whole=None, fsize=None):
    """a number the address takes"""
    l = t[w]; top = max(l['rt'], 1)
    i = r.choice(['', '0', str(r.randint(0, min(9, top))), str(r.randint(0, min(99, top))), str(r.randint(0, min(999, top))), str(r.randint(0, top)), '0' + str(r.randint(0, min(99, top)))])
    f = ''
    if l['dt'] > 0 and r.random() < .6:
        n = len(str(l['dt'])); f = digits(r, r.randint(1, min(n, fsize or 9)))
        if int(f) > l['dt']: f = ''
    if not i and not f: i = '0'
    return i, f
def rword(r, t, w):
    l = t[w]; i, f = rnum(r, w, t)
    sg = r.choice(['', '', '', '-', '+']) if l['rf'] < 0 else ''
    return item(w, i, f, bool(f) or (bool(i) and l['dt'] > 0 and r.random() < .15), sg)
OTHERS = ['A', 'B', 'C', 'D', 'H', 'L', 'P', 'Q', 'S', 'M', ',C', ',R']
def rcode(r):
    c = r.choice(['0', '1', '2', '3', '02', '03', '17', '18', '19', '20', '21', '020', '4', '04', '68', '68.2', '68.3', '68.4', '69', '28', '43', '54', '54.1', '80', '81', '83', '90', '91', '94', '98'])
    i, _, f = c.partition('.')
    return item('G', i, f)
TEXTS = ['ABC', '', 'X5 Y6', 'a b', 'G20 F100', 'N10', '/1', 'T1 D=5.']
def rblock(r, t, axes, n=None):
    b = []; top = n or r.randint(1, 8); used = set()
    x = r.random()
    if x < .15: b.append(item('N', str(r.randint(1, 99999))))
    elif x < .2: b.append(item(':', str(r.randint(0, 9999))))
    elif x < .27: b.append(item('/', r.choice(['', '', '1', '2', '9'])))
    elif x < .3: b += [item('/', '1'), item('/', '2')]
    while len(b) < top:
        x = r.random()
        if x < .5:
            w = r.choice(axes)
            b.append(rword(r, t, w))
        elif x < .58: b.append(item(r.choice(axes), r.choice(['1', '100', '501', '24']), m='#', sg=r.choice(['', '-', '+'])))
        elif x < .8: b.append(rcode(r))
        elif x < .9:
            w = r.choice([o for o in OTHERS if o in t]); b.append(rword(r, t, w))
        elif x < .96: b.append(comment(r.choice(TEXTS)))
        elif x < .98:
            b += [item(r.choice(axes), '5', m='', op='[', sg=r.choice(['', '-'])), item('+', '3', cl=']')]
        else: b.append(item('N', str(r.randint(1, 9999))))
    if r.random() < .04: b = [START] if r.random() < .5 else [name(r.choice(['1234', '0001', '77']))]
    return b

LEN = list('XYZUVWIJKR')
def conv_axes(t): return [a for a in LEN + ['F'] if a in t]

def T01(chk):
    r = chk.rng; full = chk.full()
    A = [word(x) for x in ('X10.', 'Y-2.54', 'F100', 'G20', 'G21', 'G04', 'G68', 'G68.2', 'I3.5', 'R0.1', '/', 'P500', 'Z#1', 'N10')] + [comment('X5'), item('/', '1'), item('K', '0', '05', sg='+')]
    for n, d in enumerate(nc.DRIVERS if full else r.sample(nc.DRIVERS, 3)):
        t = {'metric': nc.table(d)['metric'], 'imperial': nc.table(d)['imperial']}
        sc = []
        for u in ('metric', 'imperial'):
            ax = conv_axes(t[u])
            for _ in range(4000 if full else 700): sc.append(rblock(r, t[u], ax))
            # every address with numbers of every size and number of digits
            for w in ax:
                l = t[u][w]
                for i in ('', '0', '1', '9', '25', '100', '999', '1000', '1270', '9999', '50000', str(l['rt'])):
                    for f in ('', '0', '5', '25', '54', '127', '001', '9999', '0127', '12345', '000001', str(l['dt'])):
                        if (i or f) and (not i or int(i) <= l['rt']) and (not f or (l['dt'] > 0 and int(f) <= l['dt'] and len(f) <= len(str(l['dt'])))) and r.random() < (1 if full else .5):
                            sc.append([item(w, i, f, sg=r.choice(['', '-']) if l['rf'] < 0 else '')])
        out = explore(chk, r.sample(A, 8) if not full else r.sample(A, 13), 3, sc, ['conv'], d)
        chk.extra['drivers'] = chk.extra.get('drivers', 0) + 1
        for to in ('in', 'mm'):
            u = 'mm' if to == 'in' else 'in'
            tt = t['metric' if u == 'mm' else 'imperial']
            ask(chk, [(b, 'conv\t' + to, o[to], 'conversion to ' + to) for b, o in out if readable(b) and valid(b, tt)], d, 'T01', u)
        if chk.violations: return

def valid(b, t):
    """the words are within the limits t and so readable in these units"""
    for it in b:
        if it['w'] not in t or it['m']: continue
        l = t[it['w']]; i = int(''.join(map(str, it['i'])) or 0); f = ''.join(map(str, it['f']))
        v = -i if it['sg'] == '-' else i
        if not l['rf'] <= v <= l['rt']: return False
        if it['sg'] == '-' and l['rf'] >= 0: return False
        if f and (l['dt'] <= 0 or int(f) > l['dt']): return False
    return True

def T02(chk):
    r = chk.rng; full = chk.full(); ax = list('XYZIJK')
    A = [word(x) for x in ('X10.', 'Y-2.5', 'Z+3', 'I1', 'J-.5', 'K0', 'G17', 'G18', 'G19', 'G2', 'G03', 'R5', 'X#1', 'Y-#2', 'A30.', 'G0', 'P18', 'M3')] + [comment('X5 G17')]
    d = r.choice(nc.DRIVERS); t = nc.table(d)['metric']
    sc = [rblock(r, t, ax) for _ in range(6000 if full else 1500)]
    for w in ax:
        for sg in ('', '-', '+'):
            for i, f, m in (('5', '', ''), ('', '5', ''), ('0', '', ''), ('12', '345', ''), ('3', '', '#')): sc.append([item(w, i, f, sg=sg, m=m)])
    for g in ['0', '00', '1', '2', '3', '02', '03', '002', '003', '017', '18', '019', '4', '20', '12', '13', '22', '23', '32', '33', '170', '180', '217', '219', '117']: sc.append([item('G', g), word('X1')])
    out = [(b, o) for b, o in explore(chk, A if full else r.sample(A, 10), 3, sc, ['rot'], d) if readable(b) and valid(b, t)]
    for n in range(9):
        part = out if full else [x for x in out if r.random() < .6]
        ask(chk, [(b, 'rot\t%d' % n, one(o['rot'][n]), 'rotation %s' % ROT[n]) for b, o in part], d, 'T02')
        if chk.violations: return

def T05(chk):
    r = chk.rng; full = chk.full(); d = r.choice(nc.DRIVERS); t = nc.table(d)['metric']
    A = [item('/'), item('/', '1'), item('/', '9'), comment('AB'), comment(''), comment('/1 (X'), word('X5.'), word('G1'), word('N10'), word('Y#1')]
    sc = []
    for _ in range(8000 if full else 2000):
        b = rblock(r, t, list('XYZ'))
        for _ in range(r.randint(0, 3)):
            k = r.randint(0, len(b)); x = comment(r.choice(TEXTS)) if r.random() < .5 else item('/', r.choice(['', '1', '3', '9']))
            if not (b and b[0]['w'] in '%O'): b = b[:k] + [x] + b[k:] if not (k < len(b) and b[k]['w'] == '+') else b
        sc.append(b)
    out = [(b, o) for b, o in explore(chk, A, 5 if full else 4, sc, ['rem'], d) if readable(b) and valid(b, t)]
    for cmd, k, w in (('uncom', 'nc', 'removal of comments'), ('unopt', 'nm', 'removal of marks')):
        ask(chk, [(b, cmd, one(o[k]), w) for b, o in out], d, 'T05')

def readable(b):
    """a mark without number directly before another one is no NC code"""
    return not any(x['w'] == '/' and not x['i'] and y['w'] == '/' for x, y in zip(b, b[1:]))

# ---------------------------------------------------------------- numbering
def numbering(chk, label, B, S, n_scripts, depth, n_settings=0, bare=False):
    r = chk.rng; full = chk.full(); d = r.choice(nc.DRIVERS); t = nc.table(d)['metric']
    def setting():
        st = r.choice([1, 1, 5, 10, 100, r.randint(1, 99990)]); w = r.choice(['N', 'N', 'N', ':'])
        return dict(word=w, step=r.choice([1, 1, 2, 5, 10, 0, 1000]), freq=r.choice([0, 1, 1, 2, 3, 5]), max=r.choice([99999, 9999, st, st + 3, st + 20, st + 100]), only=r.random() < .3, zeros=r.random() < .3, start=st)
    S = S + [setting() for _ in range(n_settings)]
    scripts = []
    while len(scripts) < n_scripts:
        p = []
        for _ in range(r.randint(3, 25)):
            b = rblock(r, t, list('XYZ'), n=r.choice([1, 2, 3, 4]))
            if r.random() < .3 and b[0]['w'] not in ('%', 'O', '/', 'N', ':'): b = [word('N%d' % r.randint(1, 99999))] + b
            if readable(b) and valid(b, t): p.append(b)
        scripts.append(dict(s=setting(), p=p))
    w = tempfile.mkdtemp(prefix='t', dir=run.work())
    json.dump(dict(blocks=B, settings=S, scripts=[s for s in scripts if s['p']], depth=depth), open(w + '/in.json', 'w'))
    scripts = [s for s in scripts if s['p']]
    q = run.tlc('NCNumTour', env=dict(NC_IN=w + '/in.json')); chk.tlc(q); groups = []; meta = []
    f = run.settings_file(Config(driver=d, calc=False)); progs = []
    for l in q['out'].split('\n'):
        if l.startswith('"NUM '):
            e = json.loads(json.loads(l)[4:]); c = e['c']
            progs.append((S[c - 1], [B[i - 1] for i in e['h']], e['o']) if c > 0 else (scripts[-c - 1]['s'], scripts[-c - 1]['p'], e['o']))
    N = 100; lists = []
    for g in range(0, len(progs), N):
        cmds = ['bare\t' + d if bare else 'new\t%s\t0' % f]; li = []
        for s, p, o in progs[g:g + N]:
            cmds.append('numreset\t%d' % s['start']); li.append(None)
            for b in p:
                x = spell(b, r); li.append(x)
                cmds.append('renum\t%s\t%d\t%d\t%d\t%d\t%d\t%s' % (s['word'], s['step'], s['freq'], s['max'], s['only'], s['zeros'], x))
        groups.append(cmds); lists.append(li)
    n = 0
    for g, a in enumerate(run.vh(groups)):
        k = 1
        for s, p, o in progs[g * N:g * N + N]:
            k += 1; start = k
            for j, (b, e) in enumerate(zip(p, o)):
                l = a[k].split('\t') if k < len(a) else ['EXC', 'the parser stopped']; n += 1
                got = l[2].split('\x1f') if len(l) > 2 and l[2] else []
                bad = l[0] != '1' or len(got) != len(e) or not all(same(x, y) and (i or not s['zeros'] or not TN(x) or text_of(x) == y) for i, (x, y) in enumerate(zip(e, got)))
                if bad:
                    chk.violation(label + ': %s gives %s instead of %s with %s after %d blocks' % (lists[g][k - 1], ' '.join(got) if l[0] == '1' else l, ' '.join(map(text_of, e)), s, j),
                                  dict(driver=d, settings=s, blocks=lists[g][start - 1:k], how='renumber the blocks one after the other, the counter set to start before')); break
                k += 1
            k = start + len(p)
            if len(chk.violations) > 10: break
    chk.traces(n); chk.extra['programs'] = len(progs); chk.sample(dict(settings=progs[-1][0], blocks=[spell(b) for b in progs[-1][1]], expected=[' '.join(map(text_of, b)) for b in progs[-1][2]]))
    return d, t, [b for s in scripts for b in s['p']]

def T03(chk):
    r = chk.rng; full = chk.full()
    B = [[word('X5.')], [word('N7'), word('X5.')], [item('/'), word('X1')], [comment('a'), word('X2')], [item(':', '12'), word('Z3')], [name('1234')], [START], [word('N9')], [word('G1'), comment('N3'), word('N4')]]
    S = [dict(word='N', step=1, freq=1, max=99999, only=False, zeros=False, start=1), dict(word='N', step=10, freq=2, max=25, only=False, zeros=True, start=10),
         dict(word='N', step=5, freq=3, max=99999, only=True, zeros=False, start=5), dict(word=':', step=2, freq=0, max=5, only=False, zeros=False, start=1),
         dict(word='N', step=3, freq=1, max=10, only=True, zeros=True, start=4)]
    d, t, sc = numbering(chk, 'T03', B, S, 1500 if full else 250, 4 if full else 3, 8 if full else 3)
    if chk.violations: return
    # removal of numbers
    out = [(b, o) for b, o in explore(chk, [word('N10'), word(':5'), word('X5.'), word('N3'), comment('N1'), item('/')], 3, sc[:3000], ['rem'], d) if readable(b) and valid(b, t)]
    ask(chk, [(b, 'unnum', one(o['nn']), 'removal of numbers') for b, o in out], d, 'T03')
def TN(it): return it['w'] in ('N', ':')

# ---------------------------------------------------------------- splitting
import gen, progs as prg, random
from nc import SCALE
TYPES = ['blocks', 'path', 'time', 'tool', 'text']
CYCLES = {73, 74, 76, 81, 82, 83, 84, 85, 86, 87, 88, 89}
def kind(b, cfg, text, line):
    """what splitting looks at in a block of words (None: nothing general can be said)"""
    mots, tool = [], False; seen = []
    for w in b:
        if w['a'] == '/': break
        if w['a'] in 'GMT' and w['k'] == 'var': return None
        if w['k'] != 'num': continue
        if w['a'] == 'G' and w['fd'] == 0:
            c = w['ip']
            if c in (0, 1, 2, 3, 80) or c in CYCLES: mots.append(c)
        if w['a'] == 'M' and w['ip'] == 6 and not cfg.p['tnum'] and not w['dot']: tool = True
        if w['a'] == 'T' and cfg.p['tnum'] and not w['dot']: tool = True
    m = -1
    if mots:
        mo = [c for c in mots if c <= 3]; cy = [c for c in mots if c in CYCLES]
        if cy and (mo or 80 in mots) or len(mo) > 1: return None
        m = mo[0] if mo else 81 if cy else 80
    first = b[0]['a'] if b else ''
    return dict(mot=m, tool=tool, path=0, time=0, text=bool(text) and text in line, num=bool(b) and first not in ('/', '%', 'O', '('))

def squeeze(s):
    """a line without blanks outside comments"""
    out = ''; c = False
    for ch in s:
        if ch == '(' : c = True
        if ch == ')' : c = False
        if c or ch not in ' \t': out += ch
    return out

def split_all(chk, jobs, label):
    """jobs: (Config, lines, kinds, wish, retract text) -> judged by NCSplit"""
    w = tempfile.mkdtemp(prefix='t', dir=run.work())
    json.dump(dict(blocks=[], wishes=[], scripts=[dict(w=j[3], p=j[2]) for j in jobs], depth=0), open(w + '/in.json', 'w'))
    q = run.tlc('NCSplitTour', env=dict(NC_IN=w + '/in.json')); chk.tlc(q); exp = {}
    for l in q['out'].split('\n'):
        if l.startswith('"SPLIT '):
            e = json.loads(json.loads(l)[6:]); exp[-e['c'] - 1] = (e['o'], e['n'])
    judge_split(chk, [(j[0], j[1], j[3], j[4]) + exp[i] for i, j in enumerate(jobs)], label)

def start(c): return 'bare\t' + c.p['driver'] if c.bare else 'new\t' + run.settings_file(c)
def judge_split(chk, cases, label):
    groups = []
    for c, lines, w, ret, o, n in cases:
        lim = w['limit']; t = w['type']
        groups.append([start(c), '\t'.join(['split', t, str(lim if t == 'blocks' else 0), str(w['whole'] if t == 'time' else 0), str(w['whole'] if t == 'path' else 0),
                       w['find'], '1' if w['rapid'] else '0', ret] + [run.esc(l) for l in lines])])
    for (c, lines, w, ret, o, n), a in zip(cases, run.vh(groups)):
        l = a[1].split('\t') if len(a) > 1 else ['EXC', 'the parser stopped']
        rep = dict(settings=None if c.bare else c.settings(), wish=w, retract=ret, lines=lines)
        if c.bare and w['type'] in ('path', 'time'):
            if l[0] != '0' or not l[1]: chk.violation('%s: splitting by %s without a machine is not reported but gives %s' % (label, w['type'], l), rep)
            continue
        if l[0] != '1': chk.violation('%s: splitting by %s is refused: %s' % (label, w['type'], l), rep); continue
        parts = [[] if p == '\x1d' else [[] if b == '' else b.split('\x1f') for b in p.split('\x1e')] for p in l[2:]]
        want = []; k = 0
        for p in o:
            x = []
            for i in p:
                t = squeeze(ret if i == 0 else lines[i - 1]); nn = n[k]; k += 1
                import re
                t = re.sub(r'^[N:]\d+', '', t)
                x.append(('N%d' % nn if nn else '') + t)
            want.append(x)
        got = [[''.join(b).replace('\\\\', '\\') for b in p] for p in parts]
        if got != want:
            i = next((i for i in range(max(len(got), len(want))) if i >= len(got) or i >= len(want) or got[i] != want[i]))
            chk.violation('%s: part %d of splitting by %s (%s) is %s instead of %s' % (label, i + 1, w['type'], w, got[i][:40] if i < len(got) else None, want[i][:40] if i < len(want) else None), rep)
    chk.traces(len(cases)); chk.extra['splits'] = chk.extra.get('splits', 0) + len(cases)
    if cases: chk.sample(dict(wish=cases[-1][2], lines=cases[-1][1][:12], parts=cases[-1][4]))

def rwish(r, kinds, retract, text):
    t = r.choice(TYPES); f = dict(type=t, limit=1, whole=1, rapid=r.random() < .4, retract=retract, rnum=True, find=text)
    if t == 'blocks': f['limit'] = f['whole'] = r.choice([1, 2, 3, 4, 5, 7, 10])
    if t in ('path', 'time'):
        tot = sum(k['path' if t == 'path' else 'time'] for k in kinds)
        for _ in range(20):
            w = r.randint(1, max(1, tot // 1000 // r.randint(1, 6)))
            f['whole'] = w; f['limit'] = w * 1000
            if clear(kinds, f): return f
        return None
    return f
def clear(kinds, f):
    """no sum comes so near to the limit that rounding decides"""
    a = 'path' if f['type'] == 'path' else 'time'
    for i in range(len(kinds)):
        s = 0
        for k in kinds[i:]:
            s += k[a]
            if abs(s - f['limit']) <= 30: return False
            if s > f['limit'] + 30: break
    return True

def split_programs(chk, label, n, bare=False):
    """programs of every kind; bare: without a machine, which has no cycles that end by themselves and no tools but by M6"""
    r = chk.rng
    wt = dict(line=5, arc=1, drill=2.5, tool=1, modes=.8, home=.2, dwell=.3, other=.5, optional=.3, empty=.4, mode=.1, outside=0, number=.2)
    ps = []
    for _ in range(n):
        cc = prg.rcfg(r, c0=True, c1=True, c2=True, c3=True, operator=True, **(dict(tnum=False, units='mm') if bare else {})); cc.bare = bare; ps.append((cc, gen.Gen(r, cc, wt).program(r.randint(8, 40))))
    exp, q = run.expect(ps); chk.tlc(q); jobs = []; skipped = 0
    import conform as cf
    for (cc, bl), e in zip(ps, exp):
        lines = [nc.block_text(b, r) for b in bl]; keep = []
        text = r.choice(['AA', 'X1', 'G0', '(', 'M', 'T', 'Z-', 'abc', '5'])
        ks = [kind(b, cc, text, l) for b, l in zip(bl, lines)]
        cut = len(ks)
        for i, (k, x) in enumerate(zip(ks, e)):
            if k is None or not x['ok']: cut = i; break
            if bare and k['mot'] == 81: cut = i; break
            v = cf.term_value(x['w'])
            if v is cf.UNDEF: cut = i; break
            k['path'] = round(v * 1000); k['time'] = round(nc.work_time(v, x['rate']) * 1000) if v > 0 else 0
            if k['path'] > 5 * 10 ** 7 or k['time'] > 5 * 10 ** 7: cut = i; break
        lines, ks = lines[:cut], ks[:cut]
        for i, (l, k) in enumerate(zip(lines, ks)):
            if k['num'] and '(' not in l and r.random() < .1: lines[i] = l + ' S%d=%d' % (r.choice([1, 2, 3]), r.randint(0, 900)); k['text'] = bool(text) and text in lines[i]
        if len(lines) < 4: skipped += 1; continue
        for i in sorted(r.sample(range(len(lines)), r.choice([0, 0, 1, 2])), reverse=True):
            lines.insert(i, r.choice(['', '  '])); ks.insert(i, dict(mot=-1, tool=False, path=0, time=0, text=False, num=False))
        ret = r.choice(['', 'G0 Z5.', 'M9'])
        for _ in range(3):
            w = rwish(r, ks, bool(ret), text)
            if w: jobs.append((cc, lines, ks, w, ret))
    split_all(chk, jobs, label + ' program')
    chk.extra['too_short'] = skipped
    return jobs

def T04(chk):
    r = chk.rng; full = chk.full()
    # all programs of a small alphabet
    K = lambda mot=-1, tool=False, path=0, text=False, num=True, time=None: dict(mot=mot, tool=tool, path=path, time=path // 10 if time is None else time, text=text, num=num)
    AL = [('G0X5', K(0)), ('G1X10F600', K(1, path=10000, time=1000)), ('M8', K()), ('G81X1Z-5R-2F600', K(81, path=5000, time=500)), ('G80', K(80)), ('T1M6', K(tool=True)), ('(AA)', K(text=True, num=False)), ('', K(num=False)),
          ('G0G90X5', K(0)), ('G0G80X1', K(0)), ('/1G0X5', K(num=False)), ('N5G2X1I.5F600', None)]
    wish = lambda t, lim, whole, rapid, ret: dict(type=t, limit=lim, whole=whole, rapid=rapid, retract=ret, rnum=True, find='AA')
    W1 = [wish('blocks', 1, 1, False, False), wish('blocks', 2, 2, False, True), wish('blocks', 1, 1, True, False), wish('blocks', 3, 3, True, True), wish('tool', 0, 0, False, True), wish('tool', 0, 0, False, False), wish('text', 0, 0, False, True), wish('text', 0, 0, False, False)]
    W2 = [wish('path', 7000, 7, False, True), wish('path', 12000, 12, True, False), wish('time', 1000 + 200, 1, False, False)]
    base = dict(axes=prg.FREE, operator=True, prog=91, c0=True, c1=True, c2=True, c3=True)
    for ws, pick, dep in ((W1, [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10] if full else [0, 1, 2, 3, 4, 5, 6], 5 if full else 4), (W2[:2], [0, 1, 2, 4, 7], 6 if full else 5)):
        al = [AL[i] for i in pick]; w = tempfile.mkdtemp(prefix='t', dir=run.work())
        json.dump(dict(blocks=[k for t, k in al], wishes=ws, scripts=[], depth=dep), open(w + '/in.json', 'w'))
        q = run.tlc('NCSplitTour', env=dict(NC_IN=w + '/in.json')); chk.tlc(q); cases = []
        c = Config(**base)
        for l in q['out'].split('\n'):
            if l.startswith('"SPLIT '):
                e = json.loads(json.loads(l)[6:]); x = ws[e['c'] - 1]
                if len(e['h']) < dep and r.random() < .8: continue
                if r.random() > (.5 if full else 6000 / (len(ws) * len(al) ** dep)): continue
                cases.append((c, [al[i - 1][0] for i in e['h']], x, 'G0Z5' if x['retract'] else '', e['o'], e['n']))
        judge_split(chk, cases, 'T04 tour')
        if chk.violations: return
    split_programs(chk, 'T04', 1500 if full else 220)
    # what cannot be split is reported
    c = Config(); f = run.settings_file(c)
    bad = [['split\t%s\t%d\t%d\t%d\tAA\t0\t%s\tG0 X1\tG1 X2 F100\tX3' % x] for x in (('blocks', 0, 0, 0, ''), ('blocks', -1, 5, 5, ''), ('path', 5, 5, 0, ''), ('time', 5, 0, 5, ''), ('time', 5, -2, 5, ''), ('blocks', 2, 0, 0, 'G0 X$'), ('path', 0, 0, 5, 'G1 X$'))]
    bad += [['split\t%s\t2\t2\t2\tAA\t0\t\tG0 X1\tG1 X$2 F100\tX3' % t] for t in TYPES] + [['split\ttext\t2\t2\t2\tAA\t0\tG0 X$\tG0 X1\t(AA)\tX3']]
    for b, a in zip(bad, run.vh([['new\t' + f] + b for b in bad])):
        l = a[1].split('\t') if len(a) > 1 else ['EXC']
        if l[0] != '0' or not l[1]: chk.violation('T04: %s is not reported but gives %s' % (b[0].replace('\t', ' '), l), dict(command=b[0]))
    chk.traces(len(bad))
