"""S04, S05, S07: whole documents. NCDoc says which lines are accepted, where their diagnostics are and what each line takes; the server is given the text."""
import json, math, os, re, tempfile, shutil
import conform, gen, nc, progs, rules, run, server, session
from nc import Config, SCALE, string, none

def u16(s): return len(s.encode('utf-16-le', 'surrogatepass')) // 2
JUNK = ['$', '@', 'x1', 'E5', '&', '!', '?', '"', "'", '~', '{', '}', '^', 'ä', '€', '😀', 'abc', 'g1', '|', '\\', '`', 'q', ';', '<5>']
def junk(t): return dict(none('X'), txt=t)
def word_text(w, r):
    return w['txt'] if 'txt' in w else nc.word_text(w, r)

def line_of(b, r, margin=True):
    """a block, None (blank) or (text of a blank line) -> (text, line of the specification)"""
    if b is None or isinstance(b, str):
        t = b if b is not None else (r.choice(['', '', ' ', '\t', '   ']) if r else ''); return t, dict(b=[], gaps=[], widths=[], blank=True, len=u16(t.rstrip()))
    s = ''; gaps = []; widths = []
    for i, w in enumerate(b):
        t = word_text(w, r); g = ''
        if i == 0: g = r.choice(['', '', '', ' ', '  ', '\t', ' \t ']) if r and margin else ''
        elif 'txt' in w or w['a'] == '/' or (w['k'] == 'num' and w['a'].isdigit()) or w['k'] == 'none' or b[i - 1]['k'] == 'none': g = ' ' * (r.choice([1, 1, 2, 5]) if r else 1)
        elif not r or r.random() < .6: g = r.choice([' ', ' ', '  ', '\t']) if r else ' '
        s += g + t; gaps.append(u16(g)); widths.append(u16(t))
    l = u16(s)
    if r and margin and r.random() < .2: s += r.choice([' ', '\t', '   '])
    return s, dict(b=[{k: v for k, v in nc.slim(w).items() if k != 'txt'} for w in b], gaps=gaps, widths=widths, blank=False, len=l)

def ascii_words(b):
    """the specification needs no letters outside ASCII"""
    return [dict(w, ds='x') if w['k'] == 'str' and not w['ds'].isascii() else w for w in b]

def expect(chk, docs, alphabet=(), depth=0, configs=()):
    """docs: [(Config, [line records])] -> per document dict(d diagnostics, s what each line shows); with an alphabet also [(config, history, diagnostics)]"""
    d = tempfile.mkdtemp(prefix='s', dir=run.work()); os.makedirs(d + '/out')
    whole = lambda c: dict(c.spec(), calc=True)         # the option of the server is about lenses only
    keys = {}; cs = [whole(c) for c in configs]; ds = []
    for c, ls in docs:
        k = c.key()
        if k not in keys: cs.append(whole(c)); keys[k] = len(cs)
        ds.append(dict(c=keys[k], ls=[dict(l, b=ascii_words(l['b'])) for l in ls]))
    json.dump(dict(configs=cs, docs=ds, alphabet=[dict(l, b=ascii_words(l['b'])) for l in alphabet], depth=depth), open(d + '/in.json', 'w'))
    r = run.tlc('NCDocTour', env=dict(NC_IN=d + '/in.json', NC_OUT=d + '/out')); chk.tlc(r)
    res = [json.load(open('%s/out/%d.json' % (d, i + 1))) if ls else dict(d=[], s=[]) for i, (c, ls) in enumerate(docs)]
    tour = [json.loads(json.loads(l)[4:]) for l in r['out'].split('\n') if l.startswith('"DOC ')] if alphabet else []
    shutil.rmtree(d)
    return res, tour

# ------------------------------------------------------------------- diagnostics
def compare_diagnostics(want, got, names=False):
    """-> None or what differs"""
    g = []
    for x in got:
        try:
            s, e = x['range']['start'], x['range']['end']; g.append((s['line'], s['character'], x['message']))
            if x.get('severity') != 1: return 'a diagnostic that is no error: %s' % x
            if e['line'] != s['line'] or e['character'] < s['character']: return 'a diagnostic with an odd range: %s' % x
            if not isinstance(x['message'], str) or not x['message'].strip(): return 'a diagnostic without text: %s' % x
        except (KeyError, TypeError): return 'a malformed diagnostic: %s' % x
    wl, gl = [w['line'] for w in want], [x[0] for x in g]
    if wl != gl:
        more, less = sorted(set(gl) - set(wl)), sorted(set(wl) - set(gl))
        return 'diagnostics of the lines %s, but these are not accepted: %s%s' % (gl[:12], wl[:12], ' (line %d: %s)' % (less[0], [w['err'] for w in want if w['line'] == less[0]][0]) if less else ' (line %d: %s)' % (more[0], [x[2] for x in g if x[0] == more[0]][0]) if more else '')
    for w, x in zip(want, g):
        if not w['from'] <= x[1] <= w['to']: return 'the diagnostic of line %d (%s) is at character %d instead of %d' % (w['line'], w['err'], x[1], w['from'])
        if names and w['names'] and not any(re.search(r'(?<![A-Za-z0-9])%s(?![A-Za-z0-9.])' % re.escape(n), x[2]) for n in w['names']): return 'the diagnostic of line %d names none of %s: %s' % (w['line'], w['names'], x[2])
    return None

# ------------------------------------------------------------------------ lenses
def clock(s):
    m = re.fullmatch(r'(?:(\d+):)?(\d+):(\d\d)\.(\d\d\d)', s)
    if not m or (m.group(1) and (len(m.group(2)) != 2 or m.group(1) == '0')) or int(m.group(3)) > 59 or int(m.group(2)) > 59 or (not m.group(1) and len(m.group(2)) == 2 and m.group(2)[0] == '0'): return None
    return int(m.group(1) or 0) * 3600 + int(m.group(2)) * 60 + int(m.group(3)) + int(m.group(4)) / 1000
NAMES = ('Total path', 'Total time', 'tool', 'Total rapid path', 'Total rapid time', 'Total cut path', 'Total cut time')
def title(t):
    """-> {part: value} or None"""
    r = {}
    if t == '': return r
    if not t.startswith(' | '): return None
    for p in t[3:].split(' | '):
        m = re.fullmatch(r'(T(\S*) total path|Total path|Total rapid path|Total cut path|Total time|Total rapid time|Total cut time) = (\S+)', p)
        if not m: return None
        k = 'tool' if m.group(2) is not None else m.group(1)
        v = clock(m.group(3)) if k.endswith('time') else float(m.group(3)) if re.fullmatch(r'\d+\.\d\d', m.group(3)) else None
        if v is None or k in r: return None
        r[k] = (m.group(2), v) if k == 'tool' else v
    return r if [k for k in NAMES if k in r] == list(r) else None

def compare_lenses(cfg, shows, got):
    """shows: what the specification shows per line ([] for blank lines)"""
    by = {}
    for x in got or []:
        try: k = x['range']['start']['line']; by[k] = x['command']['title']
        except (KeyError, TypeError): return 'a malformed lens: %s' % x, 0
    ks = [x['range']['start']['line'] for x in got or []]
    if ks != sorted(set(ks)): return 'lenses out of order or twice on a line: %s' % ks, 0
    P = T = RP = RT = CP = CT = 0.; tol = ttol = 1e-6; tp = {}; n = 0
    for k, s in enumerate(shows):
        if not s:
            if k in by: return 'a lens on the blank line %d' % k, n
            continue
        s = s[0]; w, f = conform.term_value(s['w']), conform.term_value(s['f'])
        if w is conform.UNDEF or f is conform.UNDEF: return None, n
        wt = nc.work_time(w, s['rate']) if w > 0 else 0.; ft = 60 * f / cfg.p['maxff'] if f > 0 else 0.; wait = s['wait'] / SCALE; dt = wt + ft + wait
        e = conform.term_tol(s['w']); tol += e + 1e-9 * (w + f); ttol += 1e-9 * dt + (e / w * 2 * wt if w > 0 else 0)
        P += w + f; T += dt; RP += f; CP += w; RT += ft; CT += wt; tp[s['tool']] = tp.get(s['tool'], 0.) + w + f
        if dt == 0:
            if k in by: return 'a lens on line %d, which takes no time: %s' % (k, by[k]), n
            continue
        if dt < 1e-7: continue
        if k not in by: return 'no lens on line %d, which takes %.6f s' % (k, dt), n
        t = title(by[k]); n += 1
        if t is None: return 'the lens of line %d reads %r' % (k, by[k]), n
        want = {'Total path': (P, P, tol), 'Total time': (T, T, ttol), 'tool': (tp[s['tool']], min(tp[s['tool']], P - tp[s['tool']]), tol),
                'Total rapid path': (RP, f, tol), 'Total rapid time': (RT, ft, ttol), 'Total cut path': (CP, w, tol), 'Total cut time': (CT, wt, ttol)}
        for q, (v, shown, e) in want.items():
            if shown >= .01 + e + 1e-9 and q not in t: return 'the lens of line %d misses %s: %r' % (k, q, by[k]), n
            if shown < .01 - e - 1e-9 and q in t: return 'the lens of line %d shows %s: %r' % (k, q, by[k]), n
            if q in t:
                g = t[q]
                if q == 'tool':
                    if g[0] != s['tool']: return 'the lens of line %d is about tool %s instead of %s' % (k, g[0], s['tool']), n
                    g = g[1]
                if abs(g - v) > (.0005 if q.endswith('time') else .005) + e + 1e-6: return 'the lens of line %d says %s = %s instead of %.4f: %r' % (k, q, g, v, by[k]), n
    if set(by) - set(range(len(shows))): return 'lenses on lines the document does not have', n
    return None, n

def judge(chk, docs, label, fields=('diag',), args=None, names=False):
    """docs: [(Config or None for the defaults, text, expected)]"""
    jobs = []; u = session.URIS[0]
    for c, text, e in docs:
        st = run.settings_file(c) if args is None else None
        jobs.append((b''.join(map(server.frame, [server.opened(u, text), server.lens(u, 1)])), server.args(st, c.p['calc']) if args is None else args))
    for (c, text, e), (out, bad) in zip(docs, server.many(jobs)):
        rep = dict(settings=c.settings(), text=text, calculate_path=c.p['calc'])
        if bad or len(out) != 2: chk.violation('%s: %s' % (label, bad or 'the server gives %d answers' % len(out)), rep); continue
        err = None; lenses = out[1].get('result')
        if 'diag' in fields:
            err = compare_diagnostics(e['d'], out[0]['params']['diagnostics'], names)
            chk.extra['diagnostics'] = chk.extra.get('diagnostics', 0) + len(e['d'])
        if not err and 'lens' in fields:
            if not c.p['calc']: err = 'lenses without path calculation: %s' % str(lenses)[:200] if lenses is not None else None
            else:
                err, n = compare_lenses(c, e['s'], lenses); chk.extra['lenses'] = chk.extra.get('lenses', 0) + n
        if err: chk.violation('%s: %s in %s' % (label, err, text[:300].splitlines()), rep)
    chk.traces(len(docs)); chk.extra['documents'] = chk.extra.get('documents', 0) + len(docs)
    if docs: chk.sample(dict(label=label, text=docs[0][1][:300], diagnostics=docs[0][2]['d'][:5]))

def join(lines, r):
    eol = r.choice(['\n', '\n', '\r\n', None])
    t = ''
    for i, l in enumerate(lines): t += l + ((eol or r.choice(['\n', '\r\n'])) if i + 1 < len(lines) else '')
    if r.random() < .5 and lines: t += eol or '\n'
    return t

def spoil(r, bl, p):
    """blank lines, comments, junk words and faulty blocks among the blocks"""
    out = []
    for b in bl:
        while r.random() < p * .5: out.append(None)
        while r.random() < p * .3: out.append([string('(', r.choice(['abc', '', 'X5 (', 'ęść 5', '€ 😀', 'G1 X']))])
        b = list(b)
        if r.random() < p * .4 and not any(w['k'] in ('def',) or w['a'] in ('%', 'O') for w in b): b.insert(r.randint(0, len(b)), string('(', r.choice(['a', 'ł€😀', 'x y'])))
        if r.random() < p * .5 and not any(w['k'] == 'def' for w in b): b.insert(r.randint(0, len(b)), junk(r.choice(JUNK)))
        out.append(b)
    while r.random() < p: out.append(None)
    return out

def make(chk, r, mk, weights, n, length, spoiled, variables=.2, **genkw):
    """random documents and what is expected of them"""
    raw = []
    for _ in range(n):
        c = mk(r); bl = gen.Gen(r, c, weights, start=r.random() < .8, **genkw).program(r.randint(1, length))
        if r.random() < variables: bl = rules.with_variables(r, bl, .3, .05)
        ls = [line_of(b, r) for b in spoil(r, bl, r.choice([0, spoiled, spoiled]))]
        raw.append((c, join([t for t, l in ls], r), [l for t, l in ls]))
    exp, _ = expect(chk, [(c, ls) for c, t, ls in raw])
    return [(c, t, e) for (c, t, ls), e in zip(raw, exp)]

def S04(chk):
    r = chk.rng; full = chk.full(); N, G, X, Y, F = nc.num, lambda *c: [nc.code('G', x) for x in c], progs.X, progs.Y, progs.W
    blocks = [None, [string('(', 'abc')], [X(1)], [X(9999)], [none('X'), Y(1)], [X(1), junk('$'), Y(2)], [junk('abc'), X(1)], [nc.var('X', 55)], [X(1), X(2)], G(20), G(21), [nc.num('X', 50000000)],
              [X(1), nc.raw('Y', '123456789'[:6])], [none('/'), X(1), junk('ä')], [string('(', 'ł€'), X(3), junk('x1')], G(0, 1), G(1) + [X(1)], [nc.define(55, [dict(nc.num('=', 50000000))])], [nc.code('S', 99999)], [nc.var('Y', 55), junk('?')]]
    cf = [Config(), Config(driver='haas_mill', units='in', axes={'X': (-20000, 20000), 'Y': (-20000, 20000), 'Z': (0, 10000000)}), Config(driver='fanuc_lathe_system_a', calc=False)]
    pick = blocks if full else r.sample(blocks, 12)
    al = [line_of(b, r if r.random() < .7 else None) for b in pick]
    _, tour = expect(chk, [], [l for t, l in al], 3 if full else 2, cf)
    tour = [t for t in tour if len(t['h']) == (3 if full else 2) or r.random() < .3]
    judge(chk, [(cf[t['c'] - 1], join([al[i - 1][0] for i in t['h']], r), dict(d=t['d'])) for t in tour], 'S04 tour')
    if chk.violations: return
    w = dict(line=4, arc=.6, drill=.8, modes=1, tool=.5, home=.2, dwell=.2, other=.6, reject=2, outside=.3, optional=.5, units=.4, limits=.6, spindle=.3, feedblock=.3, helix=.2, words=.3, empty=.3)
    mk = lambda q: (progs.rotary(q, progs.rcfg(q), .2) if q.random() < .8 else progs.rcfg(q, calc=False))
    for _ in range(12 if full else 1):
        judge(chk, make(chk, r, mk, w, 600, 14, .6), 'S04 document', names=True)
        if chk.violations: return

def S05(chk):
    r = chk.rng; full = chk.full()
    w = dict(line=5, arc=1, modal_arc=.5, helix=.3, spiral=.1, drill=1, modes=1, tool=2, toolodd=.3, home=.5, dwell=1, other=.4, reject=.6, outside=.3, pallet=.3, css=.2, feedblock=.3, optional=.3, units=.2)
    small = lambda q: progs.rcfg(q, maxff=q.choice([20000, 100, 7]), tex=q.choice([0, 1, 61, 3599, 3600, 7300]))
    for _ in range(12 if full else 1):
        judge(chk, make(chk, r, lambda q: progs.rcfg(q), w, 300, 20, .3), 'S05 document', ('lens',))
        judge(chk, make(chk, r, small, w, 200, 30, .2), 'S05 long times', ('lens',))
        judge(chk, make(chk, r, lambda q: progs.rcfg(q, calc=False), w, 40, 12, .3), 'S05 without calculation', ('lens',))
        if chk.violations: return
