"""S07: NCSettings says whose settings documents are judged by; the server is run beside the file it reads.
The specification of programs says what each value of the settings does."""
import copy, json, os, random, re, shutil, subprocess, tempfile, select, time
from concurrent.futures import ThreadPoolExecutor
import build, conform, docs, gen, hover, nc, progs, rules, run, server, session
from nc import Config, SCALE

ERR = "Couldn't read .ncsetting file"
def fields(s):
    """path and kind of each value of a settings file"""
    out = []
    for k, v in s.items():
        if not isinstance(v, dict): out.append(([k], 'choice')); continue
        out.append(([k], 'group'))
        for q, x in v.items():
            if k == 'machine_points_data' or q == 'cartesian_system_axis':
                out.append(([k, q], 'group'))
                for a, y in x.items():
                    if isinstance(y, dict): out += [([k, q, a, b], 'number') for b in y]
                    else: out.append(([k, q, a], 'entry'))
            elif isinstance(x, bool): out.append(([k, q], 'flag'))
            elif k == 'zero_point' or q in ('max_working_feed', 'max_fast_feed'): out.append(([k, q], 'number'))
            elif isinstance(x, int): out.append(([k, q], 'whole'))
            elif q.startswith(('pallet_exchange_code', 'tool_measurement_code')): out.append(([k, q], 'text'))
            else: out.append(([k, q], 'choice'))
    return out

def spoil(r, s, path, kind, how):
    s = copy.deepcopy(s); o = s
    for p in path[:-1]: o = o[p]
    if how == 'missing': del o[path[-1]]
    elif how == 'word': o[path[-1]] = r.choice(['abc', 'none', 'X', '?', 'MILL', 'tru', '-'])
    elif how == 'part': o[path[-1]] = '%s%s' % (str(o[path[-1]]).lower() if kind == 'flag' else o[path[-1]], r.choice(['x', ' 5', '..', ';'])) if kind != 'choice' else '%s%s' % (o[path[-1]], r.choice(['x', '_', '1']))
    elif how == 'empty': o[path[-1]] = ''
    elif how == 'fraction': o[path[-1]] = '%s.5' % o[path[-1]]
    return s

def text(r, s):
    """a JSON text of the settings: order, spaces, further members and quotes do not matter"""
    def mix(v):
        if isinstance(v, dict):
            ks = list(v); r.shuffle(ks); d = {k: mix(v[k]) for k in ks}
            if r.random() < .2: d['more'] = r.choice(['', 5, {'x': [1, 2]}])
            return d
        if isinstance(v, str): return v
        return v if r.random() < .7 else str(v).lower()
    v = mix(s)
    # members of the maps of axes are axes, so nothing may be added there
    for a, b in (('machine_points_data', 'tool_exchange_point'), ('machine_points_data', 'machine_base_point'), ('kinematics', 'cartesian_system_axis')):
        if isinstance(v.get(a), dict) and isinstance(v[a].get(b), dict):
            v[a][b].pop('more', None)
    return json.dumps(v, indent=r.choice([None, 1, 4]))

class Server:
    """a running server, one message at a time"""
    def __init__(self, a):
        self.p = subprocess.Popen([build.build()['srv']] + a, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=run.ENV); self.buf = b''
    def ask(self, m, timeout=50):
        """the answer to a message that gets one"""
        self.p.stdin.write(server.frame(m)); self.p.stdin.flush(); end = time.time() + server.patience(timeout)
        while True:
            h = re.match(rb'Content-Length: (\d+)\r\n\r\n', self.buf)
            if h and len(self.buf) >= h.end() + int(h.group(1)):
                b = self.buf[h.end():h.end() + int(h.group(1))]; self.buf = self.buf[h.end() + int(h.group(1)):]; return json.loads(b)
            if not select.select([self.p.stdout], [], [], max(0, end - time.time()))[0]: server.HUNG.append(m); raise server.Broken('no answer')
            x = os.read(self.p.stdout.fileno(), 1 << 16)
            if not x: raise server.Broken('the server ends')
            self.buf += x
    def close(self):
        try: self.p.stdin.close()
        except OSError: pass
        try: self.p.wait(server.patience(20))
        except subprocess.TimeoutExpired: self.p.kill()
        self.p.stdout.close()

def life(chk, full):
    """the file while the server runs"""
    r = chk.rng
    A = Config(driver='haas_mill', tex=4, maxff=7000, axes={'X': (-1000000, 1000000), 'Y': (-1000000, 1000000), 'Z': (-1000000, 5000000)}, prog=90)
    B = Config(driver='fanuc_lathe_system_a', units='in', tex=9, maxff=9000, prog=91, axes={'X': (-3000000, 3000000), 'Z': (-3000000, 6000000)})
    good = [A.settings(), B.settings()]; fs = fields(good[0])
    # documents the two machines judge differently
    w = dict(line=4, arc=.5, drill=.5, modes=1, tool=1, other=1, reject=1, outside=.5)
    raw = []
    for k in range(60):
        c = [A, B][k % 2]; ls = [docs.line_of(b, r) for b in gen.Gen(r, c, w, start=True).program(8)]
        raw.append((docs.join([t for t, l in ls], r), [l for t, l in ls]))
    exp, _ = docs.expect(chk, [(c, l) for t, l in raw for c in (A, B)])
    pick = [(t, exp[2 * k], exp[2 * k + 1]) for k, (t, l) in enumerate(raw) if [x['line'] for x in exp[2 * k]['d']] != [x['line'] for x in exp[2 * k + 1]['d']]]
    # fields of the second file are those of the first one as far as it has them
    d = tempfile.mkdtemp(prefix='n', dir=run.work())
    has = lambda s, p: not p or (p[0] in s and has(s[p[0]], p[1:])) if isinstance(s, dict) else not p
    use = [(p, k) for p, k in fs if has(good[1], p)]
    json.dump(dict(fields=[dict(path=p, kind=k) for p, k in use], depth=4 if full else 3, some=r.randint(1, len(use))), open(d + '/in.json', 'w'))
    t = run.tlc('NCSettings', env=dict(NC_IN=d + '/in.json')); chk.tlc(t)
    hs = [json.loads(json.loads(l)[4:]) for l in t['out'].split('\n') if l.startswith('"SET ')]
    chk.extra['lives'] = len(hs); first = {}
    for h in hs: first.setdefault(json.dumps(h[0]), []).append(h)
    hs = [h for g in first.values() for h in r.sample(g, min(len(g), 24 if full else 4))]
    codes = [hover.tables(c.p['driver']) for c in (A, B)]
    nz = lambda x: x.lstrip('0') if x.lstrip('0')[:1].isdigit() else '0' + x.lstrip('0')
    differ = [x for x in codes[0]['g'] if x in codes[1]['g'] and codes[0]['g'][x][0] != codes[1]['g'][x][0] and x.isdigit()]
    u = session.URIS[0]
    def one(job):
        n, h, seed = job; q = random.Random(seed); p = '%s/life%d.json' % (d, n); said = []
        def write(f):
            if f['k'] == 'absent':
                if os.path.exists(p): os.unlink(p)
                return
            if f['k'] == 'nonsense': s = q.choice(['', '{', '[]', '{}', '\0', json.dumps(good[0])[:-1], 'settings', json.dumps(good[0]).replace(':', '', 1), json.dumps(good[0]).replace(',', ' ', 3)])
            elif f['k'] == 'broken':
                g = good[f['w'] - 1]; pa, k = use[f['i'] - 1]; s = text(q, spoil(q, g, pa, k, f['f']))
            else: s = text(q, good[f['w'] - 1])
            open(p, 'w').write(s); said.append(s)
        x = None
        try:
            x = Server(server.args(p)) if q.random() < .9 else Server(['--ncsetting-path', p, '--calculate-path', '1'])
            for k, e in enumerate(h):
                if e['a'] == 'write': write(e['f']); continue
                s = e['s']; t, ea, eb = q.choice(pick)
                if e['a'] == 'open':
                    m = x.ask(server.opened(u, t)); ds = m['params']['diagnostics']; ln = x.ask(server.lens(u, 'l%d' % k)).get('result')
                    if not s:
                        if len(ds) != 1 or ERR not in ds[0]['message'] or ds[0].get('severity') != 1: return 'step %d: the settings cannot be read, but the diagnostics are %s' % (k, str(ds)[:300]), said, t
                        if ln: return 'step %d: lenses without settings: %s' % (k, str(ln)[:200]), said, t
                    else:
                        err = docs.compare_diagnostics([ea, eb][s - 1]['d'], ds) or docs.compare_lenses([A, B][s - 1], [ea, eb][s - 1]['s'], ln)[0]
                        if err: return 'step %d: settings %d are not followed: %s' % (k, s, err), said, t
                elif e['a'] == 'hover':
                    # the document is opened anew: what is known is the same for both
                    c = q.choice(differ); ds = x.ask(server.opened(u, 'G' + c))['params']['diagnostics']; m = x.ask(server.hover(u, 0, 0, k)).get('result'); v = str(m)
                    if not s and m is not None and m['contents'] != 'G' + c: return 'step %d: the settings cannot be read, but G%s is described: %s' % (k, c, v[:200]), said, None
                    if s and (codes[s - 1]['g'][c][0] not in v): return 'step %d: G%s is not described as %s: %s' % (k, c, codes[s - 1]['g'][c], v[:200]), said, None
                else:
                    m = x.ask(server.completion(u, k)).get('result') or []; got = {y['label'][0] + nz(y['label'][1:]) for y in m if y['label'][0] in 'GM'}
                    want = set() if not s else {'G' + y for y in codes[s - 1]['g']} | {'M' + y for y in codes[s - 1]['m']}
                    if got != want: return 'step %d: offered are other codes: missing %s, too many %s' % (k, sorted(want - got)[:5], sorted(got - want)[:5]), said, None
        except (server.Broken, ValueError, KeyError, TypeError, OSError) as e: return 'the server fails: %r' % e, said, None
        finally:
            if x: x.close()
            if os.path.exists(p): os.unlink(p)
        return None, said, None
    with ThreadPoolExecutor(8) as ex: res = list(ex.map(one, [(n, h, r.random()) for n, h in enumerate(hs)]))
    for h, (err, said, t) in zip(hs, res):
        if err: chk.violation('S07 settings file: %s (%s)' % (err, ', '.join(e['a'] + (' ' + e['f']['k'] + (' %s %s' % ('.'.join(use[e['f']['i'] - 1][0]), e['f']['f']) if e['f']['k'] == 'broken' else '') if e['a'] == 'write' else '') for e in h)), dict(history=h, files=said, document=t))
    chk.traces(len(hs)); chk.extra['lives_replayed'] = len(hs); chk.sample(dict(life=hs[0]))
    shutil.rmtree(d)

# ------------------------------------------------------------- single values
def others(r, c):
    """-> {value of the settings: machine with another value there}"""
    p = c.p; out = {}
    def put(n, **kw):
        q = dict(p); q.update(kw); out[n] = Config(**q)
    put('driver', driver=r.choice([d for d in nc.DRIVERS if d != p['driver']]), mtype=p['mtype'])
    put('machine_tool_type', mtype=r.choice([m for m in ('mill', 'lathe', 'millturn') if m != p['mtype']]))
    put('machine_tool', tool=r.choice(['lathe_zx', 'lathe_zxc']) if p['tool'] not in ('lathe_zx', 'lathe_zxc') else 'mill_3axis')
    for a in p['axes']:
        lo, hi = p['axes'][a]
        put('axis %s range_min' % a, axes=dict(p['axes'], **{a: (r.choice([0, -10000, lo // 2, lo - 100000]), hi)}))
        put('axis %s range_max' % a, axes=dict(p['axes'], **{a: (lo, r.choice([0, 10000, hi // 2, hi + 100000]))}))
    if r.random() < .5: put('another axis', axes=dict(p['axes'], A=(0, 900000)))
    for k, vs in dict(maxf=[5, 100, 99999], maxff=[20000, 5000, 333], maxs=[10, 900, 99999], maxt=[1, 3, 99], tex=[0, 2, 60], tpal=[0, 3, 90], tmeas=[0, 8, 70], motion=[0, 1], plane=[17, 18, 19], units=['mm', 'in'], prog=[90, 91], fmode=[94, 95], ret=[98, 99],
                      rot=[100, 2000], palc=[('M', '60'), ('M', '77')], measc=[('M', '35'), ('M', '36')]).items(): put(k, **{k: r.choice([v for v in vs if v != p[k]])})
    for k in ('diam2x', 'automeas', 'c0', 'c1', 'c2', 'c3', 'g80rapid', 'operator', 'tnum', 'autorapid', 'zval'):
        if k != 'zval' or (p['prog'] == 90): put(k, **{k: not p[k]})
    for k in ('texp', 'base', 'zero'):
        for a in 'XYZ': put('%s %s' % (k, a), **{k: dict(p[k], **{a: r.choice([v for v in (0, 50000, -123456, 2000000) if v != p[k].get(a)])})})
    return out

# what shows a value
SHOW = {'drill': dict(line=2, drill=4, modes=.5, modeg=.5), 'tool': dict(line=2, tool=5, toolodd=.5, pallet=2, dwell=.3), 'home': dict(line=3, home=3), 'line': dict(line=5, arc=1, modes=1), 'rules': dict(line=2, other=3, limits=2, reject=2, units=.3, outside=2, spindle=1, feedblock=1)}
ABOUT = dict(tex='tool', tpal='tool', tmeas='tool', palc='tool', measc='tool', automeas='tool', tnum='tool', autorapid='tool', maxt='tool', c0='drill', c1='drill', c2='drill', c3='drill', g80rapid='drill', ret='drill', zval='drill', maxf='rules', maxs='rules', units='rules', driver='rules', operator='line')
def telling(r, k, b, c, up=0):
    """blocks in which the value k shows"""
    N, G, X, Y, Z = nc.num, progs.G, progs.X, progs.Y, lambda v: progs.Z(v + up); F = N('F', 3000000 if b.p['units'] == 'mm' else 100000); sp = [] if b.p['operator'] else [[nc.code('S', 500), nc.code('M', 3)]]
    if k == 'driver':
        t, u = (nc.table(x.p['driver'])['metric'] for x in (b, c)); out = []
        for a in r.sample(sorted(set(t) & set(u) - {'N', 'O', '%', '(', 'GOTO', 'IF', 'WHILE', 'END', '='}), 12):
            for e in ('rf', 'rt'):
                if t[a][e] != u[a][e] and abs(t[a][e]) < 10 ** 8 and abs(u[a][e]) < 10 ** 8: out.append([nc.code(a, max(t[a][e], u[a][e]))] if min(t[a][e], u[a][e]) >= 0 and a.isalpha() else [])
            if t[a]['dt'] != u[a]['dt']: out.append([nc.raw(a, '1', str(max(t[a]['dt'], u[a]['dt'])))] if a.isalpha() and max(t[a]['dt'], u[a]['dt']) <= 9999 and r.random() < .3 else [])
        def meet(d, z, x, y): g = nc.table(d.p['driver'])[z]; return bool(set(g.get(x, [])) & set(g.get(y, [])))
        for z in ('gg', 'mg'):
            al = sorted(set(nc.table(b.p['driver'])[z]) | set(nc.table(c.p['driver'])[z])); ps = [tuple(r.sample(al, 2)) for _ in range(200)]
            out += [[nc.code(z[0].upper(), x), nc.code(z[0].upper(), y)] for x, y in ps if meet(b, z, x, y) != meet(c, z, x, y)][:3]
        return [x for x in out if x]
    if k.startswith('axis '):
        _, a, e = k.split(); v = [x.p['axes'][a][e == 'range_max'] for x in (b, c)]; m = (v[0] + v[1]) // 2 // 10 * 10
        return sp + [G(90), [N(a, (m if b.p['units'] == 'mm' else m // 10) - b.p['zero'].get(a, 0))]] if a in b.p['axes'] else []
    if k == 'another axis': return [G(90, 0) + [nc.num('A', r.choice([-10000, 50000, 900001]))]]
    if k == 'motion': return sp + [[F], [X(1), F] if r.random() < .5 else [Y(2)], G(0) + [X(3)]]
    if k == 'rot' or k == 'operator': return [G(95), G(1) + [X(4), N('F', 5000)]]
    if k == 'fmode': return sp + [G(1) + [X(4), N('F', 5000)]]
    if k in ('c0', 'c1', 'c2', 'c3'):
        g = int(k[1]); return sp + [G(90, 17, 98), G(1) + [X(1), Y(1), Z(20), F], G(81) + [X(2), Z(-5), N('R', 20000 + up * 10000), F], G(g) + ([X(4)] if g < 2 else [X(6), N('I', 20000), N('J', 0)]), G(81) + [Y(7)], G(80), [X(1)]]
    if k == 'g80rapid': return sp + [G(1) + [X(1), F], G(81) + [X(2), Z(-5), N('R', 20000 + up * 10000), F], G(80), [Y(9)], G(1) + [Y(10)]]
    if k == 'autorapid': return sp + [G(1) + [X(1), F], [nc.code('T', 1)], [X(9), Y(3)]]
    if k in ('palc', 'tpal'): return [[nc.code('M', v)] for v in r.sample((60, 77), 2)]
    if k in ('measc', 'tmeas'): return [[nc.code('M', v)] for v in r.sample((35, 36), 2)]
    if k == 'automeas' or k == 'tex': return [[nc.code('T', 1), nc.code('M', 6)]]
    if k == 'tnum': return [[nc.code('T', 2)], [X(2)]]
    if k == 'ret': return sp + [G(90) + [Z(30)], G(81) + [X(2), Z(-5), N('R', 20000 + up * 10000), F], [X(5)], G(80)]
    if k == 'plane': return sp + [G(2) + [X(3), Z(2), Y(2), N('R', 90000), F]]
    if k == 'maxs': return [[nc.code('S', v) ] for v in (b.p['maxs'], c.p['maxs'], (b.p['maxs'] + c.p['maxs']) // 2)]
    if k == 'maxf': return [[N('F', min(v, 20000) * SCALE)] for v in (b.p['maxf'], c.p['maxf'], (b.p['maxf'] + c.p['maxf']) // 2)]
    if k == 'maxt': return [[nc.code('T', v)] for v in (b.p['maxt'], c.p['maxt'], (b.p['maxt'] + c.p['maxt']) // 2)]
    if k == 'diam2x': return sp + [G(90, 0) + [X(7)], G(1) + [X(12), F]]
    return []
def values(chk, n):
    r = chk.rng; raw = []
    every = dict(line=4, arc=1, modal_arc=.3, helix=.2, drill=1.5, modes=1, tool=1.5, toolodd=.3, home=.8, dwell=.5, other=.8, reject=.5, outside=.5, pallet=.6, feedblock=.3, spindle=.3, limits=.4, units=.2, rotary=.2)
    for _ in range(n):
        b = progs.rcfg(r, maxf=r.choice([20000, 500]), maxs=r.choice([10000, 3000]), maxt=r.choice([30, 5]), operator=r.random() < .3, prog=r.choice([90, 90, 91]))
        for k in others(r, b):
            if k == 'zval' and b.p['prog'] != 90: continue
            if k == 'rot': b2 = Config(**dict(b.p, operator=True))
            elif k == 'tpal' and not b.p['palc']: b2 = Config(**dict(b.p, palc=('M', '60')))
            elif k == 'autorapid': b2 = Config(**dict(b.p, tnum=False))
            elif k == 'tmeas' and not b.p['measc']: b2 = Config(**dict(b.p, measc=('M', '35')))
            else: b2 = b
            c = others(r, b2)
            if k not in c: continue
            c = c[k]
            s = SHOW.get(ABOUT.get(k) or ('home' if k.split()[0] in ('texp', 'base') else ''), every) if r.random() < .7 else every
            if k.startswith(('texp',)): s = SHOW['tool']
            if k == 'zval': s = dict(line=3, drill=4, tool=.3)        # with its modes as in P03
            tell = telling(r, k, b2, c) if r.random() < .7 else []; bl = gen.Gen(r, b2, s, start=r.random() < .5).program(r.choice([1, 3, 8, 12]))
            bl = tell + bl if r.random() < .6 else bl + tell; ls = [docs.line_of(x, r) for x in bl]
            raw.append((k, b2, c, docs.join([t for t, l in ls], r), [l for t, l in ls]))
    exp, _ = docs.expect(chk, [(c, ls) for k, b, d, t, ls in raw for c in (b, d)])
    seen = chk.extra.setdefault('documents_telling_values_apart', {}); jobs = []
    for i, (k, b, c, t, ls) in enumerate(raw):
        e, f = exp[2 * i], exp[2 * i + 1]; g = re.sub(r' [A-C]( |$)', lambda m: m.group(0), k)
        seen[g] = seen.get(g, 0) + (e != f or (k == 'maxff' and any(s and s[0]['f'] for s in e['s'])))
        if e != f or r.random() < .3: jobs += [(b, t, e), (c, t, f)]
        else: jobs.append((c, t, f))
    docs.judge(chk, jobs, 'S07 value', ('diag', 'lens'))

def defaults(chk, n):
    r = chk.rng; c = Config(rot=0)
    w = dict(line=4, arc=1, drill=1.5, modes=1, tool=1.5, home=.8, dwell=.5, other=.8, reject=.5, outside=1, pallet=.6, limits=1, units=.3, spindle=.5, feedblock=.5)
    docs.judge(chk, docs.make(chk, r, lambda q: c, w, n, 14, .2), 'S07 defaults', ('diag', 'lens'), args=server.args())
    # and programs in which a machine with another value there shows
    raw = []; w = dict(line=3, drill=1, modes=.5, tool=1, other=.5)
    for _ in range(max(4, n // 12)):
        for k, d in others(r, c).items():
            bl = telling(r, k, c, d, 60); bl = bl if bl and r.random() < .5 else bl + gen.Gen(r, c, SHOW.get(ABOUT.get(k, ''), w), start=True).program(6)
            ls = [docs.line_of(x, r) for x in bl]; raw.append((k, d, docs.join([t for t, l in ls], r), [l for t, l in ls]))
    exp, _ = docs.expect(chk, [(x, ls) for k, d, t, ls in raw for x in (c, d)]); seen = {}
    jobs = [(c, t, exp[2 * i]) for i, (k, d, t, ls) in enumerate(raw) if exp[2 * i] != exp[2 * i + 1]]
    for i, (k, d, t, ls) in enumerate(raw): seen[k] = seen.get(k, 0) + (exp[2 * i] != exp[2 * i + 1])
    chk.extra['defaults_told_apart'] = seen
    docs.judge(chk, jobs, 'S07 default', ('diag', 'lens'), args=server.args())

def S07(chk):
    full = chk.full()
    life(chk, full)
    if chk.violations: return
    for _ in range(6 if full else 1):
        defaults(chk, 80)
        if chk.violations: return
        values(chk, 25 if full else 10)
        if chk.violations: return
