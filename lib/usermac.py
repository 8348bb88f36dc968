"""S08: NCUser says whose description a variable gets while the user's file of descriptions is written, broken and repaired."""
import json, os, re, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
import hover, nc, run, server, session, settings
from nc import Config

def ranges(t):
    out = []
    for k, (ti, de) in t.items():
        m = re.search(r'Range: ((?:#\d+-#\d+)(?: - #\d+-#\d+)?)', de)
        if m: out += [dict(a=int(a), b=int(b), key=k) for a, b in re.findall(r'#(\d+)-#(\d+)', m.group(1))]
    return out

def good(r, user):
    d = dict(version='1.0', descriptions={k: {a: b} for k, (a, b) in user.items()})
    if r.random() < .3: d['more'] = [1, {'descriptions': {'1': {'no': 'no'}}}]
    if r.random() < .3: d['descriptions'] = {k: dict(list(v.items()) + [('second', 'is not shown')]) for k, v in d['descriptions'].items()}
    return json.dumps(d, indent=r.choice([None, 1, 4]), ensure_ascii=r.random() < .5)

def broken(r, user):
    """-> text, line of what is wrong"""
    ls = json.dumps(dict(version='1.0', descriptions={k: {a: b} for k, (a, b) in user.items()}), indent=1).split('\n')
    k = r.randrange(len(ls))
    ls[k] = r.choice(['@', '!!', '?', '}}}]', ']']) + ls[k] if k else '@' + ls[k]
    return '\n'.join(ls), k

def world(r, driver, full):
    t = hover.tables(driver); ct = t['macros']; cr = t['ranges']; ck = sorted(ct)
    own = r.choice(ck); inner = r.choice(cr) if cr else None
    free = [n for n in r.sample(range(1, 140000), 4000) if str(n) not in ct and not any(x['a'] <= n <= x['b'] for x in cr)]
    lo = free[0]; words = ['mine', 'zażółć', 'two words', 'a*b', 'T1', '#7000 is it', '"quoted"', 'back\\slash', 'G54 M3']
    A = {own: ('own ' + r.choice(words), r.choice(['', 'described by the user', 'first\nsecond'])), str(free[1]): (r.choice(words), r.choice(['text', '1\n2\n3', '']))}
    B = {str(lo): ('range ' + r.choice(words), 'Range: #%d-#%d\n%s' % (lo, lo + 5, r.choice(words))), str(free[1]): ('other ' + r.choice(words), 'x')}
    over = None
    if inner:
        over = inner['key']; C = {over: ('no range any more', 'the user has it'), str(free[2]): ('two', 'Range: #%d-#%d - #%d-#%d' % (free[2], free[2] + 2, free[3], free[3] + 1))}
    else: C = {}
    users = [A, B, C, {}]
    asked = [own, str(free[1]), str(lo), str(lo + 5), str(lo + 6), str(free[3] + 1), r.choice(ck)] + ([over, str(inner['b']), str(r.randint(inner['a'], inner['b'])), str(inner['b'] + 1)] if inner else [])
    asked = list(dict.fromkeys(asked))
    if not full: asked = sorted(r.sample(asked, min(6, len(asked))), key=int)
    return t, users, asked

def S08(chk):
    full = chk.full(); r = chk.rng; n = 0
    for driver in (hover.DRIVERS if full else r.sample(hover.DRIVERS, 2)):
        t, users, asked = world(r, driver, full); ct = t['macros']
        files = [dict(k='good', u=u) for u in users] + [dict(k='absent', u={}), dict(k='broken', u=r.choice(users[:3])), dict(k='shape', u={})]
        ids = [int(q) for q in asked]
        near = lambda rs: [x for x in rs if any(x['a'] <= i <= x['b'] for i in ids)]
        d = tempfile.mkdtemp(prefix='u', dir=run.work())
        json.dump(dict(files=[dict(k=f['k'], keys=sorted(f['u']) if f['k'] == 'good' else [], ranges=ranges(f['u']) if f['k'] == 'good' else []) for f in files],
                       control=dict(keys=sorted({k for k in ct if k in asked} | {x['key'] for x in near(t['ranges'])}), ranges=near(t['ranges'])),
                       asked=[dict(key=q, id=int(q)) for q in asked], depth=5 if full else 4), open(d + '/in.json', 'w'))
        res = run.tlc('NCUser', env=dict(NC_IN=d + '/in.json'), heap='8g'); chk.tlc(res)
        hs = [json.loads(json.loads(l)[4:]) for l in res['out'].split('\n') if l.startswith('"USR ')]
        chk.extra['lives'] = chk.extra.get('lives', 0) + len(hs)
        # all starts, and of what follows a sample; short lives are put one after the other by length of the sample
        r.shuffle(hs); groups = {}
        for h in hs: groups.setdefault(json.dumps([(e['a'], e['v'], e['q']) for e in h[:4]]), []).append(h)
        hs = [h for k in sorted(groups) for h in groups[k][:1]]; r.shuffle(hs); hs = hs[:2500 if full else 220]
        tabs = [hover.tables(driver, f['u']) if f['k'] == 'good' else None for f in files]
        cfg = run.settings_file(Config(driver=driver)); u = session.URIS[0]
        def one(job):
            i, h, seed = job; q = __import__('random').Random(seed); p = '%s/life %d.json' % (d, i); said = []; x = None; now = {}
            def write(v):
                f = files[v - 1]; now.clear()
                if f['k'] == 'absent':
                    if os.path.exists(p): os.unlink(p)
                    said.append(None); return
                s, line = (good(q, f['u']), None) if f['k'] == 'good' else broken(q, f['u']) if f['k'] == 'broken' else (q.choice(['{}', '{"version": "1.0"}', '[]', '{"Descriptions": {}}', '"descriptions"']), None)
                now.update(line=line); open(p, 'w', encoding='utf-8').write(s); said.append(s)
            try:
                a = server.args(cfg); a += q.choice([['--macro-desc-path=' + p], ['-m', p], ['--macro-desc-path', p]])
                x = settings.Server(a); first = True
                has = q.choice([z for z in asked if len(z) < 5] or ['5']); bad = q.random() < .3
                ls = ['#%s=5' % has] + ['(#%s)' % k for k in asked] + (['G0 X?'] if bad else [])
                for k, e in enumerate(h):
                    want = {tuple(y) for y in e['d']}
                    if e['a'] == 'write': write(e['v'])
                    elif e['a'] == 'open':
                        m = x.ask((server.opened if first else server.changed)(u, '\n'.join(ls)) if first else server.changed(u, ['\n'.join(ls)])); first = False
                        ds = m['params']['diagnostics']
                        trouble = [y for y in ds if 'macro desc' in y['message']]; rest = [y for y in ds if y not in trouble]
                        if len(rest) != bad or bad and rest[0]['range']['start']['line'] != len(ls) - 1: return 'step %d: the diagnostics of the document are %s' % (k, str(rest)[:300]), said
                        if len(trouble) != (e['n'] == 0): return 'step %d: the file %s, but the diagnostics are %s' % (k, 'cannot be read' if e['n'] == 0 else 'has been read', str(ds)[:300]), said
                        for y in trouble:
                            info = y.get('relatedInformation', []); rg = [y['range']] + [z['location']['range'] for z in info]
                            if y.get('severity') != 1 or len(info) != 1 or any(z[b][c] < 0 for z in rg for b in ('start', 'end') for c in ('line', 'character')): return 'step %d: no such place: %s' % (k, str(y)[:400]), said
                            if info[0]['location']['uri'] != p or not info[0]['message'] or p in info[0]['message']: return 'step %d: the trouble is said to be in %s' % (k, str(info)[:300]), said
                            if now.get('line') is not None and info[0]['location']['range']['start']['line'] != now['line']: return 'step %d: the trouble is said to be in line %d instead of %d' % (k, info[0]['location']['range']['start']['line'], now['line']), said
                    elif e['a'] == 'hover':
                        key = asked[e['q'] - 1]; y = 1 + e['q'] - 1
                        g = x.ask(server.hover(u, y, q.randint(1, len(key) + 1), k)).get('result')
                        w = dict(k='var', text='#' + key, id=int(key), has=key == has, val=5 * nc.SCALE, desc=[z[1] for z in want], **{'from': 1, 'to': len(key) + 2})
                        err = hover.compare(w, g, tabs[e['n'] - 1] if e['n'] else dict(macros={}), y)
                        if err: return 'step %d: %s' % (k, err), said
                    elif e['a'] == 'resolve':
                        key = asked[e['q'] - 1]; g = x.ask(server.cresolve('#' + key, k)).get('result') or {}
                        got = ((g.get('detail') or ''), (g.get('documentation') or ''))
                        ok = {tabs[e['n'] - 1]['macros'][z[1]] for z in want} if want else {('', '')}
                        if got not in ok: return 'step %d: #%s is resolved as %r instead of %r' % (k, key, got, sorted(ok)), said
                    else:
                        m = x.ask(server.completion(u, k)).get('result') or []; got = [y['label'] for y in m if y['label'][0] == '#']
                        w = set() if not e['n'] else {'#' + z for z in tabs[e['n'] - 1]['macros']}
                        if len(set(got)) != len(got) or set(got) != w or not {'#' + z[1] for z in want} <= w: return 'step %d: offered are other variables: missing %s, too many %s' % (k, sorted(w - set(got))[:5], sorted(set(got) - w)[:5] or len(got)), said
            except (server.Broken, ValueError, KeyError, TypeError, OSError) as e: return 'the server fails: %r' % e, said
            finally:
                if x: x.close()
                if os.path.exists(p): os.unlink(p)
            return None, said
        with ThreadPoolExecutor(8) as ex: out = list(ex.map(one, [(i, h, r.random()) for i, h in enumerate(hs)]))
        for h, (err, said) in zip(hs, out):
            if err: chk.violation('S08: %s (%s)' % (err, ', '.join(e['a'] + (' ' + files[e['v'] - 1]['k'] if e['a'] == 'write' else ' #' + asked[e['q'] - 1] if e['q'] else '') for e in h)), dict(driver=driver, history=h, files=said, asked=asked))
        chk.traces(len(hs)); chk.sample(dict(life=hs[0])); shutil.rmtree(d)
        if chk.violations: return
