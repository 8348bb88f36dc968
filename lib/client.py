"""E01: NCClient says what the extension starts, asks and shows; its histories are replayed into the extension itself."""
import json, os, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
import build, conform, nc, run, server, settings as st
from nc import Config

TS = '/opt/veriftools/node/node_modules/typescript'
COMPILE = '''const ts=require(process.argv[1]),fs=require('fs'),path=require('path');
const go=(a,b)=>{fs.mkdirSync(b,{recursive:true});for(const f of fs.readdirSync(a)){const x=path.join(a,f);if(fs.statSync(x).isDirectory())go(x,path.join(b,f));
else if(/\\.tsx?$/.test(f)&&!/\\.d\\.ts$/.test(f))fs.writeFileSync(path.join(b,f.replace(/\\.tsx?$/,'.js')),ts.transpileModule(fs.readFileSync(x,'utf8'),{compilerOptions:{module:'commonjs',target:'es2020'}}).outputText);
else if(/\\.(js|json)$/.test(f))fs.copyFileSync(x,path.join(b,f));}};go(process.argv[2],process.argv[3]);'''
def compiled(d):
    o = d + '/extension'
    r = subprocess.run(['node', '-e', COMPILE, TS, build.REPO + '/vscode-client/src', o], capture_output=True, text=True)
    if r.returncode: raise build.BuildError('the extension: ' + r.stderr[-1500:])
    return o + '/extension.js'

def replay(scripts, d):
    """[dict(ext, files, events)] -> observations"""
    main = compiled(d); n = min(8, len(scripts)); env = {k: v for k, v in os.environ.items() if not k.startswith('NODE')}
    def one(k):
        ss = scripts[k::n]; w = '%s/w%d' % (d, k)
        # each process has files of its own
        t = '\n'.join(json.dumps(s).replace('@W', w) for s in ss) + '\n'
        try: r = subprocess.run(['node', os.path.join(run.VERIF, 'harness', 'client.js'), main, build.REPO + '/package.json', w], input=t, capture_output=True, text=True, timeout=700, env=env)
        except subprocess.TimeoutExpired as e: return [json.loads(x) for x in (e.stdout or b'').decode().replace(w, '@W').split('\n')[:-1]]
        return [json.loads(x) for x in r.stdout.replace(w, '@W').split('\n')[:-1]] or [dict(error=r.stderr[-600:])]
    res = [None] * len(scripts)
    with ThreadPoolExecutor(n) as ex:
        for k, o in enumerate(ex.map(one, range(n))):
            for i, x in enumerate(o): res[k + i * n] = x
    return res

PATHS = [dict(p='@W/m/my mill.ncsetting', stem='my mill', file=1), dict(p='@W/m/../m/./my mill.ncsetting', stem='my mill', file=1), dict(p='@W/m/my mill.other', stem='my mill', file=2),
         dict(p='@W/n/my mill.ncsetting', stem='my mill', file=3), dict(p='@W/m/a.nc.b.nc', stem='a.nc.b', file=4), dict(p='@W/m/plain', stem='plain', file=5)]
FILES = {1: '@W/m/my mill.ncsetting', 2: '@W/m/my mill.other', 3: '@W/n/my mill.ncsetting', 4: '@W/m/a.nc.b.nc', 5: '@W/m/plain'}
CONTENTS = [('', None), ('Haas VF-2', '{"machine_tool_id": "  Haas VF-2 ", "x": 1}'), ('', '{"machine_tool_id": "   "}'), ('', '{"machine_tool_id": 5}'), ('', '{"version": 1}'), ('', '{"machine_tool_id": "x"'), ('', 'null'), ('Mill #2', '\n{"machine_tool_id":"Mill #2"}\n')]

def activate(plat='linux', ok=True, first='', answer='', pick='', reload=False): return dict(op='activate', plat=plat, ok=ok, first=first, what='nc', answer=answer, pick=pick, reload=reload, during='')
def select(what, answer, pick, reload=False, during=''): return dict(op='select', what=what, answer=answer, pick=pick, reload=reload, during=during)
def change(layer, k, v, reload=False): return dict(op='change', layer=layer, k=k, v=v, reload=reload)
def edit(sets, reload=False): return dict(op='edit', sets=[dict(layer=l, k=k, v=v) for l, k, v in sets], reload=reload)
def written(f): return dict(op='written', file=f)
def content(i): return dict(op='content', content=i)
def toggle(reload=False): return dict(op='toggle', reload=reload)
def end(ok=True): return dict(op='toolend', ok=ok)
OFF, OTHER, CREATE, PLACE = [dict(op=x) for x in ('deactivate', 'other', 'create', 'placeholder')]

def judge(chk, items, label):
    """items: (events, expected [(effects, status)], path of the extension)"""
    d = tempfile.mkdtemp(prefix='e', dir=run.work()); scripts = []
    for evs, exp, ext in items:
        scripts.append(dict(ext=ext, files=sorted(FILES.values()), events=[dict(op='content', text=None)] + [dict(e, **({'text': CONTENTS[e['content'] - 1][1]} if e['op'] == 'content' else {'path': FILES[e['file']]} if e['op'] == 'written' else {})) for e in evs]))
    obs = replay(scripts, d); shutil.rmtree(d); known = set(json.dumps(x) for x in chk.extra.get('starts', []))
    def show(e):
        x = {k: v for k, v in e.items() if k not in ('op', 'raw', 'declared') and v != ''}; return e['op'] + (' %s' % x if x else '')
    for (evs, exp, ext), o in zip(items, obs):
        if not isinstance(o, list): chk.violation('%s: the extension fails: %s' % (label, o), dict(events=evs)); break
        for k, (e, (ef, status)) in enumerate(zip(evs, exp)):
            got = o[k + 1] if k + 1 < len(o) else dict(effects=[dict(e='nothing')], status='')
            for x in got['effects']:
                if x['e'] == 'start':
                    known.add(json.dumps(x.get('raw', [])))
                if x['e'] == 'update' and not x.get('declared', True):
                    if x['k'] == 'mac': chk.macro = True
                    else: chk.violation('%s: a setting is written that is not declared: %s' % (label, x), dict(events=evs))
            key = lambda x: json.dumps({k: v for k, v in x.items() if k not in ('raw', 'declared')}, sort_keys=True)
            a, b = sorted(map(key, got['effects'])), sorted(map(key, ef))
            if a != b or got['status'] != status:
                w = []
                if a != b: w.append('does %s instead of %s' % (', '.join(a) or 'nothing', ', '.join(b) or 'nothing'))
                if got['status'] != status: w.append('the status says %r instead of %r' % (got['status'], status))
                chk.violation('%s: %s: %s' % (label, show(e), '; '.join(w)), dict(events=evs[:k + 1], how='run vscode-client/src/extension.ts with stand-ins for vscode, the language client and child_process through these events'))
                break
        if len(chk.violations) > 10: break
    chk.extra['starts'] = [json.loads(x) for x in sorted(known)]
    chk.traces(len(items)); chk.extra['events'] = chk.extra.get('events', 0) + sum(len(i[0]) for i in items)
    if items: chk.sample(dict(label=label, events=[show(e) for e in items[-1][0]][:8]))

EXT = ['/opt/my extensions/ncproj-0.5.1', '/home/u/.vscode/extensions/ncproj']
def explore(chk, cases, label, script=False):
    """cases: (events, depth)"""
    d = tempfile.mkdtemp(prefix='e', dir=run.work())
    json.dump(dict(paths=PATHS, contents=[dict(id=i) for i, t in CONTENTS], cases=[dict(alphabet=al, depth=dp, script=script) for al, dp in cases]), open(d + '/in.json', 'w'))
    q = run.tlc('NCClient', env=dict(NC_IN=d + '/in.json')); chk.tlc(q); E = {}; name = {}
    for l in q['out'].split('\n'):
        if l.startswith('"EDGE '):
            e = json.loads(json.loads(l)[5:]); h = tuple(e['h']); E.setdefault(e['n'] - 1, []).append((h, e['t'], [dict(x, args=dict(x['args'] or {})) if x['e'] == 'start' else x for x in e['e']], e['status']))
            name.setdefault((e['n'] - 1, e['t']), h)
    items = []
    for n, es in sorted(E.items()):
        al = cases[n][0]
        if script:
            es.sort(key=lambda x: len(x[0])); items.append(([al[h[-1] - 1] for h, t, o, s in es], [(o, s) for h, t, o, s in es], EXT[n % 2])); continue
        edges = [(h[:-1], h[-1] - 1, name[n, t], (o, s)) for h, t, o, s in es]
        # the state before an edge is named by its first history
        first = {h: name[n, t] for h, t, o, s in es}; edges = [(first.get(a, a), b, c, x) for a, b, c, x in edges]
        for i, w in enumerate(conform.tours(edges, 99)): items.append(([al[edges[k][1]] for k in w], [edges[k][3] for k in w], EXT[i % 2]))
        chk.extra['edges_covered'] = chk.extra.get('edges_covered', 0) + len(edges)
    judge(chk, items, label)

def E01(chk):
    r = chk.rng; full = chk.full(); P = [p['p'] for p in PATHS]
    base = [activate('win32'), activate(), OFF, OTHER]
    cases = [(base + [change('user', 'nc', P[1], True), change('ws', 'nc', P[3]), written(1), written(2), written(3), content(2), content(1), CREATE, end(False)], 6 if full else 5),
             ([activate('win32', first='create'), activate('linux', first='create'), activate('win32', first='select', answer='ws', pick=P[0], reload=True), activate('win32', False, 'select', 'user', ''), activate('linux', False, 'no'), OFF, select('nc', 'user', P[4]), select('nc', 'ws', '', True), select('nc', 'no', P[0]), CREATE, end(), end(False), written(4), content(8)], 6 if full else 5),
             ([activate(), activate('win32'), OFF, toggle(), toggle(True), change('user', 'pt', 'false', True), change('ws', 'pt', 'true'), change('ws', 'pt', ''), change('user', 'log', '@W/log'), change('user', 'mac', '@W/mac.json', True), select('mac', 'ws', '@W/mac.json'), select('nc', 'user', P[0], True, '@W/log 2'), edit([('user', 'log', '@W/log 5'), ('ws', 'mac', '@W/mac.json'), ('user', 'pt', 'false')], True), edit([('user', 'log', ''), ('ws', 'mac', '')]), OTHER, PLACE], 6 if full else 5)]
    explore(chk, cases, 'E01 tour')
    if chk.violations: chk.extra.pop('starts', None); return
    # long histories
    sc = []
    for _ in range(4000 if full else 300):
        on = tool = False; evs = []; win = r.random() < .6
        for _ in range(r.randint(8, 30)):
            b = lambda: r.random() < .5
            if not on and b():
                evs.append(activate('win32' if win else r.choice(['linux', 'darwin']), r.random() < .9, r.choice(['create', 'select', 'no', '']), r.choice(['user', 'ws', 'no', '']), r.choice(P + ['']), b())); on = True; tool = True; continue
            x = r.random()
            if not on or x < .3:
                k = r.choice(['log', 'nc', 'nc', 'pt', 'mac']); v = r.choice(dict(log=['', '@W/log', '@W/log 2'], nc=P + [''], pt=['true', 'false', ''], mac=['', '@W/mac.json', '@W/m 2.json'])[k])
                evs.append(change(r.choice(['user', 'user', 'ws']), k, v, b()) if x < .27 or on else content(r.randint(1, len(CONTENTS))))
            elif x < .42: evs.append(select(r.choice(['nc', 'nc', 'mac']), r.choice(['user', 'ws', 'ws', 'no', '']), r.choice(P + ['']), b(), r.choice(['', '', '', '@W/log 3', '@W/log 4'])))
            elif x < .46: evs.append(toggle(b()))
            elif x < .5: evs.append(edit([(r.choice(['user', 'ws']), k, r.choice(v)) for k, v in r.sample([('log', ['', '@W/log', '@W/log 2']), ('nc', P + ['']), ('pt', ['true', 'false', '']), ('mac', ['', '@W/mac.json'])], r.randint(2, 4))], b()))
            elif x < .56: evs.append(OTHER)
            elif x < .72: evs.append(content(r.randint(1, len(CONTENTS)))); evs.append(written(r.choice([1, 1, 2, 3, 4, 5])))
            elif x < .82: evs.append(CREATE)
            elif x < .85: evs.append(PLACE)
            elif x < .92: evs.append(OFF); on = False
            else: evs.append(written(r.choice([1, 1, 2, 3, 4, 5])))
            if evs[-1]['op'] == 'create' and win and b() and not tool: evs.append(end(b()))
        sc.append((evs, 0))
    explore(chk, sc, 'E01 history', True)
    if not chk.violations: served(chk)
    chk.extra.pop('starts', None)
    chk.finding('E01-macro-setting', not getattr(chk, 'macro', False), 'the command that selects the macro descriptions writes a setting that is not declared')

def served(chk):
    """what the extension passes on means to the server what it means to the user"""
    starts = chk.extra.pop('starts', [])
    w = tempfile.mkdtemp(prefix='e', dir=run.work())
    s = run.settings_file(Config(axes={'X': (-10000, 10000), 'Y': (-10000, 10000), 'Z': (-10000, 5000000)}))
    mac = w + '/m 1.json'; json.dump(dict(version='1.0', descriptions={'7000': {'MINE': 'of the user'}}), open(mac, 'w'))
    seen = {}
    for a in starts:
        q = []; has = set()
        for i, x in enumerate(a):
            if '@W/' in x:
                o, y = (x.split('=', 1) if x.startswith('--') and '=' in x else ('', x)); prev = o or (a[i - 1] if i else '')
                k = 'log' if 'log' in y.split('/')[-1] else 'mac' if y.endswith('.json') else 'nc'; has.add(k)
                q.append((o + '=' if o else '') + dict(log=w + '/the log', mac=mac, nc=s)[k])
            else: q.append(x)
        if 'true' in ' '.join(a): has.add('pt')
        seen[tuple(q)] = has
    def one(a):
        b = [x.replace('/the log', '/log %d' % (hash(a) % 10 ** 9)) for x in a]; u = 'file:///a.nc'
        return server.serve(b''.join(map(server.frame, [server.initialize(1), server.opened(u, 'G0 X5 (#7000)'), server.hover(u, 0, 9, 2), server.lens(u, 3)])), b), b
    ks = sorted(seen)
    with ThreadPoolExecutor(8) as ex: out = list(ex.map(one, ks))
    for a, ((ms, err), b) in zip(ks, out):
        has = seen[a]; g = set()
        if err or len(ms) < 4: chk.violation('E01: the server does not serve when started as %s: %s' % (' '.join(b), err), dict(args=b)); continue
        by = {m.get('id'): m.get('result') for m in ms}; dg = [m for m in ms if m.get('method')]
        if dg and dg[0]['params']['diagnostics']: g.add('nc')
        if by.get(3): g.add('pt')
        if 'MINE' in json.dumps(by.get(2)): g.add('mac')
        for x in b:
            p = x.split('=')[-1]
            if '/log ' in p and os.path.exists(p): g.add('log')
        # a line that is not accepted has no path
        want = set(has) - ({'pt'} if 'nc' in has else set())
        if g - ({'pt'} if 'nc' in has else set()) != want: chk.violation('E01: started as %s the server has %s of %s' % (' '.join(b), sorted(g), sorted(has)), dict(args=b))
    chk.extra['served'] = len(ks); chk.traces(len(ks)); shutil.rmtree(w)
    if not any({'nc', 'mac', 'log', 'pt'} <= h for h in seen.values()): chk.extra['served_all'] = False
