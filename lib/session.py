"""S01, S02: sequences of messages. NCSession says what is answered to each; the answers are compared with the real server's."""
import json, os, subprocess, tempfile, threading, time
import build, conform, run, server, nc, gen, progs
from server import frame

URIS = ['file:///a.nc', 'file:///dir%20x/b.nc', 'untitled:Untitled-1']

def explore(chk, alphabet, uris, depth, scripts=(), graph=False):
    d = tempfile.mkdtemp(prefix='t', dir=run.work())
    json.dump(dict(alphabet=alphabet, uris=uris, depth=depth, scripts=list(scripts), graph=graph), open(d + '/in.json', 'w'))
    r = run.tlc('NCSessionTour', env=dict(NC_IN=d + '/in.json')); chk.tlc(r)
    edges = []; said = {}
    for l in r['out'].split('\n'):
        if l.startswith('"EDGE '):
            e = json.loads(json.loads(l)[5:]); edges.append((json.dumps(e['s'], sort_keys=True), e['h'][-1] - 1, json.dumps(e['t'], sort_keys=True), e['o']))
        elif l.startswith('"SCRIPT '):
            e = json.loads(json.loads(l)[7:]); said[e['k'] - 1] = e['o']
    return edges, [said.get(i) for i in range(len(scripts))]

def walks(edges, start, length=60):
    ren = {start: ()}
    for s, a, t, o in edges: ren.setdefault(s, (s,)); ren.setdefault(t, (t,))
    return conform.tours([(ren[s], a, ren[t], o) for s, a, t, o in edges], length)

# ------------------------------------------------------------ abstract -> real
def m(k, u=1, t=(), p=0, n=0): return dict(k=k, u=u, t=list(t), p=p, n=n)

class World:
    """what the numbers of a specification stand for"""
    def __init__(self, texts, places, labels, args):
        self.texts, self.places, self.labels, self.args = texts, places, labels, args      # texts[0] stands for no document
        self.fresh = {}
    def real(self, q, i, rng):
        """message q as number i of the walk -> (JSON text, id or None)"""
        k = q['k']; uri = URIS[q['u'] - 1]; id = i if rng.random() < .8 else 'r-%d' % i
        R = lambda x: (json.dumps(x), x['id'])
        N = lambda x: (json.dumps(x) if not isinstance(x, str) else x, None)
        if k == 'open': return N(server.opened(uri, self.texts[q['t'][0]]))
        if k == 'change': return N(server.changed(uri, [self.texts[t] for t in q['t']]))
        if k == 'close': return N(server.closed(uri))
        if k == 'hover': return R(server.hover(uri, *self.places[q['p']], id))
        if k == 'lens': return R(server.lens(uri, id))
        if k == 'lensres': return R(server.lensres(self.places[q['p']][0], id))
        if k == 'complete': return R(server.completion(uri, id))
        if k == 'resolve': return R(server.cresolve(self.labels[q['p']], id))
        if k == 'init': return R(server.initialize(id))
        if k == 'shutdown': return R(server.shutdown(id))
        if k == 'exit': return N(server.exit_())
        if k == 'initialized': return N(server.msg('initialized', {}))
        if k == 'config': return N(server.msg('workspace/didChangeConfiguration', {'settings': {'ncproj': {'driver': 'haas_mill'}}}))
        if k == 'cancel': return N(server.msg('$/cancelRequest', {'id': max(1, i - 1)}))
        if k == 'unknown note': return N(server.msg(rng.choice(['textDocument/didSave', '$/setTrace', 'workspace/didChangeWatchedFiles', 'x']), {'textDocument': {'uri': uri}}))
        if k == 'answer': return N({'jsonrpc': '2.0', 'id': i, rng.choice(['result', 'error']): {'code': 1, 'message': 'x'}})
        if k == 'garbage': return N(rng.choice(['{', 'null', '[]', '5', '"text"', '{"jsonrpc":"2.0",', 'Content-Length: 5', '\x00\x01', '{}', '[{"jsonrpc":"2.0","id":1,"method":"shutdown"}]', ' ', '\n\n']))
        if k == 'no id':
            x = rng.choice([server.hover(uri, 0, 0, 1), server.completion(uri, 1), server.initialize(1), server.cresolve('G1', 1)]); del x['id']; return N(x)
        if k == 'bad note': return N(rng.choice([
            server.msg('textDocument/didOpen', {'textDocument': {'uri': uri}}), server.msg('textDocument/didOpen'), server.msg('textDocument/didChange', {'textDocument': {'uri': uri}, 'contentChanges': [{}]}),
            server.msg('textDocument/didChange', {'textDocument': {'uri': uri}, 'contentChanges': [{'text': 5}]}), server.msg('textDocument/didChange', {'textDocument': {'uri': uri}, 'contentChanges': 'G1'}),
            server.msg('textDocument/didClose', {'textDocument': {}}), server.msg('textDocument/didClose', [uri]), server.msg('textDocument/didOpen', {'textDocument': {'uri': 5, 'text': 'G1 X5'}})]))
        if k == 'headless': return N('')
        if k == 'unknown request': return R(server.msg(rng.choice(['textDocument/definition', 'textDocument/formatting', 'workspace/symbol', 'textDocument/hovers', '']), {'textDocument': {'uri': uri}, 'position': {'line': 0, 'character': 0}}, id))
        if k == 'bad request': return R(rng.choice([
            server.msg('textDocument/hover', {'textDocument': {'uri': uri}}, id), server.msg('textDocument/hover', {'textDocument': {'uri': uri}, 'position': {'line': '0', 'character': 0}}, id),
            server.msg('textDocument/codeLens', {}, id), server.msg('textDocument/codeLens', None, id), server.msg('codeLens/resolve', {'range': {'start': 5}}, id), server.msg('completionItem/resolve', {'kind': 15}, id),
            server.msg('textDocument/hover', {'position': {'line': 0, 'character': 0}}, id), server.msg('completionItem/resolve', ['G1'], id)]))
        raise ValueError(k)

    def ask_fresh(self, wanted):
        """answers of servers that know nothing else, for the terms wanted"""
        todo = {}
        for w in wanted:
            k = self.key(w)
            if k not in self.fresh: todo[k] = w
        u = URIS[0]; jobs = []; ks = []
        for k, w in todo.items():
            ms = []
            if w['q'] in ('hover', 'lens', 'lensres', 'diagnostics') and w['t']: ms.append(server.opened(u, self.texts[w['t']]))
            if w['q'] in ('complete', 'resolve') and w['macros']: ms.append(server.opened(u, ''))
            if w['q'] == 'hover': ms.append(server.hover(u, *self.places[w['p']], 9))
            elif w['q'] == 'lens': ms.append(server.lens(u, 9))
            elif w['q'] == 'lensres': ms += [server.lens(u, 8), server.lensres(self.places[w['p']][0], 9)]
            elif w['q'] == 'complete': ms.append(server.completion(u, 9))
            elif w['q'] == 'resolve': ms.append(server.cresolve(self.labels[w['p']], 9))
            elif w['q'] == 'init': ms.append(server.initialize(9))
            elif w['q'] == 'shutdown': self.fresh[k] = ('ok', None); continue
            jobs.append((b''.join(map(frame, ms)), self.args)); ks.append((k, w))
        for (k, w), (out, bad) in zip(ks, server.many(jobs)):
            if bad or not out: self.fresh[k] = ('bad', bad or 'no answer'); continue
            self.fresh[k] = ('ok', norm(w['q'], out[-1]['params']['diagnostics'] if w['q'] == 'diagnostics' else out[-1].get('result')))
    @staticmethod
    def key(w): return json.dumps({k: v for k, v in w.items() if k != 'u'}, sort_keys=True)

def norm(q, v):
    """completions are a set; their numbers are the server's own"""
    if q == 'complete' and isinstance(v, list): return sorted(json.dumps({k: x for k, x in e.items() if k != 'data'}, sort_keys=True) for e in v)
    return v

def shape(q, r):
    """an answer of this kind"""
    isr = lambda x: isinstance(x, dict) and all(isinstance(x.get(e), dict) and isinstance(x[e].get('line'), int) and isinstance(x[e].get('character'), int) for e in ('start', 'end'))
    if q == 'init':
        c = isinstance(r, dict) and r.get('capabilities')
        return isinstance(c, dict) and c.get('hoverProvider') is True and c.get('completionProvider', {}).get('resolveProvider') is True and \
            c.get('codeLensProvider', {}).get('resolveProvider') is True and c.get('textDocumentSync') == {'openClose': True, 'change': 1}
    if q == 'hover': return r is None or isinstance(r, dict) and isinstance(r.get('contents'), str) and r['contents'] and isr(r.get('range'))
    if q == 'lens': return r is None or isinstance(r, list) and r and all(isr(e.get('range')) and isinstance(e.get('command', {}).get('title'), str) for e in r)
    if q == 'lensres': return r is None or isinstance(r, dict) and isr(r.get('range')) and isinstance(r.get('command', {}).get('title'), str)
    if q == 'complete': return isinstance(r, list) and len(r) > 0 and all(isinstance(e.get('label'), str) for e in r)
    if q == 'resolve': return isinstance(r, dict) and isinstance(r.get('label'), str)
    if q == 'shutdown': return r is None
    return False

HEADS = [b'Content-Length: %d\r\n\r\n'] * 6 + [b'Content-Type: application/vscode-jsonrpc; charset=utf-8\r\nContent-Length: %d\r\n\r\n',
         b'Content-Length: %d\r\nContent-Type: application/vscode-jsonrpc; charset=utf-8\r\n\r\n', b'Content-Length: %d\n\n', b'X-Other: 5\r\nContent-Length: %d\r\nY: z\r\n\r\n']
def feed(data, a, rng, slow=False, timeout=100):
    """the stream in pieces of any size"""
    p = subprocess.Popen([build.build()['srv']] + a, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=run.ENV)
    def put():
        i = 0
        try:
            while i < len(data):
                n = rng.choice([1, 2, 3, 7, 20, 60, 300, 5000]); p.stdin.write(data[i:i + n]); p.stdin.flush(); i += n
                if slow and rng.random() < .05: time.sleep(.001)
            p.stdin.close()
        except (BrokenPipeError, OSError): pass
    t = threading.Thread(target=put, daemon=True); t.start(); w = threading.Timer(server.patience(timeout), p.kill); w.start()
    out = p.stdout.read(); rc = p.wait(); w.cancel()
    if rc == -9: server.HUNG.append(a)
    try: ms = server.split(out)
    except server.Broken as e: return [], str(e)
    return ms, None if rc == 0 else 'the server ends with %s' % rc

def play(chk, world, runs, label, contents, rng, heads=False, pieces=.0):
    """runs: [[(abstract message, what the specification says to it)]]; compares with what the server says"""
    jobs = []; info = []
    for steps in runs:
        data = b''; want = []; log = []
        for i, (q, o) in enumerate(steps):
            if q['k'] == 'eof': break
            if q['k'] == 'headless': data += rng.choice([b'\r\n', b'\n\n', b'X: y\r\n\r\n', b'Content-Length: 0\r\n\r\n', b'Content-Length: -7\r\n\r\n', b'Content-Length: x\r\n\r\n']); log.append('(no message)'); continue
            text, id = world.real(q, i + 1, rng); log.append(text if len(text) < 300 else text[:300] + '…')
            data += frame(text, rng.choice(HEADS) if heads else None)
            for x in o: want.append((x, id, URIS[q['u'] - 1], i))
        jobs.append((data, world.args)); info.append((want, log))
    if contents: world.ask_fresh([x['what'] for w, l in info for x, id, u, i in w if x['o'] != 'error'])
    whole = [k for k in range(len(jobs)) if rng.random() >= pieces]; res = {}
    for k, v in zip(whole, server.many([jobs[k] for k in whole])): res[k] = v
    for k in range(len(jobs)):
        if k not in res: res[k] = feed(jobs[k][0], jobs[k][1], rng, slow=rng.random() < .3)
    n = 0
    for k, (want, log) in enumerate(info):
        out, bad = res[k]; rep = dict(messages=log, args=[a for a in world.args]); err = None
        for j, (x, id, uri, i) in enumerate(want):
            n += 1
            if j >= len(out): err = 'message %d (%s) is not answered' % (i + 1, x['what']['q']); break
            g = out[j]; w = x['what']; q = w['q']
            if x['o'] == 'diagnostics':
                p = g.get('params')
                if g.get('method') != 'textDocument/publishDiagnostics' or 'id' in g or not isinstance(p, dict) or p.get('uri') != uri or not isinstance(p.get('diagnostics'), list):
                    err = 'message %d changes %s, but what follows are not its diagnostics: %s' % (i + 1, uri, str(g)[:200]); break
                got = p['diagnostics']
            else:
                if g.get('id', '-') != id or 'method' in g: err = 'message %d has id %r, but what follows is %s' % (i + 1, id, str(g)[:200]); break
                if x['o'] == 'error':
                    if 'result' in g or not isinstance(g.get('error'), dict) or not isinstance(g['error'].get('code'), int): err = 'message %d cannot be served, but is answered %s' % (i + 1, str(g)[:200]); break
                    continue
                if 'error' in g or 'result' not in g or not shape(q, g['result']): err = 'message %d asks for %s and is answered %s' % (i + 1, q, str(g)[:200]); break
                got = g['result']
            if contents:
                ok, f = world.fresh[world.key(w)]
                if ok == 'bad': err = 'a fresh server asked for %s: %s' % (w, f); break
                if norm(q, got) != f: err = 'message %d (%s): %s, but of a fresh server %s' % (i + 1, q, str(got)[:300], str(f)[:300]); break
        if not err and len(out) > len(want): err = 'the server says more than it was asked: %s' % str(out[len(want)])[:200]
        if not err and bad: err = bad
        if err: chk.violation('%s: %s' % (label, err), rep)
    chk.traces(len(runs)); chk.extra['answers_compared'] = chk.extra.get('answers_compared', 0) + n
    if info: chk.sample(dict(label=label, messages=info[0][1][:6], answers=[str(w[0]['what']) for w in info[0][0][:6]]))

START = json.dumps(dict(docs=[0, 0], lens=0, macros=False, up=True), sort_keys=True)
def alphabet(nt, np, uris=2, ends=True):
    """messages of all kinds about uris documents with nt texts and np places"""
    al = [m(k, u) for k in ('init', 'initialized', 'config', 'cancel', 'complete', 'unknown note', 'answer', 'garbage', 'no id', 'bad note', 'headless', 'unknown request', 'bad request') for u in (1,)]
    for u in range(1, uris + 1):
        al += [m('open', u, [t]) for t in range(1, nt + 1)] + [m('change', u, [t]) for t in range(1, nt + 1)] + [m('change', u, [nt, 1]), m('change', u, []), m('close', u), m('lens', u)]
        al += [m('hover', u, p=p) for p in range(np)]
    al += [m('lensres', p=p) for p in range(np)] + [m('resolve', p=p) for p in range(2)]
    if ends: al += [m('shutdown'), m('exit'), m('eof')]
    return al

def graph_runs(chk, al, uris, length):
    edges, _ = explore(chk, al, uris, 40, graph=True)
    start = json.dumps(dict(docs=[0] * uris, lens=0, macros=False, up=True), sort_keys=True)
    # nothing is heard of the server once it has ended: one edge out of there is enough
    live = [e for e in edges if json.loads(e[0])['up']]
    chk.extra['transitions_covered'] = chk.extra.get('transitions_covered', 0) + len(live)
    return [[(al[live[i][1]], live[i][3]) for i in w] for w in walks(live, start, length)]

def script_runs(chk, scripts, uris):
    _, said = explore(chk, [], uris, 0, scripts)
    return [list(zip(s, o)) for s, o in zip(scripts, said)]

TEXTS = ['', 'G1 X10 F100\nG0 X0\nT1 M6', '#1=5\nG0 X#1 Y#2\n%(a b)\nM30\n', 'G1 X1\n\n$\nG1 X Y1\nG2 X9 Y9 R5 F100 S100 M3\n']
def S01(chk):
    r = chk.rng; full = chk.full()
    # the laws over all histories of a small alphabet
    small = [m('open', 1, [1]), m('change', 1, [2, 1]), m('change', 2, [2]), m('change', 1, []), m('close', 1), m('hover', 1), m('lens', 2), m('lensres'), m('unknown request'), m('no id'), m('garbage'), m('shutdown'), m('exit')]
    explore(chk, small, 2, 5 if full else 4)
    st = run.settings_file(progs.rcfg(r))
    w = World(TEXTS, [(0, 0), (1, 4)], ['G1', '#4120'], server.args(st))
    runs = graph_runs(chk, alphabet(2, 2), 2, 60)
    # shutdown takes a second: a sample of the walks that end so
    slow = [x for x in runs if any(q['k'] == 'shutdown' for q, o in x)]; keep = set(map(id, slow if full else r.sample(slow, min(len(slow), 24))))
    runs = [x if id(x) in keep or not any(q['k'] == 'shutdown' for q, o in x) else [s for s in x if s[0]['k'] != 'shutdown' and not (s[0]['k'] == 'eof')] for x in runs]
    play(chk, w, runs, 'S01 tour', False, r, heads=True, pieces=.15)
    # long random exchanges over three documents
    al = alphabet(3, 2, 3, ends=False); sc = []
    for _ in range(800 if full else 120): sc.append([r.choice(al) for _ in range(r.choice([5, 20, 60]))] + ([m(r.choice(['exit', 'eof', 'exit'])), r.choice(al), r.choice(al)] if r.random() < .7 else []))
    play(chk, w, script_runs(chk, sc, 3), 'S01 exchange', False, r, heads=True, pieces=.3)
    dialogue(chk, w, script_runs(chk, [[r.choice(al) for _ in range(40)] for _ in range(30 if full else 8)], 3), r)

def dialogue(chk, world, runs, rng):
    """each answer is there before the next message is sent"""
    import select
    for steps in runs:
        p = subprocess.Popen([build.build()['srv']] + world.args, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=run.ENV)
        log = []; buf = b''; err = None
        for i, (q, o) in enumerate(steps):
            if q['k'] in ('eof', 'headless', 'shutdown', 'exit'): continue
            text, id = world.real(q, i + 1, rng); log.append(text[:300])
            try: p.stdin.write(frame(text)); p.stdin.flush()
            except BrokenPipeError: err = 'the server is gone before message %d' % (i + 1); break
            end = time.time() + 20; got = []
            while len(got) < len(o):
                try: got = server.split(buf)
                except server.Broken as e:
                    if 'shorter' not in str(e) and buf.count(b'\r\n\r\n') > 0: err = str(e); break
                    got = []
                if len(got) >= len(o): break
                if not select.select([p.stdout], [], [], max(0, end - time.time()))[0]: err = 'message %d (%s) is not answered before the next one comes' % (i + 1, q['k']); break
                x = os.read(p.stdout.fileno(), 1 << 20)
                if not x: err = 'the server ends at message %d' % (i + 1); break
                buf += x
            if err: break
            buf = b''
        try: p.stdin.close()
        except OSError: pass
        p.stdout.close(); p.kill(); p.wait()
        if err: chk.violation('S01 dialogue: ' + err, dict(messages=log))
    chk.traces(len(runs))

# ------------------------------------------------------------------------ S02
def programs_text(r, cfg, n=None):
    """a document that may leave something behind: modes, units, variables, tools, faults"""
    import rules
    w = dict(line=4, arc=1, drill=1.5, modes=2, tool=1.5, toolodd=.4, home=.3, dwell=.3, other=.4, reject=1, outside=.3, optional=.3, units=1.5, limits=.4, spindle=.8, feedblock=.4, pallet=.2, words=.5)
    bl = gen.Gen(r, cfg, w, start=r.random() < .5).program(n or r.randint(1, 9))
    if r.random() < .5: bl = rules.with_variables(r, bl, .3, .05)
    ls = [nc.block_text(b, r) for b in bl]
    for _ in range(r.choice([0, 0, 1, 2])): ls.insert(r.randint(0, len(ls)), r.choice(['$', 'G1 X', '(open', '#1=', '', '  ', '#500=7', 'G1 X#500', '#501=#500+1', 'X1.2.3', '%', 'G20', 'G91', 'G65 P1']))
    return r.choice(['\n', '\n', '\r\n']).join(ls) + r.choice(['', '\n'])

def places_in(r, texts, n):
    """positions worth asking about"""
    ps = [(0, 0)]
    while len(ps) < n:
        t = r.choice(texts); ls = t.split('\n'); k = r.randrange(len(ls)); l = ls[k]
        at = [i for i, c in enumerate(l) if c in 'GM#'] or [0]
        ps.append((k, r.choice(at) + r.choice([0, 0, 1])))
    return ps

def S02(chk):
    r = chk.rng; full = chk.full()
    for n in range(16 if full else 3):
        cfg = progs.rcfg(r); a = server.args(run.settings_file(cfg) if r.random() < .8 else None)
        texts = [''] + [programs_text(r, cfg) for _ in range(4)]
        w = World(texts, places_in(r, texts[1:], 5), [r.choice(['G1', 'M3', 'G54']), '#4120'], a)
        al = alphabet(2, 3); al = [x for x in al if x['k'] not in ('shutdown', 'exit', 'eof', 'answer', 'config')]
        if n == 0 or full: play(chk, w, graph_runs(chk, al, 2, 80), 'S02 tour', True, r)
        al = [x for x in alphabet(4, 5, 3, ends=False) if x['k'] in ('open', 'change', 'close', 'hover', 'lens', 'lensres', 'complete', 'resolve', 'bad note', 'no id', 'bad request')]
        sc = [[r.choice(al) for _ in range(r.choice([10, 40, 80]))] for _ in range(120 if full else 60)]
        # interleaved editing: change, ask about it and the others
        for _ in range(60 if full else 30):
            s = [m('open', u, [r.randint(1, 4)]) for u in (1, 2, 3)]
            for _ in range(12):
                u = r.randint(1, 3); s += [m('change', u, [r.randint(1, 4)])] + [m(r.choice(['hover', 'hover', 'lens']), r.choice([u, u, r.randint(1, 3)]), p=r.randrange(5)) for _ in range(3)] + [m('lensres', p=r.randrange(5))]
            sc.append(s)
        play(chk, w, script_runs(chk, sc, 3), 'S02 editing', True, r)
        if chk.violations: return

# ------------------------------------------------- messages by their data: S03
VALUE = {'obj': {}, 'arr': [], 'str': 'x', 'int': 5, 'neg': -3, 'big': 2 ** 40, 'frac': 1.5, 'bool': True, 'null': None}
def whole(k, uri, text):
    return {'open': server.opened(uri, text), 'change': server.changed(uri, [text]), 'close': server.closed(uri), 'hover': server.hover(uri, 0, 1, 1), 'lens': server.lens(uri, 1),
            'lensres': server.lensres(1, 1), 'resolve': server.cresolve('G1', 1), 'complete': server.completion(uri, 1), 'init': server.initialize(1), 'shutdown': server.shutdown(1)}[k]
def altered(e, uri, text, id):
    x = whole(e['k'], uri, text); x.pop('id', None)
    if e['id'] != 'missing': x['id'] = id if e['id'] == 'int' else {'str': 'q%d' % id, 'neg': -id, 'big': 2 ** 40 + id, 'frac': id + .5}.get(e['id'], VALUE.get(e['id']))
    for c in sorted(e['change'], key=lambda c: -len(c['p'])):
        o = x
        for p in c['p'][:-1]:
            o = o[int(p)] if isinstance(o, list) else o.setdefault(p, {})
        k = c['p'][-1]; k = int(k) if isinstance(o, list) else k
        if c['t'] == 'missing':
            if isinstance(o, list): del o[k]
            else: o.pop(k, None)
        else: o[k] = VALUE[c['t']]
    return x

def messages(chk, pairs, share):
    r = chk.rng; d = tempfile.mkdtemp(prefix='t', dir=run.work())
    json.dump(dict(pairs=pairs), open(d + '/in.json', 'w'))
    t = run.tlc('NCMessage', env=dict(NC_IN=d + '/in.json')); chk.tlc(t)
    es = [json.loads(json.loads(l)[4:]) for l in t['out'].split('\n') if l.startswith('"MSG ')]
    es = [e for e in es if e['k'] != 'shutdown' and r.random() < share]; r.shuffle(es)
    uri, text, other = URIS[0], '#1=5\nG0 X#1\nG$', 'G1 X1\n'
    groups = [es[i:i + 60] for i in range(0, len(es), 60)]; jobs = []; plan = []
    a = server.args(run.settings_file(nc.Config()))
    for g in groups:
        ms = []; want = []
        for j, e in enumerate(g):
            x = altered(e, uri, other, 1000 + j)
            ms += [server.opened(uri, text), server.lens(uri, 'lens%d' % j), x, server.hover(uri, 0, 1, 'h%d' % j)]; want.append((e, x, j))
        jobs.append((b''.join(map(frame, ms)), a)); plan.append(want)
    for want, (out, bad) in zip(plan, server.many(jobs)):
        p = 0
        for e, x, j in want:
            rep = dict(message=x, changed=e['change'], after=text)
            o = e['o']
            # the answers between two openings
            if p >= len(out): chk.violation('S03: %s (before or after %s)' % (bad or 'no answer', str(x)[:200]), rep); break
            q = p + 1
            while q < len(out) and out[q].get('id') != 'h%d' % j: q += 1
            if q >= len(out): chk.violation('S03: after %s the server says nothing more: %s' % (str(x)[:300], bad), rep); break
            got = out[p + 2:q]; h = out[q].get('result'); p = q + 1; err = None
            if o in ('nothing', 'closed') and got: err = 'is answered %s' % str(got)[:200]
            elif o == 'diagnostics' and (len(got) != 1 or got[0].get('method') != 'textDocument/publishDiagnostics'): err = 'gets no diagnostics: %s' % str(got)[:200]
            elif o in ('reply', 'error') and (len(got) != 1 or ('result' if o == 'reply' else 'error') not in got[0] or got[0].get('id', '-') != (x['id'] if e['keep'] else None)): err = 'should get %s: %s' % (o, str(got)[:200])
            if not err:
                touched = any(c['p'][-1] == 'uri' for c in e['change'])
                if o in ('nothing', 'error', 'reply') and (h or {}).get('contents') != '#1 = 5': err = 'changes what hovering shows: %s' % h
                if o == 'closed' and not touched and h is not None: err = 'does not close the document'
            if err: chk.violation('S03 message: %s %s' % (str(x)[:300], err), rep)
    chk.traces(len(es)); chk.extra['odd_messages'] = len(es)

def wire(chk, n_packets, three, share):
    """every stream of packets of the specification"""
    r = chk.rng; d = tempfile.mkdtemp(prefix='t', dir=run.work())
    json.dump(dict(packets=n_packets, three=three), open(d + '/in.json', 'w'))
    t = run.tlc('NCWire', env=dict(NC_IN=d + '/in.json')); chk.tlc(t)
    es = [json.loads(json.loads(l)[5:]) for l in t['out'].split('\n') if l.startswith('"WIRE ')]
    es = [e for e in es if len(e['p']) == n_packets or e['p'][-1]['cut']]
    if len(es) * share > 4000: share = 4000 / len(es)
    es = [e for e in es if r.random() < share]; jobs = []
    for e in es:
        data = b''
        for k, p in enumerate(e['p']):
            nl = b'\r\n' if p['e'] == 'crlf' else b'\n'
            body = json.dumps(server.cresolve('G1', k + 1)).encode(); L = {'length': b'Content-Length: %d' % len(body), 'type': b'Content-Type: application/vscode-jsonrpc; charset=utf-8', 'other': b'X-Length: 12',
                'negative': b'Content-Length: -4', 'nonsense': b'Content-Length: many'}
            data += b''.join(L[x] + nl for x in p['ls']) + nl
            says = [x for x in p['ls'] if x in ('length', 'negative', 'nonsense')][-1:] == ['length']
            if says: data += body[:r.randint(0, len(body) - 1)] if p['cut'] else body
        jobs.append((data, []))
    for e, j, (out, bad) in zip(es, jobs, server.many(jobs)):
        if bad or [o.get('id') for o in out] != e['g']: chk.violation('stream of %s: messages %s are found instead of %s %s' % (e['p'], [o.get('id') for o in out], e['g'], bad or ''), dict(stream=j[0].decode('latin1')))
    chk.traces(len(es)); chk.extra['streams'] = len(es)

# ------------------------------------------------------------- odd texts: S03
def oddities(r, cfg):
    """a line nobody would write"""
    base = lambda: programs_text(r, cfg, 1).split('\n')[0].rstrip('\r')
    x = r.random()
    if x < .3:      # characters lost, doubled, swapped, added
        l = list(base())
        for _ in range(r.choice([1, 1, 2, 5])):
            k = r.randrange(len(l) + 1); y = r.random()
            if y < .3 and l: del l[min(k, len(l) - 1)]
            elif y < .6: l.insert(k, r.choice('GXYZ#[]()+-*/=.,0123456789NTMSF%;: \t\0\x01\x7fäŁ€😀abz$&"\'\\{}<>!?'))
            elif y < .8 and l: l.insert(k, l[min(k, len(l) - 1)])
            else: r.shuffle(l) if len(l) < 8 else l.reverse()
        return ''.join(l)
    if x < .4: return ''.join(chr(r.choice([r.randint(1, 255), r.randint(32, 126), r.randint(0x100, 0x2fff)])) for _ in range(r.randint(1, 40))).replace('\n', ' ')
    if x < .5: return r.choice(['X', 'G', 'N', '#', 'T', '#1=', 'G#', 'S', 'GOTO']) + ''.join(r.choice('0123456789') for _ in range(r.choice([12, 25, 60, 400, 3000]))) + r.choice(['', '.', '.5', '.' + '9' * 30])
    if x < .6:
        n = r.choice([2, 10, 60, 400, 3000]); return r.choice(['#1=', 'X', 'IF', 'G1 X', '#2=SIN']) + '[' * n + '1' + ']' * r.choice([n, n - 1, n + 1, 0])
    if x < .7: return '#%d=' % r.choice([1, 100, 999, 33]) + ''.join(r.choice(['1', '2.5', '#1', '#999', '[', ']', '+', '-', '*', '/', 'SIN', 'SQRT[', 'MOD', '=', ' ', 'ATAN', 'POW[2,', 'LN[0]', '/0', 'BIN[', 'EXP[999]']) for _ in range(r.randint(1, 30)))
    if x < .8: return r.choice(['G1 X1 ', '#1=1+', 'X#', '(', 'N']) * r.choice([1, 50, 2000])
    if x < .9: return r.choice(['IF[#1EQ1]', 'WHILE[#1LT', 'END', 'GOTO', 'IF[#1 EQ 1]GOTO5', 'WHILE[1]DO1', 'END1', 'M98', 'M98 P', 'G65 P1 L', 'O', 'O1', '%', '%%', ':', '/', '//', '/0', '/5/6', '(((', ')', '()', '(a)(b', 'G', 'G.', 'G1.1.1', 'X-', 'X+-1', 'X--1', 'X.', 'X-.', ',', ',C', ',R5', '#', '##1', '#-1', '#1=', '#1==1', '#[1]=5', '#[#1]=1', 'X[#1]', 'X[1+2]', 'X-[#1]', 'X#[1]', '#0=1', '#1=#1', '#3000=5(ALARM)', '=', '[', ']', 'T', 'T0', 'T00', 'T99999999', 'S1=', 'S1=5', 'C2=', 'A2=#1', 'M', 'M30 M30', 'G0 G1 G2 G3'])
    return base() + r.choice([' ', '']) + base()

TAILS = ['#', '[', ']', '.', '-', '+', '=', '1', '#1', '[1]', '[#1', ',', '(', ' ', '/', '*', 'R', 'SIN', 'EQ', '0']
def unfinished(chk, r, full):
    """every letter followed by every one or two lexemes, words never finished among them"""
    lines = [l + a + b for l in 'ABCDEFGHIJKLMNOPQRSTUVWXYZ#[/(' for a in TAILS for b in [''] + TAILS]; r.shuffle(lines)
    if full: lines += [l + a + b + c for l in 'GMFSTXNDH#' for a in TAILS for b in TAILS for c in TAILS]
    docs = [lines[k:k + 60] for k in range(0, len(lines), 60)]; jobs = []
    for d in docs:
        a = server.args(run.settings_file(progs.rcfg(r)) if r.random() < .7 else None, calc=r.random() < .85)
        jobs.append((b''.join(map(frame, [server.opened(URIS[0], '\n'.join(d)), server.lens(URIS[0], 1), server.hover(URIS[0], len(d) - 1, 0, 2), server.changed(URIS[0], ['']), server.lens(URIS[0], 3)])), a))
    for d, (st, a), (out, bad) in zip(docs, jobs, server.many(jobs)):
        got = [o.get('id', 'd') for o in out]; err = None
        if bad or got != ['d', 1, 2, 'd', 3]: err = bad or 'not every message is answered: %s' % got
        elif any(not 0 <= x['range']['start']['line'] < len(d) or not x['message'] for x in out[0]['params']['diagnostics']): err = 'a diagnostic of no line'
        elif out[3]['params']['diagnostics']: err = 'diagnostics of an empty document: %s' % out[3]['params']['diagnostics']
        if not err: continue
        # the line by itself, if it fails by itself
        alone = server.many([(b''.join(map(frame, [server.opened(URIS[0], x), server.lens(URIS[0], 1)])), a) for x in d])
        one = [x for x, (o, b) in zip(d, alone) if b or len(o) != 2]
        chk.violation('S03 unfinished: %s after %s' % (err, one[:3] or d), dict(text=one[:1] or d, args=a))
    chk.traces(len(docs)); chk.extra['unfinished_lines'] = len(lines)

LONG = {'G': lambda n: 'G' + '1' * n, 'M.': lambda n: 'M0.' + '3' * n, '#': lambda n: '#' + '1' * n, 'X': lambda n: 'X' + '1' * n, 'X.': lambda n: 'X1.' + '1' * n, '[': lambda n: '#1=' + '[' * n + '1' + ']' * n,
        '+': lambda n: '#1=1' + '+1' * n, '-': lambda n: 'X' + '-' * n, ' ': lambda n: 'X' + ' ' * n + '1', '(': lambda n: '(' * n, '(a': lambda n: '(' + 'a' * n + ')', '()': lambda n: '()' * n, 'X1': lambda n: 'X1 ' * n,
        '/': lambda n: '/' * n, 'IF': lambda n: 'IF[' + '[' * n + '1', 'SIN': lambda n: '#1=' + 'SIN[' * n + '1' + ']' * n, '##': lambda n: '#' * n, '.': lambda n: 'X1' + '.' * n, '%': lambda n: '%' * n, 'A': lambda n: 'A' * n, 'G1': lambda n: 'G1' * n}
def long(chk, r, full):
    """one thing repeated tens of thousands of times in a line"""
    jobs = []; plan = []
    for n in [30000, 100000] if full else [30000]:
        for name, f in LONG.items():
            l = f(n + r.randint(0, 9)); a = server.args(run.settings_file(progs.rcfg(r)) if r.random() < .5 else None, calc=r.random() < .85)
            spots = [0, 1, len(l) // 2, len(l) - 1, len(l)]
            jobs.append((b''.join(map(frame, [server.opened(URIS[0], l), server.lens(URIS[0], 'l')] + [server.hover(URIS[0], 0, c, k) for k, c in enumerate(spots)] + [server.changed(URIS[0], ['']), server.lens(URIS[0], 'e')])), a)); plan.append((name, n))
    for (name, n), (st, a), (out, bad) in zip(plan, jobs, server.many(jobs)):
        got = [o.get('id', 'd') for o in out]
        if bad or got != ['d', 'l'] + list(range(5)) + ['d', 'e']: chk.violation('S03 long: %s after a line of %s repeated %d times' % (bad or 'not every message is answered: %s' % got, name, n), dict(what=name, times=n, args=a))
        elif any(x['range']['start']['line'] or not x['message'] for x in out[0]['params']['diagnostics']) or out[-2]['params']['diagnostics']: chk.violation('S03 long: a diagnostic of no line after a line of %s repeated %d times' % (name, n), dict(what=name, times=n, args=a))
    chk.traces(len(jobs)); chk.extra['long_lines'] = len(jobs)

def S03(chk):
    import gen
    r = chk.rng; full = chk.full()
    messages(chk, full, .4 if full else 1)
    if chk.violations: return
    wire(chk, 3 if full else 2, False, 1)
    if chk.violations: return
    unfinished(chk, r, full)
    if chk.violations: return
    long(chk, r, full)
    if chk.violations: return
    jobs = []; plan = []; N = 2400 if full else 320
    for n in range(N):
        cfg = progs.rcfg(r); sf = run.settings_file(cfg) if r.random() < .9 else None; a = server.args(sf, calc=r.random() < .85)
        normal = programs_text(r, cfg); before = [nc.block_text(b, r) for b in gen.Gen(r, cfg, dict(line=3, arc=1, drill=1, modes=1, tool=.5, reject=.5)).program(r.randint(0, 6))]
        odd = [oddities(r, cfg) for _ in range(r.choice([1, 2, 5]))]
        text = '\n'.join(before + odd)
        ms = [server.opened(URIS[0], normal), server.opened(URIS[1], '\n'.join(before)), server.lens(URIS[1], 'lb'), server.opened(URIS[1], text), server.lens(URIS[1], 'lo')]
        spots = [(len(before) + k, c) for k, l in enumerate(odd) for c in sorted({0, 1, 2, len(l) // 2, max(0, len(l) - 1), len(l), len(l) + 5, r.randint(0, len(l))})]
        ms += [server.hover(URIS[1], y, c, 'h%d' % k) for k, (y, c) in enumerate(spots)]
        ms += [server.lensres(len(before), 'lr'), server.closed(URIS[1]) if r.random() < .5 else server.msg('initialized'), server.changed(URIS[0], [normal]), server.lens(URIS[0], 'ln'), server.hover(URIS[0], 0, 0, 'hn'), server.completion(URIS[0], 'c')]
        jobs.append((b''.join(map(frame, ms)), a)); plan.append((before, odd, spots, normal, sf))
    for (before, odd, spots, normal, sf), (st, a), (out, bad) in zip(plan, jobs, server.many(jobs)):
        rep = dict(before=before, odd=odd, other_document=normal, args=a, settings=json.load(open(sf)) if sf else None); text = before + odd
        want = ['d', 'd', 'lb', 'd', 'lo'] + ['h%d' % k for k in range(len(spots))] + ['lr', 'd', 'ln', 'hn', 'c']
        got = [o.get('id', 'd') for o in out]
        if bad or got != want:
            chk.violation('S03 text: %s after %s' % (bad or 'not every message is answered: %d of %d' % (len(got), len(want)), [x[:80] for x in odd]), rep); continue
        D = lambda k: out[k]['params']['diagnostics']; err = None
        by = {o['id']: o.get('result') for o in out if 'id' in o}
        if any(not 0 <= x['range']['start']['line'] < sum(len(l.split('\n')) for l in text) or not x['message'] for x in D(3)): err = 'a diagnostic of no line: %s' % D(3)
        elif [x for x in D(3) if x['range']['start']['line'] < len(before)] != D(1): err = 'the lines before are judged differently: %s and %s' % (D(1), D(3))
        elif [x for x in by['lo'] or [] if x['range']['start']['line'] < len(before)] != (by['lb'] or []): err = 'the lines before take other paths and times'
        elif D(-4) != D(0): err = 'another document is judged differently afterwards'
        else:
            for k, (y, c) in enumerate(spots):
                h = by['h%d' % k]
                if not shape('hover', h): err = 'hovering gives %s' % str(h)[:200]; break
                if h and not (h['range']['start']['line'] == y and h['range']['start']['character'] <= c < h['range']['end']['character']): err = 'hovering at %s shows another place: %s' % ((y, c), h['range']); break
        if err: chk.violation('S03 text: %s after %s' % (err, [x[:80] for x in odd]), rep)
    chk.traces(N); chk.extra['odd_lines'] = sum(len(o) for b, o, s, t, sf in plan)
    chk.sample(dict(odd_lines=[x[:100] for x in plan[0][1] + plan[1][1]]))
