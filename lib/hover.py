"""S06: NCHover says what the word at a place means; the server is asked about every place."""
import json, os, re, shutil, tempfile
import conform, docs, gen, nc, progs, rules, run, server, session
from nc import Config, SCALE, string, none
from session import URIS

DRIVERS = nc.DRIVERS
_tab = {}
def tables(driver, user=None):
    """the descriptions of a control: {letter: {key: (title, description)}}, for macros also the ranges"""
    if driver not in _tab:
        d = os.path.join(os.environ.get('VERIF_REPO', '/repo'), 'conf', driver, 'desc')
        rd = lambda f: {k: next(iter(v.items())) for k, v in json.load(open(os.path.join(d, f), encoding='utf-8-sig'))['descriptions'].items()}
        nz = lambda t: {k.lstrip('0') if k.lstrip('0')[:1].isdigit() else '0' + k.lstrip('0'): v for k, v in t.items()}
        _tab[driver] = dict(g=nz(rd('gcode_desc_en.json')), m=nz(rd('mcode_desc_en.json')), macros=rd('macros_desc_en.json'))
    t = dict(_tab[driver])
    if user: t['macros'] = dict(t['macros'], **user)
    t['ranges'] = []
    for k, (ti, de) in t['macros'].items():
        m = re.search(r'Range: ((?:#\d+-#\d+)(?: - #\d+-#\d+)?)', de)
        if m: t['ranges'] += [dict(a=int(a), b=int(b), key=k) for a, b in re.findall(r'#(\d+)-#(\d+)', m.group(1))]
    return t
def spec(t): return dict(g=sorted(t['g']), m=sorted(t['m']), macros=sorted(t['macros']), ranges=t['ranges'])

def chars(t): return [dict(c=c if c.isascii() and c.isprintable() else '?', u=docs.u16(c)) for c in t]

def ask(chk, items, tabs, configs=(), alphabet='', depth=0, env=()):
    """items: [(Config, [line records], [texts], [places per line], number of the table)] -> answers per document and line; tour"""
    d = tempfile.mkdtemp(prefix='s', dir=run.work()); os.makedirs(d + '/out'); keys = {}; cs = []; ds = []
    for c, ls, ts, at, tab in items:
        k = c.key()
        if k not in keys: cs.append(dict(c.spec(), calc=True)); keys[k] = len(cs)
        ds.append(dict(c=keys[k], ls=[dict(l, b=docs.ascii_words(l['b'])) for l in ls], chars=[chars(t) for t in ts], at=at, tabs=tab))
    json.dump(dict(configs=cs, docs=ds, tabs=[spec(t) for t in tabs], alphabet=chars(alphabet), depth=depth, env=[list(e) for e in env]), open(d + '/in.json', 'w'))
    r = run.tlc('NCHoverTour', env=dict(NC_IN=d + '/in.json', NC_OUT=d + '/out')); chk.tlc(r)
    res = [json.load(open('%s/out/%d.json' % (d, i + 1))) if x[1] else [] for i, x in enumerate(items)]
    tour = [json.loads(json.loads(l)[4:]) for l in r['out'].split('\n') if l.startswith('"HOV ')] if alphabet else []
    shutil.rmtree(d)
    return res, tour

def told(contents, text, desc):
    """the word and, if it is described, title and description"""
    title, de = desc
    c = contents.replace('\r', ''); p = c.find(text)
    if p < 0 or p > 4: return False
    p = c.find(title, p + len(text))
    if p < 0: return False
    p += len(title)
    for l in de.split('\n'):
        if l.strip():
            q = c.find(l, p)
            if q < 0: return False
            p = q + len(l)
    return True
def number(s):
    m = re.search(r'=\s*(-?\d+(?:\.\d+)?)', s)
    return float(m.group(1)) if m else None

def compare(want, got, t, y):
    """-> None or what differs"""
    if want['k'] == 'none': return None if got is None else 'something is shown where no word is: %s' % str(got)[:160]
    if got is None: return 'nothing is shown for %s' % want['text']
    try: c = got['contents']; s, e = got['range']['start'], got['range']['end']
    except (KeyError, TypeError): return 'malformed: %s' % str(got)[:160]
    if (s['line'], s['character'], e['line'], e['character']) != (y, want['from'], y, want['to']): return 'the place of %s is said to be %s instead of %d..%d' % (want['text'], (s, e), want['from'], want['to'])
    if want['k'] in ('code', 'sel'):
        tab = t[want['letter'].lower()]; head = c.split('\n')[0]
        if want['k'] == 'sel' and not re.search(r'(?<![\d.A-Za-z])%s%s(?![\d.])' % (want['letter'], re.escape(want['key'])), head): return '%s is said to select %r instead of %s%s' % (want['text'], head, want['letter'], want['key'])
        if want['known']:
            if not told(c, want['text'], tab[want['key']]): return '%s is described as %r instead of %r' % (want['text'], c[:160], tab[want['key']][0])
        elif '---' in c or want['text'] not in head or len(head) > len(want['text']) + 20: return '%s is described as %r' % (want['text'], c[:160])
        return None
    head = c.split('\n')[0]
    if want['text'] not in head[:len(want['text']) + 3]: return 'hovering over %s shows %r' % (want['text'], head[:80])
    if want['has']:
        v = number(head)
        if v is None or want['id'] not in (3101, 3102) and abs(v - want['val'] / SCALE) > 1.1e-6 * max(1, abs(v)): return '%s is shown as %r instead of %s' % (want['text'], head, want['val'] / SCALE)
    elif number(head) is not None: return '%s is shown as %r, but has no value' % (want['text'], head)
    if want['desc']:
        if not any(told(c, '', t['macros'][k]) if False else t['macros'][k][0] in c and all(l in c for l in t['macros'][k][1].split('\n') if l.strip()) for k in want['desc']): return '%s is described as %r instead of %r' % (want['text'], c[:160], [t['macros'][k][0] for k in want['desc']])
    elif '---' in c: return '%s is described as %r' % (want['text'], c[:160])
    elif not want['has'] and 'undefined' not in c: return '%s has no value, but is shown as %r' % (want['text'], c[:160])
    return None

def judge(chk, jobs, label):
    """jobs: [(args, text, [(line, place, expected)], tables, replay)]"""
    out = server.many([(b''.join(map(server.frame, [server.opened(URIS[0], text)] + [server.hover(URIS[0], y, p, k) for k, (y, p, w) in enumerate(qs)])), a) for a, text, qs, t, rep in jobs])
    n = 0
    for (a, text, qs, t, rep), (ms, bad) in zip(jobs, out):
        by = {m['id']: m.get('result', 0) for m in ms if 'id' in m}
        if bad or len(by) != len(qs): chk.violation('%s: %s' % (label, bad or '%d of %d questions are answered' % (len(by), len(qs))), dict(rep, text=text)); continue
        for k, (y, p, w) in enumerate(qs):
            err = compare(w, by[k], t, y); n += 1
            if err:
                chk.violation('%s: at %d:%d of %s: %s' % (label, y, p, text.split('\n')[y:y + 1], err), dict(rep, text=text, line=y, character=p, expected=w, got=by[k])); break
    chk.traces(n); chk.extra['hovers'] = chk.extra.get('hovers', 0) + n
    if jobs and jobs[0][2]: chk.sample(dict(label=label, text=jobs[0][1][:200], hovers=[q for q in jobs[0][2] if q[2]['k'] != 'none'][:4]))

ENV = [(1, 1 * SCALE), (5, 541000), (10, -5 * SCALE), (15, 17 * SCALE), (51, 500), (0, 98 * SCALE), (11, 64 * SCALE)]
def short(v): return nc.num('=', v)
def tour(chk, full):
    """all lines over an alphabet"""
    r = chk.rng; t = tables('fanuc_mill')
    al = 'GMmg#01 5.X(ä😀'
    if not full: al = 'G#' + ''.join(r.sample('Mmg01 5.X(ä😀', 5)) + r.choice('015')
    al = ''.join(dict.fromkeys(al))
    _, tr = ask(chk, [], [t], alphabet=al, depth=4, env=ENV + [(3101, 31416), (3102, 27183)])
    lines = []
    for x in tr:
        x['t'] = ''.join(al[i - 1] for i in x['h']); lines.append(x)
    r.shuffle(lines); jobs = []
    first = ['#%d=%s' % (k, nc.word_text(dict(nc.num('=', v)), None)[1:]) if v >= 0 else '#%d=0-%g' % (k, -v / SCALE) for k, v in ENV]
    for i in range(0, len(lines), 1500):
        part = lines[i:i + 1500]; text = '\n'.join(first + [x['t'] for x in part])
        jobs.append((server.args(None), text, [(len(first) + k, p, w) for k, x in enumerate(part) for p, w in enumerate(x['r'])], t, {}))
    judge(chk, jobs, 'S06 tour')

def documents(chk, n):
    r = chk.rng; raw = []; tabs = []
    W = dict(line=4, arc=.6, drill=.5, modes=1.5, tool=.6, home=.2, dwell=.2, other=.8, reject=1, outside=.2, optional=.3, units=.3, spindle=.4, words=1.5, read=.6)
    for i in range(n):
        c = progs.rotary(r, progs.rcfg(r), .2); user = None
        if r.random() < .3: user = {str(r.choice([1, 100, 105, 500, 3000, 5001, 4109, r.randint(1, 9999)])): ('user %d' % r.randint(1, 99), r.choice(['described by the user', 'Range: #100-#119 \nmine', ''])) for _ in range(r.randint(1, 3))}
        bl = gen.Gen(r, c, W, start=r.random() < .7).program(r.randint(2, 9)); bl = rules.with_variables(r, bl, r.choice([.1, .5]), .1)
        if r.random() < .5:                 # codes given by variables
            for _ in range(r.randint(1, 3)):
                a = r.choice('GM'); k = r.randint(101, 105); bl.insert(r.randint(0, len(bl)), [nc.var(a, k)])
                bl.insert(r.randint(0, len(bl)), [nc.define(k, [short(round(r.choice([0, 1, 3, 17, 54, 54.1, 28, 90, 999, 13]) * SCALE) if r.random() < .9 else -SCALE)])])
        ls = [docs.line_of(b, r) for b in docs.spoil(r, bl, .3)]
        for _ in range(r.randint(0, 3)):
            b = [string('(', r.choice(['#101 G54.1 M#102', 'g01. m3 M06', '#5001 #2300 #4109', 'G0.5G1.0 M00', '#0100#3101 G#103', 'ęG1😀 M30', 'G100000000000 #99999999999 #00', '#1101 #10500 #2501 G065']))]
            ls.insert(r.randint(0, len(ls)), docs.line_of(b, r))
        if not ls: ls = [docs.line_of(None, r)]
        ts = [t for t, l in ls]; at = []
        for t in ts:
            places = [docs.u16(t[:m.start()]) + r.randint(0, 2) for m in re.finditer(r'[GMgm#]', t)]
            at.append(sorted(set(r.sample(places, min(4, len(places))) + [r.randint(0, docs.u16(t) + 1)])))
        raw.append((c, [l for t, l in ls], ts, at, i + 1, user)); tabs.append(tables(c.p['driver'], user))
    uniq = {}; small = []
    for i, t in enumerate(tabs):
        k = json.dumps([raw[i][0].p['driver'], raw[i][5]], sort_keys=True)
        if k not in uniq: small.append(t); uniq[k] = len(small)
        raw[i] = raw[i][:4] + (uniq[k], raw[i][5])
    res, _ = ask(chk, [x[:5] for x in raw], small)
    jobs = []
    for (c, ls, ts, at, tab, user), e in zip(raw, res):
        m = None
        if user is not None:
            m = tempfile.mktemp(suffix='.json', dir=run.work()); json.dump(dict(version='1.0', descriptions={k: {a: b} for k, (a, b) in user.items()}), open(m, 'w'))
        jobs.append((server.args(run.settings_file(c), r.random() < .5, m), '\n'.join(ts), [(y, p, w) for y, (ps, ws) in enumerate(zip(at, e)) for p, w in zip(ps, ws)], small[tab - 1], dict(settings=c.settings(), macros=user)))
    judge(chk, jobs, 'S06 document')

def catalog(chk, drivers):
    """every code and variable of the controls, hovered and offered"""
    r = chk.rng; jobs = []; items = []; tabs = []
    for k, d in enumerate(drivers):
        t = tables(d); tabs.append(t); ts = []
        for a in 'GM':
            for key in t[a.lower()]: ts.append((r.choice([a, a, a.lower()]) + r.choice(['', '', '0', '00']) + key) + r.choice(['', ' ', ' X5', '.' if '.' not in key else '', 'X1']))
            for _ in range(20): ts.append(a + str(r.choice([r.randint(0, 999), '%d.%d' % (r.randint(0, 99), r.randint(0, 9))])))
        for key in t['macros']: ts.append('X#' + r.choice(['', '0']) + key + ' ')
        for _ in range(60): ts.append('#%d' % r.choice([r.randint(0, 9999), r.randint(10000, 13000), r.randint(100000, 119000)]))
        for x in t['ranges']: ts += ['#%d' % v for v in (x['a'] - 1, x['b'], x['b'] + 1) if v >= 0]
        c = Config(driver=d)
        items.append((c, [docs.line_of(None, None)[1] for _ in ts], ts, [[r.randint(0, 2)] for _ in ts], k + 1))
    res, _ = ask(chk, items, tabs)
    for (c, ls, ts, at, k), e in zip(items, res):
        # the lines stand in comments so that they are no blocks; the specification reads them as blank
        jobs.append((server.args(run.settings_file(c)), '\n'.join('(' + t + ')' for t in ts), [(y, ps[0] + 1, (dict(ws[0], **({'from': ws[0]['from'] + 1, 'to': ws[0]['to'] + 1} if ws[0]['k'] != 'none' else {})))) for y, (ps, ws) in enumerate(zip(at, e))], tabs[k - 1], dict(settings=c.settings())))
    judge(chk, jobs, 'S06 catalog')
    if chk.violations: return
    # what is offered
    cj = [(b''.join(map(server.frame, ([server.opened(URIS[0], 'G0')] if k % 2 else []) + [server.completion(URIS[0], 'c')])), server.args(run.settings_file(Config(driver=d)))) for k, d in enumerate(drivers)]
    rj = []; plan = []
    for k, (d, t, (ms, bad)) in enumerate(zip(drivers, tabs, server.many(cj))):
        rep = dict(driver=d); c = [m for m in ms if m.get('id') == 'c']
        if bad or len(c) != 1: chk.violation('S06 completion: %s' % (bad or 'no answer'), rep); continue
        labels = [x['label'] for x in c[0]['result']]
        if len(labels) != len(set(labels)): chk.violation('S06 completion: offered twice: %s' % sorted({x for x in labels if labels.count(x) > 1})[:9], rep); continue
        nz = lambda x: x[0] + (x[1:].lstrip('0') if x[1:].lstrip('0')[:1].isdigit() else '0' + x[1:].lstrip('0')) if x[0] in 'GM' else x
        want = {'G' + x for x in t['g']} | {'M' + x for x in t['m']} | ({'#' + x for x in t['macros']} if k % 2 else set())
        got = {nz(x) for x in labels if x[0] in 'GM' or k % 2}
        if want != got: chk.violation('S06 completion: not offered: %s; offered, but not of the control: %s' % (sorted(want - got)[:9], sorted(got - want)[:9]), rep); continue
        chk.extra['offered'] = chk.extra.get('offered', 0) + len(labels)
        plan.append((d, t, labels)); rj.append((b''.join(map(server.frame, [server.opened(URIS[0], 'G0')] + [server.cresolve(l, i) for i, l in enumerate(labels)])), server.args(run.settings_file(Config(driver=d)))))
    for (d, t, labels), (ms, bad) in zip(plan, server.many(rj)):
        by = {m['id']: m.get('result') for m in ms if 'id' in m}
        if bad or len(by) != len(labels): chk.violation('S06 resolve: %s' % (bad or 'not every item is answered'), dict(driver=d)); continue
        for i, l in enumerate(labels):
            key = l[1:] if l[0] == '#' else nz(l)[1:]; ti, de = t['macros' if l[0] == '#' else l[0].lower()][key]
            g = by[i] or {}
            if g.get('label') != l or (g.get('detail') or '') != ti or (g.get('documentation') or '') != de: chk.violation('S06 resolve: %s is described by %s instead of %r' % (l, str(g)[:200], ti), dict(driver=d, label=l, got=g)); break
    chk.traces(len(plan))

def S06(chk):
    full = chk.full(); r = chk.rng
    catalog(chk, DRIVERS if full else r.sample(DRIVERS, 4))
    if chk.violations: return
    tour(chk, full)
    if chk.violations: return
    for _ in range(10 if full else 1):
        documents(chk, 300)
        if chk.violations: return
