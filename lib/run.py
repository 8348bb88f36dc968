"""Runs TLC, the harness and the comparison; writes evidence and reports violations."""
import json, os, re, subprocess, sys, tempfile, time, shutil, random
from concurrent.futures import ThreadPoolExecutor
import build, nc
VERIF = nc.VERIF
JARS = '/opt/veriftools/tla/tla2tools.jar'
WORK = None

def work():
    global WORK
    if WORK is None:
        base = os.path.join(VERIF, '.build', 'work'); os.makedirs(base, exist_ok=True)
        WORK = tempfile.mkdtemp(prefix='w', dir=base)
        import atexit; atexit.register(lambda: shutil.rmtree(WORK, ignore_errors=True))
    return WORK

def tlc(module, cfg=None, env=None, workers=8, timeout=840, extra=(), heap='6g'):
    """-> dict(ok, states, distinct, out)"""
    d = tempfile.mkdtemp(prefix='tlc', dir=work())
    e = dict(os.environ); e.update(env or {})
    cfg = cfg or os.path.join(VERIF, 'spec', module + '.cfg')
    cmd = ['java', '-XX:+UseParallelGC', '-Xss64m', '-Xmx' + heap, '-DTLA-Library=' + VERIF + '/spec', '-cp',
           JARS + ':' + CM, 'tlc2.TLC', '-workers', str(workers), '-metadir', d, '-config', cfg] + list(extra) + \
          [os.path.join(VERIF, 'spec', module + '.tla')]
    t = time.time()
    r = subprocess.run(cmd, capture_output=True, text=True, env=e, timeout=timeout, cwd=d)
    o = r.stdout
    shutil.rmtree(d, ignore_errors=True)
    m = re.findall(r'(\d+) states generated(?: \([^)]*\))?, (\d+) distinct states found', o)
    s = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    dep = re.search(r'depth of the complete state graph search is (\d+)', o)
    return dict(ok=r.returncode == 0, rc=r.returncode, states=s[0], distinct=s[1], out=o + r.stderr[-2000:],
                depth=int(dep.group(1)) if dep else None, wall=time.time() - t)

CM = ':'.join(sorted(os.path.join(r, f) for r, ds, fs in os.walk('/opt/veriftools/tla') for f in fs
                     if f.endswith('.jar') and 'ommunity' in f))

# ------------------------------------------------------------------ programs
def expect(programs, workers=8):
    """programs: [(Config, [blocks])] -> ([[show per block]], tlc statistics)"""
    d = tempfile.mkdtemp(prefix='s', dir=work())
    keys = {}; configs = []; scripts = []
    for c, b in programs:
        k = c.key()
        if k not in keys:
            keys[k] = len(configs) + 1; configs.append(c.spec())
        scripts.append(dict(c=keys[k], b=[[nc.slim(w) for w in blk] for blk in b]))
    json.dump(dict(configs=configs, scripts=scripts), open(d + '/in.json', 'w'))
    os.makedirs(d + '/out')
    r = tlc('NCScript', env=dict(NC_IN=d + '/in.json', NC_OUT=d + '/out'), workers=workers)
    if not r['ok']:
        ns, ks = re.findall(r'/\\ n = (\d+)', r['out']), re.findall(r'/\\ k = (\d+)', r['out'])
        at = ''
        if ns and ks:
            c, b = programs[int(ns[-1]) - 1]; at = json.dumps(dict(c=c.p, lines=[nc.block_text(x) for x in b[:int(ks[-1])]]))
        raise RuntimeError(tlc_error(r)[:300] + '\nprogram: ' + at)
    res = []
    for i, (c, b) in enumerate(programs):
        res.append(json.load(open('%s/out/%d.json' % (d, i + 1))) if b else [])
    shutil.rmtree(d)
    return res, r

def tlc_error(r):
    i = r['out'].find('Error:')
    return 'TLC: ' + r['out'][max(0, i - 300):i + 3000]

def esc(s): return s.replace('\\', '\\\\').replace('\t', '\\t').replace('\n', '\\n').replace('\r', '\\r').replace('\0', '\\0')
def unesc(s):
    return re.sub(r'\\(.)', lambda m: {'t': '\t', 'n': '\n', 'r': '\r', '0': '\0', '\\': '\\'}[m.group(1)], s)

class Crash(Exception): pass

def settings_file(cfg, cache={}):
    k = cfg.key()
    if k not in cache:
        p = '%s/set%d.json' % (work(), len(cache)); json.dump(cfg.settings(), open(p, 'w')); cache[k] = p
    return cache[k]

HARNESS = 'vh'          # or 'vl', through the flat interface
ENV = dict(os.environ, MALLOC_PERTURB_='165', ASAN_OPTIONS='detect_leaks=0')      # memory never written to shows
def vh(groups, procs=8, timeout=None):
    """groups: lists of command lines, each run without a break in one process -> answers per group"""
    b = build.build(); n = len(groups)
    order = list(range(n)); size = [len(g) for g in groups]
    buckets = [[] for _ in range(min(procs, max(1, n)))]
    for i in order: buckets[i % len(buckets)].append(i)
    def one(bk):
        cmds = [c for i in bk for c in groups[i]]
        try:
            r = subprocess.run([b[HARNESS], VERIF_CONF()], input=('\n'.join(cmds) + '\n').encode('utf-8', 'surrogateescape'),
                               capture_output=True, timeout=timeout or (500 if Check.full_run else 150), env=ENV)
            o, rc = r.stdout, r.returncode
        except subprocess.TimeoutExpired as e: o, rc = e.stdout or b'', -1     # it hangs: the answers end there
        lines = o.decode('utf-8', 'surrogateescape').split('\n')[:-1]
        out = {}; p = 0
        for i in bk:
            out[i] = lines[p:p + size[i]]; p += size[i]
        return out, rc, len(lines) < len(cmds)
    res = {}; 
    with ThreadPoolExecutor(len(buckets)) as ex:
        for out, rc, short in ex.map(one, buckets):
            res.update(out)
    return [res.get(i, []) for i in range(n)]

def VERIF_CONF(): return build.REPO + '/conf'

def parse_obs(line):
    f = line.split('\t')
    if len(f) < 13: return dict(crash=line)
    rng = {}
    for x in f[11].split(';'):
        if '=' in x:
            a, v = x.split('='); rng[a] = float(v)
    return dict(ok=f[0] == '1', msg=unesc(f[1]), ptotal=float(f[2]), pwork=float(f[3]), pfast=float(f[4]), ptool=float(f[5]),
                tool=f[6], ttotal=float(f[7]), twork=float(f[8]), tfast=float(f[9]), ttool=float(f[10]), pos=rng, units=f[12])

def parse_vars(line):
    r = {}
    for x in line.split(';'):
        m = re.match(r'(\d+)@(-?\d+)=(.*)', x)
        if m:
            i, l = int(m.group(1)), int(m.group(2))
            if i not in r or r[i][0] < l: r[i] = (l, float(m.group(3)))
    return {i: v for i, (l, v) in r.items()}

def observe(programs, texts, want_vars=False):
    """texts: [[line text]] of the programs -> [[obs]]"""
    groups = []
    for (c, b), t in zip(programs, texts):
        g = ['new\t' + settings_file(c) + ('' if c.p['calc'] else '\t0')]
        for i, l in enumerate(t):
            g.append('parse\t%d\t%s' % (i + 1, esc(l)))
            if want_vars: g.append('vars')
        groups.append(g)
    res = []
    for (c, b), t, a in zip(programs, texts, vh(groups)):
        obs = []; p = 1
        for i in range(len(t)):
            o = parse_obs(a[p]) if p < len(a) else dict(crash='the parser stopped')
            p += 1
            if want_vars:
                o['vars'] = parse_vars(a[p]) if p < len(a) else {}
                p += 1
            obs.append(o)
            if 'crash' in o: break
        res.append(obs)
    return res

# ------------------------------------------------------------------ verdicts
class Check:
    full_run = False
    def __init__(self, prop, level='model_checking'):
        self.prop = prop; self.level = level; self.t0 = time.time()
        self.tier = os.environ.get('VERIF_TIER', 'quick'); self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        a = sys.argv[1:]
        if '--tier' in a: self.tier = a[a.index('--tier') + 1]
        Check.full_run = self.tier == 'thorough'
        if '--seed' in a: self.seed = int(a[a.index('--seed') + 1])
        self.rng = random.Random('%s/%d' % (prop, self.seed))
        self.violations = []; self.known_seen = []
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[])
        self.extra = {}; self.assumptions = []
        self.known = []
        p = VERIF + '/known_findings.json'
        if os.path.exists(p):
            self.known = [k for k in json.load(open(p))['findings'] if k['property'] == prop]
    def full(self): return self.tier == 'thorough'
    def tlc(self, r):
        if not r['ok']: raise RuntimeError(tlc_error(r))
        self.cov['states'] += r['distinct']; self.cov['transitions'] += r['states']
    def traces(self, n): self.cov['traces_validated_against_impl'] += n
    def sample(self, s):
        if len(self.cov['samples']) < 5: self.cov['samples'].append(s)
    def violation(self, what, replay):
        if len(self.violations) < 20: self.violations.append((what, replay))
        else: self.violations.append((what, None))
    def finding(self, fid, ok, what):
        """a known finding: its input still fails (ok False) as recorded"""
        k = [x for x in self.known if x['id'] == fid]
        if ok: return
        if k: self.known_seen.append(k[0]['what'])
        else: self.violation(what, dict(finding=fid, what=what))
    def finish(self):
        os.makedirs(VERIF + '/evidence', exist_ok=True)
        n = len(self.violations)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.level, coverage=dict(self.cov, **self.extra),
                  wall_s=round(time.time() - self.t0, 1), violations=n, assumptions=self.assumptions)
        json.dump(ev, open('%s/evidence/%s.json' % (VERIF, self.prop), 'w'), indent=1)
        for k in self.known_seen: print('KNOWN-FINDING: property=%s %s' % (self.prop, k))
        if n:
            rp = '%s/evidence/%s.replay.json' % (VERIF, self.prop)
            json.dump([dict(what=w, replay=r) for w, r in self.violations if r is not None], open(rp, 'w'), indent=1, default=str)
            for w, r in self.violations[:3]: print('  ' + str(w)[:600])
            print('VIOLATION property=%s replay=%s' % (self.prop, rp))
            sys.exit(1)
        print('%s: held (%s, %d states, %d traces, %.1f s)' % (self.prop, self.tier, self.cov['states'],
              self.cov['traces_validated_against_impl'], time.time() - self.t0))
        sys.exit(0)
