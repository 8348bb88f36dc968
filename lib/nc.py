"""Words, blocks, machine configurations and the numeric meaning of the specification's terms."""
import json, math, os, random
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCALE = 10000
NONE = -2000000000
DRIVERS = sorted(f[:-5] for f in os.listdir(VERIF + '/spec/data') if f.endswith('.json'))
_tables = {}

def table(driver):
    if driver not in _tables:
        _tables[driver] = json.load(open('%s/spec/data/%s.json' % (VERIF, driver)))
    return _tables[driver]

# ---------------------------------------------------------------- words
def _w(a, k, **kw):
    d = dict(a=a, k=k, neg=False, ip=0, dot=False, fd=0, fr=0, ds='', id=0)
    d.update(kw)
    return d

def num(a, v, dot=None, neg=None, lead=0, trail=0, noint=False):
    """the number v (scaled) at the address a; lead, trail zeros of the spelling; dot: force or forbid a bare dot"""
    n = v < 0 if neg is None else neg
    m = abs(v)
    ip, f = divmod(m, SCALE)
    fs = ('%04d' % f).rstrip('0') + '0' * trail
    ds = '0' * lead + str(ip)
    if noint and ip == 0 and fs:
        return _w(a, 'num', neg=n, ip=-1, dot=True, fd=len(fs), fr=int(fs), ds='', fs=fs)
    d = bool(fs) or bool(dot)
    return _w(a, 'num', neg=n, ip=ip, dot=d, fd=len(fs), fr=int(fs) if fs else 0, ds=ds, fs=fs)

def code(a, c, lead=0):
    """a code as text, e.g. '54.1' or 2"""
    c = str(c)
    i, _, f = c.partition('.')
    return _w(a, 'num', ip=int(i), dot=bool(f), fd=len(f), fr=int(f) if f else 0, ds='0' * lead + i, fs=f)

def raw(a, i, f=None, neg=False, dot=False):
    """a number spelled exactly: integer digits i (or None), digits f after the dot (or None)"""
    return _w(a, 'num', neg=neg, ip=-1 if i is None else int(i), dot=dot or f is not None, fd=len(f or ''),
              fr=int(f) if f else 0, ds=i or '', fs=f or '')

def var(a, n, neg=False): return _w(a, 'var', id=n, neg=neg)
def none(a): return _w(a, 'none')
ODD = ['#', '-', '+', '-#', '##1', '+-1', '--1', '-+1', '#-1', '#+1', '1#2', '1.#2', '1.2.3', '-.', '+.', '.#1', '#.', '[#]', '#1#2', '-#-1', '=1', '.-1']
def odd(a, tail): return _w(a, 'odd', ds=tail)
def define(n, ops): return _w('#', 'def', id=n, ops=ops)
def string(a, text): return _w(a, 'str', ds=text)

def word_text(w, rng=None):
    if w['k'] == 'str': return ('(' + w['ds'] + ')') if w['a'] == '(' else w['a'] + w['ds']
    sep = ''
    a = w['a']
    if w['k'] == 'none': return a + ('=' if a in ASSIGN else '')
    if w['k'] == 'odd': return a + ('=' if a in ASSIGN else '') + w['ds']
    if w['k'] == 'def': return '#%d' % w['id'] + ''.join(word_text(o) for o in w['ops'])
    if a in ASSIGN: a += '='
    if rng and rng.random() < SP[0] and a != '#': a += rng.choice([' ', '\t', '  '])
    s = '-' if w['neg'] else ('+' if rng and rng.random() < .1 and w['a'] not in GNONEG else '')
    if w['k'] == 'var': return a + ('-' if w['neg'] else '') + '#%d' % w['id']
    t = w['ds']
    if w['dot']: t += '.' + w.get('fs', '')
    return a + s + t
SP = [.04]         # how often a space stands between an address and its number
ASSIGN = {'A2', 'B2', 'C2', 'S1', 'S2', 'S3'}
GNONEG = set('GMTSNOFPLDHQ/#=+-*:') | {'=', '+', '-'}

def block_text(b, rng=None, spaces=.3):
    out = ''
    for i, w in enumerate(b):
        if i and (rng is None or rng.random() < spaces): out += ' '
        elif i and w['k'] == 'num' and w['a'].isdigit(): out += ' '
        out += word_text(w, rng)
    return out

def val(w):
    m = (0 if w['ip'] < 0 else w['ip']) * SCALE + (int((w.get('fs', '') + '0000')[:4]) if w['fd'] else 0)
    return -m if w['neg'] else m

def slim(w):
    d = {k: v for k, v in w.items() if k != 'fs'}
    if 'ops' in d: d['ops'] = [slim(o) for o in d['ops']]
    return d

# ---------------------------------------------------------------- configurations
MTYPE = lambda d: 'millturn' if 'millturn' in d else 'lathe' if 'lathe' in d else 'mill'
DEFAULT = dict(driver='fanuc_mill', tool='mill_3axis', mtype='mill',
               axes={'X': (-5000000, 5000000), 'Y': (-5000000, 5000000), 'Z': (0, 10000000)},
               zero={'X': 0, 'Y': 0, 'Z': 0}, maxf=20000, maxff=20000, maxs=10000, maxt=30,
               tex=6, tpal=1, tmeas=3, diam2x=False, automeas=False, palc=None, measc=None,
               texp={'X': 0, 'Y': 0, 'Z': 5000000},
               base={'X': 0, 'Y': 0, 'Z': 5000000, 'I': 0, 'J': 0, 'K': 0},
               motion=0, plane=17, units='mm', prog=90, fmode=94, zval=False, ret=98, rot=1000,
               c0=False, c1=False, c2=False, c3=False, g80rapid=False, operator=False, tnum=False, autorapid=False, calc=True)

class Config:
    bare = False         # a parser without any settings
    def __init__(self, **kw):
        self.p = dict(DEFAULT); self.p.update(kw)
        if 'driver' in kw and 'mtype' not in kw: self.p['mtype'] = MTYPE(kw['driver'])
        if 'tool' not in kw: self.p['tool'] = {'mill': 'mill_3axis', 'lathe': 'lathe_zxcy', 'millturn': 'mill-turn_XYZBC'}[self.p['mtype']]
    def key(self): return json.dumps(self.p, sort_keys=True)
    def settings(self):
        p = self.p; f = lambda v: v / SCALE
        pt = lambda m: {k: f(v) for k, v in m.items()}
        cc = lambda c: ('', '') if not c else (c[0], c[1])
        return dict(machine_tool=p['tool'], machine_tool_type=p['mtype'], driver=p['driver'],
            machine_points_data=dict(tool_exchange_point=pt(p['texp']), machine_base_point=pt(p['base'])),
            kinematics=dict(cartesian_system_axis={k: dict(range_min=f(a), range_max=f(b)) for k, (a, b) in p['axes'].items()},
                max_working_feed=p['maxf'], max_fast_feed=p['maxff'], maximum_spindle_speed=p['maxs'],
                numer_of_items_in_the_warehouse=p['maxt'], tool_exchange_time=p['tex'], pallet_exchange_time=p['tpal'],
                tool_measurement_time=p['tmeas'], diameter_programming_2x=p['diam2x'],
                auto_measure_after_tool_selection=p['automeas'],
                pallet_exchange_code=cc(p['palc'])[0], pallet_exchange_code_value=cc(p['palc'])[1],
                tool_measurement_code=cc(p['measc'])[0], tool_measurement_code_value=cc(p['measc'])[1]),
            cnc_default_values=dict(default_motion=['rapid_traverse', 'linear_interpolation'][p['motion']],
                default_work_plane={17: 'XY', 18: 'XZ', 19: 'YZ'}[p['plane']],
                default_driver_units={'mm': 'millimeter', 'in': 'inch'}[p['units']],
                default_programming={90: 'absolute', 91: 'incremental'}[p['prog']],
                default_feed_mode={94: 'feed_per_minute', 95: 'feed_per_revolution'}[p['fmode']],
                default_rotation_direction='right', drill_cycle_z_value='incremental' if p['zval'] else 'absolute',
                drill_cycle_return_value={98: 'beginning', 99: 'point_r'}[p['ret']], default_rotation=p['rot'],
                rapid_traverse_cancel_cycle=p['c0'], linear_interpolation_cancel_cycle=p['c1'],
                circular_interpolation_cw_cancel_cycle=p['c2'], circular_interpolation_ccw_cancel_cycle=p['c3'],
                cycle_cancel_starts_rapid_traverse=p['g80rapid'], operator_turns_on_rotation=p['operator'],
                tool_number_executes_exchange=p['tnum'], auto_rapid_traverse_after_tool_exchange=p['autorapid']),
            zero_point={k: f(v) for k, v in p['zero'].items()})
    def spec(self):
        p = self.p; calc = p['calc']; t = table(p['driver'])
        g = {u: {w: {k: v[k] for k in ('rf', 'rt', 'df', 'dt', 'uq')} for w, v in t[u].items()} for u in ('metric', 'imperial')}
        # the operations of a definition are judged like numbers; their names are no JSON trouble
        return dict(gram=g, gg=t['gg'], mg=t['mg'], haas=p['driver'].startswith('haas'), mtype=p['mtype'],
            noY=p['tool'] in ('lathe_zx', 'lathe_zxc'), calc=calc, sw=dict(dict(macro=True, groups=True, anal=True, zero=True), **p.get('sw', {})),
            axes={k: list(v) for k, v in p['axes'].items()}, zero=p['zero'], maxf=p['maxf'], maxff=p['maxff'],
            maxs=p['maxs'], maxt=p['maxt'], tex=p['tex'] * SCALE, tpal=p['tpal'] * SCALE, tmeas=p['tmeas'] * SCALE,
            diam2x=p['diam2x'], automeas=p['automeas'], palc=list(p['palc'] or []), measc=list(p['measc'] or []),
            texp=p['texp'], base=p['base'],
            **{'def': dict(motion=p['motion'], plane=p['plane'], units=p['units'], prog=p['prog'], fmode=p['fmode'],
                css=97, zval=p['zval'], ret=p['ret'], rot=p['rot'] * SCALE, c0=p['c0'], c1=p['c1'], c2=p['c2'],
                c3=p['c3'], g80rapid=p['g80rapid'], operator=p['operator'], tnum=p['tnum'], autorapid=p['autorapid'])})

# ---------------------------------------------------------------- terms
def part(q):
    op, a = q['op'], q['a']
    f = [x / SCALE for x in a]
    if op == 'num': return f[0]
    if op == 'peck': return a[0] * f[1] / 5
    if op == 'pecks': return (a[0] * a[0] + a[0]) * f[1]
    if op == 'line':
        return math.sqrt((f[0] / (2 if a[3] else 1)) ** 2 + f[1] ** 2 + f[2] ** 2)
    if op == 'arcc':
        x0, y0, x1, y1, i, j = f[:6]; d, h = a[6], a[7]
        if h: x0, x1, i = x0 / 2, x1 / 2, i / 2
        r = math.hypot(i, j)
        if r == 0: return 0.
        if abs(x0 - x1) < 1e-8 and abs(y0 - y1) < 1e-8: return 2 * math.pi * r
        cx, cy = x0 + i, y0 + j
        s = math.atan2(y0 - cy, x0 - cx); e = math.atan2(y1 - cy, x1 - cx)
        ang = (e - s) if d else (s - e)
        ang %= 2 * math.pi
        return ang * r
    if op == 'arcr':
        x0, y0, x1, y1, r = f[:5]
        if a[5]: x0, x1 = x0 / 2, x1 / 2
        if r == 0: return 0.
        c = math.hypot(x1 - x0, y1 - y0)
        if abs(x0 - x1) < 1e-8 and abs(y0 - y1) < 1e-8: return 2 * math.pi * abs(r)
        ang = 2 * math.asin(min(1., c / 2 / abs(r)))
        if r < 0: ang = 2 * math.pi - ang
        return ang * abs(r)
    if op == 'helc': return 2 * math.pi * math.sqrt(f[0] ** 2 + f[1] ** 2 + f[2] ** 2) / a[3]
    if op == 'helr': return 2 * math.pi * math.hypot(f[0], f[1]) / a[2]
    if op in ('spiq', 'spil'):
        R = math.hypot(f[0], f[1])
        if f[2] == 0: return R      # no turns
        L = R / f[2] if op == 'spiq' else f[2]
        t = L * 2 * math.pi; b = R / t
        return b / 2 * (t * math.sqrt(1 + t * t) + math.asinh(t))
    if op == 'back': return math.hypot(f[0], f[1])
    raise ValueError(op)

def length(term): return sum(part(q) for q in term)

def work_time(w, rate):
    """seconds for the cutting path w"""
    if w == 0 or rate['k'] == 'none': return 0.
    f, s = rate['f'] / SCALE, rate['s'] / SCALE
    if rate['k'] == 'min': return 60 * w / f
    if rate['k'] == 'rev': return 60 * w / (f * s)
    rpm = s * (12 if rate['k'] == 'cssin' else 1000) / (math.pi * w)
    return 60 * w / (f * rpm)

def close(a, b, tol=1e-6): return abs(a - b) <= tol * max(1., abs(a), abs(b))
