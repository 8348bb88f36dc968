"""Random NC programs. Each profile is a set of weights; the program is a list of blocks of words (see nc.py)."""
import random, math, collections
import nc
from nc import num, code, none, var, define, string, raw, SCALE

AX = {17: ('X', 'Y', 'Z'), 18: ('X', 'Z', 'Y'), 19: ('Y', 'Z', 'X')}
CE = {17: ('I', 'J', 'K'), 18: ('I', 'K', 'J'), 19: ('J', 'K', 'I')}
UNIT = [(1, 0, 1), (0, 1, 1), (3, 4, 5), (4, 3, 5), (5, 12, 13), (12, 5, 13)]
LIM = 900000                        # positions stay within +-90

class Gen:
    def __init__(self, rng, cfg, weights, dec=None, start=True, spell=True):
        self.r = rng; self.cfg = cfg; self.p = cfg.p; self.w = weights; self.start = start; self.spell = spell
        self.dec = dec
        z = self.p['zero']; pt = lambda m: {k: v - z.get(k, 0) for k, v in m.items()}
        self.base, self.tex = pt(self.p['base']), pt(self.p['texp'])
        self.pos = collections.defaultdict(int, self.base); self.prog = self.p['prog']; self.plane = self.p['plane']
        self.g = self.p['motion']; self.blocks = []; self.has_f = False; self.tools = [str(rng.randint(1, 9)) for _ in range(3)]
        self.cyc = {}
        self.n = 0
    # ---- helpers
    def len(self, lo=-LIM, hi=LIM):
        if self.dec is None and self.r.random() < .05 and lo <= 0 <= hi: return min(hi, max(lo, self.r.choice([1, -1, 5, -7, 10, 99, -250])))
        d = self.dec if self.dec is not None else self.r.choice([0, 0, 1, 2, 3, 4])
        u = 10 ** (4 - d)
        return self.r.randint(lo // u, hi // u) * u
    def num(self, a, v, **kw):
        if self.spell:
            if 'dot' not in kw and self.r.random() < .4: kw['dot'] = True
            if self.r.random() < .1: kw['lead'] = self.r.randint(1, 2)
            if self.r.random() < .1 and v % SCALE and v % 10 == 0 and a not in 'DHPQ': kw['trail'] = 1
        w = num(a, v, **kw)
        if w['fd'] > 4: w = num(a, v)
        return w
    def G(self, c): return code('G', c, lead=1 if self.spell and str(c).isdigit() and int(c) < 10 and self.r.random() < .3 else 0)
    def M(self, c): return code('M', c, lead=1 if self.spell and int(c) < 10 and self.r.random() < .3 else 0)
    def half(self): return (self.p['mtype'] == 'lathe' or (self.p['mtype'] == 'millturn' and self.plane == 18)) and not self.p['diam2x']
    def feed(self): return self.num('F', self.r.choice([100, 250, 333, 1200, 50]) * SCALE + self.r.choice([0, 0, 5000]))
    def speed(self): return code('S', self.r.choice([100, 500, 1234, 3000]))
    def put(self, ws, shuffle=True, fixed=()):
        ws = list(ws)
        if shuffle: self.r.shuffle(ws)
        ws = list(fixed) + ws
        if not ws: return
        if shuffle and self.r.random() < self.w.get('extra', .06):       # codes that stand beside anything
            k = self.r.choice(['palc', 'measc', None])
            if k and self.p[k] and self.p[k][0] == 'M': ws.insert(self.r.randint(0, len(ws)), code(*self.p[k]))
            else: ws.insert(self.r.randint(0, len(ws)), self.M(self.r.choice([8, 9, 0, 1])))
        if self.w.get('number', .1) > self.r.random(): ws.insert(0, code('N', self.r.randint(1, 999)))
        if self.w.get('comment', .05) > self.r.random(): ws.append(string('(', self.r.choice(['', 'abc', 'G1 X5', 'T5 M6', 'f=2'])))
        self.blocks.append(ws)
    def modal_extra(self):
        ws = []
        if self.r.random() < self.w.get('fword', .25): ws.append(self.feed()); self.has_f = True
        if self.r.random() < self.w.get('sword', .05) and not self.p['operator']: ws.append(self.speed())
        return ws
    def set(self, ws, g=None, always=False):
        """the motion code, left out if it is in force"""
        if g is None: return
        if always or self.g != g or self.r.random() < .4: ws.append(self.G(g))
        self.g = g
    def mode(self, ws):
        if self.r.random() < self.w.get('mode', .1):
            self.prog = self.r.choice([90, 91]); ws.append(self.G(self.prog))
    def coord(self, a, to):
        """the word that brings axis a to the position to"""
        v = to - self.pos.get(a, 0) if self.prog == 91 and a in 'XYZABC' else to
        return self.num(a, v)
    # ---- features
    def line(self):
        ws = []; self.mode(ws)
        g = self.r.choice([0, 1, 1]); self.set(ws, g)
        if g == 1 and not self.has_f and self.r.random() < .95: ws.append(self.feed()); self.has_f = True
        axes = [a for a in self.p['axes'] if self.r.random() < .55]
        for a in axes:
            lo, hi = self.p['axes'][a]; z = self.p['zero'].get(a, 0); lo -= z; hi -= z
            lo, hi = max(lo, -LIM), min(hi, LIM) if hi > -LIM else hi
            if self.r.random() < self.w.get('outside', .02): to = self.r.choice([self.p['axes'][a][1] - z + self.len(1, 50000), self.p['axes'][a][0] - z - self.len(1, 50000),
                                                                              self.p['axes'][a][1] - z if self.prog == 90 else 0, self.p['axes'][a][0] - z if self.prog == 90 else 0])
            else: to = self.len(lo, hi) if lo < hi else lo
            ws.append(self.coord(a, to)); self.pos[a] = to
        ws += self.modal_extra()
        self.put(ws)
    def arc(self):
        ws = []; self.mode(ws)
        if self.r.random() < self.w.get('plane', .15):
            self.plane = self.r.choice([17, 18, 19]); ws.append(self.G(self.plane))
        g = self.r.choice([2, 3]); self.set(ws, g)
        if not self.has_f: ws.append(self.feed()); self.has_f = True
        a1, a2, a3 = AX[self.plane]; c1, c2, c3 = CE[self.plane]
        s = self.r.choice([1000, 100, 137, 2000, 10]) ; R = 65 * s
        def unit():
            a, b, c = self.r.choice(UNIT)
            return (self.r.choice([-1, 1]) * a * R // c, self.r.choice([-1, 1]) * b * R // c)
        u, v = unit(), unit()
        if self.r.random() < .12: v = (-u[0], -u[1])
        if self.r.random() < .1: v = (u[0], u[1])
        h = 2 if self.half() and a1 == 'X' else 1
        x1 = self.pos[a1] + h * (-u[0] + v[0]); y1 = self.pos[a2] - u[1] + v[1]
        if a1 == 'X' or x1 != self.pos[a1] or self.r.random() < .5:
            if x1 != self.pos[a1] or self.r.random() < .5: ws.append(self.coord(a1, x1))
        if y1 != self.pos[a2] or self.r.random() < .5: ws.append(self.coord(a2, y1))
        i, j = -u[0] * h, -u[1]
        same = u == v
        if same or self.r.random() < .6:
            ws.append(self.num(c1, i)); ws.append(self.num(c2, j)); self.pos[c1] = i; self.pos[c2] = j
        else:
            rr = R if self.r.random() < .7 else -R
            ws.append(self.num('R', rr)); self.pos['R'] = rr
        self.pos[a1], self.pos[a2] = x1, y1
        ws += self.modal_extra()
        self.put(ws)
    def modal_arc(self):
        """an arc with the centre of the previous one"""
        a1, a2, a3 = AX[self.plane]; c1, c2, c3 = CE[self.plane]
        i, j = self.pos.get(c1, 0), self.pos.get(c2, 0)
        h = 2 if self.half() and a1 == 'X' else 1
        di, dj = i // h, j
        if not di and not dj: return self.arc()
        ws = []; g = self.r.choice([2, 3]); self.set(ws, g)
        if not self.has_f: ws.append(self.feed()); self.has_f = True
        # end points by quarter turns of the radius keep whole numbers
        rot = self.r.choice([(di, dj), (-di, -dj), (-dj, di), (dj, -di)])
        x1 = self.pos[a1] + h * (di + rot[0]); y1 = self.pos[a2] + dj + rot[1]
        ws += [self.coord(a1, x1), self.coord(a2, y1)]
        self.pos[a1], self.pos[a2] = x1, y1
        self.put(ws)
    def helix(self):
        a1, a2, a3 = AX[self.plane]; c1, c2, c3 = CE[self.plane]
        if self.half(): return self.arc()
        g = self.r.choice([2, 3]); R = self.r.choice([10, 5, 25]) * 10000
        byr = self.r.random() < .4; full = self.r.random() < .5
        # leave any helix before
        self.put([self.G(1)] + ([] if self.has_f else [self.feed()]), shuffle=False); self.has_f = True; self.g = 1
        u = self.r.choice([(R, 0), (-R, 0), (0, R), (0, -R)])
        for n in range(self.r.randint(1, 5)):
            ws = []; last = n and self.r.random() < .2
            if n == 0: ws.append(self.G(g)); self.g = g
            elif self.r.random() < .4: ws.append(self.G(g))
            dz = self.len(-30000, 30000) or 10000
            v = u if full and not last else (-u[1], u[0])
            if full and last: v = (-u[0], -u[1])
            x1 = self.pos[a1] - u[0] + v[0]; y1 = self.pos[a2] - u[1] + v[1]; z1 = self.pos[a3] + dz
            if not full or n == 0 or last or self.r.random() < .5:
                ws += [self.coord(a1, x1), self.coord(a2, y1)]
            ws.append(self.coord(a3, z1))
            if n == 0 or not full or self.r.random() < .3:
                if byr: ws.append(self.num('R', R)); self.pos['R'] = R
                else:
                    for c, q in ((c1, -u[0]), (c2, -u[1]), (c3, self.r.choice([0, dz]))):
                        ws.append(self.num(c, q)); self.pos[c] = q
            self.pos[a1], self.pos[a2], self.pos[a3] = x1, y1, z1; u = v
            if n == 0 and self.r.random() < .1: pass
            self.put(ws)
            if last: break
    def spiral(self):
        c1, c2, c3 = CE[self.plane]; a1, a2, a3 = AX[self.plane]
        ws = [self.G(self.r.choice([2, 3]))]; self.g = ws[0]['ip']
        self.put([self.G(1)] + ([] if self.has_f else [self.feed()]), shuffle=False); self.has_f = True
        for c in (c1, c2):
            v = self.len(10000, 200000); ws.append(self.num(c, v)); self.pos[c] = v
        if self.r.random() < .5: ws.append(self.num('Q', self.r.choice([1, 2, 5]) * 5000))
        else: ws.append(code('L', self.r.randint(1, 5)))
        x1, y1 = self.len(-400000, 400000), self.len(-400000, 400000)
        ws += [self.coord(a1, x1), self.coord(a2, y1)]; self.pos[a1], self.pos[a2] = x1, y1
        self.put(ws)
    def drill(self):
        if self.prog == 91 and self.r.random() < .6: self.prog = 90; self.put([self.G(90)])
        a1, a2, a3 = AX[self.plane]
        g = self.r.choice([81, 82, 85, 86, 88, 89, 73, 74, 76, 83, 84, 87])
        ws = [self.G(g)]
        if not self.has_f: ws.append(self.feed()); self.has_f = True
        if self.r.random() < .4: ws.append(self.G(self.r.choice([98, 99])))
        self.g = g
        full = self.r.random()
        for n in range(self.r.randint(1, 4)):
            if n:
                ws = []
                if self.r.random() < .15: ws.append(self.G(self.r.choice([98, 99])))
                if self.r.random() < .1: g = self.r.choice([81, 73, 83, 74, 76]); self.g = g; ws.append(self.G(g))
                if self.r.random() < .1: self.prog = 181 - self.prog; ws.append(self.G(self.prog))
            first = n == 0
            if (first and full > .06) or self.r.random() < .15:
                if self.prog == 91: ws.append(self.num(a3, -self.len(10000, 300000)))
                else: ws.append(self.num(a3, self.pos[a3] - self.len(100000, 400000)))
            if (first and full > .1) or self.r.random() < .15:
                if self.prog == 91: ws.append(self.num('R', -self.len(0, 100000)))
                else: ws.append(self.num('R', self.pos[a3] - self.len(0, 90000)))
            if (first and full > .14 and (g in (73, 76, 83, 87) or self.r.random() < .1)) or self.r.random() < .1:
                ws.append(self.num('Q', self.r.choice([10000, 20000, 15000, 7500, 30000, 2500])))
            for a in (a1, a2):
                if self.r.random() < .7:
                    to = self.len(-400000, 400000)
                    ws.append(self.coord(a, to))
                    self.pos[a] = to
            x = self.r.random()
            if x < .12:
                kk = self.r.choice([0, 1, 2, 3]); ws.append(code('K', kk))
                if self.prog == 91 and kk > 1:
                    for w in ws:
                        if w['a'] in (a1, a2) and w['k'] == 'num': self.pos[w['a']] += nc.val(w) * (kk - 1)
            if self.p['tool'] in ('lathe_zx', 'lathe_zxc'): pass
            if any(w['a'] not in 'G' for w in ws) or first: self.put(ws)
            if self.r.random() < .1: self.put([self.feed()])
        x = self.r.random()
        if x < .7: self.put([self.G(80)]); self.g = 0 if self.p['g80rapid'] else 80
        elif x < .9: self.line()
    def modes(self):
        ws = []
        for grp, pr in (((17, 18, 19), .5), ((90, 91), .5), ((94, 95), .4), ((98, 99), .3)):
            if self.r.random() < pr * self.w.get('modeblock', 1):
                c = self.r.choice(grp); ws.append(self.G(c))
                if c in (17, 18, 19): self.plane = c
                if c in (90, 91): self.prog = c
        if ws: self.put(ws)
    def tool(self):
        t = code('T', self.r.choice(self.tools))
        if self.p['mtype'] == 'lathe': t = code('T', self.r.choice(['0101', '0202', '1212', '0303', '5']))
        x = self.r.random()
        if self.p['tnum']:
            self.put([t]); self.to_tex()
        elif x < .5: self.put([t, self.M(6)]); self.to_tex()
        elif x < .7: self.put([t])
        elif x < .85: self.put([self.M(6)]); self.to_tex()
        else:
            ws = [t]; self.mode(ws)
            if len(ws) > 1: self.prog = self.prog
            self.put(ws)
    def to_tex(self):
        self.g = 0
        for a, v in self.tex.items(): self.pos[a] = v
    def home(self):
        ws = [self.G(28)]
        for a in 'XYZ':
            if self.r.random() < .5: ws.append(self.num(a, 0))
        self.put(ws); self.g = 0
        for a, v in self.base.items(): self.pos[a] = v
    def dwell(self):
        ws = [self.G(4)]
        x = self.r.random()
        if x < .4: ws.append(self.num('X', self.len(0, 50000)))
        elif x < .8: ws.append(self.num('P', self.len(0, 50000) // 10 * 10, dot=True) if self.r.random() < .5 else code('P', self.r.choice([500, 1000, 1500, 20])))
        else: ws.append(self.num('U', self.len(0, 50000)))
        self.put(ws)
    def other(self):
        x = self.r.random()
        if x < .3: self.put([self.G(self.r.choice([54, 55, 40, 49, 21]))])
        elif x < .5: self.put([self.G(92)] + [self.num(a, self.len()) for a in 'XYZ' if self.r.random() < .6])
        elif x < .7: self.put([self.G(52)] + [self.num(a, self.len()) for a in 'XYZ' if self.r.random() < .6])
        elif x < .8: self.put([self.G(10)] + [self.num(a, self.len()) for a in 'XYZR' if self.r.random() < .6])
        else: self.put([self.M(self.r.choice([8, 9, 0, 1, 30, 5]))])
    def optional(self):
        """a block cut by an optional block mark"""
        ws = [none('/') if self.r.random() < .5 else code('/', self.r.randint(1, 9))]
        if self.r.random() < .5:
            self.set(ws, 1) if self.has_f else None
            a = self.r.choice('XYZ'); to = self.len(0, LIM); w = self.coord(a, to); self.pos[a] = to
            pre = [w]
        else: pre = []
        post = [self.num(self.r.choice('XY'), self.len())]
        gw = [w for w in ws if w['a'] == 'G']
        ws = gw + pre + [w for w in ws if w['a'] == '/'] + [w for w in post if w['a'] not in [q['a'] for q in pre]]
        self.put(ws, shuffle=False)
    def units(self):
        self.put([self.G(self.r.choice([20, 21]))])
    def feedblock(self):
        x = self.r.random()
        if x < .6: self.put([self.feed()]); self.has_f = True
        elif x < .75: self.put([code('F', 0)])
        else: self.put([self.G(self.r.choice([1, 0])), self.num(self.r.choice('XY'), self.len())])
    def toolodd(self):
        """two tools in one block, a tool with the motion of the block, an exchange without a tool"""
        x = self.r.random(); a = code('T', self.r.choice(self.tools)); b = code('T', self.r.choice(self.tools))
        if x < .4: self.put([a, b, self.M(6)]); self.to_tex()
        elif x < .6 and not self.p['tnum']: self.put([a, b])
        elif x < .8: self.put([a, self.M(6), self.G(0)]); self.to_tex()
        else: self.put([self.M(6)]); self.to_tex()
    def modehelix(self):
        self.prog = self.r.choice([90, 91]); self.put([self.G(self.prog)]); self.helix()
    def empty(self): self.put([string('(', 'x')])
    def codes(self):
        ws = []
        for a, v in ((self.p['palc']), (self.p['measc'])):
            pass
    def pallet(self):
        for k in ('palc', 'measc'):
            if self.p[k] and self.r.random() < .5: self.put([code(self.p[k][0], self.p[k][1])]); return
        self.dwell()
    def css(self):
        ws = [self.G(self.r.choice([96, 97]))]
        if self.r.random() < .7: ws.append(self.speed())
        self.put(ws)
    def reject(self):
        """a block that some rule rejects: it has no effect on the motion"""
        x = self.r.random()
        a = self.r.choice('XYZ'); w = self.num(a, self.len())
        if x < .25: self.put([self.G(1), self.G(0), w], shuffle=False)
        elif x < .5: self.put([self.G(0), w, self.num(a, self.len())])
        elif x < .75: self.put([w, none('Q')], shuffle=False)
        else: self.put([w, code('S', 99999)])
    def limits(self):
        """S, T and F around the limits of the machine"""
        a = self.r.choice('STF'); lim = self.p[dict(S='maxs', T='maxt', F='maxf')[a]]
        if a == 'S' and self.p['operator'] and self.r.random() < .7: a, lim = 'F', self.p['maxf']
        v = max(0 if a != 'S' else 1, lim + self.r.choice([-1, 0, 0, 1, 1, 2, -lim // 2, lim]))
        if a == 'T' and self.p['mtype'] == 'lathe' and self.r.random() < .7:
            ds = '%02d%02d' % (v % 100, self.r.randint(0, 99)); ws = [raw('T', ds)]
        elif a == 'T': ws = [raw('T', '0' * self.r.choice([0, 0, 1]) + str(min(v, 9999)))]
        elif a == 'F':
            ws = [self.num('F', v * SCALE + self.r.choice([0, 0, 0, 1, 5000, 9999, 10]))]
        else: ws = [raw('S', str(min(v, 99999)))]
        if a == 'T' and self.p['tnum']: self.to_tex(); self.put(ws)
        else:
            if a == 'F' and v > 0: self.has_f = True
            if a != 'T' and self.r.random() < .3 and not (a == 'S' and self.p['operator']): ws.append(self.M(self.r.choice([8, 9, 3, 5])))
            self.put(ws)
    def spindle(self):
        x = self.r.random()
        if x < .25: self.put([self.speed()])
        elif x < .45: self.put([self.M(self.r.choice([3, 4]))])
        elif x < .55: self.put([self.M(5)])
        elif x < .65: self.put([self.speed(), self.M(self.r.choice([3, 4]))])
        elif x < .75: self.put([self.G(1)]); self.g = 1
        elif x < .8: self.put([self.G(self.r.choice([81, 82, 84, 85, 89, 83, 87])), self.num('X', self.len())])
        elif x < .85: self.put([self.G(self.r.choice([73, 74, 76])), self.num('X', self.len())])
        elif x < .9: self.put([none('/'), self.speed()] if self.r.random() < .5 else [none('/'), self.M(3)], shuffle=False)
        elif x < .95: self.put([self.speed(), self.G(1), self.G(0)], shuffle=False)
        else: self.put([self.M(3), self.M(5)])
    def words(self):
        """words the system variables hold"""
        ws = []
        for a in self.r.sample('BDHFSMN', self.r.randint(1, 3)):
            if a == 'B': ws.append(self.num('B', self.len(0, 900000)))
            elif a in 'DH': ws.append(self.num(a, self.r.randint(-99, 99) * SCALE, **({} if self.r.random() < .7 else dict(dot=True))))
            elif a == 'F': ws.append(self.feed()); self.has_f = True
            elif a == 'S' and not self.p['operator']: ws.append(self.speed())
            elif a == 'M': ws.append(self.M(self.r.choice([0, 1, 8, 9, 5, 30, 97])))
            elif a == 'N': ws.insert(0, code('N', self.r.randint(1, 9999)))
        if ws and 'B' in self.p['axes'] and any(w['a'] == 'B' for w in ws):
            for w in ws:
                if w['a'] == 'B': self.pos['B'] = nc.val(w) if self.prog == 90 else self.pos.get('B', 0) + nc.val(w)
        if self.r.random() < .15: ws.append(none('/')); ws.append(code('H', self.r.randint(1, 9)))
        n = [w for w in ws if w['a'] == 'N']; self.put([w for w in ws if w['a'] != 'N'] if '/' not in [w['a'] for w in ws] else [], fixed=n) if '/' not in [w['a'] for w in ws] else self.blocks.append(ws)
    def read(self):
        """a system variable is read like any other"""
        i = self.r.choice([4102, 4107, 4109, 4111, 4113, 4114, 4119, 4120, 4320, 4509, 4313])
        if self.r.random() < .5: self.put([define(self.r.randint(500, 509), [var('=', i)])])
        else: self.put([var('D', i)])
    # ---- whole program
    def program(self, n):
        if self.start and not self.p['operator']:
            self.put([self.speed(), self.M(self.r.choice([3, 4]))])
        feats = [f for f in self.w if hasattr(self, f) and callable(getattr(self, f)) and f not in ('mode', 'set', 'num', 'put', 'plane')]
        ws = [self.w[f] for f in feats]
        while len(self.blocks) < n:
            getattr(self, self.r.choices(feats, ws)[0])()
        return self.blocks
