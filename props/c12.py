"""C12: speed, lane and teleport actions drive the vehicles along the prescribed course, whatever the step sizes."""
import hashlib
import math
from vsim import gen
from vsim.gen import r2
from vsim.core import Prop, Run, V
from vsim.trace import Trace

L, LANES, W = 4000.0, 3, 3.5
SHAPES = ['linear', 'sinusoidal', 'cubic', 'step']
SMALL = 1e-6
DOM = {'speed': {1}, 'profile': {1}, 'longdist': {1}, 'lanechange': {2}, 'laneoffset': {2}, 'teleport': {1, 2}}   # longitudinal, lateral


def domain(a):
    if a['k'] == 'traj':
        return {1, 2} if a['timing'] else {2}
    return DOM[a['k']]


def center(lane):
    return math.copysign((abs(lane) - .5) * W, lane)


def gen_action(rng, k, name, names, me):
    a = dict(name=name)
    w = rng.choice(['speed'] * 5 + ['lane'] * 4 + ['offset'] * 3 + ['teleport'] + ['dist'] + ['profile'] * 2)
    others = [n for n in names if n != me]
    if w == 'speed':
        shape = rng.choice(SHAPES)
        dim = rng.choice(['time', 'time', 'rate', 'distance'])
        val = {'time': rng.choice([0.0, 1.0, r2(rng, .1, 5)]), 'rate': r2(rng, .5, 12), 'distance': r2(rng, 1, 60)}[dim] if shape != 'step' else 0.0
        a.update(k='speed', v=rng.choice([0.0, r2(rng, 0, 30), r2(rng, 0, 30), r2(rng, -8, 0)]), dyn=[shape, dim, val])
        if others and rng.random() < .25:
            a.update(rel=rng.choice(others), vt=rng.choice(['delta', 'factor']), cont=rng.random() < .5)
            a['v'] = r2(rng, -6, 6) if a['vt'] == 'delta' else r2(rng, .2, 1.5)
    elif w == 'lane':
        shape = rng.choice(SHAPES)
        dim = rng.choice(['time', 'time', 'rate', 'distance'])
        val = {'time': rng.choice([0.0, 2.0, r2(rng, .3, 6)]), 'rate': r2(rng, .5, 4), 'distance': r2(rng, 3, 80)}[dim] if shape != 'step' else 0.0
        a.update(k='lanechange', dyn=[shape, dim, val])
        if rng.random() < .3:
            a.update(rel=rng.choice(names), v=rng.choice([1, -1, 0, 2, -2]))
        else:
            a['side'] = True
            a['v'] = rng.randint(1, 3)
        if rng.random() < .3:
            a['off'] = r2(rng, -1, 1)
    elif w == 'offset':
        a.update(k='laneoffset', v=r2(rng, -1.4, 1.4), acc=rng.choice([.5, r2(rng, .1, 5)]), shape=rng.choice(SHAPES))
        if others and rng.random() < .3:
            a.update(rel=rng.choice(others), v=r2(rng, -2.5, 2.5))
    elif w == 'teleport':
        a.update(k='teleport', pos=['lane', 1, 0, r2(rng, 1000, 3000), rng.choice([0.0, r2(rng, -1, 1)])])
    elif w == 'profile':
        e = []
        v = r2(rng, 0, 25)
        for j in range(rng.randint(1, 5)):
            e.append([v, rng.choice([1.0, r2(rng, .2, 3), r2(rng, .2, 3), None]) if j or rng.random() < .85 else 0.0])
            v = round(max(0.0, rng.choice([v + 2.0 * (e[-1][1] or 1), v + r2(rng, -8, 8)])), 2)
        if len(e) > 1 and e[-1][0] == e[-2][0]:
            e[-1][0] += 1
        a.update(k='profile', entries=e, mode='position', dc=[r2(rng, 2, 8), 100.0, r2(rng, 2, 8), 100.0, 60.0])
        if e[0][1] == 0.0 and len(e) == 1:
            e[0][1] = 1.0
        if others and e[0][1] != 0.0 and rng.random() < .2:
            a['rel'] = rng.choice(others)
    elif w == 'dist':
        if not others:
            return gen_action(rng, k, name, names, me)
        a.update(k='longdist', rel=rng.choice(others), cont=rng.random() < .5, fs=False)
        if rng.random() < .5:
            a['d'] = r2(rng, 5, 60)
        else:
            a['tg'] = r2(rng, .5, 4)
        a['disp'] = rng.choice([None, 'any', 'any', 'trailingReferencedEntity', 'leadingReferencedEntity'])
        a['dc'] = [r2(rng, 1, 6), r2(rng, 1, 8), r2(rng, 20, 60)]
    return a


def make(rng, gen_action=gen_action):
    objs = []
    n = rng.choice([1, 1, 2, 2, 3])
    for i in range(n):
        side = -1 if rng.random() < .75 else 1
        lane = side * rng.randint(1, 3)
        o = dict(name=f'O{i}', kind='vehicle', side=side, perf=rng.choice([[70.0, 10.0, 10.0], [70.0, 100.0, 100.0], [r2(rng, 15, 60), r2(rng, 2, 12), r2(rng, 2, 12)], [r2(rng, 3, 12), r2(rng, 2, 12), r2(rng, 2, 12)]]),
                 init=[dict(k='teleport', pos=['lane', 1, lane, r2(rng, 1500, 2500), rng.choice([0.0, 0.0, r2(rng, -1, 1)])]), dict(k='speed', v=rng.choice([0.0, 10.0, r2(rng, 0, 20)]), dyn=['step', 'time', 0.0])])
        objs.append(o)
    names = [o['name'] for o in objs]
    groups, vs = [], []
    k = 0
    for o in objs:
        for _ in range(rng.randint(1, 4)):
            a = gen_action(rng, k, f'a{k}', names, o['name'])
            if a.pop('side', False):
                a['v'] *= o['side']
            if a['k'] == 'teleport':
                a['pos'][2] = o['side'] * rng.randint(1, 3)
            ev = dict(name=f'E{k}', prio='parallel', max=1, start=[[dict(k='time', v=r2(rng, 0, 6), rule='greaterThan', name=f'c{k}')]], actions=[a])
            if rng.random() < .3:      # executed again and again, whenever the host raises a variable
                ev.update(max=4, start=[[dict(k='var', p=f'v{k}', v=1.0, rule='equalTo', edge='rising', name=f'c{k}')]])
                vs.append([f'v{k}', 'double', '0'])
            groups.append(dict(name=f'G{k}', actors=[o['name']], mans=[dict(name=f'M{k}', events=[ev])]))
            k += 1
    rng.shuffle(groups)
    return dict(road=dict(kind='flat', length=L, lanes=LANES, width=W), objects=objs, vars=vs,
                stories=[dict(name='S', acts=[dict(name='A', start=[[dict(k='time', v=-1.0, rule='greaterThan', name='ca')]], groups=groups)])])


def calls(rng, vs=()):
    style = rng.choice(['fix', 'fix', 'mix', 'wild'])
    base = rng.choice([.1, .05, .02, .25])
    out = []
    t = 0.0
    while t < 12 and len(out) < 250:
        dt = base if style == 'fix' else rng.choice([base, .01, .2]) if style == 'mix' else rng.choice([.001, .01, .1, .5, r2(rng, .01, .6)])
        out.append(f'step {dt}')
        t += dt
        if vs and rng.random() < .12:
            out.append(f'svar d {rng.choice(vs)[0]} {rng.choice([0.0, 1.0])}')
    return out


# ------------------------------------------------------------------ reference
def sgn(x):
    return -1 if x < 0 else 1


class Curve:
    """course of a value from start to target over a parameter (time or distance) range"""
    def __init__(self, dyn):
        self.shape, self.dim, self.val = dyn
        self.p, self.scale = 0.0, 1.0

    def set(self, a, b):
        self.a, self.b = a, b
        if self.dim == 'rate' and self.val > SMALL:
            k = {'linear': 1.0, 'sinusoidal': math.pi / 2, 'cubic': 1.5, 'step': 0.0}[self.shape]
            self.end = max(k * abs(b - a) / self.val, SMALL)
        else:
            self.end = self.val

    def instant(self):
        return self.shape == 'step' or (self.dim != 'rate' and self.end < SMALL)

    def peak(self):
        if self.instant():
            return 1e10
        if self.dim == 'rate':
            return self.val
        return {'linear': 1.0, 'sinusoidal': math.pi / 2, 'cubic': 1.5}[self.shape] * abs(self.b - self.a) / self.end

    def limit(self, r):
        self.scale = self.peak() / r if self.peak() > r else 1.0

    def at(self, shape=None):
        if self.instant():
            return self.b
        f = self.p / self.end
        f = {'linear': f, 'sinusoidal': (1 - math.cos(math.pi * f)) / 2, 'cubic': f * f * (3 - 2 * f)}[shape or self.shape]
        return self.a + (self.b - self.a) * f

    def slope(self):
        """derivative at the current parameter"""
        if self.instant():
            return 1e10 * sgn(self.b - self.a)
        f = self.p / self.end
        return (self.b - self.a) / self.end * {'linear': 1.0, 'sinusoidal': math.pi / 2 * math.sin(math.pi * f), 'cubic': 6 * f * (1 - f)}[self.shape]

    def step(self, d):
        self.p = min(max(self.p + d / self.scale, 0.0), self.end)

    def done(self):
        return self.p > self.end - SMALL


class Veh:
    def __init__(self, o, s):
        self.perf = o['perf']
        self.s, self.t, self.v, self.h = s.s, s.tt, s.speed, s.h
        self.lane = s.lane
        self.long = self.lat = None
        self.moved = False
        self.lost = False

    def dir(self):
        return 1 if math.cos(self.h) > 0 else -1

    def off(self):
        return self.t - center(self.lane)

    def cap(self, v):
        return max(-self.perf[0], min(self.perf[0], v))

    def snap(self):
        """lane from position"""
        f = abs(self.t) / W
        if abs(f - round(f)) < 1e-7 and round(f) < LANES:
            self.lost = True      # exactly between two lanes
        side = -1 if self.t < 0 else 1
        self.lane = side * min(LANES, int(abs(self.t) / W) + 1)


class Act:
    def __init__(self, a, veh, world):
        self.a, self.veh, self.w = a, veh, world
        self.over = False
        self.dom = domain(a)
        if 'rel' in a and world[int(a['rel'][1:])].lost:
            veh.lost = True
        getattr(self, 'start_' + a['k'])()

    def step(self, dt):
        if 'rel' in self.a and self.w[int(self.a['rel'][1:])].lost:
            self.veh.lost = True
        getattr(self, 'step_' + self.a['k'])(dt)

    # -- speed
    def target(self):
        a = self.a
        if 'rel' not in a:
            return a['v']
        r = self.w[int(a['rel'][1:])].v
        return r + a['v'] if a['vt'] == 'delta' else r * a['v']

    def start_speed(self):
        o, c = self.veh, Curve(self.a['dyn'])
        self.c = c
        v0, v1 = o.v, self.target()
        if c.dim == 'distance':
            d = c.val
            if abs(v1 - v0) < SMALL:
                c.val = 0.0
            elif abs(v0) > SMALL and abs(v1) > SMALL and sgn(v0) != sgn(v1):
                d0 = d * v0 * v0 / (v0 * v0 + v1 * v1)
                c.val = 2 * d0 / abs(v0) + 2 * (d - d0) / abs(v1)
            else:
                c.val = 2 * d / abs(v0 + v1)
        c.set(v0, o.cap(v1))
        c.limit(o.perf[1] if c.b > c.a else o.perf[2])
        o.v = c.at()

    def step_speed(self, dt):
        o, c = self.veh, self.c
        if 'rel' in self.a:
            c.set(c.a, o.cap(self.target()))
        if c.end > 0 and c.done():
            v = o.cap(o.v + max(-o.perf[2], min(o.perf[1], (self.target() - o.v) / dt)) * dt)
        else:
            c.step(dt)
            v = c.at()
            need = (v - o.v) / dt
            if need > o.perf[1] + SMALL or need < -o.perf[2] - SMALL:
                v = o.cap(o.v + max(-o.perf[2], min(o.perf[1], need)) * dt)
                c.step(-(dt - (v - o.v) / need))
        if c.done() and abs(v - c.b) < SMALL:
            v = o.cap(self.target())
            self.over = not ('rel' in self.a and self.a['cont'])
        o.v = v

    # -- speed profile, position mode
    def start_profile(self):
        o, a = self.veh, self.a
        add = self.w[int(a['rel'][1:])].v if 'rel' in a else 0.0
        self.pts = [(0.0, o.v)]
        for j, (v, dt) in enumerate(a['entries']):
            v += add
            dv = v - self.pts[-1][1]
            if j == 0 and dt == 0.0:
                self.pts = [(0.0, v - add)]
                continue
            lim = min(a['dc'][0], o.perf[1]) if dv > 0 else min(a['dc'][2], o.perf[2])
            if v > o.perf[0]:
                o.lost = True      # beyond the vehicle's own speed limit: not judged
            if dt is None or abs(dv / dt) > lim:
                if abs(dv) < SMALL:
                    continue
                dt = abs(dv) / lim
            self.pts.append((self.pts[-1][0] + dt, v))
        self.el = 0.0

    def step_profile(self, dt):
        o, p = self.veh, self.pts
        self.el += dt
        if self.el > p[-1][0] - SMALL or len(p) == 2 and abs(p[1][1] - p[0][1]) < SMALL:   # nothing to change: over at once
            o.v = p[-1][1]
            self.over = True
            return
        i = 0
        while self.el > p[i + 1][0] - SMALL:
            i += 1
        o.v = p[i][1] + (p[i + 1][1] - p[i][1]) * (self.el - p[i][0]) / (p[i + 1][0] - p[i][0])

    # -- lane change
    def start_lanechange(self):
        o, a = self.veh, self.a
        if 'rel' in a:
            r = self.w[int(a['rel'][1:])]
            lane = r.lane + a['v'] * r.dir()
            if lane == 0 or sgn(lane) != sgn(r.lane):
                lane = sgn(lane - r.lane) * (abs(lane) + 1)
        else:
            lane = a['v']
        if abs(lane) > LANES or lane == 0:
            o.lost = True
            lane = max(-LANES, min(LANES, lane)) or -1
        self.lane = lane
        o.h = 0.0 if o.dir() > 0 else math.pi
        self.c = Curve(a['dyn'])
        self.t = o.t
        sg = sgn(lane)
        self.c.set(sg * (o.t - center(lane)), sg * a.get('off', 0.0))

    def step_lanechange(self, dt):
        o, c = self.veh, self.c
        o.moved = True
        if abs(o.v) < SMALL:
            o.lost = True      # sideways motion of a standing vehicle is turned into speed: not judged
            return
        sg = sgn(self.lane)
        rate = c.slope()
        length = abs(o.v) * dt
        if c.dim in ('time', 'rate'):
            lat = dt * abs(rate)
            lon = math.sqrt(max(0.0, length ** 2 - min(lat, length) ** 2))
            if lat < length + SMALL:
                c.step(dt)
                off = c.at()
                head = math.atan2(sgn(o.v) * sgn(rate) * lat, lon)
            elif c.instant():
                c.step(length * c.end / max(abs(c.b - c.a), 1e-12))
                off, head = c.at(), None
            else:
                c.step(length * c.end / abs(c.b - c.a))
                off = c.at('linear')
                head = sgn(o.v) * sgn(rate) * (math.pi / 2 - SMALL)
        else:
            lon = math.sqrt(length ** 2 / (1 + rate * rate))
            c.step(lon)
            off = c.at()
            head = math.atan(rate)
        if c.instant():
            lon = length
        o.t = center(self.lane) + sg * off
        o.s += o.dir() * sgn(o.v) * lon
        fwd = o.dir()
        if c.done() or abs(off - c.b) < SMALL or (c.p > 0 and sgn(off - c.b) != sgn(c.a - c.b)):
            self.over = True
            o.h = 0.0 if fwd > 0 else math.pi
        elif head is not None:
            o.h = (0.0 if fwd > 0 else math.pi) + fwd * sg * head
        o.snap()

    # -- lane offset
    def start_laneoffset(self):
        o, a = self.veh, self.a
        self.lane = o.lane
        sg = sgn(o.lane)
        v = a['v']
        if 'rel' in a:
            r = self.w[int(a['rel'][1:])]
            v = r.t + v * r.dir() - center(o.lane)
            if abs(center(o.lane) + v) > LANES * W - .1:
                o.lost = True
        x = abs(v - o.off())
        k = {'linear': lambda: math.sqrt(6 * x / a['acc']), 'cubic': lambda: math.sqrt(6 * x / a['acc']), 'sinusoidal': lambda: math.pi * math.sqrt(x / (2 * a['acc'])), 'step': lambda: 0.0}[a['shape']]()
        self.c = Curve([a['shape'], 'time', k])
        self.c.set(sg * o.off(), sg * v)

    def step_laneoffset(self, dt):
        o, c = self.veh, self.c
        if abs(o.v) < SMALL:
            o.lost = True
            return
        sg = sgn(o.lane)
        off = c.at()
        fwd = o.dir()
        if c.done() or abs(off - c.b) < SMALL or (c.p > 0 and sgn(off - c.b) != sgn(c.a - c.b)):
            self.over = True
            o.t = center(o.lane) + sg * c.b
            o.h = 0.0 if fwd > 0 else math.pi
        else:
            o.t = center(o.lane) + sg * off
            o.h = (0.0 if fwd > 0 else math.pi) + fwd * sg * math.atan(c.slope() / o.v)
        c.step(dt)

    # -- teleport
    def start_teleport(self):
        o, p = self.veh, self.a['pos']
        o.lane, o.s = p[2], p[3]
        o.t = center(p[2]) + p[4]
        o.h = 0.0 if p[2] < 0 else math.pi
        o.moved = True

    def step_teleport(self, dt):
        self.over = True

    # -- distance
    def gap(self):
        """longitudinal distance to the other vehicle, along this vehicle's heading"""
        o, q = self.veh, self.w[int(self.a['rel'][1:])]
        return (q.s - o.s) * math.cos(o.h) + (q.t - o.t) * math.sin(o.h)

    def start_longdist(self):
        self.acc = 0.0
        self.sign = {'any': -1 if self.gap() < 0 else 1, 'leadingReferencedEntity': -1}.get(self.a['disp'], 1)

    def step_longdist(self, dt):
        o, q, a = self.veh, self.w[int(self.a['rel'][1:])], self.a
        if abs(math.sin(o.h)) > .5:
            o.lost = True      # the gap along a heading that follows the speed feeds back: rounding grows
        amax, dmax, vmax = min(a['dc'][0], o.perf[1]), min(a['dc'][1], o.perf[2]), min(a['dc'][2], o.perf[0])
        diff = self.gap() - self.sign * (a['d'] if 'd' in a else abs(q.v) * a['tg'])
        if not a['cont'] and abs(diff) < .1:
            self.over = True
        k = .4 * (amax if diff < 0 else dmax)
        acc = max(-dmax, min(amax, diff * k - (o.v - q.v) * 2 * math.sqrt(k)))
        o.v = max(-vmax, min(vmax, o.v + acc * dt))


class P(Prop):
    ID = 'C12'
    ACT = Act
    VARIANTS = ('plain',)
    QUICK = 3000
    RULE = 'distinct: courses (road position and speed of all vehicles over all steps) of runs in which at least one action completed after running for more than one step'

    def gen(self, rng, tier, i):
        m = make(rng)
        return dict(model=m, calls=calls(rng, m['vars']), _shrink=['calls', 'groups'])

    def runs(self, case):
        return [Run('\n'.join(gen.files(case['model']) + ['seed 7', 'snapmode b', 'args esmini --osc s.xosc --headless --disable_stdout', 'cb'] + case['calls'] + ['close']) + '\n')]

    def judge(self, case, res):
        r = res[0]
        if r.ended() != 'ok':
            return [V('ended', r.ended())]
        tr = Trace(r.text)
        if not tr.frames:
            return [V('load', 'scenario not loaded')]
        m = case['model']
        f0 = tr.frames[0]
        w = [Veh(o, f0.objs[i]) for i, o in enumerate(m['objects'])]
        order = [(g['mans'][0]['events'][0]['actions'][0], int(g['actors'][0][1:])) for g in m['stories'][0]['acts'][0]['groups']]
        acts = {}
        started, ended, last = [], set(), f0
        out = []
        for s in tr.seq:
            if s[0] == 'E' and s[1] == 7:
                if s[2] == 2:
                    started.append(s[3])
                elif s[2] == 3:
                    ended.add(s[3])
            elif s[0] == 'F' and s[1] is not f0:
                f = s[1]
                dt = f.t - last.t
                if dt > 0:
                    mine = set()
                    for o in w:
                        o.moved = False
                    byname = {a['name']: (a, vi) for a, vi in order}
                    for n in started:
                        a, vi = byname[n]
                        for x in list(acts):
                            if acts[x].veh is w[vi] and acts[x].dom & domain(a):
                                mine.add(x)
                                del acts[x]
                        acts[n] = self.ACT(a, w[vi], w)
                    for a, vi in order:
                        n = a['name']
                        if n in acts:
                            acts[n].now = last.t
                            acts[n].step(dt)
                            if acts[n].over:
                                mine.add(n)
                                del acts[n]
                    for o in w:
                        if not o.moved and abs(o.v) > SMALL:
                            o.s += o.dir() * o.v * dt
                    for i, o in enumerate(w):
                        q = f.objs[i]
                        if o.lost or not 20 < q.s < L - 20:
                            o.lost = True
                        if o.lost:
                            continue
                        bad = [f'{n}={b:.6f} (expected {a:.6f})' for n, a, b in (('s', o.s, q.s), ('t', o.t, q.tt), ('speed', o.v, q.speed)) if abs(a - b) > 1e-5]
                        if abs(math.remainder(o.h - q.h, 2 * math.pi)) > 1e-4:
                            bad.append(f'h={q.h:.5f} (expected {o.h:.5f})')
                        if bad:
                            out.append(V('motion', f'object {i} at {f.t:.4f}: ' + ' '.join(bad) + f' running {[(n, a.a["k"], a.a.get("dyn")) for n, a in acts.items()]}'))
                            return out
                    if mine != ended and not any(o.lost for o in w):
                        return [V('end', f'at {f.t:.4f}: ended {sorted(ended)}, expected {sorted(mine)}')]
                last = f
                started, ended = [], set()
        return out

    def stats(self, case, res):
        st = super().stats(case, res)
        tags = set(st.get('tags', []))
        if res[0].ended() == 'ok':
            tr = Trace(res[0].text)
            acts = {a['name']: a for g in case['model']['stories'][0]['acts'][0]['groups'] for a in g['mans'][0]['events'][0]['actions']}
            start, n = {}, 0
            st.update(sig=None, simtime=tr.frames[-1].t if tr.frames else 0)
            for s in tr.seq:
                if s[0] == 'F':
                    n += 1
                if s[0] == 'E' and s[1] == 7 and s[3] in acts:
                    a = acts[s[3]]
                    if s[2] == 2:
                        start[s[3]] = n
                        d = a.get('dyn')
                        tags.add(a['k'] + (f':{d[0]}:{d[1]}' if d else ''))
                    elif s[3] in start and n - start[s[3]] > 1:
                        st['sig'] = hashlib.md5(repr([(o.s, o.tt, o.speed) for f in tr.frames for o in f.objs.values()]).encode()).hexdigest()
        st['tags'] = sorted(tags)
        return st


PROP = P
