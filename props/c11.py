"""C11: conditions on entities are true in exactly those steps in which the entities' states fulfil them."""
import hashlib
import math
from vsim import gen
from vsim.gen import r2
from vsim.core import Prop, Run, V
from vsim.trace import Trace

RULES = ['greaterThan', 'lessThan', 'equalTo', 'greaterOrEqual', 'lessOrEqual', 'notEqualTo']
L, LANES, W = 600.0, 3, 3.5
BB = {'vehicle': [1.4, 0.0, 0.75, 2.0, 5.0, 1.5], 'pedestrian': [0.06, 0.0, 0.9, 0.5, 0.6, 1.8], 'miscellaneous': [0.5, 0.1, 0.5, 1.0, 3.0, 1.0]}
TYPES = list(BB)


def group(k, c):
    """an event that runs in exactly the steps in which the condition is true"""
    return dict(name=f'G{k}', actors=['O0'], mans=[dict(name=f'M{k}', events=[dict(name=f'E{k}', prio='parallel', max=100000, start=[[c]], actions=[dict(k='var', p='vi', op='set', v=k, name=f'a{k}')])])])


def make(rng):
    objs = []
    n = rng.randint(2, 4)
    for i in range(n):
        kind = rng.choice(['vehicle', 'vehicle', 'vehicle', 'pedestrian', 'miscellaneous'])
        bb = list(BB[kind])
        if rng.random() < .5:
            bb[0], bb[1], bb[3], bb[4] = r2(rng, -1, 2), r2(rng, -.5, .5), r2(rng, .4, 3), r2(rng, .5, 15)
        lane = rng.choice([-1, -2, -3, -1, -2, 1, 2])
        objs.append(dict(name=f'O{i}', kind=kind, bb=bb, init=[dict(k='teleport', pos=['lane', 1, lane, r2(rng, 5, 120) if lane < 0 else r2(rng, 50, 250), rng.choice([0.0, r2(rng, -1, 1)])]),
                                                              dict(k='speed', v=rng.choice([0.0, 10.0, r2(rng, 0, 30)]), dyn=['step', 'time', 0.0])]))
    if rng.random() < .2:
        at = rng.randrange(n)
        if objs[at]['kind'] == 'vehicle':
            objs.insert(at, dict(kind='vehicle', bb=[r2(rng, -.5, .5), 0.0, .75, r2(rng, 1, 3), r2(rng, 2, 8), 1.5], coupler=r2(rng, 2.5, 4.5), init=[]))
            objs[at + 1].update(hitch=-1.0, trailer=f'O{at}')
            for i, o in enumerate(objs):
                o['name'] = f'O{i}'
    names = [o['name'] for o in objs]
    conds = []
    kinds = rng.sample(KINDS, min(len(KINDS), rng.randint(1, 4)))
    for k in range(rng.randint(3, 8)):
        conds.append(cond(rng, f'c{k}', rng.choice(kinds), names))
    groups = [group(k, c) for k, c in enumerate(conds)]
    life = []
    if rng.random() < .2:
        e = rng.choice(names)
        life.append(dict(name='Edel', prio='parallel', max=1, start=[[dict(k='time', v=r2(rng, .3, 2), rule='greaterThan', name='cdel')]], actions=[dict(k='delete', e=e, name='adel')]))
        groups.insert(0, dict(name='Gl', actors=['O0'], mans=[dict(name='Ml', events=life)]))
    m = dict(road=dict(kind='flat', length=L, lanes=LANES, width=W), objects=objs, vars=[['vi', 'integer', '0']],
             stories=[dict(name='S', acts=[dict(name='A', start=[[dict(k='time', v=-1.0, rule='greaterThan', name='ca')]], groups=groups)])])
    return m, conds


KINDS = ['speed', 'speed', 'relspeed', 'acc', 'reach', 'dist', 'reldist', 'reldist', 'headway', 'ttc', 'travel', 'standstill', 'collision', 'offroad', 'endofroad', 'angle', 'clearance']


def cond(rng, name, k, names):
    c = dict(k=k, name=name, ents=rng.sample(names, rng.randint(1, min(3, len(names)))), any=rng.choice(['any', 'all']), rule=rng.choice(RULES))
    if k in ('speed', 'relspeed'):
        c['v'] = rng.choice([0.0, 10.0, 5.0, r2(rng, -5, 25)])
        c['dir'] = rng.choice([None, 'longitudinal', 'lateral', 'vertical'])
    if k == 'acc':
        c['v'] = rng.choice([0.0, r2(rng, -5, 5)])
        c['dir'] = rng.choice([None, 'longitudinal', 'lateral', 'vertical'])
    if k in ('relspeed', 'reldist', 'headway', 'ttc', 'collision'):
        c['rel'] = rng.choice(names)
        c['ents'] = [e for e in c['ents'] if e != c['rel']] or [e for e in names if e != c['rel']][:2]
    if k == 'collision' and rng.random() < .4:
        c['bytype'] = rng.choice(TYPES)
    if k in ('reach', 'dist'):
        c['pos'] = ['world', r2(rng, 10, 200), r2(rng, -9, 9), 0.0, 0.0]
        w = rng.random()
        if w < .2:
            c['pos'] = ['lane', 1, rng.choice([-3, -2, -1, 1, 2, 3]), r2(rng, 10, 200), rng.choice([0.0, r2(rng, -1, 1)])]
        elif w < .6:
            c['ref'] = rng.choice(names)
            c['pos'] = rng.choice([['relobj', c['ref'], r2(rng, -30, 30), r2(rng, -8, 8), 0.0], ['relworld', c['ref'], r2(rng, -30, 30), r2(rng, -8, 8), 0.0], ['relroad', c['ref'], r2(rng, -30, 30), r2(rng, -8, 8)]])
        c['tol'] = rng.choice([2.0, r2(rng, .5, 30)])
        if k == 'reach' and c['pos'][0] == 'lane' and rng.random() < .6:
            c['pos'] += [rng.choice([0.0, 0.0, math.pi, 6.27, -3.12, r2(rng, -3, 6)]), rng.choice(['absolute', 'relative'])]
            c['tol'] = rng.choice([5.0, r2(rng, 5, 60)])
    if k in ('dist', 'reldist', 'headway', 'ttc'):
        c['v'] = rng.choice([0.0, r2(rng, 0, 60)]) if k in ('dist', 'reldist') else r2(rng, 0, 8)
        c['fs'] = rng.random() < .5
        c['rdt'] = rng.choice(['longitudinal', 'lateral', 'euclidianDistance']) if k != 'headway' or rng.random() < .3 else 'longitudinal'
        c['cs'] = rng.choice(['entity', 'road'])
        if k in ('headway', 'ttc') and c['rdt'] == 'lateral':
            c['rdt'] = 'longitudinal'
        if k == 'ttc':
            c['cs'] = None
    if k == 'travel':
        c['v'] = r2(rng, 0, 60)
    if k in ('standstill', 'offroad', 'endofroad'):
        c['v'] = rng.choice([0.0, r2(rng, 0, 1), r2(rng, 0, 3)])
    if k == 'angle':
        c.update(v=rng.choice([0.0, r2(rng, -3.1, 3.1)]), tol=r2(rng, .05, 1), cs=rng.choice(['entity', 'road', 'lane', 'world']), at=rng.choice(['heading', 'heading', 'pitch', 'roll']))
    if k == 'clearance':
        c.update(fwd=r2(rng, 5, 80), back=r2(rng, 5, 80), opp=rng.random() < .5, lanes=rng.choice([[0, 0], [-1, 0], [0, 1], [-2, 2], [1, 2], [-1, -1]]), refs=[] if rng.random() < .5 else [rng.choice(names)], fs=False)
    return c


def calls(rng, m):
    ops = []
    n = len(m['objects'])
    dts = [rng.choice([0.05, 0.1, 0.02]), rng.choice([0.2, 0.01, 0.5])]
    rep = rng.sample(['speed', 'lane', 'xyh', 'pos', 'hold'], rng.randint(1, 4))
    still = {}
    for _ in range(rng.randint(10, 60)):
        for _ in range(rng.choice([0, 0, 1, 1, 2])):
            i = rng.randrange(n)
            k = rng.choice(rep)
            if k == 'speed':
                ops.append(f'rspeed {i} {rng.choice([0.0, 0.0, 5.0, 10.0, r2(rng, 0, 30), r2(rng, -10, 0)])}')
            elif k == 'lane':
                ops.append(f'rlatlane {i} {rng.choice([-1, -2, -3, 1])} {rng.choice([0.0, r2(rng, -1.5, 1.5)])}')
            elif k == 'xyh':
                ops.append(f'rxyh {i} {r2(rng, 5, 200)} {rng.choice([r2(rng, -10, 10), r2(rng, -20, 20)])} {rng.choice([0.0, 0.0, math.pi, r2(rng, 0, 6.2)])}')
            elif k == 'pos':
                ops.append(f'rpos {i} {r2(rng, 5, 200)} {r2(rng, -10, 10)} {rng.choice([0.0, r2(rng, 0, 2)])} {rng.choice([0.0, r2(rng, 0, 6.2)])} {rng.choice([0.0, r2(rng, -.5, .5)])} {rng.choice([0.0, r2(rng, -.5, .5)])}')
            elif k == 'hold':
                ops.append(f'rspeed {i} 0.0')
        ops += ['snap', f'step {rng.choice(dts) if rng.random() < .2 else dts[0]}']
        if rng.random() < .1:
            ops += ['snap', f'step {dts[0]}'] * rng.randint(3, 12)
    return ops


# ------------------------------------------------------------------ reference
def corners(o, bb):
    c, s = math.cos(o.h), math.sin(o.h)
    out = []
    for fx, fy in ((1, 1), (-1, 1), (-1, -1), (1, -1)):
        x, y = bb[0] + fx * bb[4] / 2, bb[1] + fy * bb[3] / 2
        out.append((o.x + c * x - s * y, o.y + s * x + c * y))
    return out


def gap(a, b, ax):
    """signed gap between the projections of two point sets on an axis: positive if b lies ahead, 0 if they overlap"""
    pa = [p[0] * ax[0] + p[1] * ax[1] for p in a]
    pb = [p[0] * ax[0] + p[1] * ax[1] for p in b]
    if min(pb) > max(pa):
        return min(pb) - max(pa)
    if max(pb) < min(pa):
        return max(pb) - min(pa)
    return 0.0


def pen(a, b, ax):
    pa = [p[0] * ax[0] + p[1] * ax[1] for p in a]
    pb = [p[0] * ax[0] + p[1] * ax[1] for p in b]
    return max(min(pb) - max(pa), min(pa) - max(pb))  # > 0: separated by that much


def axes(h):
    return [(math.cos(h), math.sin(h)), (-math.sin(h), math.cos(h))]


def separation(o, p, bo, bp):
    """> 0 separated, < 0 overlapping (largest separation over the four side normals)"""
    a, b = corners(o, bo), corners(p, bp)
    return max(pen(a, b, ax) for ax in axes(o.h) + axes(p.h))


def seg(p, a, b):
    dx, dy = b[0] - a[0], b[1] - a[1]
    t = max(0.0, min(1.0, ((p[0] - a[0]) * dx + (p[1] - a[1]) * dy) / (dx * dx + dy * dy)))
    return math.hypot(p[0] - a[0] - t * dx, p[1] - a[1] - t * dy)


def rectdist(a, b):
    return min([seg(p, b[k], b[(k + 1) % 4]) for p in a for k in range(4)] + [seg(p, a[k], a[(k + 1) % 4]) for p in b for k in range(4)])


def angdiff(a, b):
    d = (a - b) % (2 * math.pi)
    return min(d, 2 * math.pi - d)


EPS = 1e-6


def rule(a, v, r, tol=1e-5):
    """None: too close to call (the code has a tolerance of 1e-6)"""
    d = a - v
    if abs(d) < 1e-9:
        return r in ('equalTo', 'greaterOrEqual', 'lessOrEqual')
    if abs(d) < tol * max(1.0, abs(v)):
        return None
    return {'greaterThan': d > 0, 'lessThan': d < 0, 'equalTo': False, 'notEqualTo': True, 'greaterOrEqual': d > 0, 'lessOrEqual': d < 0}[r]


def thr(a, v, ge=True):
    """a > v, unless too close to call"""
    if abs(a - v) < 1e-5:
        return None
    return a > v


class Judge:
    def __init__(self, m, coldet):
        self.coldet = coldet
        self.last = None
        self.bb = [o['bb'] for o in m['objects']]
        self.kind = [o['kind'] for o in m['objects']]
        nm = {o['name']: i for i, o in enumerate(m['objects'])}
        self.train = {i: [i] for i in nm.values()}
        for i, o in enumerate(m['objects']):
            if 'trailer' in o:
                self.train[i] = self.train[nm[o['trailer']]] = [i, nm[o['trailer']]]
        self.since = {}   # (what, object) -> time since when
        self.unsure = set()

    def after(self, f, pre):
        """state at the end of a step: update the timers (speeds derived from reported positions count from the next step)"""
        last, self.last = self.last, f
        for i, o in f.objs.items():
            self.eor(i, o, pre, last, f.t)
            v = pre.objs[self.train[i][0]].speed if pre and self.train[i][0] in pre.objs else pre.objs[i].speed if pre else o.speed
            for what, on, sure in (('standstill', abs(v) < 1e-3, abs(abs(v) - 1e-3) > 1e-7 and (all(1 < f.objs[x].s < L - 1 for x in self.train[i] if x in f.objs) or len(self.train[i]) == 1 and (abs(v) < 1e-3) == (abs(o.speed) < 1e-3))), ('offroad', abs(o.tt) > LANES * W, abs(abs(o.tt) - LANES * W) > 1e-6)):
                k = (what, i)
                if not sure:
                    self.unsure.add(k)
                elif not on:
                    self.unsure.discard(k)
                    self.since.pop(k, None)
                elif k not in self.since:
                    self.since[k] = [f.t, f.t]
                elif self.since[k][1] < 1e-6:      # from the start: the clock starts at 0 or after the first step
                    self.since[k][1] = f.t

    def eor(self, i, o, pre, last, t):
        """end of road: since when the object has been stopped by the end of its road (False: it is not there, None: not decided)"""
        k = ('end', i)
        at = lambda q: q.s > L - 1e-6 or q.s < 1e-6
        if not at(o):
            self.since[k] = False if 1.0 < o.s < L - 1.0 else None
        elif pre is None or i not in last.objs or (pre.objs[i].x, pre.objs[i].y, pre.objs[i].h) != (last.objs[i].x, last.objs[i].y, last.objs[i].h):
            self.since[k] = None        # placed there by a report
        elif self.since.get(k) is False:
            self.since[k] = t

    def truth(self, c, f, dead):
        """value of the condition in a step starting from frame f: True, False, or None if it is not decided"""
        res = []
        if any(int(e[1:]) in dead for e in c['ents'] + ([c['ref']] if 'ref' in c else []) + ([c['rel']] if 'rel' in c else []) + c.get('refs', [])):
            return None
        if dead and ('bytype' in c or c['k'] == 'clearance'):
            return None
        rel = int(c['rel'][1:]) if 'rel' in c else None
        if rel is not None and rel not in f.objs and 'bytype' not in c:
            return False
        for e in c['ents']:
            i = int(e[1:])
            if i not in f.objs:
                continue
            res.append(self.one(c, f, i, rel))
        if not res:
            return False
        if c['any'] == 'any':
            return True if True in res else None if None in res else False
        return False if False in res else None if None in res else True

    def one(self, c, f, i, rel):
        k = c['k']
        o = f.objs[i]
        p = f.objs.get(rel) if rel is not None else None
        co, si = math.cos(o.h), math.sin(o.h)
        loc = lambda v: (co * v[0] + si * v[1], -si * v[0] + co * v[1], v[2])
        if k == 'speed':
            if c['dir'] is None:
                return rule(o.speed, c['v'], c['rule'])
            return rule(loc(o.k[0:3])['longitudinal lateral vertical'.split().index(c['dir'])], c['v'], c['rule'])
        if k == 'acc':
            if c['dir'] is None:
                return rule(math.copysign(math.hypot(o.k[3], o.k[4]), loc(o.k[3:6])[0]), c["v"], c["rule"])
            return rule(loc(o.k[3:6])['longitudinal lateral vertical'.split().index(c['dir'])], c['v'], c['rule'])
        if k == 'relspeed':
            if c['dir'] is None:
                return rule(o.speed - p.speed, c['v'], c['rule'])
            d = [o.k[j] - p.k[j] for j in range(3)]
            cp, sp = math.cos(p.h), math.sin(p.h)
            d = (cp * d[0] + sp * d[1], -sp * d[0] + cp * d[1], d[2])
            return rule(d['longitudinal lateral vertical'.split().index(c['dir'])], c['v'], c['rule'])
        if k == 'reach':
            q = self.point(c['pos'], f)
            if q is None:
                return None
            d = math.hypot(o.x - q[0], o.y - q[1])
            r = thr(d, c['tol'])
            if r is None or r or len(c['pos']) < 6:
                return None if r is None else not r
            h = c['pos'][5] + (math.pi if c['pos'][6] == 'relative' and c['pos'][2] > 0 else 0.0)
            r = [thr(x, .05) for x in (angdiff(o.h, h), angdiff(o.p, 0.0), angdiff(o.r, 0.0))]
            return False if True in r else None if None in r else True
        if k in ('dist', 'reldist', 'headway', 'ttc'):
            pt = self.point(c['pos'], f) if k == 'dist' else None
            if k == 'dist' and pt is None:
                return None
            if c['fs'] and (len(self.train[i]) > 1 or rel is not None and len(self.train[rel]) > 1):
                d = self.trains(c, f, i, rel, pt)
            else:
                d = self.dist(c, o, i, p, rel, pt)
            if d is None:
                return None
            if k in ('dist', 'reldist'):
                return rule(abs(d), c['v'], c['rule'])
            if k == 'headway':
                if abs(d) < 1e-5 or abs(o.speed) < 1e-5:
                    return None
                if d < 0 or o.speed < 0:
                    return False
                return rule(d / o.speed, c['v'], c['rule'])
            for q in (o, p):   # motion along the road, speed in line with it
                if abs(q.k[1]) > 1e-9 or abs(math.sin(q.h)) > 1e-9 or abs(q.k[0] * math.cos(q.h) - q.speed) > 1e-7:
                    return None
            if o.speed < 0 or abs(o.speed) < 1e-5:
                return None
            cl = co * (o.k[0] - p.k[0])
            if abs(cl) < 1e-5 or abs(d) < 1e-5:
                return False if (cl == 0.0 or d == 0.0) else None
            if d / cl < 0:
                return False
            return rule(d / cl, c['v'], c['rule'])
        if k == 'travel':
            r = thr(o.k[12], c['v'])
            return r
        if k in ('standstill', 'offroad'):
            if (k, i) in self.unsure:
                return None
            t0 = self.since.get((k, i))
            if t0 is None:
                return False
            a, b = thr(f.t - t0[0], c['v']), thr(f.t - t0[1], c['v'])
            return a if a == b else None
        if k == 'endofroad':
            t0 = self.since.get(('end', i))
            return t0 if t0 in (None, False) else True if f.t - t0 > c['v'] + 1e-5 else False if f.t - t0 < c['v'] - 1e-5 else None
        if k == 'angle':
            if c['at'] != 'heading':
                a = {'pitch': o.p, 'roll': o.r}[c['at']]
            else:
                a = o.h
            if c['cs'] == 'entity':
                a = 0.0
            elif c['cs'] == 'lane' and c['at'] == 'heading':
                if abs(o.tt) < .01:
                    return None
                a = o.h - (0.0 if o.lane < 0 else math.pi)
            r = thr(angdiff(a, c['v']), c['tol'])
            return None if r is None else not r
        if k == 'collision':
            if 'bytype' in c and self.coldet:   # result of the detection at the end of the previous step
                f = self.last
                o = f.objs[i]
            if 'bytype' in c:
                other = [j for j in f.objs if j != i and self.kind[j] == c['bytype']]
            else:
                other = [rel]
            out = []
            for j in other:
                q = f.objs[j]
                if abs(q.z - o.z) > 1.9:
                    out.append(None)
                    continue
                s = separation(o, q, self.bb[i], self.bb[j])
                out.append(None if abs(s) < 1e-5 else s < 0)
            return True if True in out else None if None in out else False
        if k == 'clearance':
            return self.clearance(c, f, i, o)
        raise ValueError(k)

    def point(self, pos, f):
        if pos[0] == 'world':
            return pos[1], pos[2]
        if pos[0] == 'lane':
            return pos[3], (abs(pos[2]) - .5) * W * (1 if pos[2] > 0 else -1) + pos[4]
        o = f.objs.get(int(pos[1][1:]))
        if o is None or not 35 < o.x < L - 35 or abs(o.y) > LANES * W:
            return None
        if pos[0] == 'relobj':
            if abs(o.p) > 1e-9 or abs(o.r) > 1e-9:
                return None
            c, s = math.cos(o.h), math.sin(o.h)
            return o.x + c * pos[2] - s * pos[3], o.y + s * pos[2] + c * pos[3]
        return o.x + pos[2], o.y + pos[3]

    def trains(self, c, f, i, rel, pt):
        """free space between vehicles with trailers: the shortest one"""
        pairs = [(a, b) for a in self.train[i] for b in (self.train[rel] if rel is not None else [None])]
        if any(a not in f.objs or b is not None and b not in f.objs or a == b for a, b in pairs):
            return None
        road = c['cs'] == 'road' and c['rdt'] != 'euclidianDistance'
        best = []
        for a, b in pairs:
            d = self.dist(c, f.objs[a], a, f.objs.get(b), b, pt)
            e = d if road else self.dist(dict(c, rdt='euclidianDistance'), f.objs[a], a, f.objs.get(b), b, pt)
            if d is None or e is None:
                return None
            best.append((abs(e), d))
        best.sort(key=lambda x: x[0])
        if abs(best[0][1]) != abs(best[1][1]) and best[1][0] - best[0][0] < 1e-5:
            return None
        if best[0][1] * best[1][1] < 0 and best[1][0] - best[0][0] < 1e-5:
            return None
        return best[0][1]

    def quirk(self, c, f):
        """position within the extent of the object, nearest and farthest corner on the same side: known finding"""
        if c['k'] != 'dist' or not c['fs'] or c['cs'] != 'road' or c['rdt'] == 'euclidianDistance':
            return False
        pt = self.point(c['pos'], f)
        ax = 1 if c['rdt'] == 'lateral' else 0
        for e in c['ents']:
            for i in self.train[int(e[1:])]:
                if i in f.objs:
                    d = sorted((pt[ax] - q[ax] for q in corners(f.objs[i], self.bb[i])), key=abs)
                    if min(d) < 0 < max(d) and d[0] * d[-1] > 0:
                        return True
        return False

    def dist(self, c, o, i, p, rel, pt):
        """signed distance: positive if the target is ahead"""
        ax = axes(o.h) if c['cs'] != 'road' or c['rdt'] == 'euclidianDistance' else axes(0.0)
        idx = 1 if c['rdt'] == 'lateral' else 0
        if c['k'] == 'dist':
            b = [pt]
        else:
            b = [(p.x, p.y)]
        if c['cs'] == 'road' and c['rdt'] != 'euclidianDistance':
            if c['k'] == 'headway' and (o.lane >= 0 or abs(o.h) > 1e-6):
                return None
            for q in (o, p) if p is not None else (o,):
                if not 20 < q.x < L - 20 or abs(q.y) > LANES * W:
                    return None
        if not c['fs']:
            d = [(b[0][0] - o.x) * ax[0][0] + (b[0][1] - o.y) * ax[0][1], (b[0][0] - o.x) * ax[1][0] + (b[0][1] - o.y) * ax[1][1]]
            if c['rdt'] == 'euclidianDistance':
                if abs(d[0]) < 1e-6 and c['k'] in ('headway', 'ttc'):
                    return None
                return math.hypot(*d) * (1 if d[0] > 0 else -1)
            return d[idx]
        a = corners(o, self.bb[i])
        if c['k'] != 'dist':
            b = corners(p, self.bb[rel])
            s = separation(o, p, self.bb[i], self.bb[rel])
        else:
            s = max(pen(a, b, x) for x in axes(o.h))
        if abs(s) < 1e-5:
            return None
        g = [gap(a, b, x) for x in ax]
        if s < 0:
            return 0.0
        if c['rdt'] == 'euclidianDistance':
            e = rectdist(a, b) if len(b) > 1 else min(seg(b[0], a[k], a[(k + 1) % 4]) for k in range(4))
            if g[0] == 0.0 and c['k'] in ('headway', 'ttc'):
                return None
            return e * (1 if g[0] > 0 else -1)
        if c['k'] == 'dist' and c['cs'] == 'entity':
            # the components of the shortest connection
            pass
        if 0 < abs(pen(a, b, ax[idx])) < 1e-5:
            return None
        return g[idx]

    def clearance(self, c, f, i, o):
        if o.lane >= 0 or abs(math.sin(o.h)) > 1e-6 or abs(o.tt) > LANES * W or math.cos(o.h) < 0:
            return None
        found = False
        for j, q in f.objs.items():
            if j == i or (c['refs'] and f'O{j}' not in c['refs']):
                continue
            if not 20 < q.x < L - 20 or abs(q.tt) > LANES * W or q.lane == 0:
                return None
            d = q.x - o.x
            if min(abs(d + c['back']), abs(d - c['fwd'])) < 1e-5:
                return None
            if not -c['back'] < d < c['fwd']:
                continue
            if q.lane > 0:
                return None
            dl = q.lane - o.lane
            if c['lanes'][0] <= dl <= c['lanes'][1]:
                found = True
        if found:
            return False
        lanes = [x for x in list(range(-LANES, 0)) + list(range(1, LANES + 1)) if o.lane + c['lanes'][0] <= x <= o.lane + c['lanes'][1]]
        if c['opp']:
            if any(x > 0 for x in lanes):
                return None
        else:
            lanes = [x for x in lanes if x < 0]
        return bool(lanes)


class P(Prop):
    ID = 'C11'
    VARIANTS = ('plain',)
    QUICK = 6000
    RULE = 'distinct: sequences of condition values (per step) of runs in which at least one condition became true and one was false'

    def gen(self, rng, tier, i):
        m, conds = make(rng)
        return dict(model=m, conds=conds, calls=calls(rng, m), coldet=rng.random() < .3, _shrink=['calls', 'groups'])

    def fixed(self):
        c = dict(k='dist', name='c0', ents=['O0'], any='any', rule='equalTo', pos=['lane', 1, -1, 57.78, -.9], tol=2.0, v=0.0, fs=True, rdt='lateral', cs='road')
        o = dict(name='O0', kind='vehicle', bb=list(BB['vehicle']), init=[dict(k='teleport', pos=['world', 37.19, -3.2, 0.0, 1.2]), dict(k='speed', v=0.0, dyn=['step', 'time', 0.0])])
        m = dict(road=dict(kind='flat', length=L, lanes=LANES, width=W), objects=[o], vars=[['vi', 'integer', '0']], stories=[dict(name='S', acts=[dict(name='A', start=[[dict(k='time', v=-1.0, rule='greaterThan', name='ca')]], groups=[group(0, c)])])])
        return [dict(model=m, conds=[c], calls=['snap', 'step 0.1'] * 3, coldet=False, _shrink=['calls'])]

    def runs(self, case):
        plan = gen.files(case['model']) + ['seed 7', 'snapmode bk', 'args esmini --osc s.xosc --headless --disable_stdout' + (' --collision' if case['coldet'] else ''), 'cb'] + case['calls'] + ['close']
        return [Run('\n'.join(plan) + '\n')]

    def walk(self, case, res):
        """yields (condition, expected, got, frame)"""
        tr = Trace(res[0].text)
        j = Judge(case['model'], case['coldet'])
        live = {g['mans'][0]['events'][0]['name'] for g in case['model']['stories'][0]['acts'][0]['groups']}
        pre = None      # snapshot a step starts from
        got = set()
        dead = set()
        conds = [c for c in case['conds'] if 'E' + c['name'][1:] in live]
        dele = next((e for g in case['model']['stories'][0]['acts'][0]['groups'] for mn in g['mans'] for e in mn['events'] if e['name'] == 'Edel'), None)
        first = True
        for s in tr.seq:
            if s[0] == 'E' and s[2] == 2 and s[1] == 6:
                got.add(s[3])
            elif s[0] == 'F':
                f = s[1]
                if pre is not None and f.t > pre.t:
                    if 'Edel' in got:
                        dead.update(j.train[int(dele['actions'][0]['e'][1:])])
                    for c in conds:
                        w = j.truth(c, pre, dead)
                        g = ('E' + c['name'][1:]) in got
                        yield c, w, g, pre, 'point-within-extent' if w is not None and w != g and j.quirk(c, pre) else c['k']
                    dead.clear()
                if pre is None or f.t > pre.t:
                    j.after(f, pre)
                pre = f
                got = set()

    def judge(self, case, res):
        r = res[0]
        if r.ended() != 'ok':
            return [V('ended', r.ended())]
        if 0 not in Trace(r.text).rets.get(5, [0]) or not Trace(r.text).frames:
            return [V('load', 'scenario not loaded')]
        out = []
        for c, want, got, f, kind in self.walk(case, res):
            if want is not None and want != got:
                out.append(V(kind, f'{c} at {f.t}: expected {want}, got {got} ' + ' '.join(f'[{i} x={o.x:.3f} y={o.y:.3f} h={o.h:.3f} v={o.speed:.3f} lane={o.lane}]' for i, o in f.objs.items())))
                if len(out) > 5:
                    break
        return out

    def stats(self, case, res):
        st = super().stats(case, res)
        tags = set(st.get('tags', []))
        sig = []
        for c, want, got, f, kind in self.walk(case, res):
            tags.add(f'{c["k"]}:{want}')
            sig.append('1' if got else '0')
        st['tags'] = sorted(tags)
        tr = Trace(res[0].text)
        st.update(sig=None, simtime=tr.frames[-1].t if tr.frames else 0)
        if '1' in sig and '0' in sig:
            st['sig'] = hashlib.md5(''.join(sig).encode()).hexdigest()
        return st


PROP = P
