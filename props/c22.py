"""C22: trajectories are followed on the line and on time, whatever the step sizes."""
import math
from vsim.gen import r2
from props import c12
from props.c12 import SMALL, LANES, W, sgn


def adiff(a, b):
    return math.remainder(a - b, 2 * math.pi)


def gen_action(rng, k, name, names, me):
    if rng.random() < .35:
        return c12.gen_action(rng, k, name, names, me)
    a = dict(name=name, k='traj', mode=rng.choice(['position', 'follow']), ido=rng.choice([None, None, 0.0, r2(rng, 0, 40)]))
    d = rng.choice([1, 1, 1, -1])
    side = rng.choice([-1, 1])
    x, y, t, h = r2(rng, 1500, 2500), side * r2(rng, .5, 10), rng.choice([0.0, 0.0, r2(rng, 0, 3)]), None
    expl = rng.random() < .3
    vs = []
    dense = rng.random() < .25
    for _ in range(rng.randint(4, 14) if dense else rng.randint(2, 6)):
        vs.append([round(t, 2), ['world', round(x, 2), round(y, 2), 0.0, None]])
        dx = r2(rng, .4, 3) if dense else r2(rng, 2, 30)
        dy = min(max(y + dx * math.tan(r2(rng, -.6, .6)), -10), 10) - y
        x += d * dx
        y += dy
        t += r2(rng, .1, .5) if dense else r2(rng, .3, 3)
        if rng.random() < .15 and a['mode'] == 'position' and not expl:       # stand still for a while
            vs.append([round(t, 2), ['world', round(x, 2), round(y, 2), 0.0, None]])
            t += rng.choice([r2(rng, 1.05, 1.5), r2(rng, 1.5, 3)])
    if expl:
        for v in vs:
            v[1][4] = round((0.0 if d > 0 else math.pi) + rng.uniform(-.4, .4), 2)
    a['verts'] = vs
    a['timing'] = rng.choice([None, None, ['relative', 1.0, 0.0], ['relative', rng.choice([1.0, r2(rng, .5, 2)]), rng.choice([0.0, r2(rng, -1, 2)])], ['absolute', rng.choice([1.0, 1.0, r2(rng, .5, 2)]), rng.choice([0.0, r2(rng, -3, 3)])]])
    if expl and not a['timing']:
        for v in vs:
            v[1][4] = None
    return a


class Line:
    """the polyline of a trajectory, with distances, headings, speeds and accelerations"""
    def __init__(self, a, v0):
        self.t = [v[0] for v in a['verts']]
        self.x = [v[1][1] for v in a['verts']]
        self.y = [v[1][2] for v in a['verts']]
        n = len(self.t)
        self.s = [0.0]
        for i in range(1, n):
            self.s.append(self.s[-1] + math.hypot(self.x[i] - self.x[i - 1], self.y[i] - self.y[i - 1]))
        self.true = []
        for i in range(n):
            j = min(i, n - 2)
            while j > 0 and self.s[j + 1] - self.s[j] <= SMALL:
                j -= 1
            while self.s[j + 1] - self.s[j] <= SMALL:
                j += 1
            self.true.append(math.atan2(self.y[j + 1] - self.y[j], self.x[j + 1] - self.x[j]))
        self.expl = a['verts'][0][1][4] is not None
        self.h = [v[1][4] if v[1][4] is not None else g for v, g in zip(a['verts'], self.true)]
        self.corner = a['mode'] == 'position'
        self.v, self.a = [0.0] * n, [0.0] * n
        if a['mode'] == 'position':
            for i in range(n - 1):
                self.v[i] = (self.s[i + 1] - self.s[i]) / (self.t[i + 1] - self.t[i])
        else:
            v = self.v[0] = v0
            for i in range(1, n):
                ds, dt = self.s[i] - self.s[i - 1], self.t[i] - self.t[i - 1]
                acc = 2 * (ds - v * dt) / dt ** 2
                if sgn(v + acc * dt) != sgn(v):
                    acc = -v * v / (2 * ds)
                    v = 0.0
                else:
                    v += acc * dt
                self.a[i - 1], self.v[i] = acc, v

    def s_at(self, t):
        if t > self.t[-1]:
            return self.s[-1]
        i = 0
        while i < len(self.t) - 1 and self.t[i + 1] < t:
            i += 1
        d = max(0.0, t - self.t[i])
        if self.a[i] < 0:
            d = min(d, -self.v[i] / self.a[i])
        return self.s[i] + self.v[i] * d + self.a[i] * d * d / 2

    def seg(self, s):
        n = len(self.s)
        if s > self.s[-1] - SMALL:
            return n - 1, 0.0
        i = 0
        while i < n - 2 and s > self.s[i + 1] + SMALL:
            i += 1
        return i, max(0.0, s - self.s[i])

    def at(self, s):
        """x, y, heading, true heading, time"""
        i, q = self.seg(s)
        n = len(self.s)
        if i >= n - 1:
            return self.x[-1], self.y[-1], self.h[-1], self.true[-1], self.t[-1]
        ln = max(self.s[i + 1] - self.s[i], SMALL)
        q = min(q, ln)
        f = q / ln
        h = self.h[i]
        if not self.corner:
            h += f * adiff(self.h[i + 1], h)
        else:
            r = min(2.0, ln / 2)
            if q < r:
                if i > 0:
                    h = self.h[i - 1] + (r + q) / (2 * r) * adiff(h, self.h[i - 1])
            elif q > ln - r:
                k = (r + ln - q) / (2 * r) if i < n - 2 else (ln - q) / r
                h += (1 - k) * adiff(self.h[i + 1], h)
        return self.x[i] + f * (self.x[i + 1] - self.x[i]), self.y[i] + f * (self.y[i + 1] - self.y[i]), h, self.true[i], self.t[i] + f * (self.t[i + 1] - self.t[i])


class Act(c12.Act):
    def put(self):
        o = self.veh
        o.s, o.t, h, self.true, self.time0 = self.line.at(self.pos)
        o.h = self.dirh = h
        if not self.line.expl and self.sign < 0:
            o.h += math.pi
        o.snap()

    def start_traj(self):
        o, a = self.veh, self.a
        self.line = Line(a, o.v)
        self.pos = min(a['ido'] or 0.0, self.line.s[-1])
        self.sign = 1
        if not a['timing'] and o.v < 0:
            self.sign = -1
        self.put()
        if not self.line.expl:      # aligned with the line until the first step
            o.h = self.true + (math.pi if self.sign < 0 else 0.0)
        self.time = self.time0
        if a['timing']:
            i, _ = self.line.seg(self.pos)
            n = len(self.line.v)
            f = 0.0 if i >= n - 1 else _ / max(self.line.s[i + 1] - self.line.s[i], SMALL)
            v = self.line.v[i] if i >= n - 1 else (1 - f) * self.line.v[i] + f * self.line.v[i + 1]
            o.v = v

    def step_traj(self, dt):
        o, a, ln = self.veh, self.a, self.line
        o.moved = True
        old = self.pos
        if not a['timing']:
            if abs(o.v) < SMALL:
                o.lost = True      # which way a standing vehicle would go is not judged
            d = sgn(o.v) * self.sign
            self.pos = min(max(old + d * abs(o.v) * dt, 0.0), ln.s[-1])
            self.put()
            if (abs(o.v) > 0 and d > 0 and self.pos > ln.s[-1] - SMALL) or (abs(o.v) > 0 and d < 0 and self.pos < SMALL):
                self.leave(d * (abs(o.v) * dt - abs(self.pos - old)))
                if d < 0:
                    o.lost = True      # backwards over the start of the trajectory: not judged
            return
        dom, scale, off = a['timing']
        self.time = self.time + scale * dt if dom == 'relative' else (self.now + dt) * scale
        t = self.time + off
        self.pos = ln.s_at(t)
        fwd = abs(adiff(o.h, self.true)) <= math.pi / 2 + SMALL
        self.put()
        if t < ln.t[-1] + SMALL:
            mv = sgn(self.pos - old) if dom == 'relative' else 1
            o.v = mv * (1 if fwd else -1) * abs(self.pos - old) / dt
        if t > ln.t[-1] - SMALL:
            self.leave((t - ln.t[-1]) / scale * o.v)

    def leave(self, d):
        o = self.veh
        o.s += d * math.cos(self.dirh)
        o.t += d * math.sin(self.dirh)
        o.snap()
        self.over = True


class P(c12.P):
    ID = 'C22'
    ACT = Act
    QUICK = 3000

    def gen(self, rng, tier, i):
        m = c12.make(rng, gen_action)
        k = c12.calls(rng, m['vars'])
        if rng.random() < .2:      # reversing along a trajectory with many vertices
            m['objects'][0]['init'][1]['v'] = -r2(rng, 1, 15)
            for a in m['stories'][0]['acts']:
                for g in a['groups']:
                    for e in [e for n in g['mans'] for e in n['events'] if g['actors'] == ['O0']]:
                        for x in e['actions']:
                            if x['k'] == 'traj':
                                x.update(timing=None, ido=rng.choice([None, r2(rng, 5, 40)]))
                                for v in x['verts']:
                                    v[1][4] = None
                            elif x['k'] == 'speed' and 'rel' not in x:
                                x['v'] = rng.choice([x['v'], r2(rng, 5, 25), -r2(rng, 5, 25)])
        return dict(model=m, calls=k, _shrink=['calls', 'groups'])


PROP = P
