"""C15: states reported by the host take effect exactly, for the object and the step they are meant for."""
import hashlib
import math
from vsim import gen
from vsim.gen import r2
from vsim.core import Prop, Run, V
from vsim.trace import Trace

L, LANES, W = 4000.0, 3, 3.5


def wrap(a):
    return math.remainder(a, 2 * math.pi)


def center(lane):
    return math.copysign((abs(lane) - .5) * W, lane)


def make(rng):
    objs = []
    for i in range(rng.randint(1, 3)):
        objs.append(dict(name=f'O{i}', kind=rng.choice(['vehicle', 'vehicle', 'pedestrian']), init=[
            dict(k='teleport', pos=['lane', 1, rng.choice([-1, -2, -3, 1, 2, 3]), r2(rng, 500, 1500), rng.choice([0.0, r2(rng, -1, 1)])]),
            dict(k='speed', v=rng.choice([0.0, 0.0, r2(rng, 1, 20)]), dyn=['step', 'time', 0.0])]))
    return dict(road=dict(kind='flat', length=L, lanes=LANES, width=W), objects=objs,
                stories=[dict(name='S', acts=[dict(name='A', start=[[dict(k='time', v=1000.0, rule='greaterThan', name='ca')]], groups=[dict(name='G', actors=['O0'], mans=[dict(name='M', events=[dict(name='E', start=None, actions=[dict(k='var', p='vd', v=1.0, name='a')])])])])])],
                vars=[['vd', 'double', '1.0']])


LANEIDS = [-1, -2, -3, 1, 2, 3]


def report(rng, i, at, host, dt):
    """at: where the host believes the object is; objects move on smoothly, with an occasional jump"""
    k = rng.choice(['rxyh'] * 4 + ['rpos'] * 3 + ['rroad'] * 2 + ['rspeed'] * 2 + ['rlat', 'rlatlane', 'rvel', 'rvel', 'racc', 'ravel', 'raacc', 'rwheel'])
    if rng.random() < .1:
        at[:] = [r2(rng, 500, 1500), r2(rng, -14, 14), r2(rng, 0, 6.28)]
    elif k in ('rxyh', 'rpos', 'rroad'):
        at[:] = [round(at[0] + dt * rng.uniform(-5, 20), 4), round(at[1] + dt * rng.uniform(-3, 3), 4), round((at[2] + rng.uniform(-.3, .3)) % 6.28, 4)]
    x, y, h = at
    a = dict(rxyh=[x, y, h], rpos=[x, y, r2(rng, 0, 2), h, r2(rng, -.3, .3), r2(rng, -.3, .3)], rroad=[1, rng.choice(LANEIDS), r2(rng, -1, 1), x],
             rspeed=[r2(rng, -5, 20)], rlat=[r2(rng, -9, 9)], rlatlane=[rng.choice(LANEIDS), r2(rng, -1, 1)], rwheel=[r2(rng, 0, 6), r2(rng, -1, 1)])
    if k == 'rpos' and rng.random() < .3:
        for n in (2, 4, 5):
            if rng.random() < .5:
                a[k][n] = 'nan'        # keep the current value
    if rng.random() < .05:
        return rng.choice([['snaplane', i, rng.choice([-1, 2])], ['lockonlane', i, rng.choice([0, 1])]])
    return [k, i] + (a.get(k) or [r2(rng, -9, 9), r2(rng, -9, 9), r2(rng, -2, 2)])


def ops(rng, m):
    n = len(m['objects'])
    live, gone, nxt = list(range(n)), [], n
    at = {i: [r2(rng, 500, 1500), r2(rng, -9, 9), r2(rng, 0, 6.28)] for i in range(n)}
    for i, o in enumerate(m['objects']):
        p = o['init'][0]['pos']
        at[i] = [p[3], center(p[2]), 0.0 if p[2] < 0 else 3.14]
    out = []
    dt = rng.choice([.1, .05, .01])
    busy = rng.choice([.2, .5, .9])
    for _ in range(rng.randint(8, 30)):
        for i in live:
            if rng.random() < busy:
                for _ in range(rng.choice([1, 1, 2, 3])):
                    out.append(report(rng, i, at[i], i >= n, dt))
        if rng.random() < .15:
            out.append(['add', f'H{nxt}', 1 + rng.randrange(3), 0, 0, rng.choice([0, 1, -1])])
            live.append(nxt)
            at[nxt] = [r2(rng, 500, 1500), r2(rng, -14, 14), r2(rng, 0, 6.28)]
            r = report(rng, nxt, at[nxt], True, dt)
            while r[0] not in ('rxyh', 'rpos', 'rroad'):
                r = report(rng, nxt, at[nxt], True, dt)
            out.append(r)
            nxt += 1
        if rng.random() < .08 and len(live) > 1:
            i = live.pop(rng.randrange(len(live)))
            gone.append(i)
            out.append(['del', i])
        if rng.random() < .1:
            i = rng.choice(gone + [nxt, -1, 1000])
            out.append(report(rng, i, [600.0, 0.0, 0.0], True, dt))
        out.append(['step', rng.choice([dt, dt, r2(rng, .01, .3)])])
    return out


class P(Prop):
    ID = 'C15'
    VARIANTS = ('plain',)
    QUICK = 2500
    RULE = 'distinct: traces of runs with reports on at least two objects'

    def gen(self, rng, tier, i):
        m = make(rng)
        return dict(model=m, ops=ops(rng, m), _shrink=['ops'])

    def runs(self, case):
        return [Run('\n'.join(gen.files(case['model']) + ['seed 7', 'snapmode bk', 'args esmini --osc s.xosc --headless --disable_stdout', 'step 0.1'] + [' '.join(map(str, o)) for o in case['ops']] + ['close']) + '\n')]

    def judge(self, case, res):
        r = res[0]
        if r.ended() != 'ok':
            return [V('ended', r.ended())]
        tr = Trace(r.text)
        seq = [q for q in tr.seq if q[0] in 'RF']
        if len(seq) < 3 or seq[0][2] != 0:
            return [V('load', 'scenario not loaded')]
        last = seq[2][1]
        pos = 3
        live = {i: False for i in range(len(case['model']['objects']))}    # id -> new
        nxt = len(live)
        pend = {}
        held = set()       # added by the host, other than misc objects: under external control
        for o in case['ops']:
            if pos >= len(seq):
                return [V('trace', 'run ended early')]
            q = seq[pos]
            pos += 1
            if o[0] == 'step':
                f = q[1]
                if sorted(f.objs) != sorted(live):
                    return [V('objects', f'at {f.t:.3f}: objects {sorted(f.objs)}, expected {sorted(live)}')]
                for i in live:
                    e = self.one(last.objs.get(i), f.objs[i], pend.get(i, []), f.t - last.t, live[i], i in held)
                    if e:
                        return [V(e[0], f'object {i} at {f.t:.3f}: {e[1]} after {pend.get(i)}')]
                    live[i] = False
                last, pend = f, {}
                continue
            want = 0
            if o[0] == 'add':
                want = nxt
                live[nxt] = True
                if o[2] != 3:
                    held.add(nxt)
                nxt += 1
            elif o[1] not in live:
                want = -1
            elif o[0] == 'del':
                del live[o[1]]
                pend.pop(o[1], None)
            else:
                pend.setdefault(o[1], []).append(o)
            if q[2] != want:
                return [V('return', f'{o} returned {q[2]}, expected {want}')]
        return []

    def one(self, a, b, reps, dt, new, host):
        """a, b: state before and after the step"""
        x, y, h, z, p, r, v = (a.x, a.y, a.h, a.z, a.p, a.r, a.speed) if a else (0, 0, 0, 0, 0, 0, 0)
        lon = lat = speed = False
        att = True
        got = {}
        for k0, o in enumerate(reps):
            k, w = o[0], o[2:]
            if k == 'rxyh':
                x, y, h = w
                att = False
                lon = lat = True
            elif k == 'rpos':
                if 'nan' in w:
                    if not att or new and k0 == 0:
                        att = None
                    w = [c if u == 'nan' else u for u, c in zip(w, (x, y, z, h, p, r))]
                x, y, z, h, p, r = w
                lon = lat = True
                att = True if att is not None else False
            elif k == 'rroad':
                lane, off, s = w[1:]
                x, y = s, center(lane) + off
                h, att = None, False
                lon = lat = True
            elif k == 'rlat':
                y = w[0]
                h, att = None, False
                lat = True
            elif k == 'rlatlane':
                y = center(w[0]) + w[1]
                h, att = None, False
                lat = True
            elif k == 'rspeed':
                v, speed = w[0], True
            elif k not in ('snaplane', 'lockonlane'):
                got[k] = w
        near = lambda u, w, e=1e-5: abs(u - w) < e
        own = not host and not lon and abs(v) > 1e-6      # moves on by itself
        if own:
            att = False
            if abs(math.cos(a.h)) < .01:
                return None
            x += math.copysign(1, math.cos(a.h)) * v * dt
        if not 10 < x < L - 10:
            return None                # the road ends
        if not near(x, b.x) or not near(y, b.y):
            return 'position', f'position {b.x:.4f} {b.y:.4f}, expected {x:.4f} {y:.4f}'
        if h is not None and not near(wrap(h - b.h), 0):
            return 'heading', f'heading {b.h:.4f}, expected {h:.4f}'
        for n, u, w in (('z', z, b.z), ('pitch', wrap(p), wrap(b.p)), ('roll', wrap(r), wrap(b.r))):
            if att and not near(u, w):
                return 'attitude', f'{n} {w:.4f}, expected {u:.4f}'
        if 'rvel' in got:
            vel = got['rvel']
        elif new:
            vel = None
        else:
            vel = [(b.x - a.x) / dt, (b.y - a.y) / dt, (b.z - a.z) / dt]
        for n in range(3):
            if vel and not near(vel[n], b.k[n], 1e-5 + 1e-6 / dt):
                return 'velocity', f'velocity {"xyz"[n]} {b.k[n]:.5f}, expected {vel[n]:.5f}'
        acc = got.get('racc')
        if not acc and not new:
            acc = [(b.k[n] - a.k[n]) / dt for n in range(3)]
        for n in range(3):
            if acc and not near(acc[n], b.k[3 + n], 1e-4 + 1e-6 / dt / dt):
                return 'acceleration', f'acceleration {"xyz"[n]} {b.k[3 + n]:.5f}, expected {acc[n]:.5f}'
        if 'ravel' in got:
            for n in range(3):
                if not near(got['ravel'][n], b.k[6 + n]):
                    return 'angular velocity', f'{b.k[6:9]}'
        elif not new and not near(wrap(b.h - a.h) / dt, b.k[6], 1e-4 / dt) and abs(abs(wrap(b.h - a.h)) - math.pi) > 1e-4:
            return 'yaw rate', f'{b.k[6]:.5f}, expected {wrap(b.h - a.h) / dt:.5f}'
        if 'raacc' in got and not all(near(got['raacc'][n], b.k[9 + n]) for n in range(3)):
            return 'angular acceleration', f'{b.k[9:12]}'
        if 'rwheel' in got and not (near(wrap(got['rwheel'][0] - b.wr), 0) and near(got['rwheel'][1], b.wa)):
            return 'wheels', f'rotation {b.wr:.4f} angle {b.wa:.4f}'
        if speed or own:
            want = v
        else:
            want = math.hypot(b.k[0], b.k[1])
        if not near(want, b.speed, 1e-5 + 1e-6 / dt):
            return 'speed', f'speed {b.speed:.5f}, expected {want:.5f}'
        return None


    def stats(self, case, res):
        st = super().stats(case, res)
        st.update(sig=None, tags=sorted({o[0] for o in case['ops']} - {'step'}))
        if res[0].ended() == 'ok':
            tr = Trace(res[0].text)
            st['simtime'] = tr.frames[-1].t if tr.frames else 0
            if len({o[1] for o in case['ops'] if o[0] not in ('step', 'add', 'del')}) > 1:
                st['sig'] = hashlib.md5(repr([(o.x, o.y, o.h, o.k) for f in tr.frames for o in f.objs.values()]).encode()).hexdigest()
        return st


PROP = P
