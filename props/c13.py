"""C13: velocity, acceleration, yaw rate, travelled distance and wheel rotation reported for an object are those of its motion."""
import hashlib
import math
from vsim import gen
from vsim.gen import r2
from vsim.core import Prop, Run, V
from vsim.trace import Trace

ACTIONS = ['speed', 'speed', 'lanechange', 'laneoffset', 'teleport', 'profile', 'longdist', 'traj', 'delete', 'addent', 'assign', 'acquire', 'visibility']


def wrap(a):
    return math.remainder(a, 2 * math.pi)


class P(Prop):
    ID = 'C13'
    VARIANTS = ('plain',)
    QUICK = 5000
    RULE = 'distinct: traces of runs in which at least one object moved and changed speed'

    def gen(self, rng, tier, i):
        m = gen.rich_model(rng, actions=ACTIONS)
        calls = gen.rich_calls(rng, m, rng.randint(10, 40), feat=['inject', 'var'])
        n = len(m['objects'])
        if rng.random() < .5:          # host objects, moved by position reports only
            out, live, nxt, cur = [], {}, n, {}
            for c in calls:
                if rng.random() < .08 and len(live) < 3:
                    out.append(f'add H{nxt} 1 {rng.choice([0, 1, 2])} 0 0')
                    live[nxt] = [r2(rng, 0, 200), r2(rng, -8, 8), r2(rng, 0, 6)]
                    out.append('rxyh %d %r %r %r' % (nxt, *live[nxt]))
                    nxt += 1
                for k, p in live.items():
                    if rng.random() < .7:
                        p[0], p[1], p[2] = round(p[0] + rng.uniform(-1, 2), 3), round(p[1] + rng.uniform(-.3, .3), 3), round((p[2] + rng.uniform(-.4, .4)) % 6.28, 3)
                        out.append('rxyh %d %r %r %r' % (k, *p))
                out.append(c)
            calls = out
        return dict(model=m, calls=calls, _shrink=['calls', 'stories', 'acts', 'groups', 'mans', 'events', 'actions'])

    def runs(self, case):
        return [Run('\n'.join(gen.files(case['model']) + ['seed 7', 'snapmode bkw', 'args esmini --osc s.xosc --headless --disable_stdout', 'cb'] + case['calls'] + ['close']) + '\n')]

    def judge(self, case, res):
        r = res[0]
        if r.ended() != 'ok':
            return []
        tr = Trace(r.text)
        tele = {}
        for st in case['model']['stories']:
            for a in st['acts']:
                for g in a['groups']:
                    for mn in g['mans']:
                        for e in mn['events']:
                            for x in e['actions']:
                                if x['k'] == 'teleport':
                                    tele[x['name']] = {int(q[1:]) for q in g['actors']}
                                elif x['k'] == 'addent':
                                    tele[x['name']] = {int(x['e'][1:])}
        last, jumped, odo = None, set(), {}
        n = len(case['model']['objects'])
        for s in tr.seq:
            if s[0] == 'E' and s[1] == 7 and s[2] == 2 and s[3] in tele:
                jumped |= tele[s[3]]
            elif s[0] == 'F':
                f = s[1]
                if last is not None and f.t > last.t:
                    dt = f.t - last.t
                    for i, b in f.objs.items():
                        a = last.objs.get(i)
                        if b.k is not None and i in jumped and i in odo and not (a is not None and a.k is not None and not self.one(a, b, dt, i >= n, i >= n or case['model']['objects'][i]['kind'] == 'vehicle')):
                            e = self.jump(b, odo[i], 1e-6 + 1e-7 / dt)      # unless the relocation was refused
                            if e:
                                return [V(e[0], f'object {i} relocated at {f.t:.4f} (step {dt:g}): {e[1]}')]
                        if a is None or a.k is None or b.k is None or i in jumped:
                            continue
                        e = self.one(a, b, dt, i >= n, i >= n or case['model']['objects'][i]['kind'] == 'vehicle')
                        if e:
                            return [V(e[0], f'object {i} at {f.t:.4f} (step {dt:g}): {e[1]}')]
                    jumped = set()
                last = f
                odo.update({i: b.k[12] for i, b in f.objs.items() if b.k is not None})
        return []

    def jump(self, b, odo, tol):
        """velocity after a relocation is speed along the heading; no distance is counted"""
        v = (b.speed * math.cos(b.h), b.speed * math.sin(b.h), 0.0)
        if any(abs(x - y) > tol for x, y in zip(v, b.k)):
            return 'velocity', f'velocity {b.k[:3]} at speed {b.speed:.6f} and heading {b.h:.6f}'
        if abs(b.k[12] - odo) > 1e-6:
            return 'odometer', f'odometer from {odo:.6f} to {b.k[12]:.6f}'

    def one(self, a, b, dt, host, vehicle):
        tol = 1e-6 + 1e-7 / dt
        for n, (q, p) in enumerate(((b.x, a.x), (b.y, a.y), (b.z, a.z))):
            if abs(b.k[n] - (q - p) / dt) > tol:
                return 'velocity', f'velocity {"xyz"[n]} {b.k[n]:.6f}, moved {q - p:.6f}'
        for n in range(3):
            if abs(b.k[3 + n] - (b.k[n] - a.k[n]) / dt) > tol / dt + 1e-6:
                return 'acceleration', f'acceleration {"xyz"[n]} {b.k[3 + n]:.6f}, velocity from {a.k[n]:.6f} to {b.k[n]:.6f}'
        d = b.k[6] * dt - wrap(b.h - a.h)
        if abs(d if abs(abs(wrap(b.h - a.h)) - math.pi) > 1e-4 else wrap(d)) > 1e-6:
            return 'yawrate', f'yaw rate {b.k[6]:.6f}, heading from {a.h:.6f} to {b.h:.6f}'
        if abs(b.k[9] - (b.k[6] - a.k[6]) / dt) > 1e-6 + 1e-6 / dt / dt and abs(abs(wrap(b.h - a.h)) - math.pi) > 1e-4:
            return 'yawacc', f'yaw acceleration {b.k[9]:.6f}, yaw rate from {a.k[6]:.6f} to {b.k[6]:.6f}'
        if host and b.speed != 0 and abs(b.speed - math.hypot(b.k[0], b.k[1])) > tol:
            return 'speed', f'speed {b.speed:.6f}, velocity {b.k[0]:.6f} {b.k[1]:.6f}'
        if vehicle and min(abs(wrap(b.wr - a.wr - q * b.speed * dt / .35)) for q in (1, -1)) > 1e-6:
            return 'wheels', f'wheel rotation from {a.wr:.6f} to {b.wr:.6f} at speed {b.speed:.6f}'
        d = math.hypot(b.x - a.x, b.y - a.y)
        if abs(b.k[12] - a.k[12] - d) > 1e-6:
            return 'odometer', f'odometer from {a.k[12]:.6f} to {b.k[12]:.6f}, moved {d:.6f}'
        return None

    def stats(self, case, res):
        st = super().stats(case, res)
        st['sig'] = None
        if res[0].ended() == 'ok':
            tr = Trace(res[0].text)
            if tr.frames:
                st['simtime'] = tr.frames[-1].t
                sp = {}
                for f in tr.frames:
                    for i, o in f.objs.items():
                        sp.setdefault(i, set()).add(round(o.speed, 3))
                if any(len(x) > 3 for x in sp.values()):
                    st['sig'] = hashlib.md5(repr([(o.x, o.y, o.k) for f in tr.frames for o in f.objs.values()]).encode()).hexdigest()
        return st


PROP = P
