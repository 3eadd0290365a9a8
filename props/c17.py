"""C17: sensors and collision lists show exactly the objects in view and in contact."""
import hashlib, math
from vsim import gen
from vsim.core import Prop, Run, V
from vsim.trace import Trace
from props.c11 import separation
from props.c16 import where

r2 = gen.r2


class P(Prop):
    ID = 'C17'
    VARIANTS = ('asan',)
    QUICK = 3500
    RULE = 'distinct: histories of collision and sensor lists that changed at least twice'

    def gen(self, rng, tier, i):
        m = gen.rich_model(rng, nobj=(2, 6), actions=['speed', 'lanechange', 'laneoffset', 'teleport', 'visibility', 'visibility', 'delete', 'longdist'], conds=['time', 'time'], roads=['flat', 'flat', 'curve', 'hill'], stop_p=.05)
        n = len(m['objects'])
        ops = []
        if rng.random() < .35:
            self.respawn(rng, m)
        host = rng.randrange(n)
        for _ in range(rng.randint(1, 3)):
            ops.append(self.sensor(rng, rng.choice([host, host, rng.randrange(n)])))
        ids = list(range(n))
        hosts = {int(o.split()[1]) for o in ops}
        nxt = [0]
        for _ in range(rng.randint(5, 40)):
            k = rng.random()
            if k < .05 and len(ids) < 12:
                ops.append(f'add A{nxt[0]} 1 0 0 1')
                nxt[0] += 1
                ids.append(-nxt[0])
            elif k < .07:
                ops.append(self.sensor(rng, rng.randrange(n)))
                hosts.add(int(ops[-1].split()[1]))
            elif k < .09:
                v = rng.choice([x for x in range(n)])
                if v not in hosts:
                    ops.append(f'del {v}')
            for _ in range(rng.choice([0, 1, 1, 2])):
                v = rng.randrange(n)
                w = rng.random()
                if w < .6:
                    ops.append(f'rxyh {v} {r2(rng, 20, 70)} {r2(rng, -12, 8)} {rng.choice([0.0, 0.0, math.pi / 2, math.pi, r2(rng, 0, 6.28)])}')
                elif w < .8:
                    ops.append(f'rpos {v} {r2(rng, 20, 70)} {r2(rng, -8, 5)} {rng.choice([0.0, r2(rng, 0, 6)])} {r2(rng, 0, 6.2)} 0.0 0.0')
                else:
                    ops.append(f'rspeed {v} {r2(rng, 0, 30)}')
            if rng.random() < .03:
                ops.append(f'coldet {rng.choice([0, 1])}')
            ops.append(f'step {rng.choice([0.1, 0.05, 0.05, 0.2])}')
        return dict(model=m, coldet=rng.random() < .8, ops=ops, _shrink=['ops', 'events', 'objects', 'stories', 'acts', 'groups', 'mans', 'actions'])

    def respawn(self, rng, m):
        # an object that overlaps another one leaves the scenario and comes back, at the same place or elsewhere
        a, b = rng.sample([o['name'] for o in m['objects']], 2)
        t, acts, ev = 0.0, [], []
        for k in range(rng.choice([1, 2])):
            t = round(t + r2(rng, .1, .6), 2)
            acts.append((t, dict(k='teleport', name=f'rt{k}', pos=['relobj', b, r2(rng, -3, 3), r2(rng, -1, 1), 0.0])))
            t = round(t + r2(rng, .1, .4), 2)
            acts.append((t, dict(k='delete', name=f'rd{k}', e=a)))
            t = round(t + r2(rng, .1, .6), 2)
            acts.append((t, dict(k='addent', name=f'ra{k}', e=a, pos=['relobj', b, r2(rng, -6, 6), r2(rng, -2, 2), 0.0])))
        for k, (t, x) in enumerate(acts):
            ev.append(dict(name=f'Er{k}', prio='parallel', max=1, start=[[dict(k='time', name=f'cr{k}', v=t, rule='greaterThan')]], actions=[x]))
        m['stories'].append(dict(name='Sr', acts=[dict(name='Ar', start=None, groups=[dict(name='Gr', actors=[a], max=1, mans=[dict(name='Mr', events=ev)])])]))

    def sensor(self, rng, h):
        near = rng.choice([0.0, 0.0, r2(rng, 0, 10)])
        return (f'sensor {h} {rng.choice([0.0, r2(rng, -2, 5)])} {rng.choice([0.0, r2(rng, -1, 1)])} 0.5 {rng.choice([0.0, 0.0, math.pi, math.pi / 2, -math.pi / 2, r2(rng, -3.1, 3.1)])} '
                f'{near} {r2(rng, 10, 120)} {rng.choice([0.5, 1.0, 2.0, 3.0, 6.3])} {rng.choice([1, 2, 3, 10, 10, 10])}')

    def runs(self, case):
        p = gen.files(case['model']) + ['seed 7', 'snapmode cms', 'args esmini --osc s.xosc --headless --disable_stdout' + (' --collision' if case['coldet'] else ''), 'cb']
        return [Run('\n'.join(p + [x for o in case['ops'] for x in ([f'mark {o.split()[0]}', o] if o.split()[0] in ('sensor', 'coldet') else [o])] + ['close']) + '\n')]

    def judge(self, case, res):
        r = res[0]
        if r.ended() != 'ok':
            return [V('ended', r.ended() + ' ' + where(r.san) + r.stdout.decode(errors='replace')[-200:])]
        tr = Trace(r.text)
        vis = {}       # action name -> (actors, mask)
        for st in case['model']['stories']:
            for a in st['acts']:
                for g in a['groups']:
                    for mn in g['mans']:
                        for e in mn['events']:
                            for x in e['actions']:
                                if x['k'] == 'visibility':
                                    vis[x['name']] = (g['actors'], sum(b for b, on in zip((1, 2, 4), x['v']) if on))
        mask = {}
        sens = []
        src = iter([o.split() for o in case['ops'] if o.split()[0] in ('sensor', 'coldet')])
        cold = case['coldet']
        pend = None
        for q in tr.seq:
            if q[0] == 'Z':
                pend = next(src)
                if pend[0] == 'coldet':
                    cold, pend = pend[1] == '1', None
            elif q[0] == 'R' and pend:
                if q[2] >= 0:
                    sens.append([int(pend[1])] + [float(v) for v in pend[2:9]] + [int(pend[9])])
                pend = None
            elif q[0] == 'E' and q[1] == 7 and q[2] == 2 and q[3] in vis:
                for a in vis[q[3]][0]:
                    mask[a] = vis[q[3]][1]
            elif q[0] == 'F':
                f = q[1]
                if f.quit or f.n <= 0:
                    continue
                for o in f.objs.values():
                    want = mask.setdefault(o.meta[0], 7 if o.meta[0][0] == 'A' else int(o.meta[10]) & 7)    # actions of the first frame are not observed
                    if int(o.meta[10]) & 7 != want:
                        return [V('visibility', f't={f.t:.3f}: {o.meta[0]} has visibility {o.meta[10]}, the last visibility action set {want}')]
                v = self.lists(f, cold) or self.views(f, sens)
                if v:
                    return [v]
        return []

    def lists(self, f, cold):
        if not cold:
            return None
        ids = list(f.objs)
        for o in f.objs.values():
            if len(set(o.col)) != len(o.col) or o.id in o.col:
                return V('list', f't={f.t:.3f}: object {o.id} collides with {o.col}')
        bb = {i: [float(x) for x in o.meta[4:10]] for i, o in f.objs.items()}
        for k, i in enumerate(ids):
            for j in ids[k + 1:]:
                a, b = f.objs[i], f.objs[j]
                if (j in a.col) != (i in b.col):
                    return V('symmetry', f't={f.t:.3f}: {i} collides with {a.col}, {j} with {b.col}')
                if abs(a.z - b.z) > .2 or abs(a.p) % 6.2831 > 1e-3 and abs(a.p) % 6.2831 < 6.28 or abs(b.p) % 6.2831 > 1e-3 and abs(b.p) % 6.2831 < 6.28:
                    continue
                s = separation(a, b, bb[i], bb[j])
                if abs(s) > 1e-4 and (s < 0) != (j in a.col):
                    return V('collision', f't={f.t:.3f}: objects {i} and {j} are {s:.3f} m apart (negative: overlap) but ' + ('listed' if j in a.col else 'not listed') + ' as colliding')
        return None

    def views(self, f, sens):
        for n, (h, x, y, z, sh, near, far, fov, mx) in enumerate(sens):
            hits = f.sensors.get(n)
            o = f.objs.get(h)
            if o is None or hits is None:
                continue
            c, s = math.cos(o.h), math.sin(o.h)
            px, py = o.x + c * x - s * y, o.y + s * x + c * y
            sure, maybe = [], []
            for j, q in f.objs.items():
                if j == h or not int(q.meta[10]) & 4:
                    continue
                d = math.hypot(q.x - px, q.y - py)
                a = abs(math.remainder(math.atan2(q.y - py, q.x - px) - o.h - sh, 2 * math.pi))
                m = min(d - near if near > 0 else 1, far - d, fov / 2 - a)
                if abs(m) < 1e-6 or d < 1e-3:
                    maybe.append(j)
                elif m > 0:
                    sure.append(j)
            t = f't={f.t:.3f}: sensor {n} of object {h} (heading {sh:.3f}, {near} to {far} m, view {fov}, at most {mx}) shows {hits}, in view are {sure}'
            if len(set(hits)) != len(hits) or set(hits) - set(sure) - set(maybe):
                return V('view', t)
            if len(hits) > mx:
                return V('max', t)
            if len(hits) < min(mx, len(sure)) or len(hits) < mx and set(sure) - set(hits):
                return V('missed', t)
        return None

    def stats(self, case, res):
        st = super().stats(case, res)
        st.update(sig=None, tags=sorted({o.split()[0] for o in case['ops']} - {'step'}))
        if res[0].ended() == 'ok':
            tr = Trace(res[0].text)
            st['simtime'] = tr.frames[-1].t if tr.frames else 0
            h = [repr((sorted(f.sensors.items()), [(o.id, o.col) for o in f.objs.values()])) for f in tr.frames]
            if len(set(h)) > 2:
                st['sig'] = hashlib.md5(repr(h).encode()).hexdigest()
        return st


PROP = P
