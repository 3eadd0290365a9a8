"""C23: trailers stay coupled and follow their towing vehicle, whatever moves it and whoever connects or disconnects them."""
import hashlib
import itertools
import math
from vsim import gen
from vsim.gen import r2
from vsim.core import Prop, Run, V
from vsim.trace import Trace

SHAPES = ['linear', 'sinusoidal', 'cubic', 'step']


def make(rng):
    road = dict(kind=rng.choice(['flat', 'flat', 'curve']), length=4000.0, lanes=3, width=3.5)
    smax = 3900 if road['kind'] == 'flat' else 4000
    parts, objs = [], []       # trains, trailers first: a reference has to be to an entity known already
    for _ in range(rng.choice([1, 1, 2])):
        n = rng.choice([1, 1, 2, 3])
        s = r2(rng, 200, 800)
        lane = rng.choice([-1, -2, -3])
        v = rng.choice([0.0, 10.0, r2(rng, -3, 20)])
        prev = None
        for k in range(n):
            o = dict(kind='vehicle', cat='trailer', coupler=r2(rng, 2, 9), init=[])
            if k or rng.random() < .5:
                o['hitch'] = r2(rng, -3, 1)
            o['bb'] = [r2(rng, -.5, 2), 0.0, .75, 2.0, r2(rng, 2, 8), 1.5]
            if rng.random() < .3:
                o['init'] = [dict(k='teleport', pos=['lane', 1, lane, s - 30 - 10 * k, 0.0])]
            o['name'] = f'O{len(objs)}'
            if prev and rng.random() < .85:
                o['trailer'] = prev
            else:
                o['init'] = [dict(k='teleport', pos=['lane', 1, lane, s - 30 - 10 * k, 0.0])] if prev else o['init']
            objs.append(o)
            prev = o['name']
        t = dict(name=f'O{len(objs)}', kind='vehicle', hitch=r2(rng, -3, 1), perf=[70.0, 20.0, 20.0], init=[dict(k='teleport', pos=['lane', 1, lane, s, rng.choice([0.0, r2(rng, -1, 1)])]), dict(k='speed', v=v, dyn=['step', 'time', 0.0])])
        if rng.random() < .85:
            t['trailer'] = prev
        objs.append(t)
        parts.append(t['name'])
    for o in objs:      # trailers that start alone need a place
        if not o['init'] and not any(p.get('trailer') == o['name'] for p in objs):
            o['init'] = [dict(k='teleport', pos=['lane', 1, rng.choice([-1, -2]), r2(rng, 100, 150), 0.0])]
    for _ in range(rng.choice([0, 0, 1])):       # bystander
        objs.append(dict(name=f'O{len(objs)}', kind='vehicle', init=[dict(k='teleport', pos=['lane', 1, -2, r2(rng, 1000, 1500), 0.0]), dict(k='speed', v=r2(rng, 0, 20), dyn=['step', 'time', 0.0])]))
        if rng.random() < .5:
            objs[-1]['coupler'] = r2(rng, 2, 5)
    names = [o['name'] for o in objs]
    tow = [o['name'] for o in objs if 'hitch' in o]
    cpl = [o['name'] for o in objs if 'coupler' in o]
    groups, vs = [], []
    for k in range(rng.randint(1, 8)):
        w = rng.choice(['speed', 'lane', 'lane', 'offset', 'connect', 'connect', 'disconnect', 'disconnect', 'teleport', 'delete', 'addent', 'traj'])
        me = rng.choice(parts)
        a = dict(name=f'a{k}', k=w)
        if w == 'speed':
            a.update(v=rng.choice([0.0, r2(rng, -5, 25)]), dyn=[rng.choice(SHAPES), 'time', r2(rng, .1, 4)])
        elif w == 'lane':
            a.update(k='lanechange', v=-rng.randint(1, 3), dyn=[rng.choice(SHAPES[:3]), 'time', r2(rng, 1, 5)])
        elif w == 'offset':
            a.update(k='laneoffset', v=r2(rng, -1.4, 1.4), acc=r2(rng, .2, 4), shape=rng.choice(SHAPES[:3]))
        elif w == 'connect':
            me = rng.choice(tow) if rng.random() < .9 else rng.choice(names)
            o = [c for c in cpl if c != me]
            if not o:
                continue
            a['trailer'] = rng.choice(o) if rng.random() < .9 else rng.choice([n for n in names if n != me] or [me])
        elif w == 'disconnect':
            me = rng.choice(tow)
        elif w == 'teleport':
            me = rng.choice(parts + names)
            a['pos'] = ['lane', 1, -rng.randint(1, 3), r2(rng, 100, 1500), 0.0]
        elif w in ('delete', 'addent'):
            a['e'] = rng.choice(parts + names)
            if w == 'addent':
                a['pos'] = ['lane', 1, -rng.randint(1, 3), r2(rng, 100, 1500), 0.0]
        elif w == 'traj':
            x, y = r2(rng, 300, 1000), -r2(rng, 1, 9)
            vs_ = []
            for j in range(rng.randint(2, 6)):
                vs_.append([j * 1.0, ['world', round(x, 2), round(y, 2), 0.0, None]])
                x, y = x + r2(rng, 5, 30), min(-.5, max(-10, y + r2(rng, -5, 5)))
            a.update(verts=vs_, mode=rng.choice(['position', 'follow']), timing=rng.choice([None, ['relative', 1.0, 0.0]]))
        ev = dict(name=f'E{k}', prio=rng.choice(['parallel', 'parallel', 'override']), max=rng.choice([1, 3]), start=[[dict(k='var', p=f'v{k}', v=1.0, rule='equalTo', edge='rising', name=f'c{k}')]], actions=[a])
        if rng.random() < .4:
            ev.update(max=1, start=[[dict(k='time', v=r2(rng, 0, 4), rule='greaterThan', name=f'c{k}')]])
        else:
            vs.append([f'v{k}', 'double', '0'])
        groups.append(dict(name=f'G{k}', actors=[me], mans=[dict(name=f'M{k}', events=[ev])]))
    rng.shuffle(groups)
    return dict(road=road, objects=objs, vars=vs, stories=[dict(name='S', acts=[dict(name='A', start=[[dict(k='time', v=-1.0, rule='greaterThan', name='ca')]], groups=groups)])])


class World:
    """who tows whom, and who is there"""
    def __init__(self, m):
        self.o = {o['name']: o for o in m['objects']}
        self.id = {o['name']: i for i, o in enumerate(m['objects'])}
        self.towed = {o['trailer']: o['name'] for o in m['objects'] if 'trailer' in o}     # trailer -> tow
        self.gone = set()

    def trailer(self, n):
        return next((t for t, w in self.towed.items() if w == n), None)

    def front(self, n):
        seen = set()
        while n in self.towed and n not in seen:
            seen.add(n)
            n = self.towed[n]
        return n

    def chain(self, n):
        out = []
        while n and n not in out:
            out.append(n)
            n = self.trailer(n)
        return out

    def connect(self, w, t):
        x = self.trailer(w)
        if x and x != t:
            del self.towed[x]
        if 'hitch' in self.o[w] and 'coupler' in self.o[t] and w not in self.chain(t):       # a train in a circle is refused
            self.towed[t] = w


class P(Prop):
    ID = 'C23'
    VARIANTS = ('plain',)
    QUICK = 2500
    RULE = 'distinct: paths of towed trailers over all steps, of runs in which a trailer was towed in motion'

    def gen(self, rng, tier, i):
        m = make(rng)
        n = len(m['objects'])
        style = rng.choice(['fix', 'mix', 'wild'])
        base = rng.choice([.1, .05, .02, .2])
        out, t = [], 0.0
        while t < 8 and len(out) < 200:
            if m['vars'] and rng.random() < .15:
                out.append(f'svar d {rng.choice(m["vars"])[0]} {rng.choice([0.0, 1.0, 1.0])}')
            dt = base if style == 'fix' else rng.choice([base, .01, .2]) if style == 'mix' else rng.choice([.001, .01, .1, .5, r2(rng, .01, .6)])
            out.append(f'step {dt}')
            t += dt
        return dict(model=m, calls=out, _shrink=['calls', 'groups'])

    def runs(self, case):
        return [Run('\n'.join(gen.files(case['model']) + ['seed 7', 'snapmode bk', 'args esmini --osc s.xosc --headless --disable_stdout', 'cb'] + case['calls'] + ['close']) + '\n')]

    def judge(self, case, res):
        r = res[0]
        if r.ended() != 'ok':
            return [V('ended', r.ended())]
        tr = Trace(r.text)
        if not tr.frames:
            return [V('load', 'scenario not loaded')]
        m = case['model']
        w = World(m)
        acts = {g['mans'][0]['events'][0]['actions'][0]['name']: (g['mans'][0]['events'][0]['actions'][0], g['actors'][0]) for g in m['stories'][0]['acts'][0]['groups']}
        last = None
        fresh, disturbed, moved, added = set(), set(), set(), set()
        running, odo = {}, {}
        for s in tr.seq:
            if s[0] == 'E' and s[1] == 7 and s[3] in acts:
                a, me = acts[s[3]]
                if s[2] == 3:
                    running.pop(s[3], None)
                    disturbed.add(me)
                    continue
                if s[2] != 2:
                    continue
                running[s[3]] = me
                disturbed.add(me)
                k = a['k']
                if k == 'connect':
                    disturbed.update([a['trailer'], w.trailer(me)])
                    w.connect(me, a['trailer'])
                    c = w.chain(a['trailer'])
                    if fresh & set(c):               # relocated before it was connected: dragged from there
                        fresh.difference_update(c)
                        moved.update(c)
                elif k == 'disconnect':
                    t = w.trailer(me)
                    if t:
                        del w.towed[t]
                        disturbed.add(t)
                elif k == 'teleport':
                    if me not in w.towed:
                        fresh.update(w.chain(me))
                elif k == 'delete':
                    w.gone.update(itertools.takewhile(lambda x: x not in w.gone, w.chain(a['e'])))
                elif k == 'addent':
                    if a['e'] in w.gone:
                        c = list(itertools.takewhile(lambda x: x in w.gone, w.chain(a['e'])))
                        w.gone.difference_update(c)
                        added.add(a['e'])
                        (fresh if a['e'] not in w.towed else moved).update(c)
                        moved.update(x for x in w.chain(a['e']) if x not in c)
            elif s[0] == 'F':
                f = s[1]
                first = last is None
                dt = 0 if first else f.t - last.t
                lateral = {n for a, n in acts.values() if (n in disturbed or n in running.values()) and a['k'] in ('lanechange', 'laneoffset', 'traj')}    # may turn sideways motion into speed afterwards
                for n, i in w.id.items():
                    if (i in f.objs) == (n in w.gone):
                        return [V('presence', f'at {f.t:.4f}: {n} is {"there" if i in f.objs else "not there"}; trains {w.towed} deleted {sorted(w.gone)}')]
                for t, p in w.towed.items():
                    if any(x in w.gone for x in (t, p, w.front(t))):      # part of a train without its front: not judged
                        continue
                    a, b = f.objs[w.id[p]], f.objs[w.id[t]]
                    hx, hy = a.x + w.o[p]['hitch'] * math.cos(a.h), a.y + w.o[p]['hitch'] * math.sin(a.h)
                    c = w.o[t]['coupler']
                    cx, cy = b.x + c * math.cos(b.h), b.y + c * math.sin(b.h)
                    if math.hypot(hx - cx, hy - cy) > 1e-4:
                        return [V('coupling', f'at {f.t:.4f}: {t} is {math.hypot(hx - cx, hy - cy):.5f} m off the hitch of {p}')]
                    if abs(a.speed - b.speed) > 1e-9 and not lateral & {w.front(t)}:
                        return [V('speed', f'at {f.t:.4f}: {t} has speed {b.speed}, towed by {p} with {a.speed}')]
                    if first or t in fresh - moved:
                        if (first or w.front(t) not in running.values() and w.front(t) not in added) and abs(math.remainder(a.h - b.h, 2 * math.pi)) > 1e-4:
                            return [V('aligned', f'at {f.t:.4f}: {t} has heading {b.h:.5f} behind {p} with {a.h:.5f}')]
                        if not first and t in odo and dt > 0:
                            v = (b.speed * math.cos(b.h), b.speed * math.sin(b.h))
                            if abs(b.k[12] - odo[t]) > 1e-6 or math.hypot(v[0] - b.k[0], v[1] - b.k[1]) > 1e-5:
                                return [V('relocated', f'at {f.t:.4f}: {t} relocated with {p} has velocity {b.k[:2]} at speed {b.speed:.5f}, odometer {odo[t]:.5f} -> {b.k[12]:.5f}')]
                    elif last is not None and w.id[t] in last.objs and t not in moved:
                        q = last.objs[w.id[t]]
                        d = math.hypot(q.x - hx, q.y - hy)
                        if d > 1e-2:
                            e = math.atan2(hy - q.y, hx - q.x)
                            if abs(math.remainder(e - b.h, 2 * math.pi)) > 1e-4 + 1e-5 / d:
                                return [V('heading', f'at {f.t:.4f}: {t} has heading {b.h:.5f}, the hitch of {p} is in direction {e:.5f}')]
                if not first:
                    for n, i in w.id.items():      # vehicles on their own go on as they were
                        if n in w.towed or n in w.gone or n in disturbed or n in running.values() or n in fresh | moved or i not in last.objs:
                            continue
                        a, b = last.objs[i], f.objs[i]
                        if not 5 < b.s < 3900:
                            continue
                        if abs(a.speed - b.speed) > 1e-9:
                            return [V('free', f'at {f.t:.4f}: speed of {n} changed from {a.speed} to {b.speed}')]
                        if m['road']['kind'] == 'flat' and abs(b.x - a.x - a.speed * dt * (1 if math.cos(b.h) > 0 else -1)) > 1e-5:
                            return [V('free', f'at {f.t:.4f}: {n} moved from {a.x:.5f} to {b.x:.5f} with speed {a.speed:.5f} in {dt:.4f} s')]
                last = f
                odo.update({n: f.objs[i].k[12] for n, i in w.id.items() if i in f.objs and f.objs[i].k})
                fresh, disturbed, moved, added = set(), set(), set(), set()
        return []

    def stats(self, case, res):
        st = super().stats(case, res)
        if res[0].ended() == 'ok':
            tr = Trace(res[0].text)
            ids = [i for i, o in enumerate(case['model']['objects']) if 'coupler' in o]
            p = [[(o.x, o.y, o.h) for o in (f.objs.get(i) for f in tr.frames) if o] for i in ids]
            st.update(simtime=tr.frames[-1].t if tr.frames else 0, sig=hashlib.md5(repr(p).encode()).hexdigest() if any(len(set(x)) > 3 for x in p) else None)
            st['tags'] = sorted(set(st.get('tags', [])) | {s[3] and {a['name']: a['k'] for g in case['model']['stories'][0]['acts'][0]['groups'] for a in g['mans'][0]['events'][0]['actions']}.get(s[3], '') for s in tr.seq if s[0] == 'E' and s[1] == 7 and s[2] == 2} - {''})
        return st


PROP = P
