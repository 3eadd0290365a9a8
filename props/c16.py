"""C16: objects keep their identity while others come and go; stale ids are rejected; memory stays valid."""
import hashlib
import math
import re
from vsim import gen
from vsim.gen import r2
from vsim.core import Prop, Run, V
from vsim.trace import Trace

ACTIONS = ['speed', 'lanechange', 'laneoffset', 'teleport', 'profile', 'longdist', 'traj', 'delete', 'delete', 'addent', 'assign', 'acquire', 'light']


def ops(rng, m):
    n = len(m['objects'])
    live, gone, nxt = list(range(n)), [], n
    out = []
    sens = 0
    dt = rng.choice([.1, .05, .02])
    rate = rng.choice([.1, .3, .6])
    for _ in range(rng.randint(10, 50)):
        anyid = lambda: rng.choice(live + gone + [nxt]) if rng.random() < .9 else rng.choice([-1, 77, 2 ** 30])
        if rng.random() < rate:
            x = rng.random()
            if x < .3:
                out.append(['add', f'H{nxt}', rng.choice([1, 1, 2, 3]), rng.choice([0, 1, 2]), 0, rng.choice([0, 1, -1])])
                live.append(nxt)
                if rng.random() < .8:
                    out.append(['rxyh', nxt, r2(rng, 0, 200), r2(rng, -8, 8), r2(rng, 0, 6)])
                nxt += 1
            elif x < .55 and live:
                i = rng.choice(live)
                live.remove(i)
                gone.append(i)
                out.append(['del', i])
            elif x < .6:
                out.append(['del', anyid()])
                if out[-1][1] in live:
                    live.remove(out[-1][1])
                    gone.append(out[-1][1])
            elif x < .68:
                out.append(['sensor', anyid(), r2(rng, 0, 3), 0, .5, 0, 1, r2(rng, 10, 60), r2(rng, .3, 3), 10])
            elif x < .8:
                i = anyid()
                out.append(rng.choice([['ispeed', i, r2(rng, 0, 20), 1, 1, r2(rng, .5, 4)], ['ilane', i, 1, rng.choice([-1, 1]), 1, 2, r2(rng, .5, 4)], ['ioff', i, r2(rng, -1, 1), .5, 1]]))
            elif x < .9:
                i = anyid()
                out.append(rng.choice([['rspeed', i, r2(rng, 0, 20)], ['rxyh', i, r2(rng, 0, 200), r2(rng, -8, 8), 0.0], ['rlat', i, r2(rng, -6, 6)], ['cbobj', i, 1]]))
        for _ in range(rng.choice([0, 0, 1, 2])):
            i = anyid()
            out.append(rng.choice([['objinfo', i], ['dist', i, anyid(), rng.choice([0, 1])], ['roadinfo', i, r2(rng, 1, 30), 0], ['snaplane', i, -1],
                                   ['idbyname', rng.choice([f'O{rng.randrange(n)}', f'H{rng.randint(n, nxt)}', 'nobody'])]]))
        out.append(['step', dt])
    return out


def where(san):
    """kind of memory error and the innermost functions of the engine"""
    k = re.search(r'AddressSanitizer: ([\w-]+)', san)
    fns = [re.sub(r'\(.*', '', f) for f in re.findall(r'#\d+ 0x\w+ in ((?:scenarioengine|roadmanager|SE_|esmini)[^/]*)', san)]
    return f'{k.group(1) if k else ""} in {" < ".join(f.strip() for f in fns[:3])}' if san else ''


class P(Prop):
    ID = 'C16'
    VARIANTS = ('asan',)
    QUICK = 2500
    RULE = 'distinct: traces of runs in which at least two objects came or went'

    def gen(self, rng, tier, i):
        acts = rng.choice([ACTIONS, ['speed', 'delete', 'addent'], ['lanechange', 'delete', 'longdist', 'assign']])
        m = gen.rich_model(rng, nobj=(2, 4), actions=acts)
        if rng.random() < .3:
            gen.add_controllers(rng, m, [c for c in gen.CTRLS if c not in ('FollowGhostController', 'FollowReferenceController', 'OffroadFollower')])
        return dict(model=m, ops=ops(rng, m), coldet=rng.random() < .5, _shrink=['ops', 'stories', 'acts', 'groups', 'mans', 'events', 'actions'])

    def runs(self, case):
        return [Run('\n'.join(gen.files(case['model']) + ['seed 7', 'snapmode bcms', 'args esmini --osc s.xosc --headless --disable_stdout' + (' --collision' if case['coldet'] else ''), 'cb'] + [' '.join(map(str, o)) for o in case['ops']] + ['close']) + '\n', variant='asan')]

    def judge(self, case, res):
        r = res[0]
        if r.ended() != 'ok':
            return [V('crash', r.ended() + ' ' + where(r.san))]
        tr = Trace(r.text)
        m = case['model']
        n = len(m['objects'])
        act = {}
        for st in m['stories']:
            for a in st['acts']:
                for g in a['groups']:
                    for mn in g['mans']:
                        for e in mn['events']:
                            for x in e['actions']:
                                if x['k'] in ('delete', 'addent'):
                                    act[x['name']] = (x['k'], int(x['e'][1:]))
        live = set(range(n))
        names = {i: f'O{i}' for i in range(n)}
        ever = n
        todo = iter(case['ops'])
        seq = iter([q for q in tr.seq if q[0] in 'RFX' or q[0] == 'E' and q[1] == 7 and q[2] == 2 and q[3] in act])
        ev = []

        def nextq():
            for q in seq:
                if q[0] == 'E':
                    ev.append(act[q[3]])
                else:
                    return q

        q = nextq()
        if q is None or q[2] != 0:
            return [V('load', 'scenario not loaded')]

        clock = [-1.0]

        def frame(f):
            for k, i in ev:
                if k == 'delete' and i in live:
                    live.discard(i)
                    parked.add(i)
                elif k == 'addent' and i in parked:
                    parked.discard(i)
                    live.add(i)
            ev.clear()
            if f.missing or f.n != len(f.order):
                return f'enumerated ids {f.missing} without state'
            if set(f.order) != live or len(f.order) != len(live):
                return f'objects {f.order}, expected {sorted(live)}'
            for i, o in f.objs.items():
                if o.meta[0] != names[i]:
                    return f'object {i} is named {o.meta[0]}, was {names[i]}'
                if f.t > clock[0] and any(c not in live or c == i for c in o.col):
                    return f'object {i} collides with {o.col}, existing are {sorted(live)}'
            for k, hits in f.sensors.items():
                if f.t > clock[0] and any(h not in live for h in hits):
                    return f'sensor {k} detects {hits}, existing are {sorted(live)}'
            clock[0] = f.t        # once the scenario has ended nothing is updated any more
            return None

        f = nextq()[1]
        live = set(f.order) & set(range(n))      # actions may have run during initialisation
        parked = set(range(n)) - live            # deleted by the scenario, which may add them again: not judged
        e = frame(f)
        if e:
            return [V('objects', f'after init: {e}')]
        for o in todo:
            k, i = o[0], o[1]
            if k in ('cbobj', 'ispeed', 'ilane', 'ioff'):
                continue
            q = nextq()
            if q is None:
                return [V('trace', 'run ended early')]
            if k == 'step':
                if q[0] != 'F':
                    return [V('trace', f'{o}: {q}')]
                e = frame(q[1])
                if e:
                    return [V('objects', f'at {q[1].t:.3f}: {e}')]
            elif k == 'add':
                if q[2] in names:
                    return [V('id', f'{o}: id {q[2]} was already given to {names[q[2]]}')]
                if q[2] < 0:
                    return [V('id', f'{o} failed')]
                names[q[2]] = i
                live.add(q[2])
            elif i in parked or k == 'dist' and o[2] in parked:
                pass
            elif k == 'objinfo':
                x = q[1]
                if (i in live) != (x[2] == '0') or i in live and (x[3] != names[i] or int(x[4]) != i):
                    return [V('lookup', f'{o}: {x}, existing are {sorted(live)}')]
            elif k == 'idbyname':
                want = next((j for j in live if names[j] == i), -1)
                if int(q[1][2]) != want:
                    return [V('lookup', f'{o}: {q[1]}, expected {want}')]
            elif k in ('dist', 'roadinfo'):
                x = q[1]
                ids = [i, o[2]] if k == 'dist' else [i]
                if not all(j in live for j in ids) and x[len(ids) + 1] != '-1':
                    return [V('stale', f'{o}: {x}, existing are {sorted(live)}')]
            elif k in ('del', 'rspeed', 'rxyh', 'rlat', 'snaplane', 'sensor'):
                if (i in live) != (q[2] >= 0):
                    return [V('stale', f'{o} returned {q[2]}, existing are {sorted(live)}')]
                if k == 'del':
                    live.discard(i)
        return []


    def stats(self, case, res):
        st = super().stats(case, res)
        st.update(sig=None, tags=sorted({o[0] for o in case['ops']} - {'step'}))
        if res[0].ended() == 'ok':
            tr = Trace(res[0].text)
            st['simtime'] = tr.frames[-1].t if tr.frames else 0
            hist = [tuple(f.order) for f in tr.frames]
            if len(set(hist)) > 2:
                st['sig'] = hashlib.md5(repr((hist, [q[1:5] for q in tr.seq if q[0] == 'E'])).encode()).hexdigest()
        return st


PROP = P
