"""C19: objects that do not refer to each other do not influence each other."""
import copy, hashlib
from vsim import gen, osc
from vsim.core import Prop, Run, V
from vsim.client import esc
from vsim.trace import Trace

IDOPS = {'rpos', 'rposm', 'rxyh', 'rroad', 'rspeed', 'rlat', 'rlatlane', 'rvel', 'racc', 'ravel', 'raacc', 'rwheel', 'ispeed', 'ilane', 'ioff'}
CT = [c for c in gen.CTRLS if c not in ('SloppyDriverController', 'FollowGhostController', 'ControllerRel2Abs')]     # random numbers are drawn from one sequence; ghosts restart the whole scenario
ACTS = ['speed', 'lanechange', 'laneoffset', 'visibility', 'light', 'profile', 'longdist', 'traj', 'teleport', 'assign', 'delete']


class P(Prop):
    ID = 'C19'
    VARIANTS = ('plain',)
    QUICK = 2000
    RULE = 'distinct: traces of scenarios of at least 3 steps that were compared with and without the unrelated objects'

    def gen(self, rng, tier, i):
        m = gen.rich_model(rng, nobj=(1, 4), roads=gen.ROADS[:5], stop_p=.1)
        if rng.random() < .6:
            gen.add_controllers(rng, m, CT)
        x = gen.rich_model(rng, nobj=(1, 3), actions=ACTS, conds=['time', 'speed', 'travel', 'standstill', 'acc', 'reldist'], roads=['flat'], stop_p=0)
        if rng.random() < .6:
            gen.add_controllers(rng, x, CT)
        x = self.move(x)
        calls = gen.rich_calls(rng, m, rng.randint(4, 30), feat=['inject', 'var', 'report'])
        extra = [c for c in gen.rich_calls(rng, x, rng.randint(2, 20), feat=['inject', 'report']) if c.split()[0] in IDOPS and c.split()[0] not in ('rpos', 'rxyh', 'ilane')]
        # calls on the unrelated objects, at random places
        mixed = [[0, c] for c in calls]
        for c in extra:
            mixed.insert(rng.randint(0, len(mixed)), [1, c])
        return dict(model=m, extra=x, where=rng.choice(['first', 'last', 'mid']), story=rng.choice(['first', 'last']), calls=mixed,
                    _shrink=['calls', 'events', 'objects', 'stories', 'acts', 'groups', 'mans', 'actions'])

    def move(self, x):
        """rename everything and move it to road 99, 5 km aside"""
        def walk(v, key=None):
            if isinstance(v, dict):
                return {k: walk(w, k) for k, w in v.items()}
            if isinstance(v, (list, tuple)):
                if v and v[0] == 'lane' and len(v) >= 5:
                    return [v[0], 99] + [walk(w) for w in v[2:]]
                if v and v[0] == 'world' and len(v) >= 5:
                    return [v[0], v[1], round(v[2] + 5000, 3)] + v[3:]
                if v and v[0] in ('rellane', 'relobj'):
                    return [v[0], 'X' + v[1]] + v[2:]
                return [walk(w, key) for w in v]
            if isinstance(v, str) and (key in ('name', 'rel', 'e', 'ref', 'actors', 'ents', 'el', 'element', 'master', 'trailer', 'obj') or v[:1] == 'O' and v[1:].isdigit()):
                return v if key == 'ref' else 'X' + v
            return v
        keep = {}
        y = walk({k: v for k, v in x.items() if k in ('objects', 'stories')})
        for o in y['objects']:
            for c in o.get('ctrls', []):
                c['name'] = c['type']
        fix = lambda a: a['ctrl'].update(name='acc') if a.get('ctrl') else None
        for s in y['stories']:
            for ac in s['acts']:
                for g in ac['groups']:
                    for mn in g['mans']:
                        for e in mn['events']:
                            for a in e['actions']:
                                fix(a)
        y['road'] = x['road']
        return y

    def plan(self, case, with_extra):
        m = copy.deepcopy(case['model'])
        n = len(m['objects'])
        at = n
        road = osc.road(**m['road'])
        if with_extra:
            x = copy.deepcopy(case['extra'])
            at = {'first': 0, 'last': n, 'mid': n // 2}[case['where']]
            m['objects'][at:at] = x['objects']
            m['stories'] = x['stories'] + m['stories'] if case['story'] == 'first' else m['stories'] + x['stories']
        k = len(case['extra']['objects'])
        # both runs have the additional road
        import re
        r99 = re.search(r'<road .*?</road>', osc.road(kind='flat', length=4000.0), re.S).group(0)
        r99 = re.sub(r'(<road [^>]*?) id="[^"]*"', r'\1 id="99"', r99)
        r99 = re.sub(r'<link>.*?</link>', '', r99, count=1, flags=re.S) if '<link>' in r99.split('<planView')[0] else r99
        r99 = re.sub(r'(<geometry [^>]*?) y="[^"]*"', r'\1 y="5000.0"', r99)
        road = road.replace('</OpenDRIVE>', r99 + '</OpenDRIVE>')
        p = [f'file road.xodr {esc(road)}', f'file s.xosc {esc(osc.scenario(m))}', 'seed 7', 'snapmode bklwm', 'args esmini --osc s.xosc --headless --disable_stdout', 'cb']
        for e, c in case['calls']:
            w = c.split()
            if e and not with_extra:
                p.append('mark x')
                continue
            if w[0] in IDOPS:
                i = int(w[1])
                i = (at + i if i < k else -1) if e else i + (k if with_extra and i >= at else 0)
                if i < 0:
                    continue
                w[1] = str(i)
            p.append(' '.join(w))
        return '\n'.join(p + ['close']) + '\n'

    def runs(self, case):
        return [Run(self.plan(case, False)), Run(self.plan(case, True))]

    def judge(self, case, res):
        if res[0].ended() != 'ok':
            return []
        if res[1].ended() != 'ok':
            return [V('ended', res[1].ended() + ' ' + res[1].stdout.decode(errors='replace')[-200:])]
        mine = {o['name'] for o in case['model']['objects']}
        out = []
        for r in res:
            tr = Trace(r.text)
            l = []
            for q in tr.seq:
                if q[0] == 'F':
                    l.append(('F', q[1].t, q[1].quit))
                    for o in q[1].objs.values():
                        if o.meta and o.meta[0] in mine:
                            l.append(('O', o.meta[0], o.t, o.x, o.y, o.z, o.h, o.p, o.r, o.speed, o.road, o.lane, o.s, o.tt, o.off, o.wa, o.wr, o.k, o.lights, o.wheels, o.meta[1:]))
                elif q[0] == 'E' and not q[3].startswith('X') and q[1] > 1 and '::' in q[4]:
                    if not q[4].startswith('X'):
                        l.append(('E',) + tuple(q[1:5]))
                elif q[0] == 'N' and not q[1].startswith('X'):
                    l.append(tuple(q[:3]))
            out.append(l)
        a, b = out
        end = next((i for i, q in enumerate(a) if q[0] == 'F' and q[2]), None)
        if end is not None:                       # alone, the scenario ended here
            end = max([i for i in range(end) if a[i][0] == 'F'] or [0])
            a = a[:end]
        for i, q in enumerate(a):
            if i >= len(b) or b[i] != q:
                return [V('influence', f'without the unrelated objects {str(q)[:300]}, with them {str(b[i])[:300] if i < len(b) else None}')]
        return []

    def stats(self, case, res):
        st = super().stats(case, res)
        st.update(sig=None, tags=sorted({c['type'] for o in case['model']['objects'] + case['extra']['objects'] for c in o.get('ctrls', [])}))
        if all(r.ended() == 'ok' for r in res):
            tr = Trace(res[0].text)
            st['simtime'] = tr.frames[-1].t if tr.frames else 0
            if len(tr.frames) > 3:
                st['sig'] = hashlib.md5(repr([(f.t, [(o.x, o.y, o.speed) for o in f.objs.values()]) for f in tr.frames]).encode()).hexdigest()
        return st


PROP = P
