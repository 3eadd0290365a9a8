"""C18: a scenario is loaded completely or refused, from whatever files, and a refused load does no harm."""
import hashlib
from vsim import gen, osc
from vsim.catalog import catalogize, DIRS
from vsim.core import Prop, Run, V
from vsim.client import esc
from vsim.trace import Trace, body
from props.c01 import first_diff
from props.c16 import where


class P(Prop):
    ID = 'C18'
    VARIANTS = ('asan',)
    QUICK = 700
    RULE = 'distinct: traces of runs of at least 3 steps together with the faults of the refused loads before'

    def gen(self, rng, tier, i):
        m = gen.rich_model(rng, nobj=(1, 4), actions=['traj', 'assign', 'speed', 'lanechange'] if rng.random() < .4 else None)
        kinds = [k for k in list(DIRS) + ['Story'] if rng.random() < .6]
        case = dict(model=m, kinds=kinds, catseed=rng.randrange(1 << 30), prob=rng.choice([.3, .6, 1.]), nparam=rng.choice([0, 2, 5]), loads=[],
                    calls=gen.rich_calls(rng, m, rng.randint(2, 15)), _shrink=['loads', 'kinds', 'calls', 'events', 'objects', 'stories', 'acts', 'groups', 'mans', 'actions'])
        files = ['road.xodr', 's.xosc'] + sorted(self.files(case)[2])
        for _ in range(rng.choice([1, 1, 2, 3])):
            f = rng.choice(files)
            kind = rng.choice(['r:missing', 'r:trunc', 'r:trunc', 'r:eio'])
            case['loads'].append([kind, f, rng.randrange(1000000), rng.choice(['args', 'init']), rng.random() < .5, rng.choice([0, 1, 2, 3])])
        return case

    def files(self, case):
        return catalogize(osc.scenario(case['model']), case['catseed'], case['kinds'], case['prob'], case['nparam'])

    def runs(self, case):
        x, inline, cats = self.files(case)
        size = {n: len(c) for n, c in cats.items()}
        road = osc.road(**case['model']['road'])
        size.update({'s.xosc': len(x), 'road.xodr': len(road)})
        w = [f'file road.xodr {esc(road)}', f'file s.xosc {esc(x)}'] + [f'file {n} {esc(c)}' for n, c in sorted(cats.items())]
        load = ['seed 7', 'snapmode bkcl', 'args esmini --osc s.xosc --headless --disable_stdout', 'cb'] + case['calls'] + ['close']
        pre = []
        for k, (kind, f, ppm, how, close, steps) in enumerate(case['loads']):
            if f not in size:
                continue
            if kind == 'r:missing':
                pre.append(f'frule r:missing {f} 0 0 0')
            elif kind == 'r:trunc':
                pre.append(f'frule r:trunc {f} -1 {ppm} 0')
            else:
                pre.append(f'frule r:eio {f} {int(ppm * 1e-6 * size[f])} 1 0')
            pre += [f'mark load{k}', 'seed 7', 'snapmode bkcl', 'args esmini --osc s.xosc --headless --disable_stdout' if how == 'args' else 'init s.xosc 0 0', 'cb']
            pre += ['step 0.05'] * steps + ['objinfo 0', 'idbyname O0'] + (['close'] if close else []) + ['fclear']
        a = w + pre + ['mark good'] + load
        b = w + ['mark x'] * len(pre) + ['mark good'] + load
        c = [f'file road.xodr {esc(road)}', f'file s.xosc {esc(inline)}']
        c += ['mark x'] * (len(b) - len(load) - 1 - len(c)) + ['mark good'] + load
        return [Run('\n'.join(p) + '\n') for p in (a, b, c)]

    def judge(self, case, res):
        out = []
        for n, r in zip(('loads with file faults', 'load from catalogs', 'load without catalogs'), res):
            if r.ended() != 'ok':
                return [V('ended', n + ': ' + r.ended() + ' ' + where(r.san) + r.stdout.decode(errors='replace')[-200:])]
            out.append(('\n' + body(r.text)).split('\nZ good')[-1])
        if out[1] != out[2]:
            return [V('catalog', 'differs from the scenario without catalogs: ' + first_diff(out[1], out[2]))]
        if out[0] != out[1]:
            return [V('after', 'differs after loads with file faults: ' + first_diff(out[0], out[1]))]
        for part in ('\n' + body(res[0].text)).split('\nZ load')[1:]:
            part = part.split('\nZ ')[0]
            k = int(part.split('\n')[0])
            kind, f, ppm = case['loads'][k][:3]
            rs = [l.split() for l in part.split('\n') if l[:2] == 'R ']
            init = rs[0][2]
            steps = case['loads'][k][5]
            t = [l for l in part.split('\n') if l[:2] == 'T ' and not l.startswith('T 0 -1 ')]
            if init != '-1' and (kind == 'r:missing' or ppm < 990000 and kind == 'r:trunc'):
                return [V('accepted', f'load {k} with {kind} {f} returned {init}')]
            if init == '-1' and t:
                return [V('ghost', f'load {k} with {kind} {f} was refused but there are objects and time: {t[:2]}')]
        return []

    def stats(self, case, res):
        st = super().stats(case, res)
        st.update(sig=None, tags=sorted({l[0] + ' ' + l[1].split('/')[-1].split('Cat')[0] for l in case['loads']}))
        if res[0].ended() == 'ok':
            tr = Trace(('\n' + body(res[0].text)).split('\nZ good')[-1])
            st['simtime'] = tr.frames[-1].t if tr.frames else 0
            if len(tr.frames) >= 3:
                st['sig'] = hashlib.md5((repr(st['tags']) + body(res[0].text)).encode()).hexdigest()
        return st


PROP = P
