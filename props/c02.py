"""C02: a session behaves as in a fresh process, whatever sessions ran before it."""
import hashlib
from vsim import gen, osc
from vsim.core import Prop, Run, V
from vsim.client import esc
from vsim.trace import Trace, body
from props.c01 import first_diff
from props.c16 import where


def session(rng, k, before):
    kind = rng.random()
    m = gen.swarm_model(rng) if kind < .1 else gen.rich_model(rng, nobj=(1, 4))
    if rng.random() < .35:
        gen.add_controllers(rng, m)
    how = rng.choice(['args', 'args', 'init', 'initstr'])
    opts = []
    if how == 'args':
        opts = [o for o in ('--collision', '--record r%d.dat' % k, '--csv_logger c%d.csv' % k, '--disable_controllers', '--fixed_timestep 0.02', '--seed 5') if rng.random() < .15]
    s = dict(model=m, how=how, opts=opts, calls=gen.rich_calls(rng, m, rng.randint(2, 20)), cb=rng.random() < .6, params=rng.random() < .2,
             real=rng.random() < .2, close=not before or rng.random() < .8, bad=None)
    if before:
        if rng.random() < .2:
            s['bad'] = rng.choice(['missing', 'cut', 'cutroad', 'noentity'])
        if s['params']:
            s['close'] = True      # a parameter callback stays registered until the session is closed
        s['setopt'] = rng.choice([None, None, None, 'collision', 'disable_controllers', 'align_routepositions'])
    if s['cb']:
        s['cbobj'] = [rng.randrange(4) for _ in range(rng.choice([0, 0, 1, 2]))]
    if s['real']:
        s['calls'] = [('stepreal' if c.startswith('step ') and rng.random() < .5 else c) for c in s['calls']]
    return s


def plan(k, s):
    f = gen.files(s['model'])
    p = [x.replace('file s.xosc', f'file s{k}.xosc').replace('file road.xodr', f'file road{k}.xodr') for x in f]
    p = [x.replace('road.xodr', f'road{k}.xodr') for x in p]
    if s['bad'] == 'cut':
        p += [f'frule r:trunc s{k}.xosc -1 600000 0']
    elif s['bad'] == 'cutroad':
        p += [f'frule r:trunc road{k}.xodr -1 500000 0']
    elif s['bad'] == 'missing':
        p += [f'frule r:missing road{k}.xodr 0 0 0']
    p += [f'mark session{k}', 'seed 7', 'snapmode bkclws']
    if s.get('setopt'):
        p.append('opt ' + s['setopt'])
    if s['params']:
        p.append('cbparam pd 2.5')
    if s['how'] == 'args':
        p.append(f'args esmini --osc s{k}.xosc --headless --disable_stdout ' + ' '.join(s['opts']))
    elif s['how'] == 'init':
        p.append(f'init s{k}.xosc 0 0')
    else:
        x = osc.scenario(s['model']).replace('road.xodr', f'road{k}.xodr')
        p += [f'blob b{k} ' + esc(x), f'initstr b{k} 0 0']
    if s['cb']:
        p += ['cb'] + [f'cbobj {i} {j + 10 * k}' for j, i in enumerate(s.get('cbobj', []))]
    p += s['calls'] + (['close'] if s['close'] else []) + ['fclear']
    return p


class P(Prop):
    ID = 'C02'
    VARIANTS = ('asan',)
    QUICK = 1300
    RULE = 'distinct: traces of last sessions of at least 3 steps that followed a different session'

    def gen(self, rng, tier, i):
        n = rng.choice([1, 1, 2, 3])
        return dict(before=[session(rng, k, True) for k in range(n)], last=session(rng, 9, False),
                    _shrink=['before', 'calls', 'events', 'objects', 'stories', 'acts', 'groups', 'mans', 'actions', 'opts'])

    def runs(self, case):
        pre = [l for k, s in enumerate(case['before']) for l in plan(k, s)]
        last = plan(9, case['last'])
        return [Run('\n'.join(pre + last) + '\n'), Run('\n'.join(['mark x'] * len(pre) + last) + '\n')]

    def judge(self, case, res):
        a, b = res
        if b.ended() != 'ok':
            return []
        if a.ended() != 'ok':
            return [V('ended', a.ended() + ' ' + where(a.san) + a.stdout.decode(errors='replace')[-200:])]
        x, y = (('\n' + body(r.text)).split('\nZ session9')[-1] for r in res)
        if [l for l in y.split('\n') if l[:2] == 'R '][:1] == []:
            return []
        if x != y:
            return [V('differs', first_diff(x, y))]
        return []

    def stats(self, case, res):
        st = super().stats(case, res)
        st.update(sig=None, tags=sorted({'after ' + (s['bad'] or ('open' if not s['close'] else s['how'])) for s in case['before'] if s.get('model')}))
        if res[0].ended() == 'ok':
            tr = Trace(('\n' + body(res[0].text)).split('\nZ session9')[-1])
            st['simtime'] = tr.frames[-1].t if tr.frames else 0
            if len(tr.frames) >= 3 and st['tags']:
                st['sig'] = hashlib.md5((repr(st['tags']) + repr([(f.t, [(o.x, o.y, o.speed) for o in f.objs.values()]) for f in tr.frames])).encode()).hexdigest()
        return st


PROP = P
