"""C01: same scenario, seed, options and calls -> same states, storyboard history and recording, whatever the environment is like."""
import glob, os
from vsim import gen, build
from vsim.core import Prop, Run, V
from vsim.trace import body

SKIP = ('sumo', 'interactive', 'cr.xosc')


def resources():
    out = []
    for f in sorted(glob.glob(build.REPO + '/resources/xosc/*.xosc')):
        if not any(s in f for s in SKIP):
            out.append(os.path.basename(f))
    return out


def first_diff(a, b):
    la, lb = a.split('\n'), b.split('\n')
    for i, (x, y) in enumerate(zip(la, lb)):
        if x != y:
            return f'trace line {i}: {x[:160]!r} vs {y[:160]!r}'
    return f'trace length {len(la)} vs {len(lb)}'


class P(Prop):
    ID = 'C01'
    VARIANTS = ('plain',)
    QUICK = 2500
    RULE = 'distinct: behaviour traces of runs with at least 3 steps; each is compared with a run in a different environment'
    STUB = Prop.STUB + '; heap and stack contents of fresh memory are chosen by the simulator'

    def gen(self, rng, tier, i):
        envs = []
        for _ in range(2 if tier == 'quick' else 3):
            envs.append(dict(perturb=rng.choice([0, 1, 85, 170, 255, rng.randrange(256)]), junk=rng.choice([0, 10, 300, 2000]),
                             tick=rng.choice([1, 1000, 1000000, 30000000]), wall=rng.choice([0, 10 ** 9, 1700000000 * 10 ** 9, 4 * 10 ** 18]),
                             entropy=rng.randrange(2 ** 32), pause=rng.choice([0, 0, 10 ** 6, 5 * 10 ** 9]), jump=rng.choice([0, 0, -3600 * 10 ** 9, 10 ** 12])))
        res = resources()
        if i < 2 * len(res) and i % 2 == 0 or rng.random() < (.05 if tier == 'quick' else .15):
            name = res[(i // 2) % len(res)] if i < 2 * len(res) else rng.choice(res)
            dt = rng.choice([0.01, 0.05, 0.1])
            return dict(res=name, seed=rng.randrange(1, 10 ** 6), calls=[f'step {dt}'] * rng.choice([40, 100, 250]), envs=envs, _shrink=['calls'])
        if rng.random() < .12:
            m = gen.swarm_model(rng)
        else:
            m = gen.rich_model(rng, nobj=(1, 5))
        if rng.random() < .35:
            gen.add_controllers(rng, m)
        return dict(model=m, seed=rng.randrange(1, 10 ** 6), calls=gen.rich_calls(rng, m, rng.randint(3, 40)), envs=envs,
                    _shrink=['calls', 'events', 'objects', 'stories', 'acts', 'groups', 'mans', 'actions'])

    def runs(self, case):
        out = []
        for e in case['envs']:
            p = [f'perturb {e["perturb"]} {e["junk"]}', f'tick {e["tick"]}', f'entropy {e["entropy"]}']
            if 'model' in case:
                p += gen.files(case['model'])
                f = 's.xosc'
            else:
                f = build.REPO + '/resources/xosc/' + case['res']
            p += [f'wall {e["wall"]}', f'seed {case["seed"]}', 'snapmode bkclws',
                  f'args esmini --osc {f} --headless --disable_stdout --record sim.dat --collision', 'cb']
            n = len(case['calls'])
            for k, c in enumerate(case['calls']):
                if e['pause'] and k % 7 == 3:
                    p.append(f'adv {e["pause"]}')
                if e['jump'] and k == n // 2:
                    p.append(f'jump {e["jump"]}')
                p.append(c)
            p += ['close', 'cat sim.dat']
            out.append(Run('\n'.join(p) + '\n'))
        return out

    def judge(self, case, res):
        for r in res:
            if r.ended() != 'ok':
                # the same abnormal end in every environment is not a repeatability question
                if len({x.ended() for x in res}) > 1:
                    return [V('ended-differently', ' / '.join(x.ended() for x in res))]
                return []
        b = [norm(r.text) for r in res]
        for x in b[1:]:
            if x != b[0]:
                return [V('diverged', first_diff(b[0], x))]
        return []

    def stats(self, case, res):
        t = res[0].text
        tags = ['resource' if 'res' in case else 'generated', 'ended-' + res[0].ended()]
        st = t.count('\nT ')
        return dict(sig=hash(norm(t)) if st > 3 else None, tags=tags, simtime=simtime(t))


def simtime(t):
    i = t.rfind('\nT ')
    return float(t[i + 3:].split(' ', 1)[0]) if i >= 0 else 0.0


def norm(t):
    # plan line numbers differ between environments (R lines carry them)
    out = []
    for l in body(t).split('\n'):
        if l.startswith('R '):
            l = 'R ' + l.split()[2]
        out.append(l)
    return '\n'.join(out)


PROP = P
