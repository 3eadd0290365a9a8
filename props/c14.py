"""C14: real-time stepping follows the clock within its limits, whatever the clock does."""
import hashlib
from vsim import gen
from vsim.core import Prop, Run, V
from vsim.trace import Trace, body
from props.c01 import first_diff

MIN, MAX = 0.001, 0.1


class P(Prop):
    ID = 'C14'
    VARIANTS = ('plain',)
    QUICK = 3000
    RULE = 'distinct: sequences of step sizes of at least 3 real-time steps, with the states they lead to'

    def gen(self, rng, tier, i):
        m = gen.rich_model(rng, nobj=(1, 3))
        steps = []
        for _ in range(rng.randint(3, 40)):
            k = rng.random()
            us = lambda a, b: rng.randint(a * 1000, b * 1000)
            s = dict(adv=[us(12, 60)])
            if k < .15:
                s['adv'] = [rng.randint(0, 1500)]
            elif k < .25:
                s['adv'] = [us(100, 5000)]           # stalled host
            elif k < .3:
                s['adv'] = [rng.choice([0, 1, 999, 1000, 1001, 99999, 100000, 100001])]
            if rng.random() < .12:
                s['jump'] = rng.choice([-1, 1, 1, -1]) * rng.choice([us(0, 30), us(10, 2000), us(3600000, 3700000), us(80000000, 90000000)])
            if rng.random() < .15:
                s['nap'] = [rng.choice([0, rng.randint(0, 900), us(10, 500)]), rng.choice([0, 0, -us(0, 5000), us(0, 5000), -us(3600000, 3700000)])]
            if rng.random() < .1:
                s['fixed'] = rng.choice([0.01, 0.05, 0.001, 0.2])
            steps.append(s)
        return dict(model=m, how=rng.choice(['stepreal', 'stepreal', 'stepget']), steps=steps, wall=rng.choice([0, 1, 1700000000]) * 1000000 + rng.randint(1, 10**9),
                    _shrink=['steps', 'events', 'objects', 'stories', 'acts', 'groups', 'mans', 'actions'])

    def runs(self, case):
        p = gen.files(case['model']) + ['tick 0', 'wall %d' % (case['wall'] * 1000), 'snapmode bkl']
        load = ['seed 7', 'args esmini --osc s.xosc --headless --disable_stdout', 'cb']
        p += ['mark real'] + load
        n = 0
        again = ['mark same'] + load
        for s in case['steps']:
            p.append('adv %d' % (s['adv'][0] * 1000))
            if 'jump' in s:
                p.append('jump %d' % (s['jump'] * 1000))
            if 'nap' in s:
                p.append('nap %d %d' % (s['nap'][0] * 1000, s['nap'][1] * 1000))
            p += ['clk', case['how'], 'simdt', 'clk', 'nap 0 0']
            again += [f'stepsame {n}']
            n += 1
            if 'fixed' in s:
                p.append(f'step {s["fixed"]}')
                again.append(f'step {s["fixed"]}')
        return [Run('\n'.join(p + ['close'] + again + ['close']) + '\n')]

    def judge(self, case, res):
        r = res[0]
        if r.ended() != 'ok':
            return [V('ended', r.ended() + ' ' + r.stdout.decode(errors='replace')[-200:])]
        a, b = ('\n' + body(r.text)).split('\nZ ')[1:3]
        ta = Trace(a)
        strip = lambda x: '\n'.join(l for l in x.split('\n')[1:] if l and l[:2] not in ('X ', 'R ') and l != 'END')
        xs, adv, last, cur = [], [], None, None
        for q in ta.seq:
            if q[0] == 'F':
                last, cur = cur, q[1].t
            elif q[0] == 'X' and q[1][0] in ('clk', 'simdt'):
                xs.append(q[1])
                if q[1][0] == 'simdt':
                    adv.append((cur or 0) - (last or 0))
        ts = None
        for n, s in enumerate(case['steps']):
            c0, d, c1 = xs[3 * n:3 * n + 3]
            m0, w0, dt, m1, w1 = int(c0[1]), int(c0[2]), float(d[1]), int(c1[1]), int(c1[2])
            us = w0 // 1000
            what = f'real-time step {n}: the clock advanced {None if ts is None else (us - ts) * 1e-6} s since the last one, step {dt:.6f} s, waited {(m1 - m0) * 1e-9:.6f} s'
            extra = s['nap'][0] * 1000 if 'nap' in s else 0
            if n and adv[n] == 0:
                break              # the scenario has come to its end
            if abs(adv[n] - dt) > 1e-9 and n:
                return [V('time', what + f', simulation time advanced {adv[n]}')]
            if ts is None:
                if abs(dt - MIN) > 1e-9 or m1 != m0:
                    return [V('first', what)]
            else:
                e = (us - ts) * 1e-6
                if m1 - m0 > MIN * 1e9 + extra + 2000:
                    return [V('blocked', what)]
                if not MIN - 2e-6 <= dt <= MAX + 1e-9:
                    return [V('limits', what)]
                if MIN <= e <= MAX and (abs(dt - e) > 1e-9 or m1 != m0):
                    return [V('elapsed', what)]
                if e > MAX and (dt != MAX or m1 != m0):
                    return [V('max', what)]
                if 0 <= e < MIN - 1e-6 and 'nap' not in s and abs(dt - MIN) > 3e-6:
                    return [V('min', what)]
            ts = w1 // 1000
        # simulation time advances by exactly the step sizes
        tl = [f.t for f in ta.frames]
        if any(y < x for x, y in zip(tl, tl[1:])):
            return [V('backwards', f'simulation time {tl}')]
        if strip(a) != strip(b):
            return [V('differs', 'fixed steps of the same sizes: ' + first_diff(strip(a), strip(b)))]
        return []

    def stats(self, case, res):
        st = super().stats(case, res)
        st.update(sig=None, tags=sorted({k for s in case['steps'] for k in s if k != 'adv'}))
        if res[0].ended() == 'ok':
            tr = Trace(res[0].text)
            st['simtime'] = max([f.t for f in tr.frames] or [0])
            if len(tr.frames) > 3:
                st['sig'] = hashlib.md5(repr([(f.t, [(o.x, o.y) for o in f.objs.values()]) for f in tr.frames]).encode()).hexdigest()
        return st


PROP = P
