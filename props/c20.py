"""C20: every run stays sane: no crash, hang or memory error, finite states, road and world coordinates that agree."""
import hashlib, math, os, re
from vsim import gen, build
from vsim.client import esc
from vsim.core import Prop, Run, V
from vsim.trace import Trace
from props.c01 import resources
from props.c16 import where

ATTR = {'value', 's', 'offset', 'ds', 'delay', 'distance', 'speed', 'time', 'x', 'y', 'h', 'dx', 'dy', 't', 'dt', 'timeGap', 'targetTolerance', 'targetToleranceMaster', 'maxAcceleration',
        'maxDeceleration', 'maxSpeed', 'innerRadius', 'semiMajorAxis', 'semiMinorAxis', 'duration', 'scale'}
RES = build.REPO + '/resources/'


def source(name):
    t = open(RES + 'xosc/' + name, encoding='utf-8').read()
    t = re.sub(r'((?:file)?path=")\.\./', lambda m: m.group(1) + RES, t)
    return t.replace('filepath="cut-in.xosc"', f'filepath="{RES}xosc/cut-in.xosc"')


def numbers(t):
    out = []
    for m in re.finditer(r' (\w+)="(-?\d+(?:\.\d*)?(?:e-?\d+)?)"', t):
        tag = t[t.rindex('<', 0, m.start()):m.start()]
        if m.group(1) in ATTR and not tag.startswith('<Knot') and not (tag.startswith('<ParameterDeclaration') and 'parameterType="double"' not in tag):
            out.append(m)
    return out


def perturb(t, pert):
    ms = numbers(t)
    for i, f, d in sorted(pert, reverse=True):
        if i < len(ms):
            m = ms[i]
            v = round(float(m.group(2)) * f + d, 4)
            t = t[:m.start(2)] + repr(v) + t[m.end(2):]
    return t


class P(Prop):
    ID = 'C20'
    VARIANTS = ('asan',)
    QUICK = 2500
    RULE = 'distinct: traces of runs with at least 3 steps'

    def gen(self, rng, tier, i):
        res = resources()
        r2 = gen.r2
        if rng.random() < .6:
            name = rng.choice(res)
            t = source(name)
            n = len(numbers(t))
            case = dict(res=name, pert=[[rng.randrange(n), rng.choice([.3, .7, .9, .99, 1.01, 1.1, 1.5, 3]), 0] for _ in range(rng.choice([0, 0, 1, 2, 5])) if n])
            nobj = max(1, t.count('<ScenarioObject'))
            m = dict(objects=[0] * nobj)
            dt = rng.choice([0.01, 0.02, 0.05, 0.1])
            calls = gen.rich_calls(rng, m, rng.randint(2, 25), feat=rng.choice([[], ['ext'], ['inject'], ['ext', 'inject', 'sensor'], None]), dts=(dt, dt, dt, dt, .2, .001))
            k = rng.randint(0, len(calls))
            calls[k:k] = [f'steps {rng.choice([5, 20, 50, 100])} {dt}']
            case['calls'] = calls
        else:
            m = gen.swarm_model(rng) if rng.random() < .12 else gen.rich_model(rng, nobj=(1, 5))
            if rng.random() < .7:
                gen.add_controllers(rng, m, [c for c in gen.CTRLS])
            case = dict(model=m, calls=gen.rich_calls(rng, m, rng.randint(3, 40)))
        case.update(seed=rng.randrange(1, 1000), opts=[o for o in ('--collision', '--record r.dat', '--csv_logger c.csv', '--disable_controllers', '--align_routepositions', '--ignore_z', '--ignore_p', '--ground_plane') if rng.random() < .12],
                    _shrink=['pert', 'calls', 'opts', 'events', 'objects', 'stories', 'acts', 'groups', 'mans', 'actions'])
        return case

    def fixed(self):
        out = []
        pos = dict(k='teleport', pos=['lane', 1, -1, 50.0, 0.0])

        def mk(actions, ctrls=None, calls=None, init=(), prio='parallel'):
            o = dict(name='O0', kind='vehicle', cat='car', bb=[1.4, 0.0, 0.75, 2.0, 5.0, 1.5], perf=[60.0, 10.0, 10.0], init=[pos, dict(k='speed', v=10.0, dyn=['step', 'time', 0.0])] + list(init), ctrls=ctrls or [])
            ev = [dict(name=f'E{j}', prio=prio, max=mx, start=[[dict(k='time', name=f'c{j}', v=t, rule='greaterThan') if t else dict(k='var', name=f'c{j}', p='vd', v=2, rule='greaterThan')]], actions=[dict(a, name=f'a{j}')]) for j, (t, mx, a) in enumerate(actions)]
            m = dict(road=dict(kind='flat', length=500.0), params=[], vars=[['vd', 'double', '1.0']], objects=[o],
                     stories=[dict(name='S', acts=[dict(name='A', start=None, groups=[dict(name='G', actors=['O0'], max=1, mans=[dict(name='M', events=ev)])])])])
            return dict(model=m, calls=calls or ['step 0.05'] * 60, seed=1, opts=[], _shrink=['calls'])
        ghost = [dict(type='FollowGhostController', name='g', props=[('headstartTime', '1.5')])]
        on = [dict(k='activate', name='on', ref='g', lat=True, lon=True)]
        out.append(mk([(.1, 1, dict(k='profile', entries=[[10.0, None], [10.0, None], [20.0, None]], mode='follow', dc=[5.0, 10.0, 6.0, 10.0, 60.0]))]))
        tele = lambda x: dict(k='teleport', pos=['lane', 1, -2, x, 0.0])
        out.append(mk([(0, 1, tele(100.0))], ghost, ['step 0.05'] * 39 + ['svar d vd 3', 'step 0.0', 'step 0.0', 'step 0.05'], on))
        for pr in ('parallel', 'override', 'skip'):
            for mx in (1, 2):
                out.append(mk([(2.0, mx, tele(100.0)), (2.4, mx, tele(150.0))], ghost, ['step 0.05'] * 120, on, pr))
                out.append(mk([(2.0, mx, tele(100.0)), (2.1, mx, tele(150.0)), (1.9, mx, tele(120.0))], ghost, ['step 0.05'] * 120, on, pr))
        # known finding: two events that override each other, one of them with a teleport, restart the ghost for ever
        c = mk([(.24, 1, tele(179.0)), (2.79, 3, dict(k='speed', v=39.0, dyn=['cubic', 'rate', 3.17]))], [dict(ghost[0], props=[('headstartTime', '0.8')])], ['step 0.2'] * 14, on, 'override')
        c['model']['stories'][0]['acts'][0]['groups'][0]['mans'][0]['events'][0]['start'].append([dict(k='var', name='cx', p='vd', v=.81, rule='greaterOrEqual')])
        c['model']['stories'][0]['acts'][0]['groups'][0]['mans'][0]['events'][1]['start'][0].append(dict(k='var', name='cy', p='vd', v=2.57, rule='lessThan', delay=.3))
        c['model']['stories'][0]['acts'][0]['groups'][0]['max'] = 2
        c['ms'] = 4000
        out.append(c)
        return out

    def runs(self, case):
        p = gen.files(case['model']) if 'model' in case else [f'file s.xosc {esc(perturb(source(case["res"]), case["pert"]))}']
        p += [f'seed {case["seed"]}', 'snapmode bkclwmsg', 'args esmini --osc s.xosc --headless --disable_stdout ' + ' '.join(case['opts']), 'cb'] + case['calls'] + ['close']
        return [Run('\n'.join(p) + '\n', want=['log.txt'], timeout=case.get('ms', 60000))]

    def judge(self, case, res):
        r = res[0]
        if r.ended() != 'ok':
            if b'std::runtime_error' in r.stdout and b'[error]' in r.stdout:
                return []                      # gave up with an error message
            if r.ended() == 'hang' and r.text.count('\nE 7 2 AddedGhostTeleport') > 500:
                return [V('ghost-restart-livelock', 'the ghost is restarted again and again within one step')]
            return [V('ended', r.ended() + ' ' + where(r.san) + r.stdout.decode(errors='replace')[-200:])]
        tr = Trace(r.text)
        t = -1e9
        nolane = b'does not exist' in (r.files['log.txt'] or b'')      # told to go to a lane that is not there
        for f in tr.frames:
            if f.quit == -1:
                continue
            if not math.isfinite(f.t) or f.t < t:
                return [V('time', f'time {f.t} after {t}')]
            t = f.t
            if f.missing:
                return [V('missing', f'object {f.missing} has no state')]
            for o in f.objs.values():
                num = [o.t, o.x, o.y, o.z, o.h, o.p, o.r, o.speed, o.s, o.tt, o.off, o.wa, o.wr] + o.k + o.wheels[1]
                if not all(map(math.isfinite, num)):
                    return [V('nonfinite', f't={f.t} object {o.id} {num}')]
                if not -1e-5 <= o.h <= 2 * math.pi + 1e-5:
                    return [V('heading', f't={f.t} object {o.id} heading {o.h}')]
                if o.g and not nolane:
                    ln, xa, ya, xb, yb, lane = o.g
                    if 1 < o.s < ln - 1 and abs(o.tt) < 20:       # world coordinates are projected with limited accuracy
                        tol = 1.0
                        if math.hypot(o.x - xa, o.y - ya) > tol:
                            return [V('track', f't={f.t} object {o.id} at {o.x} {o.y}, but its road coordinates {o.road} {o.s} {o.tt} are {xa} {ya}')]
                        if math.hypot(o.x - xb, o.y - yb) > tol:
                            return [V('lane', f't={f.t} object {o.id} at {o.x} {o.y}, but its lane coordinates {o.road} {o.lane} {o.s} {o.off} are {xb} {yb}')]
        return []

    def stats(self, case, res):
        st = super().stats(case, res)
        tags = ['resource' if 'res' in case else 'generated'] + (['perturbed'] if case.get('pert') else []) + (['gave up'] if res[0].ended() != 'ok' else [])
        st.update(sig=None, tags=tags)
        if res[0].ended() == 'ok':
            tr = Trace(res[0].text)
            st['simtime'] = tr.frames[-1].t if tr.frames else 0
            if len(tr.frames) >= 3:
                st['sig'] = hashlib.md5(repr([(f.t, [(o.x, o.y, o.speed) for o in f.objs.values()]) for f in tr.frames]).encode()).hexdigest()
        return st


PROP = P
