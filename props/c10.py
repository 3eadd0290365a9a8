"""C10: storyboard elements start, run and end exactly as their triggers, priorities and execution counts prescribe."""
import copy
from vsim import gen
from vsim.gen import r2, RULES
from vsim.core import Prop, Run, V
from vsim.trace import Trace
from . import story_model

STATES = ['standbyState', 'runningState', 'completeState', 'startTransition', 'endTransition', 'stopTransition']
VARS = [['vd', 'double', '1.0'], ['vi', 'integer', '1'], ['vs', 'string', 'a'], ['vb', 'boolean', 'false']]
PARS = [['pd', 'double', '1.0'], ['pi', 'integer', '1']]


def val(rng, n):
    return {'d': lambda: rng.choice([-1.0, 0.0, 0.5, 1.0, 2.0, 3.0]), 'i': lambda: rng.randint(-2, 4), 's': lambda: rng.choice(['a', 'b', 'c']),
            'b': lambda: rng.choice(['true', 'false'])}[n[1]]()


def make(rng):
    n = [0]

    def nid(p):
        n[0] += 1
        return f'{p}{n[0]}'
    nobj = rng.randint(1, 3)
    objs = []
    for i in range(nobj):
        o = dict(name=f'O{i}', kind='vehicle', perf=[100.0, 10000.0, 10000.0], init=[dict(k='teleport', pos=['lane', 1, -2, 20.0 + 30 * i, 0.0])])
        if rng.random() < .3:
            o['init'].append(dict(k='speed', v=r2(rng, 5, 15), dyn=['linear', 'time', r2(rng, .3, 2)]))
        else:
            o['init'].append(dict(k='speed', v=r2(rng, 5, 15), dyn=['step', 'time', 0.0]))
        objs.append(o)
    names = [o['name'] for o in objs]
    feats = {f: rng.random() < .6 for f in ('state', 'edge', 'delay', 'multi', 'stop', 'gmax', 'emax', 'lat', 'hold')}
    refs, stories = [], []
    for _ in range(rng.randint(1, 2)):
        S = dict(name=nid('S'), acts=[])
        refs.append(('story', S['name']))
        for _ in range(rng.randint(1, 2)):
            A = dict(name=nid('A'), groups=[])
            refs.append(('act', A['name']))
            for _ in range(rng.randint(1, 2)):
                G = dict(name=nid('G'), mans=[], max=rng.choice([1, 2, 3]) if feats['gmax'] else 1)
                G['actors'] = [rng.choice(names)] if rng.random() < .8 else sorted(set([rng.choice(names), rng.choice(names)]))
                refs.append(('maneuverGroup', G['name']))
                for _ in range(rng.randint(1, 2)):
                    M = dict(name=nid('M'), events=[])
                    refs.append(('maneuver', M['name']))
                    for _ in range(rng.randint(1, 3)):
                        E = dict(name=nid('E'), prio=rng.choice(['parallel', 'override', 'skip', 'overwrite']), max=rng.choice([None, 1, 2, 3]) if feats['emax'] else None, actions=[])
                        refs.append(('event', E['name']))
                        for _ in range(rng.choice([1, 1, 1, 2, 3]) if rng.random() > .03 else 0):
                            a = action(rng, nid('a'), feats, names)
                            E['actions'].append(a)
                            if len(G['actors']) == 1 or a['k'] in ('var', 'param'):
                                refs.append(('action', a['name']))
                        M['events'].append(E)
                    G['mans'].append(M)
                A['groups'].append(G)
            S['acts'].append(A)
        stories.append(S)

    def cond():
        c = dict(name=nid('c'), edge=rng.choice(['rising', 'falling', 'risingOrFalling', 'none']) if feats['edge'] and rng.random() < .6 else 'none',
                 delay=rng.choice([0.05, 0.1, 0.3, 0.75]) if feats['delay'] and rng.random() < .3 else 0)
        k = rng.choice(['time', 'var', 'var', 'param'] + (['state'] * 3 if feats['state'] else []))
        c['k'] = k
        if k == 'time':
            c['v'], c['rule'] = r2(rng, 0, 3, 1), rng.choice(['greaterThan', 'greaterOrEqual', 'greaterThan'] + RULES)
        elif k == 'state':
            c['et'], c['ref'] = rng.choice(refs)
            c['state'] = rng.choice(STATES)
        else:
            c['p'] = rng.choice(VARS if k == 'var' else PARS)[0]
            c['v'], c['rule'] = val(rng, c['p']), rng.choice(RULES)
        return c

    def trig():
        return [[cond() for _ in range(rng.choice([1, 1, 2, 3]) if feats['multi'] else 1)] for _ in range(rng.choice([1, 1, 2]) if feats['multi'] else 1)]
    for s in stories:
        for a in s['acts']:
            a['start'] = rng.choice([None, [], [[dict(k='time', name=nid('c'), v=0.0, rule='greaterOrEqual')]], trig()])
            if feats['stop'] and rng.random() < .4:
                a['stop'] = trig()
            for g in a['groups']:
                for mn in g['mans']:
                    for e in mn['events']:
                        e['start'] = None if rng.random() < .1 else trig()
    m = dict(road=dict(kind='flat', length=500.0), vars=VARS, params=PARS, objects=objs, stories=stories)
    if feats['stop'] and rng.random() < .2:
        m['stop'] = trig()
    return m


def action(rng, name, feats, names):
    k = rng.choice(['var', 'var', 'param', 'speed', 'speed', 'speed'] + (['lanechange', 'lanechange', 'traj'] if feats['lat'] else []))
    a = dict(k=k, name=name)
    if k in ('var', 'param'):
        a['p'] = rng.choice(VARS if k == 'var' else PARS)[0]
        if k == 'param' or a['p'] in ('vs', 'vb') or rng.random() < .4:
            a['v'] = val(rng, a['p'])
        elif rng.random() < .6:
            a['add'] = rng.choice([1.0, -1.0, 2.0, 0.5])
        else:
            a['mul'] = rng.choice([2.0, -1.0, 0.5])
    elif k == 'speed':
        if feats['hold'] and rng.random() < .25:
            a.update(rel=rng.choice(names), v=1.0, vt='factor', cont=True, dyn=['linear', 'time', 0.2])
        else:
            a['v'] = r2(rng, 5, 20)
            a['dyn'] = ['step', 'time', 0.0] if rng.random() < .2 else ['linear', 'time', rng.choice([0.05, 0.1, 0.25, 0.5, 1.0])]
    elif k == 'lanechange':
        a['v'] = rng.choice([-1, -3])
        a['dyn'] = ['linear', 'distance', 20000.0]
    elif k == 'traj':
        a['verts'] = [[0.0, ['world', 30.0, -5.25, 0.0, 0.0]], [1.0, ['world', 250.0, -5.25, 0.0, 0.0]], [2.0, ['world', 499.0, -5.25, 0.0, 0.0]]]
        a['mode'] = 'position'
    return a


class P(Prop):
    ID = 'C10'
    VARIANTS = ('plain',)
    QUICK = 8000
    RULE = 'distinct: storyboard histories (order of element state changes and condition callbacks per step) with at least 3 state changes'

    def gen(self, rng, tier, i):
        m = make(rng)
        ops = []
        dt0 = rng.choice([0.01, 0.05, 0.1])
        vary = rng.random() < .4
        t = 0.0
        for _ in range(rng.randint(5, 60)):
            x = rng.random()
            if x < .35:
                p = rng.choice(VARS)
                ops.append(f'svar {p[0][1]} {p[0]} {val(rng, p[0])}')
            elif x < .42:
                p = rng.choice(PARS)
                ops.append(f'spar {p[0][1]} {p[0]} {val(rng, p[0])}')
            dt = rng.choice([0.001, 0.01, 0.05, 0.1, 0.3]) if vary and rng.random() < .5 else dt0
            if vary and rng.random() < .03:
                dt = 0.0
            if t + dt > 6:
                break
            t += dt
            ops.append(f'step {dt!r}')
        return dict(model=m, ops=ops, _shrink=['ops', 'objects', 'stories', 'acts', 'groups', 'mans', 'events', 'actions', 'start', 'stop'], _drop=['stop'])

    def runs(self, case):
        return [Run('\n'.join(gen.files(case['model']) + ['snapmode b', 'args esmini --osc s.xosc --headless --disable_stdout', 'cb'] + case['ops'] + ['gvar d vd', 'gvar i vi', 'gvar s vs', 'gvar b vb', 'gpar d pd', 'gpar i pi', 'close']) + '\n')]

    def judge(self, case, res):
        r = res[0]
        if r.ended() != 'ok':
            return [V('ended', r.ended() + ' ' + r.san[:200])]
        tr = Trace(r.text)
        try:
            sb = story_model.Storyboard(case['model'])
        except KeyError:
            return []   # minimised to a dangling reference
        if not tr.frames:
            return [V('init', 'the scenario was not loaded')]
        return compare(case, tr, sb)

    def stats(self, case, res):
        tr = Trace(res[0].text)
        ev = tuple((e[0], e[1] if e[0] == 'N' else (e[4], e[2]), e[-1]) for e in tr.ev)
        tags = sorted({'el:' + str(e[1]) + ':' + str(e[2]) for e in tr.ev if e[0] == 'E'})
        if any(e[0] == 'N' for e in tr.ev):
            tags.append('cond')
        return dict(sig=ev if len(ev) >= 3 else None, tags=tags, simtime=tr.frames[-1].t if tr.frames else 0)


def norm(l):
    """per element sequence of states, per condition number of callbacks"""
    d = {}
    for e in l:
        if e[0] == 'E':
            d.setdefault(('element', e[1]), []).append(e[2])
        else:
            d.setdefault(('condition', e[1]), []).append(round(e[2], 9))
    return d


def dup_ok(paths, a, b):
    for k in set(a) | set(b):
        x, y = a.get(k, []), b.get(k, [])
        if k in paths:
            x, y = sorted(x), sorted(y)
        if x != y:
            return k, x, y
    return None


def compare(case, tr, sb):
    m = case['model']
    multi = set()

    def walk(e):
        seen = set()
        for c in e.children:
            if c.name in seen:
                multi.add(('element', c.path))
            seen.add(c.name)
            walk(c)
    walk(sb)
    got = {}
    for e in tr.ev:
        got.setdefault(e[-1], []).append(('E', e[4], e[2]) if e[0] == 'E' else ('N', e[1], e[2]))
    sb.frame(0.0, 0.0, True)
    if sb.state != story_model.RUNNING:
        return []   # stopped before the first step: not covered
    t = 0.0
    fi = 0
    for op in case['ops']:
        f = op.split()
        if f[0] == 'svar' or f[0] == 'spar':
            st = sb.vars if f[0] == 'svar' else sb.params
            st[f[2]] = (st[f[2]][0], story_model.conv(st[f[2]][0], f[3]))
            continue
        dt = float(f[1])
        fi += 1
        want = sb.frame(t, dt)
        d = dup_ok(multi, norm(got.get(fi, [])), norm(want))
        if d:
            (kind, name), x, y = d
            return [V(kind, f'step {fi} at time {t:.3f}: {kind} {name} reported {x} expected {y}')]
        if sb.state == story_model.RUNNING:
            t += dt
        if fi < len(tr.frames) and abs(tr.frames[fi].t - t) > 1e-6:
            return [V('time', f'step {fi}: simulation time {tr.frames[fi].t} expected {t}')]
        if fi < len(tr.frames) and bool(tr.frames[fi].quit) != (sb.state != story_model.RUNNING):
            return [V('quit', f'step {fi}: quit flag {tr.frames[fi].quit}, storyboard state {sb.state}')]
    for x in tr.x:
        if x[0] in ('gvar', 'gpar'):
            ty, v = (sb.vars if x[0] == 'gvar' else sb.params)[x[1]]
            g = story_model.conv(ty, x[3] if ty != 'boolean' else ('true' if x[3] == '1' else 'false'))
            if ty == 'double' and abs(g - v) > 1e-5 or ty != 'double' and g != v:
                return [V('value', f'{x[0][1:]} {x[1]} is {g} expected {v}')]
    return []


PROP = P
