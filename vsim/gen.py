"""Seeded generators of scenarios and call sequences (swarm style: every case enables its own subset of features)."""
from . import osc
from .client import esc

RULES = ['greaterThan', 'lessThan', 'equalTo', 'greaterOrEqual', 'lessOrEqual', 'notEqualTo']
SHAPES = ['linear', 'cubic', 'sinusoidal', 'step']
ROADS = ['flat', 'flat', 'chain', 'curve', 'hill', 'cross']


def r2(rng, a, b, nd=2):
    return round(rng.uniform(a, b), nd)


def pick_road(rng, kinds=None, length=None):
    k = rng.choice(kinds or ROADS)
    return dict(kind=k, length=length or {'flat': 500.0, 'chain': 600.0, 'curve': 300.0, 'hill': 600.0, 'cross': 160.0}[k])


def lane_pos(rng, road, lane=None, smin=10.0, smax=220.0, off=True):
    lane = lane if lane is not None else rng.choice([-1, -2, -3, 1, 2])
    s = r2(rng, smin, smax)
    rid = 1
    if road['kind'] == 'chain':
        rid = rng.choice([1, 2, 3])
        s = r2(rng, 5, 180)
    elif road['kind'] == 'cross':
        rid = rng.choice([1, 2, 3, 4])
        s = r2(rng, 1, 120)
    o = r2(rng, -0.8, 0.8) if off and rng.random() < 0.3 else 0.0
    return ['lane', rid, lane, s, o]


def gen_object(rng, i, road, kinds=('vehicle', 'vehicle', 'vehicle', 'pedestrian', 'misc')):
    k = rng.choice(kinds)
    o = dict(name=f'O{i}', kind=k)
    if k == 'vehicle':
        o['cat'] = rng.choice(['car', 'truck', 'van', 'bus', 'motorbike', 'bicycle'])
        l, w = r2(rng, 2, 12), r2(rng, 0.6, 2.6)
        o['bb'] = [r2(rng, 0, 2), 0.0, r2(rng, 0.5, 1.5), w, l, r2(rng, 1, 3)]
        o['perf'] = [r2(rng, 40, 80), r2(rng, 3, 12), r2(rng, 5, 15)]
    else:
        o['bb'] = [0.1, 0.0, 0.9, r2(rng, 0.3, 1.5), r2(rng, 0.3, 1.5), 1.8]
    o['init'] = [dict(k='teleport', pos=lane_pos(rng, road))]
    if k != 'misc':
        o['init'].append(dict(k='speed', v=rng.choice([0.0, r2(rng, 0.5, 5), r2(rng, 5, 40)]), dyn=['step', 'time', 0.0]))
    return o


def gen_action(rng, names, me, road, kinds, n):
    """n: unique suffix"""
    k = rng.choice(kinds)
    others = [x for x in names if x != me] or [me]
    a = dict(k=k, name=f'a{n}')
    if k == 'speed':
        a['v'] = r2(rng, 0, 40)
        sh = rng.choice(SHAPES)
        dim = rng.choice(['time', 'rate', 'distance'])
        a['dyn'] = [sh, dim, 0.0 if sh == 'step' else r2(rng, 0.5, 4) if dim != 'distance' else r2(rng, 5, 60)]
        if rng.random() < 0.2:
            a['rel'] = rng.choice(others)
            a['v'] = r2(rng, -3, 5)
            a['dyn'] = ['step' if rng.random() < .5 else 'linear', 'time', r2(rng, 0.5, 3)]
    elif k == 'lanechange':
        a['v'] = rng.choice([-1, -2, -3])
        a['dyn'] = [rng.choice(SHAPES[:3]), rng.choice(['time', 'time', 'distance']), r2(rng, 0.5, 5)]
        if a['dyn'][1] == 'distance':
            a['dyn'][2] = r2(rng, 5, 80)
        if rng.random() < 0.3:
            a['off'] = r2(rng, -0.5, 0.5)
        if rng.random() < 0.25:
            a['rel'] = me
            a['v'] = rng.choice([-1, 1])
    elif k == 'laneoffset':
        a['v'] = r2(rng, -1.2, 1.2)
        a['acc'] = r2(rng, 0.2, 3)
        a['shape'] = rng.choice(SHAPES)
        a['cont'] = rng.random() < 0.2
    elif k == 'teleport':
        a['pos'] = rng.choice([lane_pos(rng, road), ['world', r2(rng, 0, 200), r2(rng, -8, 8), 0.0, r2(rng, 0, 6.2)],
                               ['rellane', rng.choice(others), rng.choice([0, 0, 1, -1]), r2(rng, -20, 40), 0.0],
                               ['relobj', rng.choice(others), r2(rng, -20, 40), r2(rng, -4, 4), 0.0]])
    elif k == 'visibility':
        a['v'] = [rng.random() < .5 for _ in range(3)]
    elif k == 'light':
        a['lt'] = rng.choice(['brakeLights', 'indicatorLeft', 'indicatorRight', 'lowBeam', 'highBeam', 'fogLights', 'warningLights'])
        a['mode'] = rng.choice(['on', 'off', 'flashing'])
        if a['mode'] == 'flashing':
            a['off'], a['on'] = r2(rng, 0.1, 1), r2(rng, 0.1, 1)
    elif k == 'profile':
        e = [[r2(rng, 0, 30), r2(rng, 0.5, 3)] for _ in range(rng.randint(1, 4))]
        if rng.random() < .25:       # times left out, speeds repeated
            e = [[e[max(0, j - 1)][0] if rng.random() < .3 else v, None if rng.random() < .5 else t] for j, (v, t) in enumerate(e)]
        a['entries'] = e
        a['mode'] = rng.choice(['position', 'follow'])
        a['dc'] = [5.0, 10.0, 6.0, 10.0, 60.0]
    elif k == 'longdist':
        a['rel'] = rng.choice(others)
        a['d'] = r2(rng, 5, 50)
        a['fs'] = rng.random() < .5
        a['cont'] = rng.random() < .5
        if rng.random() < .6:
            a['dc'] = [r2(rng, 2, 8), r2(rng, 2, 8), 60.0]
    elif k == 'traj':
        x, y, t = r2(rng, 0, 100), r2(rng, -6, 0), 0.0
        vs = []
        for _ in range(rng.randint(2, 5)):
            vs.append([t, ['world', x, y, 0.0, 0.0]])
            x += r2(rng, 3, 30)
            y = r2(rng, -6, 0)
            t = round(t + r2(rng, 0.3, 2), 2)
        a['verts'] = vs
        a['timing'] = rng.choice([None, ['relative', 1.0, 0.0], ['absolute', 1.0, r2(rng, 0, 2)]])
        a['mode'] = rng.choice(['position', 'follow'])
    elif k == 'delete':
        a['e'] = rng.choice(names)
    elif k == 'addent':
        a['e'] = rng.choice(names)
        a['pos'] = lane_pos(rng, road)
    elif k == 'var':
        a['p'] = 'vd'
        if rng.random() < .5:
            a['v'] = r2(rng, -5, 5)
        elif rng.random() < .5:
            a['add'] = r2(rng, -2, 2)
        else:
            a['mul'] = r2(rng, -2, 2)
    elif k == 'param':
        a['p'] = 'pd'
        a['v'] = r2(rng, -5, 5)
    elif k == 'assign':
        a['ctrl'] = dict(type='ACCController', name='acc', props=[('timeGap', '1.0'), ('mode', 'override'), ('setSpeed', str(r2(rng, 5, 30)))])
        a['lat'], a['lon'] = False, True
    elif k == 'acquire':
        a['pos'] = lane_pos(rng, road, smin=200, smax=280)
    return a


def gen_condition(rng, names, road, kinds, n, tmax, refs):
    k = rng.choice(kinds)
    c = dict(k=k, name=f'c{n}', edge=rng.choice(['none', 'none', 'rising', 'falling', 'risingOrFalling']) if rng.random() < .4 else 'none',
             delay=r2(rng, 0, 1) if rng.random() < .2 else 0)
    others = lambda me: [x for x in names if x != me] or [me]
    if k == 'time':
        c['v'], c['rule'] = r2(rng, 0, tmax), rng.choice(RULES[:1] + RULES)
    elif k == 'state':
        et, ref = rng.choice(refs)
        c['et'], c['ref'] = et, ref
        c['state'] = rng.choice(['startTransition', 'endTransition', 'runningState', 'completeState', 'standbyState'])
    elif k == 'var':
        c['p'], c['v'], c['rule'] = 'vd', r2(rng, -3, 3), rng.choice(RULES)
    elif k == 'param':
        c['p'], c['v'], c['rule'] = 'pd', r2(rng, -3, 3), rng.choice(RULES)
    else:
        me = rng.choice(names)
        c['ents'] = [me]
        if rng.random() < .3:
            c['ents'] = list(names)
            c['any'] = rng.choice(['any', 'all'])
        c['rule'] = rng.choice(RULES[:2])
        if k == 'speed':
            c['v'] = r2(rng, 0, 30)
        elif k == 'acc':
            c['v'] = r2(rng, 0, 4)
        elif k == 'relspeed':
            c['rel'], c['v'] = rng.choice(others(me)), r2(rng, -10, 10)
        elif k == 'reach':
            c['pos'], c['tol'] = lane_pos(rng, road), r2(rng, 1, 10)
        elif k == 'dist':
            c['pos'], c['v'], c['fs'] = lane_pos(rng, road), r2(rng, 1, 80), rng.random() < .5
        elif k == 'reldist':
            c['rel'], c['v'], c['fs'] = rng.choice(others(me)), r2(rng, 1, 60), rng.random() < .5
            c['rdt'] = rng.choice(['longitudinal', 'lateral', 'cartesianDistance'])
        elif k in ('headway', 'ttc'):
            c['rel'], c['v'], c['fs'] = rng.choice(others(me)), r2(rng, 0.2, 5), rng.random() < .5
        elif k == 'travel':
            c['v'] = r2(rng, 1, 80)
        elif k == 'standstill':
            c['v'] = r2(rng, 0, 2)
        elif k == 'collision':
            c['rel'] = rng.choice(others(me))
        elif k in ('offroad', 'endofroad'):
            c['v'] = r2(rng, 0, 1)
    return c


ALL_ACTIONS = ['speed', 'lanechange', 'laneoffset', 'teleport', 'visibility', 'light', 'profile', 'longdist', 'traj', 'delete',
               'addent', 'var', 'param', 'assign', 'acquire']
ALL_CONDS = ['time', 'state', 'var', 'param', 'speed', 'acc', 'relspeed', 'reach', 'dist', 'reldist', 'headway', 'ttc', 'travel',
             'standstill', 'collision', 'offroad', 'endofroad']
VEHICLE_ONLY = {'light', 'assign', 'profile', 'longdist'}


def rich_model(rng, nobj=(1, 4), actions=None, conds=None, roads=None, tmax=4.0, stop_p=0.15):
    road = pick_road(rng, roads)
    m = dict(road=road, params=[['pd', 'double', '1.0']], vars=[['vd', 'double', '1.0']])
    n = rng.randint(*nobj)
    objs = [gen_object(rng, 0, road, ('vehicle',))] + [gen_object(rng, i, road) for i in range(1, n)]
    m['objects'] = objs
    names = [o['name'] for o in objs]
    movers = [o['name'] for o in objs if o['kind'] != 'misc']
    vehicles = [o['name'] for o in objs if o['kind'] == 'vehicle']
    pool_a = list(actions or ALL_ACTIONS)
    rng.shuffle(pool_a)
    pool_a = pool_a[:rng.randint(2, len(pool_a))]
    pool_c = list(conds or ALL_CONDS)
    rng.shuffle(pool_c)
    pool_c = pool_c[:rng.randint(2, len(pool_c))] + ['time', 'time']
    # refs must name existing elements: build names first
    ns = rng.randint(1, 2)
    cnt = [0]

    def nid():
        cnt[0] += 1
        return cnt[0]
    stories, refs = [], []
    for s in range(ns):
        acts = []
        for a in range(rng.randint(1, 2)):
            groups = []
            for g in range(rng.randint(1, 2)):
                mans = []
                for mn in range(rng.randint(1, 2)):
                    evs = []
                    for e in range(rng.randint(1, 3)):
                        evs.append(dict(name=f'E{nid()}'))
                        refs.append(('event', evs[-1]['name']))
                    mans.append(dict(name=f'M{nid()}', events=evs))
                groups.append(dict(name=f'G{nid()}', mans=mans, max=rng.choice([1, 1, 1, 2, 3])))
                refs.append(('maneuverGroup', groups[-1]['name']))
            acts.append(dict(name=f'A{nid()}', groups=groups))
            refs.append(('act', acts[-1]['name']))
        stories.append(dict(name=f'S{nid()}', acts=acts))

    def trig():
        return [[gen_condition(rng, names, road, pool_c, nid(), tmax, refs) for _ in range(rng.choice([1, 1, 1, 2]))]
                for _ in range(rng.choice([1, 1, 2]))]
    for st in stories:
        for a in st['acts']:
            a['start'] = None if rng.random() < .3 else [[dict(k='time', name=f'c{nid()}', v=rng.choice([0.0, r2(rng, 0, tmax / 2)]), rule='greaterOrEqual')]]
            if rng.random() < .25:
                a['stop'] = trig()
            for g in a['groups']:
                actor = rng.choice(movers)
                g['actors'] = [actor] if rng.random() < .85 else list(set([actor, rng.choice(movers)]))
                g['actors'].sort()
                ok = [k for k in pool_a if (k not in VEHICLE_ONLY or all(x in vehicles for x in g['actors']))] or ['speed']
                for mn in g['mans']:
                    for e in mn['events']:
                        e['prio'] = rng.choice(['parallel', 'override', 'skip', 'overwrite'])
                        e['max'] = rng.choice([None, 1, 2, 3])
                        e['start'] = None if rng.random() < .2 else trig()
                        e['actions'] = [gen_action(rng, names, actor, road, ok, nid()) for _ in range(rng.choice([1, 1, 2]))]
    m['stories'] = stories
    if rng.random() < stop_p:
        m['stop'] = [[dict(k='time', name=f'c{nid()}', v=r2(rng, tmax / 2, tmax), rule='greaterThan')]]
    return m


def rich_calls(rng, m, n, feat=None, dts=(0.01, 0.05, 0.1, 0.001, 0.2, 0.033)):
    """a sequence of API calls: steps of varying size mixed with the other calls a host makes"""
    feats = ['ext', 'inject', 'var', 'sensor', 'report'] if feat is None else feat
    on = {f for f in feats if rng.random() < .4}
    vary = rng.random() < .5
    dt0 = rng.choice(dts)
    nobj = len(m['objects'])
    ids = list(range(nobj))
    ops = []
    ext = 0
    if 'sensor' in on:
        ops.append(f'sensor 0 {r2(rng, 0, 3)} 0 0.5 {r2(rng, -0.5, 0.5)} 1 {r2(rng, 10, 60)} {r2(rng, 0.3, 3)} 10')
    for _ in range(n):
        dt = rng.choice(dts) if vary and rng.random() < .3 else dt0
        if rng.random() < .04:
            dt = 0.0
        k = rng.choice([1, 1, 2, 5])
        ops += [f'step {dt!r}'] * k
        x = rng.random()
        if 'ext' in on and x < .12:
            if ext < 4 and rng.random() < .6:
                ops.append(f'add X{ext} 1 {rng.choice([0, 1, 2])} 0 {rng.choice([0, 1, -1])}')
                ids.append(nobj + ext)
                ops.append(f'rpos {nobj + ext} {r2(rng, 0, 200)} {r2(rng, -8, 8)} 0 {r2(rng, 0, 6)} 0 0')
                ext += 1
            elif ext:
                ops.append(f'del {nobj + rng.randrange(ext)}')
        elif 'inject' in on and x < .24:
            i = rng.choice(ids[:nobj])
            y = rng.random()
            if y < .4:
                ops.append(f'ispeed {i} {r2(rng, 0, 30)} {rng.choice([0, 1, 2])} {rng.choice([1, 2])} {r2(rng, 0.5, 4)}')
            elif y < .7:
                ops.append(f'ilane {i} {rng.choice([0, 1])} {rng.choice([-1, -2])} {rng.choice([0, 1, 2])} 2 {r2(rng, 0.5, 4)}')
            else:
                ops.append(f'ioff {i} {r2(rng, -1, 1)} {r2(rng, 0.3, 2)} {rng.choice([0, 1, 2])}')
        elif 'var' in on and x < .34:
            ops.append(f'svar d vd {r2(rng, -4, 4)}')
        elif 'report' in on and x < .46:
            i = rng.choice(ids)
            ops.append(rng.choice([f'rpos {i} {r2(rng, 0, 200)} {r2(rng, -8, 8)} 0 {r2(rng, 0, 6)} 0 0',
                                   f'rspeed {i} {r2(rng, 0, 30)}', f'rxyh {i} {r2(rng, 0, 200)} {r2(rng, -8, 8)} {r2(rng, 0, 6)}',
                                   f'rlat {i} {r2(rng, -6, 0)}', f'rlatlane {i} {rng.choice([-1, -2])} {r2(rng, -1, 1)}']))
    return ops


def files(m):
    return [f'file road.xodr {esc(osc.road(**m["road"]))}', f'file s.xosc {esc(osc.scenario(m))}']


def swarm_model(rng):
    """swarm traffic around a central object, plus the usual story"""
    m = rich_model(rng, nobj=(1, 2), actions=['speed', 'lanechange', 'laneoffset'], roads=['flat', 'chain'])
    inner = r2(rng, 20, 60)
    off = r2(rng, 10, 40)
    m['swarm'] = dict(k='swarm', e='O0', a=round(inner + off + r2(rng, 20, 60), 2), b=round(inner + off + r2(rng, 10, 40), 2), inner=inner, off=off, n=rng.randint(1, 12), lo=10.0, hi=r2(rng, 12, 30), name='swa')
    m['objects'][0]['init'][0]['pos'] = ['lane', 1 if m['road']['kind'] == 'flat' else 2, -2, 100.0, 0.0]
    m['stories'].append(dict(name='Ssw', acts=[dict(name='Asw', start=None, groups=[dict(name='Gsw', actors=['O0'], mans=[dict(name='Msw', events=[dict(name='Esw', start=None, actions=[m['swarm']])])])])]))
    return m


CTRLS = ['ACCController', 'NaturalDriver', 'ALKSController', 'ALKS_R157SM_Controller', 'ECE_ALKS_RefDriverController', 'ExternalController', 'FollowGhostController',
         'FollowReferenceController', 'LoomingController', 'OffroadFollower', 'ControllerRel2Abs', 'SloppyDriverController', 'InteractiveController', 'FollowRouteController']


def gen_controller(rng, me, names, kinds):
    others = [x for x in names if x != me]
    k = rng.choice([c for c in kinds if others or c not in ('OffroadFollower', 'FollowReferenceController')])
    p = []
    if k in ('ACCController', 'LoomingController'):
        p = [('timeGap', str(r2(rng, 0.5, 2))), ('setSpeed', str(r2(rng, 5, 35)))]
        if k == 'ACCController':
            p.append(('mode', rng.choice(['override', 'additive'])))
    elif k == 'NaturalDriver':
        p = [('desiredSpeed', str(r2(rng, 10, 35))), ('desiredDistance', str(r2(rng, 5, 30))), ('lookAheadDistance', str(r2(rng, 30, 120))), ('laneChangeDuration', str(r2(rng, 1, 4)))]
    elif k == 'ALKS_R157SM_Controller':
        p = [('model', rng.choice(['Regulation', 'ReferenceDriver', 'RSS', 'FSM'])), ('cruise', rng.choice(['true', 'false'])), ('logLevel', '0')]
    elif k == 'ECE_ALKS_RefDriverController':
        p = [('logLevel', '0')]
    elif k == 'ExternalController':
        p = [('useGhost', 'false')]
    elif k == 'FollowGhostController':
        p = [('headstartTime', str(r2(rng, 0.5, 2.5))), ('followMode', rng.choice(['position', 'time']))]
    elif k == 'FollowReferenceController':
        p = [('referenceEntity', rng.choice(others))]
    elif k == 'OffroadFollower':
        p = [('followEntity', rng.choice(others)), ('targetDistance', str(r2(rng, 5, 20)))]
    elif k == 'SloppyDriverController':
        p = [('sloppiness', str(r2(rng, 0.1, 1)))]
    return dict(type=k, name=k, props=p)


def tame(rng, m, name):
    """Events of an object with a ghost restart the ghost unless they depend on time only, and each restart re-arms them: keep at most
    one of those, executed once, so that the ghost is not restarted for ever (known finding of C20)."""
    free = 1
    for st in m['stories']:
        for ac in st['acts']:
            for g in ac['groups']:
                if name not in g['actors']:
                    continue
                g['max'] = 1
                for mn in g['mans']:
                    for e in mn['events']:
                        e['prio'], e['max'] = 'parallel', 1
                        e['actions'] = [a for a in e['actions'] if a['k'] != 'teleport'] or [dict(k='speed', name=e['actions'][0]['name'], v=10.0, dyn=['linear', 'time', 1.0])]
                        conds = [q['k'] for z in e['start'] or [] for q in z]
                        if any(k != 'time' for k in conds):
                            if free and rng.random() < .5:
                                free = 0
                            else:
                                e['start'] = [[dict(k='time', name=e['start'][0][0]['name'], v=r2(rng, 0, 4), rule='greaterThan')]]


def add_controllers(rng, m, kinds=None, prob=.5):
    """give some vehicles controllers, activated at start or by an event, and an event that switches them"""
    kinds = kinds or CTRLS
    veh = [o for o in m['objects'] if o['kind'] == 'vehicle']
    names = [o['name'] for o in veh]
    evs = []
    for o in veh:
        if rng.random() > prob:
            continue
        c = gen_controller(rng, o['name'], names, kinds)
        if c['type'] == 'FollowGhostController':
            tame(rng, m, o['name'])
        o['ctrls'] = [c]
        act = lambda on, n: dict(k='activate', name=f'ca{o["name"]}{n}', ref=c['name'], lat=rng.choice([on, on, not on]), lon=on)
        if rng.random() < .6:
            a = act(True, 0)
            o['init'].append(a)
        for j in range(rng.choice([0, 1, 2])):
            evs.append((o['name'], dict(name=f'EC{o["name"]}{j}', prio='parallel', max=None, start=[[dict(k='time', name=f'cc{o["name"]}{j}', v=r2(rng, 0, 3), rule='greaterOrEqual')]],
                                        actions=[act(rng.random() < .5, j + 1)])))
    if evs:
        m['stories'].append(dict(name='SC', acts=[dict(name='AC', start=None, groups=[dict(name='G' + e['name'], actors=[n], max=1, mans=[dict(name='M' + e['name'], events=[e])])
                                                                                       for n, e in evs])]))
    return m
