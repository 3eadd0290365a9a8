"""C03: a finished recording reproduces every object state of the run, step by step."""
from vsim import gen, osc
from vsim.core import Prop, Run, V
from vsim.client import esc
from vsim.trace import Trace

TOL = 2e-6


def csv_rows(text):
    rows = []
    lines = text.split('\n')
    for l in lines[1:]:
        f = [x.strip() for x in l.split(',')]
        if len(f) < 17:
            continue
        rows.append((float(f[0]), int(f[1]), f[2], [float(x) for x in f[3:9]], int(f[9]), int(f[10]), [float(x) for x in f[11:17]]))
    return rows


class P(Prop):
    ID = 'C03'
    VARIANTS = ('plain',)
    QUICK = 4000
    RULE = 'distinct: trace digests of runs that recorded at least 3 timesteps and whose recording was read back'

    def gen(self, rng, tier, i):
        m = gen.rich_model(rng, nobj=(1, 5))
        if rng.random() < .25:
            gen.add_controllers(rng, m, [c for c in gen.CTRLS if c != 'FollowGhostController'])
        calls = gen.rich_calls(rng, m, rng.randint(3, 40)) if rng.random() < .6 else still(rng, m)
        return dict(model=m, calls=calls, _shrink=['calls', 'events', 'objects', 'stories', 'acts', 'groups', 'mans', 'actions'])

    def runs(self, case):
        plan = gen.files(case['model']) + ['seed 7', 'snapmode bml', 'args esmini --osc s.xosc --headless --disable_stdout --record sim.dat --collision']
        plan += case['calls'] + ['close', 'mark dat', 'app dat2csv --file sim.dat --extended --precision 17', 'datdump sim.dat']
        return [Run('\n'.join(plan) + '\n', want=['sim.csv'])]

    def judge(self, case, res):
        r = res[0]
        if r.ended() != 'ok':
            return [V('ended', r.ended() + ' ' + r.stdout.decode(errors='replace')[-200:])]
        tr = Trace(r.text)
        if not tr.frames:
            return []
        if r.files['sim.csv'] is None:
            return [V('nocsv', 'the recording could not be converted')]
        rows = csv_rows(r.files['sim.csv'].decode('latin-1'))
        d = [f for f in tr.dump if f[0] == 'Q']
        if len(d) != len(rows):
            return [V('readers', f'the converted recording has {len(rows)} samples, the reader delivers {len(d)}')]
        if len(d) != len(tr.dump):
            return [V('seek', 'the reader delivers another state when moving backwards or jumping: ' + ' '.join(next(f for f in tr.dump if f[0] == 'QX')))]
        return compare(tr.frames, [r + ((f[3:14], f[14:f.index('/')]),) for r, f in zip(rows, d)])


def still(rng, m):
    """an external object of which single state components change, one or few at a time, possibly back to an earlier value"""
    k = len(m['objects'])
    pos = [gen.r2(rng, 0, 200), gen.r2(rng, -8, 8), 0.0, 0.0, 0.0, 0.0]
    wheel = [0.0, 0.0]
    ops = [f'add P0 1 {rng.choice([0, 1, 2])} 0 {rng.choice([0, 1, -1])}', f'rpos {k} ' + ' '.join(map(str, pos)), f'rspeed {k} 0']
    dts = [rng.choice([0.01, 0.05, 0.1]), rng.choice([0.001, 0.2, 0.033])]
    for _ in range(rng.randint(4, 40)):
        ops.append(f'step {rng.choice(dts) if rng.random() < .3 else dts[0]}')
        x = rng.random()
        if x < .45:
            j = rng.randrange(6)
            pos[j] = round(pos[j] + rng.choice([-1, 1, 2]) * [1.0, 0.5, 0.25, 0.1, 0.05, 0.05][j] * rng.choice([1, 1, .01]), 5) if rng.random() < .7 else [pos[0], pos[1], 0, 0, 0, 0][j]
            ops.append(f'rpos {k} ' + ' '.join(map(str, pos)))
        elif x < .6:
            wheel[rng.randrange(2)] = gen.r2(rng, -1, 1) if rng.random() < .7 else 0.0
            ops.append(f'rwheel {k} {wheel[0]} {wheel[1]}')
        elif x < .7:
            ops.append(f'rspeed {k} {rng.choice([0, 0, gen.r2(rng, 0, 20)])}')
        elif x < .73:
            ops.append(f'del {k}')
    return ops


META = 'name type category controller bbx bby bbz width length height visibility'.split()
NAMES = 'x y z h p r offset t s speed wheel_angle wheel_rot'.split()


def vals(o):
    return [o.x, o.y, o.z, o.h, o.p, o.r, o.off, o.tt, o.s, o.speed, o.wa, o.wr]


def near(x, y, tol=TOL):
    return abs(x - y) <= tol * max(1.0, abs(y))


def differ(f, g):
    """first difference between a simulated frame and the recorded rows of one time, or None"""
    for oid, o in f.objs.items():
        if oid not in g:
            return 'missing-object', f'object {oid} is not in the recording'
        row = g[oid]
        for n, x, y in zip(NAMES, row[3] + row[6], vals(o)):
            if not near(x, y):
                return 'value:' + n, f'object {oid}: {n} recorded {x} simulated {y}'
        if (row[4], row[5]) != (o.road, o.lane):
            return 'value:road', f'object {oid}: road/lane recorded {row[4]}/{row[5]} simulated {o.road}/{o.lane}'
        if len(row) > 7:
            meta, lights = row[7]
            for n, x, y in zip(META, meta, o.meta):
                if x != y:
                    return 'value:' + n, f'object {oid}: {n} recorded {x} simulated {y}'
            for k, (x, y) in enumerate(zip(lights or ['-1'] * len(o.lights), o.lights)):
                if y != '0:3' and x != y.split(':')[1]:     # 3: never set
                    return 'value:light', f'object {oid}: light {k} recorded {x} simulated {y}'
    for oid in g:
        if oid not in f.objs:
            return 'extra-object', f'object {oid} only in the recording'
    return None


def changed(f, p):
    if set(f.objs) != set(p.objs):
        return True
    for oid, o in f.objs.items():
        q = p.objs[oid]
        if (o.road, o.lane) != (q.road, q.lane) or any(not near(a, b) for a, b in zip(vals(o), vals(q))) or (o.meta or [])[:11] != (q.meta or [])[:11] or o.lights != q.lights:
            return True
    return False


def compare(frames, rows):
    """frames: what the host saw; several frames with one time (zero-length steps, steps after the end) count as alternatives.
    A step in which nothing changed need not be a row of its own."""
    groups = []  # [time, [frames]]
    for f in frames:
        if groups and abs(groups[-1][0] - f.t) < 1e-9:
            groups[-1][1].append(f)
        else:
            groups.append([f.t, [f]])
    got = []
    for row in rows:
        if got and row[0] == got[-1][0]:
            got[-1][1][row[1]] = row
        else:
            got.append([row[0], {row[1]: row}])
    out = []
    gi = 0
    seen = set()
    for t, g in got:
        while gi + 1 < len(groups) and groups[gi + 1][0] <= t + TOL:
            gi += 1
        if t < groups[0][0] - TOL:
            out.append(V('extra-step', f'recorded time {t} lies before the start'))
            continue
        ds = [differ(f, g) for f in groups[gi][1]]
        if all(d is not None for d in ds):
            out.append(V(ds[0][0], f'at {t}: ' + ds[0][1]))
        if abs(groups[gi][0] - t) < TOL:
            seen.add(gi)
        elif t > groups[-1][0] + TOL:
            out.append(V('extra-step', f'recorded time {t} lies after the end'))
    for k, (t, fs) in enumerate(groups):
        if k in seen or any(not f.objs for f in fs):      # without objects there are no rows
            continue
        if k == 0 or all(changed(f, groups[k - 1][1][-1]) for f in fs):
            out.append(V('missing-step', f'step at time {t} changed the state but is not in the recording'))
    return out[:20]


PROP = P
