"""C21: the csv log has one whole line per simulated step, with the states of that step."""
import hashlib
from vsim import gen
from vsim.core import Prop, Run, V
from vsim.trace import Trace
from props.c03 import still

NAMES = 'speed wheel_angle wheel_rot bbx bby bbz length width height x y z vx vy vz ax ay az s t lane offset h hrate hrel hdrive pitch curvature'.split()
LOSS = ('w:enospc', 'w:eio', 'w:openfail')


def expected(o):
    m = o.meta
    return dict(speed=o.speed, wheel_angle=o.wa, wheel_rot=o.wr, bbx=float(m[4]), bby=float(m[5]), bbz=float(m[6]), width=float(m[7]), length=float(m[8]), height=float(m[9]),
                x=o.x, y=o.y, z=o.z, vx=o.k[0], vy=o.k[1], vz=o.k[2], ax=o.k[3], ay=o.k[4], az=o.k[5], s=o.s, t=o.tt, lane=o.lane, offset=o.off, h=o.h, hrate=o.k[6], pitch=o.p)


def line_differs(l, k, f):
    """first difference between a line of the log and a frame, or None"""
    c = [x.strip() for x in l.split(',')]
    if c[-1] != '':
        return 'malformed', f'line {k} does not end with its last field: {l[-60:]!r}'
    c.pop()
    if len(c) != 2 + 31 * len(f.order):
        return 'fields', f'line {k} has {len(c)} fields for {len(f.order)} objects'
    if int(c[0]) != k:
        return 'index', f'line {k} has index {c[0]}'
    if abs(float(c[1]) - f.t) > 2e-6:
        return 'time', f'line {k} has time {c[1]}, the step ended at {f.t}'
    for j, oid in enumerate(f.order):
        o, g = f.objs[oid], c[2 + 31 * j:33 + 31 * j]
        if int(g[1]) != oid:
            return 'object', f'line {k}: object {g[1]} in place of {oid}'
        if g[0] != o.meta[0]:
            return 'name', f'line {k}: object {oid} is called {g[0]!r} instead of {o.meta[0]!r}'
        e = expected(o)
        for n, x in zip(NAMES, g[2:30]):
            if n in e and abs(float(x) - e[n]) > 2e-6 * max(1.0, abs(e[n])):
                return 'value:' + n, f'line {k} (t={f.t}): object {oid} has {n} {x} instead of {e[n]}'
        if sorted(map(int, g[30].split())) != sorted(o.col):
            return 'collisions', f'line {k} (t={f.t}): object {oid} collides with [{g[30]}] instead of {o.col}'
    return None


class P(Prop):
    ID = 'C21'
    VARIANTS = ('plain',)
    QUICK = 3000
    RULE = 'distinct: logs of at least four lines'

    def gen(self, rng, tier, i):
        sess = []
        for k in range(rng.choice([1, 1, 2])):
            m = gen.rich_model(rng, nobj=(1, 4))
            if rng.random() < .2:
                gen.add_controllers(rng, m, [c for c in gen.CTRLS if c != 'FollowGhostController'])
            calls = gen.rich_calls(rng, m, rng.randint(3, 25)) if rng.random() < .8 else still(rng, m)
            if rng.random() < .15:       # all objects leave
                j = rng.randint(0, len(calls))
                calls = calls[:j] + [f'del {n}' for n in range(len(m['objects']) + 4)] + calls[j:]
            fault = None
            if rng.random() < .5:
                kind = rng.choice(['w:enospc', 'w:eio', 'w:short', 'w:eintr', 'w:crash', 'w:crash', 'w:openfail'])
                f = rng.choice(['out.csv', 'sim.dat']) if kind == 'w:crash' else 'out.csv'
                fault = [kind, f, rng.choice([0, rng.randint(0, 4000), rng.randint(0, 20000)]), rng.choice([1, 2, 7, 100]), rng.choice([0, 1])]
            sess.append(dict(model=m, calls=calls, fault=fault, same=rng.random() < .5, log=rng.random() < .9))
        return dict(sess=sess, _shrink=['sess', 'calls', 'events', 'objects', 'stories', 'acts', 'groups', 'mans', 'actions'])

    def runs(self, case):
        p, want = [], []
        for k, s in enumerate(case['sess']):
            if not s.get('model'):
                continue
            p += gen.files(s['model'])
            if s['fault']:
                f = s['fault']
                p.append(f'frule {f[0]} s{k}_{f[1]} {f[2]} {f[3]} {f[4]}')
            p += [f'mark session{k}', 'seed 7', 'snapmode bkcm', f'args esmini --osc s.xosc --headless --disable_stdout --collision' + f' --csv_logger s{k}_out.csv' * s['log'] + f' --record s{k}_sim.dat' * bool(s['fault'] and s['fault'][1] == 'sim.dat')]
            p += s['calls'] + ['close', 'fclear']
            want.append(f's{k}_out.csv')
        return [Run('\n'.join(p) + '\n', want=want)]

    def judge(self, case, res):
        r = res[0]
        crash = any(s.get('fault') and s['fault'][0] == 'w:crash' for s in case['sess'])
        if r.ended() != 'ok' and not (crash and r.ended() == 'crashed'):
            return [V('ended', r.ended() + ' ' + r.stdout.decode(errors='replace')[-200:])]
        tr = Trace(r.text)
        cut = {int(n[7:]): at for n, at in tr.marks if n.startswith('session')}
        for k, s in enumerate(case['sess']):
            if k not in cut:
                continue
            a, b = cut[k], min([x for j, x in cut.items() if j > k] or [len(tr.frames)])
            frames = [f for f in tr.frames[a:b]]
            died = r.ended() == 'crashed' and max(cut) == k
            data = r.files[f's{k}_out.csv']
            if not s['log']:
                if data is not None:
                    return [V('uncalled', f'session {k} wrote a csv log without being asked')]
                continue
            v = self.log(s, data, frames, died)
            if v:
                return [V(v[0], f'session {k}: {v[1]}')]
        return []

    def log(self, s, data, frames, died):
        f = s['fault']
        lossy = f and f[0] in LOSS
        if data is None:
            return None if not frames or f else ('missing', 'no csv log')
        lines = data.decode('latin-1').split('\n')
        rest = lines.pop()
        if rest and not (lossy or died):
            return 'unfinished', f'the log ends with an unfinished line {rest[:80]!r}'
        if len(lines) < 7:
            return None if lossy or not frames else ('header', f'{len(lines)} lines for {len(frames)} steps')
        body = lines[7:]
        want = [g for g in frames if not g.quit]       # a step in which the storyboard is stopped already is not simulated
        for k, l in enumerate(body):
            if k >= len(want):
                if died and k == len(want):
                    break
                return 'extra', f'{len(body)} lines for {len(want)} steps'
            d = line_differs(l, k, want[k])
            if d and not (lossy and k == len(body) - 1):       # what was written half when the disk failed
                return d
        if len(body) < len(want) and not lossy:
            return 'lost', f'{len(body)} lines for {len(want)} steps' + (' completed before the crash' if died else '')
        return None

    def stats(self, case, res):
        st = super().stats(case, res)
        st.update(sig=None, tags=sorted({s['fault'][0] + ' ' + s['fault'][1] for s in case['sess'] if s.get('fault')}))
        tr = Trace(res[0].text)
        st['simtime'] = tr.frames[-1].t if tr.frames else 0
        logs = [d for d in res[0].files.values() if d and d.count(b'\n') > 10]
        if logs:
            st['sig'] = hashlib.md5(b''.join(x.split(b'\n', 7)[-1] for x in logs)).hexdigest()
        return st


PROP = P
