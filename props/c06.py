"""C06: a vehicle under UDP control shows what the datagrams that arrived say, whatever the network does to the stream."""
import math, struct
from vsim import gen, osc
from vsim.client import esc
from vsim.core import Prop, Run, V
from vsim.trace import Trace

TOL = 1e-6


def pack(m):
    """m: dict(mode, id, n, ver, f=[floats], dr=0|1) -> bytes as the bundled clients send them"""
    mode = m['mode']
    head = struct.pack('<IIII', m.get('ver', 1), mode if 'badmode' not in m else m['badmode'], m['id'], m['n'])
    if mode == 1:
        b = struct.pack('<ddd', *m['f'])
    else:
        b = struct.pack('<%dd' % len(m['f']), *m['f']) + bytes([m['dr']])
    d = head + b
    if m.get('cut') is not None:
        d = d[:m['cut']]
    if m.get('pad'):
        d = d + b'\x55' * m['pad']
    return d


def valid(m, nobj):
    return m.get('ver', 1) == 1 and 'badmode' not in m and m['id'] < nobj and m.get('cut') is None


def elev(x):
    return 0.0 if x < 100 else 0.08 * (x - 100) if x < 400 else 24 - 0.05 * (x - 400)


def adiff(a, b):
    return abs((a - b + math.pi) % (2 * math.pi) - math.pi)


class P(Prop):
    ID = 'C06'
    VARIANTS = ('plain',)
    QUICK = 5000
    RULE = 'distinct: trace digests of runs in which at least two datagrams were consumed'

    def gen(self, rng, tier, i):
        nv = rng.randint(1, 3)
        kind = rng.choice(['flat', 'flat', 'hill'])
        veh = []
        for v in range(nv):
            veh.append(dict(x=gen.r2(rng, 20, 300), lane=rng.choice([-1, -2, -3, 1]), v0=rng.choice([0.0, gen.r2(rng, 1, 20)]),
                            sync=rng.random() < .3, port=rng.choice([None, None, 51000 + v]),
                            modes=rng.choice([[2], [3], [4], [1], [1, 2, 3, 4], [2, 3], [3, 4]])))
        n = rng.randint(3, 40 if tier == 'quick' else 120)
        dt0 = rng.choice([0.01, 0.05, 0.1])
        net = dict(loss=rng.choice([0, .1, .5, .9]), dup=rng.choice([0, .2]), delay=rng.choice([0, .3]), bad=rng.choice([0, 0, .2, .5]))
        arr = [[] for _ in range(n + 10)]
        for k in range(n):
            for v in range(nv):
                if rng.random() < .25:
                    continue
                m = self.msg(rng, v, rng.choice(veh[v]['modes']), k)
                if rng.random() < net['bad']:
                    b = rng.choice(['ver', 'id', 'cut', 'mode', 'pad'])
                    if b == 'ver':
                        m['ver'] = rng.choice([0, 2, 2 ** 31])
                    elif b == 'id':
                        m['id'] = rng.choice([7, 1000, 2 ** 32 - 1])
                    elif b == 'cut':
                        full = len(pack(m))
                        m['cut'] = rng.randrange(0, full - (1 if m['mode'] == 1 else 2))
                    elif b == 'mode':
                        m['badmode'] = rng.choice([0, 5, 77])
                    else:
                        m['pad'] = rng.randint(1, 40)
                if rng.random() < net['loss']:
                    continue
                for _ in range(2 if rng.random() < net['dup'] else 1):
                    at = k + (rng.randint(0, 5) if rng.random() < net['delay'] else 0)
                    late = rng.choice([0, 0, gen.r2(rng, 20, 400)]) if veh[v]['sync'] else 0
                    arr[at].append([v, late, m])
        if rng.random() < .3:     # a burst piles up while the host pauses
            k, v = rng.randrange(n), rng.randrange(nv)
            arr[k] += [[v, 0, self.msg(rng, v, rng.choice(veh[v]['modes']), k + j)] for j in range(rng.choice([6, 12, 40, 150]))]
        steps = []
        for k in range(n):
            steps.append(dict(dt=dt0 if rng.random() < .8 else rng.choice([0.0, 0.001, 0.2]), arr=arr[k]))
        return dict(road=dict(kind=kind, length=600.0), veh=veh, steps=steps, eintr=rng.choice([0, 0, 0, rng.randint(1, 30)]), _shrink=['steps', 'arr'], _min={'eintr': 0})

    def msg(self, rng, v, mode, k):
        m = dict(mode=mode, id=v, n=k, dr=rng.choice([0, 1, 1]))
        x, y, h, sp, wa = gen.r2(rng, 20, 500), gen.r2(rng, -10, 10), gen.r2(rng, 0, 6.2), gen.r2(rng, -5, 30), gen.r2(rng, -.6, .6)
        if mode == 1:
            m['f'] = [rng.choice([0.0, gen.r2(rng, 0, 1)]), rng.choice([0.0, 0.0, gen.r2(rng, 0, 1)]), rng.choice([0.0, gen.r2(rng, -1, 1)])]
        elif mode == 2:
            m['f'] = [x, y, gen.r2(rng, 0, 5), h, gen.r2(rng, -.3, .3), gen.r2(rng, -.3, .3), sp, wa]
        elif mode == 3:
            m['f'] = [x, y, h, sp, wa]
        else:
            m['f'] = [h, sp, wa]
        return m

    def model(self, case):
        objs = []
        for v, o in enumerate(case['veh']):
            props = [('execMode', 'synchronous' if o['sync'] else 'asynchronous')]
            if o['port']:
                props.append(('port', str(o['port'])))
            objs.append(dict(name=f'O{v}', kind='vehicle', ctrls=[dict(type='UDPDriverController', name=f'u{v}', props=props)],
                             init=[dict(k='teleport', pos=['lane', 1, o['lane'], o['x'], 0.0]), dict(k='speed', v=o['v0'], dyn=['step', 'time', 0.0]),
                                   dict(k='activate', lat=True, lon=True)]))
        return dict(road=case['road'], objects=objs, stories=[])

    def runs(self, case):
        out = []
        for fill in (False, True):
            p = gen.files(self.model(case))
            if case['eintr'] and not fill:
                p.append(f'srule recv {case["eintr"]} 4')
            p += ['nettrace 1', 'seed 1', 'snapmode bm', 'args esmini --osc s.xosc --headless --disable_stdout']
            last = {}
            pend = {}
            for st in case['steps']:
                got = {}
                for v, late, m in st['arr']:
                    o = case['veh'][v]
                    port = o['port'] or 49950 + v
                    h = pack(m).hex() or '-'
                    p.append(f'udpat {int(late * 1e6)} {port} {h}' if late else f'udp {port} {h}')
                    got.setdefault(v, []).append((late, m))
                if fill:
                    for v, o in enumerate(case['veh']):
                        if o['sync']:
                            continue   # a filled-in message would displace a queued one
                        ok = [m for _, m in got.get(v, []) if valid(m, len(case['veh']))]
                        if ok:
                            last[v] = ok[-1]
                        elif v in last and last[v]['mode'] == 1:
                            p.append(f'udp {o["port"] or 49950 + v} {pack(last[v]).hex()}')
                p.append(f'step {st["dt"]!r}')
            p.append('close')
            out.append(Run('\n'.join(p) + '\n'))
            if not any(m['mode'] == 1 for s in case['steps'] for _, _, m in s['arr']) or case['eintr']:
                break
        return out

    def judge(self, case, res):
        r = res[0]
        if r.ended() != 'ok':
            return [V('ended', r.ended() + ' ' + r.san[:300])]
        tr = Trace(r.text)
        nv = len(case['veh'])
        if len(tr.frames) != len(case['steps']) + 1:
            return [V('steps', f'{len(tr.frames)} states after {len(case["steps"])} steps')]
        out = []
        st = []
        f0 = tr.frames[0]
        for v in range(nv):
            o = f0.objs[v]
            st.append(dict(x=o.x, y=o.y, h=o.h, speed=o.speed, wa=None, last=None, q=[], z=None, p=None, r=None))
        hill = case['road']['kind'] == 'hill'
        port = {(o['port'] or 49950 + v): v for v, o in enumerate(case['veh'])}
        sent = [m for s in case['steps'] for _, _, m in s['arr']]
        recv = {}     # (frame index, vehicle) -> [message]
        failed = set()
        for e in tr.seq:
            if e[0] == 'V':
                if e[2] < 0:
                    failed.add((e[3], port[e[1]]))
                else:
                    recv.setdefault((e[3], port[e[1]]), []).append(sent[e[2]])
        for k, s in enumerate(case['steps']):
            f = tr.frames[k + 1]
            dt = s['dt']
            for v in range(nv):
                q = st[v]
                got = recv.get((k + 1, v), [])
                q['q'] += [m for w, late, m in s['arr'] if w == v and late == 0]
                if (k + 1, v) not in failed:
                    if case['veh'][v]['sync']:
                        if q['q'] and len(got) != 1 or len(got) > 1:
                            return [V('receive', f'step {k}: synchronous vehicle {v} took {len(got)} datagrams, {len(q["q"])} were waiting')]
                    elif len(got) < len(q['q']):
                        return [V('receive', f'step {k}: vehicle {v} took {len(got)} of {len(q["q"])} waiting datagrams')]
                for m in got:
                    if m in q['q']:
                        q['q'].remove(m)
                ok = [m for m in got if valid(m, nv)]
                m = ok[-1] if ok else None
                old = (q['x'], q['y'])
                q['free'] = False
                if m:
                    q['last'] = m
                    F = m['f']
                    if m['mode'] == 2:
                        q.update(x=F[0], y=F[1], z=F[2], h=F[3], p=F[4], r=F[5], speed=F[6], wa=F[7])
                    elif m['mode'] == 3:
                        q.update(x=F[0], y=F[1], h=F[2], speed=F[3], wa=F[4], z=(elev(F[0]) if min(abs(F[0] - 100), abs(F[0] - 400)) > 2 else None) if hill else 0.0, p=None, r=None)
                    elif m['mode'] == 4:
                        q.update(h=F[0], speed=F[1], wa=F[2], z=None, p=None, r=None)
                L = q['last']
                if L and dt > 1e-6:
                    if L['mode'] == 1:
                        q['free'] = True
                    elif L['dr'] and (L['mode'] == 4 or not m):
                        sp, h = (L['f'][1], L['f'][0]) if L['mode'] == 4 else (L['f'][3], L['f'][2]) if L['mode'] == 3 else (L['f'][6], L['f'][3])
                        q.update(x=q['x'] + sp * dt * math.cos(h), y=q['y'] + sp * dt * math.sin(h), z=None, p=None, r=None)
                o = f.objs.get(v)
                if o is None:
                    out.append(V('gone', f'step {k}: vehicle {v} is gone'))
                    continue
                if q['free']:
                    # driver input: a vehicle model decides; its position must follow its own speed and heading
                    d = math.hypot(o.x - old[0], o.y - old[1])
                    if abs(d - abs(o.speed) * dt) > 1e-6 * max(1, d):
                        out.append(V('driver-motion', f'step {k}: vehicle {v} moved {d} at speed {o.speed} in {dt} s'))
                    thr = L['f'][0] - L['f'][1]
                    if thr > 1e-3 and dt > 0 and q['speed'] >= 0 and o.speed < q['speed'] - 1e-9 and q['speed'] <= 30:
                        out.append(V('driver-throttle', f'step {k}: vehicle {v} lost speed under throttle: {q["speed"]} -> {o.speed}')) if q.get('wasfree') else None
                    q.update(x=o.x, y=o.y, h=o.h, speed=o.speed, wa=o.wa, z=None, p=None, r=None)
                    q['wasfree'] = True
                    continue
                q['wasfree'] = False
                bad = []
                if abs(o.x - q['x']) > TOL or abs(o.y - q['y']) > TOL:
                    bad.append(('position', f'({o.x}, {o.y}) instead of ({q["x"]}, {q["y"]})'))
                if adiff(o.h, q['h']) > (5e-3 if hill and q['p'] is None else TOL):
                    bad.append(('heading', f'{o.h} instead of {q["h"]}'))
                if m and m['mode'] != 1 and abs(o.speed - q['speed']) > TOL:
                    bad.append(('speed', f'{o.speed} instead of {q["speed"]}'))
                if m and m['mode'] != 1 and q['wa'] is not None and adiff(o.wa, q['wa']) > TOL:
                    bad.append(('wheel', f'{o.wa} instead of {q["wa"]}'))
                if q['z'] is not None and abs(o.z - q['z']) > 1e-4:
                    bad.append(('z', f'{o.z} instead of {q["z"]}'))
                if q['p'] is not None and (adiff(o.p, q['p']) > TOL or adiff(o.r, q['r']) > TOL):
                    bad.append(('attitude', f'{o.p}, {o.r} instead of {q["p"]}, {q["r"]}'))
                q['h'] = o.h if not bad else q['h']
                for kd, b in bad:
                    out.append(V(kd, f'step {k} (t={f.t}): vehicle {v} has {kd} {b}; last accepted message {L}, arrived {got}'))
                if bad:
                    return out[:4]
        if len(res) > 1 and not out:
            a, b = r.text, res[1].text
            A, B = Trace(a), Trace(b)
            if res[1].ended() != 'ok':
                return [V('ended', res[1].ended())]
            for k, (f, g) in enumerate(zip(A.frames, B.frames)):
                for v in range(nv):
                    o, u = f.objs.get(v), g.objs.get(v)
                    if o is None or u is None or (o.x, o.y, o.h, o.speed) != (u.x, u.y, u.h, u.speed):
                        return [V('driver-persist', f'frame {k}: vehicle {v} differs between a run with each driver input sent once and a run with the same input repeated')]
        return out[:4]

    def stats(self, case, res):
        tags = []
        for s in case['steps']:
            for v, late, m in s['arr']:
                tags.append('invalid' if not valid(m, len(case['veh'])) else f'mode{m["mode"]}')
        pr = res[0].probes()
        return dict(sig=res[0].digest() if pr.get('net.received', 0) > 1 else None, tags=list(set(tags)), simtime=sum(s['dt'] for s in case['steps']))


PROP = P
