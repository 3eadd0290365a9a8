"""C07: actions injected over UDP or the API take effect exactly once, newest first, for the addressed object only."""
from vsim import osc
from vsim.client import esc
from props.remote import *

Q = 'quiesce 4000000000'
DT = 0.05


def apicmd(c):
    k = c['k']
    if k == 'speed':
        return f'ispeed {c["id"]} {c["v"]} {c["shape"]} {c["dim"]} {c["val"]}'
    if k == 'lane':
        return f'ilane {c["id"]} {c["mode"]} {c["v"]} {c["shape"]} {c["dim"]} {c["val"]}'
    return f'ioff {c["id"]} {c["v"]} {c["acc"]} {c["shape"]}'


def packet(c):
    k = c['k']
    if k == 'speed':
        b = speed(c['id'], c['v'], c['shape'], c['dim'], c['val'])
    elif k == 'lane':
        b = lane(c['id'], c['mode'], c['v'], c['shape'], c['dim'], c['val'])
    elif k == 'off':
        b = offset(c['id'], c['v'], c['acc'], c['shape'])
    else:
        b = bytes.fromhex(c['hex'])
    if c.get('cut') is not None:
        b = b[:c['cut']]
    return b + bytes.fromhex(c.get('tail', ''))


NEED = {'speed': 40, 'lane': 40, 'off': 36}


class P(Prop):
    ID = 'C07'
    VARIANTS = ('sched',)
    QUICK = 900
    RULE = 'distinct: (schedule hash, trace digest) of runs in which at least one injected action was started'

    def cmd(self, rng, nobj, lat):
        oid = rng.randrange(nobj)
        k = rng.choice(['speed', 'speed', lat[oid]])
        if rng.random() < .06:
            return dict(k='raw', id=-1, hex=rng.choice([simple(0), simple(99), b'', b'\x01', b'\x01\0\0\0', bytes(rng.randrange(256) for _ in range(3)), struct.pack('<i', -5) + bytes(36)]).hex())
        shape = rng.choice([0, 1, 2, 3])
        c = dict(k=k, id=oid, shape=shape)
        if k == 'speed':
            dim = rng.choice([0, 1, 2, 2])
            c.update(v=gen.r2(rng, 2, 12), dim=dim, val={0: gen.r2(rng, 2, 7), 1: gen.r2(rng, 4, 9), 2: gen.r2(rng, .2, 2)}[dim])
        elif k == 'lane':
            dim = rng.choice([0, 2, 2])
            c.update(mode=0, v=rng.choice([-1, -2, -3]), dim=dim, val={0: gen.r2(rng, 4, 7.5), 2: gen.r2(rng, .5, 2)}[dim])
        else:
            c.update(v=gen.r2(rng, -1.2, 1.2), acc=gen.r2(rng, 1, 5), shape=rng.choice([0, 1, 2]))
        if rng.random() < .07:
            c['id'] = rng.choice([nobj, nobj + 3, -1, 4711])
        return c

    def gen(self, rng, tier, i):
        nobj = rng.choice([1, 2, 2, 3])
        steps = []
        for ph in range(rng.randint(1, 3)):
            lat = [rng.choice(['lane', 'off']) for _ in range(nobj)]
            rel = [rng.random() < .35 and lat[o] == 'lane' for o in range(nobj)]
            for o in range(nobj):
                if rel[o]:
                    lat[o] = 'speed'
            n = rng.choice([0, 1, 2, 3, 5])
            ops = []
            for _ in range(n):
                c = self.cmd(rng, nobj, lat)
                via = 'api' if c['k'] != 'raw' and rng.random() < .3 else 'udp'
                if via == 'udp' and c['k'] != 'raw' and rng.random() < .12:
                    c['cut'] = rng.choice([4, 8, NEED[c['k']] - 1, NEED[c['k']] - 4, rng.randrange(0, NEED[c['k']])])
                if via == 'udp' and rng.random() < .1:
                    c['tail'] = bytes(rng.randrange(256) for _ in range(rng.choice([1, 4, 100]))).hex()
                for _ in range(2 if via == 'udp' and rng.random() < .15 else 1):
                    ops.append([via, c])
                if rng.random() < .5:
                    ops.append(['step', rng.choice([1, 1, 2, 5, 12])])
                elif rng.random() < .3:
                    ops.append(['yield', rng.choice([1, 5, 40])])
                if rng.random() < .1:
                    ops.append(['recvfault', rng.choice([4, 11, 111])])
            for o in range(nobj):
                if rel[o]:
                    dim = rng.choice([0, 2])
                    c = dict(k='lane', id=o, mode=1, v=rng.choice([-1, 1, 1]), shape=rng.choice([0, 1, 2]), dim=dim, val={0: gen.r2(rng, 4, 7.5), 2: gen.r2(rng, .5, 2)}[dim])
                    e = [[rng.choice(['udp', 'udp', 'api']), c]]
                    if rng.random() < .3:
                        e.append(['udp', c])
                    at = rng.randint(0, len(ops))
                    ops[at:at] = e
            steps += ops
            steps.append(['phase'])
        return dict(nobj=nobj, m=base_model(rng, nobj, length=600.0), steps=steps, sched=sched(rng), _shrink=['steps'], _sched=['sched'])

    def plan(self, case):
        m = case['m']
        for o in m['objects']:
            o['perf'] = [70.0, 40.0, 40.0]
        p = [sched_line(case['sched']), 'nettrace 1', f'file s.xosc {esc(osc.scenario(m))}', f'file road.xodr {esc(osc.road(**m["road"]))}',
             'seed 1', 'snapmode b', 'args esmini --osc s.xosc --headless --disable_stdout --player_server', 'cb', 'quiesce 1', 'step 0.05']
        nr = 0
        k = 0
        for s in case['steps']:
            if s[0] == 'udp':
                p.append(f'udp {APORT} {packet(s[1]).hex()}')
            elif s[0] == 'api':
                p += [Q, f'mark a{k}', apicmd(s[1])]
            elif s[0] == 'step':
                p.append(f'steps {s[1]} {DT}')
            elif s[0] == 'yield':
                p.append(f'yield {s[1]}')
            elif s[0] == 'recvfault':
                p.append(f'srule recv 1 {s[1]}')
            else:
                p += [Q, 'step 0.05', 'iongoing -1', f'steps 95 {DT}', 'iongoing -1', f'mark p{k}']
            k += 1
        p += ['close']
        return '\n'.join(p) + '\n'

    def runs(self, case):
        return [Run(self.plan(case))]

    def judge(self, case, res):
        r = res[0]
        e = r.ended()
        if e != 'ok':
            return [V('ended-' + e.replace(' ', '-'), e + ' ' + r.san[:400] + r.stdout.decode(errors='replace')[-200:])]
        tr = Trace(r.text)
        out = []
        pk = [s[1] for s in case['steps'] if s[0] == 'udp']
        n = case['nobj']
        f0 = tr.frames[0]
        cur = {o: dict(speed=f0.objs[o].speed, lane={f0.objs[o].lane}, off=0.0) for o in range(n)}
        last = {}       # (object, type) -> (command, frame index)
        recv, started, ended = [], {}, {}
        nfr = 0
        relseen = set()
        lastong = None
        for q in tr.seq:
            if q[0] == 'F':
                nfr += 1
                continue
            c = None
            if q[0] == 'V' and q[2] >= 0:
                c = dict(pk[q[2]])
                if c['k'] == 'raw' or (c.get('cut') is not None and c['cut'] < NEED[c['k']] and not c.get('tail')):
                    c = None
                elif c.get('tail') and c.get('cut') is not None:
                    b = packet(c)
                    if len(b) < NEED[c['k']]:
                        c = None
                    elif c['cut'] < NEED[c['k']]:
                        return out        # stitched content: not decidable here
            elif q[0] == 'Z' and q[1][0] == 'a':
                c = case['steps'][int(q[1][1:])][1]
            elif q[0] == 'E' and q[1] == 7:
                kind = q[3].rstrip('0123456789')
                (started if q[2] == 2 else ended).setdefault(q[3], []).append(q[5])
            elif q[0] == 'X' and q[1][0] == 'ongoing':
                lastong = int(q[1][2])
            elif q[0] == 'Z' and q[1][0] == 'p':
                if lastong != 0:
                    out.append(V('never-ends', f'an injected action is still ongoing {95 * DT:.1f} s after the last command'))
                fr = tr.frames[nfr - 1]
                for o in range(n):
                    x = fr.objs[o]
                    w = cur[o]
                    a = last.get((o, 'speed'))
                    if a:
                        w['speed'] = a[0]['v']
                    if abs(x.speed - w['speed']) > 1e-6:
                        out.append(V('speed', f'object {o} at t={fr.t:.2f}: speed {x.speed} instead of {w["speed"]} ({"last command " + str(a[0]) if a else "no command"})'))
                    a = last.get((o, 'lane'))
                    if a:
                        if a[0]['mode'] == 0:
                            w['lane'] = {a[0]['v']}
                        else:
                            w['lane'] = set()
                            for g in tr.frames[max(0, a[1] - 2):a[1] + 2]:
                                l = g.objs[o].lane
                                t = l + a[0]['v']
                                if t == 0:
                                    t = a[0]['v'] // abs(a[0]['v'])
                                w['lane'].add(t)
                        w['off'] = 0.0
                    if any(abs(l) > 3 or l > 0 for l in w['lane']):
                        return out      # outside the modelled part of the road
                    if x.lane not in w['lane']:
                        out.append(V('lane', f'object {o} at t={fr.t:.2f}: in lane {x.lane} instead of {sorted(w["lane"])} ({"last command " + str(a[0]) if a else "no command"})'))
                    w['lane'] = {x.lane}
                    a = last.get((o, 'off'))
                    if a:
                        w['off'] = a[0]['v']
                    if abs(x.off - w['off']) > 1e-4:
                        out.append(V('offset', f'object {o} at t={fr.t:.2f}: lane offset {x.off} instead of {w["off"]} ({"last command " + str(a[0]) if a else "no command"})'))
                last = {}
            if c and 0 <= c['id'] < n:
                last[(c['id'], c['k'])] = (c, nfr)
                recv.append((c, nfr))
        # every start and end at most once, and no action without a command
        for a, l in started.items():
            if len(l) != 1:
                out.append(V('repeated', f'{a} was started {len(l)} times'))
            if len(ended.get(a, [])) != 1 and not out:
                out.append(V('end-count', f'{a} ended {len(ended.get(a, []))} times'))
        for pre, k in (('SpeedAction', 'speed'), ('LaneChangeAction', 'lane'), ('LaneOffsetAction', 'off')):
            ns = sum(1 for a in started if a.startswith(pre))
            nr = sum(1 for c, _ in recv if c['k'] == k)
            if ns > nr:
                out.append(V('invented', f'{ns} {k} actions started for {nr} received commands'))
        # the vehicle keeps moving when an injected lane change starts
        for a, l in started.items():
            if a.startswith('LaneChange') and l[0] + 2 <= len(tr.frames) - 1:
                for o in range(n):
                    f1, f2 = tr.frames[l[0]], tr.frames[l[0] + 1]
                    if f1.objs[o].speed > 1 and f2.objs[o].speed > 1 and f2.t > f1.t and abs(f2.objs[o].x - f1.objs[o].x) < 1e-9 and abs(f2.objs[o].y - f1.objs[o].y) < .3:
                        out.append(V('lane-change-stall', f'object {o} stood still between t={f1.t:.2f} and {f2.t:.2f} at the start of {a}'))
        return out

    def stats(self, case, res):
        tr = Trace(res[0].text)
        tags = [f'{s[0]}:{s[1]["k"]}' for s in case['steps'] if s[0] in ('udp', 'api')] + [s[0] for s in case['steps'] if s[0] not in ('udp', 'api')]
        return dict(sig=(res[0].sched()[1], res[0].digest()) if any(q[0] == 'E' and q[1] == 7 for q in tr.ev) else None, tags=tags, simtime=tr.frames[-1].t if tr.frames else 0)


PROP = P
