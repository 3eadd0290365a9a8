"""C09: network servers start, stop and fail without taking the simulation with them, in every interleaving."""
from vsim import gen
from vsim.core import Prop, Run, V
from vsim.trace import Trace
from props.remote import *


class P(Prop):
    ID = 'C09'
    VARIANTS = ('sched',)
    QUICK = 1500
    RULE = 'distinct: (schedule hash, trace digest) of runs in which at least one server thread was started'

    def gen(self, rng, tier, i):
        ses = []
        for _ in range(rng.randint(1, 3)):
            ses.append(dict(ps=rng.random() < .7, es=rng.random() < .4, steps=rng.choice([0, 0, 1, 3]), msgs=self.msgs(rng, rng.choice([0, 0, 1, 3, 6])), nobj=rng.choice([1, 1, 2, 0]),
                            gap=rng.choice([0, 0, 1, 50]), bindfail=rng.choice([0, 0, 0, 1, 2])))
            if not ses[-1]['ps'] and not ses[-1]['es']:
                ses[-1]['ps'] = True
            if ses[-1]['nobj'] == 0:
                ses[-1]['bindfail'] = 0
        return dict(ses=ses, m=[base_model(rng, n) for n in range(3)], sched=sched(rng), sockfail=rng.choice([0, 0, 0, 1]), _shrink=['ses'], _sched=['sched'])

    def msgs(self, rng, n):
        out = []
        for _ in range(n):
            c = rng.choice(['speed', 'speed', 'unknown', 'cut', 'noise', 'noise', 'empty'])
            a = dict(speed=speed(0, 12.0), unknown=rng.choice([speed(99, 3.0), lane(-1, 0, -1), offset(12345, .5)]), cut=speed(0, 12.0)[:rng.randrange(40)],
                     noise=bytes([rng.randrange(1, 4), 0, 0, 0]) + bytes(rng.randrange(256) for _ in range(rng.choice([0, 3, 8, 30]))), empty=b'')[c]
            e = struct.pack('<8d', gen.r2(rng, 30, 90), gen.r2(rng, -8, -2), 0, 0.0, 0, 0, rng.choice([gen.r2(rng, 1, 9), gen.r2(rng, 1, 9), gen.r2(rng, -9, -1), 0.0]), gen.r2(rng, -.5, .5))
            if rng.random() < .3:
                e = e[:rng.choice([rng.randrange(64), rng.randrange(56, 64)])]
            elif rng.random() < .2:
                e += b'\0' * rng.choice([1, 100])
            out.append([a.hex(), e.hex(), rng.choice(['step', 'step', 'yield', 'q'])])
        return out

    def runs(self, case):
        from vsim import osc
        from vsim.client import esc
        p = [sched_line(case['sched']), 'nettrace 1']
        for n in range(3):
            p.append(f'file s{n}.xosc {esc(osc.scenario(case["m"][n]))}')
        p.append(f'file road.xodr {esc(osc.road(**case["m"][1]["road"]))}')
        p += ['seed 1', 'snapmode b']
        for k, s in enumerate(case['ses']):
            p.append('sclear')
            if s['bindfail']:
                p.append(f'srule {"socket" if case["sockfail"] else "bind"} {s["bindfail"]} 98')
            a = f'args esmini --osc s{s["nobj"]}.xosc --headless --disable_stdout'
            if s['ps']:
                a += ' --player_server'
            if s['es']:
                a += ' --server'
            p += [f'mark s{k}', a]
            if s['gap']:
                p.append(f'yield {s["gap"]}')
            for a, e, then in s['msgs']:
                if s['ps']:
                    p.append(f'udp {APORT} {a}')
                if s['es']:
                    p.append(f'udp {EPORT} {e}')
                p.append('step 0.05' if then == 'step' else 'yield 7' if then == 'yield' else 'quiesce 3000000000')
            p += ['step 0.05'] * s['steps']
            if s['es'] and not s['ps']:
                p += ['quiesce 3000000000', 'step 0.05', f'mark e{k}']
            p += ['close', f'netinfo {APORT}', f'netinfo {EPORT}']
        return [Run('\n'.join(p) + '\n')]

    def judge(self, case, res):
        r = res[0]
        e = r.ended()
        if e != 'ok':
            return [V('ended-' + e.replace(' ', '-'), e + ' ' + r.san[:400] + r.stdout.decode(errors='replace')[-200:])]
        tr = Trace(r.text)
        out = []
        for x in tr.x:
            if x[0] == 'net':
                if x[2] != '0' or x[4] != '0':
                    out.append(V('socket-left', f'after close: port {x[1]} bound={x[2]} open sockets={x[4]}'))
                if x[5] != '1':
                    out.append(V('thread-left', f'after close: {x[5]} live threads'))
        for k, s in enumerate(case['ses']):
            fr = [f for j, f in enumerate(tr.frames) if seg(tr, j) == k]
            want = 1 + s['steps'] + sum(1 for q in s['msgs'] if q[2] == 'step') + (s['es'] and not s['ps'])
            if len(fr) != want:
                out.append(V('session', f'session {k}: {len(fr)} states instead of {want}'))
            elif abs(fr[-1].t - 0.05 * (want - 1)) > 1e-6:
                out.append(V('session-time', f'session {k}: simulated {fr[-1].t} s'))
        # the ego state server: object 0 continues from the last complete state that was received
        out += self.ego(case, tr)
        return out

    def ego(self, case, tr):
        nr, sent = 0, {}
        for s in case['ses']:
            for a, e, _ in s['msgs']:
                if s['ps']:
                    nr += 1
                if s['es']:
                    sent[nr] = bytes.fromhex(e)
                    nr += 1
        out, last, nf, lf, k = [], None, 0, 0, -1
        for q in tr.seq:
            if q[0] == 'F':
                nf += 1
            elif q[0] == 'Z' and q[1][0] == 's':
                last, k = None, int(q[1][1:])
            elif q[0] == 'V' and q[1] == EPORT and q[2] >= 0 and len(sent[q[2]]) >= 64:
                last, lf = struct.unpack('<8d', sent[q[2]][:64]), nf
            elif q[0] == 'Z' and q[1][0] == 'e' and last and case['ses'][k]['nobj']:
                o = tr.frames[nf - 1].objs[0]
                if abs(o.speed - last[6]) > 1e-6 or abs(o.y - last[1]) > 1e-6:
                    out.append(V('ego-state', f'session {k}: object 0 has speed {o.speed}, y {o.y} after a received state with speed {last[6]}, y {last[1]}'))
                if not last[6] and abs(o.wa - last[7]) > 1e-6:
                    out.append(V('ego-wheel', f'session {k}: standing object 0 has wheel angle {o.wa} after a received {last[7]}'))
                lo, hi = sorted([last[6] * .05, last[6] * .05 * (nf - lf)])
                if not lo - 1e-6 <= o.x - last[0] <= hi + 1e-6:
                    out.append(V('ego-position', f'session {k}: object 0 at x {o.x} after a received state at x {last[0]}, speed {last[6]}, {nf - lf} steps ago'))
        return out

    def stats(self, case, res):
        pr = res[0].probes()
        return dict(sig=(res[0].sched()[1], res[0].digest()) if pr.get('thread.create') else None, tags=['both' if s['ps'] and s['es'] else 'player' if s['ps'] else 'ego' for s in case['ses']] + (['portfail'] if any(s['bindfail'] for s in case['ses']) else []),
                    simtime=sum(.05 * (s['steps'] + len(s['msgs'])) for s in case['ses']))


def seg(tr, j):
    k = -1
    for name, fi in tr.marks:
        if fi <= j and name[0] == 's':
            k = int(name[1:])
    return k


PROP = P
