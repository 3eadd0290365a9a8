"""C08: remote play, pause, step and quit commands: every step exactly once, none while paused, in every interleaving."""
from vsim import osc
from vsim.client import esc
from props.remote import *

Q = 'quiesce 4000000000'
DT = 0.05


def pkt(c):
    b = stepdt(c['dt']) if c['k'] == 'STEP_DT' else bytes.fromhex(c['hex']) if c['k'] == 'raw' else simple({'PLAY': 4, 'PAUSE': 5, 'STEP': 6, 'QUIT': 8}[c['k']])
    if c.get('cut') is not None:
        b = b[:c['cut']]
    return b + bytes.fromhex(c.get('tail', ''))


class P(Prop):
    ID = 'C08'
    VARIANTS = ('sched',)
    QUICK = 3000
    RULE = 'distinct: (schedule hash, trace digest) of runs in which at least one remote command was received'

    def gen(self, rng, tier, i):
        ops = []
        nd = 0
        for w in range(rng.randint(1, 5)):
            kinds = rng.choice([['STEP'], ['STEP_DT'], ['STEP', 'STEP_DT'], ['PLAY'], ['PAUSE'], ['PLAY', 'PAUSE'], ['PLAY', 'PAUSE', 'STEP', 'STEP_DT'], ['PAUSE', 'STEP_DT'], []])
            for _ in range(rng.choice([1, 2, 4, 7])):
                if kinds and rng.random() < .6:
                    c = dict(k=rng.choice(kinds))
                    if c['k'] == 'STEP_DT':
                        nd += 1
                        c['dt'] = round(0.001 * nd + rng.choice([0.0, 0.1]) + 0.0003, 6)
                        if rng.random() < .12:
                            c['cut'] = rng.choice([4, 8, 15, rng.randrange(0, 16)])
                    elif rng.random() < .06:
                        c['cut'] = rng.choice([0, 1, 3])
                    if rng.random() < .08 and 'cut' not in c:
                        c['tail'] = bytes(rng.randrange(256) for _ in range(rng.choice([1, 4, 60]))).hex()
                    if rng.random() < .05:
                        c = dict(k='raw', hex=rng.choice(['', '00', '63000000', '09000000', 'ffffffff']))
                    for _ in range(2 if rng.random() < .1 else 1):
                        ops.append(['udp', c])
                elif rng.random() < .8:
                    ops.append(['main', rng.choice([1, 1, 2, 3])])
                else:
                    ops.append(['yield', rng.choice([1, 4, 20])])
                if rng.random() < .05:
                    ops.append(['recvfault', rng.choice([4, 11, 104])])
            ops.append(['q'])
        if rng.random() < .2:
            ops += [['udp', dict(k='QUIT')], ['q'], ['main', 1], ['q']]
        nobj = rng.choice([1, 2])
        return dict(nobj=nobj, m=base_model(rng, nobj), ops=ops, sched=sched(rng), early=rng.random() < .2, _shrink=['ops'], _sched=['sched'])

    def runs(self, case):
        m = case['m']
        p = [sched_line(case['sched']), 'nettrace 1', f'file s.xosc {esc(osc.scenario(m))}', f'file road.xodr {esc(osc.road(**m["road"]))}',
             'seed 1', 'snapmode b', 'args esmini --osc s.xosc --headless --disable_stdout --player_server --csv_logger sim.csv --disable_log', 'cbobj 0 1']
        if not case['early']:
            p.append('quiesce 1')
        p += ['step 0.05', 'mark w']
        for o in case['ops'] + [['q']]:
            if o[0] == 'udp':
                p.append(f'udp {APORT} {pkt(o[1]).hex()}')
            elif o[0] == 'main':
                p.append(f'steps {o[1]} {DT}')
            elif o[0] == 'yield':
                p.append(f'yield {o[1]}')
            elif o[0] == 'recvfault':
                p.append(f'srule recv 1 {o[1]}')
            else:
                p += [Q, 'snap', 'mark w']
        p.append('close')
        return [Run('\n'.join(p) + '\n', want=['sim.csv'])]

    def judge(self, case, res):
        r = res[0]
        e = r.ended()
        if e != 'ok':
            return [V('ended-' + e.replace(' ', '-'), e + ' ' + r.san[:400] + r.stdout.decode(errors='replace')[-200:])]
        tr = Trace(r.text)
        out = []
        pk = [o[1] for o in case['ops'] if o[0] == 'udp']
        wins = []                    # per window: main calls
        n = 0
        for o in case['ops'] + [['q']]:
            if o[0] == 'main':
                n += o[1]
            elif o[0] == 'q':
                wins.append(n)
                n = 0
        paused, quit_ = False, False
        t, px, sp = None, None, None
        recv, steps = [], []
        w = -1
        nsteps = 0
        fr = None
        for q in tr.seq:
            if q[0] == 'F':
                fr = q[1]
            elif q[0] == 'V' and q[2] >= 0:
                c = pk[q[2]]
                b = pkt(c)
                need = 16 if b[:4] == b'\x07\0\0\0' else 4
                if len(b) >= need and c['k'] != 'raw' and c.get('cut') is None:
                    recv.append(c)
            elif q[0] == 'B':
                nsteps += 1
                if t is not None:
                    d = q[2] - t
                    steps.append(d)
                    if abs((q[3] - px) - q[5] * d) > 1e-6 and not (q[3] - px == 0 and d == 0):
                        out.append(V('motion', f'object moved {q[3] - px} m in a step of {d} s at {q[5]} m/s'))
                t, px = q[2], q[3]
            elif q[0] == 'Z' and q[1] == 'w':
                if w >= 0:
                    want = [c['dt'] for c in recv if c['k'] == 'STEP_DT']
                    nst = sum(1 for c in recv if c['k'] == 'STEP')
                    got = [d for d in steps if abs(d - DT) > 1e-9]
                    if len(got) != len(want) or any(abs(a - b) > 1e-9 for a, b in zip(got, want)):
                        out.append(V('step-dt', f'window {w}: steps of {[round(x, 6) for x in got]} s instead of {want}'))
                    nm = sum(1 for d in steps if abs(d - DT) <= 1e-9) - nst
                    ks = {c['k'] for c in recv}
                    lo, hi = 0, wins[w]
                    if paused and 'PLAY' not in ks:
                        hi = 0
                    if not paused and not (ks & {'PAUSE', 'STEP', 'STEP_DT'}):
                        lo = hi
                    if not lo <= nm <= hi:
                        out.append(V('step-count', f'window {w} ({"paused" if paused else "playing"} at start, {wins[w]} local step calls, received {[c["k"] for c in recv]}): {nm} local steps were simulated, expected {lo}..{hi}'))
                    for c in recv:
                        if c['k'] == 'PLAY':
                            paused = False
                        elif c['k'] in ('PAUSE', 'STEP', 'STEP_DT'):
                            paused = True
                        elif c['k'] == 'QUIT':
                            quit_ = True
                    if fr.pause != int(paused):
                        out.append(V('pause-flag', f'window {w}: pause flag {fr.pause}, expected {int(paused)} after {[c["k"] for c in recv]}'))
                    if fr.quit != int(quit_):
                        out.append(V('quit-flag', f'window {w}: quit flag {fr.quit}, expected {int(quit_)}'))
                    if abs(fr.t - t) > 1e-9:
                        out.append(V('time', f'window {w}: time {fr.t} after the last step to {t}'))
                recv, steps = [], []
                w += 1
        rows = len([l for l in (r.files['sim.csv'] or b'').decode().split('\n')[7:] if l.strip() and l[0].isdigit()])
        if not out and rows != nsteps + 1:
            out.append(V('log-rows', f'{rows} rows logged for {nsteps} steps plus initial state'))
        return out

    def stats(self, case, res):
        pr = Trace(res[0].text)
        return dict(sig=(res[0].sched()[1], res[0].digest()) if any(q[0] == 'V' and q[2] >= 0 for q in pr.seq) else None,
                    tags=[o[1]['k'] if o[0] == 'udp' else o[0] for o in case['ops']], simtime=pr.frames[-1].t if pr.frames else 0)


PROP = P
