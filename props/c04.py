"""C04: a recording that was cut short reads back as an exact prefix of the run."""
import hashlib
import struct
from vsim import gen
from vsim.core import Prop, Run, V
from vsim.trace import Trace
from props.c03 import compare, csv_rows, still
from props.c16 import where


def steps(data):
    """complete steps of a recording: [(time, whether a step length is known by then)], end time"""
    try:
        n = struct.unpack_from('<III', data)[2]
    except struct.error:
        return [], None
    p, out, cur, dt = 12 + n, [], None, False
    while p + 8 <= len(data):
        k, n = struct.unpack_from('<II', data, p)
        if p + 8 + n > len(data):
            break
        if k in (5, 22) and cur is not None:
            out.append((cur, dt))
        if k == 5:
            cur = struct.unpack_from('<d', data, p + 8)[0]
        elif k == 22:
            return out, struct.unpack_from('<d', data, p + 8)[0]
        elif k == 21:
            dt = dt or abs(struct.unpack_from('<d', data, p + 8)[0]) > 1e-9
        p += 8 + n
    return out, None


class P(Prop):
    ID = 'C04'
    VARIANTS = ('asan',)
    QUICK = 2500
    RULE = 'distinct: trace digests of runs with at least three recorded steps'

    def gen(self, rng, tier, i):
        m = gen.rich_model(rng, nobj=(1, 4))
        calls = gen.rich_calls(rng, m, rng.randint(3, 25)) if rng.random() < .7 else still(rng, m)
        cuts = []
        for _ in range(8):
            x = rng.random()
            cuts.append(['at', rng.randint(0, 400)] if x < .25 else ['at', rng.randint(300, 3000)] if x < .5 else ['share', rng.randint(0, 1000000)])
        fault = None
        if rng.random() < .5:
            fault = [rng.choice(['w:enospc', 'w:eio', 'w:short']), rng.choice([rng.randint(0, 3000), rng.randint(0, 20000)]), rng.choice([0, 1])]
        return dict(model=m, calls=calls, cuts=cuts, fault=fault, _shrink=['cuts', 'calls', 'events', 'objects', 'stories', 'acts', 'groups', 'mans', 'actions'])

    def runs(self, case):
        plan = gen.files(case['model']) + ['seed 7', 'snapmode b']
        if case['fault']:
            plan += [f'frule {case["fault"][0]} sim.dat {case["fault"][1]} 1 {case["fault"][2]}']
        plan += ['args esmini --osc s.xosc --headless --disable_stdout --record sim.dat --collision'] + case['calls'] + ['close', 'fclear', 'mark full', 'app dat2csv --file sim.dat --extended --precision 17 --csv full.csv']
        for k, (kind, v) in enumerate(case['cuts']):
            plan += [f'frule r:trunc sim.dat {v} 0 0' if kind == 'at' else f'frule r:trunc sim.dat -1 {v} 0', f'mark cut{k}', f'app dat2csv --file sim.dat --extended --precision 17 --csv c{k}.csv', 'fclear']
        return [Run('\n'.join(plan) + '\n', want=['sim.dat', 'full.csv'] + [f'c{k}.csv' for k in range(len(case['cuts']))])]

    def judge(self, case, res):
        r = res[0]
        if r.ended() != 'ok':
            return [V('crash', r.ended() + ' ' + where(r.san) + r.stdout.decode(errors='replace')[-200:])]
        tr = Trace(r.text)
        dat = r.files['sim.dat'] or b''
        sizes = [('full', len(dat))] + [(f'c{k}', c[1] if c[0] == 'at' else len(dat) * c[1] // 1000000) for k, c in enumerate(case['cuts'])]
        for name, size in sizes:
            v = self.prefix(tr.frames, dat[:size], r.files[name + '.csv'])
            if v:
                return [V(v[0].kind, f'recording of {len(dat)} bytes cut at {min(size, len(dat))}: {v[0].msg}')]
        return []

    def prefix(self, frames, data, csv):
        times, eos = steps(data)
        if eos is not None:
            last = eos
        elif len(times) > 1 and times[-1][1]:
            last = times[-1][0]
        else:
            last = None
        rows = csv_rows(csv.decode('latin-1')) if csv else []
        if last is None:      # not a single step of known length is complete: all that may be shown is the beginning
            return compare([f for f in frames if f.t <= 1e-6], rows) if rows else []
        return compare([f for f in frames if f.t <= last + 1e-6], rows)


    def stats(self, case, res):
        st = super().stats(case, res)
        tags = ['cut'] * bool(case['cuts']) + ([case['fault'][0]] if case['fault'] else [])
        st.update(sig=None, tags=tags)
        if res[0].ended() == 'ok':
            tr = Trace(res[0].text)
            dat = res[0].files['sim.dat'] or b''
            st['simtime'] = tr.frames[-1].t if tr.frames else 0
            if len(steps(dat)[0]) > 2:
                st['sig'] = hashlib.md5(dat).hexdigest()
        return st


PROP = P
