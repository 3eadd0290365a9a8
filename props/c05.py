"""C05: failing output files never disturb the simulation."""
import hashlib
from vsim import gen
from vsim.core import Prop, Run, V
from vsim.trace import Trace, body
from props.c01 import first_diff

FILES = ['sim.dat', 'out.csv', 'my.log']
KINDS = ['w:enospc', 'w:eio', 'w:short', 'w:eintr', 'w:openfail']


class P(Prop):
    ID = 'C05'
    VARIANTS = ('plain',)
    QUICK = 3000
    RULE = 'distinct: traces of runs of at least 3 steps in which at least one output failed'

    def gen(self, rng, tier, i):
        sess = []
        for k in range(rng.choice([1, 1, 2])):
            m = gen.rich_model(rng, nobj=(1, 4))
            outs = [f for f in FILES if rng.random() < .7] or ['sim.dat']
            faults = []
            for f in outs:
                if rng.random() < .6:
                    kind = rng.choice(KINDS)
                    at = rng.choice([0, rng.randint(0, 300), rng.randint(0, 4000), rng.randint(0, 20000)])
                    faults.append([kind, f, at, rng.choice([1, 1, 2, 7, 100]), rng.choice([0, 1])])
            sess.append(dict(model=m, outs=outs, faults=faults, calls=gen.rich_calls(rng, m, rng.randint(3, 25))))
        return dict(sess=sess, _shrink=['sess', 'faults', 'outs', 'calls', 'events', 'objects', 'stories', 'acts', 'groups', 'mans', 'actions'])

    def plan(self, case, faulty):
        p = []
        for k, s in enumerate(case['sess']):
            if not s.get('model'):
                continue
            p += gen.files(s['model'])
            p += ['frule %s %ss%d_%s %d %d %d' % (f[0], '' if faulty else 'nothing_', k, *f[1:]) for f in s['faults']]
            a = 'args esmini --osc s.xosc --headless --disable_stdout'
            for o, opt in zip(FILES, ('--record', '--csv_logger', '--logfile_path')):
                if o in s['outs']:
                    a += f' {opt} s{k}_{o}'
            p += [f'mark session{k}', 'seed 7', 'snapmode bkclws', a, 'cb'] + s['calls'] + ['close']
            p.append('fclear')
        return '\n'.join(p) + '\n'

    def runs(self, case):
        want = [f's{k}_{o}' for k in range(len(case['sess'])) for o in FILES]
        return [Run(self.plan(case, False), want=want), Run(self.plan(case, True), want=want)]

    def judge(self, case, res):
        a, b = res
        if a.ended() != 'ok':
            return []
        if b.ended() != 'ok':
            return [V('ended', b.ended() + ' ' + b.stdout.decode(errors='replace')[-200:])]
        pa, pb = ('\n' + body(a.text)).split('\nZ session'), ('\n' + body(b.text)).split('\nZ session')
        if len(pa) != len(pb):
            return [V('differs', f'{len(pb) - 1} sessions')]
        out = set()
        for x, y in zip(pa[1:], pb[1:]):
            k = int(x.split('\n')[0])
            refused = [l for l in y.split('\n') if l[:2] == 'R '][:1]
            if refused and refused[0].endswith(' -1') and any(f[0] == 'w:openfail' and f[1] == 'out.csv' for f in case['sess'][k]['faults']):
                out.add(k)        # an output that cannot be opened may refuse the load
                continue
            if x != y:
                return [V('differs', f'session {k}: ' + first_diff(x, y))]
        for k, s in enumerate(case['sess']):
            bad = {f[1] for f in s['faults']}
            for o in FILES[:2]:
                x, y = a.files[f's{k}_{o}'], b.files[f's{k}_{o}']
                if o not in bad and x != y and k not in out:
                    return [V('other', f'{o} of session {k} differs though only {sorted(bad)} failed')]
        return []

    def stats(self, case, res):
        st = super().stats(case, res)
        st.update(sig=None, tags=sorted({f[0] + ' ' + f[1] for s in case['sess'] for f in s['faults']}))
        if res[1].ended() == 'ok':
            tr = Trace(res[1].text)
            st['simtime'] = tr.frames[-1].t if tr.frames else 0
            if len(tr.frames) > 3 and st['tags']:
                st['sig'] = hashlib.md5((body(res[1].text) + repr(st['tags'])).encode()).hexdigest()
        return st


PROP = P
