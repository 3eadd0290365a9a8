"""Seeded search over simulated runs, gating, minimisation, evidence."""
import copy, hashlib, importlib, json, multiprocessing as mp, os, random, shutil, signal, sys, tempfile, time, traceback

from . import build as B
from .client import Server, Result

VERIF = B.VERIF
NPROC = int(os.environ.get('VERIF_JOBS', '8'))


class V:
    """one violation: kind is a stable identifier, msg is for people"""
    def __init__(self, kind, msg):
        self.kind, self.msg = kind, msg

    def __repr__(self):
        return f'{self.kind}: {self.msg}'


class Run:
    """one simulated execution inside a case"""
    def __init__(self, plan, want=(), name='', variant=None, timeout=60000):
        self.plan, self.want, self.name, self.variant, self.timeout = plan, tuple(want), name, variant, timeout


class Prop:
    ID = ''
    VARIANTS = ('plain',)
    QUICK = 400          # number of cases in the quick tier
    QUICK_S = 150        # upper bound on the search time of the quick tier
    THOROUGH_S = 900     # search time of the thorough tier
    LEVEL = 'exploration'
    RULE = ''
    REAL = 'player, scenario engine, controllers, road manager and common code of the repository, unmodified, in one process'
    STUB = 'clock, entropy, thread scheduler, UDP sockets and file error returns (simulated)'
    ASSUME = []

    def gen(self, rng, tier, i):
        raise NotImplementedError

    def runs(self, case):
        raise NotImplementedError

    def judge(self, case, res):
        raise NotImplementedError

    def stats(self, case, res):
        """-> dict(sig=hashable or None, tags=[...], simtime=s)"""
        return {'sig': res[0].digest() if res else None, 'tags': [], 'simtime': 0.0}

    def fixed(self):
        """cases that are always run first (regressions, known findings)"""
        return []

    def shrink(self, case):
        return generic_shrink(case)


def generic_shrink(case, path=()):
    """candidates: every list under a key named in case['_shrink'] with chunks removed; numbers under keys in case['_min']"""
    for key in case.get('_shrink', []):
        for (get, lst) in find_lists(case, key):
            n = len(lst)
            k = n // 2
            while k >= 1:
                for a in range(0, n, k):
                    c = copy.deepcopy(case)
                    l2 = get(c)
                    del l2[a:a + k]
                    yield c
                k //= 2
    for key, lo in case.get('_min', {}).items():
        v = case.get(key)
        if isinstance(v, int) and v > lo:
            for w in (lo, (lo + v) // 2, v - 1):
                c = copy.deepcopy(case)
                c[key] = w
                yield c
    for key in case.get('_drop', []):
        if case.get(key) is not None:
            c = copy.deepcopy(case)
            c[key] = None
            yield c


def find_lists(obj, key):
    out = []

    def walk(o, path):
        if isinstance(o, dict):
            for k, v in o.items():
                if k == key and isinstance(v, list) and v:
                    out.append((path + (k,), v))
                walk(v, path + (k,))
        elif isinstance(o, list):
            for i, v in enumerate(o):
                walk(v, path + (i,))
    walk({k: v for k, v in obj.items() if not k.startswith('_')}, ())

    def getter(path):
        def g(c):
            for p in path:
                c = c[p]
            return c
        return g
    return [(getter(p), l) for p, l in out]


# ------------------------------------------------------------------ execution
class Exec:
    def __init__(self, exes, scratch):
        self.exes, self.scratch = exes, scratch
        self.srv = {}

    def server(self, variant, fresh=False):
        if fresh and variant in self.srv:
            self.srv.pop(variant).stop()
        if variant not in self.srv:
            self.srv[variant] = Server(self.exes[variant], os.path.join(self.scratch, variant))
        return self.srv[variant]

    def execute(self, prop, case, fresh=False):
        out = []
        for i, r in enumerate(prop.runs(case)):
            v = r.variant or prop.VARIANTS[0]
            out.append(self.server(v, fresh and i == 0).run(r.plan, r.timeout, r.want))
        return out

    def close(self):
        for s in self.srv.values():
            s.stop()
        self.srv = {}
        shutil.rmtree(self.scratch, ignore_errors=True)


_W = {}


def _winit(propname, exes, base):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    _W['prop'] = load(propname)
    _W['ex'] = Exec(exes, os.path.join(base, f'w{os.getpid()}'))


def case_rng(seed, pid, i):
    return random.Random(f'{seed}:{pid}:{i}')


def _work(arg):
    seed, tier, i, fixed = arg
    prop, ex = _W['prop'], _W['ex']
    try:
        case = fixed if fixed is not None else prop.gen(case_rng(seed, prop.ID, i), tier, i)
        t0 = time.time()
        res = ex.execute(prop, case)
        vs = prop.judge(case, res)
        st = prop.stats(case, res)
        pr = {}
        for r in res:
            for k, v in r.probes().items():
                pr[k] = pr.get(k, 0) + v
        scheds = [r.sched()[1] for r in res if r.sched()[0] > 0]
        out = dict(i=i, n=len(res), viol=[(v.kind, v.msg) for v in vs], sig=hash_of(st.get('sig')), tags=st.get('tags', []),
                   simtime=st.get('simtime', 0.0), probes=pr, scheds=scheds, wall=time.time() - t0)
        if i in (0, 1, 2, 5, 11):
            out['sample'] = dict(case=i, tags=st.get('tags', []), plan=[l[:160] for l in prop.runs(case)[0].plan.split('\n')[:60]])
        if vs:
            out['case'] = case
        if i % 97 == 3:  # determinism probe: the same case again, in a fresh server process
            res2 = ex.execute(prop, case, fresh=True)
            out['det'] = [r.digest() for r in res] == [r.digest() for r in res2]
            if not out['det']:
                out['case'] = case
        return out
    except Exception:
        return dict(i=i, error=traceback.format_exc())


def hash_of(x):
    return None if x is None else hashlib.sha256(repr(x).encode()).hexdigest()[:20]


def load(pid):
    mod = importlib.import_module('props.' + pid.lower())
    return mod.PROP()


def confirm(ex, prop, case, kinds, times=2):
    """the same case twice more, each in a fresh process: identical digests and the same violation"""
    digs = []
    for _ in range(times):
        res = ex.execute(prop, case, fresh=True)
        digs.append([r.digest() for r in res])
        ks = {v.kind for v in prop.judge(case, res)}
        if not (ks & kinds):
            return False, f'violation did not recur (got {sorted(ks)})', digs
    if any(d != digs[0] for d in digs):
        return False, 'replay digests differ', digs
    return True, '', digs


def minimise(ex, prop, case, kind, budget_s):
    t0 = time.time()
    tried = 0
    progress = True
    while progress and time.time() - t0 < budget_s:
        progress = False
        for cand in prop.shrink(case):
            if time.time() - t0 > budget_s:
                break
            tried += 1
            try:
                res = ex.execute(prop, cand)
                ok = any(v.kind == kind for v in prop.judge(cand, res))
            except Exception:
                ok = False
            if ok:
                case = cand
                progress = True
                break
    # schedules: replace random schedules by the explicit list of decisions, then remove decisions
    for key in case.get('_sched', []):
        res = ex.execute(prop, case)
        sch = [s for s in res[case.get('_sched_run', 0)].schedule().split(',') if s]
        c = copy.deepcopy(case)
        c[key] = ['list', ','.join(sch)]
        if not same(ex, prop, c, kind):
            continue
        case = c
        k = max(1, len(sch) // 2)
        while k >= 1 and time.time() - t0 < 2 * budget_s:
            a = 0
            while a < len(sch) and time.time() - t0 < 2 * budget_s:
                s2 = sch[:a] + sch[a + k:]
                c = copy.deepcopy(case)
                c[key] = ['list', ','.join(s2)]
                tried += 1
                if same(ex, prop, c, kind):
                    case, sch = c, s2
                else:
                    a += k
            k //= 2
    return case, tried


def same(ex, prop, case, kind):
    try:
        res = ex.execute(prop, case)
        return any(v.kind == kind for v in prop.judge(case, res))
    except Exception:
        return False


# ------------------------------------------------------------------ known findings
def known(pid):
    out = []
    try:
        for l in open(os.path.join(VERIF, 'KNOWN_FINDINGS')):
            if l.startswith('known:') and f'property={pid} ' in l:
                kv = dict(x.split('=', 1) for x in l.split()[1:3])
                out.append((kv['kind'], l.split(None, 3)[3].strip()))
    except OSError:
        pass
    return out


# ------------------------------------------------------------------ the check
def check(pid, tier, seed):
    t_start = time.time()
    prop = load(pid)
    try:
        bt = {}
        exes = {}
        for v in prop.VARIANTS:
            exes[v], bt[v] = B.build(v)
    except B.BuildError as e:
        print(f'ERROR {e}', file=sys.stderr)
        return 3
    base = tempfile.mkdtemp(prefix=f'vsim_{pid}_')
    try:
        return _check(prop, tier, seed, exes, bt, base, t_start)
    finally:
        shutil.rmtree(base, ignore_errors=True)


def _check(prop, tier, seed, exes, bt, base, t_start):
    pid = prop.ID
    quick = tier == 'quick'
    budget = float(os.environ.get('VERIF_BUDGET', prop.QUICK_S if quick else prop.THOROUGH_S))
    nmax = prop.QUICK if quick else 10 ** 9
    kf = known(pid)
    fixed = prop.fixed()

    def tasks():
        for j, c in enumerate(fixed):
            yield (seed, tier, -1 - j, c)
        i = 0
        while i < nmax:
            yield (seed, tier, i, None)
            i += 1
    agg = dict(cases=0, runs=0, sigs=set(), tags={}, probes={}, scheds=set(), simtime=0.0, det=0, samples=[])
    viol = None
    knownhit = {}
    errors = []
    t0 = time.time()
    pool = mp.Pool(NPROC, _winit, (pid, exes, base))
    it = tasks()
    pend = []
    stop = False
    try:
        while True:
            while not stop and len(pend) < 3 * NPROC:
                t = next(it, None)
                if t is None or time.time() - t0 > budget:
                    stop = True
                    break
                pend.append(pool.apply_async(_work, (t,)))
            if not pend:
                break
            r = pend.pop(0).get(900)
            if 'error' in r:
                errors.append(r)
                stop = True
                break
            agg['cases'] += 1
            agg['runs'] += r['n']
            agg['simtime'] += r['simtime']
            if r['sig'] is not None:
                agg['sigs'].add(r['sig'])
            for t in r['tags']:
                agg['tags'][t] = agg['tags'].get(t, 0) + 1
            for k, v in r['probes'].items():
                agg['probes'][k] = agg['probes'].get(k, 0) + v
            agg['scheds'].update(r['scheds'])
            if len(agg['samples']) < 3 and r['sig'] and r.get('sample'):
                agg['samples'].append(r['sample'])
            if 'det' in r:
                agg['det'] += 1
                if not r['det']:
                    errors.append(dict(error=f"case {r['i']} is not repeatable: two runs of one plan differ", case=r.get('case')))
                    stop = True
                    break
            if r['viol']:
                new = [v for v in r['viol'] if not any(v[0] == k for k, _ in kf)]
                for v in r['viol']:
                    for k, w in kf:
                        if v[0] == k:
                            knownhit.setdefault(k, w)
                if new:
                    viol = (r['case'], new, r['i'])
                    break
    finally:
        pool.terminate()
        pool.join()
    wall_search = time.time() - t0
    rc = 0
    nviol = 0
    replay = None
    if errors:
        print('ERROR ' + errors[0]['error'], file=sys.stderr)
        if errors[0].get('case') is not None:
            p = save(pid, seed, errors[0]['case'], [('nondeterminism', errors[0]['error'])], None, 'error')
            print('case saved in ' + p, file=sys.stderr)
        rc = 2
    if viol:
        ex = Exec(exes, os.path.join(base, 'min'))
        case, vs, idx = viol
        kinds = {k for k, _ in vs}
        ok, why, digs = confirm(ex, prop, case, kinds)
        if not ok:
            print(f'ERROR case {idx} ({sorted(kinds)}): {why}; not reported as a violation', file=sys.stderr)
            save(pid, seed, case, vs, None, 'error')
            rc = 2
        else:
            kind = sorted(kinds)[0]
            small, tried = minimise(ex, prop, case, kind, 40 if quick else 180)
            ok, why, digs = confirm(ex, prop, small, {kind})
            if not ok:
                small = case
                ok, why, digs = confirm(ex, prop, small, {kind})
            msgs = [(v.kind, v.msg) for v in prop.judge(small, ex.execute(prop, small))]
            replay = save(pid, seed, small, msgs, digs[0], f'case{idx}')
            for k, m in msgs[:3]:
                print(f'  {k}: {m}')
            print(f'  seed={seed} case={idx} minimised with {tried} attempts')
            print(f'VIOLATION property={pid} replay={replay}', flush=True)
            rc = 1
            nviol = 1
        ex.close()
    for k, w in sorted(knownhit.items()):
        print(f'KNOWN-FINDING: property={pid} {w}')
    ev = dict(property=pid, tier=tier, seed=seed, level=prop.LEVEL,
              coverage=dict(evaluations=agg['cases'], distinct_nontrivial=len(agg['sigs']), rule=prop.RULE,
                            samples=agg['samples'], simulated_runs=agg['runs'],
                            runs_per_hour=int(agg['runs'] / max(wall_search, 1e-3) * 3600),
                            seeds_per_hour=int(agg['cases'] / max(wall_search, 1e-3) * 3600),
                            simulated_time_s=round(agg['simtime'], 3),
                            faults_injected={k: v for k, v in sorted(agg['probes'].items()) if k.startswith('fault.') or k == 'clock.jump'},
                            environment_events={k: v for k, v in sorted(agg['probes'].items()) if not k.startswith('fault.')},
                            case_kinds=dict(sorted(agg['tags'].items())),
                            distinct_interleavings=len(agg['scheds']),
                            interleaving_measure='hash of all scheduling decisions of a run with more than one live thread',
                            determinism_reruns=agg['det'], real=prop.REAL, stub=prop.STUB,
                            build_s={k: round(v, 1) for k, v in bt.items()}, search_s=round(wall_search, 2)),
              wall_s=round(time.time() - t_start, 2), assumptions=prop.ASSUME + BASE_ASSUME, violations=nviol)
    if replay:
        ev['coverage']['replay'] = replay
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print(f"{pid} {tier}: cases={agg['cases']} runs={agg['runs']} distinct={len(agg['sigs'])} interleavings={len(agg['scheds'])} "
          f"search={wall_search:.1f}s total={time.time() - t_start:.1f}s rc={rc}")
    return rc


BASE_ASSUME = ['the code is compiled with gcc without OSG, OSI and SUMO (those parts are not executed)',
               'one process, cooperative threads: switches happen at blocking calls, lock operations, clock reads and compiler-inserted points only']


def save(pid, seed, case, msgs, digs, tag):
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, f'{pid}_{seed}_{tag}.json')
    with open(p, 'w') as f:
        json.dump(dict(property=pid, seed=seed, violation=[list(m) for m in msgs], digests=digs, case=case), f, indent=1)
    return p


def replay(path):
    d = json.load(open(path))
    prop = load(d['property'])
    exes = {v: B.build(v)[0] for v in prop.VARIANTS}
    base = tempfile.mkdtemp(prefix='vsim_replay_')
    ex = Exec(exes, base)
    try:
        res = ex.execute(prop, d['case'])
        vs = prop.judge(d['case'], res)
        for v in vs:
            print(' ', v)
        same_d = d['digests'] is None or [r.digest() for r in res] == d['digests']
        print('replay', 'violates' if vs else 'does not violate', 'identical execution' if same_d else 'execution differs from the recorded one')
        if vs:
            print(f"VIOLATION property={d['property']} replay={path}")
        return 1 if vs else 0
    finally:
        ex.close()
