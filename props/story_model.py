"""Executable reference model of the storyboard: element life cycle, priorities, triggers, value conditions.
Works on the same JSON models as vsim.osc.  Element states: 1 standby, 2 running, 3 complete (0 init)."""
INIT, STANDBY, RUNNING, COMPLETE = 0, 1, 2, 3
EPS = 1e-6
LONG, LAT = 1, 2


class Cond:
    def __init__(self, c, sb):
        self.c, self.sb = c, sb
        self.delay = float(c.get('delay', 0) or 0)
        self.edge = c.get('edge', 'none')
        self.last = False          # raw result of the last evaluation
        self.evaluated = False
        self.hist, self.idx = [], 0
        self.value = False
        self.queue, self.latest = [], [None, None]

    def reset(self):
        self.hist, self.idx, self.value = [], 0, False
        self.queue = []

    def raw(self, t):
        c = self.c
        k = c['k']
        if k == 'time':
            return rule_d(t, float(c['v']), c['rule'])
        if k in ('var', 'param'):
            store = self.sb.vars if k == 'var' else self.sb.params
            ty, v = store[c['p']]
            if ty == 'double':
                return rule_d(v, float(c['v']), c['rule'])
            if ty == 'integer':
                return rule(v, int(c['v']), c['rule'])
            if ty == 'boolean':
                return rule(int(v), int(str(c['v']).lower() == 'true'), c['rule'])
            return rule(v, str(c['v']), c['rule'])
        if k == 'state':
            self.latest = [self.latest[0], None]
            if not self.queue:
                return self.match(self.latest)
            r = any(self.match(x) for x in self.queue)
            self.latest = list(self.queue[-1])
            self.queue = []
            return r
        raise ValueError(k)

    def match(self, x):
        w = self.c['state']
        return {'standbyState': x[0] == STANDBY, 'runningState': x[0] == RUNNING, 'completeState': x[0] == COMPLETE,
                'startTransition': x[1] == 'start', 'endTransition': x[1] == 'end', 'stopTransition': x[1] == 'stop',
                'skipTransition': x[1] == 'skip'}[w]

    def evaluate(self, t):
        raw = self.raw(t)
        if self.edge == 'none':
            cur = raw
        elif not self.evaluated:
            cur = False
        elif self.edge == 'rising':
            cur = raw and not self.last
        elif self.edge == 'falling':
            cur = self.last and not raw
        else:
            cur = raw != self.last
        self.last = raw
        self.evaluated = True
        self.register(t, cur)
        adj = self.value_at(t - self.delay)
        if adj and not self.value:
            self.sb.emit('N', self.c['name'], t)
        self.value = adj
        return adj

    def register(self, t, v):
        h = self.hist
        if not h:
            h.append([t, v])
        elif t < h[-1][0] + EPS:
            i = next((i for i, x in enumerate(h) if not x[0] < t), len(h))
            if i == len(h):
                h.append([t, v])
            elif h[i][0] == t:
                if h[i][1] != v:
                    if i == 0:
                        h[i][1] = v
                    else:
                        del h[i:i + 2]
            elif h[i][1] == v:
                h[i][0] = t
            elif i + 1 < len(h):
                h[i + 1][0] = t
            elif i == 0:
                h.insert(0, [t, v])
        elif v != h[-1][1]:
            h.append([t, v])

    def value_at(self, t):
        h = self.hist
        if not h:
            return False
        if 0 < self.idx <= len(h) and t < h[self.idx - 1][0] - EPS:
            self.idx = next((i for i, x in enumerate(h) if x[0] < t + EPS), 0)
        if self.idx >= len(h):
            return h[-1][1]
        r = False
        if t > h[self.idx][0] - EPS:
            while self.idx < len(h) and t > h[self.idx][0] - EPS:
                r |= h[self.idx][1]
                self.idx += 1
        elif self.idx > 0:
            r = h[self.idx - 1][1]
        return r


def rule(a, b, r):
    return {'greaterThan': a > b, 'lessThan': a < b, 'equalTo': a == b, 'greaterOrEqual': a >= b, 'lessOrEqual': a <= b, 'notEqualTo': a != b}[r]


def rule_d(a, b, r):
    eq = a == b or (b - EPS < a < b + EPS)
    return {'greaterThan': a > b + EPS, 'lessThan': a < b - EPS, 'equalTo': eq, 'greaterOrEqual': a >= b - EPS, 'lessOrEqual': a <= b + EPS, 'notEqualTo': not eq}[r]


class Trigger:
    def __init__(self, groups, default, sb):
        self.groups = [[Cond(c, sb) for c in g] for g in groups]
        self.default = default
        sb.conds += [c for g in self.groups for c in g]

    def evaluate(self, t):
        if not self.groups:
            return self.default
        res = False
        for g in self.groups:
            ok = bool(g)
            for c in g:
                if ok or c.delay > 0:
                    ok = c.evaluate(t) and ok
            res |= ok
        if res:
            for g in self.groups:
                for c in g:
                    c.evaluated = False
        return res

    def reset(self):
        for g in self.groups:
            for c in g:
                c.reset()


class El:
    def __init__(self, sb, kind, name, parent):
        self.sb, self.kind, self.name, self.parent = sb, kind, name, parent
        self.path = '%00' if kind == 'storyboard' else name if parent is None or parent.kind == 'storyboard' else parent.path + '::' + name
        self.state, self.trans, self.n, self.max = INIT, None, 0, 1
        self.children, self.start_tr, self.stop_tr, self.watch = [], None, None, []
        if parent is not None:
            parent.children.append(self)

    def set(self, st):
        if self.state != st:
            self.sb.emit('E', self.path, st)
            for c in self.watch:
                c.queue.append([st, self.trans])
            self.state = st

    def base_start(self, t):
        if self.state == INIT and self.start_tr:
            self.trans = 'standby'
            self.set(STANDBY)
        elif self.state in (INIT, STANDBY) or self.n:
            self.trans = 'start'
            self.set(RUNNING)
            self.n += 1
        if self.kind != 'event' and self.state == RUNNING:
            for c in self.children:
                c.start(t)

    def start(self, t):
        self.base_start(t)

    def step(self, t, dt):
        if self.state == RUNNING:
            for c in self.children:
                c.step(t, dt)

    def eval(self, t):
        if self.state == RUNNING and self.stop_tr and self.stop_tr.evaluate(t):
            self.stop()
            if self.kind == 'storyboard':
                self.stop()
        if self.state == STANDBY and (not self.start_tr or self.start_tr.evaluate(t)):
            self.start(t)
        if self.state == RUNNING:
            for c in self.children:
                c.eval(t)

    def stop(self):
        for c in self.children:
            c.stop()
        if self.state in (INIT, COMPLETE):
            return
        self.trans = 'stop'
        self.set(COMPLETE)
        if self.parent:
            self.parent.propagate()

    def end(self):
        if self.state == COMPLETE:
            return
        for c in self.children:
            if c.state == RUNNING:
                c.end()
        if self.state == COMPLETE:
            return
        if self.state in (RUNNING, STANDBY):
            self.trans = 'end'
            if self.kind in ('group', 'event') and (self.max == -1 or self.n < self.max):
                if self.start_tr:
                    self.start_tr.reset()
                if self.stop_tr:
                    self.stop_tr.reset()
                self.set(STANDBY)
                for c in self.children:
                    c.reset()
            else:
                self.set(COMPLETE)
        if self.parent:
            self.parent.propagate()

    def propagate(self):
        if self.kind != 'storyboard' and self.state != COMPLETE and all(c.state == COMPLETE for c in self.children):
            self.end()

    def reset(self):
        for c in self.children:
            c.reset()
        self.state, self.trans = INIT, None
        for tr in (self.start_tr, self.stop_tr):
            if tr:
                tr.reset()


class Event(El):
    def start(self, t):
        man = self.parent
        if self.prio in ('override', 'overwrite'):
            if self.state == RUNNING:
                return
            for e in man.children:
                if e is not self and e.state == RUNNING:
                    e.end()
        elif self.prio == 'skip':
            if any(e.state == RUNNING for e in man.children):
                return
        elif self.state == RUNNING:
            return
        self.base_start(t)
        if self.state != RUNNING:
            return
        if not self.children:
            self.end()
            return
        for a in self.children:
            if a.obj is not None:
                for b in self.sb.init_actions:
                    if b.obj == a.obj and b.state == RUNNING and b.dom & a.dom:
                        b.end()
                for e in self.sb.events:
                    if a.obj in e.actors:
                        for b in e.children:
                            if b is not a and b.obj == a.obj and b.state == RUNNING and b.dom & a.dom:
                                b.end()
            a.start(t)

    def step(self, t, dt):
        for a in self.children:
            if a.state == RUNNING:
                a.step(t, dt)


class Action(El):
    def __init__(self, sb, a, obj, parent):
        super().__init__(sb, 'action', a['name'], parent)
        self.a, self.obj = a, obj
        k = a['k']
        self.dom = {'speed': LONG, 'lanechange': LAT, 'traj': LAT}.get(k, 0)
        self.p = 0.0

    def start(self, t):
        a = self.a
        if a['k'] in ('var', 'param'):
            store = self.sb.vars if a['k'] == 'var' else self.sb.params
            ty, v = store[a['p']]
            if 'v' in a:
                v = {'double': float, 'integer': int, 'boolean': lambda x: str(x).lower() == 'true', 'string': str}[ty](a['v'])
            elif 'add' in a:
                v = v + int(a['add']) if ty == 'integer' else v + a['add'] if ty == 'double' else v
            else:
                v = int(v * a['mul']) if ty == 'integer' else v * a['mul'] if ty == 'double' else v
            store[a['p']] = (ty, v)
        self.base_start(t)
        self.p = 0.0

    def step(self, t, dt):
        a = self.a
        if a['k'] in ('var', 'param'):
            self.stop()
        elif a['k'] == 'speed' and not a.get('cont'):
            T = a['dyn'][2]
            if a['dyn'][0] == 'step':
                self.end()
                return
            if not (T > 0.0 and self.p > T - EPS):
                self.p = min(max(self.p + dt, 0.0), T)
            if self.p > T - EPS:
                self.end()
        # everything else runs until it is ended from outside


KINDS = {'act': 'act', 'event': 'event', 'maneuverGroup': 'group', 'maneuver': 'maneuver', 'story': 'story', 'action': 'action'}


class Storyboard(El):
    def __init__(self, m):
        self.out, self.conds, self.events = [], [], []
        self.vars = {n: (ty, conv(ty, v)) for n, ty, v in m.get('vars', [])}
        self.params = {n: (ty, conv(ty, v)) for n, ty, v in m.get('params', [])}
        super().__init__(self, 'storyboard', '', None)
        self.init_actions = []
        for o in m['objects']:
            for a in o['init']:
                if a['k'] != 'teleport':
                    self.init_actions.append(Action(self, dict(a, name=f'Init%20{o["name"]}%20LongitudinalAction'), o['name'], None))
        for s in m['stories']:
            S = El(self, 'story', s['name'], self)
            for a in s['acts']:
                A = El(self, 'act', a['name'], S)
                for g in a['groups']:
                    G = El(self, 'group', g['name'], A)
                    G.max = g.get('max', 1)
                    for mn in g['mans']:
                        M = El(self, 'maneuver', mn['name'], G)
                        for e in mn['events']:
                            E = Event(self, 'event', e['name'], M)
                            E.prio, E.max = e.get('prio', 'parallel'), e.get('max') or 1
                            if e.get('max') == -1:
                                E.max = -1
                            E.actors = set()
                            self.events.append(E)
                            for x in e['actions']:
                                if x['k'] in ('var', 'param'):
                                    Action(self, x, None, E)
                                else:
                                    E.actors |= set(g['actors'])
                                    for ob in g['actors']:
                                        Action(self, x, ob, E)
                            E.start_tr = Trigger(e.get('start') or [], True, self)
                if a.get('start') is not None:
                    A.start_tr = Trigger(a['start'], True, self)
                if a.get('stop') is not None:
                    A.stop_tr = Trigger(a['stop'], False, self)
        self.stop_tr = Trigger(m.get('stop') or [], False, self)
        els = {}

        def walk(e):
            els.setdefault((e.kind, e.name), e)
            for c in e.children:
                walk(c)
        walk(self)
        for c in self.conds:
            if c.c['k'] == 'state':
                els[(KINDS[c.c['et']], c.c['ref'])].watch.append(c)

    def emit(self, *a):
        self.out.append(a)

    def frame(self, t, dt, first=False):
        """one engine step; returns what happened"""
        self.out = []
        if first:
            for a in self.init_actions:
                a.state, a.n = RUNNING, 1
            self.start(t)
        self.eval(t)
        for a in self.init_actions:
            if a.state == RUNNING:
                a.step(t, dt)
        self.step(t, dt)
        return self.out


def conv(ty, v):
    return {'double': float, 'integer': int, 'boolean': lambda x: str(x).lower() == 'true', 'string': str}[ty](v)
