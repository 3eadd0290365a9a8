"""Parses simulator traces."""


class Obj:
    __slots__ = ('id', 't', 'x', 'y', 'z', 'h', 'p', 'r', 'speed', 'road', 'junction', 'lane', 's', 'tt', 'off', 'wa', 'wr', 'k', 'col', 'meta', 'lights', 'wheels', 'g')


class Frame:
    __slots__ = ('t', 'n', 'quit', 'pause', 'objs', 'order', 'ev', 'sensors', 'cb', 'missing')

    def __init__(self, t, n, qf, pf):
        self.t, self.n, self.quit, self.pause = t, n, qf, pf
        self.objs, self.order, self.sensors, self.missing = {}, [], {}, []


class Trace:
    """frames: snapshots; each event carries the index of the frame that follows it (fi)"""
    def __init__(self, text):
        self.frames, self.ev, self.rets, self.x, self.marks, self.fatal = [], [], {}, [], [], None
        self.seq = []   # everything in order: ('F', frame) ('E', ...) ('N', ...) ('B', ...) ('R', line, ret) ('X', [...]) ('Z', name)
        self.dump = []
        self.end = False
        cur = None
        o = None
        for l in text.split('\n'):
            c = l[:2]
            if c == 'T ':
                f = l.split()
                cur = Frame(float(f[1]), int(f[2]), int(f[3]), int(f[4]))
                self.frames.append(cur)
                self.seq.append(('F', cur))
            elif c == 'O ':
                f = l.split()
                if f[2] == 'MISSING':
                    cur.missing.append(int(f[1]))
                    continue
                o = Obj()
                o.id = int(f[1])
                o.t, o.x, o.y, o.z, o.h, o.p, o.r, o.speed = map(float, f[2:10])
                o.road, o.junction, o.lane = map(int, f[10:13])
                o.s, o.tt, o.off, o.wa, o.wr = map(float, f[13:18])
                o.k = o.col = o.meta = o.lights = o.wheels = o.g = None
                cur.objs[o.id] = o
                cur.order.append(o.id)
            elif c == 'K ':
                o.k = list(map(float, l.split()[2:]))
            elif c == 'C ':
                o.col = list(map(int, l.split()[2:]))
            elif c == 'M ':
                o.meta = l.split()[2:]
            elif c == 'I ':
                o.lights = l.split()[2:]
            elif c == 'W ':
                f = l.split()[2:]
                o.wheels = (int(f[0]), list(map(float, f[1:])))
            elif c == 'Q ' or c == 'QX':
                self.dump.append(l.split())
            elif c == 'G ':
                o.g = list(map(float, l.split()[2:]))
            elif c == 'S ':
                f = list(map(int, l.split()[1:]))
                cur.sensors[f[0]] = f[2:]
            elif c == 'E ':
                f = l.split(' ')
                e = ('E', int(f[1]), int(f[2]), f[3], f[4], len(self.frames))
                self.ev.append(e)
                self.seq.append(e)
            elif c == 'N ':
                f = l.split(' ')
                e = ('N', f[1], float(f[2]), len(self.frames))
                self.ev.append(e)
                self.seq.append(e)
            elif c == 'B ':
                f = l.split()
                self.seq.append(('B', int(f[1]), float(f[2]), float(f[3]), float(f[4]), float(f[5]), int(f[6]), len(self.frames)))
            elif c == 'R ':
                f = l.split()
                self.rets.setdefault(int(f[1]), []).append(int(f[2]))
                self.seq.append(('R', int(f[1]), int(f[2])))
            elif c == 'X ':
                f = l.split(' ')[1:]
                self.x.append(f)
                self.seq.append(('X', f))
            elif c == 'V ':
                f = l.split()
                self.seq.append(('V', int(f[1]), int(f[2]), len(self.frames)))
            elif c == 'Z ':
                self.marks.append((l[2:], len(self.frames)))
                self.seq.append(('Z', l[2:]))
            elif l == 'END':
                self.end = True
            elif l[:1] == '!':
                self.fatal = l[1:]

    def split(self, name):
        """trace text positions are lost here; use text.split('\\nZ name\\n') for raw comparisons"""
        raise NotImplementedError


def body(text):
    """the part of a raw trace that describes behaviour (without probes and schedule)"""
    out = []
    for l in text.split('\n'):
        if l[:2] in ('P ', 'D ', 'L '):
            continue
        out.append(l)
    return '\n'.join(out)
