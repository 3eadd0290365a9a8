"""Shared parts of the checks of the remote control server (player_server) and the ego state server."""
import struct
from vsim import gen
from vsim.core import Prop, Run, V
from vsim.trace import Trace

APORT = 48197
EPORT = 48199


def speed(oid, v, shape=3, dim=2, val=0.0):
    return struct.pack('<iiiidiid', 1, 0, oid, 0, v, shape, dim, val)


def lane(oid, mode, target, shape=0, dim=2, val=1.0):
    return struct.pack('<iiiiiiiid', 2, 0, oid, mode, target, shape, dim, 0, val)


def offset(oid, off, acc=1.0, shape=0):
    return struct.pack('<iiiiddii', 3, 0, oid, 0, off, acc, shape, 0)


def simple(t):
    return struct.pack('<i', t)


def stepdt(dt):
    return struct.pack('<iid', 7, 0, dt)


PLAY, PAUSE, STEP, QUIT = 4, 5, 6, 8


def base_model(rng, nobj, kind='flat', length=500.0):
    objs = []
    for i in range(nobj):
        objs.append(dict(name=f'O{i}', kind='vehicle', init=[dict(k='teleport', pos=['lane', 1, -2, gen.r2(rng, 10, 60) + 40 * i, 0.0]),
                                                              dict(k='speed', v=gen.r2(rng, 3, 15), dyn=['step', 'time', 0.0])]))
    return dict(road=dict(kind=kind, length=length), objects=objs, stories=[])


def sched(rng):
    return ['random', rng.randrange(1, 2 ** 40), rng.choice([1, 3, 10, 30, 100, 400])]


def sched_line(s):
    return 'sched ' + ' '.join(str(x) for x in s)
