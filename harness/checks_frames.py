"""Geometric helpers (C28): alignment, coordinate systems, projections, planes; judged by Frames."""
import itertools
import json

from lib import Judge, attempt, micro

from pygcode import gcodes as G
from pygcode.block import Block
from pygcode.machine import Machine
from pygcode.utils import Vector3, quat2align, quat2coord_system, plane_projection

ONE = 10000
CLOSE = 100000000
AXES = [(1, 0, 0), (0, 1, 0), (0, 0, 1)]


def cross(a, b):
    return (a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0])


def vector(v, k=1.):
    return Vector3(*[x * k for x in v])


def seen(v, scale=ONE):
    return [micro(v.x, scale), micro(v.y, scale), micro(v.z, scale)]


def rotation(q, inverse=False):
    if inverse:
        q = q.conjugated()
    return [seen(q * vector(a)) for a in AXES]


def some_vector(rng, n):
    while True:
        v = tuple(rng.choice([0, 0, 1, -1, rng.randint(-n, n), rng.randint(-n, n)]) for _ in AXES)
        if any(v):
            return v


def perpendicular(rng, n):
    while True:
        (a, u) = (some_vector(rng, n), some_vector(rng, n))
        b = cross(a, u)
        if any(b):
            return (a, b) if rng.random() < .5 else (b, a)


class Use(object):
    """Calls a helper, recording whether its arguments were left alone"""
    def __init__(self, rng):
        self.rng = rng
        self.events = []

    def args(self, *vs):
        # directions: any length
        self.given = [vector(v, self.length(v)) for v in vs]
        self.before = [(v.x, v.y, v.z) for v in self.given]
        return self.given

    def length(self, v):
        if any(v) and self.rng.random() < .3:    # (nearly) a unit vector
            return (1 + self.rng.choice([0, .002, .01, -.01, .05, -.04])) / sum(x * x for x in v) ** .5
        return self.rng.choice([1., 1., .1, 7., 1e-3, 1e3, 1 / 3.])

    def emit(self, ev, r, x):
        ev['res'] = r
        ev['kept'] = [(v.x, v.y, v.z) for v in self.given] == self.before
        if r != 'ok':
            ev['err'] = x
        self.events.append(ev)

    def align(self, a, b):
        (p, q) = self.args(a, b)
        if self.rng.random() < .2:
            (p, q) = self.given = [p.normalized(), q.normalized()]
            self.before = [(v.x, v.y, v.z) for v in self.given]
            (r, x) = attempt(lambda: rotation(quat2align(p, q, normalize=False)))
        else:
            (r, x) = attempt(lambda: rotation(quat2align(p, q)))
        self.emit({'op': 'align', 'a': a, 'b': b, 'R': x if r == 'ok' else []}, r, x)

    def frame(self, o1, o2, a1, a2, want=None):
        vs = self.args(o1, o2, a1, a2)
        (r, x) = attempt(lambda: rotation(quat2coord_system(*vs)))
        ev = {'op': 'frame', 'o': [o1, o2], 'to': [a1, a2], 'R': x if r == 'ok' else []}
        if want is not None:
            ev.update(op='known', want=want)
        self.emit(ev, r, x)

    def recipe(self, v1, v2, z, x_):
        """The documented recipe: accumulating alignments"""
        (p1, p2, t1, t2) = self.args(v1, v2, z, x_)

        def act():
            q1 = quat2align(p1, t1)
            q2 = quat2align(q1 * p2, t2)
            return rotation(q2 * q1)
        (r, x) = attempt(act)
        # (opposite directions: which way to turn isn't documented)
        q1 = attempt(lambda: quat2align(p1, t1) * p2)
        if q1[0] == 'ok' and q1[1].normalized().dot(t2.normalized()) < -0.999:
            return
        self.emit({'op': 'frame', 'o': [v1, v2], 'to': [z, x_], 'R': x if r == 'ok' else []}, r, x)

    def onto(self, a, b):
        """A direction turned onto an axis (which it may nearly be along), seen closely"""
        (p, q) = self.args(a, b)
        k = 1. / sum(x * x for x in a) ** .5
        (r, x) = attempt(lambda: seen(quat2align(p, q) * vector(a, k), CLOSE))
        self.emit({'op': 'onto', 'a': [micro(x, 1) for x in a], 'b': b, 'p': x if r == 'ok' else []}, r, x)

    def project(self, v, n):
        self.args(v, n)
        self.given = [vector(v), self.given[1]]
        self.before = [(w.x, w.y, w.z) for w in self.given]
        (r, x) = attempt(lambda: seen(plane_projection(*self.given), 1000))
        self.emit({'op': 'project', 'v': v, 'n': n, 'p': x if r == 'ok' else []}, r, x)

    def plane(self, k):
        rng = self.rng
        how = rng.choice(['class', 'block', 'mode', 'copy'])

        def act():
            if how == 'class':
                g = {17: G.GCodeSelectXYPlane, 18: G.GCodeSelectZXPlane, 19: G.GCodeSelectYZPlane}[k]
            elif how == 'block':
                g = Block('G%d' % k).gcodes[0]
            else:
                m = Machine()
                m.process_str('G%d' % k)
                g = m.mode.plane_selection
                if how == 'copy':
                    g = g.modal_copy()
            R = rotation(g.quat)
            if rng.random() < .5:    # (the way back, transposed)
                R = [list(x) for x in zip(*rotation(g.quat, True))]
            return (R, seen(g.normal), g.normal_axis, sorted(g.plane_axes))
        self.given, self.before = [], []
        (r, x) = attempt(act)
        (R, n, l, ax) = x if r == 'ok' else ([], [], '', [])
        self.emit({'op': 'plane', 'plane': k, 'how': how, 'R': R, 'normal': n, 'letter': l, 'axes': ax}, r, x)


def tuples(text):
    return json.loads(text.replace('<<', '[').replace('>>', ']'))


def explain(events, i, info):
    return json.dumps(events[i])[:900] if i < len(events) else ''


def c28(check):
    rng = check.rng
    j = Judge('TR_Frames')
    tlc = check.model('MC_Frames', 'INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n'
                      'INVARIANT TypeOK Unique Third Always Agree Refute Emit\n')
    frames = tlc.lines('FRAME')
    check.extra['frames_generated'] = len(frames)
    u = Use(rng)
    for (f, g, R) in frames:
        (f, g) = (tuples(f), tuples(g))
        u.frame(f[0], f[1], g[0], g[1], tuples(R))
    dirs = [tuple(s * x for x in a) for a in AXES for s in (1, -1)]
    for (a, b) in itertools.product(dirs, dirs):
        u.align(a, b)
    for k in (17, 18, 19):
        for _ in range(8):
            u.plane(k)
    j.add(u.events)
    for _ in range(60 if check.quick else 2000):
        u = Use(rng)
        for _ in range(60):
            r = rng.random()
            if r < .08:
                b = [0, 0, 0]
                a = [0, 0, 0]
                k = rng.randrange(3)
                b[k] = rng.choice([1, -1])
                a[k] = rng.choice([1, 1, -1, 0]) * 10 ** rng.randint(1, 8)
                for x in rng.sample([0, 1, 2], rng.choice([1, 2])):
                    if x != k:
                        a[x] = rng.choice([1, -1, 2, 7, -50])
                if any(a):
                    u.onto(tuple(a), tuple(b))
            elif r < .35:
                a = some_vector(rng, 30)
                k = rng.choice([1, -1, 2, -3])
                y = rng.random()
                if y < .5:
                    b = some_vector(rng, 30)
                elif y < .75:      # parallel, or opposite
                    b = tuple((x * k) for x in a) if max(map(abs, a)) < 11 else a
                else:              # nearly so
                    b = list(tuple(x * rng.choice([1, -1]) for x in a) if rng.random() < .2 else
                             [x * (1 if k > 0 else -1) for x in a])
                    b[rng.randrange(3)] += rng.choice([1, -1])
                    b = tuple(b) if any(b) else a
                if rng.random() < .25:   # much nearer
                    n = rng.choice([100, 300, 1000, 3000])
                    a = rng.choice([(n, 0, 0), (0, n, 0), (0, 0, -n), (n, -n // 2, n // 3), (n, n, -n)])
                    s = rng.choice([1, -1, -1])
                    b = [s * x for x in a]
                    b[rng.randrange(3)] += rng.choice([1, -1, 2])
                    b = tuple(b)
                u.align(a, b)
            elif r < .63 and rng.random() < .1:
                # axes that are nearly the same, or opposite
                (n, e) = (rng.choice([30, 100, 200]), rng.choice([1, -1]))
                p = rng.choice([(0, 1, 2), (1, 2, 0), (2, 1, 0)])
                at = lambda v: tuple(v[k] for k in p)
                (f, g) = ((at((n, 0, 0)), at((0, n, 0))), rng.choice([
                    (at((n, e, 0)), at((e, -n, 0))), (at((-n, e, 0)), at((e, n, 0))), (at((n, 0, e)), at((0, -n, 0))),
                    (at((-n, 0, 0)), at((0, -n, e))), (at((n, 0, 0)), at((0, -n, e))), (at((n, e, 0)), at((-e, n, 0)))]))
                u.frame(f[0], f[1], g[0], g[1])
            elif r < .6:
                (f, g) = (perpendicular(rng, 9), perpendicular(rng, 9))
                if rng.random() < .3:
                    (s, t) = rng.choice([(1, 1), (1, -1), (-1, 1), (-1, -1)])
                    g = (tuple(s * x for x in f[0]), tuple(t * x for x in f[1]))
                u.frame(f[0], f[1], g[0], g[1])
            elif r < .7:
                (f, g) = (perpendicular(rng, 9), perpendicular(rng, 9))
                u.recipe(f[0], f[1], g[0], g[1])
            elif r < .95:
                u.project(rng.choice([(0, 0, 0), some_vector(rng, 30), some_vector(rng, 30)]), some_vector(rng, 30))
            else:
                u.plane(rng.choice([17, 18, 19]))
        j.add(u.events)
    check.judge(j, explain=explain)
    check.sample(j.traces[-1][:3])
