"""Linearised arcs (C17, C18), judged by the specification Arc."""
import json
import math
from decimal import Decimal

from lib import Judge, attempt

from pygcode import gcodes as G
from pygcode import transform as T
from pygcode.machine import Position
from pygcode.words import Word
from pygcode.block import Block

SIZE = 10000        # the radius, in the specification's unit
PLANES = {17: G.GCodeSelectXYPlane, 18: G.GCodeSelectZXPlane, 19: G.GCodeSelectYZPlane}
UVN = {17: (0, 1, 2), 18: (2, 0, 1), 19: (1, 2, 0)}
METHODS = {'inside': T.ArcLinearizeInside, 'outside': T.ArcLinearizeOutside, 'mid': T.ArcLinearizeMid}
TRIPLES = [(3, 4, 5), (5, 12, 13), (8, 15, 17), (7, 24, 25), (20, 21, 29), (12, 35, 37), (9, 40, 41), (1, 0, 1), (28, 45, 53)]
CLAMP = 30000


class Arc(object):
    """A command: everything needed to run it, and its description for the specification"""
    def __init__(self, **kw):
        self.__dict__.update(kw)

    def describe(self):
        s = self.scale
        given = {}
        for (l, v) in self.params.items():
            given[l] = int(v) if l == 'P' else int(round(v * s))
        return {
            'op': 'arc', 'ccw': self.ccw, 'plane': self.plane, 'inc': self.inc, 'incarc': self.incarc,
            'from': [int(round(x * s)) for x in self.start], 'given': given,
            'e': int(math.floor(self.e * s)), 'method': self.method,
            'rnd': int(math.ceil(0.0005 * s)), 'slk': int(math.ceil(self.step * s)) if self.step else 0, 'c': [int(round(x * s)) for x in self.c], 'r': int(round(self.r * s)),
        }

    def run(self, rng, how=None):
        """Lines, as the code under test makes them: texts"""
        cls = G.GCodeArcMoveCCW if self.ccw else G.GCodeArcMoveCW
        how = how or rng.choice(['kw', 'words', 'text'])
        if how == 'text' and self.exact_text:
            text = ('G3' if self.ccw else 'G2') + ' ' + ' '.join(
                '%s%s' % (l, ('%.6f' % v).rstrip('0')) if l != 'P' else 'P%d' % v for (l, v) in self.params.items())
            arc = Block(text).gcodes[0]
        elif how == 'words':
            arc = cls(Word('G', 3 if self.ccw else 2), *[Word(l, v) for (l, v) in self.params.items()])
        else:
            arc = cls(**self.params)
        kw = dict(method_class=METHODS[self.method], max_error=self.e)
        if self.plane != 17 or rng.random() < .7:
            kw['plane'] = PLANES[self.plane]()
        if self.inc or rng.random() < .7:
            kw['dist_mode'] = (G.GCodeIncrementalDistanceMode if self.inc else G.GCodeAbsoluteDistanceMode)()
        if not self.incarc or rng.random() < .7:
            kw['arc_dist_mode'] = (G.GCodeIncrementalArcDistanceMode if self.incarc else G.GCodeAbsoluteArcDistanceMode)()
        if self.method == 'mid' and rng.random() < .3:
            del kw['method_class']
        if abs(self.e - 0.01) < 1e-12 and rng.random() < .5:
            del kw['max_error']
        pos = Position(axes='XYZ', **dict(zip('XYZ', self.start)))
        before = str(arc)
        lines = []
        for g in T.linearize_arc(arc, pos, **kw):
            assert type(g) is G.GCodeLinearMove, 'not a line: %r' % g
            lines.append(str(g))
            if len(lines) > 5000:
                raise OverflowError('too many lines')
        if str(arc) != before or [pos.X, pos.Y, pos.Z] != list(self.start):
            raise OverflowError('arguments were changed')
        return lines

    def follow(self, lines):
        """Absolute positions, in the specification's unit, of executing the lines' texts"""
        at = [Decimal(repr(float(x))) for x in self.start]
        out = []
        for text in lines:
            ws = text.split()
            assert ws[0] in ('G01', 'G1'), text
            for w in ws[1:]:
                k = 'XYZ'.index(w[0])
                v = Decimal(w[1:])
                at[k] = at[k] + v if self.inc else v
            p = [int(round(float(x) * self.scale)) for x in at]
            (u, v, n) = UVN[self.plane]
            c = [int(round(x * self.scale)) for x in self.c]
            for (k, cc) in ((u, c[0]), (v, c[1]), (n, int(round(self.start[n] * self.scale)))):
                p[k] = max(cc - CLAMP, min(cc + CLAMP, p[k]))
            out.append(p)
        return out

    def trace(self, rng):
        head = self.describe()
        (r, x) = attempt(self.run, rng)
        pts = None
        if r == 'ok':
            (r, pts) = attempt(self.follow, x)
            if r != 'ok':
                (r, x) = ('crash', pts)
        head['res'] = r
        if r != 'ok':
            head['err'] = x
            return [head]
        return [head] + [{'op': 'line', 'p': p} for p in pts] + [{'op': 'end'}]

    def info(self):
        return dict((k, v) for (k, v) in self.__dict__.items())


def in_3d(plane, uv, n):
    p = [0., 0., 0.]
    (a, b, c) = UVN[plane]
    (p[a], p[b], p[c]) = (uv[0], uv[1], n)
    return p


def random_arc(rng, quick=True):
    plane = rng.choice([17, 17, 18, 19])
    ccw = rng.random() < .5
    inc = rng.random() < .4
    incarc = rng.random() < .7
    form = rng.choice('CCCR')
    rounded = form == 'C' and rng.random() < .35
    exact = rng.random() < .5
    # radius, centre, start and end in the plane
    if exact:
        (a, b, h) = rng.choice(TRIPLES)
        k = rng.choice([1, 1, 2, 0.5, 0.25, 3, 10])
        r = h * k

        def on_circle():
            (x, y) = rng.choice([(a, b), (b, a), (0, h), (h, 0)])
            return (x * k * rng.choice([1, -1]), y * k * rng.choice([1, -1]))
        c = [rng.choice([0, 0, 1, -2, 2.5, round(rng.uniform(-2, 2) * r, 1)]) for _ in 'uv']
        (s, f) = (on_circle(), on_circle())
    else:
        r = rng.choice([1., 10., 100., round(10 ** rng.uniform(-0.3, 2.5), 3)])
        c = [rng.choice([0., rng.uniform(-2, 2) * r]) for _ in 'uv']
        a1 = rng.choice([0, math.pi / 2, math.pi, -math.pi / 2, rng.uniform(-math.pi, math.pi)])
        sweep = rng.choice([math.pi / 2, math.pi / 4, 3 * math.pi / 2, rng.uniform(0.05, 6.2), rng.uniform(0.01, 0.3), 6.25])
        if form == 'R' and abs(sweep - math.pi) < 0.08:
            sweep = 2.
        if rng.random() < .1:
            sweep = rng.choice([0.004, 0.006, 0.009, 0.015, 6.27, 6.277])   # a chord much shorter than the radius
        if rounded and rng.random() < .15:
            sweep = 2 * math.pi - rng.choice([0.5, 0.2, 0.1, 0.03, 0.01])   # the ends near to each other
        a2 = a1 + sweep * (1 if ccw else -1)
        s = (r * math.cos(a1), r * math.sin(a1))
        f = (r * math.cos(a2), r * math.sin(a2))
    step = 0
    full = rng.random() < .12
    if full and form == 'C':
        f = s
    if form == 'R' and math.hypot(s[0] - f[0], s[1] - f[1]) < 0.0035 * r:
        f = (-s[0], -s[1])
    scale = SIZE / float(r)
    if rounded:
        # rounded, as programs have them (fewer decimals for larger arcs)
        places = rng.choice([2, 3, 3, 4]) - int(math.floor(math.log10(r)))
        step = 10. ** -places
        (s, f) = [tuple(round(c[k] + x[k], places) - c[k] for k in (0, 1)) for x in (s, f)]
    # the axis normal to the plane
    z0 = rng.choice([0., 1., -2.5, round(rng.uniform(-1, 1) * r, 2)])
    dz = rng.choice([0., 0., 0., 0.25 * r, -0.3 * r, 0.55 * r, round(rng.uniform(-.5, .5) * r, 3)])
    start = in_3d(plane, (c[0] + s[0], c[1] + s[1]), z0)
    end = in_3d(plane, (c[0] + f[0], c[1] + f[1]), z0 + dz)
    centre = in_3d(plane, c, rng.choice([z0, z0, 0., 7.]) if not incarc else z0)
    (u, v, n) = UVN[plane]
    params = {}
    for k in (u, v, n):
        val = end[k] - start[k] if inc else end[k]
        same = end[k] == start[k]
        if same and rng.random() < .6:
            continue
        params['XYZ'[k]] = val
    if not params:
        params['XYZ'[u]] = 0. if inc else end[u]
    if form == 'R':
        d = (f[0] - s[0], f[1] - s[1])
        # on which side of the chord is the centre?  (s x f as seen from the centre)
        less = (s[0] * f[1] - s[1] * f[0]) > 0
        less = less == ccw
        params['R'] = r if less else -r
    else:
        for k in (u, v):
            val = centre[k] - start[k] if incarc else centre[k]
            if step:
                val = round(val, places)
            if val == 0 and rng.random() < .5:
                continue
            params['IJK'[k]] = val
        if not any(l in params for l in 'IJK'):
            params['IJK'[u]] = centre[u] - start[u] if incarc else centre[u]
        if rng.random() < .05:
            params['IJK'[n]] = 0. if incarc else z0
    if rng.random() < .15:
        params['P'] = rng.choice([1, 1, 2, 3])
    many = rng.random() < .01
    if many:
        params['P'] = rng.choice([7, 12, 25, 40])
        dz = rng.choice([0., 0.05 * r, -0.04 * r])
        end[n] = start[n] + dz
        params.pop('XYZ'[n], None)
        if dz or len(params) < 2 or not any(l in params for l in 'XYZ'):
            params['XYZ'[n]] = dz if inc else end[n]
    if rng.random() < .3:
        keys = list(params)
        rng.shuffle(keys)
        params = dict((k, params[k]) for k in keys)
    e = r * rng.choice([0.3, 0.1, 0.05, 0.02, 0.01, 0.005, 0.002, 1.0, 0.7, 1.5, 10 ** rng.uniform(-2.7, 0)])
    if r <= 10 and rng.random() < .2:
        e = 0.01
    if rng.random() < .12:
        e = r * rng.choice([2.2, 5., 30., 100., 300.])   # more than the radius allows no more than the radius
    if 'P' in params or not quick:
        e = max(e, r * (0.005 if many else 0.002))
    return Arc(plane=plane, ccw=ccw, inc=inc, incarc=incarc, start=start, params=params, e=e, scale=scale, c=c, r=r, step=step,
               method=rng.choice(['inside', 'outside', 'mid', 'mid']), exact_text=exact)


def broken_arc(rng):
    """An arc that cannot be, or that is ambiguous"""
    while True:
        a = random_arc(rng)
        p = a.params
        kind = rng.choice(['both', 'neither', 'zero', 'same', 'short', 'centre'])
        if kind == 'both' and 'R' not in p:
            p['R'] = a.r
        elif kind == 'both':
            p[rng.choice('IJK')] = rng.choice([0., 1., a.r])
        elif kind == 'neither':
            for l in 'IJKR':
                p.pop(l, None)
        elif kind == 'zero' and 'R' in p:
            p['R'] = 0.
        elif kind == 'same' and 'R' in p:
            (u, v, n) = UVN[a.plane]
            for k in (u, v):
                p['XYZ'[k]] = 0. if a.inc else a.start[k]
        elif kind == 'short' and 'R' in p:
            (u, v, n) = UVN[a.plane]
            big = 2 * a.r * rng.choice([1.01, 1.1, 1.5, 0.8])
            p['R'] = rng.choice([1, -1]) * big / 2 * rng.choice([0.9, 0.5, 0.99])
            p['XYZ'[u]] = big if a.inc else a.start[u] + big
            p['XYZ'[v]] = 0. if a.inc else a.start[v]
        elif kind == 'centre' and 'R' not in p:
            (u, v, n) = UVN[a.plane]
            for k in (u, v):
                p['IJK'[k]] = 0. if a.incarc else a.start[k]
                p['XYZ'[k]] = 0. if a.inc else a.start[k]
        else:
            continue
        return a


def explain(events, i, info):
    return 'arc: %s\nlines: %s\nevent: %s' % (json.dumps(events[0]), json.dumps([e['p'] for e in events[1:i] if 'p' in e][-6:]),
                                             json.dumps(events[i]) if i < len(events) else '')


def arcs(check, n, broken):
    rng = check.rng
    j = Judge('TR_Arc')
    for k in range(n):
        a = random_arc(rng, check.quick)
        j.add(a.trace(rng), a.info())
    for k in range(broken):
        a = broken_arc(rng)
        j.add(a.trace(rng), a.info())
    return j


def run(check, n, broken):
    j = arcs(check, n, broken)
    mine = check.prop + ':'
    res = j.run()
    check.states += res['states']
    check.transitions += res['transitions']
    check.traces += res['traces']
    check.events += sum(len(t) for t in j.traces)
    check.extra['opens'] = res['opens']
    check.extra['arcs_accepted'] = sum(1 for t in j.traces if t[0]['res'] == 'ok')
    for (t, i, clauses) in res['failures']:
        names = [c.strip(' {}') for c in clauses.split(',')]
        if not any(c.startswith(mine) for c in names):
            continue
        check.violation('arc %d step %d: %s\n%s' % (t, i, clauses, explain(j.traces[t], i, j.info[t])),
                        {'events': j.traces[t][:i + 1], 'info': j.info[t], 'clauses': clauses})
    check.sample(j.traces[0][:4])


def c17(check):
    run(check, 4000 if check.quick else 40000, 0)


def c18(check):
    run(check, 3500 if check.quick else 40000, 800 if check.quick else 8000)
