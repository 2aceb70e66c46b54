"""Expanded canned cycles (C19), judged by the specification Drill."""
import itertools

from lib import Judge, attempt, grid, BAD
from mach import enc_gcode

from pygcode import Block
from pygcode import gcodes as G
from pygcode.machine import Machine, Position
from pygcode.transform import simplify_canned_cycle
from pygcode.words import Word

CYCLES = {
    73: G.GCodeDrillingCycleChipBreaking, 81: G.GCodeDrillingCycle, 82: G.GCodeDrillingCycleDwell,
    83: G.GCodeDrillingCyclePeck, 85: G.GCodeBoringCycleFeedOut, 89: G.GCodeBoringCycleDwellFeedOut,
}
LETTERS = {73: 'XYZRLQ', 83: 'XYZRLQ', 81: 'XYZRLP', 82: 'XYZRLP', 85: 'XYZRLP', 89: 'XYZRLP'}


def fmt(l, v):
    """:param v: thousandths, or a number of repeats"""
    return '%s%d' % (l, v) if l == 'L' else '%s%s' % (l, ('%.3f' % (v / 1000.)).rstrip('0').rstrip('.'))


class Cycle(object):
    def __init__(self, cycle, given, start, inc, toR, axes='XYZ', offset=None):
        self.cycle, self.given, self.start, self.inc, self.toR = cycle, given, start, inc, toR
        self.axes, self.offset = axes, offset

    def machine(self):
        m = type('M', (Machine,), {'axes': set(self.axes)})()
        if self.offset:
            m.process_block(Block('G10 L2 P1 ' + ' '.join(fmt(l, v) for (l, v) in self.offset.items())))
            m.state.coord_systems[1].offset = Position(
                axes=m.axes, **dict((l, v / 1000.) for (l, v) in self.offset.items()))
        m.process_block(Block('G0 ' + ' '.join(fmt(l, v) for (l, v) in zip('XYZ', self.start))))
        m.process_block(Block('%s %s' % ('G91' if self.inc else 'G90', 'G99' if self.toR else 'G98')))
        return m

    def command(self, rng):
        how = rng.choice(['text', 'words', 'kw', 'modal'])
        items = list(self.given.items())
        rng.shuffle(items)
        text = ' '.join(fmt(l, v) for (l, v) in items)
        if how == 'text':
            return Block('G%d %s' % (self.cycle, text)).gcodes[0]
        cls = CYCLES[self.cycle]
        params = dict((l, v if l == 'L' else v / 1000.) for (l, v) in items)
        if how == 'words':
            return cls(Word('G', self.cycle), *[Word(l, v) for (l, v) in params.items()])
        return cls(**params)

    def expand(self, rng):
        m = self.machine()
        c = self.command(rng)
        kw = {}
        if rng.random() < .5:
            kw['plane'] = m.mode.plane_selection
        if self.inc or rng.random() < .5:
            kw['dist_mode'] = m.mode.distance
        if self.toR or rng.random() < .5:
            kw['retract_mode'] = m.mode.canned_cycles_return
        if len(self.axes) > 3 or rng.random() < .5:
            kw['axes'] = m.axes
        before = str(c)
        pos = m.pos
        out = []
        for g in simplify_canned_cycle(c, pos, **kw):
            out.append(g)
            if len(out) > 3000:
                raise OverflowError('too many commands')
        if str(c) != before or pos != m.pos:
            raise OverflowError('arguments were changed')
        return out

    def direct(self, rng):
        m = self.machine()
        if rng.random() < .5:
            m.process_gcodes(self.command(rng))
        else:
            m.process_block(Block('G%d %s' % (self.cycle, ' '.join(fmt(l, v) for (l, v) in self.given.items()))))
        return at(m)

    def head(self):
        return {'op': 'cycle', 'cycle': self.cycle, 'given': self.given, 'from': list(self.start),
                'inc': self.inc, 'toR': self.toR}

    def trace(self, rng):
        head = self.head()
        (r, x) = attempt(self.expand, rng)
        head['res'] = r
        if r != 'ok':
            head['err'] = x
            return [head]
        events = [head]
        (a, b) = (self.machine(), self.machine())

        def follow():
            for g in x:
                (w, ps) = enc_gcode(g)
                ev = {'op': 'cmd', 'w': w[1] if w[0] == 'G' else -1,
                      'ps': dict((l, grid(v, 1000, 2e-3)) for (l, v) in g.get_param_dict().items()),
                      'text': str(g)}
                a.process_gcodes(g)
                b.process_block(Block(str(g)))
                (ev['obj'], ev['txt']) = (at(a), at(b))
                events.append(ev)
        (r, x2) = attempt(follow)
        if r != 'ok':
            events.append({'op': 'cmd', 'w': -1, 'ps': {}, 'obj': [], 'txt': [], 'err': x2})
            return events
        (r, d) = attempt(self.direct, rng)
        events.append({'op': 'end', 'direct': d if r == 'ok' else [BAD] * 3})
        return events


def at(m):
    return [grid(getattr(m.pos, a), 1000, 2e-3) for a in 'XYZ']


def random_cycle(rng, wild=True):
    cycle = rng.choice(sorted(CYCLES))
    inc = rng.random() < .5
    step = rng.choice([1000, 1000, 500, 100, 10, 1, 125, 333])
    num = lambda lo, hi: rng.randint(lo, hi) * step  # noqa
    start = [num(-8, 8), num(-8, 8), num(-3, 12)]
    given = {}
    # levels
    hole = num(1, 9) if rng.random() > .08 else rng.choice([0, num(-3, 0)])
    if inc:
        given['R'] = num(-4, 6) if rng.random() < .7 else 0
        given['Z'] = -hole
        if start[2] < start[2] + given['R'] - hole and wild:
            pass
    else:
        given['R'] = start[2] + rng.choice([0, num(-3, 3), num(-6, 0), num(0, 6)])
        given['Z'] = given['R'] - hole
    for l in 'XY':
        if rng.random() < .75:
            given[l] = num(-6, 6)
    if not ('X' in given or 'Y' in given) and rng.random() < .7:
        given['X'] = num(-6, 6)
    if 'Q' in LETTERS[cycle]:
        r = rng.random()
        if r < .85:
            given['Q'] = max(1, hole // rng.choice([1, 2, 3, 4, 5, 7, 10]))
            if rng.random() < .4:
                given['Q'] = num(1, 4)
            if hole > 60 * given['Q']:
                given['Q'] = max(1, hole // 50)
        elif r < .92:
            given['Q'] = 0
        if rng.random() < .07 and 'Q' in given:
            given['Q'] = -given['Q']
    if 'P' in LETTERS[cycle] and rng.random() < .6:
        given['P'] = rng.choice([500, 250, 1000, 2500, 10, 125, 0])
    if rng.random() < .5:
        given['L'] = rng.choice([0, 1, 1, 2, 3, 4, 5])
    if wild and rng.random() < .03:
        given.pop(rng.choice(['R', 'Z']), None)
    if start[2] < 0 and rng.random() < .5:
        start[2] = -start[2]
    return Cycle(cycle, given, start, inc, rng.random() < .5, rng.choice(['XYZ', 'XYZ', 'XYZA', 'XYZABC', 'XYZABCUVW']),
                 {'X': 1000, 'Z': -500} if rng.random() < .2 else None)


def every_cycle(quick):
    """All cycles of a small grid"""
    for (cycle, inc, toR) in itertools.product(sorted(CYCLES), (False, True), (False, True)):
        qs = (None, 1000, 1500, 300) if cycle in (73, 83) else (None,)
        for (z0, r, hole, q, l, x) in itertools.product(
                (0, 2000), (-1000, 0, 1000), (0, 1000, 3000), qs, (None, 2), (None, 1000)):
            if quick and (z0 // 1000 + r // 1000 + hole // 1000 + (l or 0) + (x or 0) // 1000 + cycle) % 5:
                continue
            given = {'R': r if inc else z0 + r, 'Z': -hole if inc else z0 + r - hole}
            for (k, v) in (('Q', q), ('L', l), ('X', x)):
                if v is not None:
                    given[k] = v
            given['Y'] = 500
            yield Cycle(cycle, given, [0, 0, z0], inc, toR)


def other_planes(check):
    """The expansion is refused in planes it does not support, as are threading cycles"""
    for (plane, cycle) in itertools.product((G.GCodeSelectZXPlane, G.GCodeSelectYZPlane), sorted(CYCLES)):
        kw = dict(X=1, Y=1, Z=-1, R=1)
        if cycle in (73, 83):
            kw['Q'] = 1
        (r, x) = attempt(lambda: list(simplify_canned_cycle(CYCLES[cycle](**kw), Position(Z=2), plane=plane())))
        if r == 'crash':
            check.violation('expanding G%d in the plane %s: %s' % (cycle, plane.__name__, x), {'cycle': cycle})


def explain(events, i, info):
    return 'cycle: %s\ncommands: %s\nat: %s' % (events[0], [e.get('text') for e in events[1:i + 1]], events[min(i, len(events) - 1)])


def c19(check):
    check.model('MC_Drill', 'SPECIFICATION Spec\nINVARIANT Inv\nINVARIANT CutFirst\nCHECK_DEADLOCK FALSE\n'
                'CONSTANT Big = %s\n' % ('FALSE' if check.quick else 'TRUE'))
    rng = check.rng
    j = Judge('TR_Drill')
    for c in every_cycle(check.quick):
        j.add(c.trace(rng))
    for k in range(900 if check.quick else 15000):
        j.add(random_cycle(rng).trace(rng))
    other_planes(check)
    check.judge(j, explain=explain)
    check.extra['cycles_expanded'] = sum(1 for t in j.traces if t[0]['res'] == 'ok')
    check.sample([e.get('text', e) for e in j.traces[0]])
