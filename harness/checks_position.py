"""Positions (C15), as an abstract data type with units."""
import json
from copy import copy, deepcopy

from lib import Judge, attempt, grid, BAD

from pygcode.machine import Position, UNIT_IMPERIAL, UNIT_METRIC, Machine

POSSIBLE = 'XYZABCUVW'
PER = [1000]    # the specification's units of length per inch, for the history being made
UNIT = {'in': UNIT_IMPERIAL, 'mm': UNIT_METRIC}


def number(k, unit, rng=None):
    """Real coordinate for a length of k thousandths of an inch (or finer)"""
    n = PER[0]
    if unit == 'in':
        return k // n if (k % n == 0 and rng and rng.random() < .3) else k / float(n)
    return 25.4 * (k / float(n))


def length(x, unit):
    """Length shown by a real coordinate, or BAD if it's none"""
    if unit == 'in':
        return grid(x, PER[0], 1e-6)
    n = grid(x, 5 * PER[0], 1e-5)    # 25.4 / 1000 is 127 / 5000
    return n // 127 if n != BAD and n % 127 == 0 else BAD


def unit_name(u):
    return {UNIT_IMPERIAL: 'in', UNIT_METRIC: 'mm'}.get(u, '?')


class Broken(object):
    pass


def see(p):
    u = unit_name(p.unit)
    v = p.values
    for a in v:
        v[a] = 77.    # (results are the caller's)
    for w in p.words:
        w.value = 66.
    return {
        'ax': sorted(p.axes), 'u': u,
        'v': dict((a, length(x, u)) for (a, x) in p.values.items()),
        'w': dict((w.letter, length(w.value, u)) for w in p.words),
        'g': dict((a, length(getattr(p, a), u)) for a in sorted(p.axes)),
        'xyz': [length(x, u) for x in (p.vector.x, p.vector.y, p.vector.z)],
    }


BLIND = {'ax': [], 'u': '?', 'v': {'?': 0}, 'w': {'?': 0}, 'g': {'?': 0}, 'xyz': []}


class Registers(object):
    def __init__(self, rng):
        self.rng = rng
        self.p = {}
        self.fresh = {}
        self.events = []

    def emit(self, ev):
        ev['obs'] = {}
        for (n, p) in self.p.items():
            (r, x) = attempt(see, p)
            ev['obs'][n] = x if r == 'ok' else BLIND
        self.events.append(ev)

    def keep(self, to, ev, r, x, fresh=False):
        ev['res'] = r
        ev['to'] = to
        if r == 'ok':
            if not isinstance(x, Position):
                ev['res'] = 'crash'
            else:
                self.p[to] = x
                self.fresh[to] = fresh
        else:
            ev['err'] = x
        self.emit(ev)

    def new(self, to, ax, u, v):
        rng = self.rng
        kw = dict((a, number(k, u, rng)) for (a, k) in v.items())
        style = rng.choice(['str', 'list', 'set', 'class'])

        def act():
            if style == 'class':
                cls = type('Position', (Position,), {'default_axes': set(ax), 'default_unit': UNIT[u]})
                return cls(**kw)
            a = {'str': ''.join(ax), 'list': list(ax), 'set': set(ax)}[style]
            if u == 'mm' and rng.random() < .5:
                return Position(axes=a, **kw)
            return Position(axes=a, unit=UNIT[u], **kw)
        if style == 'class' and not set(ax) <= set(POSSIBLE):
            style = 'list'
        (r, x) = attempt(act)
        self.keep(to, {'op': 'new', 'ax': list(ax), 'u': u, 'v': v}, r, x, True)

    def binary(self, op, a, b, to):
        (p, q) = (self.p[a], self.p[b])
        (r, x) = attempt({
            'add': lambda: p + q, 'sub': lambda: p - q,
            'min': lambda: Position.min(p, q), 'max': lambda: Position.max(p, q),
        }[op])
        self.keep(to, {'op': op, 'a': a, 'b': b}, r, x)

    def scale(self, op, a, n, to):
        p = self.p[a]
        (r, x) = attempt((lambda: p * n) if op == 'mul' else (lambda: p / n))
        self.keep(to, {'op': op, 'a': a, 'n': n}, r, x)

    def unit(self, to, u):
        (r, x) = attempt(setattr, self.p[to], 'unit', UNIT[u])
        if r == 'ok' and u != 'in':
            pass
        self.fresh[to] = False
        self.emit({'op': 'unit', 'to': to, 'u': u, 'res': r})

    def put(self, to, v):
        p = self.p[to]
        u = unit_name(p.unit)
        kw = dict((a, number(k, u, self.rng)) for (a, k) in v.items())
        if len(kw) == 1 and self.rng.random() < .5:
            (r, x) = attempt(setattr, p, list(kw)[0], list(kw.values())[0])
        else:
            (r, x) = attempt(p.update, **kw)
        self.emit({'op': 'put', 'to': to, 'v': v, 'res': r})

    def copy(self, a, to):
        (r, x) = attempt(self.rng.choice([copy, deepcopy]), self.p[a])
        self.keep(to, {'op': 'copy', 'a': a}, r, x, self.fresh[a])

    def get(self, a, x):
        p = self.p[a]
        (r, v) = attempt(getattr, p, x)
        self.emit({'op': 'get', 'a': a, 'x': x, 'res': r,
                   'out': length(v, unit_name(p.unit)) if r == 'ok' else BAD})

    def bad(self, a):
        rng = self.rng
        p = self.p[a]
        act = rng.choice([
            lambda: setattr(p, 'unit', 17), lambda: setattr(p, rng.choice(POSSIBLE), 1 / 0),
            lambda: p.update(Q=1.), lambda: Position(axes='XYQ'), lambda: p / 0,
            lambda: p + 1, lambda: Position(axes='XY', Z=1.), lambda: Position(axes='XY', Q=1.),
        ])
        (r, x) = attempt(act)
        self.emit({'op': 'bad', 'a': a, 'res': r})

    def eq(self, a, b):
        (p, q) = (self.p[a], self.p[b])
        ev = {'op': 'eq', 'a': a, 'b': b, 'eq': False, 'ne': False}
        fresh = self.fresh[a] and self.fresh[b]
        # (numbers were given as they'd be converted)
        ev['sure'] = fresh or a == b or exact(p, q)

        def act():
            (e, n) = (p == q, p != q)
            (ev['eq'], ev['ne']) = (e is True, n is True)
        (ev['res'], x) = attempt(act)
        self.emit(ev)


def exact(p, q):
    """Are these numbers equal, however one is converted?"""
    (v, w) = (dict(p.values), dict(q.values))
    if set(v) != set(w):
        return False
    if p.unit == q.unit:
        return v == w
    if unit_name(p.unit) == 'mm':
        (v, w) = (w, v)
    return all(v[a] * 25.4 == w[a] for a in v)


def pair(s, rng, axes):
    """Positions that are equal, or nearly, or only look equal"""
    v = dict((a, 0) for a in axes)
    v.update(some_values(rng, axes))
    w = dict(v)
    (ax, u1, u2) = (list(axes), rng.choice(['in', 'mm']), rng.choice(['in', 'mm']))
    r = rng.random()
    a = rng.choice(ax)
    if r < .3:
        w[a] += rng.choice([1, -1, 1000, -2 * w[a], 25])
    elif r < .4:
        extra = [x for x in POSSIBLE if x not in ax]
        if extra and rng.random() < .5:
            ax.append(rng.choice(extra))
        elif len(ax) > 1:
            ax.remove(a)
            del w[a]
    elif r < .6:
        # the same numbers of another unit
        (u1, u2) = rng.choice([('in', 'mm'), ('mm', 'in')])
        small = dict((x, 1000 * rng.randint(-3, 3)) for x in axes)
        big = dict((x, small[x] * 127 // 5) for x in axes)
        (v, w) = (big, small) if u1 == 'in' else (small, big)
    rng.shuffle(ax)
    s.new('r', axes, u1, v)
    s.new('s', ax, u2, w)
    s.eq('r', 's')
    s.eq('s', 'r')


def explain(events, i, info):
    out = []
    for e in events[max(0, i - 6):i]:
        out.append(json.dumps(dict((k, v) for (k, v) in e.items() if k != 'obs'))[:300])
    out.append(json.dumps(events[i])[:1500])
    return '\n'.join(out)


def some_axes(rng):
    return rng.choice([list('XYZ'), list('XYZ'), list('XYZA'), list('XY'), list(POSSIBLE), list('X'), list('ZXY'),
                       [a for a in POSSIBLE if rng.random() < .5] or ['Y']])


def some_values(rng, axes, p=.6):
    return dict((a, rng.choice([0, 1000, -1000, 1, -1, 2500, rng.randint(-9999, 9999), 10 * rng.randint(-500, 500)]))
                for a in axes if rng.random() < p)


def random_history(rng, length, mixed):
    s = Registers(rng)
    names = ['p', 'q', 'r', 's']
    axes = some_axes(rng)
    for n in names[:3]:
        ax = axes if rng.random() < .8 else some_axes(rng)
        s.new(n, ax, rng.choice(['in', 'mm']), some_values(rng, ax))
    for _ in range(length):
        have = sorted(s.p)
        r = rng.random()
        (a, b, to) = (rng.choice(have), rng.choice(have), rng.choice(names))
        if r < .12:
            ax = axes if rng.random() < .8 else some_axes(rng)
            v = some_values(rng, ax)
            if rng.random() < .2:
                v.update(some_values(rng, POSSIBLE, .1))
            s.new(to, ax, rng.choice(['in', 'mm']), v)
        elif r < .42:
            op = rng.choice(['add', 'sub', 'min', 'max'])
            if op in ('add', 'sub') and s.p[a].unit != s.p[b].unit:
                s.unit(a, unit_name(s.p[b].unit))   # (other units' sums are not specified)
            s.binary(op, a, b, to)
        elif r < .52:
            n = rng.choice([0, 1, 2, 3, -1, -2])
            big = max([abs(k) for k in see(s.p[a])['v'].values()] or [0])
            if big < 10 ** 7:
                s.scale('mul', a, n, to)
        elif r < .58:
            v = see(s.p[a])['v'].values()
            ds = [d for d in (1, 2, 5, 10, -1) if all(k % d == 0 for k in v)]
            s.scale('div', a, rng.choice(ds), to)
        elif r < .68:
            s.unit(a, rng.choice(['in', 'mm']))
        elif r < .78:
            v = some_values(rng, s.p[a].axes, .4)
            if rng.random() < .15:
                v.update(some_values(rng, POSSIBLE, .2))
            s.put(a, v or {'X': 500})
        elif r < .84:
            s.copy(a, to)
        elif r < .86:
            s.eq(a, b)
        elif r < .90:
            pair(s, rng, axes if rng.random() < .5 else some_axes(rng))
        elif r < .96:
            s.get(a, rng.choice(POSSIBLE))
        else:
            s.bad(a)
    return s.events


def replay(rng, run):
    """A behaviour generated from the specification, on real positions"""
    s = Registers(rng)
    name = {1: 'p', 2: 'q'}
    first = run['r0']
    for k in (1, 2):
        s.new(name[k], sorted(first[k - 1]['ax']), first[k - 1]['u'], {})
    for h in run['h'][1:]:
        (op, args, to) = (h['op'], h['args'], name[h['to']])
        if op in ('add', 'sub', 'min', 'max'):
            s.binary(op, name[args[0]], name[args[1]], to)
        elif op in ('mul', 'div'):
            s.scale(op, name[args[0]], args[1], to)
        elif op == 'unit':
            s.unit(to, args[1])
        elif op == 'put':
            s.put(to, {args[1]: args[2]})
    return s.events


def c15(check):
    rng = check.rng
    j = Judge('TR_Positions')
    # behaviours of the specification: all of a small model
    depth = 2 if check.quick else 3
    tlc = check.model('MC_Positions', 'INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n'
                      'CONSTANTS\n  Axes = {"X", "Y"}\n  Vals <- SomeVals\n  MaxAbs = 100000\n  Depth = %d\n'
                      'INVARIANT Typed Emit\nPROPERTY Frame RejectionsChangeNothing\n' % depth)
    runs = tlc.lines('RUN')
    check.extra['behaviours_generated'] = len(runs)
    rng.shuffle(runs)
    for x in runs[:1500 if check.quick else 12000]:
        j.add(replay(rng, json.loads('|'.join(x).replace('\\"', '"'))))
    for k in range(200 if check.quick else 3000):
        PER[0] = rng.choice([1000, 1000, 100000, 1000000])
        j.add(random_history(rng, 30, k % 4 == 0))
    PER[0] = 1000
    check.judge(j, explain=explain)
    check.sample([dict((k, v) for (k, v) in e.items() if k != 'obs') for e in j.traces[-1][:5]])
