"""Conversion of absolute moves to increments (C20), judged by the specification Rel."""
import json

from lib import Judge, attempt, grid, category
from gtext import num

from pygcode import gcodes as G
from pygcode.gcodes import _gcodes_abs2rel
from pygcode.machine import Position
from pygcode.words import Word

CLASSES = dict((c.word_key, c) for c in vars(G).values()
               if isinstance(c, type) and issubclass(c, G.GCode) and getattr(c, 'word_key', None) is not None)

OTHERS = [  # commands that are not motions
    (['G', 40], {'P': 500}), (['G', 40], {'P': 2000}), (['M', 30], {}), (['M', 50], {}), (['M', 80], {}),
    (['G', 980], {}), (['G', 990], {}), (['G', 170], {}), (['G', 940], {}), (['G', 800], {}), (['M', 60], {}), (['M', 70], {}), (['M', 90], {}),
]
BAD_MOTIONS = [
    (['G', 20], {'X': 1000, 'Y': 500, 'R': 9000}), (['G', 30], {'X': 2000, 'I': 1000}), (['G', 810], {'X': 1000, 'Z': -1000, 'R': 1000}),
    (['G', 830], {'X': 1000, 'Z': -1000, 'R': 1000, 'Q': 500}), (['G', 330], {'Z': -1000, 'K': 1000}),
]


class FeedStop(object):
    """Something that is not a command"""


def build(rng, w, ps, scale):
    word = Word(w[0], num(w[0], w[1]))
    cls = CLASSES[word]
    if rng.random() < .3 and len(ps) > 1:
        keys = list(ps)
        rng.shuffle(keys)
        ps = dict((k, ps[k]) for k in keys)
    if rng.random() < .5:
        return cls(**dict((l, v / scale) for (l, v) in ps.items()))
    return cls(word, *[Word(l, v / scale) for (l, v) in ps.items()])


def encode(g, scale):
    from gtext import enc_word
    return (enc_word(g.word), dict((l, grid(v, scale, 2e-3)) for (l, v) in g.get_param_dict().items()))


MODES = {'inc': G.GCodeIncrementalDistanceMode, 'abs': G.GCodeAbsoluteDistanceMode}


def convert(rng, at, axes, mode, cmds, foreign=False, generator=True, scale=1000.):
    """:return: trace"""
    start = Position(axes=set(axes), **dict((a, v / scale) for (a, v) in at.items()))
    kw = {}
    if mode != 'none' or rng.random() < .5:
        kw['dist_mode'] = None if mode == 'none' else MODES[mode]()
    if set(axes) != set('XYZ') or rng.random() < .5:
        kw['axes'] = rng.choice([set, ''.join, list])(sorted(axes))
        if not isinstance(kw['axes'], set) and set(axes) != set('XYZ'):
            kw['axes'] = set(axes)
    given = [FeedStop() if k == 'foreign' else build(rng, w, ps, scale) for (k, w, ps) in cmds]
    texts = [str(g) if isinstance(g, G.GCode) else None for g in given]
    events = [{'op': 'begin', 'at': at, 'axes': sorted(axes), 'mode': mode}]
    for (k, w, ps) in cmds:
        events.append({'op': 'in', 'k': 'other' if k == 'foreign' else k, 'w': w, 'ps': ps})
    before = str(start)
    outs = []

    def run():
        if generator:
            @_gcodes_abs2rel(start, **kw)
            def f(n, more=0):
                for g in given[:n + more]:
                    yield g
        else:
            @_gcodes_abs2rel(start, **kw)
            def f(n, more=0):
                return list(given[:n + more])
        half = rng.randint(0, len(given))
        for g in f(half, more=len(given) - half):
            outs.append(g)
    (r, x) = attempt(run)
    for g in outs:
        same = [k for (k, o) in enumerate(given) if o is g]
        if isinstance(g, G.GCode):
            (w, ps) = encode(g, scale)
        else:
            (w, ps) = (['?', 0], {})
        events.append({'op': 'out', 'w': w, 'ps': ps, 'same': bool(same), 'text': str(g)})
    if [str(g) if isinstance(g, G.GCode) else None for g in given] != texts or str(start) != before:
        (r, x) = ('crash', 'arguments were changed')
    ev = {'op': 'end', 'res': r}
    if r != 'ok':
        ev['err'] = x
    events.append(ev)
    return events


def random_list(rng, axes):
    step = rng.choice([1000, 500, 100, 10, 1])
    cmds = []
    at = dict((a, rng.randint(-9, 9) * step) for a in axes)
    last = dict(at)
    for k in range(rng.choice([1, 2, 4, 8, 14])):
        r = rng.random()
        if r < .8:
            some = rng.sample(sorted(axes), rng.randint(1, len(axes))) if rng.random() < .6 else [rng.choice(sorted(axes))]
            ps = {}
            for a in some:
                ps[a] = last[a] if rng.random() < .3 else rng.randint(-9, 9) * step
                if rng.random() < .1:
                    ps[a] = 0
                last[a] = ps[a]
            cmds.append(('move', ['G', rng.choice([0, 10])], ps))
        elif r < .93:
            (w, ps) = rng.choice(OTHERS)
            cmds.append(('other', w, dict(ps)))
        elif r < .96:
            cmds.append(('foreign', ['?', 0], {}))
        elif rng.random() < .4:
            (w, ps) = rng.choice(BAD_MOTIONS)
            cmds.append(('bad', w, dict(ps)))
    return (at, cmds)


def explain(events, i, info):
    return '\n'.join(json.dumps(e) for e in events[:i + 1])


def c20(check):
    rng = check.rng
    tlc = check.model('MC_Rel', 'SPECIFICATION Spec\nINVARIANT Inv Emit\nCHECK_DEADLOCK FALSE\n'
                      'CONSTANT Depth = %d\nCONSTANT Vals <- SmallVals\n' % (2 if check.quick else 3))
    runs = [json.loads('|'.join(x).replace('\\"', '"')) for x in tlc.lines('RUN')]
    check.extra['behaviours_generated'] = len(runs)
    if not runs:
        raise RuntimeError('no behaviours')
    # behaviours of the specification, replayed
    replayed = 0
    j = Judge('TR_Rel')
    for x in runs:
        cmds = [(c['k'], c['w'], c['ps']) for c in x['cmds']]
        events = convert(rng, x['at'], 'XYZ', rng.choice(['inc', 'inc', 'none']), cmds, generator=rng.random() < .8)
        outs = [[e['w'], e['ps']] for e in events if e['op'] == 'out']
        want = [[c['w'], c['ps'] or {}] for c in x['out']]
        replayed += 1
        ok = events[-1]['res'] == 'ok'
        if ok != x['ok'] or (ok and outs != want):
            check.violation('replayed behaviour: expected %s, %s\n%s' % (
                x['ok'], json.dumps(want), explain(events, len(events), None)), {'run': x, 'events': events})
        if rng.random() < .1:
            j.add(convert(rng, x['at'], 'XYZ', 'abs', cmds))
    check.extra['behaviours_replayed'] = replayed
    for k in range(2400 if check.quick else 20000):
        axes = rng.choice(['XYZ', 'XYZ', 'XYZA', 'XYZABC', 'XYZABCUVW', 'XY', 'XZ'])
        (at, cmds) = random_list(rng, axes)
        j.add(convert(rng, at, axes, rng.choice(['inc', 'inc', 'inc', 'none', 'abs']), cmds, generator=rng.random() < .8,
                      scale=rng.choice([1000., 1000., 1e5, 1e6])))
    check.judge(j, explain=explain)
    check.sample(j.traces[-1])
