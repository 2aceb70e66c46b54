"""Checks of properties decided with the machine specification (TR_Machine)."""
import itertools
import json

from lib import Judge, attempt
from mach import Recorder, make_word, build
from gen import Gen, coord, value
from gtext import GROUPS, NONMODAL, CANNED, MOVES, PARAMS, ALL_CODES, code, render, spell, plain, use_unit

from model import replay

import pygcode
from pygcode import gcodes as G
from pygcode.words import Word

AXES = ['XYZ', 'XYZ', 'XYZ', 'XYZA', 'XYZABC', 'XYZABCUVW', 'ZYX']


def laws(check, invariants):
    """Laws of the specification of blocks itself, on every list of a few words"""
    check.model('MC_Blocks', 'INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nCONSTANT Longest = %d\nINVARIANT %s\n' % (
        3 if check.quick else 4, invariants))


def explain(events, i, info):
    """The program leading to the failing event, and that event"""
    out = []
    for e in events[:i + 1][-12:]:
        x = '%s %s %s' % (e['op'], e.get('m', ''), e.get('text', '') or e.get('ws', ''))
        if 'res' in e and e['res'] != 'ok':
            x += '   -> %s' % e['res']
        out.append(x)
    if i < len(events):
        e = dict(events[i])
        out.append(json.dumps(e)[:1500])
    return '\n'.join(out)


def judge(check, j):
    check.judge(j, explain=explain)
    for t in j.traces[:2]:
        check.sample([
            {'op': e['op'], 'text': e.get('text', ''), 'res': e.get('res', '')} for e in t[:8]])


def boots(rng, g, k):
    """Default modes: the library's own, none, or random ones"""
    if k % 3 == 1:
        return []
    if k % 3 == 2:
        return [g.mode_words() for _ in range(rng.randint(1, 5))]
    return None


def offsets(rng, axes, frac=True):
    return dict((a, coord(rng, 9)) for a in axes)


UNITS = [1000, 1000, 1000, 100000, 1000000]


def programs(check, n, blocks, setup=None, boot=None, each=None, units=UNITS, **knobs):
    """n recorded programs on one machine

    :param units: numbers of the specification's units per mm, one for each program
    """
    rng = check.rng
    j = Judge('TR_Machine')
    for k in range(n):
        use_unit(rng.choice(units))
        r = Recorder(rng)
        axes = knobs.get('axes') or rng.choice(AXES)
        kw = dict(knobs)
        kw['axes'] = axes
        g = Gen(rng, **kw)
        b = boots(rng, g, k) if boot is None else boot(rng, g, k)
        r.new('a', axes, rng.random() < 0.15, b, rng.choice(['null', 'class']))
        if setup:
            setup(r, g, k)
        for _ in range(rng.randint(*blocks)):
            if each:
                each(r, g, k)
            else:
                r.block('a', g.block())
        j.add(r.events)
    use_unit()
    return j


# ---------------------------------------------------------------- C03
ALPHABET3 = [
    code('G1'), code('G2'), code('G81'), code('G4'), code('G10'), code('M6'), code('G41'), code('M66'),
    ['T', 3], ['F', 5000], ['X', 1500], ['X', -2000], ['P', 2000], ['Q', 500], ['L', 2], ['R', 1000], ['N', 7],
]


def c03(check):
    rng = check.rng
    laws(check, 'Once Accepted Given1 Fits')
    j = Judge('TR_Machine')
    # every sequence of up to 3 (thorough: 4) words of a small alphabet
    for n in range(1, 4 if check.quick else 5):
        r = Recorder(rng)
        for ws in itertools.product(ALPHABET3, repeat=n):
            if n == 4 and rng.random() > 0.5:
                continue
            r.group([list(w) for w in ws])
            if len(r.events) >= 400:
                j.add(r.events)
                r = Recorder(rng)
        j.add(r.events)
    # random blocks of many words, given as words and as text
    for k in range(320 if check.quick else 3000):
        r = Recorder(rng)
        g = Gen(rng, axes=rng.choice(AXES), modes=(0, 1, 2, 3, 4), nonmodal=0.4, junk=0.3, dup=0.1,
                shuffle=0.6, conflict=0.3)
        for _ in range(40):
            ws = g.block()
            if rng.random() < 0.1:
                rng.shuffle(ws)
                ws = ws + [['O', 55]]
            r.group(ws, rng.choice(['words', 'text', 'unverified']))
            if rng.random() < 0.4:
                r.parse(ws)
        j.add(r.events)
    # as seen by a machine: every word has its effect once
    jm = programs(check, 90 if check.quick else 1000, (10, 30), modes=(0, 1, 2, 3), nonmodal=0.3,
                  junk=0.2, shuffle=0.7, dup=0.05)
    j.traces += jm.traces
    j.info += jm.info
    judge(check, j)


# ---------------------------------------------------------------- C04
def c04(check):
    rng = check.rng
    laws(check, 'Sturdy Mirror')
    j = Judge('TR_Machine')
    units = [[code(c)] for c in ALL_CODES] + [
        [['F', 1000]], [['F', 2000]], [['S', 500]], [['S', 7000]], [['T', 1]], [['T', 2]], [['N', 1]], [['N', 2]]]
    r = Recorder(rng)
    for (a, b) in itertools.combinations_with_replacement(units, 2):
        ws = [list(w) for w in (a + b if rng.random() < 0.5 else b + a)]
        r.parse(ws)
        if len(r.events) >= 300:
            j.add(r.events)
            r = Recorder(rng)
    j.add(r.events)
    # more commands, with parameters
    for k in range(240 if check.quick else 2500):
        r = Recorder(rng)
        g = Gen(rng, axes=rng.choice(AXES), modes=(1, 2, 3, 4, 6), nonmodal=0.4, conflict=0.35, junk=0.05,
                dup=0.03, shuffle=0.3)
        for _ in range(30):
            ws = g.block()
            r.parse(ws)
            if rng.random() < 0.15:
                r.group(ws, 'unverified')
        # all groups at once, each command distinct
        for _ in range(6):
            ws = []
            for grp in rng.sample(sorted(GROUPS), rng.randint(5, len(GROUPS))):
                c = rng.choice(GROUPS[grp])
                ws.append([c, value(rng, c)] if len(c) == 1 else code(c))
            for c in rng.sample(NONMODAL, rng.randint(0, 5)):
                ws.append(code(c))
            rng.shuffle(ws)
            r.parse(ws)
            if rng.random() < 0.5:
                r.parse(ws + [list(rng.choice(ws))])
        j.add(r.events)
    # a machine rejects conflicting blocks, and is not changed by them
    jm = programs(check, 80 if check.quick else 800, (10, 30), modes=(1, 2, 3), conflict=0.3, nonmodal=0.2)
    j.traces += jm.traces
    j.info += jm.info
    judge(check, j)


# ---------------------------------------------------------------- C05
def c05(check):
    rng = check.rng
    j = Judge('TR_Machine')
    r = Recorder(rng)

    def flush(limit=400):
        if len(r.events) >= limit:
            j.add(r.events)
            return Recorder(rng)
        return r
    known = set(tuple(code(c)) for c in ALL_CODES)
    # every number that can be written
    todo = [['G', v] for v in range(0, 1000)] + [['M', v] for v in range(0, 1000)]
    todo += [['G', v] for v in range(1000, 2100, 10)] + [['M', v] for v in range(1000, 2100, 10)]
    for w in todo:
        r.table(w, plain(w))
        if tuple(w) in known:
            for _ in range(4):
                r.table(w, spell(rng, w))
        elif rng.random() < 0.3:
            r.table(w, spell(rng, w))
        r = flush()
    for l in 'FSTN':
        for _ in range(10):
            w = [l, value(rng, l)]
            r.table(w, spell(rng, w))
    for l in 'ABCDEHIJKLPQRUVWXYZ':
        w = [l, value(rng, l)]
        r.table(w, spell(rng, w))
    j.add(r.events)
    # what it does to a machine: ends in that mode, keeping the parameters it accepts
    for c in ALL_CODES:
        r = Recorder(rng)
        r.new('a', 'XYZ', False, [] if rng.random() < 0.5 else None)
        for n in range(3):
            ws = [code(c)]
            for l in PARAMS.get(c, ''):
                if n == 2 or (n == 1 and rng.random() < 0.5):
                    ws.append([l, value(rng, l)])
            if n == 1:
                rng.shuffle(ws)
            r.block('a', ws)
        # every letter, one at a time: accepted or left over
        for l in 'ABCDEHIJKLPQRUVWXYZ':
            r.group([code(c), [l, value(rng, l)]])
        j.add(r.events)
    # among other commands
    jm = programs(check, 80 if check.quick else 1000, (10, 30), modes=(1, 2, 3, 4), nonmodal=0.4)
    j.traces += jm.traces
    j.info += jm.info
    judge(check, j)


# ---------------------------------------------------------------- C06
SPLITTERS = [
    (G.GCodePlaneSelect, 'group', 'plane_selection'), (G.GCodeCoolant, 'group', 'coolant'),
    (G.GCodeFeedRateMode, 'group', 'feed_rate_mode'), (G.GCodeCannedCycle, 'kind', 'canned'),
    (G.GCodeFeedRate, 'group', 'feed_rate'), (G.GCodeSpindleSpeed, 'group', 'spindle_speed'),
]


def c06(check):
    rng = check.rng
    laws(check, 'Kept Sorted Again')
    j = Judge('TR_Machine')
    # same block, words in another order, on equal machines
    for k in range(180 if check.quick else 2500):
        r = Recorder(rng)
        axes = rng.choice(AXES)
        g = Gen(rng, axes=axes, modes=(1, 2, 3, 4), nonmodal=0.3, modal=0.25, shuffle=0, conflict=0, dup=0, junk=0)
        b = boots(rng, g, k)
        for n in 'ab':
            r.new(n, axes, False, b)
        for _ in range(rng.randint(5, 15)):
            ws = g.block()
            r.block('a', ws)
            r.block('b', permuted(rng, ws))
        j.add(r.events)
    # every pair of commands, in both orders, sorted
    units = [code(c) for c in ALL_CODES] + [['F', 1000], ['S', 500], ['T', 2], ['N', 3]]
    r = Recorder(rng)
    for (a, b) in itertools.combinations(units, 2):
        if check.quick and rng.random() > 0.4:
            continue
        (a, b) = (a, b) if rng.random() < 0.5 else (b, a)
        r.sort([[a, []], [b, []]])
        if len(r.events) >= 300:
            j.add(r.events)
            r = Recorder(rng)
    j.add(r.events)
    for k in range(150 if check.quick else 2000):
        r = Recorder(rng)
        for _ in range(25):
            cmds = []
            for w in [rng.choice(units) for _ in range(rng.randint(0, 8))]:
                ps = []
                if w[0] == 'G' and rng.random() < 0.5:
                    letters = [l for l in sorted(build([[w, []]])[0].param_letters)]
                    for l in rng.sample(letters, min(len(letters), rng.randint(0, 3))):
                        ps.append([l, value(rng, l)])
                cmds.append([list(w), ps])
            if rng.random() < 0.4:
                r.sort(cmds)
            elif rng.random() < 0.5 and cmds:
                at = rng.choice(cmds if rng.random() < 0.8 else [[['G', 30], []]])
                cls = type(build([[at[0], []]])[0])
                if at[0][0] in 'GM' and cls not in (G.GCodeStraightProbe, G.GCodeSelectCoordinateSystem) \
                        and not cls.__subclasses__() and getattr(cls, 'word_key', None) is not None:
                    r.split(cmds, cls, 'word', at[0], rng.random() < 0.6)
                    continue
                (cls, by, at) = rng.choice(SPLITTERS)
                r.split(cmds, cls, by, at, rng.random() < 0.6)
            else:
                (cls, by, at) = rng.choice(SPLITTERS)
                r.split(cmds, cls, by, at, rng.random() < 0.6)
        j.add(r.events)
    judge(check, j)


def permuted(rng, ws):
    """Commands in another order (each with its parameters following it)"""
    (r, x) = attempt(G.words2gcodes, [make_word(w) for w in ws])
    if r != 'ok':
        return ws
    from gtext import enc_word
    parts = [[enc_word(g.word)] + [enc_word(p) for p in g.params.values()] for g in x[0]]
    rest = [[enc_word(w)] for w in x[1]]
    # left-over words first or last: only where no command takes them
    rng.shuffle(parts)
    out = [w for p in parts for w in p]
    return [w for p in rest for w in p] + out if rng.random() < 0.5 else out + [w for p in rest for w in p]


# ---------------------------------------------------------------- C07
def c07(check):
    j = programs(check, 700 if check.quick else 7000, (8, 40), modes=(0, 1, 1, 2, 3), nonmodal=0.2)
    judge(check, j)
    replay(check, 'mode', 2 if check.quick else 3, 4000 if check.quick else 60000, None)


# ---------------------------------------------------------------- C08
def c08(check):
    rng = check.rng

    def each(r, g, k):
        r.block('a', g.block())
        if rng.random() < 0.5:
            r.mode_text('a', 'b', rng.choice(['process', 'default', 'set']))
        if rng.random() < 0.1:
            r.copy('a', 'b')

    def setup(r, g, k):
        r.new('b', g.axes, False, [], 'null')
    j = programs(check, 480 if check.quick else 5000, (8, 30), setup=setup, each=each,
                 modes=(1, 1, 2, 3), nonmodal=0.15, canned=0.4, big=2000, units=[1000])
    judge(check, j)
    replay(check, 'mode', 2 if check.quick else 3, 4000 if check.quick else 60000, 'text')
    replay(check, 'canned', 2 if check.quick else 3, 4000 if check.quick else 60000, 'text')


# ---------------------------------------------------------------- C09
def c09(check):
    rng = check.rng

    def each(r, g, k):
        x = rng.random()
        if x < 0.9:
            r.block('a', g.block())
        elif x < 0.95:
            r.move('a', dict((a, coord(rng)) for a in g.axes if rng.random() < 0.5))
        else:
            r.move('a', dict((a, coord(rng)) for a in rng.sample('XYZABCUVW', 3)))
    grp = ['distance', 'distance', 'distance', 'plane_selection', 'units', 'coordinate_system', 'feed_rate',
           'canned_cycles_return', 'arc_ijk_distance', 'tool_length_offset', 'cutter_diameter_comp']
    j = programs(check, 700 if check.quick else 7000, (10, 45), each=each, modes=(0, 0, 1, 1, 2),
                 groups=grp, nonmodal=0.15, canned=0.12)
    judge(check, j)
    replay(check, 'path', 2 if check.quick else 3, 4000 if check.quick else 60000, None)


# ---------------------------------------------------------------- C10
def c10(check):
    rng = check.rng

    def setup(r, g, k):
        for cs in range(1, 10):
            if rng.random() < 0.6:
                r.offset('a', cs, offsets(rng, g.axes), rng.choice(['set', 'upd']))
        if rng.random() < 0.6:
            r.offset('a', 0, offsets(rng, g.axes), rng.choice(['set', 'upd']))

    def each(r, g, k):
        x = rng.random()
        if x < 0.55:
            r.block('a', g.block())
        elif x < 0.65:
            r.block('a', g.mode_words('coordinate_system'))
        elif x < 0.75:
            r.convert('a', dict((a, coord(rng)) for a in g.axes))
        elif x < 0.85:
            r.offset('a', rng.randint(0, 9), offsets(rng, g.axes), rng.choice(['set', 'upd']))
        elif x < 0.9:
            r.setpos('a', dict((a, coord(rng)) for a in g.axes))
        elif x < 0.92:
            r.setpos('a', dict((a, coord(rng)) for a in rng.sample('XYZABCUVW', rng.randint(1, 5))))
        elif x < 0.96:
            r.move('a', dict((a, coord(rng)) for a in g.axes if rng.random() < 0.5))
        elif rng.random() < 0.5:
            r.copy('a', 'b', rng.random() < 0.3)
        else:
            if 'b' in r.m:
                r.block('b', g.block())
    grp = ['coordinate_system', 'coordinate_system', 'distance', 'units', 'plane_selection', 'tool_length_offset']

    def boot(rng, g, k):
        b = boots(rng, g, k)
        if b is not None and rng.random() < 0.7:
            b = b + [g.mode_words('coordinate_system')]
        return b
    j = programs(check, 560 if check.quick else 6000, (10, 40), setup=setup, each=each, boot=boot,
                 modes=(0, 0, 1, 1), groups=grp, nonmodal=0.15, canned=0.15)
    judge(check, j)
    replay(check, 'offset', 2 if check.quick else 3, 4000 if check.quick else 60000, 'convert')


# ---------------------------------------------------------------- C11
def c11(check):
    rng = check.rng

    def each(r, g, k):
        x = rng.random()
        n = rng.choice(sorted(r.m))
        if x < 0.75:
            r.block(n, g.block())
        elif x < 0.82:
            r.setpos(n, dict((a, coord(rng)) for a in g.axes))
        elif x < 0.89:
            r.move(n, dict((a, coord(rng)) for a in g.axes if rng.random() < 0.6))
        elif x < 0.95:
            r.offset(n, rng.randint(0, 9), offsets(rng, g.axes))
        else:
            r.copy(n, rng.choice('ab'), rng.random() < 0.3)
    j = programs(check, 560 if check.quick else 6000, (10, 40), each=each, modes=(0, 0, 1),
                 groups=['distance', 'distance', 'coordinate_system', 'plane_selection', 'canned_cycles_return', 'units'],
                 canned=0.3, cannedset=['G81', 'G82', 'G83', 'G73', 'G85', 'G89'], conflict=0.01, junk=0.02)
    judge(check, j)
    replay(check, 'path', 2 if check.quick else 3, 4000 if check.quick else 60000, None)


# ---------------------------------------------------------------- C12
def c12(check):
    rng = check.rng
    j = Judge('TR_Machine')
    for k in range(560 if check.quick else 6000):
        use_unit(rng.choice(UNITS))
        r = Recorder(rng)
        axes = rng.choice(AXES)
        g = Gen(rng, axes=axes, modes=(0, 0, 0, 1, 2), modal=0.7, canned=0.45, nonmodal=0.12, junk=0.12, dup=0.05,
                groups=['distance', 'plane_selection', 'canned_cycles_return', 'coordinate_system', 'feed_rate'],
                moves=['G0', 'G1', 'G2', 'G3', 'G33', 'G38.2', 'G5.1'])
        r.new('a', axes, rng.random() < 0.15, boots(rng, g, k))
        for _ in range(rng.randint(8, 40)):
            ws = g.block()
            if rng.random() < 0.08:
                ws = ws + [code('G80')]
            r.block('a', ws)
        j.add(r.events)
    use_unit()
    judge(check, j)
    replay(check, 'modal', 2 if check.quick else 3, 4000 if check.quick else 60000, None)


# ---------------------------------------------------------------- C13
def c13(check):
    rng = check.rng

    def each(r, g, k):
        x = rng.random()
        if x < 0.35:
            r.block('a', g.block())
        elif x < 0.85:
            ws = g.block()
            if rng.random() < 0.6:
                for l in rng.sample('QKEHRDPIJABCUVWXL', rng.randint(1, 4)):
                    ws.insert(rng.randint(0, len(ws)), [l, value(rng, l)])
            if rng.random() < 0.1:
                ws.append(code('G80'))
            r.clean('a', ws)
        else:
            # a machine ignoring them, and one given the valid ones only
            ws = g.block()
            for l in rng.sample('QKEHRDPIJABCUVW', rng.randint(1, 3)):
                ws.insert(rng.randint(0, len(ws)), [l, value(rng, l)])
            r.copy('a', 'b')
            r.m['b'].ignore_invalid_modal = True
            r.events[-1]['op'] = 'cpi'
            r.block('b', ws)
            r.clean('a', ws)
    j = programs(check, 560 if check.quick else 6000, (8, 30), each=each, modes=(0, 0, 1), modal=0.6, canned=0.35,
                 nonmodal=0.05, junk=0.1, dup=0.03,
                 groups=['distance', 'plane_selection', 'canned_cycles_return', 'feed_rate', 'spindle'])
    judge(check, j)
    replay(check, 'modal', 2 if check.quick else 3, 4000 if check.quick else 60000, 'clean')


# ---------------------------------------------------------------- C14
def c14(check):
    rng = check.rng

    def mutate_blocks(r):
        """Change everything that was processed"""
        def act():
            for b in r.keep[-6:]:
                for w in b.words:
                    if w.letter not in 'OTN':
                        w.value = 77
                for g in b.gcodes:
                    for l in list(g.params):
                        g.params[l].value = 66
                    g.params.clear()
                b.gcodes.reverse()
                del b.modal_params[:]
        r.same('processed blocks changed', act)

    def mutate_results(r, n):
        m = r.m[n]

        def act():
            p = m.pos
            for a in list(p.axes):
                setattr(p, a, 99.)
            w = m.abs2work(m.abs_pos)
            w.update(**dict((a, 98.) for a in w.axes))
            w = m.work2abs(m.pos)
            w.update(**dict((a, 97.) for a in w.axes))
            p = m.abs_pos + m.abs_pos
            p.update(**dict((a, 96.) for a in p.axes))
            q = m.Position.max(m.abs_range_min, m.abs_range_max)
            q.update(**dict((a, 95.) for a in q.axes))
            for p in (m.abs_pos, m.abs_range_min, m.abs_range_max, m.state.offset) + tuple(
                    c.offset for c in m.state.coord_systems.values()):
                v = p.values
                for a in list(v):
                    v[a] = 94.
                for w in p.words:
                    w.value = 93.
                v = p.vector
                v.x = v.y = v.z = 92.
            b = pygcode.Block('X1 Y2')
            (res, x) = attempt(m.block_modal_gcodes, b)
            if res == 'ok':
                for g in x:
                    g.word.value = 2.
                    for l in list(g.params):
                        g.params[l].value = 55
            m.mode.gcodes.reverse()
            (m.mode.gcodes or [1]).pop()
        r.same('results of %s changed' % n, act)

    def setup(r, g, k):
        if rng.random() < 0.7:
            for cs in rng.sample(range(0, 10), 3):
                r.offset('a', cs, offsets(rng, g.axes))

    def each(r, g, k):
        x = rng.random()
        names = sorted(r.m)
        n = rng.choice(names)
        to = rng.choice('abc')
        if x < 0.5:
            r.block(n, g.block())
        elif x < 0.62:
            r.copy(n, to if rng.random() < 0.8 or len(names) < 3 else n, rng.random() < 0.3)
        elif x < 0.66 and to in r.m:
            r.copy_mode(n, to, rng.random() < 0.3)
        elif x < 0.70 and to in r.m:
            r.copy_state(n, to, rng.random() < 0.3)
        elif x < 0.73:
            r.copy_pending(n, to, rng.choice(['mode', 'state']), rng.randint(1, 9))
        elif x < 0.77:
            r.offset(n, rng.randint(0, 9), offsets(rng, g.axes), rng.choice(['set', 'upd']))
        elif x < 0.80:
            r.setpos(n, dict((a, coord(rng)) for a in g.axes))
        elif x < 0.86:
            mutate_blocks(r)
        elif x < 0.90:
            mutate_results(r, n)
        elif x < 0.94:
            grp = rng.choice(['feed_rate', 'spindle_speed'])
            if getattr(r.m[n].mode, grp) is not None:
                l = {'feed_rate': 'F', 'spindle_speed': 'S'}[grp]
                r.tweak(n, grp, [l, value(rng, l)])
        else:
            def act():
                m = r.m[n]
                p = pygcode.machine.Position(axes=g.axes)
                from copy import copy, deepcopy
                for c in (copy, deepcopy):
                    q = c(m.abs_pos)
                    assert q == m.abs_pos and q is not m.abs_pos and q.unit == m.abs_pos.unit
                    for a in list(q.axes):
                        setattr(q, a, 123.)
                    s = c(m.state)
                    assert s.cur_coord_sys == m.state.cur_coord_sys
                    for i in s.coord_systems:
                        assert s.coord_systems[i].offset == m.state.coord_systems[i].offset
                        s.coord_systems[i].offset.update(**dict((a, 5.) for a in g.axes))
                    s.offset.update(**dict((a, 6.) for a in g.axes))
                    s.cur_coord_sys = 9
                    d = c(m.mode)
                    assert str(d) == str(m.mode)
                    for x in d.gcodes:
                        for l in list(x.params):
                            x.params[l].value = 44
                    d.set_mode(*pygcode.Block('G0 G19 G55 F77').gcodes)
                o = copy(m)
                for q in (o.abs_pos, o.abs_range_min, o.abs_range_max, o.state.offset) + tuple(
                        x.offset for x in o.state.coord_systems.values()):
                    for a in list(q.axes):
                        setattr(q, a, 124.)
                o.state.cur_coord_sys = 8
                o.mode.set_mode(*pygcode.Block('G2 G19 G56 F78').gcodes)
            r.same('copies of %s changed' % n, act)
    j = programs(check, 560 if check.quick else 6000, (10, 35), setup=setup, each=each, modes=(0, 1, 1, 2),
                 canned=0.3, nonmodal=0.05)
    judge(check, j)
    replay(check, 'canned', 2 if check.quick else 3, 4000 if check.quick else 60000, 'copy')
    replay(check, 'mode', 2 if check.quick else 3, 4000 if check.quick else 60000, 'copy')


# ---------------------------------------------------------------- C16
def c16(check):
    rng = check.rng

    def each(r, g, k):
        r.block('a', g.block())

    def setup(r, g, k):
        if rng.random() < 0.3:
            r.offset('a', rng.randint(0, 2), offsets(rng, g.axes))
    grp = ['distance', 'distance', 'plane_selection', 'canned_cycles_return', 'canned_cycles_return']
    j = programs(check, 700 if check.quick else 7000, (10, 40), setup=setup, each=each, modes=(0, 0, 1, 2), groups=grp,
                 canned=0.8, modal=0.5, nonmodal=0.02, cannedset=['G81', 'G82', 'G83', 'G73', 'G85', 'G89', 'G76', 'G81'],
                 junk=0.01, dup=0.01, conflict=0.01)
    judge(check, j)
    replay(check, 'canned', 2 if check.quick else 3, 4000 if check.quick else 60000, None)

# ---------------------------------------------------------------- C30
def c30(check):
    rng = check.rng
    units = [code(c) for c in ALL_CODES]

    def with_params(w, p=.5):
        ps = []
        if rng.random() < p:
            for l in sorted(build([[w, []]])[0].param_letters):
                if rng.random() < .5:
                    ps.append([l, value(rng, l)])
        return [list(w), ps]

    def a_command(group=None):
        if group in ('feed_rate', 'spindle_speed', 'tool'):
            l = {'feed_rate': 'F', 'spindle_speed': 'S', 'tool': 'T'}[group]
            return [[l, value(rng, l)], []]
        if group is not None and rng.random() < .8:
            return with_params(code(rng.choice(GROUPS[group])))
        return with_params(rng.choice(units)) if rng.random() < .9 else [['N', 5], []]
    names = sorted(g for g in G.MODAL_GROUP_MAP)

    def each(r, g, k):
        x = rng.random()
        if x < .45:
            ev = r.block('a', g.block())
        elif x < .8:
            group = rng.choice(names + ['motion', 'motion', 'distance', 'plane_selection', 'coordinate_system', 'canned_cycles_return'])
            y = rng.random()
            if y < .2:
                r.assign('a', group, 'none')
            elif y < .28:
                r.assign('a', group, 'junk', junk=rng.choice(['G1', 5, make_word(['G', 10]), [], True, G.GCodeLinearMove]))
            else:
                c = a_command(group if group in GROUPS or group in ('feed_rate', 'spindle_speed', 'tool') else None)
                r.assign('a', group, 'command', c[0], c[1])
        elif x < .95:
            cs = [a_command(rng.choice([n for n in names if n in GROUPS] + [None])) for _ in range(rng.choice([0, 1, 1, 2, 3, 5]))]
            r.set_modes('a', cs, rng.choice(['mode', 'machine']))
        else:
            r.copy('a', 'b')
    j = programs(check, 480 if check.quick else 6000, (10, 35), each=each, modes=(0, 0, 1), canned=.3, nonmodal=.05)
    # every command, assigned to every group
    for c in ALL_CODES:
        r = Recorder(rng)
        r.new('a', 'XYZ', False, [] if rng.random() < .5 else None)
        for n in (names if not check.quick else rng.sample(names, 4)):
            (w, ps) = with_params(code(c), .7)
            r.assign('a', n, 'command', w, ps)
        (w, ps) = with_params(code(c), .7)
        g = build([[w, []]])[0]
        if g.modal_group is not None:
            r.assign('a', [n for n in names if G.MODAL_GROUP_MAP[n] == g.modal_group][0], 'command', w, ps)
        r.set_modes('a', [[w, ps]], rng.choice(['mode', 'machine']))
        j.add(r.events)
    judge(check, j)
