"""Recording histories of real machines."""
from copy import copy, deepcopy

from lib import attempt, grid, BAD
from gtext import enc_word, enc_value, num, render, plain, UNIT

import pygcode
from pygcode import Line, Block
from pygcode.machine import Machine, Mode, State, Position, NullMachine, NullMode
from pygcode.gcodes import MODAL_GROUP_MAP, words2gcodes, split_gcodes, text2gcodes
from pygcode.words import Word, text2words

GROUP_NAMES = sorted(MODAL_GROUP_MAP)
_known_numbers = set(MODAL_GROUP_MAP.values())


def group_name(number):
    if number is None:
        return ''
    names = [k for (k, v) in MODAL_GROUP_MAP.items() if v == number]
    return names[0] if len(names) == 1 else '?%s' % number


def make_word(w):
    (l, v) = w
    return Word(l, ('%d' % v) if l == 'O' else num(l, v))


def enc_gcode(g):
    return [enc_word(g.word), [enc_word(w) for w in g.params.values()]]


def enc_gcodes(gs):
    return [enc_gcode(g) for g in gs]


def enc_pos(p):
    d = {}
    for a in p.axes:
        d[a] = grid(getattr(p, a), UNIT[0])
    return d


def enc_vals(d):
    return dict((a, num(a, v)) for (a, v) in d.items())


def observe(m, offsets=True):
    mode = []
    for name in GROUP_NAMES:
        g = getattr(m.mode, name)
        if g is not None:
            mode.append([name] + enc_gcode(g))
    for (k, g) in m.mode.modal_groups.items():
        if g is not None and k not in _known_numbers:
            mode.append(['?%s' % k] + enc_gcode(g))
    o = {
        'mode': mode,
        'abs': enc_pos(m.abs_pos), 'pos': enc_pos(m.pos),
        'lo': enc_pos(m.abs_range_min), 'hi': enc_pos(m.abs_range_max),
        'cs': m.state.cur_coord_sys if isinstance(m.state.cur_coord_sys, int) else BAD,
        'tmp': enc_pos(m.state.offset),
    }
    if offsets:
        o['off'] = [enc_pos(m.state.coord_systems[i].offset) for i in range(1, 10)]
    return o


BROKEN_OBS = {'mode': [['?', ['-', 0], []]], 'abs': {}, 'pos': {}, 'lo': {}, 'hi': {}, 'cs': BAD,
              'off': [{}] * 9, 'tmp': {}}

DEFAULT_BOOT = [[['G', 0]], [['G', 170]], [['G', 900]], [['G', 911]], [['G', 940]], [['G', 210]], [['G', 400]],
                [['G', 490]], [['G', 540]], [['G', 610]], [['G', 970]], [['M', 50]], [['M', 90]],
                [['F', 0]], [['S', 0]], [['T', 0]]]


# words selecting them
SYSTEMS = dict(enumerate([['G', 540], ['G', 550], ['G', 560], ['G', 570], ['G', 580], ['G', 590], ['G', 591], ['G', 592], ['G', 593]], 1))


def no_normal(m):
    """Canned cycle in a plane without a (linear) normal axis"""
    plane = m.mode.plane_selection
    return plane is not None and not hasattr(plane, 'normal_axis')


class Recorder(object):
    """A set of machines, and the history of what happened to them"""

    def __init__(self, rng, fancy=True):
        self.rng = rng
        self.fancy = fancy
        self.m = {}
        self.events = []
        self.keep = []   # processed blocks

    def _obs(self, ev, names=None):
        obs = {}
        for n in (names or self.m):
            # (unlikely to change; not recorded after every block)
            offsets = ev['op'] not in ('blk', 'clean') or len(self.events) % 7 == 0
            (r, o) = attempt(observe, self.m[n], offsets)
            obs[n] = o if r == 'ok' else BROKEN_OBS
        ev['obs'] = obs

    def emit(self, ev, obs=True):
        if obs:
            self._obs(ev)
        self.events.append(ev)
        return ev

    # -- machines
    def new(self, name, axes='XYZ', ign=False, boot=None, how='class'):
        """:param boot: None for the library's default mode, or list of lists of words"""
        rng = self.rng
        ax = list(axes)

        def make():
            d = {'axes': set(ax), 'ignore_invalid_modal': ign}
            if boot is not None:
                if len(boot) == 0 and how == 'null':
                    return type('M', (NullMachine,), d)()
                lines = [render(rng, ws, self.fancy) for ws in boot]
                d['MODE_CLASS'] = type('MyMode', (Mode,), {'default_mode': '\n'.join(lines)})
            return type('M', (Machine,), d)()
        (r, m) = attempt(make)
        ev = {'op': 'new', 'm': name, 'ax': ax, 'ign': ign,
              'boot': DEFAULT_BOOT if boot is None else boot, 'res': r}
        if r == 'ok':
            self.m[name] = m
        else:
            ev['err'] = m
        return self.emit(ev)

    # -- blocks
    def block(self, name, ws, text=None, api=None, detail=True, eff=True):
        rng = self.rng
        m = self.m[name]
        text = render(rng, ws, self.fancy) if text is None else text
        if api is None:
            api = rng.choice(['str', 'block', 'gcodes', 'line', 'words'])
        ev = {'op': 'blk', 'm': name, 'ws': ws, 'text': text, 'api': api}
        if any(w[0] == 'O' for w in ws) and api == 'words':
            api = 'block'

        def parse():
            if api == 'line':
                return Line(text).block
            if api == 'words':
                b = Block(text)
                b2 = Block()
                b2.words = [make_word(w) for w in ws]
                (b2.gcodes, b2.modal_params) = words2gcodes(b2.words)
                return b2
            return Block(text)
        (pr, b) = attempt(parse)
        if detail:
            ev['parsed'] = pr
            ev['cmds'] = enc_gcodes(b.gcodes) if pr == 'ok' else []
            ev['rest'] = [enc_word(w) for w in b.modal_params] if pr == 'ok' else []
        if pr == 'ok' and eff:
            (er, g) = attempt(m.block_modal_gcodes, b)
            ev['effres'] = er
            ev['eff'] = enc_gcodes(g) if er == 'ok' else []
        if pr != 'ok':
            ev['res'] = pr
            ev['err'] = b
            if api == 'str':
                (ev['res'], x) = attempt(m.process_str, text)
        else:
            if api == 'str':
                (r, x) = attempt(m.process_str, text)
            elif api == 'gcodes':
                gl = list(b.gcodes)
                if all(GOOD_TO_SHUFFLE(g) for g in gl):
                    rng.shuffle(gl)
                (r, x) = attempt(m.process_gcodes, *gl, modal_params=list(b.modal_params))
            else:
                (r, x) = attempt(m.process_block, b)
            ev['res'] = r
            if r != 'ok':
                ev['err'] = x
            self.keep.append(b)
            if detail:   # what was processed, afterwards
                ev['cmds2'] = enc_gcodes(b.gcodes)
                ev['rest2'] = [enc_word(w) for w in b.modal_params]
        return self.emit(ev)

    def clean(self, name, ws, process=True):
        m = self.m[name]
        text = render(self.rng, ws, self.fancy)
        ev = {'op': 'clean', 'm': name, 'ws': ws, 'text': text, 'clres': 'rej', 'cmds': [], 'rest': []}
        (r, b) = attempt(Block, text)
        if r == 'ok':
            (r, x) = attempt(m.clean_block, b)
            ev['clres'] = r
            if r == 'ok':
                ev['cmds'] = enc_gcodes(b.gcodes)
                ev['rest'] = [enc_word(w) for w in b.modal_params]
                (r, x) = attempt(m.process_block, b)
            if r != 'ok':
                ev['err'] = x
        ev['res'] = r
        return self.emit(ev)

    # -- offsets and positions
    def offset(self, name, cs, to, how='set'):
        """:param cs: coordinate system, 0 for the temporary offset"""
        m = self.m[name]

        def act():
            p = m.Position(**enc_vals(to))
            if cs == 0:
                if how == 'set':
                    m.state.offset = p
                else:
                    m.state.offset.update(**enc_vals(to))
            else:
                if how == 'set':
                    m.state.coord_systems[cs].offset = p
                else:
                    m.state.coord_systems[cs].offset.update(**enc_vals(to))
        (r, x) = attempt(act)
        return self.emit({'op': 'off', 'm': name, 'cs': cs, 'to': to, 'res': r, 'how': how})

    def convert(self, name, p):
        m = self.m[name]
        ev = {'op': 'cvt', 'm': name, 'p': p}

        def act():
            pos = m.Position(**enc_vals(p))
            (w, a) = (m.abs2work(pos), m.work2abs(pos))
            ev['work'] = enc_pos(w)
            ev['abs'] = enc_pos(a)
            ev['back1'] = enc_pos(m.work2abs(w))
            ev['back2'] = enc_pos(m.abs2work(a))
            ev['after'] = enc_pos(pos)
        (ev['res'], x) = attempt(act)
        return self.emit(ev)

    def setpos(self, name, p):
        m = self.m[name]

        def act():
            v = m.Position(axes=sorted(p), **enc_vals(p))
            m.pos = v
            for a in p:  # (it's not the machine's)
                setattr(v, a, 1234.5)
        (r, x) = attempt(act)
        return self.emit({'op': 'pos', 'm': name, 'p': p, 'res': r})

    def move(self, name, p):
        m = self.m[name]
        (r, x) = attempt(m.move_to, rapid=self.rng.random() < 0.5, **enc_vals(p))
        return self.emit({'op': 'mov', 'm': name, 'p': p, 'res': r})

    # -- copies
    def copy(self, name, to, deep=False):
        (r, c) = attempt(deepcopy if deep else copy, self.m[name])
        if r == 'ok':
            self.m[to] = c
        return self.emit({'op': 'cp', 'm': name, 'to': to, 'res': r, 'deep': deep})

    def copy_pending(self, name, to, what, n):
        """Copied while a coordinate system chosen directly isn't acted on yet"""
        m = self.m[name]
        ev = {'op': 'cpp', 'm': name, 'to': to, 'what': what, 'w': SYSTEMS[n], 'n': n, 'seen': []}

        def act():
            if what == 'mode':
                m.mode.coordinate_system = build([[SYSTEMS[n], []]])[0]
            else:
                m.state.cur_coord_sys = n
            self.m[to] = copy(m)
            ev['seen'] = [observe(x) for x in (m, self.m[to])]
            m.set_mode()
            self.m[to].set_mode()
        (ev['res'], x) = attempt(act)
        if ev['res'] != 'ok':
            ev['err'] = x
        return self.emit(ev)

    def tweak(self, name, g, w):
        """Change the value of the word of an active mode, in place"""
        (r, x) = attempt(lambda: setattr(getattr(self.m[name].mode, g).word, 'value', make_word(w).value))
        return self.emit({'op': 'twk', 'm': name, 'g': g, 'w': w, 'res': r})

    def assign(self, name, g, what, w=('-', 0), ps=(), junk=None):
        """mode.<group> = a command, nothing, or something else"""
        m = self.m[name]
        ev = {'op': 'asg', 'm': name, 'g': g, 'what': what, 'w': list(w), 'ps': list(ps), 'got': [], 'others': 0}
        given = None

        def act():
            setattr(m.mode, g, given)
        if what == 'command':
            (r, given) = attempt(lambda: build([[w, ps]])[0])
            if r != 'ok':
                return None
        elif what == 'junk':
            given = junk
        (ev['res'], x) = attempt(act)
        if ev['res'] != 'ok':
            ev['err'] = x
        if what == 'command':     # what was given is still the caller's
            attempt(lambda: given.params.clear())
            attempt(lambda: setattr(given.word, 'value', 7))
        attempt(m.set_mode)
        (r, x) = attempt(getattr, m.mode, g)
        ev['got'] = [] if r == 'ok' and x is None else enc_word(x.word) if r == 'ok' else ['?', 0]
        ev['others'] = sum(1 for n in ('motions', 'Motion', 'unit', 'X') if hasattr(m.mode, n))
        return self.emit(ev)

    def set_modes(self, name, cmds, how):
        m = self.m[name]
        ev = {'op': 'sms', 'm': name, 'cmds': cmds, 'how': how, 'returns': how == 'mode', 'got': []}
        (r, gs) = attempt(build, cmds)
        if r != 'ok':
            return None

        def act():
            if how == 'mode':
                got = m.mode.set_mode(*gs)
                m.set_mode()
                return [[group_name(k)] + enc_gcode(g) for (k, g) in got.items()]
            m.set_mode(*gs)
            return []
        (ev['res'], x) = attempt(act)
        if ev['res'] == 'ok':
            ev['got'] = x
        else:
            ev['err'] = x
        for g in gs:
            attempt(lambda: g.params.clear())
            attempt(lambda: setattr(g.word, 'value', 7))
        return self.emit(ev)

    def copy_mode(self, name, to, deep=False):
        (r, c) = attempt(deepcopy if deep else copy, self.m[name].mode)
        if r == 'ok':
            self.m[to].mode = c
            self.m[to].set_mode()  # act on the mode given
        return self.emit({'op': 'cpm', 'm': name, 'to': to, 'res': r})

    def copy_state(self, name, to, deep=False):
        (r, c) = attempt(deepcopy if deep else copy, self.m[name].state)
        if r == 'ok':
            self.m[to].state = c
            self.m[to].set_mode()
        return self.emit({'op': 'cps', 'm': name, 'to': to, 'res': r})

    def same(self, what, act):
        """Something that must not change any machine"""
        (r, x) = attempt(act)
        return self.emit({'op': 'same', 'what': what, 'm': '', 'res': r})

    # -- printed mode
    def mode_text(self, name, to, how='process'):
        m = self.m[name]
        ev = {'op': 'mt', 'm': name, 'to': to, 'listing': [], 'cmds': [], 'how': how}
        n = self.m[to]

        def act():
            text = str(m.mode)
            ev['text'] = text
            ev['listing'] = enc_gcodes(m.mode.gcodes)
            block = Block(text)
            ev['cmds'] = enc_gcodes(block.gcodes)
            assert not block.modal_params
            if how == 'process' and not no_normal(m):  # processed by a machine with no mode
                fresh = type('N', (NullMachine,), {'axes': set(m.axes)})()
                fresh.process_str(text)
                n.mode = fresh.mode
            elif how == 'default':  # default mode of a machine
                cls = type('MyMode', (Mode,), {'default_mode': text})
                n.mode = cls()
            else:
                n.mode = NullMode()
                n.mode.set_mode(*block.gcodes)
            n.set_mode()  # act on the mode given
        (ev['res'], x) = attempt(act)
        if ev['res'] != 'ok':
            ev['err'] = x
        return self.emit(ev)

    # -- stateless operations
    def group(self, ws, how='words'):
        ev = {'op': 'grp', 'm': '', 'ws': ws, 'cmds': [], 'rest': []}

        def act():
            if how == 'words':
                words = [make_word(w) for w in ws]
            elif how == 'unverified':
                # a block that isn't checked for conflicting commands
                ev['text'] = render(self.rng, ws, self.fancy)
                b = Block(ev['text'], verify=False)
                return (b.gcodes, b.modal_params)
            else:
                ev['text'] = render(self.rng, ws, self.fancy)
                words = list(text2words(ev['text']))
            return words2gcodes(words)
        (r, x) = attempt(act)
        ev['res'] = r
        if r == 'ok':
            ev['cmds'] = enc_gcodes(x[0])
            ev['rest'] = [enc_word(w) for w in x[1]]
        else:
            ev['err'] = x
        return self.emit(ev, obs=False)

    def parse(self, ws, text=None):
        text = render(self.rng, ws, self.fancy) if text is None else text
        ev = {'op': 'parse', 'm': '', 'ws': ws, 'text': text, 'cmds': [], 'rest': []}
        (r, b) = attempt(Block, text)
        ev['res'] = r
        if r == 'ok':
            ev['cmds'] = enc_gcodes(b.gcodes)
            ev['rest'] = [enc_word(w) for w in b.modal_params]
        else:
            ev['err'] = b
        return self.emit(ev, obs=False)

    def sort(self, cmds):
        """:param cmds: list of [word, [params]]"""
        ev = {'op': 'srt', 'm': '', 'cmds': cmds, 'out': [], 'after': [], 'rel': []}
        (r, gs) = attempt(build, cmds)
        if r == 'ok':
            (r, out) = attempt(sorted, gs)
            if r == 'ok':
                ev['out'] = enc_gcodes(out)
            for _ in range(min(3, len(gs))):
                (a, b) = (self.rng.randrange(len(gs)), self.rng.randrange(len(gs)))
                (x, y) = (gs[a], gs[b])
                ev['rel'].append([a + 1, b + 1, (x < y) is True, (x <= y) is True, (x > y) is True, (x >= y) is True])
            ev['after'] = enc_gcodes(gs)
        ev['res'] = r
        return self.emit(ev, obs=False)

    def split(self, cmds, cls, by, at, sort):
        ev = {'op': 'spl', 'm': '', 'cmds': cmds, 'out': [[], [], []], 'after': [],
              'by': by, 'at': at, 'sort': sort}
        (r, gs) = attempt(build, cmds)
        if r == 'ok':
            (r, out) = attempt(split_gcodes, gs, cls, **({} if sort else {'sort_list': False}))
            if r == 'ok':
                ev['out'] = [enc_gcodes(x) for x in out]
            ev['after'] = enc_gcodes(gs)
        ev['res'] = r
        return self.emit(ev, obs=False)

    def table(self, w, text):
        ev = {'op': 'tab', 'm': '', 'w': w, 'text': text, 'cmds': [], 'rest': [], 'letters': [], 'group': '', 'named': True}
        (r, b) = attempt(Block, text)
        ev['res'] = r
        if r == 'ok':
            ev['cmds'] = enc_gcodes(b.gcodes)
            ev['rest'] = [enc_word(x) for x in b.modal_params]
            if b.gcodes:
                ev['letters'] = sorted(b.gcodes[0].param_letters)
                ev['group'] = group_name(b.gcodes[0].modal_group)
                cls = type(b.gcodes[0])
                ev['named'] = getattr(pygcode, cls.__name__, None) is cls and cls.__name__ in pygcode.__all__
        else:
            ev['err'] = b
        return self.emit(ev, obs=False)


def GOOD_TO_SHUFFLE(g):
    return True


def build(cmds):
    gs = []
    for (w, ps) in cmds:
        (gl, rest) = words2gcodes([make_word(w)])
        assert len(gl) == 1 and not rest
        g = gl[0]
        for p in ps:
            g.add_parameter(make_word(p))
        gs.append(g)
    return gs
