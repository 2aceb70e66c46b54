"""Random blocks and programs (structured; the specification decides what they mean)."""
from gtext import GROUPS, NONMODAL, CANNED, MOVES, PARAMS, ALL_CODES, code, scale, UNIT

LINEAR = 'XYZ'


def coord(rng, big=20, frac=True):
    r = rng.random()
    if r < 0.12:
        return 0
    if UNIT[0] != 1000:  # (finer than anything printed)
        n = rng.choice([9, 60, 500, 4000, UNIT[0], 4 * UNIT[0]])
        return rng.randint(-n, n) if frac or n < UNIT[0] else rng.randint(-4, 4) * UNIT[0]
    if r < 0.5 or not frac:
        return 1000 * rng.randint(-big, big)
    if r < 0.8:
        return 100 * rng.randint(-big * 10, big * 10)
    return rng.randint(-big * 1000, big * 1000)


def value(rng, letter, big=20):
    """Encoded value for a parameter letter"""
    if letter == 'L':
        return rng.choice([0, 1, 1, 2, 2, 3, 4])
    if letter in 'NT':
        return rng.randint(0, 40)
    if letter == 'O':
        return rng.randint(1, 9999)
    if letter in 'GM':
        return rng.randint(0, 999)
    if letter == 'F':
        return rng.choice([0, 100000, 60000, 1500, 250500, rng.randint(0, 400000)])
    if letter == 'S':
        return rng.choice([0, 1000000, 1200500, 500, rng.randint(0, 400000)])
    return coord(rng, big)


def setter(rng, c):
    """Word(s) of a command: the command word (encoded)"""
    if len(c) == 1:
        return [c, value(rng, c)]
    return code(c)


class Gen(object):
    """Generator of blocks for one machine

    Knobs:
      axes      axes used
      canned    probability that a motion is a canned cycle
      modal     probability of a block of modal parameters only
      modes     how many mode commands a block may carry
      groups    modal groups drawn from
      nonmodal  probability of a non-modal command
      junk      probability of an unusable left-over word
      conflict  probability of a conflict
      dup       probability of a duplicated letter
      shuffle   probability of shuffled words
    """
    def __init__(self, rng, axes='XYZ', canned=0.2, modal=0.3, modes=(0, 0, 1, 1, 2), groups=None,
                 nonmodal=0.1, junk=0.03, conflict=0.02, dup=0.02, shuffle=0.3, motion=0.7,
                 extra=0.5, incr=0.5, planes=('G17', 'G18', 'G19'), uvw=0.0, moves=None, rret=True,
                 cannedset=None, big=20):
        self.__dict__.update(locals())
        self.active = None       # what the generator believes the motion to be
        self.plane = 'G17'
        if groups is None:
            self.groups = sorted(g for g in GROUPS if g not in ('motion',))

    def axis_words(self, need=0, axes=None):
        rng = self.rng
        out = []
        for a in (axes or self.axes):
            if rng.random() < 0.5:
                out.append([a, coord(rng, self.big)])
        if not out and need:
            a = rng.choice(axes or self.axes)
            out.append([a, coord(rng, self.big)])
        return out

    def canned_words(self, c, full):
        rng = self.rng
        ws = self.axis_words(1, [a for a in self.axes if a in 'XYZUVW'])
        letters = PARAMS[c]
        if 'R' in letters and rng.random() < (0.9 if full else 0.3):
            ws.append(['R', coord(rng, self.big)])
        if full and not any(w[0] == 'Z' for w in ws) and rng.random() < 0.9:
            ws.append(['Z', coord(rng, self.big)])
        for l in letters:
            if l == 'R' or any(w[0] == l for w in ws):
                continue
            if rng.random() < (0.4 if full else 0.15):
                ws.append([l, value(rng, l)])
        return ws

    def motion_words(self):
        rng = self.rng
        if rng.random() < self.canned:
            c = rng.choice(self.cannedset or CANNED)
            ws = self.canned_words(c, True)
        else:
            c = rng.choice(self.moves or ['G0', 'G1', 'G0', 'G1', 'G2', 'G3'] + MOVES)
            ws = self.axis_words(rng.random() < 0.8)
            for l in PARAMS.get(c, ''):
                if rng.random() < 0.4:
                    ws.append([l, value(rng, l)])
        self.active = c
        return [code(c)] + ws

    def modal_words(self):
        rng = self.rng
        if self.active in CANNED:
            return self.canned_words(self.active, False)
        ws = self.axis_words(1)
        for l in PARAMS.get(self.active, ''):
            if rng.random() < 0.3:
                ws.append([l, value(rng, l)])
        return ws

    def mode_words(self, group=None):
        rng = self.rng
        g = group or rng.choice(self.groups)
        choices = GROUPS[g]
        if g == 'plane_selection':
            choices = list(self.planes)
        if g == 'distance' and rng.random() < 0.3:
            choices = ['G91'] if rng.random() < self.incr else ['G90']
        c = rng.choice(choices)
        ws = [setter(rng, c)]
        for l in PARAMS.get(c, ''):
            if rng.random() < 0.6:
                ws.append([l, value(rng, l)])
        return ws

    def nonmodal_words(self):
        rng = self.rng
        c = rng.choice(NONMODAL)
        ws = [code(c)]
        for l in PARAMS.get(c, ''):
            if rng.random() < 0.6:
                ws.append([l, value(rng, l)])
        if c in ('G10', 'G92') and rng.random() < 0.7:
            ws += self.axis_words(1)
        return ws

    def block(self):
        rng = self.rng
        parts = []
        used = set()
        for _ in range(rng.choice(self.modes)):
            g = rng.choice(self.groups)
            if g in used and rng.random() > self.conflict:
                continue
            used.add(g)
            parts.append(self.mode_words(g))
        own = False
        if rng.random() < self.nonmodal:
            p = self.nonmodal_words()
            parts.append(p)
            # (the movement of these is not specified)
            own = p[0] in (code('G28'), code('G30'), code('G53')) or any(
                w[0] in 'XYZABCUVW' for w in p)
        if own:
            pass
        elif rng.random() < self.modal:
            parts.append(self.modal_words())
        elif rng.random() < self.motion:
            parts.append(self.motion_words())
        if rng.random() < self.conflict:
            r = rng.random()
            if r < 0.5:
                parts.append(self.motion_words() if not own else self.mode_words())
            else:
                parts.append(self.mode_words())
        if rng.random() < self.junk:
            l = rng.choice('QKEHRDPIJ' + ('UVWABC' if not own else ''))
            parts.append([[l, value(rng, l)]])
            if rng.random() < 0.15:
                # (a code nobody knows)
                parts.append([[rng.choice('GM'), rng.choice([2220, 9990, 1230, 555])]])
        if rng.random() < 0.04:
            parts.insert(0, [['N', value(rng, 'N')]])
        rng.shuffle(parts)
        ws = [w for p in parts for w in p]
        if ws and rng.random() < self.dup:
            ws.append(list(rng.choice(ws)))
        if rng.random() < self.shuffle:
            rng.shuffle(ws)
        return ws

    def program(self, n):
        return [self.block() for _ in range(n)]
