"""Words (C26) and command parameters (C27), as abstract data types."""
import json
import re
from copy import copy, deepcopy

from lib import Judge, attempt, category
from checks_text import enc as enc_exact, cps
from gtext import enc_word, num, scale, ALL_CODES, PARAMS, code, plain, spell, use_unit, UNIT
from gen import coord, value
from mach import make_word, enc_gcode

import pygcode
from pygcode.words import Word, text2words, str2word, words2dict
from pygcode.gcodes import words2gcodes, word_gcode_class, GCode
from pygcode.block import Block

LETTERS = 'ABCDEFGHIJKLMNOPQRSTUVWXYZ'


def explain(events, i, info):
    out = []
    for e in events[max(0, i - 6):i]:
        out.append(json.dumps(dict((k, v) for (k, v) in e.items() if k != 'obs'))[:300])
    out.append(json.dumps(events[i])[:1500])
    return '\n'.join(out)


# ---------------------------------------------------------------- C26
def enc(word):
    if word.letter == 'T':
        return {'l': 'T', 'text': cps(word.value) if isinstance(word.value, str) else [-1]}
    if word.letter == 'O':
        return {'l': 'O', 'text': cps(word.value) if isinstance(word.value, str) else [-1]}
    d = enc_exact(word)
    want = int if word.letter in 'LN' else float
    if not isinstance(word.value, want) or isinstance(word.value, bool):
        d['l'] = '?'
    return d


def spelt_value(rng, l):
    """(text, python value) of a value for a letter, with few distinct ones"""
    if l == 'O':
        s = rng.choice(['1', '2', '10', 'abc', 'abd', 'a'])
        return (s, s)
    if l == 'T':
        s = rng.choice(['0', '1', '2', '10', '9', '12'])
        return (s, s)
    if l in 'LN':
        s = rng.choice(['0', '1', '2', '10', '9', '12', '100'])
        return (s, int(s))
    if l in 'GM':
        s = rng.choice(['0', '1', '2', '3', '38.2', '38.3', '59.1', '10', '92', '5.1', '100'])
        return (s, float(s))
    s = rng.choice(['0', '1', '-1', '2', '10', '9', '0.5', '-0.5', '0.25', '-2', '1.001', '1.0005', '1.0001', '0.1', '0.3',
                    '100', '-100', '1000000', '-0', '-0', '-0.001', '12.5', '9.999', '0.00001', '1.0000001', '0.3000001', '100.0000001', '0.5000000001', '0'])
    return (s, float(s))


def respell(rng, l, s):
    if l in 'OT':
        return s
    if l in 'LN':
        return '0' * rng.choice([0, 0, 1]) + s
    if l in 'GM':
        return '0' * rng.choice([0, 0, 1]) + s + ('.0' if '.' not in s and rng.random() < .3 else '')
    sign = '-' if s.startswith('-') else ''
    s = s.lstrip('-')
    if '.' in s:
        s += '0' * rng.choice([0, 0, 2])
        if s.startswith('0.') and rng.random() < .4:
            s = s[1:]
    else:
        s += rng.choice(['', '', '.', '.0', '.00'])
    return sign + '0' * rng.choice([0, 0, 1]) + s


class WordStore(object):
    def __init__(self, rng):
        self.rng = rng
        self.w = {}
        self.events = []

    def emit(self, ev):
        ev['obs'] = {}
        for (n, w) in self.w.items():
            (r, x) = attempt(enc, w)
            ev['obs'][n] = x if r == 'ok' else {'l': '?', 'text': []}
        for k in ('a', 'b'):
            ev.setdefault(k, sorted(self.w)[0] if self.w else '')
        self.events.append(ev)

    def make(self, name, l, given=None):
        rng = self.rng
        (s, v) = spelt_value(rng, l)
        if given is not None:
            (s, v) = (given, given if l in 'OT' else int(given) if l in 'LN' else float(given))
        text = respell(rng, l, s)
        low = l.lower() if rng.random() < .25 else l
        how = rng.choice(['text', 'pair', 'pairtext', 'str2word', 'text2words', 'kw'])
        if l in 'OT' and how == 'pair':
            v = s
        want = {'l': l, 'text': cps(s)} if l in 'OT' else dict(enc_exact(FakeWord(l, v)))

        def act():
            if how == 'text':
                return Word(low + text)
            if how == 'pair':
                return Word(low, int(v) if l not in 'OT' and v == int(v) and rng.random() < .5 else v)
            if how == 'pairtext':
                return Word(low, text)
            if how == 'str2word':
                return str2word(low + text)
            if how == 'kw':
                return Word(low, text, dialect='linuxcnc')
            return list(text2words(low + ' ' + text if l != 'O' else low + text))[0]
        (r, x) = attempt(act)
        if r == 'ok':
            self.w[name] = x
        self.emit({'op': 'mk', 'name': name, 'word': want, 'res': r, 'how': how, 'text': low + text})
        return r == 'ok'

    def set(self, name):
        rng = self.rng
        w = self.w[name]
        l = w.letter
        (s, v) = spelt_value(rng, l)
        as_text = l in 'OT' or rng.random() < .5
        want = {'l': l, 'text': cps(s)} if l in 'OT' else dict(enc_exact(FakeWord(l, v)))
        if l == 'T' and rng.random() < .5:
            (r, x) = attempt(setattr, w, 'value', int(s))
        elif l in 'LN' and rng.random() < .3:
            (r, x) = attempt(setattr, w, 'value', v + rng.choice([0.0, 0.25, 0.75]))
        else:
            (r, x) = attempt(setattr, w, 'value', respell(rng, l, s) if as_text else v)
        self.emit({'op': 'set', 'name': name, 'word': want, 'res': r})

    def bad(self, name):
        rng = self.rng
        w = self.w[name]
        if w.letter in 'OT':
            return
        if rng.random() < .5:
            (r, x) = attempt(setattr, w, 'value', rng.choice(['abc', '', '1.2.3', 'x1', '--1']))
        else:
            (r, x) = attempt(Word, w.letter, rng.choice(['abc', '', '1.2.3', 'x1', '--1']))
        self.emit({'op': 'bad', 'name': name, 'res': r})

    def compare(self, a, b):
        (x, y) = (self.w[a], self.w[b])
        ev = {'op': 'cmp', 'a': a, 'b': b, 'eq': False, 'ne': False, 'lt': False, 'gt': False, 'le': False, 'ge': False,
              'hash': False, 'inset': False, 'inlist': False, 'found': False}

        def act():
            ev['eq'] = (x == y)
            ev['ne'] = (x != y)
            ev['lt'] = (x < y)
            ev['gt'] = (x > y)
            ev['le'] = (x <= y)
            ev['ge'] = (x >= y)
            ev['hash'] = hash(x) == hash(y)
            ev['inset'] = x in set([y])
            ev['inlist'] = x in [y]
            ev['found'] = {y: 5}.get(x) == 5
            for k in list(ev):
                if k not in ('op', 'a', 'b'):
                    ev[k] = ev[k] is True
        (ev['res'], _) = attempt(act)
        self.emit(ev)

    def text(self, a):
        rng = self.rng
        w = self.w[a]
        l = w.letter if rng.random() < .85 else rng.choice(LETTERS)
        (s, v) = spelt_value(rng, l)
        if l == w.letter and rng.random() < .5:
            s = str(w.value) if l in 'OT' else format(__import__('decimal').Decimal(repr(w.value)), 'f')
            if l in 'GM' and s.endswith('.0'):
                s = s[:-2]
        text = (l.lower() if rng.random() < .3 else l) + respell(rng, l, s)
        if rng.random() < .2:
            text = ' ' + text
        ev = {'op': 'txt', 'a': a, 'cs': cps(text), 'eq': False, 'ne': False, 'req': False, 'text': text,
              'spelt': {'l': 'T', 'text': cps(s)}}

        def act():
            ev['eq'] = (w == text) is True
            ev['ne'] = (w != text) is True
            ev['req'] = (text == w) is True
        (ev['res'], _) = attempt(act)
        self.emit(ev)

    def sort(self):
        rng = self.rng
        names = [n for n in self.w if rng.random() < .8] or list(self.w)
        rng.shuffle(names)
        ids = dict((id(self.w[n]), n) for n in names)
        how = rng.choice(['sorted', 'sort', 'reverse'])

        def act():
            ws = [self.w[n] for n in names]
            if how == 'sorted':
                return sorted(ws)
            if how == 'sort':
                ws.sort()
                return ws
            return sorted(ws, reverse=True)[::-1]
        (r, x) = attempt(act)
        self.emit({'op': 'sort', 'names': names, 'res': r, 'out': [ids.get(id(w), '?') for w in x] if r == 'ok' else []})

    def dict(self):
        rng = self.rng
        names = []
        for n in rng.sample(sorted(self.w), len(self.w)):
            if self.w[n].letter not in [self.w[k].letter for k in names]:
                names.append(n)
        most = rng.choice([.5, .5, .1, 0.])
        limit = None if rng.random() < .4 else [l for l in LETTERS if rng.random() < most]
        arg = limit if limit is None else rng.choice([list, set, tuple, ''.join])(limit)
        (r, x) = attempt(words2dict, [self.w[n] for n in names], arg) if limit is not None or rng.random() < .5 else \
            attempt(words2dict, iter([self.w[n] for n in names]))
        out = []
        if r == 'ok':
            (r, out) = attempt(lambda: [enc(FakeWord(l, v)) for (l, v) in x.items()])
        self.emit({'op': 'dict', 'names': names, 'all': limit is None, 'limit': limit or [],
                   'res': r, 'out': out if r == 'ok' else []})

    def str(self, a):
        (r, x) = attempt(str, self.w[a])
        self.emit({'op': 'str', 'a': a, 'res': r, 'cs': cps(x) if r == 'ok' else []})

    def copy(self, a, to):
        (r, x) = attempt(self.rng.choice([copy, deepcopy]), self.w[a])
        if r == 'ok':
            self.w[to] = x
        self.emit({'op': 'copy', 'name': a, 'to': to, 'res': r})


class FakeWord(object):
    def __init__(self, l, v):
        (self.letter, self.value) = (l, v)


def c26(check):
    rng = check.rng
    j = Judge('TR_Words')
    for k in range(400 if check.quick else 6000):
        s = WordStore(rng)
        pool = rng.choice([LETTERS, 'XYG', 'X', 'GM', 'FST', 'NLX', 'O', 'T', 'XAZ', rng.choice(LETTERS)])
        names = ['w%d' % n for n in range(rng.randint(2, 6))]
        for n in names:
            s.make(n, rng.choice(pool))
        if not s.w:
            continue
        for _ in range(25):
            r = rng.random()
            have = sorted(s.w)
            (a, b) = (rng.choice(have), rng.choice(have))
            if r < 0.30:
                s.compare(a, b)
            elif r < 0.45:
                s.text(a)
            elif r < 0.60:
                s.set(a)
            elif r < 0.65:
                s.bad(a)
            elif r < 0.72:
                s.sort()
            elif r < 0.80:
                s.dict()
            elif r < 0.88:
                s.str(a)
            elif r < 0.94:
                s.copy(a, rng.choice(names))
            else:
                s.make(rng.choice(names), rng.choice(pool))
        j.add(s.events)
    # every pair of a set of words
    for l in 'XGNTO' if check.quick else LETTERS:
        s = WordStore(rng)
        same = ['0', '0', '1'] if l in 'LNGMTO' else rng.choice([['0', '-0', '0'], ['0.1', '0.10', '0.1001'], ['-1', '-1', '1']])
        if l == 'X':
            same = ['0', '-0', '1.0001']
        for n in range(3):
            s.make('w%d' % n, l, same[n])
        for n in range(3, 7):
            s.make('w%d' % n, l)
        for n in range(7, 10):
            s.make('w%d' % n, rng.choice(LETTERS))
        for a in sorted(s.w):
            for b in sorted(s.w):
                s.compare(a, b)
        s.sort()
        j.add(s.events)
    check.judge(j, explain=explain)
    check.sample([dict((k, v) for (k, v) in e.items() if k != 'obs') for e in j.traces[0][:5]])


# ---------------------------------------------------------------- C27
STRICT = re.compile(r'^(?:[A-Z]-?(?:\d+(?:\.\d*)?|\.\d+)(?: |$))+$')


def strict_words(text):
    """Words of a printed command (nothing else may be in it), by our own reading"""
    if not STRICT.match(text):
        return None
    out = []
    for x in text.split(' '):
        l = x[0]
        v = float(x[1:])
        out.append([l, int(round(v * scale(l)))])
    return out


class ParamStore(object):
    def __init__(self, rng):
        self.rng = rng
        self.g = {}
        self.events = []

    def emit(self, ev):
        ev['obs'] = {}
        for (n, g) in self.g.items():
            (r, x) = attempt(enc_gcode, g)
            if r == 'ok':   # the dictionary's keys are the letters
                if sorted(g.params) != sorted(w.letter for w in g.params.values()):
                    x = [['?', 0], []]
            ev['obs'][n] = x if r == 'ok' else [['?', 0], []]
        ev.setdefault('n', sorted(self.g)[0] if self.g else '')
        self.events.append(ev)

    def arg(self, l, v):
        """Some way to give a value"""
        x = num(l, v)
        r = self.rng.random()
        if l == 'T' and self.rng.random() < .8:
            return str(x)
        if r < 0.15:
            return str(x) if UNIT[0] == 1000 or x == int(x) else '%.6f' % x
        if r < 0.3 and x == int(x):
            return int(x)
        return x

    def make(self, n, w, ps):
        rng = self.rng
        how = rng.choice(['words', 'kwargs', 'attr', 'text', 'added', 'mixed'])
        letters = [p[0] for p in ps]
        if how in ('kwargs', 'mixed') and len(set(letters)) != len(letters):
            how = 'words'

        def act():
            word = make_word(w)
            if how == 'text':
                text = ' '.join([plain(w)] + [spell(rng, p) for p in ps])
                (gs, rest) = words2gcodes(list(text2words(text)))
                assert len(gs) == 1 and not rest, 'more than one command'
                return gs[0]
            cls = word_gcode_class(word)
            if how == 'words':
                return cls(word, *[make_word(p) for p in ps])
            if how == 'kwargs':
                args = [] if (cls.word_key is not None and cls.word_key == word and rng.random() < .5) else [word]
                if cls.word_value_configurable and rng.random() < .5 and w[0] in 'FSN':
                    args = [num(*w)]
                return cls(*args, **dict((l, self.arg(l, v)) for (l, v) in ps))
            if how == 'mixed':
                k = rng.randint(0, len(ps))
                return cls(word, *[make_word(p) for p in ps[:k]],
                           **dict((l, self.arg(l, v)) for (l, v) in ps[k:]))
            g = cls(word)
            for (l, v) in ps:
                if how == 'attr':
                    setattr(g, l, self.arg(l, v))
                else:
                    g.add_parameter(make_word((l, v)))
            return g
        (r, x) = attempt(act)
        if r == 'ok':
            self.g[n] = x
        self.emit({'op': 'mk', 'n': n, 'w': w, 'ps': ps, 'how': how, 'res': r, 'err': '' if r == 'ok' else x})

    def default(self, n, w):
        """A command made from nothing, or from a number only"""
        rng = self.rng
        cls = word_gcode_class(make_word(w))
        if w[0] in 'FSTNO' and rng.random() < .7:
            ev = {'op': 'number', 'w': w}
            (r, x) = attempt(cls, num(*w))
        else:
            ev = {'op': 'new', 'w': w}
            (r, x) = attempt(cls)
        if r == 'ok':
            self.g[n] = x
        else:
            ev['err'] = x
        ev.update(n=n, res=r)
        self.emit(ev)

    def add(self, n, l, v):
        (r, x) = attempt(self.g[n].add_parameter, make_word((l, v)))
        self.emit({'op': 'add', 'n': n, 'l': l, 'v': v, 'res': r})

    def set(self, n, l, v):
        (r, x) = attempt(setattr, self.g[n], l, self.arg(l, v))
        self.emit({'op': 'set', 'n': n, 'l': l, 'v': v, 'res': r})

    def bad(self, n, l):
        if l in 'TO':
            return
        (r, x) = attempt(setattr, self.g[n], l, self.rng.choice(['abc', '', '1.2.3']))
        self.emit({'op': 'bad', 'n': n, 'l': l, 'res': r})

    def get(self, n, l):
        def act():
            try:
                return getattr(self.g[n], l)
            except AttributeError:
                raise ValueError('no such attribute')
        (r, x) = attempt(act)
        out = []
        if r == 'ok' and x is not None:
            out = [enc_word(FakeWord(l, x))[1]]
        self.emit({'op': 'get', 'n': n, 'l': l, 'res': r, 'out': out})

    def vary(self, n):
        """Changes the word of one command for a moment: no other command, or later one, has it"""
        ev = {'op': 'vary', 'n': n, 'fresh': [], 'key': [], 'same': False, 'others': {}}

        def act():
            g = self.g[n]
            (cls, old) = (type(g), g.word.value)
            w = cls.word_key if cls.word_key is not None else cls.default_word
            ev['key'] = enc_gcode(cls())[:1] if w is not None else []
            g.word.value = 77 if g.word.letter != 'T' else '77'
            try:
                ev['fresh'] = enc_gcode(cls())[:1] if w is not None else []
                ev['others'] = dict((m, enc_gcode(x)) for (m, x) in self.g.items() if m != n)
            finally:
                g.word.value = old
            ev['same'] = word_gcode_class(make_word(enc_word(g.word))) is cls
        (ev['res'], x) = attempt(act)
        self.emit(ev)

    def eq(self, n, m):
        ev = {'op': 'eq', 'n': n, 'm': m, 'eq': False, 'ne': False}

        def act():
            ev['eq'] = (self.g[n] == self.g[m]) is True
            ev['ne'] = (self.g[n] != self.g[m]) is True
        (ev['res'], _) = attempt(act)
        self.emit(ev)

    def dict(self, n):
        rng = self.rng
        most = rng.choice([.5, .5, .1, 0.])
        limit = None if rng.random() < .5 else [l for l in LETTERS if rng.random() < most]
        lc = rng.random() < .3
        kw = {}
        if limit is not None or rng.random() < .3:
            kw['letters'] = None if limit is None else rng.choice([list, set, ''.join])(limit)
        if lc:
            kw['lc'] = True
        (r, x) = attempt(self.g[n].get_param_dict, **kw)
        out = []
        if r == 'ok':
            for (l, v) in x.items():
                ok = (l == l.lower()) if lc else (l == l.upper())
                out.append(enc_word(FakeWord(l.upper(), v)) if ok else ['?', 0])
        self.emit({'op': 'dict', 'n': n, 'all': limit is None, 'limit': limit or [], 'res': r, 'out': out})

    def str(self, n):
        (r, x) = attempt(str, self.g[n])
        ws = strict_words(x) if r == 'ok' else None
        self.emit({'op': 'str', 'n': n, 'res': r, 'text': x,
                   'out': [['?', 0], []] if ws is None else [ws[0], ws[1:]]})

    def copy(self, n, m):
        (r, x) = attempt(deepcopy, self.g[n])
        if r == 'ok':
            self.g[m] = x
        self.emit({'op': 'copy', 'n': n, 'm': m, 'res': r})

    def mcopy(self, n, m):
        (r, x) = attempt(self.g[n].modal_copy)
        if r == 'ok':
            self.g[m] = x
        self.emit({'op': 'mcopy', 'n': n, 'm': m, 'res': r})


COMMANDS = [[code(c)[0], code(c)[1]] for c in ALL_CODES] + [['F', 1500], ['S', 12000], ['T', 3], ['N', 10]]
NUMBERED = [['F', 2500], ['S', 0], ['T', 12], ['N', 0], ['N', 120], ['O', 7], ['O', 1234]]


def c27(check):
    rng = check.rng
    j = Judge('TR_Params')

    def accepted(w):
        c = word_gcode_class(make_word(w))
        return sorted(c.param_letters)

    # every letter of every command: built, read, assigned, added, listed
    for part in range(0, len(COMMANDS), 6):
        s = ParamStore(rng)
        for w in COMMANDS[part:part + 6]:
            s.default('a', w)
            s.make('a', w, [])
            if 'a' not in s.g:
                continue
            for l in rng.sample(LETTERS, 26):
                if l == 'O':
                    continue
                s.get('a', l)
                if rng.random() < (0.5 if check.quick else 1.):
                    r = rng.random()
                    v = value(rng, l)
                    (s.add if r < .5 else s.set)('a', l, v)
                    (s.add if rng.random() < .3 else s.set)('a', l, value(rng, l))
                    s.get('a', l)
            s.str('a')
            s.dict('a')
            s.mcopy('a', 'b')
            s.vary(rng.choice('ab'))
        j.add(s.events)
    for k in range(500 if check.quick else 8000):
        use_unit(rng.choice([1000, 1000, 100000, 1000000]))
        s = ParamStore(rng)
        names = 'abcd'
        cmds = [rng.choice(COMMANDS) for _ in range(rng.choice([1, 1, 2, 3]))]
        for _ in range(35):
            r = rng.random()
            have = sorted(s.g)
            if r < 0.02:
                s.default(rng.choice(names), rng.choice(COMMANDS + NUMBERED))
                continue
            if not have or r < 0.2:
                w = rng.choice(cmds)
                ls = accepted(w)
                ps = []
                for l in ls:
                    if rng.random() < .4:
                        ps.append([l, value(rng, l, 3)])
                rng.shuffle(ps)
                if rng.random() < .1:
                    ps.append([rng.choice(LETTERS.replace('O', '')), 0])
                    ps[-1][1] = value(rng, ps[-1][0])
                s.make(rng.choice(names), w, ps)
                continue
            n = rng.choice(have)
            m = rng.choice(have)
            ls = accepted([s.g[n].word.letter, enc_word(s.g[n].word)[1]]) or ['X']
            l = rng.choice(ls) if rng.random() < .85 else rng.choice(LETTERS.replace('O', ''))
            v = value(rng, l, 3)
            if r < 0.40:
                s.set(n, l, v)
            elif r < 0.50:
                s.add(n, l, v)
            elif r < 0.55:
                s.bad(n, l)
            elif r < 0.63:
                s.get(n, l)
            elif r < 0.66:
                s.vary(n)
            elif r < 0.75:
                s.eq(n, m)
            elif r < 0.84:
                s.dict(n)
            elif r < 0.92:
                if UNIT[0] == 1000:     # (printed values are rounded)
                    s.str(n)
            elif r < 0.96:
                s.copy(n, rng.choice(names))
            else:
                s.mcopy(n, rng.choice(names))
        j.add(s.events)
    use_unit()
    check.judge(j, explain=explain)
    check.sample([dict((k, v) for (k, v) in e.items() if k != 'obs') for e in j.traces[-1][:5]])
