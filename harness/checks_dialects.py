"""Dialects (C32): the dialect given, or the default one set, decides how text is read; judged by Dialects."""
import json
import re
import types
from copy import copy, deepcopy

from lib import Judge, attempt
from checks_text import enc as enc_exact, cps
from checks_words import respell

from pygcode import Line, Block, dialects
from pygcode.dialects.utils import WordType
from pygcode.words import Word, text2words, str2word

LETTERS = 'ABCDEFGHIJKLMNOPQRSTUVWXYZ'
LINUX = dict((l, 'rest' if l == 'O' else 'count' if l in 'LNT' else 'code' if l in 'GM' else 'real') for l in LETTERS)
KINDS = {
    'real': (float, r'^\s*-?(\d+\.?\d*|\.\d+)', lambda v: ('%.3f' % v).rstrip('0').rstrip('.')),
    'tenths': (float, r'^\s*-?(\d+\.?\d*|\.\d+)', lambda v: '%.1f' % v),
    'count': (int, r'^\s*\d+', lambda v: '%d' % v),
    'code': (float, r'^\s*\d+(\.\d)?', lambda v: ('%.1f' % v).rstrip('0').rstrip('.')),
    'rest': (str, r'^.+$', lambda v: v),
}


def word_type(kind, description):
    (cls, regex, clean) = KINDS[kind]
    return WordType(cls=cls, value_regex=re.compile(regex), description=description, clean_value=clean)


def digits(s):
    (a, _, b) = s.lstrip('-').partition('.')
    (a, b) = (a.lstrip('0'), b.rstrip('0'))
    return {'neg': s.startswith('-') and bool(a or b), 'ip': [int(c) for c in a], 'fp': [int(c) for c in b]}


class Readings(object):
    def __init__(self, rng):
        self.rng = rng
        self.tables = {'linuxcnc': dict(LINUX)}
        self.cur = 'linuxcnc'
        self.kept = {}      # name -> (dialect, list of words | block)
        self.events = []

    def close(self):
        dialects.set_default('linuxcnc')
        for n in self.tables:
            if n != 'linuxcnc':
                delattr(dialects, n)
        return self.events

    def enc(self, w, d):
        if isinstance(w.value, str) and self.tables[d].get(w.letter) == 'rest':
            return {'l': w.letter, 'text': cps(' '.join(w.value.split()))}
        x = enc_exact(w) if w.letter != 'O' else {'l': 'O', 'text': cps(str(w.value))}
        if w.letter == 'O' and self.tables[d].get('O') != 'rest':
            x = dict(digits(repr(w.value) if not isinstance(w.value, str) else '7777'), l='O')
        kind = self.tables[d].get(w.letter)
        want = str if (d == 'linuxcnc' and w.letter == 'T') else KINDS[kind][0] if kind else None
        if want and (not isinstance(w.value, want) or isinstance(w.value, bool)):
            x['l'] = '?'
        return x

    def words_of(self, x):
        return x.words if isinstance(x, Block) else x

    def emit(self, ev):
        ev['obs'] = {}
        for (n, (d, x)) in self.kept.items():
            (r, ws) = attempt(lambda: [self.enc(w, d) for w in self.words_of(x)])
            ev['obs'][n] = ws if r == 'ok' else [{'l': '?', 'neg': False, 'ip': [], 'fp': []}]
        self.events.append(ev)

    # -- events
    def dialect(self, name):
        rng = self.rng
        table = {}
        for l in LETTERS:
            if l in 'GM' or rng.random() < .75:
                table[l] = LINUX[l] if rng.random() < .5 or l in 'GMNT' else \
                    rng.choice(['real', 'tenths', 'tenths', 'count']) if l != 'Q' or rng.random() < .5 else 'rest'
        if rng.random() < .3:
            table = dict((l, k if rng.random() < .8 else 'tenths' if k == 'real' else k) for (l, k) in LINUX.items())
        self.tables[name] = table
        module = types.ModuleType(name)
        module.WORD_MAP = dict((l, word_type(k, '%s in %s' % (l, name))) for (l, k) in table.items())
        setattr(dialects, name, module)
        self.emit({'op': 'dialect', 'name': name, 'table': table})

    def default(self, name):
        (r, x) = attempt(lambda: dialects.set_default(name) or dialects.get_default())
        self.cur = name
        self.emit({'op': 'default', 'name': name, 'res': r, 'got': x if r == 'ok' else ''})

    def spelt(self, l, kind):
        rng = self.rng
        if kind == 'rest':
            return rng.choice(['1', 'abc', 'G1 X2', 'a b'])
        s = rng.choice({
            'count': ['0', '1', '2', '10', '300'], 'code': ['0', '1', '3', '38.2', '59.1', '90', '8'],
        }.get(kind, ['0', '1', '-1', '.5', '-2.5', '12.25', '100', '1.001', '7.', '-0.125']))
        return s

    def text(self, d, n=None):
        """A text of the dialect"""
        rng = self.rng
        table = self.tables[d]
        ls = [l for l in sorted(table) if table[l] != 'rest' and l not in 'MN']
        rng.shuffle(ls)
        ls = ls[:n or rng.choice([1, 2, 2, 3, 5])]
        rest = [l for l in table if table[l] == 'rest']
        if rest and rng.random() < .2 and not n:
            ls = ls[:2] + [rng.choice(rest)]
        out = []
        for l in ls:
            s = self.spelt(l, table[l])
            if l == 'G':
                s = rng.choice(['0', '1', '90', '21'])
            out.append(rng.choice([l, l, l.lower()]) + s)
        return rng.choice([' ', ' ', '']).join(out)

    def read(self, to, how, d, text):
        rng = self.rng
        at = d or self.cur
        first = text.strip()[:1].upper()
        if first not in self.tables[at]:
            return
        ev = {'op': 'read', 'to': to, 'how': how, 'd': d, 'cs': cps(text), 'words': []}

        def act():
            if how == 'line':
                return Line(text).block
            if how == 'block':
                if not d:
                    return Block(text) if rng.random() < .5 else Block(text, None)
                return Block(text, d) if rng.random() < .5 else Block(text, dialect=d)
            if how == 'word':
                return [str2word(text)]
            if not d:
                return list(text2words(text))
            return list(text2words(text, d) if rng.random() < .5 else text2words(text, dialect=d))
        (r, x) = attempt(act)
        ev['res'] = r
        if r == 'ok':
            (r2, ws) = attempt(lambda: [self.enc(w, at) for w in self.words_of(x)])
            if r2 == 'ok':
                ev['words'] = ws
                if to:
                    self.kept[to] = (at, x)
            else:
                ev['res'] = r2
        else:
            ev['err'] = x
        self.emit(ev)

    def word(self, to, d, l):
        rng = self.rng
        at = d or self.cur
        kind = self.tables[at].get(l, 'count')
        if kind == 'rest':
            return
        s = self.spelt(l, kind)
        if kind == 'count' and not (at == 'linuxcnc' and l == 'T') and rng.random() < .4:
            s = rng.choice(['2.7', '3.5', '4', '0.25'])
        v = float(s) if '.' in s else int(s)
        ev = {'op': 'word', 'to': to, 'd': d, 'l': l, 'v': digits(s)}

        def act():
            args = (rng.choice([l, l.lower()]), v)
            if kind != 'count' and rng.random() < .4:
                args = (args[0] + s,)
            return Word(*args, dialect=d) if d else Word(*args)
        (r, x) = attempt(act)
        ev['res'] = r
        if r == 'ok':
            (r2, w) = attempt(self.enc, x, at)
            ev['word'] = w if r2 == 'ok' else {'l': '?', 'neg': False, 'ip': [], 'fp': []}
            self.kept[to] = (at, [x])
        else:
            ev['err'] = x
        self.emit(ev)

    def give(self, a):
        (d, x) = self.kept[a]
        w = self.words_of(x)[0]
        kind = self.tables[d].get(w.letter)
        if kind in (None, 'rest'):
            return
        s = self.spelt(w.letter, kind)
        (r, y) = attempt(setattr, w, 'value', float(s) if '.' in s else int(s))
        self.emit({'op': 'give', 'a': a, 'v': digits(s), 'res': r})

    def look(self, a, letter):
        (d, b) = self.kept[a]
        if self.rng.random() < .3:
            b = self.rng.choice([copy, deepcopy])(b)
        ev = {'op': 'look', 'a': a, 'letter': letter, 'word': {'l': '', 'none': True}}

        def act():
            w = getattr(b, letter)
            return ev['word'] if w is None else self.enc(w, d)
        (ev['res'], x) = attempt(act)
        if ev['res'] == 'ok':
            ev['word'] = x
        self.emit(ev)

    def about(self, w):
        for (n, table) in self.tables.items():
            m = getattr(dialects, n).WORD_MAP
            if w.letter in m and w.description == '%s: %s' % (w.letter, m[w.letter].description):
                return n
        return '?'

    def printed(self, a):
        (d, x) = self.kept[a]
        ws = self.words_of(x)
        if self.rng.random() < .3:
            ws = [self.rng.choice([copy, deepcopy])(w) for w in ws]
        (r, out) = attempt(lambda: ([cps(str(w)) for w in ws], [self.about(w) for w in ws]))
        ev = {'op': 'print', 'a': a, 'res': r, 'out': out[0] if r == 'ok' else [], 'about': out[1] if r == 'ok' else []}
        self.emit(ev)


def explain(events, i, info):
    out = []
    for e in events[max(0, i - 5):i + 1]:
        e = dict((k, v) for (k, v) in e.items() if k not in ('obs', 'table'))
        for k in ('cs',):
            if k in e:
                e[k] = ''.join(map(chr, e[k]))
        out.append(json.dumps(e)[:500])
    return '\n'.join(out)


def history(rng, length):
    s = Readings(rng)
    names = ['mine', 'zeta', 'bench']
    try:
        s.dialect(names[0])
        for _ in range(length):
            x = rng.random()
            have = sorted(s.tables)
            d = rng.choice([''] + have)
            to = rng.choice('pqr')
            if x < .08 and len(have) < 4:
                s.dialect([n for n in names if n not in have][0])
            elif x < .25:
                s.default(rng.choice(have))
            elif x < .55:
                how = rng.choice(['block', 'words', 'line', 'word'])
                if how in ('line', 'word'):
                    d = ''
                of = (d or s.cur) if rng.random() < .6 else rng.choice(have)
                s.read(to, how, d, s.text(of, 1 if how == 'word' else None))
            elif x < .7:
                s.word(to, d, rng.choice(LETTERS))
            elif s.kept:
                a = rng.choice(sorted(s.kept))
                (_, o) = s.kept[a]
                if x < .78:
                    s.give(a)
                elif x < .88 and isinstance(o, Block):
                    s.look(a, rng.choice([w.letter for w in o.words] + list(LETTERS)) if rng.random() < .5
                           else rng.choice(LETTERS))
                else:
                    s.printed(a)
    finally:
        s.close()
    return s.events


def c32(check):
    rng = check.rng
    j = Judge('TR_Dialects')
    for _ in range(600 if check.quick else 10000):
        j.add(history(rng, rng.randint(15, 40)))
    check.judge(j, explain=explain)
    check.sample([dict((k, v) for (k, v) in e.items() if k not in ('obs', 'table')) for e in j.traces[0][:6]])
