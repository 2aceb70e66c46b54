"""Checks of properties decided with the text specification (TR_Text)."""
import itertools
import json
import re
from copy import copy, deepcopy
from decimal import Decimal

from lib import Judge, attempt
from mach import Recorder
from gen import Gen
from gtext import render, plain, spell, ALL_CODES, code, PARAMS

from pygcode import Line, Block
from pygcode.comment import split_line, CommentSemicolon, CommentBrackets
from pygcode.gcodes import text2gcodes
from pygcode.words import Word, str2word, text2words

FLOATS = 'ABCDEFHIJKPQRSUVWXYZ'
NOTHING = {'l': '?', 'neg': False, 'ip': [], 'fp': []}


# ------------------------------------------------------------ encoding
def cps(text):
    return [ord(c) for c in text]


def enc(word):
    """A word, with its exact value as digits"""
    if word.letter == 'O':
        return {'l': 'O', 'text': cps(' '.join(str(word.value).split()))}
    try:
        v = word.value
        d = Decimal(v) if isinstance(v, str) else Decimal(repr(v))
        s = format(abs(d), 'f')
        (a, _, b) = s.partition('.')
        a = a.lstrip('0')
        b = b.rstrip('0')
        return {'l': word.letter, 'neg': bool(d < 0), 'ip': [int(c) for c in a], 'fp': [int(c) for c in b]}
    except Exception:
        return dict(NOTHING)


def explain(events, i, info):
    e = dict(events[i])
    text = lambda x: repr(''.join(map(chr, x))) if isinstance(x, list) else x
    for k in ('cs', 'out', 'again', 'ctext', 'macro', 'code', 'text', 'ltext'):
        if k in e:
            e[k] = text(e[k])
    return json.dumps(e)[:1500]


# Lines that are known not to be printed as they should
KNOWN = {'G1 X1 (50%) ; x': 'percent-in-joined-comment', '(c) O1(': 'open-bracket-in-name'}


def found(text):
    """Lines of the classes of those findings (not only these would show them)"""
    t = text.upper()
    return ('%' in t and ';' in t and '(' in t) or ('O' in t and t.count('(') > 1)


def laws(check, module, longest, invariants):
    """Laws of the specification itself, on every text (or list of words) of a few"""
    check.model(module, 'INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nCONSTANT Longest = %d\nINVARIANT %s\n' % (
        longest, invariants))


def signature(events, i, info, clauses):
    e = events[i]
    return KNOWN.get(''.join(map(chr, e['cs']))) if e['op'] == 'print' and e.get('how') == 'line' else None


def judge(check, j):
    check.judge(j, explain=explain, signature=signature)
    for t in j.traces[:2]:
        check.sample([''.join(map(chr, e['cs'])) for e in t[:6] if 'cs' in e])


class Book(object):
    """Events, in traces of a limited length"""
    def __init__(self, size=300):
        self.j = Judge('TR_Text')
        self.size = size
        self.events = []

    def add(self, ev):
        self.events.append(ev)
        if len(self.events) >= self.size:
            self.close()

    def close(self):
        if self.events:
            self.j.add(self.events)
        self.events = []
        return self.j

    # -- events
    def lex(self, text, how='words'):
        ev = {'op': 'lex', 'cs': cps(text), 'words': [], 'how': how}
        (r, x) = attempt(lambda: list(text2words(text.strip() if 'o' in text.lower() else text)))
        ev['res'] = r
        if r == 'ok':
            ev['words'] = [enc(w) for w in x]
        else:
            ev['err'] = x
        self.add(ev)

    def line(self, text):
        ev = {'op': 'line', 'cs': cps(text), 'words': [], 'ckind': 'none', 'ctext': [], 'macro': []}
        (r, x) = attempt(Line, text)
        ev['res'] = r
        if r == 'ok':
            ev['words'] = [enc(w) for w in x.block.words]
            if x.comment is not None:
                ev['ckind'] = {'CommentSemicolon': 'semicolon', 'CommentBrackets': 'brackets'}.get(
                    type(x.comment).__name__, '?')
                ev['ctext'] = cps(x.comment.text)
            ev['macro'] = cps(x.macro or '')
        else:
            ev['err'] = x
        self.add(ev)

    def printed(self, text, how='line'):
        ev = {'op': 'print', 'cs': cps(text), 'out': [], 'again': [], 'how': how}

        def act():
            if how == 'block':
                out = str(Block(text))
                return (out, str(Block(out)))
            if how == 'gcodes' and 'o' not in text.lower():
                b = Block(text)
                out = ' '.join([str(g) for g in b.gcodes] + [str(w) for w in b.modal_params])
                return (out, str(Block(out)))
            if how == 'words':
                out = ' '.join(str(w) for w in Block(text).words)
                return (out, ' '.join(str(w) for w in Block(out).words))
            out = str(Line(text))
            return (out, str(Line(out)))
        (r, x) = attempt(act)
        ev['res'] = r
        if r == 'ok':
            (ev['out'], ev['again']) = (cps(x[0]), cps(x[1]))
        else:
            ev['err'] = x
        self.add(ev)


    # -- views (C29)
    def view(self, text, kind, rng):
        ev = {'op': 'view', 'cs': cps(text), 'kind': kind, 'words': [], 'look': [], 'others': 0, 'len': 0, 'bool': False,
              'cmds': [], 'text': [], 'ltext': [], 'same': False}
        how = ev['how'] = rng.choice(['', '', '', 'copy', 'deepcopy', 'twice'])

        def act():
            x = Line(text) if kind == 'line' else Block(text)
            if how == 'copy':
                x = copy(x)
            elif how == 'deepcopy':
                x = deepcopy(x)
            elif how == 'twice':
                views(x, ev, kind)
            views(x, ev, kind)
        (ev['res'], x) = attempt(act)
        if ev['res'] != 'ok':
            ev['err'] = x
        self.add(ev)

    def edited(self, texts, kind, rng):
        """A block (or line) whose parts are changed, between looks at it"""
        (r, bs) = attempt(lambda: [Block(t) for t in texts])
        if r != 'ok':
            return
        given = texts[0] if rng.random() < .5 else None
        comment = rng.choice([None, None, CommentSemicolon('one'), CommentBrackets('two 2')])
        macro = rng.choice([None, None, '%macro'])
        x = (Line if kind == 'line' else Block)(given)
        if kind == 'line' and x.block is None:
            x.block = Block()
        b = x.block if kind == 'line' else x
        for n in range(rng.choice([1, 2, 3])):
            if n or rng.random() < .5:     # change something
                s = rng.choice(bs)
                r = rng.random()
                if r < .3:
                    b.words = list(s.words)
                elif r < .4 and b.words:
                    b.words.pop(rng.randrange(len(b.words)))
                elif r < .5:
                    b.words.insert(0, rng.choice(s.words or [Word('X1')]))
                elif r < .6:
                    b.words.append(rng.choice(s.words or [Word('X1')]))
                elif r < .75:
                    b.gcodes = list(s.gcodes)
                elif r < .8:
                    b.gcodes.extend(s.gcodes)
                elif r < .9:
                    b.modal_params = list(s.modal_params)
                else:
                    del b.modal_params[1:]
                if kind == 'line':
                    x.comment = comment if rng.random() < .5 else x.comment
                    x.macro = macro if rng.random() < .5 else x.macro
            ev = {'op': 'edit', 'kind': kind, 'given': cps(given or ''), 'words': [enc(w) for w in b.words],
                  'cmds': [enc_cmd(g) for g in b.gcodes], 'rest': [enc(w) for w in b.modal_params],
                  'look': [], 'len': -1, 'bool': False, 'text': [], 'ltext': [], 'out': [], 'same': False,
                  'wrote': given is not None, 'ckind': 'none', 'ctext': [], 'macro': []}
            if kind == 'line':
                (ev['ckind'], ev['ctext']) = kind_and_text(x.comment)
                ev['macro'] = cps(x.macro or '')

            def act():
                ev['look'] = [NO_WORD if w is None else enc(w) for w in (getattr(b, l) for l in LETTERS)]
                (ev['len'], ev['bool']) = (len(b), bool(b))
                ev['text'] = cps(b.text)
                ev['out'] = cps(str(b))
                if kind == 'line':
                    ev['ltext'] = cps(x.text)
                    ev['out'] = cps(str(x))
                    ev['same'] = x.gcodes is b.gcodes or x.gcodes == b.gcodes
            (ev['res'], e) = attempt(act)
            if ev['res'] != 'ok':
                ev['err'] = e
            self.add(ev)

    def commands(self, text):
        ev = {'op': 'cmds', 'cs': cps(text), 'cmds': []}
        (ev['res'], x) = attempt(lambda: [enc_cmd(g) for g in text2gcodes(text)])
        if ev['res'] == 'ok':
            ev['cmds'] = x
        else:
            ev['err'] = x
        self.add(ev)

    def word(self, text):
        ev = {'op': 'word', 'cs': cps(text), 'word': NO_WORD}

        def act():
            w = str2word(text)
            return NO_WORD if w is None else enc(w)
        (ev['res'], x) = attempt(act)
        if ev['res'] == 'ok':
            ev['word'] = x
        else:
            ev['err'] = x
        self.add(ev)

    def split(self, text):
        ev = {'op': 'split', 'cs': cps(text), 'code': [], 'ckind': 'none', 'ctext': []}
        (ev['res'], x) = attempt(lambda: split_line(text))
        if ev['res'] == 'ok':
            ev['code'] = cps(x[0])
            (ev['ckind'], ev['ctext']) = kind_and_text(x[1])
        else:
            ev['err'] = x
        self.add(ev)


LETTERS = 'ABCDEFGHIJKLMNOPQRSTUVWXYZ'
NO_WORD = {'l': '', 'none': True}
KINDS = {'CommentSemicolon': 'semicolon', 'CommentBrackets': 'brackets'}


def kind_and_text(comment):
    return ('none', []) if comment is None else (KINDS.get(type(comment).__name__, '?'), cps(comment.text))


def enc_cmd(g):
    return [enc(g.word), [enc(w) for w in g.params.values()]]


def views(x, ev, kind):
    """What a line or block shows of itself"""
    b = x.block if kind == 'line' else x
    ev['words'] = [enc(w) for w in b.words]
    look = [getattr(b, l) for l in LETTERS]
    ev['look'] = [NO_WORD if w is None else enc(w) for w in look]
    ev['others'] = sum(1 for l in ('x', 'g', 'XY', 'G1', '_X', 'word') if hasattr(b, l))
    ev['len'] = len(b)
    ev['bool'] = bool(b)
    ev['cmds'] = [enc_cmd(g) for g in b.gcodes]
    ev['text'] = cps(b.text)
    if kind == 'line':
        ev['ltext'] = cps(x.text)
        ev['same'] = len(x.gcodes) == len(b.gcodes) and all(p is q or p == q for (p, q) in zip(x.gcodes, b.gcodes))


# ------------------------------------------------------------ generation
def number(rng, letter, big=7, frac=8):
    """Some spelling of a number for a letter, and no more than 15 digits"""
    if letter in 'GM':
        r = rng.random()
        if r < 0.75:
            c = code(rng.choice([c for c in ALL_CODES if c[0] == letter]))
            (a, b) = divmod(c[1], 10)
        else:
            (a, b) = (rng.choice([0, 5, 61, 80, 99, 100, 200, 1000, rng.randint(0, 9999)]), rng.choice([0, 0, 0, 5, 9]))
        return '0' * rng.choice([0, 0, 0, 1, 2]) + '%d' % a + ('.%d' % b if b or rng.random() < .2 else '')
    if letter in 'LNT':
        return '0' * rng.choice([0, 0, 1, 2]) + '%d' % rng.choice([0, 1, 2, 7, 10, 99, 120, rng.randint(0, 10 ** rng.randint(1, big))])
    if letter == 'O':
        return rng.choice(['12', '0012', '<sub> call', '<prog>  if \t[1]', '100 sub', '1 G1 X2'])
    sign = rng.choice(['', '', '-'])
    a = '0' * rng.choice([0, 0, 0, 1, 3]) + '%d' % rng.choice(
        [0, 0, 1, 9, 10, 25, 100, 999, rng.randint(0, 10 ** rng.randint(1, big))])
    style = rng.random()
    if style < 0.3:
        return sign + a
    b = ''.join(rng.choice('0001234567899') for _ in range(rng.randint(1, frac)))
    if style < 0.4:
        return sign + a + '.'
    if style < 0.55:
        return sign + '.' + b
    if rng.random() < 0.25:   # near the boundaries of printing
        b = rng.choice(['0005', '0004999', '9995', '9994999', '0015', '0025', '1235', '9999', '00049', '001', '00000001'])
    return sign + a + '.' + b


def words_text(rng, n, letters=None, sep=None):
    out = ''
    sep = sep or rng.choice([lambda: '', lambda: ' ', lambda: rng.choice(['', ' ', '  ', '\t', ' \t'])])
    for k in range(n):
        l = rng.choice(letters or 'GGGMXXYZZFSTNPIJKRLQABCUVWDEH')
        out += (sep() if k else '') + (l.lower() if rng.random() < .3 else l)
        out += rng.choice(['', '', '', ' ', '\t']) + number(rng, l)
    return out


def mutate(rng, text):
    """(no number gets more digits than floats tell apart)"""
    t = mutated(rng, text)
    bare = re.sub(r'\([^)]*\)|\s', '', t)
    return text if re.search(r'(\d\.?){16}', bare) else t


def mutated(rng, text, alphabet='.-+ ()%;,*/#=@!?_"[]<>eE0G1X5\t\x00\x07\x7f'):
    for _ in range(rng.choice([1, 1, 2, 3])):
        k = rng.randint(0, len(text))
        r = rng.random()
        if r < 0.5:
            text = text[:k] + rng.choice(alphabet) + text[k:]
        elif r < 0.8 and text:
            text = text[:k] + text[k + 1:]
        elif text:
            (a, b) = sorted((rng.randint(0, len(text)), rng.randint(0, len(text))))
            text = text[:a] + text[b:] + (text[a:b] if rng.random() < .5 else '')
    return text


COMMENTS = ['', 'x', 'G1 X5', ' a note ', 'M30', ';', 'semi; colon', '50%', '%', '(', 'a(b', 'F100 (', '; M3', 'tool 1 T2 M6',
            ' ', 'N10', '.', 'a. b', ';;', '%;(', '\u00e9', '90\u00b0', '\u00b5m G1 X5', '\u4e2d; \u2014', '\U0001f529']


def comment(rng):
    c = rng.choice(COMMENTS)
    if rng.random() < 0.3:
        c += ''.join(rng.choice('abG1X2 .;%(-') for _ in range(rng.randint(0, 5)))
    if rng.random() < 0.03:
        c += rng.choice(['-', 'G1 ', 'long ']) * rng.choice([20, 40, 90, 300])
    r = rng.random()
    if r < 0.6:
        return '(' + c.replace(')', '') + ')'
    if r < 0.9:
        return ';' + c
    return '(' + c     # unclosed


def words_list(rng, n):
    """n words as separate texts"""
    return [words_text(rng, 1) for _ in range(n)]


def a_line(rng):
    parts = words_list(rng, rng.choice([0, 1, 1, 2, 3, 5] + [8, 14] * (rng.random() < .2) + [40] * (rng.random() < .02)))
    for _ in range(rng.choice([0, 0, 1, 1, 1, 2, 3] + [5, 9] * (rng.random() < .2))):
        parts.insert(rng.randint(0, len(parts)), comment(rng))
    if rng.random() < 0.25:
        parts.append(rng.choice(['%', '%macro', '%G1 X5', '% call(1) %', '%%', '%;x', '%(y)', '%x ']))
    sep = rng.choice(['', ' ', '  ', '\t'])
    text = sep.join(parts)
    if rng.random() < 0.15:
        text = ' ' + text
    if rng.random() < 0.15:
        text += rng.choice([' ', '\t', '  '])
    return text + rng.choice(['', '', '', '\n', '\r\n'])


# ------------------------------------------------------------ C01
def c01(check):
    rng = check.rng
    laws(check, 'MC_Text', 4 if check.quick else 5, 'Clean Part Silent')
    b = Book()
    # every short line over an alphabet of what matters
    sizes = [('G1X(;)% ', 4)] if check.quick else [('G1X(;)% .-', 5), ('G1();%', 7)]
    for (alpha, n) in sizes:
        for k in range(n + 1):
            for cs in itertools.product(alpha, repeat=k):
                if k == n and rng.random() > (0.8 if check.quick else 0.5):
                    continue
                b.line(''.join(cs))
    for _ in range(8000 if check.quick else 60000):
        t = a_line(rng)
        b.line(t if rng.random() < 0.75 else mutate(rng, t.rstrip('\r\n')))
    judge(check, b.close())
    # no comment has any effect on a machine
    jm = Judge('TR_Machine')
    for k in range(36 if check.quick else 150):
        r = Recorder(rng)
        g = Gen(rng, axes='XYZ')
        r.new('a', 'XYZ')
        for _ in range(20):
            ws = g.block()
            parts = [spell(rng, w) for w in ws]
            for _ in range(rng.choice([0, 1, 2])):
                parts.insert(rng.randint(0, len(parts)), '(' + rng.choice(COMMENTS) + ')')
            text = ' '.join(parts)
            if rng.random() < 0.4:
                text += ' ;' + rng.choice(['G1 X99', '(M30)', ') G0 X5', 'plain'])
            if rng.random() < 0.3:
                text += ' %' + rng.choice(['', 'G1 X99', ' M30 %'])
            process_line(r, 'a', ws, text)
        jm.add(r.events)
    check.judge(jm, explain=lambda ev, i, info: json.dumps(ev[i])[:1500])


def process_line(r, name, ws, text):
    """As a program's line is processed"""
    ev = {'op': 'blk', 'm': name, 'ws': ws, 'text': text, 'api': 'line'}
    (pr, line) = attempt(Line, text)
    if pr == 'ok':
        (ev['res'], x) = attempt(r.m[name].process_block, line.block)
    else:
        (ev['res'], x) = (pr, line)
    if ev['res'] != 'ok':
        ev['err'] = x
    return r.emit(ev)


# ------------------------------------------------------------ C02
def c02(check):
    rng = check.rng
    laws(check, 'MC_Text', 4 if check.quick else 5, 'Spaced Caseless')
    b = Book()
    # every short block over small alphabets
    for (alpha, n) in ([('G1.- X', 5)] if check.quick else [('G1.- X', 7), ('X0.-, n', 6), ('L1. -t', 6)]):
        for k in range(1, n + 1):
            for cs in itertools.product(alpha, repeat=k):
                if k == n and rng.random() > (0.35 if check.quick else 0.3):
                    continue
                b.lex(''.join(cs))
    # every letter with every kind of value
    values = ['0', '1', '-1', '1.5', '-1.5', '.5', '-.5', '5.', '-5.', '00', '007', '01.10', '1.25', '10', '-0', '-0.0',
              '', '-', '.', '-.', '--1', '1-', '+1', '1..2', '1.2.3', 'x', '1e3', '1,5', '0.000001', '123456.789',
              '12345678901', '- 1', ' 1', '\t1', '1 ', ' 1 .5', '1/2', '#1', '[1]', '=1', '*1']
    for l in 'ABCDEFGHIJKLMNOPQRSTUVWXYZ':
        for v in values:
            for x in (l + v, l.lower() + ' ' + v, 'G1 ' + l + v, l + v + ' X1'):
                b.lex(x)
    for _ in range(8000 if check.quick else 60000):
        t = words_text(rng, rng.choice([1, 1, 2, 3, 5, 8]))
        if rng.random() < 0.1:
            t += ' O' + number(rng, 'O')
        r = rng.random()
        if r < 0.3:
            t = mutate(rng, t)
        if rng.random() < 0.5:
            b.lex(t)
        else:
            b.line(t.replace('%', '').replace(';', '').replace('(', '').replace(')', ''))
    judge(check, b.close())


# ------------------------------------------------------------ C22
def printable(rng):
    """A line worth printing: a block of supported commands, comment and macro"""
    g = Gen(rng, axes=rng.choice(['XYZ', 'XYZABCUVW']), nonmodal=0.3, junk=0.05, conflict=0, dup=0)
    ws = g.block()
    parts = []
    for w in ws:
        l = w[0]
        if l in 'GMO' or rng.random() < 0.3:
            parts.append(spell(rng, w))
        else:
            parts.append(l + number(rng, l, big=rng.choice([3, 6, 6, 9]), frac=rng.choice([3, 6])))
    if rng.random() < 0.1:
        parts.append(rng.choice(['G123', 'M99', 'G38', 'G12.5']))
    if rng.random() < 0.1:
        parts.append('O' + number(rng, 'O'))
    return ' '.join(parts)


def c22(check):
    rng = check.rng
    laws(check, 'MC_Text', 4 if check.quick else 5, 'RoundTrip')
    b = Book()
    # every line of a few characters
    for k in range(1, 5 if check.quick else 6):
        for cs in itertools.product('X1.- ();%o', repeat=k):
            t = ''.join(cs)
            if k > 3 and rng.random() > (.15 if check.quick else .3 if k > 4 else 1):
                continue
            if not found(t):
                b.printed(t, 'line')
    # every command and every parameter of it, over the boundaries of rounding
    edge = ['0', '-0', '0.0004', '0.0005', '-0.0004', '0.00051', '0.0015', '1.9995', '-1.9994', '0.1', '1.25', '12.5',
            '100', '1000000', '123456.789', '12345678.901', '987654321.125', '1234567890', '100000000.5', '99999999.9996', '0.00001', '-0.00001', '999999.9995', '0.999', '0.9999', '2.', '.5']
    for l in FLOATS:
        for v in edge:
            b.printed(rng.choice(['', 'G1 ', 'G2 ', 'G81 ', 'G76 ']) + l + v, rng.choice(['line', 'block', 'words', 'gcodes']))
    for c in ALL_CODES:
        for _ in range(2):
            ps = ['%s%s' % (l, number(rng, l, rng.choice([6, 9]), 6)) for l in PARAMS.get(c, '') if rng.random() < .7]
            b.printed(' '.join([c] + ps), rng.choice(['line', 'block', 'words', 'gcodes']))
    for l in 'TNL':
        for v in ['0', '1', '01', '10', '100', '0012', '123456', '1200000']:
            b.printed(l + v, rng.choice(['line', 'block', 'words']))
    for _ in range(5000 if check.quick else 40000):
        t = printable(rng)
        how = rng.choice(['line', 'line', 'block', 'words', 'gcodes'])
        if how == 'line':
            if rng.random() < 0.5:
                # (no '%' may be within brackets that are joined with a ';' comment)
                cs = [rng.choice(['note', 'G1 X5', 'a. b', 'x;y', '', ' p ', 'caf\u00e9 90\u00b0', 'n' * 100])for _ in range(rng.choice([1, 1, 2]))]
                t += ' ' + ' '.join('(%s)' % c for c in cs)
                if rng.random() < 0.3:
                    t += ' ; more (G0 X1) text'
            if rng.random() < 0.2:
                t += ' %' + rng.choice(['', 'macro', 'm(1) %'])
        b.printed(t, how)
    for t in KNOWN:
        b.printed(t)
    judge(check, b.close())
    # the same effect on any machine: what is printed runs beside what was written
    jm = Judge('TR_Machine')
    for k in range(60 if check.quick else 250):
        r = Recorder(rng)
        axes = rng.choice(['XYZ', 'XYZABC', 'XYZABCUVW'])
        g = Gen(rng, axes=axes, conflict=0, dup=0, junk=0.05)
        for m in 'ab':
            r.new(m, axes)
        for _ in range(15):
            ws = g.block()
            text = render(rng, ws)
            (res, block) = attempt(Block, text)
            if res != 'ok':
                continue
            how = rng.choice(['block', 'gcodes', 'words', 'line'])
            (res, out) = attempt(lambda: {
                'block': lambda: str(block),
                'gcodes': lambda: ' '.join(str(x) for x in block.gcodes + block.modal_params),
                'words': lambda: ' '.join(str(x) for x in block.words),
                'line': lambda: str(Line(text)),
            }[how]())
            r.block('a', ws, text=text, api='str')
            r.block('b', ws, text=out if res == 'ok' else 'unprintable', api=rng.choice(['str', 'block', 'line']))
        jm.add(r.events)
    check.judge(jm, explain=lambda ev, i, info: json.dumps(ev[i])[:1500])


# ------------------------------------------------------------ C29
def c29(check):
    rng = check.rng
    b = Book()
    for (alpha, n) in ([('G1X -', 4), ('1X(;) ', 5)] if check.quick else [('G1X -.', 6), ('1X(;)\t \n', 6)]):
        for k in range(n + 1):
            for cs in itertools.product(alpha, repeat=k):
                if k == n and rng.random() > .4:
                    continue
                t = ''.join(cs)
                if '(' in alpha:
                    b.split(t)
                else:
                    b.word(t)
                    b.commands(t)
                    b.view(t, 'block', rng)
    for _ in range(6000 if check.quick else 40000):
        r = rng.random()
        g = Gen(rng, axes=rng.choice(['XYZ', 'XYZABCUVW']), nonmodal=0.3, junk=0.05, conflict=.05, dup=.05)
        if r < .05:
            b.edited([render(rng, g.block(), False) for _ in range(3)], rng.choice(['line', 'block']), rng)
        elif r < .3:
            b.view(render(rng, g.block()), rng.choice(['line', 'block']), rng)
        elif r < .45:
            b.view(a_line(rng), 'line', rng)
        elif r < .55:
            t = words_text(rng, rng.choice([1, 2, 4, 7]))
            b.view(mutate(rng, t) if rng.random() < .2 else t, 'block', rng)
        elif r < .75:
            t = printable(rng)
            b.commands(mutate(rng, t) if rng.random() < .2 else t)
        elif r < .85:
            t = words_text(rng, rng.choice([1, 1, 1, 2]))
            b.word(mutate(rng, t) if rng.random() < .2 else t)
        else:
            t = a_line(rng)
            b.split(mutate(rng, t) if rng.random() < .2 else t)
    judge(check, b.close())
