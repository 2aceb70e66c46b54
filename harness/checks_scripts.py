"""The scripts: normalising (C23, C24) and cropping (C25) programs, judged by the specifications Norm and Crop."""
import contextlib
import io
import itertools
import os
import random
import re
import subprocess
import sys

import lib
from lib import Judge, Scratch, attempt, category
from gtext import code, plain, render, spell, enc_word, CANNED
from gen import Gen, value
from pygcode.words import Word

SCRIPTS = os.path.join(lib.REPO, 'scripts')
MARK = 500000      # S words that separate the lines of a program
_compiled = {}


# ------------------------------------------------------------ running a script
def run_script(name, argv, outside=False):
    """:return: ('ok'|'rej'|'crash', output text, message)"""
    path = os.path.join(SCRIPTS, name)
    if outside:
        env = dict(os.environ, PYTHONPATH=os.path.join(lib.REPO, 'src'), PYTHONHASHSEED='random')
        p = subprocess.run([sys.executable, path] + argv, env=env, timeout=60,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        err = p.stderr.decode()
        return ('ok' if p.returncode == 0 else ('rej' if p.returncode == 2 else 'crash'), p.stdout.decode(), err[-300:])
    if path not in _compiled:
        with open(path) as f:
            _compiled[path] = compile(f.read(), path, 'exec')
    out = io.StringIO()
    old = (sys.argv, sys.path[:])
    sys.argv = [path] + argv
    why = ['']

    def act():
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()) as err:
            try:
                exec(_compiled[path], {'__name__': '__main__', '__file__': path})
            except SystemExit as e:
                why[0] = err.getvalue()[-300:]
                if e.code not in (None, 0):
                    raise ValueError('exit %s: %s' % (e.code, why[0]))
    try:
        (r, x) = attempt(act)
    finally:
        (sys.argv, sys.path[:]) = old
    return (r, out.getvalue(), '' if r == 'ok' else x)


# ------------------------------------------------------------ reading what was written
WORD = re.compile(r'\s*([A-Za-z])\s*(-?(?:\d+\.?\d*|\.\d+))')


def read_line(text):
    """A strict reading of a line of output"""
    out = {'ws': [], 'comment': '', 'macro': '', 'blank': text.strip() == '', 'space': False}
    rest = text
    m = re.match(r'^([^(;%]*)(.*)$', rest)
    (block, rest) = m.groups()
    out['space'] = bool(re.search(r'\s', block.strip()))
    at = 0
    while block[at:].strip():
        w = WORD.match(block, at)
        if not w:
            out['ws'].append(['?', 0])
            break
        try:
            out['ws'].append(enc_word(Fake(w.group(1).upper(), w.group(2))))
        except Exception:
            out['ws'].append(['?', 0])
        at = w.end()
    if rest.startswith('('):
        k = rest.find(')')
        (out['comment'], rest) = (rest[1:k], rest[k + 1:]) if k > 0 else ('?', '')
    elif rest.startswith(';'):
        (out['comment'], rest) = (rest[1:], '')
    out['comment'] = out['comment'].strip() or ('?' if m.group(2)[:1] in ('(', ';') else '')
    rest = rest.strip()
    if rest.startswith('%'):
        out['macro'] = rest
    elif rest:
        out['ws'].append(['?', 0])
    return out


class Fake(object):
    def __init__(self, letter, text):
        self.letter = letter
        self.value = text if letter in 'OT' else float(text)


class Program(object):
    """Lines: (words, comment, macro, witness)"""
    def __init__(self):
        self.lines = []

    def add(self, ws, comment='', macro='', wit=None, style='('):
        self.lines.append((ws, comment, macro, wit, style))

    def text_of(self, rng, line):
        (ws, comment, macro, wit, style) = line
        # a tool keeps the text of its number: T01 is another word than T1, so listing one needn't mean the other
        text = re.sub(r'([Tt]\s*)0+(?=\d)', r'\1', render(rng, ws))
        if comment:
            text += ' ' + ('(%s)' % comment if style == '(' else '; ' + comment)
        if macro:
            text += ' ' + macro
        return text

    def events(self):
        return [{'ws': ws, 'comment': c, 'macro': m} for (ws, c, m, w, s) in self.lines]


# ------------------------------------------------------------ programs
TRIPLES = [(3, 4, 5), (4, 3, 5), (5, 0, 5), (0, 5, 5), (6, 8, 10), (8, 6, 10), (10, 0, 10), (0, 10, 10), (5, 12, 13), (12, 5, 13), (13, 0, 13)]
UVN = {17: 'XYZ', 18: 'ZXY', 19: 'YZX'}
IJK = dict(zip('XYZ', 'IJK'))


class Sim(object):
    """Makes programs of lines, arcs and cycles; it knows where the tool is."""
    def __init__(self, rng, arcs=.4, canned=.3, turns=True):
        self.rng, self.parc, self.pcan = rng, arcs, canned
        self.at = {'X': 0, 'Y': 0, 'Z': 0}
        self.inc = False
        self.incarc = True
        self.plane = 17
        self.toR = False
        self.motion = 'G0'
        self.retained = {}
        self.turns = turns

    def boot(self):
        """Words of the machine's mode"""
        rng = self.rng
        self.inc = rng.random() < .25
        self.plane = rng.choice([17, 17, 17, 18, 19])
        self.toR = rng.random() < .3
        self.incarc = rng.random() < .8
        ws = [code('G0'), code('G54'), code('G%d' % self.plane), code('G91' if self.inc else 'G90'),
              code('G91.1' if self.incarc else 'G90.1'), code('G99' if self.toR else 'G98')]
        ws += rng.sample([code('G21'), code('G94'), code('M5'), code('M9'), ['T', 0], ['F', 0], ['S', 0], code('G40')], rng.randint(0, 8))
        rng.shuffle(ws)
        return ws

    def word(self, l, v):
        return [l, v - (self.at[l] if self.inc else 0)]

    def line(self):
        """:return: (words, witness)"""
        rng = self.rng
        ws = []
        # modes
        if rng.random() < .35:
            for _ in range(rng.choice([1, 1, 2])):
                k = rng.choice(['dist', 'arc', 'plane', 'ret', 'feed', 'spin', 'tool', 'cool', 'len', 'path'])
                if k == 'dist':
                    new = [code('G91' if rng.random() < .5 else 'G90')]
                elif k == 'arc':
                    new = [code('G90.1' if rng.random() < .4 else 'G91.1')]
                elif k == 'plane':
                    new = [code('G%d' % rng.choice([17, 17, 18, 19]))]
                elif k == 'ret':
                    new = [code('G99' if rng.random() < .5 else 'G98')]
                elif k == 'feed':
                    new = [['F', value(rng, 'F')]]
                elif k == 'spin':
                    new = [code(rng.choice(['M3', 'M4', 'M5']))] + ([['S', value(rng, 'S')]] if rng.random() < .5 else [])
                elif k == 'tool':
                    new = [['T', rng.randint(1, 9)]] + ([code('M6')] if rng.random() < .5 else [])
                elif k == 'cool':
                    new = [code(rng.choice(['M7', 'M8', 'M9']))]
                elif k == 'len':
                    new = [code('G43'), ['H', 1000 * rng.randint(1, 5)]] if rng.random() < .6 else [code('G49')]
                else:
                    new = [code('G64'), ['P', 100]] if rng.random() < .6 else [code('G61')]
                # (one of a group)
                if k not in [z[0] for z in ws]:
                    ws.append((k, new))
            for (k, new) in ws:
                c = plain(new[0])
                if k == 'dist':
                    self.inc = c == 'G91'
                elif k == 'arc':
                    self.incarc = c == 'G91.1'
                elif k == 'plane':
                    self.plane = int(c[1:])
                elif k == 'ret':
                    self.toR = c == 'G99'
        parts = [new for (k, new) in ws]
        wit = None
        r = rng.random()
        if r < self.parc:
            (new, wit) = self.arc()
            parts.append(new)
        elif r < self.parc + self.pcan:
            parts.append(self.cycle())
        elif r < .93 or not parts:
            q = rng.random()
            if q < .06:
                parts.append([code('G80')])
                self.motion = None
            elif q < .12:
                parts.append([code('G4'), ['P', 500]])
            else:
                parts.append(self.straight())
        if rng.random() < .06:
            parts.append([code(rng.choice(['M1', 'M0', 'M6', 'M60']))])
        rng.shuffle(parts)
        if rng.random() < .1:
            parts.insert(0, [['N', rng.randint(1, 99)]])
        # (words of modal lines are last, or they could be taken by others)
        return ([w for p in parts for w in p], wit)

    def straight(self):
        rng = self.rng
        to = dict((a, 500 * rng.randint(-20, 20)) for a in 'XYZ' if rng.random() < .5)
        if not to:
            to[rng.choice('XYZ')] = 500 * rng.randint(-20, 20)
        ws = [self.word(l, v) for (l, v) in to.items()]
        c = rng.choice(['G0', 'G1'])
        if self.motion == c and rng.random() < .6:
            pass
        else:
            ws = [code(c)] + ws
        self.motion = c
        self.retained = {}
        self.at.update(to)
        return ws

    def arc(self):
        rng = self.rng
        (u, v, n) = UVN[self.plane]
        k = rng.choice([500, 1000, 1000, 250]) * 2
        (a, b, h) = rng.choice(TRIPLES)
        if h * k > 13000:
            k = 1000
        same = [t for t in TRIPLES if t[2] == h]
        s = (a * k * rng.choice([1, -1]), b * k * rng.choice([1, -1]))
        c = (self.at[u] - s[0], self.at[v] - s[1])
        (d, e, _) = rng.choice(same)
        f = (d * k * rng.choice([1, -1]), e * k * rng.choice([1, -1]))
        full = rng.random() < .1
        ccw = rng.random() < .5
        form = 'C' if full or rng.random() < .65 else 'R'
        if full:
            f = s
        if form == 'R' and f == s:
            f = (-s[0], -s[1])
        if form == 'C' and f == s:
            full = True
        to = {u: c[0] + f[0], v: c[1] + f[1]}
        if rng.random() < .3:
            to[n] = self.at[n] + 500 * rng.randint(-8, 8)
        ws = [self.word(l, to[l]) for l in to if not (to[l] == self.at[l] and rng.random() < .5)]
        if not ws:
            ws = [self.word(u, to[u])]
        if form == 'R':
            less = (s[0] * f[1] - s[1] * f[0]) > 0
            ws.append(['R', (1 if less == ccw else -1) * h * k])
        else:
            cw = []
            for (l, cc) in ((u, c[0]), (v, c[1])):
                val = cc - self.at[l] if self.incarc else cc
                if val != 0 or rng.random() < .5:
                    cw.append([IJK[l], val])
            ws += cw or [[IJK[u], c[0] - self.at[u] if self.incarc else c[0]]]
        if self.turns and rng.random() < .1 and form == 'C':
            ws.append(['P', rng.choice([1000, 2000])])
        g = 'G3' if ccw else 'G2'
        rng.shuffle(ws)
        if not (self.motion == g and rng.random() < .5):
            ws = [code(g)] + ws
        self.motion = g
        self.retained = {}
        self.at.update(to)
        return (ws, {'c': list(c), 'r': h * k})

    def cycle(self):
        rng = self.rng
        # (in other planes, the expansion may be refused, which ends the run)
        if self.plane != 17 and rng.random() < .9:
            self.plane = 17
            return [code('G17')]
        cyc = rng.choice(['G81', 'G82', 'G83', 'G73', 'G85', 'G89'])
        (u, v, n) = UVN[self.plane]
        z0 = self.at[n]
        step = rng.choice([1000, 500, 250])
        hole = step * rng.randint(1, 6)
        if self.motion in CANNED and rng.random() < .5:
            cyc = self.motion
            again = True
        else:
            again = False
        given = {}
        r = z0 + step * rng.randint(-3, 3)
        z = r - hole
        if z > z0:
            (r, z) = (z0, z0 - hole)
        if self.inc:
            given['R'] = r - z0
            given[n] = z - r
        else:
            (given['R'], given[n]) = (r, z)
        to = {}
        for l in (u, v):
            if rng.random() < .7:
                given[l] = step * rng.randint(-8, 8)
        if not (u in given or v in given):
            given[u] = step
        if cyc in ('G83', 'G73'):
            given['Q'] = max(1, hole // rng.choice([1, 2, 3, 4]))
        elif rng.random() < .5:
            given['P'] = rng.choice([500, 1000])
        if rng.random() < .3:
            given['L'] = rng.choice([1, 2, 3])
        full = dict(given)
        if again:
            # some levels are taken from the active cycle
            kept = [l for l in self.retained if l in given and l in 'RQP' + n and rng.random() < .6]
            for l in kept:
                full[l] = self.retained[l]
                del given[l]
            for l in self.retained:
                if l in 'RQP' + n:
                    full.setdefault(l, self.retained[l])
        self.motion = cyc
        self.retained = dict((l, v) for (l, v) in full.items() if l in 'RQP' + n)
        # where it ends
        if self.toR and 'R' in full:
            self.at[n] = z0 + full['R'] if self.inc else full['R']
        times = max(1, full.get('L', 1))
        for l in (u, v):
            if l in full:
                self.at[l] = self.at[l] + times * full[l] if self.inc else full[l]
        ws = [[l, v] for (l, v) in given.items()]
        rng.shuffle(ws)
        return ws if again else [code(cyc)] + ws


COMMENTS = ['', '', '', 'hello', 'drill 1', 'G1 X5', 'a; b', 'T1: 3mm', 'x', 'end;', '-']
MACROS = ['', '', '', '', '', '', '%macro', '% 12']


def decorate(rng, p, ws, wit):
    c = rng.choice(COMMENTS)
    m = rng.choice(MACROS)
    p.add(ws, c, m, wit, '(' if m or rng.random() < .6 else ';')


def sim_program(rng, n, arcs, canned):
    sim = Sim(rng, arcs, canned)
    boot = sim.boot() if rng.random() < .6 else None
    p = Program()
    while len(p.lines) < n:
        if rng.random() < .08:
            decorate(rng, p, [], None)
            continue
        (ws, wit) = sim.line()
        decorate(rng, p, ws, wit)
    return (p, boot)


def gen_program(rng, n, junk):
    g = Gen(rng, canned=rng.choice([0, .2, .5]), modes=(0, 0, 1, 2), junk=junk, conflict=.01, dup=.01, nonmodal=.1)
    p = Program()
    for k in range(n):
        ws = [] if rng.random() < .08 else g.block()
        decorate(rng, p, ws, None)
    boot = None
    if rng.random() < .4:
        boot = [code(rng.choice(['G0', 'G1'])), code('G54'), code(rng.choice(['G17', 'G18', 'G19'])),
                code(rng.choice(['G90', 'G91'])), ['F', 1500], code('M5')]
        if rng.random() < .2:
            boot = boot[1:]
    return (p, boot)


DEFAULT_BOOT = [code('G0'), code('G54'), code('G17'), code('G21'), code('G90'), code('G94'), code('M5'), code('M9'),
                ['T', 0], ['F', 0], ['S', 0]]
ALL_CYCLES = ['G73', 'G76', 'G81', 'G82', 'G83', 'G85', 'G89']
METHOD = {'i': 'inside', 'o': 'outside', 'm': 'mid'}
REMOVABLE = ['M6', 'M8', 'M3', 'G43', 'G64', 'G4', 'M1', 'G61', 'G49', 'T1', 'N5', 'M60']
STEERING = ['G1', 'G0', 'G91', 'G90', 'G17', 'G18', 'G81', 'G2', 'G80', 'G99', 'G55']


def options(rng, sims, content):
    """Random options: command line, description"""
    (argv, o) = ([], {'arcs': False, 'g2': 'mid', 'g3': 'mid', 'e': 5, 'canned': False,
                      'codes': [code(c) for c in ALL_CYCLES], 'rm': [], 'rc': False, 'rb': False, 'rws': False,
                      'singles': False, 'full': False, 'zxy': False, 'zz': False, 'so': False, 'rsh': False, 'h': 0,
                      'ign': False})

    def flag(name, prob, *names):
        if rng.random() < prob:
            o[name] = True
            argv.append(rng.choice(names))
    flag('singles', .3, '-s', '--singles')
    flag('full', .3, '-f', '--full')
    if sims and rng.random() < .7:
        o['arcs'] = True
        argv.append(rng.choice(['-al', '--arc_linearize']))
        if rng.random() < .6:
            (a, b) = (rng.choice('iom'), rng.choice(['i', 'o', 'm', None]))
            argv += [rng.choice(['-alm', '--arc_lin_method']), a + (',' + b if b else '')]
            (o['g2'], o['g3']) = (METHOD[a], METHOD[b or a])
        e = rng.choice([1, 5, 20, 50, 100, 250, 500, 1000])
        argv += [rng.choice(['-alp', '--arc_precision']), '%g' % (e / 1000.)]
        o['e'] = e
    if sims and rng.random() < .7:
        o['canned'] = True
        argv.append(rng.choice(['-ce', '--canned_expand']))
        if rng.random() < .4:
            codes = rng.sample(ALL_CYCLES, rng.randint(1, 4))
            argv += [rng.choice(['-cc', '--canned_codes']), rng.choice([',', ' , ', ', ']).join(codes)]
            o['codes'] = [code(c) for c in codes]
    if content:
        flag('rc', .3, '-rc', '--rm_comments')
        flag('rb', .3, '-rb', '--rm_blanks')
        flag('rws', .3, '-rws', '--rm_whitespace')
        flag('zxy', .35, '-zxy', '--zero_xy')
        flag('zz', .3, '-zz', '--zero_z')
        flag('so', .3, '-so', '--spindle_off')
        if rng.random() < .3:
            (o['rsh'], o['h']) = (True, rng.choice([0, 5000, 12500, 100000, -2000]))
            argv += [rng.choice(['-rsh=%g', '--rapid_safety_height=%g']) % (o['h'] / 1000.)]
        if rng.random() < .4:
            names = rng.sample(REMOVABLE, rng.randint(1, 3))
            if not o['arcs'] and not o['canned'] and not (o['zxy'] or o['zz']) and rng.random() < .5:
                names.append(rng.choice(STEERING))
            if o['canned'] and 'G4' in names:
                names.remove('G4')
            if names:
                argv += [rng.choice(['-rmg', '--rm_gcodes']), ','.join(names)]
                o['rm'] = [code(n) if n[0] in 'GM' else [n[0], int(n[1:])] for n in names]
    flag('ign', .15, '-rmim', '--rm_invalid_modal')
    return (argv, o)


def boot_args(rng, boot):
    if boot is None:
        return []
    return ['--machine_mode=' + ' '.join(plain(w) for w in boot)] if rng.random() < .5 else ['-mm', ' '.join(plain(w) for w in boot)]


NOWIT = {'c': [0, 0], 'r': 0}


def norm_trace(rng, tmp, p, boot, argv, o, outside=False):
    path = os.path.join(tmp, 'in.ngc')
    texts = [p.text_of(rng, l) for l in p.lines]
    with open(path, 'w') as f:
        for (k, t) in enumerate(texts):
            f.write(t + '\n')
            f.write('S%d\n' % (MARK + k))
    args = boot_args(rng, boot) + list(argv)
    args = args + [path] if rng.random() < .5 else [path] + args
    (r, out, why) = run_script('pygcode-norm', args, outside)
    # lines written for each line
    segments = [[]]
    for text in out.split('\n')[:-1]:
        if re.match(r'^S0*%d(\.0*)?$' % (MARK + len(segments) - 1), text.strip()):
            segments.append([])
        else:
            segments[-1].append(read_line(text))
    events = [dict(o, op='begin', boot=[boot or DEFAULT_BOOT])]
    events[0]['h'] = o['h']
    for (k, l) in enumerate(p.lines):
        got = k < len(segments) - 1
        events.append({'op': 'line', 'ws': l[0], 'comment': l[1], 'macro': l[2], 'wit': l[3] or NOWIT, 'got': got,
                       'outs': segments[k] if got else [], 'text': texts[k]})
        if not got:
            break
    events.append({'op': 'end', 'res': r, 'outs': segments[-1] if r == 'ok' else []})
    return (events, {'argv': args, 'program': texts, 'output': out.split('\n'), 'why': why})


def whole_trace(rng, tmp, p, boot, argv, o, outside=False):
    """Without markers between the lines"""
    path = os.path.join(tmp, 'in.ngc')
    texts = [p.text_of(rng, l) for l in p.lines]
    with open(path, 'w') as f:
        f.write('\n'.join(texts) + rng.choice(['', '\n', '\n\n']))
    args = boot_args(rng, boot) + list(argv) + [path]
    (r, out, why) = run_script('pygcode-norm', args, outside)
    events = [dict(o, op='begin', boot=[boot or DEFAULT_BOOT]),
              {'op': 'whole', 'ins': [l[0] for l in p.lines], 'res': r,
               'outs': [read_line(t) for t in out.split('\n')[:-1]]}]
    return (events, {'argv': args, 'program': texts, 'output': out.split('\n'), 'why': why})


def explain(events, i, info):
    e = events[min(i, len(events) - 1)]
    return '\n'.join(['arguments: %s' % info['argv'], 'program: %s' % info['program'], 'output: %s' % info['output'],
                      info['why'], 'at: %s' % e.get('text', e.get('op'))])


# Lines that change what others mean: every program of two (thorough) or a sample (quick) is normalised and cropped
SMALL = ['G0 X1 Y2', 'G1 Z-1.5 F100', 'X3 Z0.5', 'Y-1', 'G91', 'G90', 'G18', 'G17', 'G90 G91.1', 'G80', 'G98', 'G99', 'G0 G91 Z-.5', 'G80 G0 Z2',
         'G81 X1 Y1 Z-2 R.5', 'G82 Y2 Z-1 R1 P.5 L2', 'G55', 'M3 S2000', 'M5', 'F250 S100', 'T2 M6', 'G4 P.5', '', 'G43 H2', 'N7 G1 X4', 'G61', 'G10 L2 P2 X5',
         'M8 G1 Y1.5', 'G91 G81 X1 Z-1 R.25 L2 G99', 'G19 G1 X-1', 'G94 G0 X0']


def small_program(rng, names):
    p = Program()
    for t in names:
        ws = [enc_word(Word(x)) for x in t.split()]
        decorate(rng, p, ws, None) if rng.random() < .2 else p.add(ws)
    return p


def small_programs(rng, n, size):
    """All of a size (shuffled), or n of them"""
    alls = itertools.product(SMALL, repeat=size)
    alls = rng.sample(list(alls), n) if n else alls
    for names in alls:
        yield small_program(rng, names)


OPTIONS = [{}, {'singles': 1}, {'full': 1}, {'canned': 1}, {'canned': 1, 'singles': 1, 'full': 1}, {'zxy': 1}, {'zz': 1, 'canned': 1}, {'so': 1},
           {'zxy': 1, 'zz': 1, 'so': 1, 'rc': 1, 'rb': 1, 'rws': 1}]
FLAGS = {'singles': '-s', 'full': '-f', 'canned': '-ce', 'zxy': '-zxy', 'zz': '-zz', 'so': '-so', 'rc': '-rc', 'rb': '-rb', 'rws': '-rws'}


def small_options(chosen):
    (argv, o) = options(random.Random(0), False, False)
    for k in FLAGS:
        o[k] = bool(chosen.get(k))
    (o['ign'], o['arcs']) = (False, False)
    return ([FLAGS[k] for k in chosen], o)


KEPT = ('C23: comment kept', 'C23: macro kept', 'C23: same commands')


def norms(check, n, content, wholes=0, outside=0):
    rng = check.rng
    j = Judge('TR_Norm')
    with Scratch() as tmp:
        for k in range(n):
            sims = rng.random() < .65
            size = rng.choice([3, 6, 10])
            (argv, o) = options(rng, sims, content or rng.random() < .4)
            if sims:
                (p, boot) = sim_program(rng, size, rng.choice([0, .3, .6]), rng.choice([0, .3, .6]))
            else:
                (p, boot) = gen_program(rng, size, .15 if o['ign'] else .01)
            (ev, info) = norm_trace(rng, tmp, p, boot, argv, o, k < outside)
            j.add(ev, info)
        for k in range(wholes):
            (argv, o) = options(rng, False, False)
            (p, boot) = gen_program(rng, rng.choice([3, 6, 10]), .01)
            (ev, info) = whole_trace(rng, tmp, p, boot, argv, o)
            j.add(ev, info)
        # every small program
        for size in (1, 2, 3):
            n = [0, 150, 150][size - 1] if check.quick else [0, 0, 4000][size - 1]
            for p in small_programs(rng, n, size):
                for chosen in ([rng.choice(OPTIONS)] if n or size > 1 else OPTIONS):
                    (argv, o) = small_options(chosen)
                    (ev, info) = norm_trace(rng, tmp, p, rng.choice([None, None, DEFAULT_BOOT]), argv, o)
                    j.add(ev, info)
    mine = check.prop + ':'
    res = j.run(per_jvm=600)
    check.states += res['states']
    check.transitions += res['transitions']
    check.traces += res['traces']
    check.events += sum(len(t) for t in j.traces)
    check.extra['opens'] = res['opens']
    check.extra['runs_completed'] = sum(1 for t in j.traces if t[-1].get('res') == 'ok')
    check.extra['expanded_lines'] = sum(1 for i in j.info for x in i['output'] if re.search(r'\((linearized|expanded)', x))
    for (t, i, clauses) in res['failures']:
        names = [c.strip(' {}') for c in clauses.split(',')]
        # what the formatting options are not to remove
        o = j.traces[t][0]
        also = KEPT if content and any(o[k] for k in ('rc', 'rb', 'rws', 'rm', 'singles', 'full')) else ()
        if not any(c.startswith(mine) or c in also for c in names) and 'no meaning' not in clauses:
            continue
        check.violation('run %d, line %d: %s\n%s' % (t, i, clauses, explain(j.traces[t], i, j.info[t])),
                        {'info': j.info[t], 'event': j.traces[t][i] if i < len(j.traces[t]) else None, 'clauses': clauses})
    check.sample(j.info[0])


def c23(check):
    norms(check, 825 if check.quick else 9000, False, wholes=200 if check.quick else 2000, outside=3 if check.quick else 40)


def c24(check):
    norms(check, 900 if check.quick else 9000, True, outside=3 if check.quick else 40)


# ------------------------------------------------------------ cropping
CMPS = ['=', '==', '!=', '<', '<=', '>', '>=']


def cond_text(rng, c):
    (p, cmp, v) = c
    num = ('%.3f' % (v / 1000.)).rstrip('0').rstrip('.') if rng.random() < .8 else '%.3f' % (v / 1000.)
    if p == 'N' and cmp == '=' and rng.random() < .5:
        t = num
    elif p == 'N' and rng.random() < .3:
        t = cmp + num
    else:
        t = (p if rng.random() < .5 else p.lower()) + rng.choice(['', '', ' ']) + cmp + rng.choice(['', '', ' ']) + num
    return rng.choice(['', '', ' ']) + t + rng.choice(['', '', ' '])


def conditions(rng, n, axes, first, p):
    if rng.random() < (.15 if first else .35):
        return []
    out = []
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        if rng.random() < .6:
            k = rng.randint(1, n + 1) if rng.random() < .93 else -rng.randint(0, n)
            cmp = rng.choice(['=', '=', '=', '>=', '>=', '>', '!=', '<', '<=', '=='])
            out.append(['N', cmp, 1000 * k])
        else:
            a = rng.choice(axes)
            # about where the program goes
            v = rng.choice([0, 125 * rng.randint(-24, 24), 1000 * rng.randint(-5, 5)])
            there = [w[1] for l in p.lines for w in l[0] if w[0] == a]
            if there and rng.random() < .7:
                v = rng.choice(there)
            out.append([a, rng.choice(CMPS), v + rng.choice([0, 0, 0, 1, -1, 4, -4, 30])])
    return out


def crop_program(rng, n, axes, canned):
    g = Gen(rng, axes=axes, canned=canned, modes=(0, 0, 1, 2), junk=0, conflict=.005, dup=.005, nonmodal=.08, big=6,
            planes=rng.choice([('G17',), ('G17', 'G18', 'G19')]),
            groups=rng.choice([None, ['distance', 'plane_selection', 'spindle', 'feed_rate'], ['distance', 'canned_cycles_return']]))
    p = Program()
    for k in range(n):
        ws = [] if rng.random() < .08 else [back(rng, snap(w)) for w in g.block()]
        decorate(rng, p, ws, None)
    return p


def back(rng, w):
    """Rotary axes often return to zero"""
    return [w[0], 0] if w[0] in 'ABC' and rng.random() < .4 else w


def snap(w):
    """Lengths a float represents exactly"""
    return [w[0], 125 * (w[1] // 125)] if w[0] in 'XYZABCR' else w


def crop_trace(rng, tmp, p, first, last, outside=False, start=None):
    path = os.path.join(tmp, 'in.ngc')
    texts = [p.text_of(rng, l) for l in p.lines]
    with open(path, 'w') as f:
        f.write('\n'.join(texts) + '\n')
    rg = ','.join(cond_text(rng, c) for c in first) + ':' + ','.join(cond_text(rng, c) for c in last)
    argv = [path, '--', rg] if rg.startswith('-') else [path, rg]
    (r, out, why) = run_script('pygcode-crop', argv, outside)
    at = start or dict((a, 500 * rng.randint(-40, 40)) for a in rng.choice(['XYZ', 'XYZABC']))
    events = [{'op': 'begin', 'first': first, 'last': last, 'at': at, 'lines': p.events(), 'res': r}]
    events += [{'op': 'line'} for _ in p.lines]
    events.append({'op': 'end', 'outs': [read_line(t) for t in out.split('\n')[:-1]]})
    return (events, {'argv': argv, 'program': texts, 'output': out.split('\n'), 'why': why})


BAD_RANGES = ['5', '1:2:3', 'n=1.5:', ':n>2.5', 'q>3:', 'x~3:', '1,:', 'x>:', ':>', 'x=>3:', 'x>1 y>1:', ':x==', '1-2', 'n<1e3:', 'xx>1:']


def c25(check):
    rng = check.rng
    j = Judge('TR_Crop')
    with Scratch() as tmp:
        for k in range(1050 if check.quick else 12000):
            axes = rng.choice(['XYZ', 'XYZ', 'XYZ', 'XYZA', 'XYZABC'])
            n = rng.choice([3, 5, 8, 12])
            p = crop_program(rng, n, axes, rng.choice([0, .2, .6]))
            (ev, info) = crop_trace(rng, tmp, p, conditions(rng, n, axes, True, p), conditions(rng, n, axes, False, p),
                                    k < (3 if check.quick else 40))
            j.add(ev, info)
        # every small program, cropped at each of its lines
        for size in (1, 2, 3):
            n = [0, 200, 300][size - 1] if check.quick else [0, 0, 8000][size - 1]
            for p in small_programs(rng, n, size):
                k = rng.randint(1, size + 1)
                for k in ([k] if n else range(1, size + 2)):
                    (ev, info) = crop_trace(rng, tmp, p, [['N', '=', 1000 * k]], rng.choice([[], [], [['N', '=', 1000 * size]]]))
                    j.add(ev, info)
        # ranges alone
        with open(os.path.join(tmp, 'in.ngc'), 'w') as f:
            f.write('G0 X1\n')
        for k in range(150 if check.quick else 800):
            cs = [[[rng.choice('NNXYZABC'), rng.choice(CMPS), rng.choice([1000 * rng.randint(-9, 99), rng.randint(-9999, 9999)])]
                   for _ in range(rng.choice([0, 1, 2]))] for _ in 'ab']
            rg = ':'.join(','.join(cond_text(rng, c) for c in side) for side in cs)
            argv = [os.path.join(tmp, 'in.ngc'), '--', rg]
            (r, out, why) = run_script('pygcode-crop', argv)
            j.add([{'op': 'range', 'first': cs[0], 'last': cs[1], 'res': r}],
                  {'argv': argv, 'program': [], 'output': out.split('\n'), 'why': why})
        for rg in BAD_RANGES:
            (r, out, why) = run_script('pygcode-crop', [os.path.join(tmp, 'in.ngc'), '--', rg])
            if r != 'rej':
                check.violation('the range %r is accepted: %s %s' % (rg, r, why), {'range': rg, 'output': out})
    check.judge(j, explain=explain)
    check.sample(j.info[0])
