"""Commands defined by users (C31).

Definitions last as long as the interpreter, so each history is made by an interpreter of its own
(this file, run as a script)."""
import json
import os
import random
import subprocess
import sys
from multiprocessing.pool import ThreadPool

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from lib import Judge, attempt, plain_json
from gtext import ALL_CODES, code, enc_word, scale
from gen import value
from mach import Recorder, make_word, enc_gcode, enc_gcodes, group_name, observe
import mach

from pygcode import gcodes as G
from pygcode.words import Word, text2words

SUBST = 'CONSTANT IsCode <- UIsCode\nCONSTANT RowOf <- URowOf\n'
FAMILIES = {'root': G.GCode, 'nonmod': G.GCodeNonModal, 'userdef': G.GCodeUserDefined, 'motion': G.GCodeMotion}
# library commands to inherit from
PARENTS = {'G1': G.GCodeLinearMove, 'G0': G.GCodeRapidMove, 'G81': G.GCodeDrillingCycle, 'G83': G.GCodeDrillingCyclePeck,
           'G4': G.GCodeDwell, 'M7': G.GCodeCoolantMistOn, 'M3': G.GCodeStartSpindleCW, 'G64': G.GCodePathBlendingMode,
           'G43': G.GCodeToolLengthOffset, 'M48': G.GCodeSpeedAndFeedOverrideOn if hasattr(G, 'GCodeSpeedAndFeedOverrideOn') else None}
PARENTS = dict((k, v) for (k, v) in PARENTS.items() if v is not None)
FREE = ['G6', 'G9', 'G44', 'G62', 'G81.1', 'G100', 'G1.5', 'G38.6', 'M10', 'M16', 'M100', 'M101', 'M102', 'M110', 'M150',
        'M199', 'M200', 'M7.1', 'M1001', 'G0.1']
RANGES = [('M', 1010, 1490), ('M', 1500, 1990), ('G', 60, 66), ('G', 1000, 1100), ('M', 100, 160), ('M', 20, 80)]
# (which of two commands is meant, if one is recognised by a function, is open)
UNIQUE = [c for c in ALL_CODES if c[:3] not in ('G38', 'G28', 'G30') and c not in ('G92.1', 'G92.2')]
SAFE_GROUPS = ['user_defined', 'coolant', 'spindle', 'stopping', 'override_switches', 'control_mode']
LETTERS = 'ABCDEHIJKLPQRUVWXYZ'


class Session(object):
    def __init__(self, rng):
        self.rng = rng
        self.r = Recorder(rng)
        self.cls = {}        # name -> class
        self.keys = []       # words named
        self.free = []       # ranges not used
        self.taken = []
        self.count = 0

    def emit(self, ev):
        self.r.events.append(ev)

    def define(self, ambiguous=False):
        rng = self.rng
        self.count += 1
        name = rng.choice(['Aa', 'Zz', 'GCode', 'My', 'Ko']) + str(self.count)
        ev = {'op': 'def', 'name': name}
        x = rng.random()
        named = [n for n in self.cls if self.cls[n].word_matches is None]
        if x < .25 and named:
            ev['of'] = rng.choice(sorted(named))
            base = self.cls[ev['of']]
        elif x < .5:
            k = rng.choice(sorted(PARENTS))
            ev['lib'] = code(k)
            base = PARENTS[k]
        else:
            ev['family'] = rng.choice(['userdef', 'userdef', 'motion', 'root', 'nonmod'])
            base = FAMILIES[ev['family']]
        d = {'__doc__': 'A command of the user'}
        motion = issubclass(base, G.GCodeMotion) or issubclass(base, G.GCodeCannedCycle)
        if not ambiguous or rng.random() < .7:
            free = [f for f in FREE if code(f) not in self.keys]
            if self.free and rng.random() < .3 and base.word_key is None:
                rg = self.free.pop(rng.randrange(len(self.free)))
                self.taken.append(rg)
                ev['rng'] = list(rg)
                (l, lo, hi) = rg
                d['word_matches'] = classmethod(lambda cls, w: w.letter == l and lo <= round(w.value * 10) <= hi)
                if rng.random() < .6:
                    ev['def'] = [l, rng.randint(lo, hi)]
                    d['default_word'] = make_word(ev['def'])
            else:
                key = code(rng.choice(free))
                if ambiguous:
                    key = rng.choice(self.keys + [code(rng.choice(UNIQUE))])
                ev['key'] = key
                self.keys.append(key)
                d['word_key'] = make_word(key)
        if rng.random() < .4:
            ps = [l for l in LETTERS if rng.random() < rng.choice([.1, .3])]
            if motion:
                ps = sorted(set(ps) | set('XYZ')) + (['R', 'L'] if issubclass(base, G.GCodeCannedCycle) else [])
                ps = sorted(set(ps))
            ev['ps'] = ps
            d['param_letters'] = set(ps)
        if not motion:
            if rng.random() < .4:
                have = ev['ps'] if 'ps' in ev else sorted(base.param_letters)
                ev['re'] = [l for l in have if rng.random() < .6]
                d['modal_param_letters'] = set(ev['re'])
            if rng.random() < .35:
                ev['g'] = rng.choice(SAFE_GROUPS + [''])
                d['modal_group'] = G.MODAL_GROUP_MAP[ev['g']] if ev['g'] else None
        if rng.random() < .4 and not motion:
            ev['st'] = rng.choice([0, 5, 45, 100, 130, 205, 235, 241, 242, 243, 251, rng.randint(0, 300)])
            d['exec_order'] = ev['st']
        self.cls[name] = type(name, (base,), d)
        self.emit(ev)

    def build(self, lazy=False):
        def act():
            try:
                if lazy:
                    self.rng.choice([
                        lambda: G.text2gcodes('G1 X1'), lambda: G.word_gcode_class(Word('M', 3)),
                        lambda: mach.Line('G0'), lambda: mach.Machine(), lambda: G.words2gcodes([Word('F', 1)])])()
                else:
                    G.build_maps()
            except RuntimeError:
                return 'dup'
            return 'ok'
        (r, x) = attempt(act)
        self.emit({'op': 'build', 'lazy': lazy, 'res': x if r == 'ok' else r})
        # (a word may have another meaning now; machines with it active aren't followed)
        self.r.m.clear()
        return x == 'ok'

    def name_of(self, cls):
        if cls is None:
            return ''
        for (n, c) in self.cls.items():
            if cls is c:
                return n
        return 'lib' if cls.__module__ == 'pygcode.gcodes' else '?'

    def a_word(self):
        """A word that may name a command"""
        rng = self.rng
        x = rng.random()
        if self.keys and x < .5 or not self.taken and x > .55 and x < .73:
            if not self.keys:
                return code(rng.choice(['G0', 'G1', 'M3', 'G80']))
            return list(rng.choice(self.keys))
        if x < .75:
            (l, lo, hi) = rng.choice(self.taken if self.taken and rng.random() < .85 else RANGES)
            return [l, rng.randint(lo, hi) if rng.random() < .5 else 10 * rng.randint(lo // 10, hi // 10)]
        if x < .8:
            l = rng.choice('FST')
            return [l, value(rng, l)]
        return code(rng.choice(ALL_CODES + ['G0', 'G1', 'G90', 'M3', 'M8'] * 5))

    def words(self):
        rng = self.rng
        ws = []
        for _ in range(rng.choice([0, 1, 1, 1, 2, 2, 3])):
            w = self.a_word()
            ws.append(w)
            (r, c) = attempt(G.word_gcode_class, make_word(w))
            if r == 'ok' and c is not None:
                for l in sorted(c.param_letters):
                    if rng.random() < .4 and not (l in 'FSTNO'):
                        ws.append([l, value(rng, l)])
        if rng.random() < .3:
            l = rng.choice('XYZ' if rng.random() < .7 else LETTERS)
            ws.append([l, value(rng, l)])
        if rng.random() < .2:
            rng.shuffle(ws)
        return ws

    def classes(self):
        ws = self.words()
        (r, x) = attempt(lambda: [self.name_of(type(g)) for g in G.words2gcodes([make_word(w) for w in ws])[0]])
        self.emit({'op': 'who', 'ws': ws, 'res': r, 'got': x if r == 'ok' else []})

    def look_up(self):
        rng = self.rng
        w = self.a_word() if rng.random() < .9 else [rng.choice('XPQDR'), 1000]
        (r, x) = attempt(lambda: self.name_of(
            rng.choice([lambda: G.word_gcode_class(make_word(w)), lambda: G.word_gcode_class(make_word(w), exhaustive=True)])()))
        self.emit({'op': 'class', 'w': w, 'res': r, 'got': x if r == 'ok' else '?'})

    def make(self):
        rng = self.rng
        name = rng.choice(sorted(self.cls))
        c = self.cls[name]
        ps = [[l, value(rng, l)] for l in sorted(c.param_letters) if rng.random() < .4]
        if rng.random() < .15:
            l = rng.choice(LETTERS)
            if l not in [p[0] for p in ps]:
                ps.append([l, value(rng, l)])

        def act():
            g = c(**dict((l, make_word([l, v]).value) for (l, v) in ps))
            out = (enc_gcode(g), group_name(g.modal_group))
            g.word.value = 9          # (only this instance's)
            return out
        (r, x) = attempt(act)
        self.emit({'op': 'make', 'name': name, 'ps': ps, 'res': r, 'cmd': x[0] if r == 'ok' else [], 'g': x[1] if r == 'ok' else ''})

    def machine_step(self):
        rng = self.rng
        r = self.r
        x = rng.random()
        if 'a' not in r.m or x < .05:
            r.new('a', 'XYZ', rng.random() < .4, None if rng.random() < .5 else [])
        elif x < .75:
            r.block('a', self.words())
        elif x < .85:
            r.clean('a', self.words())
        elif x < .92:
            r.copy('a', 'b', rng.random() < .5)
        else:
            r.mode_text('a', 'c', rng.choice(['process', 'default', 'set'])) if 'c' in r.m else r.new('c', 'XYZ', True, [])

    def use(self, n):
        rng = self.rng
        for _ in range(n):
            x = rng.random()
            if x < .2:
                self.look_up()
            elif x < .35:
                self.classes()
            elif x < .45 and self.cls:
                self.make()
            else:
                self.machine_step()

    def run(self, big):
        rng = self.rng
        self.free = rng.sample(RANGES[:4], 4)
        for _ in range(rng.choice([0, 1, 2, 3])):
            self.define()
        if rng.random() < .1:
            self.define(True)
        ok = self.build(rng.random() < .6)
        for _ in range(rng.choice([1, 2, 3])):
            if not ok:
                break
            self.use(rng.randint(8, 16) * (3 if big else 1))
            for _ in range(rng.choice([0, 1, 2])):
                self.define()
            self.use(6)
            if rng.random() < .12:
                self.define(True)
            ok = self.build()
        if ok:
            self.use(12)
        elif rng.random() < .5:
            self.build()       # still ambiguous
        return self.r.events


def follow(acts, words):
    """A behaviour of MC_User, with classes of its own
    :return: for every word, the class taken (or 'dup', if the tables cannot be built)"""
    cls = {}
    for a in acts:
        if a == 'build':
            try:
                G.build_maps()
            except RuntimeError:
                return 'dup'
        else:
            d = {'word_key': make_word(a['key']) if a['key'] else None}
            if a['rng']:
                (l, lo, hi) = a['rng']
                d['word_matches'] = classmethod(lambda c, w, l=l, lo=lo, hi=hi: w.letter == l and lo <= round(w.value * 10) <= hi)
            cls[a['name']] = type(a['name'], (FAMILIES['userdef'],), d)
    names = dict((c, n) for (n, c) in cls.items())
    out = []
    for w in words:
        c = G.word_gcode_class(make_word(w))
        out.append('' if c is None else names.get(c, 'lib'))
    return out


def main():
    job = json.loads(sys.stdin.read())
    if 'follow' in job:
        out = []
        for acts in job['follow']:      # (classes last: a process for each)
            (rd, wr) = os.pipe()
            if os.fork() == 0:
                (r, x) = attempt(follow, acts, job['words'])
                os.write(wr, json.dumps([r, x]).encode())
                os._exit(0)
            os.close(wr)
            data = b''
            while True:
                part = os.read(rd, 65536)
                if not part:
                    break
                data += part
            os.close(rd)
            os.wait()
            out.append(json.loads(data.decode()))
        print(json.dumps(out))
        return
    s = Session(random.Random(job['seed']))
    print(json.dumps(s.run(job['big'])))


def interpreter(job):
    p = subprocess.run([sys.executable, os.path.abspath(__file__)], input=json.dumps(job).encode(),
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300)
    if p.returncode != 0:
        raise RuntimeError(p.stderr.decode()[-3000:])
    return json.loads(p.stdout.decode())


def explain(events, i, info):
    out = [json.dumps(e)[:400] for e in events[:i] if e['op'] in ('def', 'build')]
    out.append(json.dumps(dict((k, v) for (k, v) in events[i].items() if k != 'obs'))[:900])
    out.append(json.dumps(events[i].get('obs', {}))[:1500])
    return '\n'.join(out)


def tuples(text):
    return json.loads(text.replace('<<', '[').replace('>>', ']').replace('\\"', '"'))


def c31(check):
    j = Judge('TR_User', 'UTraceSpec')
    pool = ThreadPool(8)
    n = 220 if check.quick else 900
    jobs = [{'seed': '%s/%s/%d' % (check.prop, check.seed, k), 'big': not check.quick} for k in range(n)]
    for events in pool.imap(interpreter, jobs):
        j.add(events)
    check.judge(j, SUBST, explain=explain)
    check.sample([e for e in j.traces[0][:4]])
    # every short history of a few definitions
    depth = 3 if check.quick else 5
    tlc = check.model('MC_User', 'INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nCONSTANT Depth = %d\n' % depth +
                      'INVARIANT InUse OneMeaning AllFound Stable Emit\n')
    (alpha, asked) = [tuples(x) for x in tlc.lines('ALPHA')[0]]
    defs = [{'name': n, 'key': k, 'rng': r} for (n, k, r) in alpha]
    cases = []
    for (h, want) in tlc.lines('CASE'):
        if want:
            cases.append((['build' if k == 0 else defs[k - 1] for k in tuples(h)], 'dup' if want == 'dup' else tuples(want)))
    total = len(cases)
    cases = check.rng.sample(cases, min(total, 3000 if check.quick else 8000))
    check.extra['behaviours'] = {'MC_User/%d' % depth: {'in_model': total, 'replayed': len(cases)}}
    parts = [cases[k::8] for k in range(8)]
    for (part, got) in zip(parts, pool.map(lambda p: interpreter({'follow': [c[0] for c in p], 'words': asked}) if p else [], parts)):
        for ((acts, want), (r, x)) in zip(part, got):
            if r != 'ok' or x != want:
                check.violation('definitions %s: expected %s, got %s' % (json.dumps(acts), want, x), {'acts': acts, 'want': want, 'got': x})
    check.traces += len(cases)


if __name__ == '__main__':
    main()
