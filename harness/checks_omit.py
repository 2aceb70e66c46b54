"""Leaving out redundant motion words (C21), judged by the specification Omit."""
from copy import copy

from lib import Judge, attempt
from gtext import code, NONMODAL, PARAMS
from gen import Gen, value
from mach import enc_gcode, make_word, observe, BROKEN_OBS

from pygcode import Block
from pygcode import gcodes as G
from pygcode.gcodes import words2gcodes
from pygcode.machine import Machine
from pygcode.utils import omit_redundant_modes
from pygcode.words import Word
from gtext import enc_word


def commands(rng, n, axes, canned):
    g = Gen(rng, axes=axes, canned=canned, nonmodal=0, junk=0, conflict=0, dup=0, modes=(0, 0, 0, 1),
            cannedset=rng.choice([None, ['G81', 'G82'], ['G83', 'G73']]),
            moves=rng.choice([None, ['G0', 'G1'], ['G1', 'G2', 'G3'], ['G0', 'G1', 'G38.2', 'G38.3', 'G33', 'G33.1']]))
    out = []
    repeat = None
    while len(out) < n:
        r = rng.random()
        if r < .6:
            if repeat is not None and rng.random() < .6:
                c = g.active
                if c in ('G73', 'G76', 'G81', 'G82', 'G83', 'G85', 'G89'):
                    ws = [code(c)] + g.canned_words(c, rng.random() < .6)
                    # (similar to what is active: often all levels given)
                else:
                    ws = [code(c)] + g.axis_words(rng.random() < .9)
                    for l in PARAMS.get(c, ''):
                        if rng.random() < .4:
                            ws.append([l, value(rng, l)])
            else:
                ws = g.motion_words()
                repeat = True
        elif r < .68:
            ws = [code('G80')]
        elif r < .78:
            ws = [code('G4'), ['P', rng.choice([500, 1000])]]
        elif r < .85:
            ws = [code(rng.choice(['G90', 'G91', 'G98', 'G99', 'G17', 'G18', 'G19', 'G20', 'G21']))]
        elif r < .97:
            ws = g.mode_words()
        else:
            ws = [code(rng.choice(['M0', 'M1', 'M6']))]
        seen = set()
        ws = [ws[0]] + [w for w in ws[1:] if not (w[0] in seen or seen.add(w[0]))]
        out.append(ws)
    return out


def make(rng, ws):
    """A command"""
    (gs, rest) = words2gcodes([make_word(w) for w in ws])
    if len(gs) == 1 and not rest:
        return gs[0]
    return None


def trace(rng, cmds, axes):
    gs = [make(rng, ws) for ws in cmds]
    gs = [g for g in gs if g is not None]
    if rng.random() < .2 and gs:   # the very same object may be there twice
        gs.insert(rng.randrange(len(gs) + 1), rng.choice(gs))
    cls = type('M', (Machine,), {'axes': set(axes)})
    (a, b) = (cls(), cls())
    before = [str(g) for g in gs]
    state = [dict((k, str(v)) for (k, v) in vars(g).items()) for g in gs]
    events = [{'op': 'begin', 'ax': sorted(axes)}]
    outs = []

    def run():
        it = omit_redundant_modes(iter(gs) if rng.random() < .5 else gs)
        for g in it:
            outs.append(str(g))
    (r, x) = attempt(run)
    same = before == [str(g) for g in gs] and state == [
        dict((k, str(v)) for (k, v) in vars(g).items()) for g in gs]
    if r == 'ok' and len(outs) != len(gs):
        (r, x) = ('crash', 'yielded %d of %d commands' % (len(outs), len(gs)))
    for (g, text) in zip(gs, outs):
        (w, ps) = enc_gcode(g)
        block = Block(text)
        ev = {'op': 'cmd', 'w': w, 'ps': ps, 'text': [enc_word(x) for x in block.words], 'str': text}
        ev['blank'] = not any(enc_word(x) == w for x in block.words[:1])
        (ra, xa) = attempt(a.process_gcodes, copy(g))
        (rb, xb) = attempt(b.process_block, Block(text))
        for (n, mm, rr) in (('a', a, ra), ('b', b, rb)):
            (r2, o) = attempt(observe, mm, False)
            o = o if r2 == 'ok' else dict(BROKEN_OBS)
            o = dict(o, mode=sorted([m[0], m[1], sorted(m[2])] for m in o['mode']), res=rr)
            ev[n] = o
        events.append(ev)
    if r != 'ok' and len(outs) < len(gs):   # (the command at which it stopped)
        (w, ps) = enc_gcode(gs[len(outs)])
        events.append({'op': 'cmd', 'w': w, 'ps': ps, 'text': [], 'str': None, 'blank': False, 'a': {'x': 0}, 'b': {'x': 1}, 'err': x})
    ev = {'op': 'end', 'res': r, 'same': same}
    if r != 'ok':
        ev['err'] = x
    events.append(ev)
    return events


def explain(events, i, info):
    e = events[min(i, len(events) - 1)]
    return 'texts so far: %s\nevent: %s' % ([x.get('str') for x in events[1:i + 1]], e)


def c21(check):
    check.model('MC_Omit', 'SPECIFICATION Spec\nINVARIANT Inv\nCHECK_DEADLOCK FALSE\nVIEW View\nCONSTANT Depth = %d\n' % (
        3 if check.quick else 5))
    rng = check.rng
    j = Judge('TR_Omit')
    for k in range(1400 if check.quick else 15000):
        axes = rng.choice(['XYZ', 'XYZ', 'XYZABC', 'XYZABCUVW'])
        j.add(trace(rng, commands(rng, rng.choice([3, 6, 12]), axes, rng.choice([0, .3, .8])), axes))
    check.judge(j, explain=explain)
    check.sample([e.get('str') for e in j.traces[0]])
