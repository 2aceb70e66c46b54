"""Behaviours generated by TLC from the machine model (MC_Machine), replayed on real machines."""
import json
import multiprocessing
import random

from lib import attempt
from mach import Recorder, observe
import mach

AXES3 = 'XYZ'


def behaviours(check, scn, depth, timeout=800):
    """:return: (alphabet, edges of the state graph)"""
    tlc = check.model('MC_Machine', (
        'SPECIFICATION Spec\nINVARIANT StateLaws EdgeLaws\nVIEW View\nCHECK_DEADLOCK FALSE\n'
        'CONSTANT Scn = "%s"\nCONSTANT Depth = %d\n' % (scn, depth)), timeout=timeout, label='MC_Machine/' + scn)
    acts = None
    edges = []
    for line in tlc.out.splitlines():
        if line.startswith('"EDGE|'):
            edges.append(line)
        elif line.startswith('"ACTS|'):
            acts = json.loads(line[6:-1].replace('\\"', '"'))
    if not edges or not acts:
        raise RuntimeError('no behaviours')
    return acts, edges


def decode(line):
    return json.loads(line[6:-1].replace('\\"', '"'))


def shown(o):
    """A real machine, as the model shows it"""
    return {
        'mode': sorted([g, w, sorted(ps)] for (g, w, ps) in o['mode']),
        'abs': o['abs'], 'pos': o['pos'], 'lo': o['lo'], 'hi': o['hi'], 'cs': o['cs'], 'tmp': o['tmp'], 'off': o['off'],
    }


def wanted(m):
    return dict(m, mode=sorted([g, w, sorted(ps or [])] for (g, w, ps) in m['mode']))


def differences(want, seen):
    return [k for k in sorted(want) if want[k] != seen.get(k)]


def cmds_of(cs):
    return [[c['w'], sorted(c['ps'] or [])] for c in cs]


class Replayer(object):
    def __init__(self, acts, seed, twist):
        self.acts, self.seed, self.twist = acts, seed, twist

    def act(self, r, name, a, final=False):
        if a['op'] == 'blk':
            return r.block(name, a['ws'], detail=False, eff=final)
        if a['op'] == 'off':
            return r.offset(name, a['cs'], a['to'], r.rng.choice(['set', 'upd']))
        if a['op'] == 'pos':
            return r.setpos(name, a['p'])
        return r.move(name, a['p'])

    def __call__(self, line):
        """:return: None, or (what differs, events)"""
        e = decode(line)
        rng = random.Random('%s/%s/%s' % (self.seed, e['b'], e['h']))
        r = Recorder(rng)
        emit = r.emit
        r.emit = lambda ev, obs=True: emit(ev, False)  # (only the last state is observed)
        cleaning = (self.twist == 'clean' and e['b'] == 3)
        r.new('a', AXES3, e['b'] == 3 and not cleaning, [] if e['b'] == 2 else None, 'null')
        if 'a' not in r.m:
            return ('no machine', r.events)
        at = rng.randint(0, len(e['h'])) if self.twist == 'copy' else -1
        name = 'a'
        before = None
        for (n, k) in enumerate(e['h']):
            last = (n + 1 == len(e['h']))
            if n == at:
                r.copy('a', 'b', rng.random() < 0.3)
                if 'b' not in r.m:
                    return ('no copy', r.events)
                before = shown(observe(r.m['a']))
                name = rng.choice('ab')
            a = self.acts[k - 1]
            if cleaning and a['op'] == 'blk':
                ev = r.clean(name, a['ws'])
            else:
                ev = self.act(r, name, a, last)
        bad = []
        if (ev['res'] == 'ok') != e['ok']:
            bad.append('outcome')
        elif ev['res'] not in ('ok', 'rej'):
            bad.append('outcome')
        if 'eff' in ev and ev['effres'] == 'ok' and e['ok']:
            if [[w, sorted(ps)] for (w, ps) in ev['eff']] != cmds_of(e['eff']):
                bad.append('effective')
        want = wanted(e['m'])
        if not bad:
            (s, o) = attempt(observe, r.m[name])
            bad += differences(want, shown(o)) if s == 'ok' else ['state']
        if before is not None:  # the other one has not changed
            (s, o) = attempt(observe, r.m['b' if name == 'a' else 'a'])
            bad += ['other.' + x for x in (differences(before, shown(o)) if s == 'ok' else ['state'])]
        if self.twist == 'text' and not bad:
            r.new('b', AXES3, False, [], 'null')
            ev = r.mode_text('a', 'b', rng.choice(['process', 'default', 'set']))
            if ev['res'] != 'ok':
                bad.append('text')
            else:
                (s, o) = attempt(observe, r.m['b'])
                if s != 'ok' or shown(o)['mode'] != want['mode']:
                    bad.append('text.mode')
                (x, y) = [sorted([w, sorted(ps)] for (w, ps) in ev[k]) for k in ('listing', 'cmds')]
                if x != y or x != sorted([w, ps] for (g, w, ps) in want['mode']):
                    bad.append('text.listing')
        if self.twist == 'convert' and not bad:
            p = dict((x, rng.randint(-9, 9) * 500) for x in AXES3)
            ev = r.convert('a', p)
            shift = dict((x, e['m']['abs'][x] - e['m']['pos'][x]) for x in AXES3)
            if ev['res'] != 'ok':
                bad.append('convert')
            elif not (ev['back1'] == ev['back2'] == ev['after'] == p):
                bad.append('convert.back')
            elif ev['work'] != dict((x, p[x] - shift[x]) for x in AXES3) or \
                    ev['abs'] != dict((x, p[x] + shift[x]) for x in AXES3):
                bad.append('convert.shift')
        if bad:
            return (bad, r.events, want)
        return None


def _worker(args):
    (acts, seed, twist, lines) = args
    rep = Replayer(acts, seed, twist)
    out = []
    for line in lines:
        x = rep(line)
        if x is not None:
            out.append((line, x))
            if len(out) > 20:
                break
    return out


def replay(check, scn, depth, limit=None, twist=None, timeout=800):
    """Every edge of the model's state graph (or a sample), on real machines"""
    (acts, edges) = behaviours(check, scn, depth, timeout)
    total = len(edges)
    if limit and total > limit:
        edges = check.rng.sample(sorted(edges), limit)
    procs = 6
    chunks = [(acts, '%s/%s' % (check.prop, check.seed), twist, edges[k::procs * 4]) for k in range(procs * 4)]
    with multiprocessing.Pool(procs) as pool:
        for found in pool.imap_unordered(_worker, chunks):
            for (line, x) in found:
                e = decode(line)
                steps = [json.dumps(acts[k - 1]) for k in e['h']]
                check.violation('behaviour %s %s of the specification: %s\n%s\n%s' % (
                    scn, e['h'], x[0], '\n'.join(steps),
                    '\n'.join('%s %s' % (v.get('text', ''), v.get('err', '')) for v in x[1])),
                    {'behaviour': e, 'steps': steps, 'events': x[1], 'differs': x[0]})
    b = check.extra.setdefault('behaviours', {})
    b['%s/%d' % (scn, depth)] = {'edges_in_model': total, 'replayed': len(edges), 'with': twist or 'nothing else'}
    check.traces += len(edges)
