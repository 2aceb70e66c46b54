"""Common machinery: running TLC on recorded traces, findings, evidence."""
import json
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
from multiprocessing.pool import ThreadPool

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')
REPO = os.environ.get('VERIF_REPO', '/repo')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(REPO, 'src'))

BAD = -2000000000   # stands for a number that is not on the specification's grid


class CheckError(Exception):
    """The machinery failed (not the code under test)"""


# ------------------------------------------------------------ outcomes
def category(exc):
    """Library errors are rejections; anything accidental is a crash."""
    from pygcode import exceptions as e
    deliberate = tuple(
        c for c in vars(e).values() if isinstance(c, type) and issubclass(c, Exception)
    ) + (AssertionError, NotImplementedError, ValueError)
    if isinstance(exc, ZeroDivisionError):
        return 'crash'
    return 'rej' if isinstance(exc, deliberate) else 'crash'


class Hang(Exception):
    pass


def _on_alarm(signum, frame):
    raise Hang('no answer')


signal.signal(signal.SIGALRM, _on_alarm)
CALL_TIMEOUT = 20.


def attempt(func, *args, **kwargs):
    """:return: ('ok', value) | ('rej'|'crash', message)"""
    signal.setitimer(signal.ITIMER_REAL, CALL_TIMEOUT)
    try:
        return ('ok', func(*args, **kwargs))
    except Exception as exc:  # noqa
        return (category(exc), '%s: %s' % (type(exc).__name__, exc))
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


# ------------------------------------------------------------ numbers
def grid(x, scale=1000, tol=1e-4):
    """Integer number of 1/scale units, or BAD if x is not on that grid"""
    if x is None or isinstance(x, (str, bytes, bool, complex)):
        return BAD
    try:
        v = x * scale
        r = round(v)
        if abs(v - r) > tol or abs(r) >= 2000000000:
            return BAD
        return int(r)
    except Exception:
        return BAD


def micro(x, scale):
    """Nearest integer number of 1/scale units (no grid), BAD if impossible"""
    try:
        r = int(round(x * scale))
        return r if abs(r) < 2000000000 else BAD
    except Exception:
        return BAD


# ------------------------------------------------------------ scratch space
class Scratch(object):
    def __enter__(self):
        self.path = tempfile.mkdtemp(prefix='verif-')
        return self.path

    def __exit__(self, *exc):
        if self.path.startswith(tempfile.gettempdir()):
            shutil.rmtree(self.path, ignore_errors=True)


# ------------------------------------------------------------ TLC
# (thorough tiers may take as long as they like: run.py sets this)
TIME_FACTOR = 1


class TLC(object):
    """One TLC run.  Collects printed lines and state counts."""

    def __init__(self, module, cfg, env=None, workers=8, timeout=800, heap='6g', gc='Parallel', extra=()):
        self.module, self.cfg = module, cfg
        with Scratch() as tmp:
            cfg_path = os.path.join(tmp, 'run.cfg')
            with open(cfg_path, 'w') as f:
                f.write(cfg)
            e = dict(os.environ)
            e.update(env or {})
            e.pop('JAVA_TOOL_OPTIONS', None)
            cmd = [
                'java', '-XX:+Use%sGC' % gc, '-Xmx' + heap, '-Xss64m',
                '-Djava.io.tmpdir=' + tmp,
                '-cp', JARS, 'tlc2.TLC', '-noGenerateSpecTE', '-workers', str(workers),
                '-metadir', os.path.join(tmp, 'meta'), '-config', cfg_path,
                '-deadlock',  # (do not check deadlock)
            ] + list(extra) + [os.path.join(SPEC, module + '.tla')]
            t = time.time()
            if TIME_FACTOR > 1:
                timeout = timeout * TIME_FACTOR
            try:
                p = subprocess.run(cmd, cwd=SPEC, env=e, timeout=timeout,
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            except subprocess.TimeoutExpired:
                raise CheckError('TLC timed out after %ds on %s' % (timeout, module))
            self.wall = time.time() - t
        self.out = p.stdout.decode('utf-8', 'replace')
        self.rc = p.returncode
        m = re.search(r'([\d,]+) states generated, ([\d,]+) distinct states found', self.out)
        self.generated = int(m.group(1).replace(',', '')) if m else 0
        self.distinct = int(m.group(2).replace(',', '')) if m else 0

    def lines(self, prefix):
        """Printed strings of the form "prefix|..." """
        found = []
        for line in self.out.splitlines():
            line = line.strip()
            if line.startswith('"') and line.endswith('"'):
                line = line[1:-1]
            if line.startswith(prefix + '|'):
                found.append(line.split('|')[1:])
        return found

    def assert_ok(self):
        if self.rc != 0:
            raise CheckError('TLC failed (rc=%d) on %s:\n%s' % (self.rc, self.module, self.out[-9000:]))


def plain_json(x):
    """What TLC can read: no null, no fractions, no big numbers"""
    if isinstance(x, dict):
        return dict((str(k), plain_json(v)) for (k, v) in x.items())
    if isinstance(x, (list, tuple)):
        return [plain_json(v) for v in x]
    if isinstance(x, (bool, str)):
        return x
    if isinstance(x, int):
        return x if abs(x) <= -BAD else BAD
    return repr(x)


class Judge(object):
    """Has TLC decide whether recorded traces are behaviours of a trace specification."""

    def __init__(self, module, spec='TraceSpec'):
        self.module = module
        self.spec = spec
        self.traces = []     # lists of events
        self.info = []       # anything, to explain a trace

    def add(self, events, info=None):
        self.traces.append(events)
        self.info.append(info)
        return len(self.traces) - 1

    JVMS = 6

    def run(self, timeout=800, constants='', per_jvm=2500, max_jvm=25000):
        """
        Traces are judged independently of each other, so they are spread over several JVMs.
        :return: dict(failures=[(trace index, event index, clauses)], states, transitions, traces)
        """
        res = dict(failures=[], states=0, transitions=0, traces=0, opens=0, wall=0., clauses={})
        total = sum(len(t) for t in self.traces)
        parts = min(self.JVMS, max(1, total // per_jvm))
        parts = max(parts, -(-total // max_jvm))
        parts = min(parts, len(self.traces))
        batches = [list(range(k, len(self.traces), parts)) for k in range(parts)]
        pool = ThreadPool(min(self.JVMS, parts))
        try:
            for (ids, tlc, outside) in pool.imap_unordered(
                    lambda ids: self._run_batch(ids, timeout, constants), batches):
                res['failures'] += outside
                res['traces'] += len(outside)
                if ids:
                    self._collect(ids, tlc, res)
        finally:
            pool.terminate()
        res['failures'].sort()
        return res

    def _run_batch(self, ids, timeout, constants):
        """:return: (trace ids judged, TLC run, failures of traces that are no traces of the specification at all)"""
        outside = []
        ids = list(ids)
        while True:
            with Scratch() as tmp:
                path = os.path.join(tmp, 'traces.json')
                with open(path, 'w') as f:
                    json.dump(plain_json([self.traces[k] for k in ids]), f, separators=(',', ':'))
                tlc = TLC(self.module, 'SPECIFICATION %s\nCHECK_DEADLOCK FALSE\n%s' % (self.spec, constants),
                          env={'VERIF_TRACES': path}, timeout=timeout, workers=1, heap='4g', gc='Serial')
            # Values for which the specification has no meaning (a set where it wants a number, ...)
            if tlc.rc == 75 and 'OutOfMemory' not in tlc.out and len(outside) < 4:
                at = re.findall(r'/\\ t = (\d+)', tlc.out)
                step = re.findall(r'/\\ i = (\d+)', tlc.out)
                why = re.search(r'(Attempted to|Overflow|The exception was)[^\n]*\n?[^\n]*', tlc.out)
                if at:
                    k = int(at[-1]) - 1
                    outside.append((ids[k], int(step[-1]) if step else 0,
                                    'a value the specification has no meaning for: %s' % (why.group(0)[:300] if why else '')))
                    del ids[k]
                    if ids:
                        continue
            return (ids, tlc, outside)

    def _collect(self, ids, tlc, res):
        tlc.assert_ok()
        done = set(int(x[0]) for x in tlc.lines('DONE'))
        missing = set(range(1, len(ids) + 1)) - done
        if missing:
            raise CheckError('traces not fully judged: %s\n%s' % (sorted(missing)[:10], tlc.out[-3000:]))
        for x in tlc.lines('FAIL'):
            (t, i, clauses) = (int(x[0]), int(x[1]), '|'.join(x[2:]).replace('\\"', ''))
            res['failures'].append((ids[t - 1], i - 1, clauses))
        res['opens'] += len(tlc.lines('OPEN'))
        for x in tlc.lines('USED'):
            res['clauses'][x[0]] = res['clauses'].get(x[0], 0) + 1
        res['states'] += tlc.distinct
        res['transitions'] += tlc.generated
        res['traces'] += len(ids)
        res['wall'] += tlc.wall


# ------------------------------------------------------------ known findings
def known_findings(prop):
    """Entries of the known-findings file: {signature: description} for a property"""
    found = {}
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                m = re.match(r'^finding: property=(\S+) signature=(\S+) (.*)$', line.strip())
                if m and m.group(1) == prop:
                    found[m.group(2)] = m.group(3)
    return found


# ------------------------------------------------------------ a check run
class Check(object):
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = (tier != 'thorough')
        self.rng = random.Random('%s/%s' % (prop, seed))
        self.started = time.time()
        self.violations = []    # (description, replay data)
        self.known = []
        self.states = self.transitions = self.traces = self.events = 0
        self.samples = []
        self.extra = {}
        self.assumptions = []
        self._known_table = known_findings(prop)
        self._replays = 0
        self._known_seen = {}
        shutil.rmtree(self.replay_dir(), ignore_errors=True)

    def replay_dir(self):
        return os.path.join(VERIF, 'evidence', 'replay', self.prop)

    def elapsed(self):
        return time.time() - self.started

    # -- reporting
    def violation(self, what, data, signature=None):
        if signature is not None and signature in self._known_table:
            self._known_seen.setdefault(signature, what)
            return
        self.violations.append(what)
        if len(self.violations) <= 10:
            if not os.path.isdir(self.replay_dir()):
                os.makedirs(self.replay_dir())
            path = os.path.join(self.replay_dir(), 'violation-%d.json' % len(self.violations))
            with open(path, 'w') as f:
                json.dump({'property': self.prop, 'what': what, 'signature': signature, 'data': data},
                          f, indent=1, default=str)
            print('VIOLATION property=%s replay=%s' % (self.prop, path))
            print('  ' + what.replace('\n', '\n  ')[:2000])
            sys.stdout.flush()

    def sample(self, x, limit=4):
        if len(self.samples) < limit:
            self.samples.append(x)

    # -- judging traces
    def judge(self, judge, constants='', explain=None, signature=None, clause_filter=None):
        if not judge.traces:
            raise CheckError('no traces recorded')
        res = judge.run(constants=constants)
        self.states += res['states']
        self.transitions += res['transitions']
        self.traces += res['traces']
        self.events += sum(len(t) for t in judge.traces)
        for k in ('opens',):
            if res[k]:
                self.extra[k] = self.extra.get(k, 0) + res[k]
        for k in ('USED',):
            if res['clauses']:
                used = self.extra.setdefault('situations', {})
                for (c, n) in res['clauses'].items():
                    used[c] = used.get(c, 0) + n
        for (t, i, clauses) in res['failures']:
            (events, info) = (judge.traces[t], judge.info[t])
            ev = events[i] if i < len(events) else None
            what = 'trace %d step %d: %s' % (t, i, clauses)
            if explain:
                what += '\n' + str(explain(events, i, info))
            elif ev is not None:
                what += '\n' + json.dumps(ev)[:1200]
            sig = signature(events, i, info, clauses) if signature else None
            self.violation(what, {'events': events[:i + 1], 'info': info, 'clauses': clauses}, sig)
        return res

    def model(self, module, cfg, timeout=800, extra=(), heap='6g', env=None, label=None):
        """Exhaustive model checking of the specification's own properties"""
        tlc = TLC(module, cfg, timeout=timeout, extra=extra, heap=heap, env=env)
        if tlc.rc != 0:
            raise CheckError('the specification %s does not have its properties:\n%s' % (module, tlc.out[-9000:]))
        self.states += tlc.distinct
        self.transitions += tlc.generated
        m = self.extra.setdefault('models', {})
        m[label or module] = {'distinct_states': tlc.distinct, 'states_generated': tlc.generated,
                     'wall_s': round(tlc.wall, 1)}
        return tlc

    def finish(self):
        for (sig, what) in sorted(self._known_seen.items()):
            print('KNOWN-FINDING: property=%s %s: %s' % (self.prop, sig, self._known_table[sig]))
        cov = {
            'states': self.states,
            'transitions': self.transitions,
            'traces_validated_against_impl': self.traces,
            'events_recorded': self.events,
            'samples': self.samples or ['(none)'],
        }
        cov.update(self.extra)
        ev = {
            'property': self.prop, 'tier': 'quick' if self.quick else 'thorough', 'seed': self.seed,
            'level': 'model_checking', 'coverage': cov, 'assumptions': self.assumptions,
            'wall_s': round(self.elapsed(), 2), 'violations': len(self.violations),
        }
        path = os.path.join(VERIF, 'evidence')
        if not os.path.isdir(path):
            os.makedirs(path)
        with open(os.path.join(path, self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, sort_keys=True, default=str)
        print('%s: %d violation(s); %d traces, %d events, %d states, %.1fs' % (
            self.prop, len(self.violations), self.traces, self.events, self.states, self.elapsed()))
        return 1 if self.violations else 0
