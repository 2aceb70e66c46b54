#!/usr/bin/env python3
"""Development aid for planted bugs.

  seed.py make FILE.py     FILE.py defines SEEDS, a list of dicts (id, prop, edits=[(file, old, new)], needs, breaks, demo)
  seed.py test [ID...]     confirms each in a scratch copy: applies, builds, passes the tests, demo fails with and passes
                           without it; then runs the property's check against it
"""
import json, os, re, shutil, subprocess, sys, tempfile
from multiprocessing.pool import ThreadPool
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(here, 'seeded')
PY = '/opt/venv/bin/python'
DEMO_SH = '''#!/bin/bash
# run with cwd at the root of the repository
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD/src"
exec /opt/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"
'''

def sh(cmd, cwd, env=None, timeout=900):
    e = dict(os.environ); e.update(env or {}); e['PYTHONDONTWRITEBYTECODE'] = '1'
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return (p.returncode, p.stdout.decode('utf-8', 'replace'))

def copy(tmp):
    d = os.path.join(tmp, 'repo')
    subprocess.check_call(['cp', '-a', '/repo', d])
    return d

def make(path):
    ns = {}
    exec(open(path).read(), ns)
    for s in ns['SEEDS']:
        with tempfile.TemporaryDirectory() as tmp:
            d = copy(tmp)
            for (f, old, new) in s['edits']:
                p = os.path.join(d, f)
                t = open(p).read()
                assert t.count(old) == 1, (s['id'], f, old, t.count(old))
                open(p, 'w').write(t.replace(old, new))
            (rc, diff) = sh(['git', 'diff'], d)
            # lines removed or changed have to be of the original repository
            base = sh(['git', 'rev-list', '--max-parents=0', 'HEAD'], d)[1].strip()
            out = os.path.join(SEEDED, s['id'])
            os.makedirs(out, exist_ok=True)
            open(out + '/patch.diff', 'w').write(diff)
            orig = set(l for f in set(e[0] for e in s['edits']) for l in sh(['git', 'show', base + ':' + f], d)[1].splitlines())
            gone = [l[1:] for l in diff.splitlines() if l.startswith('-') and not l.startswith('---')]
            if not any(l.strip() and l in orig for l in gone):
                print("%s: changes no original line" % s["id"])
            demo = s['demo']
            open(out + '/demo.py', 'w').write(demo.lstrip('\n'))
            open(out + '/demo.sh', 'w').write(DEMO_SH)
            os.chmod(out + '/demo.sh', 0o755)
            json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(out + '/meta.json', 'w'), indent=1)

def test(id_, checks=True):
    out = os.path.join(SEEDED, id_)
    meta = json.load(open(out + '/meta.json'))
    with tempfile.TemporaryDirectory() as tmp:
        d = copy(tmp)
        demo = os.path.join(tmp, 'demo'); shutil.copytree(out, demo)
        (rc0, o0) = sh(['bash', demo + '/demo.sh'], d, timeout=300)
        (rca, oa) = sh(['git', 'apply', out + '/patch.diff'], d)
        if rca: return (id_, meta['property'], 'DOES NOT APPLY ' + oa)
        (rc1, o1) = sh(['bash', demo + '/demo.sh'], d, timeout=300)
        (rct, ot) = sh([PY, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', 'tests'], d, {'PYTHONPATH': d + '/src'})
        (rcs, os_) = (0, '')
        for s in ('norm', 'crop'):
            (r, o) = sh([PY, 'scripts/pygcode-' + s, '--help'], d, {'PYTHONPATH': d + '/src'})
            rcs |= r
        bad = []
        if rc0 != 0: bad.append('demo fails on clean tree: ' + o0[-300:])
        if rc1 == 0: bad.append('demo passes with the patch')
        if rct != 0: bad.append('tests fail: ' + ot[-300:])
        if rcs: bad.append('scripts do not start')
        if bad: return (id_, meta['property'], 'INVALID ' + '; '.join(bad))
        if not checks: return (id_, meta['property'], 'valid')
        v = os.path.join(tmp, 'verif'); os.mkdir(v)
        for x in ('spec', 'harness', 'known_findings.txt'):
            subprocess.check_call(['cp', '-a', os.path.join(here, x), v])
        (rc, o) = sh([PY, 'harness/run.py', meta['property'], '--tier', os.environ.get('TIER', 'quick')], v, {'VERIF_REPO': d, 'VERIF_SEED': '1', 'PYTHONPATH': d + '/src'})
        first = [l for l in o.splitlines() if l.startswith('  ')][:1]
        n = re.findall(r'(\d+) violation', o)
        return (id_, meta['property'], ('caught' if rc == 1 and 'VIOLATION property=' + meta['property'] in o else 'MISSED rc=%d' % rc) +
                ' (%s) %s' % (n[-1] if n else '?', first[0].strip()[:110] if first else (o[-400:] if rc not in (0, 1) else '')))

if __name__ == '__main__':
    if sys.argv[1] == 'make':
        make(sys.argv[2])
    else:
        ids = sys.argv[2:] or sorted(x for x in os.listdir(SEEDED) if os.path.isdir(os.path.join(SEEDED, x)))
        for r in ThreadPool(3).imap(test, ids):
            print('%-28s %s %s' % r); sys.stdout.flush()
