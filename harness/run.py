#!/opt/venv/bin/python
"""run.py <property> [--tier quick|thorough]

Checks one property: drives the real code in /repo/src, records what it did, and
has TLC decide whether it is a behaviour of the specification in /verif/spec."""
import argparse
import importlib
import os
import sys
import traceback

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

MODULES = {
    'checks_frames': 'C28',
    'checks_user': 'C31',
    'checks_dialects': 'C32',
    'checks_scripts': 'C23 C24 C25',
    'checks_omit': 'C21',
    'checks_rel': 'C20',
    'checks_drill': 'C19',
    'checks_arc': 'C17 C18',
    'checks_position': 'C15',
    'checks_words': 'C26 C27',
    'checks_text': 'C01 C02 C22 C29',
    'checks_machine': 'C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C16 C30',
}
CHECKS = dict((p, m) for (m, ps) in MODULES.items() for p in ps.split())


def from_library(e, lib):
    """Was it raised by the library, or by using what the library returned? (calls that
    may fail are recorded and judged; all others succeed, as specified)"""
    names = [os.path.abspath(f.filename) for f in traceback.extract_tb(e.__traceback__)]
    if any(n.startswith(os.path.join(lib.REPO, 'src')) for n in names):
        return True
    usual = (AttributeError, TypeError, KeyError, IndexError, ValueError, AssertionError, ArithmeticError)
    machinery = ('lib.py', 'model.py', 'gen.py', 'gtext.py')
    return isinstance(e, usual) and bool(names) and os.path.basename(names[-1]) not in machinery


def main():
    p = argparse.ArgumentParser()
    p.add_argument('property')
    p.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    p.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    a = p.parse_args()
    if os.environ.get('PYTHONHASHSEED') != '0':
        os.environ['PYTHONHASHSEED'] = '0'
        os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
        os.execv(sys.executable, [sys.executable] + sys.argv)
    import lib
    check = lib.Check(a.property, a.tier, a.seed)
    if not check.quick:
        lib.TIME_FACTOR = 6
    try:
        module = importlib.import_module(CHECKS[a.property])
        getattr(module, a.property.lower())(check)
    except lib.CheckError as e:
        print('ERROR of the check: %s' % e)
        check.finish()
        return 2
    except Exception as e:
        if from_library(e, lib):
            check.violation('unexpected %s from the library, or from what it returned: %s\n%s' % (
                type(e).__name__, e, traceback.format_exc()), {'traceback': traceback.format_exc()})
        else:
            traceback.print_exc()
            check.finish()
            return 2
    return check.finish()


if __name__ == '__main__':
    sys.exit(main())
