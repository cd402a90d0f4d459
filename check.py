"""Decide one property for the tree in /repo: python3 check.py C05 [--tier quick|thorough]"""
import os
import sys
import threading
import traceback

if os.environ.get('PYTHONHASHSEED') != '0':
    # the order of sets decides which normal form is met first: the same verdict every time
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable, '-B'] + sys.argv)

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True

EXPLANATION = {
}
DEFAULT = ('Source of the compiler lifted (never run) into closed forms over arbitrary zones, eras, policies, rules and flags; '
           'each obligation compares the form the program computes with the form the property requires.')


def main():
    from sa import props, results
    pid = sys.argv[1]
    if pid == '--self-check':
        print('%d properties claimed, nothing to build' % len(props.PROPS))
        return 0
    root = os.environ.get('ACETIME_SRC', '/repo/src')
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    res = results.Results(pid)
    ctx = props.Ctx(root, tier, seed)
    try:
        props.run(pid, res, ctx)
    except results.Vanished as e:
        print('cannot decide %s: %s' % (pid, e))
        return 2
    if not res.items:
        print('cannot decide %s: nothing to analyse' % pid)
        return 2
    return results.finish(res, tier, seed, 'other', EXPLANATION.get(pid, DEFAULT), ASSUME)


ASSUME = [
    'input: the extractor delivers records whose columns are arbitrary strings and integers of the declared types; months are 1..12',
    'Python semantics as modelled by sa/interp.py; standard library calls are uninterpreted or modelled by name',
]


if __name__ == '__main__':
    code = [2]

    def go():
        try:
            code[0] = main()
        except Exception:
            traceback.print_exc()
    threading.stack_size(512 * 1024 * 1024)
    sys.setrecursionlimit(20000)
    t = threading.Thread(target=go)
    t.start()
    t.join()
    sys.exit(code[0])
