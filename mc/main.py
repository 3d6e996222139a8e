"""Entry point: python -m mc.main ID [--replay FILE]"""
import importlib
import os
import subprocess
import sys
import traceback


def main():
    prop = sys.argv[1]
    from mc import core
    try:
        mod = importlib.import_module('mc.checks.' + prop.lower())
    except Exception:
        traceback.print_exc()
        print('check error: cannot load check or the code under test')
        return 2
    replay = None
    if len(sys.argv) > 3 and sys.argv[2] == '--replay':
        replay = sys.argv[3]
    pre = getattr(mod, 'PRELOAD', None)
    if pre and 'LD_PRELOAD' not in os.environ:
        # rebuild the fault injector and start over with it loaded
        so = os.path.join(os.environ['VERIF_SCRATCH'], pre + '.so')
        subprocess.check_call(['gcc', '-O1', '-shared', '-fPIC', '-o', so,
                               os.path.join(os.path.dirname(
                                   os.path.abspath(__file__)), 'native',
                                   pre), '-ldl'])
        os.environ['LD_PRELOAD'] = so
        os.execv(sys.executable, [sys.executable, '-m', 'mc.main'] +
                 sys.argv[1:])
    try:
        return core.run(prop, mod, replay)
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
