#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough]: decide one property on /repo's current source"""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(200000)
if not os.environ.get('SA_STACK'):
    import resource
    try:
        h = resource.getrlimit(resource.RLIMIT_STACK)[1]
        w = 1 << 30
        if h != resource.RLIM_INFINITY:
            w = min(w, h)
        resource.setrlimit(resource.RLIMIT_STACK, (w, h))
    except (ValueError, OSError):
        pass
    os.environ['SA_STACK'] = '1'
    os.environ.setdefault('PYTHONHASHSEED', '0')
    os.execv(sys.executable, [sys.executable] + sys.argv)


def main():
    import importlib
    pid = sys.argv[1]
    tier = 'quick'
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    from checks import REGISTRY
    mod, fn, title, level, minimum = REGISTRY[pid]
    from sa.report import Check, Vanished
    from sa import frontend
    c = Check(pid, tier, seed, title)
    try:
        c.load()
    except Exception as e:
        print('ANALYSIS-ERROR property=%s front end: %s' % (pid, e))
        return 4
    m = importlib.import_module('checks.' + mod)
    try:
        getattr(m, fn)(c)
    except Vanished as e:
        print('ANALYSIS-ERROR property=%s %s' % (pid, e))
        return 3
    return c.finish(level, minimum, (getattr(m, fn).__doc__ or '').strip())


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
