#!/usr/bin/env python3
"""check.py Cxx [--tier quick|thorough]: decides one property of /repo's current source."""
import importlib
import os
import sys

os.environ.setdefault('PYTHONHASHSEED', '0')
if os.environ.get('SCS_REEXEC') != '1':
    import resource
    os.environ['SCS_REEXEC'] = '1'
    os.environ['PYTHONHASHSEED'] = '0'
    try:
        resource.setrlimit(resource.RLIMIT_STACK, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))
    except Exception:
        try:
            s, h = resource.getrlimit(resource.RLIMIT_STACK)
            resource.setrlimit(resource.RLIMIT_STACK, (h, h))
        except Exception:
            pass
    os.execv(sys.executable, [sys.executable] + sys.argv)

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'lib'))
sys.path.insert(0, os.path.join(HERE, 'lib', 'checks'))
import build
import ck
import registry


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    modname, fname, note, assumptions = registry.CHECKS[pid]
    try:
        c = ck.Ck(pid, tier)
    except build.BuildError as e:
        print('ERROR property=%s the source does not build: %s' % (pid, e))
        return 2
    try:
        getattr(importlib.import_module(modname), fname)(c)
    except ck.Anchor as e:
        print('ERROR property=%s anchor lost: %s' % (pid, e))
        if not any(o[1] == 'violated' for o in c.obs):
            return 2
    return c.finish(note, assumptions)


if __name__ == '__main__':
    sys.exit(main())
