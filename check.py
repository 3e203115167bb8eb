#!/usr/bin/env python3
"""check.py <property> [--thorough] [--root DIR]: decides one property."""
import importlib
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from wv.harness import run_check     # noqa: E402


def main(argv):
    pid = argv[0]
    thorough = ('--thorough' in argv
                or os.environ.get('VERIF_TIER') == 'thorough')
    root = '/repo'
    if '--root' in argv:
        root = argv[argv.index('--root') + 1]
    mod = importlib.import_module('checks.' + pid.lower())
    return run_check(pid, mod.build, getattr(mod, 'LEVEL', 'other'), root,
                     thorough)


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
