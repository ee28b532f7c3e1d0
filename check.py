#!/usr/bin/env python3
"""check.py PROPERTY: decides one property of /repo's current tree."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
sys.dont_write_bytecode = True
from common import run_main, Broken


def main():
    pid = sys.argv[1]
    if pid.startswith('G'):
        import plugins
        return plugins.run(pid)
    import scen
    if pid in scen.SPEC:
        return scen.main(pid)
    import core
    return core.run(pid)


if __name__ == '__main__':
    run_main(main)
