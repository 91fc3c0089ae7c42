#!/usr/bin/env python3
"""Runs the check of a property: run.py <id>"""
import importlib.util, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(os.path.dirname(HERE), 'lib'))
import vlib


def main():
    prop = sys.argv[1]
    if prop == 'setup':
        vlib.build()
        vlib.compile_overrides()
        return 0
    spec = importlib.util.spec_from_file_location('checks', os.path.join(HERE, 'checks.py'))
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    return mod.CHECKS[prop]().run()


if __name__ == '__main__':
    try:
        sys.exit(main())
    except vlib.CheckError as e:
        print('ERROR: %s' % e, file=sys.stderr)
        sys.exit(3)
