#!/usr/bin/env python3
"""check.py <property>: decide one property on the current tree of /repo.
Exit 0: held on everything explored; 1: VIOLATION lines; 2: no answer."""
import os
import sys
import traceback

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))


def main():
    prop = sys.argv[1]
    import core
    import props
    ck = core.Check(prop)
    try:
        props.PROPS[prop](ck)
    except Exception:
        traceback.print_exc()
        if ck.viol:
            sys.exit(ck.finish())
        sys.exit(2)
    sys.exit(ck.finish())


main()
