#!/usr/bin/env python3-vt
"""check.py <property id>            decide one property on /repo's working tree
   check.py replay <replay file>     re-run the failing case of a reported violation"""
import sys, os, json, time
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)


def main():
    if len(sys.argv) == 3 and sys.argv[1] == 'replay':
        from props import common
        return common.replay(sys.argv[2])
    pid = sys.argv[1]
    from props import REGISTRY
    return REGISTRY[pid](pid)


if __name__ == '__main__':
    sys.exit(main())
