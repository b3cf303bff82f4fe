#!/usr/bin/env python3
"""Decide one property:  check.py <ID> [--tier quick|thorough]"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
import common


def main():
    prop = sys.argv[1]
    if '--tier' in sys.argv:
        common.TIER = sys.argv[sys.argv.index('--tier') + 1]
    os.makedirs(common.WORK, exist_ok=True)
    number = int(prop[1:])
    if number <= 13:
        import check_wire as c
    elif number == 23:
        import check_tls as c
    else:
        import check_client as c
    c.check(prop)


if __name__ == '__main__':
    try:
        main()
    except common.ToolError as e:
        print('# tool error:', e)
        sys.exit(2)
