#!/usr/bin/env python3
"""check.py --property C01 [--tier quick|thorough] [--runs N] [--replay FILE]

Exit 0: the property held on everything explored.  Exit 1: a VIOLATION line was printed.  Exit 2: the check itself failed.
"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'


def fresh(hashseed=None):
    """every check runs in an interpreter with a fixed hash seed and no byte code written into /repo"""
    want = {'PYTHONHASHSEED': os.environ.get('SIM_HASHSEED', '0'), 'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONIOENCODING': 'utf-8', 'SIM_FRESH': '1'}
    if os.environ.get('SIM_FRESH') == '1':
        return
    env = dict(os.environ, **want)
    env.pop('PYTHONPATH', None)
    py = PY if os.path.exists(PY) else sys.executable
    os.execve(py, [py, '-W', 'ignore', '-B', os.path.abspath(__file__)] + sys.argv[1:], env)


if __name__ == '__main__':
    fresh()
    sys.path.insert(0, HERE)
    from sim import cli
    sys.exit(cli.main(sys.argv[1:]))
