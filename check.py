#!/usr/bin/env python3
"""Entry point.

  check.py V01 [--tier quick|thorough] [--runs N] [--jobs N]
  check.py replay FILE [-v]
  check.py selftest          determinism of the simulator
"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))

if os.environ.get('PYTHONHASHSEED') is None:
    os.environ['PYTHONHASHSEED'] = '0'
    os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
    os.execv(sys.executable, [sys.executable] + sys.argv)

sys.dont_write_bytecode = True
sys.path.insert(0, HERE)

from dst import runner  # noqa: E402

if __name__ == '__main__':
    sys.exit(runner.main(sys.argv[1:]))
