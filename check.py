#!/usr/bin/env python3
"""Usage: check.py PROPERTY [--tier quick|thorough] [--seed N] [--runs N] [--replay FILE]"""
import os
import sys

sys.dont_write_bytecode = True
if os.environ.get("PYTHONHASHSEED") is None and os.environ.get("DUSTSIM_REEXEC") is None:
    # The code under test must not depend on it, but one seed shall be one execution.
    env = dict(os.environ, PYTHONHASHSEED="0", DUSTSIM_REEXEC="1", PYTHONDONTWRITEBYTECODE="1")
    os.execve(sys.executable, [sys.executable, "-B", os.path.abspath(__file__)] + sys.argv[1:], env)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sim.driver import main  # noqa: E402

if __name__ == "__main__":
    sys.exit(main())
