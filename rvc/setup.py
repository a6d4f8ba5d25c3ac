#!/usr/bin/env python3-vt
"""setup: check that the tools the verifier needs are present and work"""
import os
import subprocess
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import z3  # noqa
import build  # noqa

for c in (["clang++", "--version"], ["opt", "--version"], ["z3", "--version"], ["z3-new", "--version"], ["cvc5", "--version"], ["g++", "--version"]):
    try:
        subprocess.run(c, capture_output=True, check=True)
    except Exception as ex:
        alt = None
        print("missing tool %s: %s" % (c[0], ex))
m = build.module()
print("ok: %d functions extracted" % len(m.funcs))
