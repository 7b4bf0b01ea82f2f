#!/usr/bin/env python3
"""replay.py SPEC TRACE: judge one recorded execution again."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lib
w = lib.Work("replay")
try:
    r = lib.validate_one(w, sys.argv[1], os.path.abspath(sys.argv[2]), {}, 600)
    print(r)
finally:
    w.close()
sys.exit(0 if r["ok"] else 1)
