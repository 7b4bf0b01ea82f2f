#!/usr/bin/env python3
"""Builds the harness once, to fail early and to warm the build cache."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lib
w = lib.Work("setup")
try:
    w.build_harness()
    print("ok")
finally:
    w.close()
