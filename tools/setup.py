#!/usr/bin/env python3
"""Builds what the checks build, so that they start with a warm cache where
the sandbox keeps one."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import *
w = Work("setup")
try:
    build(w)
finally:
    w.close()
print("ok")
