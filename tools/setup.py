#!/usr/bin/env python3
"""Warms Go's build cache with the harness (the checks build it again)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import shutil, run
r = run.Run('setup', 'quick', 1, 600)
try:
    r.harness('cover')
    r.harness('race')
    r.cljfmt()
finally:
    shutil.rmtree(r.work, ignore_errors=True)
