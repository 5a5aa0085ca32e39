#!/usr/bin/env python3
"""Builds what the checks share and makes sure that the tools are there."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import vp
for v in ("plain", "asan"):
    print(v, sorted(vp.build(v)))
import sitelib
print(sitelib.stub())
r = vp.tlc("MCTemplate.tla", "MCTemplate2.cfg")
print("TLC: %d states" % r.states)
sys.exit(0 if r.ok else 1)
