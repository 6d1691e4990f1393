#!/usr/bin/env python3
"""Checks that the toolchain is there: g++, javac, TLC.  Nothing is kept: every check
builds its driver from /repo's working tree and compiles the TLC module override itself."""
import os, subprocess, sys, tempfile, shutil
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import vf
d = os.path.join(V, "build"); os.makedirs(d, exist_ok=True)
c = vf.Ctx("P00", "quick", 1); c.work = tempfile.mkdtemp(dir=d)
try:
    c.classes()
    c.tlc("GenCatalogue", {"VF_OUT": c.path("catalogue.json")})
    for t in ("g++",): subprocess.run([t, "--version"], check=True, stdout=subprocess.DEVNULL)
finally: shutil.rmtree(c.work, ignore_errors=True)
print("ok")
