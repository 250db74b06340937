#!/usr/bin/env python3
"""Checks that what the framework needs is there and that the specification parses."""
import glob, os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check

jars = check.library_jars()
for tool in ("javac", "java"):
    assert os.path.exists(check.java(tool)), tool
spec = os.path.join(check.VERIF, "spec")
mods = sorted(os.path.basename(m) for m in glob.glob(spec + "/*.tla"))
p = subprocess.run([check.java("java"), "-cp", check.TLA_JARS, "tla2sany.SANY"] + mods, cwd=spec, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
bad = p.returncode or "*** Errors" in p.stdout or "Fatal" in p.stdout
print(f"{len(jars)} libraries, {len(mods)} modules: {'broken' if bad else 'ready'}")
if bad:
    print(p.stdout[-3000:])
sys.exit(1 if bad else 0)
