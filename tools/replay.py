#!/usr/bin/env python3-vt
"""replay.py PROP CASE name=value...: runs one case natively with concrete inputs."""
import os, sys, tempfile, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, dse
b = build.build()
root = tempfile.mkdtemp(prefix="sym-")
ok, txt = dse.replay(b["bin"], b["apl"], sys.argv[1], sys.argv[2], {k: int(v, 0) for k, v in (a.split("=") for a in sys.argv[3:])}, root)
shutil.rmtree(root)
print(txt); print("violation confirmed" if ok else "no violation"); sys.exit(1 if ok else 0)
