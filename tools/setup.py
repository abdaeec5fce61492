#!/usr/bin/env python3
"""Builds the library flavours and all harness binaries (also done, incrementally, by each check)."""
import glob, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.path.insert(0, V + "/tools")
import build, run
for f in sorted(glob.glob(V + "/harness/p_C*.cc")):
    pid = os.path.basename(f)[2:-3]
    print(build.build_bin(run.FLAVOUR.get(pid, "fast"), os.path.basename(f)), flush=True)
