#!/usr/bin/env python3
"""Checks that the toolchain works: builds the driver once and parses the specification."""
from hv import *
build("c"); build("cxx")
for m in ("Trace.tla", "Life.tla", "Twin.tla", "MCCore.tla", "MCProc.tla", "MCAlg.tla", "MCNum.tla", "MCCxx.tla", "GenCxx.tla", "GenCore.tla", "GenProc.tla"):
    p = subprocess.run(["java", "-cp", JAR + ":/opt/veriftools/tla/CommunityModules-deps.jar", "tla2sany.SANY", m], cwd=SPEC, capture_output=True, text=True)
    if p.returncode != 0 or "Semantic errors" in p.stdout: print(p.stdout[-3000:]); sys.exit(1)
print("ok")
