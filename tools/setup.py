#!/usr/bin/env python3
"""Nothing needs to be kept between runs: checks that the tools are there and the harness compiles."""
import os, shutil, subprocess, sys, tempfile
here = os.path.dirname(os.path.abspath(__file__))
env = dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local", GOSUMDB="off")
env.setdefault("HOME", "/root")
d = tempfile.mkdtemp()
try:
    for t in ("go", "java"):
        if not shutil.which(t):
            sys.exit("missing tool " + t)
    shutil.copytree(os.path.join(here, "..", "harness"), os.path.join(d, "h"))
    r = subprocess.run(["go", "build", "-o", os.path.join(d, "drive"), "./drive"], cwd=os.path.join(d, "h"), env=env)
    sys.exit(r.returncode)
finally:
    shutil.rmtree(d, ignore_errors=True)
