#!/usr/bin/env python3
"""Setup: nothing is kept between runs, so this only verifies the toolchain."""
import shutil, subprocess, sys, os
for t in ("cargo", "java"):
    if not shutil.which(t):
        sys.exit("missing " + t)
if not os.path.exists("/opt/veriftools/tla/tla2tools.jar"):
    sys.exit("missing TLC")
subprocess.run(["cargo", "+stable", "--version"], check=True)
