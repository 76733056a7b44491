#!/usr/bin/env python3
"""Everything is interpreted or rebuilt by the checks from /repo's current
tree; setup only makes sure the tools are there."""
import shutil, sys, os
missing = [t for t in ("java", "g++", "clang++") if not shutil.which(t)]
if not os.path.exists("/opt/veriftools/tla/tla2tools.jar"):
    missing.append("tla2tools.jar")
if missing:
    print("missing:", missing)
    sys.exit(1)
print("ok")
