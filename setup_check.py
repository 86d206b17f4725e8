#!/usr/bin/env python3
"""Checks that the tools the checks need are present; nothing is built here
because every check builds the library from /repo's current tree itself."""
import shutil, sys
missing = [t for t in ("cmake", "ninja", "mpirun", "/usr/bin/clang++") if not shutil.which(t)]
if missing:
    print("missing tools:", missing)
    sys.exit(1)
print("ok")
