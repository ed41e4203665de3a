#!/usr/bin/env python3
"""Setup: nothing needs installing; verify that the tools the checks use are there."""
import shutil, sys
missing = [t for t in ("g++", "clang++") if not shutil.which(t)]
if missing:
    sys.exit("missing: " + " ".join(missing))
