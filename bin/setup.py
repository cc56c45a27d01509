#!/usr/bin/env python3
"""Nothing to install: every check compiles its harness from /repo's current tree. Only verifies the toolchain."""
import shutil, sys
miss = [x for x in ("g++", "java") if not shutil.which(x)]
print("setup: " + ("missing " + ", ".join(miss) if miss else "toolchain present"))
sys.exit(1 if miss else 0)
