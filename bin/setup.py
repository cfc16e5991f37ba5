#!/usr/bin/env python3
"""nothing has to be prepared: every check builds what it needs; this only reports that the tools are there"""
import shutil, sys
missing = [t for t in ("clang++-18", "llvm-config-18", "runantlr", "z3") if not shutil.which(t)]
print("missing: %s" % missing if missing else "tools present"); sys.exit(1 if missing else 0)
