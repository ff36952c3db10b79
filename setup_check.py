#!/usr/bin/env python3
"""setup: nothing to build; make sure that the analysers are there"""
import os, sys
for p in ("/usr/bin/frama-c", "/usr/bin/clang-18", "/usr/lib/llvm-18/bin/llvm-nm", "/usr/lib/llvm-18/bin/opt"):
    if not os.path.exists(p): sys.exit("missing " + p)
print("ok")
