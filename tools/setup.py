#!/usr/bin/env python3
"""Checks that the toolchain the monitors need is there (nothing is pre-built: every check builds from /repo's tree)."""
import subprocess, sys
r = subprocess.run(["/usr/bin/clang++-18", "-std=c++20", "-stdlib=libc++", "-fsanitize=address,undefined", "-x", "c++", "-", "-o", "/dev/null"],
                   input="#include <vector>\nint main(){std::vector<int> v(3);return v[0];}\n", text=True)
sys.exit(r.returncode)
