#!/usr/bin/env python3
"""Sanity of the toolchain the checks need (nothing is prebuilt: every check builds its harness from /repo)."""
import subprocess, sys, tempfile, os
with tempfile.TemporaryDirectory() as d:
    s = os.path.join(d, "a.cpp"); open(s, "w").write("#include <vector>\nint main(){return std::vector<int>(3).size()==3?0:1;}\n")
    subprocess.check_call(["g++", "-std=c++14", "-fsanitize=address", s, "-o", os.path.join(d, "a")])
    sys.exit(subprocess.call([os.path.join(d, "a")]))
