#!/usr/bin/env python3
"""Checks that the tools every check needs are present and work; the checks build their harnesses themselves."""
import os, subprocess, sys, tempfile
d = tempfile.mkdtemp(prefix="heu-setup-")
src, exe = d + "/a.cpp", d + "/a"
open(src, "w").write("#include <Eigen/Dense>\n#include <omp.h>\nint main(){return omp_get_max_threads()<1;}\n")
r = subprocess.run(["g++", "-std=c++17", "-fopenmp", "-fsanitize=address,undefined", "-isystem", "/usr/include/eigen3", src, "-o", exe])
ok = r.returncode == 0 and subprocess.run([exe], env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0")).returncode == 0
for f in (src, exe):
    if os.path.exists(f):
        os.remove(f)
os.rmdir(d)
sys.exit(0 if ok else 1)
