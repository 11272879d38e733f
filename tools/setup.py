#!/usr/bin/env python3
"""Nothing to install: checks build what they need. Makes sure that the tools are there and work."""
import os, subprocess, sys, tempfile
with tempfile.TemporaryDirectory() as d:
    src = os.path.join(d, "t.c")
    with open(src, "w") as f:
        f.write("#include <stdlib.h>\nint main(void) { char* p = malloc(4); p[0] = 1; int r = p[0] - 1; free(p); return r; }\n")
    for san in ("address,undefined", "memory", "thread"):
        exe = os.path.join(d, "t")
        subprocess.run(["clang", "-fsanitize=" + san, src, "-o", exe], check=True)
        subprocess.run([exe], check=True)
print("ok")
