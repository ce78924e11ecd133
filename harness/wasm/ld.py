#!/usr/bin/env python3
"""Linker for wasm32-unknown-emscripten without emscripten: wasm-ld, and what libc would have is imported."""
import os, subprocess, sys

a = sys.argv[1:]
out = a[a.index("-o") + 1]
objs = [x for x in a if x.endswith((".o", ".rlib", ".a"))]
sys.exit(subprocess.call(["wasm-ld", "--no-entry", "--allow-undefined", "--gc-sections", "-z", "stack-size=8388608"]
                         + ["--export=" + f for f in ("prepare", "parts", "run", "families", "one", "text")] + ["-o", out] + objs))
