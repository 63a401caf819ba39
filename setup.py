#!/usr/bin/env python3
"""Setup: checks that the toolchain is there and warms the Go build cache by
building the driver once. The checks build again what they need from /repo."""
import os, subprocess, sys, tempfile, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
work = tempfile.mkdtemp(prefix="verif-setup-")
try:
    check.build(check.go_env(), work, {})
    subprocess.run(["java", "-version"], check=True, capture_output=True)
finally:
    shutil.rmtree(work, ignore_errors=True)
print("setup: ok")
