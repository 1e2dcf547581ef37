#!/usr/bin/env python3
"""Checks that the tools the checks need are present and that the monitors compile against the current tree."""
import os, sys, shutil, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
for t in ("g++", "gcc", "valgrind"):
    if not shutil.which(t):
        sys.exit(f"missing tool: {t}")
tmp = tempfile.mkdtemp(prefix="lgar-setup-")
try:
    check.build("C01", ["plain"], tmp)
finally:
    shutil.rmtree(tmp, ignore_errors=True)
os.makedirs(os.path.join(check.VERIF, "evidence"), exist_ok=True)
print("setup ok")
