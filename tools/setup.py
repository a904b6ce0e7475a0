#!/usr/bin/env python3
"""Builds every harness package once (and so fills the build cache) from /repo's working tree."""
import os, shutil, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import check
work = tempfile.mkdtemp(prefix="verif-setup-")
try:
    for pkg, race in sorted({(c["pkg"], r) for c in check.CHECKS.values() for r in {False, c["race"]}}):
        check.build(pkg, race, work)
        print("built", pkg, "race" if race else "")
    if any(c["bins"] for c in check.CHECKS.values()):
        check.build_bins(work)
        print("built the services")
finally:
    shutil.rmtree(work, ignore_errors=True)
