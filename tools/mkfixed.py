#!/usr/bin/env python3
"""Prints the fixed: lines for the fix commits in /repo that known-findings.txt does not have yet (run by hand)."""
import subprocess
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout
have = open("/verif/known-findings.txt").read()
for l in log.splitlines():
    h, s = l.split(" ", 1)
    if s.startswith("fix:") and h not in have:
        print(h, s)
