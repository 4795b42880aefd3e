#!/usr/bin/env python3
"""Adds a 'fixed:' line: fixed.py <property> <subject substring> <what failed>"""
import subprocess
import sys

prop, subject, what = sys.argv[1:]
log = subprocess.run(['git', '-C', '/repo', 'log', '--format=%h %s'], capture_output=True, text=True).stdout.splitlines()
hits = [line.split()[0] for line in log if subject in line]
assert len(hits) == 1, hits
with open('/verif/known_findings.txt', 'a') as file:
    file.write(f"fixed: property={prop} {hits[0]} {what}\n")
