#!/usr/bin/env python3
"""Appends a fixed: line to known_findings.txt for each fix: commit in /repo that is not listed yet.
usage: gen_fixed.py commit=P01,... (pairs)"""
import subprocess, sys, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); F = os.path.join(HERE, "known_findings.txt")
t = open(F).read()
for a in sys.argv[1:]:
    c, p = a.split("=")
    s = subprocess.check_output(["git", "-C", "/repo", "log", "-1", "--format=%s", c], text=True).strip()[5:]
    if c in t: continue
    open(F, "a").write("fixed: property=%s %s %s\n" % (p, c, s))
