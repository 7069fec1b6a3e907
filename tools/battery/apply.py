#!/usr/bin/env python3
"""apply.py NAME DIR: a scratch copy of /repo with one edit of the battery"""
import sys, os, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import refactors, mutants
name, d = sys.argv[1:3]
for e in [(n, x) for n, _, x in refactors.entries] + [(n, x) for n, _, x in mutants.entries]:
    if e[0] == name:
        shutil.copytree('/repo', d, ignore=shutil.ignore_patterns('.git'), dirs_exist_ok=True)
        for f, old, new in e[1]:
            p = os.path.join(d, f)
            s = open(p).read() if os.path.exists(p) else ''
            open(p, 'w').write(s + new if old == '' else s.replace(old, new))
