#!/usr/bin/env python3
"""mk.py: create a seeded bug. Usage in python: mk(id, prop, file, [(old,new)...], needs, breaks, demo)"""
import json, os, subprocess, sys, tempfile, shutil


def mk(id, prop, edits, needs, breaks, demo):
    d = f'/verif/seeded/{id}'
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix='mk', dir='/tmp')
    subprocess.run(['git', '-C', '/repo', 'worktree', 'prune'])
    subprocess.run(['cp', '-a', '/repo', w + '/repo'], check=True)
    for f, old, new in edits:
        p = f'{w}/repo/{f}'
        s = open(p).read()
        assert s.count(old) == 1, (id, f, s.count(old), old)
        open(p, 'w').write(s.replace(old, new))
    diff = subprocess.run(['git', '-C', w + '/repo', 'diff'], capture_output=True, text=True).stdout
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo.sh', 'w').write('#!/bin/bash\nset -u\nPY=/opt/venv/bin/python; [ -x "$PY" ] || PY=python3\n' + demo)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
    shutil.rmtree(w)
