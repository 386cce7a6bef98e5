#!/usr/bin/env python3
"""refapply.py FILE.py id DIR: a clone of /repo in DIR with one of the edits applied"""
import os, shutil, subprocess, sys
ns = {}
exec(open(sys.argv[1]).read(), ns)
W = sys.argv[3]
shutil.rmtree(W, ignore_errors=True)
subprocess.run(['git', 'clone', '-q', '/repo', W], check=True)
shutil.copy('/repo/Cargo.lock', W)
for s in ns['EDITS']:
    if s['id'] == sys.argv[2]:
        for f, old, new in s['edits']:
            p = W + '/' + f
            if old is None:
                open(p, 'w').write(new)
                continue
            t = open(p).read()
            assert t.count(old) == 1, (f, t.count(old), old[:80])
            open(p, 'w').write(t.replace(old, new))
