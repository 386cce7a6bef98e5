#!/usr/bin/env python3
"""seedapply.py ID DIR: a clone of /repo in DIR with one of the seeded changes applied"""
import os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = sys.argv[2]
shutil.rmtree(W, ignore_errors=True)
subprocess.run(['git', 'clone', '-q', '/repo', W], check=True)
shutil.copy('/repo/Cargo.lock', W)
subprocess.run(['git', 'apply', V + '/seeded/' + sys.argv[1] + '/patch.diff'], cwd=W, check=True)
