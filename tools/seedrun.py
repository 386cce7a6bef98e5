#!/usr/bin/env python3
"""seedrun.py [ID...|all] [--all-checks]: applies each seeded change to a scratch copy of /repo and runs the
check of its property (or every check) against the copy; prints caught / MISSED."""
import json, os, shutil, subprocess, sys, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = '/tmp/seedrun%d' % os.getpid()
allc = '--all-checks' in sys.argv
ids = [a for a in sys.argv[1:] if not a.startswith('-')]
if not ids or ids == ['all']:
    ids = sorted(os.path.basename(d) for d in glob.glob(V + '/seeded/*'))
man = [c['property'] for c in json.load(open(V + '/MANIFEST.json'))['checks']]
for i in ids:
    d = V + '/seeded/' + i
    m = json.load(open(d + '/meta.json'))
    shutil.rmtree(W, ignore_errors=True)
    subprocess.run(['git', 'clone', '-q', '/repo', W], check=True)
    if os.path.exists('/repo/Cargo.lock'):
        shutil.copy('/repo/Cargo.lock', W)
    subprocess.run(['git', 'apply', d + '/patch.diff'], cwd=W, check=True)
    r = subprocess.run([sys.executable, V + '/check.py', '--repo', W] + (man if allc else [m['property']]), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=dict(os.environ, STYLISH_SA_CACHE=W + '-cache'))
    viol = sorted({l.split('property=')[1].split()[0] for l in r.stdout.splitlines() if l.startswith('VIOLATION')})
    print(('caught' if m['property'] in viol else 'MISSED'), i, m['property'], viol, 'rc=%d' % r.returncode)
    for l in r.stdout.splitlines():
        if not l.startswith('VIOLATION') and not l.startswith('undecided') and (m['property'] not in viol or True):
            print('    ' + l[:260])
            break
    if 'undecided' in r.stdout:
        print('    undecided:', r.stdout.count('undecided:'))
    sys.stdout.flush()
    shutil.rmtree(W + '-cache', ignore_errors=True)
shutil.rmtree(W, ignore_errors=True)
