#!/usr/bin/env python3
"""refrun.py FILE.py [id...] [--only=P,P] [--notest] [-jN]: applies behaviour-preserving edits (a Python file defining
EDITS = [dict(id, edits=[(file, old, new)])]) to scratch clones, confirms that the stable tests still pass and runs every check: all must stay quiet."""
import concurrent.futures, json, multiprocessing, os, re, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
only = [a.split('=')[1].split(',') for a in sys.argv if a.startswith('--only=')]
jobs = int(next((a[2:] for a in sys.argv if a.startswith('-j')), 3))
args = [a for a in sys.argv[1:] if not a.startswith('-')]
ns = {}
exec(open(args[0]).read(), ns)
man = [c['property'] for c in json.load(open(V + '/MANIFEST.json'))['checks']]


def one(s):
    k = multiprocessing.current_process()._identity[0]
    B = '/tmp/refrun%d-%d' % (os.getppid(), k)
    W = B + '/w'
    T, C = B + '/target', B + '/cache'
    out = []
    shutil.rmtree(W, ignore_errors=True)
    shutil.rmtree(C, ignore_errors=True)
    os.makedirs(os.path.dirname(W), exist_ok=True)
    subprocess.run(['git', 'clone', '-q', '/repo', W], check=True)
    shutil.copy('/repo/Cargo.lock', W)
    for f, old, new in s['edits']:
        p = W + '/' + f
        if old is None:
            open(p, 'w').write(new)
            continue
        t = open(p).read()
        if t.count(old) != 1:
            return '%s EDIT DOES NOT APPLY %s %d %s' % (s['id'], f, t.count(old), old[:60])
        open(p, 'w').write(t.replace(old, new))
    if '--notest' not in sys.argv:
        r = subprocess.run('cargo test --workspace --all-features --locked --offline --no-fail-fast -- --test-threads 8', shell=True, cwd=W, env=dict(os.environ, RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_TARGET_DIR=T, CARGO_PROFILE_DEV_DEBUG='line-tables-only'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        n, fails = len(re.findall(r'^test (.*) \.\.\. ok', r.stdout, re.M)), set(re.findall(r'^test (.*) \.\.\. FAILED', r.stdout, re.M))
        if n != 91:
            return '%s TESTS %d %s %s' % (s['id'], n, fails, r.stdout[-1500:] if n == 0 else '')
    r = subprocess.run([sys.executable, V + '/check.py', '--repo', W] + (only[0] if only else man), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=dict(os.environ, STYLISH_SA_CACHE=C))
    v = [l for l in r.stdout.splitlines()]
    bad = [l for i, l in enumerate(v) if l.startswith('VIOLATION') or l.startswith('undecided') or 'Error' in l or i + 1 < len(v) and v[i + 1].startswith('VIOLATION')]
    out.append('%s %s rc=%d' % ('quiet' if r.returncode == 0 and not bad else 'undecided only' if r.returncode == 0 else 'ALARM', s['id'], r.returncode))
    out += ['    ' + l[:330] for l in bad[:14]]
    if r.returncode and not bad:
        out.append(r.stdout[-1500:])
    shutil.rmtree(C, ignore_errors=True)
    return '\n'.join(out)


todo = [s for s in ns['EDITS'] if not args[1:] or s['id'] in args[1:]]
ctx = multiprocessing.get_context('fork')
with concurrent.futures.ProcessPoolExecutor(min(jobs, len(todo)), mp_context=ctx) as ex:
    for f in concurrent.futures.as_completed([ex.submit(one, s) for s in todo]):
        print(f.result(), flush=True)
for i in range(1, jobs + 1):
    shutil.rmtree('/tmp/refrun%d-%d' % (os.getpid(), i), ignore_errors=True)
