#!/usr/bin/env python3
"""mkseed.py FILE.py [id...]: builds /verif/seeded/<id>/ from descriptions (a Python file defining
SEEDS), confirming in a scratch copy that the patch builds, keeps the stable tests passing, and that
the demonstration passes without and fails with it.

A seed: dict(id, property, edits=[(file, old, new)], needs, breaks, main=<rust demo> | script=<bash demo>)"""
import json, os, re, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = '/tmp/seedwork'
R = W + '/repo'
ENV = dict(os.environ, RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', RUST_BACKTRACE='0', CARGO_TARGET_DIR=W + '/target', CARGO_PROFILE_DEV_DEBUG='line-tables-only')
DEMO = '''#!/bin/bash
# run with cwd = the repository; builds and runs main.rs (beside this file) against it
H=$(cd "$(dirname "$0")" && pwd)
R=$PWD
D=$(mktemp -d /tmp/seed-demo.XXXXXXXX) || exit 3
trap 'rm -rf "$D"' EXIT
mkdir -p "$D/src"
cp "$H/main.rs" "$D/src/main.rs"
cp "$R/Cargo.lock" "$D/Cargo.lock" 2>/dev/null
cat > "$D/Cargo.toml" <<EOF
[package]
name = "seed-demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
stylish = { path = "$R", features = ["ansi", "html", "plain"] }
EOF
cd "$D" || exit 3
export CARGO_TARGET_DIR="$D/target" CARGO_NET_OFFLINE=true
exec_ok() { timeout 250 cargo run --offline --quiet; }
exec_ok
'''


def sh(cmd, cwd=R, env=ENV, t=900):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)


def tests():
    r = sh('cargo test --workspace --all-features --locked --offline --no-fail-fast -- --test-threads 8')
    fails = set(re.findall(r'^test (.*) \.\.\. FAILED', r.stdout, re.M))
    n = len(re.findall(r'^test (.*) \.\.\. ok', r.stdout, re.M))
    return n, fails, r.stdout


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    only = sys.argv[2:]
    if not os.path.exists(R):
        os.makedirs(W, exist_ok=True)
        sh('git clone -q /repo ' + R, cwd='/tmp')
        sh('cp /repo/Cargo.lock . 2>/dev/null; true')
    sh('git fetch -q && git reset -q --hard origin/HEAD && git clean -fdq -e Cargo.lock')
    sh('cp /repo/Cargo.lock . 2>/dev/null; true')
    base = None
    for s in ns['SEEDS']:
        if only and s['id'] not in only:
            continue
        sh('git checkout -q -- .')
        if base is None:
            base = tests()
            print('base: %d ok, failing %s' % (base[0], base[1]))
        for f, old, new in s['edits']:
            t = open(R + '/' + f).read()
            if t.count(old) != 1:
                print(s['id'], 'EDIT DOES NOT APPLY', f, t.count(old))
                break
            open(R + '/' + f, 'w').write(t.replace(old, new))
        else:
            d = V + '/seeded/' + s['id']
            diff = sh('git diff').stdout
            n, fails, out = tests()
            if n != base[0] or fails != base[1]:
                print(s['id'], 'TESTS CHANGE: %d ok, failing %s' % (n, fails), out[-1500:] if n == 0 else '')
                sh('git checkout -q -- .')
                continue
            os.makedirs(d, exist_ok=True)
            open(d + '/patch.diff', 'w').write(diff)
            if 'main' in s:
                open(d + '/main.rs', 'w').write(s['main'])
                open(d + '/demo.sh', 'w').write(DEMO)
            else:
                open(d + '/demo.sh', 'w').write(s['script'])
                for k, v in s.get('files', {}).items():
                    open(d + '/' + k, 'w').write(v)
            os.chmod(d + '/demo.sh', 0o755)
            json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
            env = {k: v for k, v in ENV.items() if k != 'CARGO_TARGET_DIR'}
            r1 = sh('bash %s/demo.sh' % d, env=env)
            sh('git checkout -q -- .')
            r0 = sh('bash %s/demo.sh' % d, env=env)
            ok = r0.returncode == 0 and r1.returncode not in (0, 124)
            print(s['id'], 'OK' if ok else 'DEMO WRONG', r0.returncode, r1.returncode, r1.stdout.strip().split('\n')[-3:] if ok else (r0.stdout[-800:], r1.stdout[-800:]))
            if not ok:
                shutil.rmtree(d)
        sh('git checkout -q -- .')


main()
