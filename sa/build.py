"""Compilation of generated witness and specimen crates against the tree under analysis."""
import contextlib, json, os, shutil, subprocess

HERE = os.path.dirname(os.path.abspath(__file__))


def crate(env, name, src, features='"ansi", "html", "plain"', deps='', extra_files=None):
    """writes a crate depending on the analysed tree; returns its directory"""
    d = os.path.join(env.cache, 'crate-' + name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d + '/src')
    open(d + '/src/lib.rs', 'w').write(src)
    for f, t in (extra_files or {}).items():
        open(os.path.join(d, f), 'w').write(t)
    open(d + '/Cargo.toml', 'w').write('[package]\nname = "%s"\nversion = "0.0.0"\nedition = "2021"\n[workspace]\n[dependencies]\n%s\n' % (name, deps or 'stylish = { path = "%s", features = [%s] }' % (env.repo, features)))
    if os.path.exists(env.repo + '/Cargo.lock'):
        shutil.copy(env.repo + '/Cargo.lock', d)
    return d


def environ(env):
    return dict(os.environ, RUSTFLAGS='-Zalways-encode-mir -Zmir-opt-level=0 -Awarnings', CARGO_TARGET_DIR=os.path.join(env.cache, 'target-gen'), CARGO_INCREMENTAL='0', CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never')


def messages(env, name, src, locked=False, **kw):
    """(compiled?, error messages of the crate itself, raw stderr)"""
    with contextlib.nullcontext() if locked else env.lock('gen'):
        d = crate(env, name, src, **kw)
        r = subprocess.run(['cargo', '+nightly', 'check', '--offline', '--quiet', '--message-format=json'], cwd=d, env=environ(env), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    out, own = [], False
    for l in r.stdout.splitlines():
        try:
            m = json.loads(l)
        except ValueError:
            continue
        if m.get('reason') == 'compiler-message' and m['message']['level'].startswith('error'):
            if m['target']['name'].replace('-', '_') == name.replace('-', '_'):
                out.append(m['message'])
            else:
                raise SystemExit('the tree does not compile:\n' + (m['message'].get('rendered') or '')[:4000])
    if r.returncode and not out:
        raise SystemExit('cargo check of the generated crate %s failed:\n%s' % (name, r.stderr[-3000:]))
    return r.returncode == 0, out, r.stderr


def line_of(span, file='src/lib.rs'):
    """line in the generated file a span leads to through macro expansions"""
    while span is not None:
        if span['file_name'] == file or span['file_name'].endswith('/' + file) and '/crate-' in span['file_name']:
            if not span.get('expansion') or span['expansion']['span']['file_name'] != span['file_name']:
                return span['line_start']
        span = span['expansion']['span'] if span.get('expansion') else None
    return None


def error_lines(env, name, src, codes=False, **kw):
    """{line: message} of the errors in a generated crate"""
    okc, msgs, _ = messages(env, name, src, **kw)
    out = {}
    for m in msgs:
        for sp in m['spans']:
            if sp['is_primary']:
                l = line_of(sp)
                if l is not None:
                    t = ((m.get('code') or {}).get('code') or '', m['message'])
                    out.setdefault(l, t if codes else m['message'])
    return out
