#!/usr/bin/env python3
"""check.py PROPERTY... [--tier quick|thorough] [--repo DIR] [--keep]

Decides properties of the tree in /repo statically: builds the MIR dumper if needed, dumps
the typed, resolved MIR of the current source, runs the rule of each property over it and
writes evidence/<id>.json.  Exit 0: held on everything analysed; 1: violation (one line
`VIOLATION property=<id> replay=<path>` each)."""
import argparse, fcntl, glob, hashlib, importlib, json, os, shutil, subprocess, sys, tempfile, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'sa'))
sys.dont_write_bytecode = True
RULEMODS = ['r_style', 'r_core', 'r_ansi', 'r_html', 'r_plain', 'r_macros', 'r_api', 'r_state']


def sources(root, skip=('target', '.git', 'seeded', 'evidence', '__pycache__')):
    out = []
    for d, ds, fs in os.walk(root):
        ds[:] = sorted(x for x in ds if x not in skip)
        for f in sorted(fs):
            if f.endswith(('.rs', '.toml', '.lock', '.sh', '.txt', '.html')):
                out.append(os.path.join(d, f))
    return out


def digest(paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode() + b'\0')
        with open(p, 'rb') as f:
            h.update(f.read())
    return h.hexdigest()[:24]


class Env:
    def __init__(self, repo):
        self.repo = repo
        self.key = digest(sources(repo) + sources(os.path.join(HERE, 'engine')) + sources(os.path.join(HERE, 'sa')))
        self.cache = os.path.join(os.environ.get('STYLISH_SA_CACHE', os.path.join(tempfile.gettempdir(), 'stylish-sa')), self.key)
        os.makedirs(self.cache, exist_ok=True)
        self.progs = {}

    def lock(self, name):
        f = open(os.path.join(self.cache, name + '.lock'), 'w')
        fcntl.flock(f, fcntl.LOCK_EX)
        return f

    def engine(self):
        with self.lock('engine'):
            r = subprocess.run(['cargo', '+nightly', 'build', '--release', '--offline', '--quiet'], cwd=os.path.join(HERE, 'engine'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                raise SystemExit('engine does not build:\n' + r.stdout[-4000:])

    def dump(self, crate='/repo', extra='', name='all'):
        """typed MIR of the workspace -> directory"""
        out = os.path.join(self.cache, 'mir-' + name)
        with self.lock('mir-' + name):
            if os.path.exists(os.path.join(out, 'ok')):
                return out
            self.engine()
            shutil.rmtree(out, ignore_errors=True)
            os.makedirs(out)
            tgt = os.path.join(self.cache, 'target-' + name)
            r = subprocess.run([os.path.join(HERE, 'sa', 'dump.sh'), crate, out, tgt] + extra.split(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            shutil.rmtree(tgt, ignore_errors=True)
            if r.returncode:
                raise SystemExit('the tree does not compile:\n' + r.stdout[-4000:])
            open(os.path.join(out, 'ok'), 'w').close()
        return out

    def specimen(self, tier):
        import spec
        sps = spec.specimens(tier, self.dictionary())
        return self.generated('specimen-%s-%s' % (tier, hashlib.sha256(spec.source(sps).encode()).hexdigest()[:12]), sps)

    def dictionary(self):
        import spec
        return spec.dictionary(os.path.join(self.dump(self.repo), 'stylish_macros.json'))

    def generated(self, name, sps):
        """typed MIR of a generated crate of macro invocations -> directory; those that do not compile are listed in `rejected`"""
        import build, spec
        out = os.path.join(self.cache, 'mir-' + name)
        with self.lock('gen'):
            if os.path.exists(os.path.join(out, 'ok')):
                return out
            self.engine()
            shutil.rmtree(out, ignore_errors=True)
            rejected = {}
            for attempt in range(8):
                d = build.crate(self, 'specimen', spec.source(sps))
                r = subprocess.run([os.path.join(HERE, 'sa', 'dump.sh'), d, out, os.path.join(self.cache, 'target-gen'), 'gen'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if not r.returncode:
                    break
                at = spec.lines(sps)
                bad = {at[l].id: m for l, m in build.error_lines(self, 'specimen', spec.source(sps), locked=True).items() if l in at}
                if not bad:
                    raise SystemExit('the specimens do not compile:\n' + r.stdout[-4000:])
                rejected.update(bad)
                sps = [x for x in sps if x.id not in bad]
            json.dump(rejected, open(os.path.join(out, 'rejected'), 'w'))
            open(os.path.join(out, 'ok'), 'w').close()
        return out

    def P(self, crate):
        from core_ai import Prog
        if crate not in self.progs:
            if crate.startswith('specimen'):
                d = self.specimen(crate.split(':')[1])
                self.progs[crate] = Prog(os.path.join(d, 'specimen.json'))
                return self.progs[crate]
            else:
                d = self.dump(self.repo)
            f = os.path.join(d, crate + '.json')
            if not os.path.exists(f):
                from common import Anchor
                raise Anchor('crate %s of the workspace' % crate)
            self.progs[crate] = Prog(f)
        return self.progs[crate]


def known():
    k, f = {}, os.path.join(HERE, 'known_findings.jsonl')
    if os.path.exists(f):
        for l in open(f):
            l = l.strip()
            if l and not l.startswith('fixed:') and not l.startswith('#'):
                d = json.loads(l)
                k[d['key']] = d
    return k


def confirm(rep, prop, fn, env, budget=240):
    """a mismatch seen on a generalised loop state may come from the generalisation: it is reported only if
    it also shows on a path that goes round each loop a bounded number of times"""
    import pickle, select, signal
    from common import Report
    from core_ai import Interp
    t0 = time.time()
    done = 0
    best = {False: 0, True: 0}
    for k, lasso in ((2, False), (4, False), (40, True), (300, True), (1200, True), (8, False), (16, False), (32, False)):
        left = budget - (time.time() - t0)
        if left < 2 or not set(rep.maybe) - set(rep.viol):
            break
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.setpgid(0, 0)
                os.close(r)
                Interp.PRUNE, Interp.LASSO = k, lasso
                sub = Report(prop)
                try:
                    fn(sub, env.P)
                except Exception:
                    pass
                with os.fdopen(w, 'wb') as f:
                    pickle.dump(sub.viol, f)
            finally:
                os._exit(0)
        os.close(w)
        data = b''
        while True:
            left = budget - (time.time() - t0)
            if left <= 0 or not select.select([r], [], [], left)[0]:
                break
            c = os.read(r, 65536)
            if not c:
                break
            data += c
        os.close(r)
        try:
            os.killpg(pid, signal.SIGKILL)
        except OSError:
            pass
        os.waitpid(pid, 0)
        try:
            viol = pickle.loads(data)
        except Exception:
            break
        done = k
        best[lasso] = k
        for x, y in viol.items():
            rep.viol.setdefault(x, y)
        if viol:
            break
    for x, (where, msg) in rep.maybe.items():
        if x not in rep.viol:
            rep.undec(where, '%s (on a generalised loop state; not on any path of up to %d iterations, or of up to %d going the same way)' % (msg, best[False], best[True]))
    rep.notes.append('bounded confirmation up to %d iterations, %d along repeating paths' % (best[False], best[True]))


def run(prop, rules, env, tier, seed, man):
    from common import Report, Anchor, Shape
    t0 = time.time()
    rep = Report(prop)
    fn = rules[prop]
    fn.env = env
    try:
        fn(rep, env.P)
    except Anchor as a:
        rep.bad('anchor', str(a), 'the code the property is about was not found: %s' % a)
    except Shape as a:
        rep.undec('structure', str(a))
    except Exception as x:
        # what was found before the analysis gave up still counts
        traceback.print_exc()
        rep.undec('analysis', '%s: %s in %s' % (type(x).__name__, x, traceback.extract_tb(x.__traceback__)[-1].name))
    if rep.maybe:
        confirm(rep, prop, fn, env)
    kn = known()
    lvl = man.get(prop, {}).get('level', 'other')
    nobl = sum(n for _, n, _ in rep.obl)
    viol = []
    for k, msg in sorted(rep.viol.items()):
        if k in kn:
            print('KNOWN-FINDING: property=%s %s: %s' % (prop, k, kn[k]['what']))
            continue
        rid = hashlib.sha256(k.encode()).hexdigest()[:12]
        rp = os.path.join(HERE, 'evidence', 'replay', '%s-%s.json' % (prop, rid))
        os.makedirs(os.path.dirname(rp), exist_ok=True)
        json.dump({'property': prop, 'key': k, 'message': msg, 'replay': 'python3 check.py %s' % prop}, open(rp, 'w'), indent=1)
        viol.append({'key': k, 'message': msg, 'replay': rp})
        print('%s' % msg)
        print('VIOLATION property=%s replay=%s' % (prop, rp))
    for k, msg in sorted(rep.undecided.items()):
        print('undecided: %s: %s' % (k, msg))
    fs = sorted(rep.stats['functions'])
    cov = {
        'rule': (sys.modules[fn.__module__].__doc__ or '').strip() + ' ' + (fn.__doc__ or '').strip(),
        'obligations': nobl + len(rep.undecided),
        'discharged': nobl - len(rep.viol) if nobl >= len(rep.viol) else 0,
        'undecided': rep.undecided,
        'checker_cmd': 'python3 check.py %s' % prop,
        'trusted_base': ['nightly rustc (macro expansion, type checking, MIR construction)', 'engine/ (MIR dump)', 'sa/core_ai.py (abstract interpreter)', 'sa/models.py (models of std and askama_escape)'],
        'explanation': 'every control-flow path of the analysed entries, partitioned by the facts branches establish; loops to a fixpoint; unresolved trait calls are opaque events',
        'entries': [{'entry': a, 'obligations': n, **k} for a, n, k in rep.obl],
        'functions_analysed': fs, 'partitions': rep.stats['partitions'], 'basic_blocks_executed_abstractly': rep.stats['steps'],
        'opaque_events': rep.stats['events'], 'loop_fixpoints': rep.stats['loops'],
        'samples': rep.samples[:20], 'notes': rep.notes, 'violation_list': viol,
    }
    if lvl == 'translation_validation':
        cov['programs'] = rep.programs
        cov['disagreements_checked'] = nobl
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': lvl, 'coverage': cov, 'wall_s': round(time.time() - t0, 3),
          'assumptions': ['standard-library operations behave as modelled in sa/models.py', 'no undefined behaviour or panics in user-supplied trait implementations'],
          'violations': len(viol)}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, 'evidence', prop + '.json'), 'w'), indent=1, default=str)
    print('%s: %d obligations over %d functions, %d partitions, %d violations, %d undecided (%.1fs)' % (prop, cov['obligations'], len(fs), cov['partitions'], len(viol), len(rep.undecided), ev['wall_s']))
    if nobl == 0 and not viol and not rep.undecided:
        print('no obligation was generated: the rule found nothing to analyse')
        return 2
    return 1 if viol else 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('props', nargs='*')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--repo', default='/repo')
    ap.add_argument('--setup', action='store_true')
    a = ap.parse_args()
    env = Env(a.repo)
    if a.setup:
        env.engine()
        return 0
    rules = {}
    for m in RULEMODS:
        if os.path.exists(os.path.join(HERE, 'sa', m + '.py')):
            rules.update(importlib.import_module(m).RULES)
    man = {}
    mf = os.path.join(HERE, 'MANIFEST.json')
    if os.path.exists(mf):
        man = {c['property']: c for c in json.load(open(mf))['checks']}
    rc = 0
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    for p in a.props or sorted(rules):
        rc = max(rc, run(p, rules, env, a.tier, seed, man))
    return rc


if __name__ == '__main__':
    sys.exit(main())
