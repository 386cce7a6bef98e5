"""M01-M05: the expansion of every specimen (a formatting macro over one format string; the specimens cover the
productions of the documented grammar and their combinations) is analysed on its typed MIR and what it does -
which text it writes, which value it formats through which trait with which flags and style, in which order - is
compared with the meaning the documentation gives to the format string.  What must be rejected is a compile-fail
witness with compiling twins."""
from common import *
from r_core import pointee
import json, os, re
import spec

PROXYW = FMTW + 'write_fmt'
COLOR, INTENSITY = 'stylish_style::Color', 'stylish_style::Intensity'


def utf(s):
    return s if isinstance(s, str) else bytes(s).decode('utf-8', 'backslashreplace')


class SubInterp(Interp):
    """runs one call on top of the frames of an existing state"""

    def __init__(self, p, nat, mon, base):
        super().__init__(p, nat, mon)
        self.base = base

    def ret(self, st, val):
        d = len(st.fr)
        key, body, dest, target, callbb = st.fr.pop()
        for k in [k for k in st.mem if isinstance(k[0], int) and k[0] >= d]:
            del st.mem[k]
        if len(st.fr) == self.base:
            return False
        self.finish_call(st, dest, target, val)
        return True


def subcall(ip, st, fv, args, mon):
    """exits of calling the callable value fv in state st"""
    sub = SubInterp(ip.p, Std(), mon, len(st.fr))

    def make():
        s = st.copy()
        s.tr = ()
        s.nev = st.nev + 1000
        s.vis = dict(st.vis)
        c = {'k': 'virtual', 'tm': FNCALLS[0], 'args': []}
        r = sub.call_closure(s, c, [fv, ('A', 'tuple', 0, tuple(args))], None, None, [0, 0], None)
        if r is NotImplemented:
            raise Unsupported('call of %s' % show(fv))
        return [s] if r is None else r
    sub.run(make)
    return mon.exits, sub


def callables(ip, st, v, depth=4):
    """callable values (closures behind dyn Fn) reachable through a struct or reference"""
    out = []

    def go(v, d):
        if v is None or d < 0:
            return
        if v[0] == 'P' and isinstance(v[3], tuple) and v[3][0] == 'vt':
            if any(m in FNCALLS for m, _ in ip.p._vtn[v[3][1]]['m']):
                if v not in out:
                    out.append(v)
                return
        if v[0] == 'A' and not v[1].startswith('closure:'):
            for x in v[3]:
                if isinstance(x, tuple):
                    go(x, d - 1)
            return
        if v[0] == 'P':
            go(at(ip, st, v), d - 1)
    go(v, depth)
    return out


def formatter_in(ip, st, v, depth=5):
    """the Formatter value reachable through a pointer and the structs around it"""
    while depth and v is not None:
        depth -= 1
        if v[0] == 'A' and v[1] == FORMATTER:
            return v
        if v[0] == 'A':
            for x in v[3]:
                if isinstance(x, tuple) and x[0] in ('P', 'A'):
                    r = formatter_in(ip, st, x, depth)
                    if r is not None:
                        return r
            return None
        n = at(ip, st, v)
        if n == v:
            return None
        v = n
    return None


def designates(ip, st, v, depth=8):
    """the argument a (possibly nested) reference leads to: ('sym', name) or the result of an event"""
    for _ in range(depth):
        if v[0] in ('res',) or v[0] == 'sym':
            return v
        n = at(ip, st, v)
        if n is None or n == v:
            return v
        v = n
    return v


class SpecMon(Mon):
    """records what every output event of an expansion does"""

    def __init__(self, rep, f=('sym', 'arg0')):
        super().__init__(rep)
        self.f = f

    def event(self, ip, st, ev):
        try:
            ev.extra = self.step(ip, st, ev)
        except Unsupported as u:
            ev.extra = ('?', str(u))
        return super().event(ip, st, ev)

    def style(self, ip, st, v):
        sy = Styles(ip.p)
        out = {}
        for k, i in (('fg', sy.fg), ('bg', sy.bg), ('it', sy.it)):
            x = ip.canon(st, fld(v, 0, i))
            if x[0] == 'A':
                out[k] = [w['n'] for w in ip.p.T[tid_of(ip.p, x[1])]['v']][x[2]].lower()
            elif x == ip.canon(st, fld(self.base, 0, i)):
                out[k] = None
            else:
                out[k] = '?' + show(x)
        return out

    def flags(self, ip, st, v):
        """FormatterArgs value -> dict"""
        ff = fields(ip.p, FARGS)
        out = {}
        for n in ('align', 'sign', 'debug_hex', 'width', 'precision'):
            x = ip.canon(st, fld(v, 0, ff[n]))
            d = discr_of(st, x)
            if d is None:
                out[n] = '?'
            elif d == 0:
                out[n] = None
            else:
                y = ip.canon(st, fld(x, 1, 0))
                if n in ('width', 'precision'):
                    y = at(ip, st, y)
                    out[n] = y[1] if y is not None and y[0] == 'i' else '?'
                else:
                    out[n] = [w['n'] for w in ip.p.T[tid_of(ip.p, y[1])]['v']][y[2]] if y[0] == 'A' else '?'
        for n in ('alternate', 'zero'):
            b = ip.decide(st, fld(v, 0, ff[n]))
            out[n] = '?' if b is None else b
        return out

    def step(self, ip, st, ev):
        fm = Fm(ip.p)
        self.base = fm.style(('mem', self.f))
        w0 = fm.write(('mem', self.f))
        if ev.name == SW + 'write_str':
            s = ev.args[1]
            if s[0] != 'S':
                return ('?', 'text %s' % show(s))
            return ('lit', utf(s[1]), self.style(ip, st, ev.args[2]), reaches(ip, st, ev.args[0], w0))
        if ev.name == SW + 'write_char':
            s = ev.args[1]
            if s[0] != 'i':
                return ('?', 'char %s' % show(s))
            return ('lit', chr(s[1]), self.style(ip, st, ev.args[2]), reaches(ip, st, ev.args[0], w0))
        if ev.name in (PROXYW, 'core::fmt::write', 'core::fmt::rt::write'):
            fa = ev.args[1]
            f = formatter_in(ip, st, ev.args[0])
            if f is None:
                return ('?', 'the formatter behind %s' % show(ev.args[0]))
            if fa[0] != 'A' or fa[1] != 'fmtargs':
                return ('?', 'format arguments %s' % show(fa))
            style, okw = self.style(ip, st, fm.style(f)), reaches(ip, st, fm.write(f), w0)
            out = []
            for x in fa[3]:
                if x[0] == 'lit':
                    if x[1]:
                        out.append(('lit', utf(x[1]), style, okw))
                    continue
                _, arg, fl, w, pr = x
                g = flag_word(ip, st, fl, w, pr)
                cs = callables(ip, st, arg[3][0])
                if len(cs) != 1:
                    return ('?', '%d callables behind the value formatted' % len(cs))
                if not (cs[0][0] == 'P'):
                    return ('?', show(cs[0]))
                ex, sub = subcall(ip, st, cs[0], [('sym', 'stdf')], SubMon(self.rep))
                self.rep.add(sub)
                tr = None
                for status, val, s2 in ex:
                    if status != 'return':
                        return ('?' if status == 'unsupported' else 'panic', str(val))
                    if len(s2.tr) != 1:
                        return ('bad', 'formatting a value performs %s' % [y.name for y in s2.tr])
                    e2 = s2.tr[0]
                    if not (ip.same(s2, val, e2.ret) or discr_of(s2, val) is not None and discr_of(s2, val) == discr_of(s2, e2.ret)):
                        return ('bad', 'the result of formatting a value is not the one returned')
                    if strip(e2.args[1]) != ('sym', 'stdf'):
                        return ('bad', 'a value is formatted with another standard formatter')
                    t = (e2.name, e2.extra)
                    if tr is not None and t != tr:
                        return ('?', 'the value formatted depends on a condition')
                    tr = t
                if tr is None:
                    return ('?', 'formatting a value never returns')
                if not tr[0].startswith('core::fmt::') or not tr[0].endswith('::fmt'):
                    return ('bad', 'formatting a value performs %s' % tr[0])
                via = {'new_display': 'Display', 'new_debug': 'Debug'}.get(arg[2], arg[2])
                out.append(('fmt', tr[1], tr[0].split('::')[-2], g, style, okw, via))
            return ('seq', out)
        if ev.name == DISP:
            f = formatter_in(ip, st, ev.args[1])
            if f is None:
                return ('?', 'the formatter of %s' % show(ev.args[1]))
            return ('fmt', designates(ip, st, ev.args[0]), None, self.flags(ip, st, fm.flags(f)), self.style(ip, st, fm.style(f)), reaches(ip, st, fm.write(f), w0), None)
        if ev.name in FNCALLS:
            t = ev.args[1]
            if t[0] == 'A' and len(t[3]) == 1 and t[3][0][0] == 'i':
                return ('eval', t[3][0][1], ev.ret)
            return ('?', 'call of %s' % show(ev.args[0]))
        m = re.fullmatch(r'stylish_(core|ansi|html|plain)::format::format', ev.name)
        if m:
            cs = callables(ip, st, ev.args[0])
            if len(cs) != 1:
                return ('?', '%d callables behind the arguments' % len(cs))
            ex, sub = subcall(ip, st, cs[0], [('sym', 'arg0f')], SpecMon(self.rep, ('sym', 'arg0f')))
            self.rep.add(sub)
            return ('run', ex, sub, m.group(1))
        if ev.name in (SW + 'write_fmt', SIOW + 'write_fmt'):
            cs = callables(ip, st, ev.args[1])
            if len(cs) != 1:
                return ('?', '%d callables behind the arguments' % len(cs))
            if not reaches(ip, st, ev.args[0], ('sym', 'arg0')):
                return ('bad', 'the arguments are written to %s' % show(ev.args[0]))
            ex, sub = subcall(ip, st, cs[0], [('sym', 'arg0f')], SpecMon(self.rep, ('sym', 'arg0f')))
            self.rep.add(sub)
            return ('run', ex, sub, 'io' if ev.name.startswith(SIOW) else 'write')
        return ('other', ev.name)


class SubMon(Mon):
    def event(self, ip, st, ev):
        ev.extra = designates(ip, st, ev.args[0]) if ev.args else None
        return super().event(ip, st, ev)


def flag_word(ip, st, fl, w, pr):
    """formatting options of a compiled format template -> dict"""
    out = dict(align={0: 'Left', 1: 'Right', 2: 'Center', 3: None}[fl >> 29 & 3], sign='Plus' if fl >> 21 & 1 else ('Minus' if fl >> 22 & 1 else None),
               alternate=bool(fl >> 23 & 1), zero=bool(fl >> 24 & 1), debug_hex='Lower' if fl >> 25 & 1 else ('Upper' if fl >> 26 & 1 else None))
    for n, x in (('width', w), ('precision', pr)):
        if x is not None and x[0] == 'A' and x[1] == 'fmtarg' and x[2] == 'from_usize':
            x = pointee(ip, st, x[3][0], x[3][1])
        out[n] = x if x is None else x[1] if x[0] == 'i' else '?' + show(x)
    if fl & 0x1fffff != 0x20:
        out['fill'] = chr(fl & 0x1fffff)
    return out


def flatten(tr):
    out = []
    for ev in tr:
        x = ev.extra
        if x is None:
            out.append(('?', ev.name))
        elif x[0] == 'seq':
            out += x[1]
        else:
            out.append(x)
    m = []
    for x in out:
        if x[0] == 'lit' and m and m[-1][0] == 'lit' and m[-1][2:] == x[2:]:
            m[-1] = ('lit', m[-1][1] + x[1]) + m[-1][2:]
        else:
            m.append(x)
    return m


def spec_text(s):
    """the placeholder a parsed spec came from, for messages"""
    out = {'Left': '<', 'Center': '^', 'Right': '>', None: ''}[s['align']] + {'Plus': '+', 'Minus': '-', None: ''}[s['sign']] + ('#' if s['alternate'] else '') + ('0' if s['zero'] else '')
    out += str(s['width']) if s['width'] is not None else ''
    out += '.%d' % s['precision'] if s['precision'] is not None else ''
    if s['style']:
        out += '(%s)' % ','.join(v if k == 'it' else '%s=%s' % (k, v) for k, v in s['style'].items())
    out += {'Display': '', 'Debug': {None: '?', 'Lower': 'x?', 'Upper': 'X?'}[s['debug_hex']], None: 's'}.get(s['trait']) if s['trait'] in ('Display', 'Debug', None) else [k for k, v in spec.TRAITS.items() if v == s['trait']][0]
    return '{:%s}' % out if out else '{}'


FN = 'the expansion of stylish_macros::format_args'


class Findings:
    """picklable collector with the reporting interface of a Report"""

    def __init__(self):
        self.found = {}
        self.und = {}
        self.n = 0

    def bad(self, prop, clause, where, msg):
        self.found.setdefault((prop, clause, where), msg)


def compare(fd, sp, steps):
    """a successful run of an expansion against its meaning"""
    want = sp.expect()
    src = 'format_args!(%s)' % (sp.lit or spec.rstr(sp.fmt))
    src = src if len(src) < 120 else src[:117] + '...'
    for x in steps:
        if x[0] == '?':
            fd.und['%s in %s' % (x[1][:60], src)] = x[1]
            return
    evals = [x for x in steps if x[0] == 'eval']
    late = any(x[0] == 'eval' for x in steps[next((k for k, x in enumerate(steps) if x[0] != 'eval'), len(steps)):])
    steps = [x for x in steps if x[0] != 'eval']
    if sp.calls:
        n = sp.pos + len(sp.named)
        order = [x[1] for x in evals if x[1] != spec.DST]
        if sp.calls == 'dst' and len(evals) - len(order) != 1:
            fd.bad('M04', 'once', 'destination', '%s!(dst, %s) evaluates the destination %d times' % (sp.macro(), src[12:-1], len(evals) - len(order)))
            return
        ix = sorted(order)
        if ix == list(range(n)) and (order != ix or late):
            fd.bad('M04', 'once', 'late' if late else 'order', '%s: in %s the argument expressions are evaluated %s' % (FN, src, 'after output has begun' if late else 'in the order %s' % order))
            return
        if ix != list(range(n)):
            fd.bad('M04', 'once', '%d arguments evaluated %s' % (n, 'more than once' if len(ix) > len(set(ix)) else 'never'), '%s: in %s the argument expressions are evaluated %s times' % (FN, src, {i: ix.count(i) for i in range(n)}))
            return
    for x in steps:
        if x[0] not in ('lit', 'fmt'):
            fd.bad('M05', 'effect', str(x[1])[:80], '%s: %s does something else than writing text and formatting arguments: %s' % (FN, src, x[1]))
            return
    shape = lambda l: ' '.join('text' if x[0] == 'lit' else 'value' for x in l)
    if [x[0] for x in steps] != [x[0] for x in want]:
        fd.bad('M05', 'order', 'shape', '%s: %s writes %s instead of %s' % (FN, src, shape(steps) or 'nothing', shape(want) or 'nothing'))
        return
    for x, y in zip(steps, want):
        if x[0] == 'lit':
            fd.n += 1
            if x[1] != y[1]:
                c = 'newline' if 'writeln' in sp.kind else 'brace' if '{' in y[1] or '}' in y[1] else 'text'
                fd.bad('M05', 'text', c, '%s: %s writes %r instead of %r' % (FN if 'writeln0' not in sp.kind else 'writeln!', src, x[1], y[1]))
            if any(v is not None for v in x[2].values()):
                fd.bad('M01', 'literal', 'text', '%s: literal text of %s is written in style %s' % (FN, src, x[2]))
            if not x[3]:
                fd.bad('M05', 'stream', 'text', '%s: literal text of %s is written to another stream' % (FN, src))
            continue
        _, v, tr, fl, style, okw, via = x
        _, i, s = y
        fd.n += 1
        ph = spec_text(s)
        n = sp.pos + len(sp.named)
        if i < n and sp.calls:
            wv = [z[2] for z in evals if z[1] == i][0]
        else:
            wv = ('sym', 'arg%d' % (1 + i - (n - 1 if sp.calls else 0)))
        if v != wv:
            fd.bad('M04', 'argument', 'positional' if i < sp.pos else 'named' if i < n else 'scope', '%s: in %s a placeholder formats %s instead of argument %d' % (FN, src, show(v) if isinstance(v, tuple) else v, i))
        if not okw:
            fd.bad('M05', 'stream', 'value', '%s: a value of %s is formatted into another stream' % (FN, src))
        if tr != s['trait']:
            fd.bad('M03', 'trait', str(s['trait']), '%s: %s formats through %s instead of %s' % (FN, ph, tr or 'stylish::Display', s['trait'] or 'stylish::Display'))
        if fl.get('debug_hex') != s['debug_hex']:
            fd.bad('M03', 'debug_hex', '%s %s' % (s['trait'], s['debug_hex']), '%s: %s requests debug-hex %s instead of %s' % (FN, ph, fl.get('debug_hex'), s['debug_hex']))
        for k in ('align', 'sign', 'alternate', 'zero', 'width', 'precision'):
            if fl[k] != s[k]:
                fd.bad('M02', 'flag', '%s %s' % (k, s[k] if k not in ('width', 'precision') else 'present' if s[k] is not None else 'absent'), '%s: %s requests %s=%s instead of %s' % (FN, ph, k, fl[k], s[k]))
        if 'fill' in fl:
            fd.bad('M02', 'flag', 'fill', '%s: %s requests the fill character %r' % (FN, ph, fl['fill']))
        for k in ('fg', 'bg', 'it'):
            w = s['style'].get(k)
            if style[k] != w:
                fd.bad('M01', 'style', '%s %s' % (k, w), '%s: %s in %s asks for %s=%s but the value is formatted with %s' % (FN, ph, src, k, w, '%s=%s' % (k, style[k]) if style[k] else k + ' left as it was'))


def errors(fd, sp, status, val, st, ip):
    """C04: stop at the first failure and return it"""
    src = 'format_args!(%s)' % (sp.lit or spec.rstr(sp.fmt))
    tr = [e for e in st.tr if e.extra is None or e.extra[0] != 'eval']
    for k, ev in enumerate(tr):
        o = outcome(st, ev)
        if o == 'err' and k + 1 < len(tr):
            fd.bad('C04', 'expansion', 'output after failure', '%s: %s goes on with %s after %s failed' % (FN, src[:120], tr[k + 1].name, ev.name))
    last = outcome(st, tr[-1]) if tr else 'ok'
    d = discr_of(st, val)
    if d is None and tr and ip.same(st, val, tr[-1].ret):
        return
    if any(outcome(st, e) == 'err' for e in tr) and d == 0 or d is None or d == 1 and last != 'err' or d == 0 and any(outcome(st, e) != 'ok' for e in tr):
        fd.bad('C04', 'expansion', 'result', '%s: %s returns %s although its operations %s' % (FN, src[:120], ('success', 'failure')[d] if d is not None else show(val), ['%s %s' % (e.name.rsplit('::', 1)[1], outcome(st, e)) for e in tr][-3:]))


def one(p, sp, rep):
    fd = Findings()
    e = entry(p, path='specimen::' + sp.id)
    ip, exits = explore(rep, p, e, mon=SpecMon(rep))

    def handle(ip, exits, top):
        good = 0
        for status, val, st in exits:
            if status == 'unsupported':
                fd.und['%s in %s' % (val[:60], sp.fmt[:60])] = val
                continue
            if status == 'panic':
                fd.bad('M05', 'panic', val[:60], '%s: format_args!(%s) can panic: %s' % (FN, sp.lit or spec.rstr(sp.fmt), val))
                continue
            runs = [x for x in st.tr if x.extra and x.extra[0] == 'run']
            if runs:
                if len(st.tr) != 1 + len([x for x in st.tr if x.extra and x.extra[0] == 'eval']):
                    fd.bad('M05', 'effect', 'write', '%s: %s also performs %s' % (FN, sp.fmt, [x.name for x in st.tr]))
                how = sp.kind[3:] if sp.kind.startswith('fmt') else 'io' if sp.kind.startswith('io_') else 'write'
                if runs[0].extra[3] != how:
                    fd.bad('M05', 'effect', how, '%s: %s of format %r calls %s' % (FN, how, sp.fmt, runs[0].name))
                if not top or runs[0].ret is None or not (ip.same(st, val, runs[0].ret) or discr_of(st, val) == discr_of(st, runs[0].ret)):
                    fd.bad('C04', 'expansion', 'write', 'write! does not return the result of writing')
                ev = [x.extra for x in st.tr if x.extra and x.extra[0] == 'eval']
                if sp.calls == 'dst' and sum(x[1] == spec.DST for x in ev) != 1:
                    fd.bad('M04', 'once', 'destination', '%s!(dst%s) evaluates the destination %d times' % (sp.macro(), ', ' + spec.rstr(sp.fmt) if sp.fmt else '', sum(x[1] == spec.DST for x in ev)))
                if top and good == 0:
                    handle2(runs[0].extra[2], runs[0].extra[1], ev)
                good += 1
                continue
            errors(fd, sp, status, val, st, ip)
            d = discr_of(st, val)
            tail = [x for x in st.tr if x.extra is None or x.extra[0] != 'eval']
            if d == 0 or d is None and tail and ip.same(st, val, tail[-1].ret):
                good += 1
                compare(fd, sp, flatten(st.tr))
        if not good and not fd.und and not fd.found:
            fd.bad('M05', 'order', 'never', '%s: %s never succeeds' % (FN, sp.fmt))

    def handle2(ip, exits, evals):
        n = 0
        for status, val, st in exits:
            if status != 'return':
                fd.und['%s in %s' % (str(val)[:60], sp.fmt[:60])] = str(val)
                continue
            errors(fd, sp, status, val, st, ip)
            d = discr_of(st, val)
            if d == 0 or d is None and st.tr and ip.same(st, val, st.tr[-1].ret):
                n += 1
                compare(fd, sp, evals + flatten(st.tr))
    handle(ip, exits, True)
    return fd


_memo, _samples = {}, {}


def spread(p, sps):
    """the specimens analysed on all cores -> [(findings, statistics)]"""
    import os
    from concurrent.futures import ProcessPoolExecutor
    import multiprocessing as mp
    global _job
    _job = (p, sps)
    n = max(1, min(8, os.cpu_count() or 1))
    with ProcessPoolExecutor(n, mp_context=mp.get_context('fork')) as ex:
        return list(ex.map(_part, [list(range(i, len(sps), n * 4)) for i in range(n * 4)]))


def examine(rep, P, fn, props=None):
    """all specimens -> merged findings; also reports what was analysed"""
    import os
    tier = os.environ.get('VERIF_TIER', 'quick')
    k = (id(P), tier)
    if k not in _memo:
        p = P('specimen:' + tier)
        rejected = json.load(open(os.path.join(os.path.dirname(p.file), 'rejected')))
        sps = spec.specimens(tier, fn.env.dictionary())
        gone = Findings()
        bad = [s for s in sps if s.id in rejected]
        for s in [s for s in bad if len(s.props) == 1] or bad:
            w = '%s!(%s)' % (s.macro(), s.lit or spec.rstr(s.fmt))
            gone.bad(s.props[0], 'rejects', s.fmt[:60], '%s: %s is rejected: %s' % (FN, w[:160], rejected[s.id]))
        gone.cnt = len(bad)
        for s in sps:
            for pr in s.props:
                l = _samples.setdefault(pr, [])
                if len(s.fmt) < 100 and (not l or len(l) < 12 and int(s.id[1:]) % 17 == 0):
                    l.append({'invocation': '%s!(%s)' % (s.macro(), s.lit or spec.rstr(s.fmt)), 'meaning': [repr(x) for x in s.expect()]})
        sps = [s for s in sps if s.id not in rejected]
        _memo[k] = [(gone, dict(partitions=0, steps=0, events=0, loops=0, functions=set()))] + spread(p, sps)
    fds = []
    for fd, stats in _memo[k]:
        for a in ('partitions', 'steps', 'events', 'loops'):
            rep.stats[a] += stats[a]
        rep.stats['functions'] |= stats['functions']
        fds.append(fd)
    return fds


def _part(ix):
    p, sps = _job
    rep = Report('x')
    tot = Findings()
    cnt = 0
    for i in ix:
        fd = one(p, sps[i], rep)
        tot.found.update({k: v for k, v in fd.found.items() if k not in tot.found})
        tot.und.update(fd.und)
        tot.n += fd.n
        cnt += 1
    tot.cnt = cnt
    for k, v in rep.undecided.items():
        tot.und.setdefault(k, v)
    return tot, rep.stats


def report(rep, P, prop, fn):
    fds = examine(rep, P, fn)
    for fd in fds:
        for (pr, c, w), m in sorted(fd.found.items()):
            if pr == prop:
                rep.bad(c, w, m)
        for k, v in fd.und.items():
            rep.undec(k, v)
    rep.programs += sum(fd.cnt for fd in fds)
    rep.samples += _samples.get(prop, [])
    rep.did('specimen expansions (%d placeholders and literals compared)' % sum(fd.cnt for fd in fds), sum(fd.n for fd in fds))


def m01(rep, P):
    """every colour and intensity keyword in either plane, alone, in every pair and in longer lists, on top of a symbolic style"""
    report(rep, P, 'M01', m01)


def m02(rep, P):
    """every combination of alignment, sign, alternate, zero, with width and precision absent and present, on every trait; what is unsupported or out of order must not compile"""
    report(rep, P, 'M02', m02)
    witnesses(rep, 'M02', m02)


def m03(rep, P):
    """every selector, alone and behind every kind of flag; unknown selectors must not compile"""
    report(rep, P, 'M03', m03)
    witnesses(rep, 'M03', m03)


def m04(rep, P):
    """implicit, numbered, named and captured arguments in mixed order; argument expressions evaluated exactly once; missing, unused and duplicate arguments must not compile"""
    report(rep, P, 'M04', m04)
    witnesses(rep, 'M04', m04)


def m05(rep, P):
    """literal text with escapes at every position, order with the placeholders, the newline macros; malformed strings must not compile"""
    report(rep, P, 'M05', m05)
    witnesses(rep, 'M05', m05)


def witnesses(rep, prop, fn):
    """compile-fail witnesses: one invocation per line; every line must be in error, the twins must not"""
    import build
    R = [x for x in spec.rejects(os.environ.get('VERIF_TIER', 'quick'), fn.env.dictionary()) if x[0] == prop]
    late = [x for x in R if 'nonexistent' in x[2]]
    twin = 'pub fn t%d() { let _ = |w: &mut stylish::Formatter<\'_>| stylish::Display::fmt(&stylish::format_args!("{} {a:?}", 1, a = 2), w); }'
    line = 'pub fn f%d() { let _ = |w: &mut stylish::Formatter<\'_>| stylish::Display::fmt(&stylish::format_args!(%s), w); }'
    group = [x for x in R if x not in late]
    lines = ['#![allow(warnings)]', twin % 0] + [line % (i, a) for i, (_, w, a) in enumerate(group)] + [twin % 1]
    bad = build.error_lines(fn.env, 'witness', '\n'.join(lines) + '\n')
    for n in (2, len(lines)):
        if n in bad:
            rep.bad('twin', 'witness', 'a well-formed format_args! no longer compiles: %s' % bad[n])
            return
    for i, (_, w, a) in enumerate(group):
        if i + 3 not in bad:
            rep.bad('accepts', w, 'stylish_macros::format_args accepts %s: format_args!(%s)' % (w, a))
    for i, (_, w, a) in enumerate(late):
        okc, msgs, _ = build.messages(fn.env, 'witness', '#![allow(warnings)]\n' + line % (i, a) + '\n')
        if okc:
            rep.bad('accepts', w, 'stylish_macros::format_args accepts %s: format_args!(%s)' % (w, a))
    rep.did('compile-fail witnesses', len(R))


RULES = {'M01': m01, 'M02': m02, 'M03': m03, 'M04': m04, 'M05': m05}
