"""Shared by the ANSI, HTML and plain rules: the adaptors, their output events and failures."""
from common import *
import itertools

CORE = 'stylish_core'
SWT, SIOT = 'stylish_core::write::Write', 'stylish_core::io::Write'
a0, a1, a2 = ('sym', 'arg0'), ('sym', 'arg1'), ('sym', 'arg2')
TAG = lambda s: ('S', s.encode(), '')
ALSTR = 'alloc::string::String'


def adaptor(q, short, io):
    """public adaptor type by its short name, independent of the modules it lives in"""
    c = sorted({t['path'] for t in q.T if t['k'] == 'adt' and t.get('v') and t['path'].split('::')[0] == q.name and t['path'].split('::')[-1] == short})
    c = [x for x in c if entries(q, selfp=x, trait=SIOT if io else SWT)]
    if len(c) != 1:
        raise Anchor('%s: adaptor %s%s' % (q.name, 'io::' if io else '', short))
    return c[0]


class Adaptor:
    def __init__(self, q, short, io):
        self.q, self.io = q, io
        self.path = adaptor(q, short, io)
        self.inner = one_field(q, self.path, lambda t, i: t['k'] == 'param', 'the wrapped stream')
        st = fidx(q, self.path, lambda t, i: t.get('path') == STYLE)
        self.cur = st[0] if len(st) == 1 else None
        self.nstyles = len(st)
        self.trait = SIOT if io else SWT
        self.pre = IOW if io else FMTW
        self.me = ('mem', a0)
        self.nf = len(q.T[tid_of(q, self.path)]['v'][0]['f'])

    def writes(self):
        """the writing methods the adaptor implements: (entry, expected text)"""
        out = []
        for e in entries(self.q, selfp=self.path, trait=self.trait):
            if e['name'] in ('write_str', 'write', 'write_all'):
                out.append((e, a1))
            elif e['name'] == 'write_char':
                out.append((e, ('op', 'utf8', a1)))
        if not out:
            raise Anchor('%s: writing methods' % self.path)
        return out

    def current(self, v):
        return fld(v, 0, self.cur)


def mentions(q, t, pred, seen=None, inside=None):
    """a type (through references, tuples, generic arguments and, if inside(type), fields) contains one satisfying pred"""
    seen = set() if seen is None else seen
    if t in seen or not isinstance(t, int):
        return False
    seen.add(t)
    T = q.T[t]
    if pred(T):
        return True
    sub = []
    if T['k'] in ('ref', 'slice', 'array', 'ptr'):
        sub = [T['t']]
    elif T['k'] == 'tuple' or T['k'] == 'closure':
        sub = T.get('f', [])
    elif T['k'] == 'adt':
        if inside is not None and not inside(T):
            return False
        sub = list(T.get('args', []))
        for v in T.get('v', []):
            sub += [f[1] for f in v['f']]
    return any(mentions(q, x, pred, seen, inside) for x in sub)


def gives_stream(q, ad, e):
    """the type an entry returns contains the type of the stream other than inside the adaptor"""
    ps = set()
    for i in e['ins']:
        mentions(q, i, lambda T: T['k'] == 'adt' and T['path'] == ad.path and [ps.add(q.T[a].get('name')) for a in T['args'] if isinstance(a, int) and q.T[a]['k'] == 'param'] and False)
    return bool(ps) and mentions(q, e['out'], lambda T: T['k'] == 'param' and T.get('name') in ps, None, lambda T: T['path'] != ad.path)


def finishers(q, ad):
    """methods that consume the adaptor and give its stream"""
    out = [e for e in q.entries if e['pub'] and e['ins'] and q.T[e['ins'][0]].get('path') == ad.path and gives_stream(q, ad, e)]
    if not any(e['name'] == 'finish' for e in out):
        raise Anchor('%s: finish' % ad.path)
    return out


def recv_is_string(ip, ev):
    tys = ev.tys or []
    if not tys:
        return False
    t = ip.T[tys[0]]
    while t['k'] == 'ref':
        t = ip.T[t['t']]
    return t.get('path') in (ALSTR, 'alloc::vec::Vec')


class OutMon(Mon):
    """follows what is handed to the wrapped stream.  Every output is forked into success and
    failure; the subclass consumes the pieces of successful outputs (feed) and decides at the
    exits (finish).  ghost: 'bad' = UNIT or what kind of output failed, 'ret' = its result"""

    def __init__(self, rep, e, ad):
        super().__init__(rep)
        self.e, self.ad = e, ad

    def bad(self, prop, clause, msg):
        if prop == self.rep.prop:
            self.rep.bad(clause, fn_name(self.e), msg)

    def event(self, ip, st, ev):
        return super().event(ip, st, ev)

    def on_event(self, ip, st, ev):
        if ev.name.startswith((FMTW, IOW)) and recv_is_string(ip, ev):
            return None
        if not ev.name.startswith(self.ad.pre) and not ev.name.startswith('askama_escape::Escaper::'):
            self.other(ip, st, ev)
            return None
        if ev.name.endswith('::flush'):
            return None
        if st.ghost['bad'] != UNIT:
            self.after_failure(ip, st, ev)
            return None
        pcs = pieces(ip, st, ev)
        kind = self.kind(ip, st, ev, pcs)
        out = []
        for s2 in ip.split_assume(st.copy(), ('op', 'Eq', ('discr', ev.ret), I(0)), True):
            self.rep.cur = s2
            for s3 in self.feed(ip, s2, ev, pcs) or [s2]:
                out.append((s3, ev.ret))
        for s2 in ip.split_assume(st.copy(), ('op', 'Eq', ('discr', ev.ret), I(0)), False):
            s2.ghost['bad'] = TAG(kind)
            s2.ghost['ret'] = ev.ret
            s2.ghost['failed'] = ('ev', ev.n)
            out.append((s2, ev.ret))
        return out

    def other(self, ip, st, ev):
        self.rep.undec(fn_name(self.e), 'calls %s' % ev.name)

    def after_failure(self, ip, st, ev):
        pass

    def kind(self, ip, st, ev, pcs):
        if pcs is None:
            return 'unknown'
        ks = {x[0] for x in pcs}
        if ks <= {'const'}:
            return 'const'
        return 'mixed' if 'const' in ks else 'text'


def styles_of(S_):
    for f, b, i in itertools.product(S_.colors, S_.colors, S_.ints):
        v = [None] * S_.n
        v[S_.fg], v[S_.bg], v[S_.it] = S_.color(f), S_.color(b), S_.inten(i)
        yield ('A', STYLE, 0, tuple(v))


def run_all(rep, p, e, mon, argsets, ghost_of, check, me=None):
    """explore e for every argument tuple; check(ip, st, val, status) on normal and panic exits; me(args): what the receiver is"""
    def part(sets):
        ip = Interp(p, Std(), mon, maxpaths=400000, maxsteps=60000000)

        def begin(a):
            st = ip.start(e['key'], list(a[:len(e['ins'])]), ghost_of(a))
            if me is not None:
                ip.store(st, ip.deref_loc(st, a0), me(a))
            return st

        def make():
            return [begin(a) for a in sets]
        try:
            ip.run(make)
        except Unsupported as u:
            rep.undec(fn_name(e), str(u))
        rep.add(ip)
        n = 0
        for status, val, st in mon.exits:
            if status == 'unsupported':
                rep.undec(fn_name(e), val)
                continue
            n += 1
            check(ip, st, val, status)
        return n
    if len(argsets) < 64:
        n = part(argsets)
    else:
        n = forked(rep, part, argsets)
    rep.did(fn_name(e), n)
    return n


def forked(rep, part, items):
    """part(chunk) in one child process per core; their reports are merged in order"""
    import os, pickle
    k = min(8, os.cpu_count() or 1)
    kids = []
    for i in range(k):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(r)
                rep.stats = dict(partitions=0, steps=0, events=0, loops=0, functions=set())
                try:
                    n = part(items[i::k])
                except Anchor as a:
                    n = 0
                    rep.bad('anchor', str(a), 'the code the property is about was not found: %s' % a)
                except Shape as a:
                    n = 0
                    rep.undec('structure', str(a))
                except Exception as x:
                    import traceback
                    n = 0
                    rep.undec('analysis', '%s: %s in %s' % (type(x).__name__, x, traceback.extract_tb(x.__traceback__)[-1].name))
                with os.fdopen(w, 'wb') as f:
                    pickle.dump((n, rep.viol, rep.maybe, rep.undecided, rep.stats, rep.samples, rep.found), f)
                code = 0
            except BaseException:
                import traceback
                traceback.print_exc()
            finally:
                os._exit(code)
        os.close(w)
        kids.append((pid, r))
    total = 0
    for pid, r in kids:
        with os.fdopen(r, 'rb') as f:
            data = f.read()
        _, st = os.waitpid(pid, 0)
        if st or not data:
            raise RuntimeError('an analysis process ended abnormally')
        n, viol, maybe, und, stats, samples, found = pickle.loads(data)
        total += n
        rep.found |= found
        for x, y in viol.items():
            rep.viol.setdefault(x, y)
        for x, y in maybe.items():
            rep.maybe.setdefault(x, y)
        for x, y in und.items():
            rep.undecided.setdefault(x, y)
        for x, y in stats.items():
            if isinstance(y, set):
                rep.stats[x] |= y
            else:
                rep.stats[x] += y
    return total


def is_zero(ip, st, x):
    return ip.decide(st, ip.binop(st, 'Eq', x, I(0), 0))


def string_parts(ip, st, v):
    """pieces of a String value"""
    v = ip.canon(st, v)
    if v[0] == 'cat':
        return list(v[1:])
    return [v]


def put_behind(ip, st, w, path, new):
    return adaptor_behind(ip, st, w, path, new)


def adaptor_behind(ip, st, w, path, new=None):
    """follow a stream pointer to the adaptor object of type path; with new, replace it"""
    v, tid = w, None
    for _ in range(8):
        if v[0] == 'P' and isinstance(v[3], tuple) and v[3][0] == 'vt':
            tid = ip.p._vtn[v[3][1]]['self']
        if tid is None:
            return None
        t = ip.T[tid]
        if t['k'] == 'adt':
            if t['path'] == path and new is not None:
                ip.store(st, ip.deref_loc(st, strip(v)), new)
            return at(ip, st, strip(v)) if t['path'] == path else None
        if t['k'] != 'ref':
            return None
        v = at(ip, st, strip(v))
        tid = t['t']
        if v is None:
            return None
    return None


class Reach:
    """The states of an adaptor that writing leads to from its constructors, each with what the stream has received (a ghost).
    sub: the styles used to find them; afterwards every style is written once in each of them."""
    LIMIT = 400

    def __init__(self, ad, S_):
        self.ad, self.S_ = ad, S_
        self.states = {}
        self.closed = False
        cs = ('Default', 'Black', 'White', 'BrightRed', 'BrightWhite')
        self.sub = [s for s in styles_of(S_) if all(S_.colors[x[2]] in cs for x in S_.parts(s)[:2])]

    def start(self, rep, q, ghost):
        ad = self.ad
        es = [e for e in q.entries if e['pub'] and e['ins'] and q.T[e['out']].get('path') == ad.path and all(q.T[i]['k'] == 'param' for i in e['ins'])]
        if not es:
            raise Shape('a constructor of %s' % ad.path)
        for e in es:
            mon = Mon(rep)
            ip = Interp(q, Std(), mon)
            ip.run(lambda: [ip.start(e['key'], [('sym', 'stream')], {})])
            rep.add(ip)
            for status, val, st in mon.exits:
                if status == 'return':
                    v = ip.canon(st, val)
                    if v[0] != 'A' or st.tr:
                        raise Shape('a constructor of %s' % ad.path)
                    self.note(rep.found, v, ghost)
        rep.cur = None

    def order(self):
        return sorted(self.states, key=repr)

    def plain(self, v):
        """the state without the stream; None if it depends on anything unknown"""
        if v is None or v[0] != 'A':
            return None
        f = list(v[3])
        f[self.ad.inner] = ('sym', 'stream')
        rest = [x for i, x in enumerate(f) if i != self.ad.inner]
        if any(isinstance(y, tuple) and y and y[0] in ('sym', 'fld', 'res', 'post', 'mem', 'phi', 'lin', 'len') for x in rest for y in walk(x)):
            return None
        return v[:3] + (tuple(f),)

    def note(self, found, v, ghost):
        v = self.plain(v)
        found.add((v, tuple(sorted(ghost.items()))) if v is not None else None)

    def search(self, rep, writes, step):
        """step(rep, e, text, sets): explores e from sets of (state, ghost, style)"""
        todo = list(rep.found)
        seen = set()
        while todo:
            if None in todo or len(seen) + len(todo) > self.LIMIT:
                return False
            seen.update(todo)
            rep.found = set()
            for e, text in writes:
                step(rep, e, text, [(a0, a1, s, v, g) for v, g in todo for s in self.sub])
            todo = sorted(rep.found - seen, key=repr)
        self.states = seen
        rest = [s for s in styles_of(self.S_) if s not in self.sub]
        for e, text in writes:
            step(rep, e, text, [(a0, a1, s, v, g) for v, g in sorted(seen, key=repr) for s in rest])
        self.closed = None not in rep.found
        return self.closed


def either(rep, ad, inductive, histories):
    """decides a rule about an adaptor from an arbitrary previous state; where the adaptor has more state than the style last
    sent, what that finds is confirmed on the states reachable from the constructors"""
    if ad.cur is None:
        h = Report(rep.prop)
        ok = histories(h)
        rep.merge(h)
        rep.undec(ad.path, 'no single field holds the style last sent; decided for %s' % ('a part of the styles only' if ok else 'nothing'))
        return
    r = Report(rep.prop)
    inductive(r)
    if (r.viol or r.maybe) and ad.nf > 2:
        h = Report(rep.prop)
        try:
            ok = histories(h)
        except Shape:
            ok = False
        if h.viol or h.maybe:
            rep.merge(h)
        elif ok and not h.undecided:
            for k, m in list(r.viol.items()) + [(k, m) for k, (_, m) in r.maybe.items()]:
                r.undec(k.split('|')[2], '%s (from a state that was not reached from the constructors)' % m)
            r.viol, r.maybe = {}, {}
    rep.merge(r)


class RenderMon(Snap):
    """rendering to a string: the state of the adaptor right after the arguments have run"""

    def __init__(self, rep, ad, fm, reach=None):
        super().__init__(rep)
        self.ad, self.fm, self.reach = ad, fm, reach

    def on_event(self, ip, st, ev):
        if ev.name in FNCALLS or ev.name == DISP:
            i = 1
            f = ev.extra.get(i)
            if f is None:
                return None
            a = adaptor_behind(ip, st, self.fm.write(f), self.ad.path)
            st.ghost['n'] = add(st.ghost['n'], I(1))
            st.ghost['ad'] = UNIT if a is None else a
            st.ghost['ret'] = ev.ret
            if a is not None:
                v = fld(a, 0, self.ad.inner)
                for _ in range(4):
                    if v is None or v[0] != 'P':
                        break
                    v = at(ip, st, v)
                st.ghost['text'] = UNIT if v is None else v
                if self.reach is not None and len(a) > 1:
                    out = []
                    for n, (s, g) in enumerate(self.reach.order()):
                        s2 = st.copy()
                        f = list(s[3])
                        f[self.ad.inner] = fld(a, 0, self.ad.inner)
                        new = s[:3] + (tuple(f),)
                        put_behind(ip, s2, self.fm.write(ev.extra[1]), self.ad.path, new)
                        s2.ghost['ad'] = new
                        s2.ghost['reach'] = I(n)
                        out.append((s2, ev.ret))
                    return out
        return None
