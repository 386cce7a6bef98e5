"""Shared machinery of the rules: entry lookup, exploration, outcome of fallible events,
havoc of state handed to unknown code, reporting."""
from core_ai import *
from models import Std

FMTW = 'core::fmt::Write::'
IOW = 'core::io::write::Write::'
SW = 'stylish_core::write::Write::'
SIOW = 'stylish_core::io::Write::'
DISP = 'stylish_core::display::Display::fmt'
RESTYLE = 'stylish_style::Restyle::apply'
FNCALLS = ('core::ops::function::Fn::call', 'core::ops::function::FnMut::call_mut', 'core::ops::function::FnOnce::call_once')
STYLE = 'stylish_style::Style'


class Report:
    def __init__(self, prop):
        self.prop = prop
        self.viol = {}      # key -> message
        self.obl = []       # (obligation, detail)
        self.undecided = {}
        self.stats = dict(partitions=0, steps=0, events=0, loops=0, functions=set())
        self.samples = []
        self.notes = []
        self.programs = 0
        self.cur = None     # the partition being looked at
        self.found = set()  # what a rule collects on the way (states of a writer)
        self.maybe = {}     # mismatches seen on a generalised loop state: to be confirmed on a path of a bounded number of iterations

    def bad(self, clause, where, msg, prop=None):
        key = '%s|%s|%s' % (prop or self.prop, clause, where)
        if clause == 'cases' and self.undecided:
            # what is missing may be what could not be judged
            self.undec(where, msg)
            return
        if self.cur is not None and self.cur.taint:
            self.undec(where, '%s (having gone through %s, which is not modelled)' % (msg, self.cur.taint))
            return
        if self.cur is not None and self.cur.gen:
            self.maybe.setdefault(key, (where, msg))
        elif key not in self.viol:
            self.viol[key] = msg

    def undec(self, where, msg):
        if self.cur is not None and not self.cur.taint:
            self.cur.taint = 'something undecided'
        self.undecided.setdefault(where, msg)

    def did(self, what, n=1, **kw):
        self.obl.append((what, n, kw))

    def merge(self, r):
        for a, b in ((self.viol, r.viol), (self.maybe, r.maybe), (self.undecided, r.undecided)):
            for x, y in b.items():
                a.setdefault(x, y)
        self.obl += r.obl
        self.samples += r.samples
        self.notes += r.notes
        for x, y in r.stats.items():
            if isinstance(y, set):
                self.stats[x] |= y
            else:
                self.stats[x] += y

    def add(self, ip):
        self.cur = None
        s = ip.stats
        self.stats['partitions'] += s['paths']
        self.stats['steps'] += s['steps']
        self.stats['events'] += s['events']
        self.stats['loops'] += s['loops']
        self.stats['functions'] |= s['fns']


class Anchor(Exception):
    """an anchor of a property (a public item it is about) is missing"""


class Shape(Exception):
    """private structure the analysis relies on is not as expected: nothing is decided, nothing is reported"""


def base(path):
    """type path without generic arguments"""
    out, d = [], 0
    for ch in path:
        if ch == '<':
            d += 1
        elif ch == '>':
            d -= 1
        elif d == 0:
            out.append(ch)
    return ''.join(out)


def self_path(p, e):
    if 'self' not in e:
        return None
    t = p.T[e['self']]
    if t['k'] == 'adt':
        return t['path']
    return t['s']


def entries(p, trait=None, selfp=None, name=None, path=None, provided=None):
    out = []
    for e in p.entries:
        if name is not None and e['name'] != name:
            continue
        if trait is not None and e.get('trait') != trait:
            continue
        if selfp is not None and self_path(p, e) != selfp:
            continue
        if path is not None and e['path'] != path:
            continue
        if provided is not None and e.get('provided') != provided:
            continue
        if provided is None and trait is None and path is None and selfp is not None and (e.get('trait') is not None):
            continue
        out.append(e)
    return out


def entry(p, **kw):
    r = entries(p, **kw)
    if len(r) != 1:
        raise Anchor('%s: expected one item matching %s, found %d' % (p.name, kw, len(r)))
    return r[0]


def tid_of(p, path):
    for i, t in enumerate(p.T):
        if t['k'] == 'adt' and t['path'] == path and (t['v'] or t.get('opaque')):
            return i
    raise Anchor('%s: type %s not found' % (p.name, path))


def variant(p, path, name):
    t = p.T[tid_of(p, path)]
    for i, v in enumerate(t['v']):
        if v['n'] == name:
            return i
    raise Anchor('%s has no variant %s' % (path, name))


def fields(p, path, var=0):
    """{name: index} of a struct"""
    return {f[0]: i for i, f in enumerate(p.T[tid_of(p, path)]['v'][var]['f'])}


def fields_of_type(p, path, typath):
    t = p.T[tid_of(p, path)]
    return [i for i, f in enumerate(t['v'][0]['f']) if p.T[f[1]].get('path') == typath]


def enumval(p, path, name):
    return ('A', path, variant(p, path, name), ())


def params(p, e):
    """symbolic arguments for an entry: one fresh term per parameter"""
    return [('sym', 'arg%d' % i) for i in range(len(e['ins']))]


class Exits(list):
    def __init__(self, rep):
        self.rep = rep

    @staticmethod
    def of(rep, xs):
        r = Exits(rep)
        r.extend(xs)
        return r

    def __iter__(self):
        try:
            for x in list.__iter__(self):
                self.rep.cur = x[2]
                yield x
        finally:
            self.rep.cur = None


class Mon:
    """base monitor"""

    def __init__(self, rep):
        self.rep = rep
        self.exits = Exits(rep)

    def reset(self):
        self.exits = Exits(self.rep)

    def event(self, ip, st, ev):
        self.rep.cur = st
        rp = ev.c.get('rp') or ''
        if rp.startswith('<alloc::string::String as core::fmt::Write>') or rp.startswith('<alloc::string::String as core::fmt::write::Write>'):
            ev.ret = ok(UNIT)
        if ev.name == FMTW + 'write_fmt' and ev.c.get('args') and ip.T[ev.c['args'][0]].get('path') == 'alloc::string::String':
            pcs = pieces(ip, st, ev)
            if pcs is not None and all(x[0] in ('const', 'text', 'esc') for x in pcs):
                ev.ret = ok(UNIT)
        if ev.name.startswith(FMTW) and ev.tys and ev.args:
            string_append(ip, st, ev)
        havoc(ip, st, ev)
        return self.on_event(ip, st, ev)

    def on_event(self, ip, st, ev):
        """to be overridden: may return [(state, result)]"""
        return None

    def exit(self, ip, st, status, val):
        self.rep.cur = st
        self.exits.append((status, val, st))


def string_append(ip, st, ev):
    """output into a std String: its contents grow by the pieces written"""
    t = ip.T[ev.tys[0]]
    ptr = ev.args[0]
    try:
        while t['k'] == 'ref' and ip.T[t['t']]['k'] == 'ref':
            ptr = ip.read(st, ip.deref_loc(st, ptr))
            t = ip.T[t['t']]
        if t['k'] != 'ref' or ip.T[t['t']].get('path') != 'alloc::string::String':
            return
        loc = ip.deref_loc(st, ptr)
        cur = ip.read(st, loc)
        pcs = pieces(ip, st, ev)
        if pcs is None or not all(x[0] in ('const', 'text', 'esc') for x in pcs):
            new = ('post', ev.n, 99)
        else:
            new = cur
            for x in pcs:
                new = mk_cat(new, S(x[1], 'str') if x[0] == 'const' else x[1] if x[0] == 'text' else ('op', 'escd', x[1], x[2]))
        ip.store(st, loc, new)
    except Unsupported:
        pass


def explore(rep, p, e, args=None, mon=None, pre=None, ghost=None, key=None, **kw):
    """analyse entry e to completion; returns the exit partitions"""
    mon = mon or Mon(rep)
    ip = Interp(p, Std(), mon, **kw)

    def make():
        st = ip.start(key or e['key'], args if args is not None else params(p, e), ghost)
        if pre:
            r = pre(ip, st)
            if r is False:
                return []
            if isinstance(r, list):
                return r
        return [st]
    try:
        ip.run(make)
    except Unsupported as u:
        rep.undec(e['path'] if e else key, str(u))
    rep.add(ip)
    return ip, mon.exits


def fn_name(e):
    return e['path'] if isinstance(e, dict) else str(e)


def discr_of(st, v):
    """known discriminant variant of a (Result/Option) value or None"""
    if v[0] == 'A':
        return v[2]
    v = st.F.norm(v)
    if v[0] == 'A':
        return v[2]
    d = st.F.dom.get(('discr', v))
    if d and d[0] == 'in' and len(d[1]) == 1:
        return next(iter(d[1]))
    return None


def outcome(st, ev):
    """'ok' / 'err' / None for a Result-returning event"""
    d = discr_of(st, ev.ret)
    return None if d is None else ('ok', 'err')[d]


def retval(ip, st, val):
    """returned Result: ('ok', v) / ('err', v) / (None, term)"""
    v = ip.canon(st, val)
    d = discr_of(st, v)
    if d is None:
        d = discr_of(st, val)
    if d is None:
        return None, v
    if v[0] == 'A':
        return ('ok', 'err')[d], v[3][0] if v[3] else UNIT
    return ('ok', 'err')[d], ('fld', v, d, 0)


def err_of(ev):
    return ('fld', ev.ret, 1, 0)


def ok_of(ev):
    return ('fld', ev.ret, 0, 0)


def is_fallible(p, ev):
    return True


def loc_of(v):
    """designated location of a pointer value"""
    if v[0] == 'P':
        return (v[1], tuple((e[0], e[1]) + ((e[2],) if e[0] == 'f' else ()) for e in v[2]))
    return (('mem', v), ())


def field_ptr(selfp, i):
    """location of field i of *selfp"""
    return (('mem', selfp), (('f', i, 0),))


# ------------------------------------------------------------------ output pieces
def text_of(ip, st, v, tid=None, depth=0):
    """follow references until a str slice"""
    v = st.F.norm(v) if is_term(v) else v
    if tid is not None and tid >= 0:
        t = ip.T[tid]
        while t['k'] == 'ref' and depth < 8:
            # v: pointer to a value of type t (a reference itself)
            v = ip.read(st, ip.deref_loc(st, v))
            v = st.F.norm(v) if is_term(v) else v
            t = ip.T[t['t']]
            depth += 1
        if t['k'] == 'str':
            return v
        if t.get('path') == 'alloc::string::String':
            return strof(ip.read(st, ip.deref_loc(st, v)))
        return None
    if v[0] == 'P' and v[3] is None:
        return None
    return v


PLAIN_FLAGS = 0x20 | (3 << 29)


def pieces(ip, st, ev):
    """what an output event writes: list of ('const', bytes) | ('text', slice) | ('esc', slice) | ('fmt', ...) ; None if not an output"""
    m = ev.name.rsplit('::', 1)[1]
    a = ev.args
    if m == 'write_escaped':
        t = ip.T[ev.tys[0]] if ev.tys else {}
        while t.get('k') == 'ref':
            t = ip.T[t['t']]
        return [('esc', st.F.norm(a[2]) if is_term(a[2]) else a[2], t.get('path', '?'))]
    if m in ('write_str', 'write_all', 'write'):
        v = st.F.norm(a[1]) if is_term(a[1]) else a[1]
        if v[0] == 'P' and v[3] is not None and v[3][0] == 'i':
            # bytes of an array
            try:
                x = ip.canon(st, ip.read(st, ip.deref_loc(st, v)))
            except Unsupported:
                x = v
            if x[0] == 'A' and x[1] == 'array' and len(x[3]) == v[3][1] and all(y[0] == 'i' and 0 <= y[1] < 256 for y in x[3]):
                return [('const', bytes(y[1] for y in x[3]))] if x[3] else []
        return split_piece(v)
    if m == 'write_char':
        return [('const', chr(a[1][1]).encode())] if a[1][0] == 'i' else [('text', ('op', 'utf8', a[1]))]
    if m == 'write_fmt':
        f = a[1]
        if f[0] == 'A' and f[1] == 'fmtargs':
            out = []
            for x in f[3]:
                if x[0] == 'lit':
                    out.append(('const', x[1]))
                    continue
                _, arg, fl, w, pr = x
                kind = arg[2]
                v, tid = arg[3]
                if kind == 'new_display' and fl == PLAIN_FLAGS and w is None and pr is None:
                    t = ip.T[tid] if tid >= 0 else None
                    vv = v
                    while t is not None and t['k'] == 'ref' and ip.T[t['t']]['k'] != 'str':
                        vv = ip.read(st, ip.deref_loc(st, vv))
                        tid = t['t']
                        t = ip.T[tid]
                    if t is None:
                        out += split_piece(v)
                        continue
                    if t['k'] == 'ref' or t['k'] == 'str':
                        if t['k'] == 'ref':
                            vv = ip.read(st, ip.deref_loc(st, vv))
                        out += split_piece(st.F.norm(vv))
                        continue
                    if t.get('path') == 'alloc::string::String':
                        out += split_piece(strof(ip.read(st, ip.deref_loc(st, vv))))
                        continue
                    if t['k'] == 'char':
                        cv = ip.read(st, ip.deref_loc(st, vv))
                        out.append(('const', chr(cv[1]).encode()) if cv[0] == 'i' else ('text', ('op', 'utf8', cv)))
                        continue
                    cv = ip.read(st, ip.deref_loc(st, vv))
                    if cv[0] == 'A' and cv[1] == 'escaped':
                        out.append(('esc', cv[3][0], cv[2]))
                        continue
                    if t['k'] == 'int':
                        cv = st.F.norm(cv)
                        if cv[0] == 'i':
                            out.append(('const', str(cv[1]).encode()))
                            continue
                    out.append(('fmt', cv, t['s']))
                else:
                    out.append(('fmt', v, kind, fl))
            return out
        if is_term(f):
            return [('fmt', f, 'arguments')]
    return None


def split_piece(v):
    if v[0] == 'S':
        return [('const', v[1])] if v[1] else []
    if v[0] == 'op' and v[1] == 'str' and v[2][0] == 'cat':
        out = []
        for x in v[2][1:]:
            out += split_piece(x)
        return out
    if v[0] == 'op' and v[1] == 'escd':
        return [('esc', v[2], v[3])]
    return [('text', v)]


# ------------------------------------------------------------------ unknown code and our state
FORMATTER = 'stylish_core::formatter::Formatter'


def havoc(ip, st, ev):
    """Unknown code received pointers; whatever it can write through them becomes unknown.
    A Formatter can only be written *through* (its fields are private, see E01)."""
    if ev.name.startswith(FMTW) or ev.name.startswith(IOW) or ev.name.startswith('alloc::') or ev.name.startswith('core::fmt::'):
        return
    k = [0]

    def fresh():
        k[0] += 1
        return ('post', ev.n, k[0])

    def visit(v, tid, mut, d=0):
        if d > 8:
            return
        if v[0] == 'A' and v[1] == 'tuple' and tid is not None and ip.T[tid]['k'] == 'tuple':
            for x, t in zip(v[3], ip.T[tid]['f']):
                visit(x, t, mut, d + 1)
            return
        t = ip.T[tid] if tid is not None else None
        if v[0] == 'P' and isinstance(v[3], tuple) and v[3][0] == 'vt':
            vt = ip.p._vtn[v[3][1]]
            touch(('P', v[1], v[2], None), vt['self'], d)
            return
        if t is None or t['k'] not in ('ref', 'ptr') or not t.get('mut'):
            return
        touch(v, t['t'], d)

    def touch(ptr, pt, d):
        t = ip.T[pt]
        if t['k'] == 'ref':
            try:
                inner = ip.read(st, ip.deref_loc(st, ptr))
            except Unsupported:
                return
            if t.get('mut'):
                touch(inner, t['t'], d + 1)
            return
        if t['k'] == 'dyn' or t['k'] == 'param':
            if ptr[0] == 'P' and isinstance(ptr[3], tuple) and ptr[3][0] == 'vt':
                visit(ptr, None, True, d + 1)
            return
        if t['k'] != 'adt':
            return
        if t['path'] == FORMATTER:
            try:
                loc = ip.deref_loc(st, ptr)
                cur = ip.read(st, loc)
            except Unsupported:
                return
            fs = t['v'][0]['f']
            for i, f in enumerate(fs):
                ft = ip.T[f[1]]
                if ft['k'] == 'ref' and ft.get('mut') and ip.T[ft['t']]['k'] == 'dyn':
                    w = fld(cur, 0, i) if cur[0] == 'A' else ('fld', cur, 0, i)
                    if w[0] == 'P':
                        visit(w, None, True, d + 1)
            return
        if t['path'] in ('alloc::string::String', 'alloc::vec::Vec'):
            ip.store(st, ip.deref_loc(st, ptr), fresh())
            return
        if t['path'].startswith('stylish') and t['v']:
            try:
                loc = ip.deref_loc(st, ptr)
                cur = ip.read(st, loc)
            except Unsupported:
                return
            if cur[0] != 'A' and not is_term(cur):
                return
            fs = t['v'][0]['f']
            new = []
            for i, f in enumerate(fs):
                ft = ip.T[f[1]]
                cv = fld(cur, 0, i)
                if ft['k'] == 'param':
                    new.append(cv)
                elif ft['k'] == 'ref':
                    new.append(cv)
                    if ft.get('mut'):
                        touch(cv, ft['t'], d + 1)
                else:
                    new.append(fresh())
            if t['ak'] == 'struct':
                ip.store(st, loc, ('A', t['path'], 0, tuple(new)))

    for i, a in enumerate(ev.args):
        tid = ev.tys[i] if ev.tys and i < len(ev.tys) else None
        try:
            visit(a, tid, False)
        except (Unsupported, IndexError):
            pass


# ------------------------------------------------------------------ styles
class Styles:
    def __init__(self, p):
        self.p = p
        f = fields(p, STYLE)
        self.fg, self.bg, self.it = f['foreground'], f['background'], f['intensity']
        self.n = len(f)
        self.colors = [v['n'] for v in p.T[tid_of(p, 'stylish_style::Color')]['v']]
        self.ints = [v['n'] for v in p.T[tid_of(p, 'stylish_style::Intensity')]['v']]
        fs = [None] * self.n
        fs[self.fg] = self.color('Default')
        fs[self.bg] = self.color('Default')
        fs[self.it] = self.inten('Normal')
        self.default = ('A', STYLE, 0, tuple(fs))
        self.ctid = tid_of(p, 'stylish_style::Color')
        self.itid = tid_of(p, 'stylish_style::Intensity')

    def color(self, n):
        return ('A', 'stylish_style::Color', self.colors.index(n), ())

    def inten(self, n):
        return ('A', 'stylish_style::Intensity', self.ints.index(n), ())

    def parts(self, s):
        return [fld(s, 0, i) for i in (self.fg, self.bg, self.it)]

    def eq1(self, ip, st, a, b, tid):
        """three-valued equality of two colours/intensities"""
        a, b = ip.canon(st, a), ip.canon(st, b)
        if a == b:
            return True
        da, db = ip.discr(st, a, tid), ip.discr(st, b, tid)
        r = ip.decide(st, ip.binop(st, 'Eq', da, db, tid))
        return r

    def eq(self, ip, st, a, b):
        a, b = ip.canon(st, a), ip.canon(st, b)
        if a == b:
            return True
        r = [self.eq1(ip, st, x, y, t) for x, y, t in zip(self.parts(a), self.parts(b), (self.ctid, self.ctid, self.itid))]
        if False in r:
            return False
        if None in r:
            return None
        return True

    def name(self, st, ip, v):
        v = ip.canon(st, v)
        if v[0] == 'A':
            return (self.colors if v[1].endswith('Color') else self.ints)[v[2]]
        return None

    def describe(self, ip, st, s):
        out = []
        for n, x, t in zip(('fg', 'bg', ''), self.parts(ip.canon(st, s)), (self.ctid, self.ctid, self.itid)):
            nm = self.name(st, ip, x)
            if nm is None:
                d = st.F.dom.get(('discr', st.F.norm(x)))
                names = self.colors if t == self.ctid else self.ints
                nm = '{%s}' % '|'.join(names[i] for i in sorted(d[1])) if d and d[0] == 'in' and len(d[1]) < 5 else 'any'
            out.append((n + '=' if n else '') + nm)
        return '(' + ','.join(out) + ')'


# ------------------------------------------------------------------ generic exit walking
def each(rep, p, e, check, panic_ok=False, **kw):
    """explore entry e; check(ip, st, val) on every normal exit"""
    ip, exits = explore(rep, p, e, **kw)
    n = 0
    for status, val, st in exits:
        if status == 'unsupported':
            rep.undec(fn_name(e), val)
        elif status == 'panic':
            if not panic_ok:
                rep.bad('panic', fn_name(e), '%s can panic: %s' % (fn_name(e), val))
        else:
            n += 1
            check(ip, st, val)
    rep.did(fn_name(e), n)
    return ip, exits


def fidx(p, path, pred):
    """indices of the fields of struct path whose type satisfies pred"""
    t = p.T[tid_of(p, path)]
    return [i for i, f in enumerate(t['v'][0]['f']) if pred(p.T[f[1]], f[1])]


def one_field(p, path, pred, what):
    r = fidx(p, path, pred)
    if len(r) != 1:
        raise Shape('%s: %d fields hold %s' % (path, len(r), what))
    return r[0]


FARGS = 'stylish_core::formatter::FormatterArgs'
ARGS = 'stylish_core::arguments::Arguments'


class Fm:
    """the parts of a Formatter value"""

    def __init__(self, p):
        self.p = p
        self.s = one_field(p, FORMATTER, lambda t, i: t.get('path') == STYLE, 'the style')
        self.f = one_field(p, FORMATTER, lambda t, i: t.get('path') == FARGS, 'the flags')
        self.w = one_field(p, FORMATTER, lambda t, i: t['k'] == 'ref' and p.T[t['t']]['k'] == 'dyn', 'the stream')

    def style(self, v):
        return fld(v, 0, self.s)

    def flags(self, v):
        return fld(v, 0, self.f)

    def write(self, v):
        return fld(v, 0, self.w)

    def no_flags(self, ip, st, v):
        """every flag of a FormatterArgs value is off"""
        t = self.p.T[tid_of(self.p, FARGS)]
        v = ip.canon(st, v)
        for i, f in enumerate(t['v'][0]['f']):
            x = ip.canon(st, fld(v, 0, i))
            ft = self.p.T[f[1]]
            if ft['k'] == 'bool':
                if x != FALSE:
                    return False
            elif ft.get('path') == OPT:
                if discr_of(st, x) != 0:
                    return False
            elif x != ip.canon(st, x):
                return False
        return True


def at(ip, st, ptr):
    """value a pointer designates (None if unknown)"""
    try:
        v = ip.read(st, ip.deref_loc(st, ptr))
        return st.F.norm(v) if is_term(v) else v
    except Unsupported:
        return None


def reaches(ip, st, w, want, depth=6):
    """following a writer pointer through references leads to `want` (a pointer value)"""
    for _ in range(depth):
        if ip.same(st, strip(w), strip(want)):
            return True
        v = at(ip, st, w)
        if v is None or v == w:
            return False
        w = v
    return False


def strip(v):
    """pointer without its vtable"""
    if v[0] == 'P' and isinstance(v[3], tuple) and v[3][0] == 'vt':
        v = ('P', v[1], v[2], None)
    if v[0] == 'P' and v[1][0] == 'mem' and not v[2]:
        return v[1][1]
    return v


def fn_formatter(ip, st, ev):
    """the Formatter handed to a callable / Display::fmt event, as a value"""
    if ev.name in FNCALLS:
        tup = ev.args[1]
        ptr = fld(tup, 0, 0)
    else:
        ptr = ev.args[1]
    return ptr, at(ip, st, ptr)


class Snap(Mon):
    """records, for every event, the facts and what its pointer arguments designated"""

    def event(self, ip, st, ev):
        ev.extra = {}
        for i, a in enumerate(ev.args):
            a2 = a
            if ev.name in FNCALLS and i == 1 and a[0] == 'A' and a[3]:
                a2 = a[3][0]
            v = at(ip, st, a2)
            ev.extra[('ch', i)] = reach_set(ip, st, a2)
            if v is not None:
                ev.extra[i] = v
                if i == 1 and (ev.name in FNCALLS or ev.name == DISP):
                    w = Fm(ip.p).write(v)
                    ev.extra[('ch', 'w')] = reach_set(ip, st, w)
        return super().event(ip, st, ev)


def reach_set(ip, st, v, depth=8):
    """pointers met when following v through references and through adaptors held by value"""
    out = []

    def go(v, d):
        if d < 0 or len(out) > 40:
            return
        if v[0] == 'A':
            if v[1].startswith('stylish') or v[1] == 'tuple':
                for x in v[3]:
                    go(x, d - 1)
            return
        s = strip(v)
        if s in out:
            return
        out.append(s)
        n = at(ip, st, v)
        if n is not None and n != v and n[0] in ('A', 'P', 'fld', 'mem', 'sym', 'post', 'res'):
            go(n, d - 1)
    go(v, depth)
    return out


def leads(ip, st, ev, i, want):
    """argument i of the event (or 'w': the stream of the formatter passed), when it happened, led to the pointer want"""
    return any(ip.same(st, x, strip(want)) for x in ev.extra.get(('ch', i), ()))


def fallible(ip, ev):
    n = ev.name
    if n.startswith((FMTW, IOW, SW, SIOW)) and not n.endswith(('by_ref', 'flush_')):
        return True
    return n == DISP or n in FNCALLS or n.startswith('core::fmt::') and n.endswith('::fmt')


def passes(rep, ip, st, val, ev, e, what):
    """the function's Result is the event's outcome: Ok iff Ok, and the same error"""
    k, v = retval(ip, st, val)
    o = outcome(st, ev)
    if ip.same(st, val, ev.ret):
        return True
    if k is None or o is None:
        rep.bad('result', fn_name(e), '%s: the result of %s is not passed on (returns %s)' % (what, ev.name, show(ip.canon(st, val))))
        return False
    if k != o:
        rep.bad('result', fn_name(e), '%s: returns %s although %s gave %s' % (what, k, ev.name, o))
        return False
    if k == 'err' and not ip.same(st, v, err_of(ev)) and not unit_err(ip, v):
        rep.bad('result', fn_name(e), '%s: returns the error %s instead of that of %s' % (what, show(v), ev.name))
        return False
    if k == 'ok' and not ip.same(st, v, ok_of(ev)) and v != UNIT:
        rep.bad('result', fn_name(e), '%s: returns Ok(%s) instead of the value from %s' % (what, show(v), ev.name))
        return False
    return True


def unit_err(ip, v):
    return v[0] == 'A' and v[1] == 'core::fmt::Error' or v[0] == 'fld' and False
