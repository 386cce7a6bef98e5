"""Path-partitioned abstract interpretation of resolved MIR (as dumped by ../engine).

Abstract values are interned Herbrand terms over the entry's unknown inputs (value
numbering); the partition key is the set of facts (finite domains of discriminants and
integers, equalities and disequalities of terms) learned at branches.  Calls the type
checker could not resolve (methods of type parameters and of trait objects of unknown
concrete type) are *events*; their results are fresh terms.  Loops whose bound is not a
constant are analysed to a fixpoint: states arriving at the loop head are generalised
(anti-unified) until the generalisation covers every arriving state.
No code of the repository is executed and no solver is involved.
"""
import re
import json, os, sys

sys.setrecursionlimit(20000)


class Unsupported(Exception):
    pass


class NeedWiden(Exception):
    def __init__(self, head):
        self.head = head


# definition paths of the public items the rules speak of; an item moved to another (private) module is found by its name
CANON = ['stylish_core::arguments::Arguments', 'stylish_core::arguments::StdFmt', 'stylish_core::arguments::StdFmtDebug', 'stylish_core::arguments::StdFmtOther',
         'stylish_core::display::Display', 'stylish_core::formatter::Align', 'stylish_core::formatter::DebugHex', 'stylish_core::formatter::Formatter',
         'stylish_core::formatter::FormatterArgs', 'stylish_core::formatter::Sign', 'stylish_core::string::String', 'stylish_core::write::Write',
         'stylish_core::io::Write', 'stylish_style::Color', 'stylish_style::Intensity', 'stylish_style::Restyle', 'stylish_style::Style', 'stylish_core::format::format']


def canonical(text):
    names = set(re.findall(r'\bstylish_(?:core|style)(?:::[a-z_0-9]+)*::(?:[A-Z]\w*|format)\b', text))
    for c in CANON:
        if c in names:
            continue
        k, n = c.split('::')[0] + '::', c.split('::')[-1]
        alt = [x for x in names if x.startswith(k) and x.split('::')[-1] == n and x not in CANON]
        if len(alt) > 1:
            alt = [x for x in alt if x.count('::') > 1]    # the name it is re-exported under
        if len(alt) == 1:
            text = re.sub(r'\b%s\b' % re.escape(alt[0]), c, text)
    return text


class Prog:
    def __init__(self, path):
        self.file = path
        d = json.loads(canonical(open(path).read()))
        self.name = d['crate']
        self.d = d
        self.T = d['types']
        self.fns = d['fns']
        self.entries = d['entries']
        self.adts = d['adts']
        self.impls = d['impls']
        self.deps = d['deps']
        self._live = {}
        self._heads = {}
        self._consts = {}
        self.fileof = {}

    def ts(self, i):
        return self.T[i]['s']

    def variants(self, tid):
        return self.T[tid]['v']

    def inhabited(self, tid, seen=()):
        t = self.T[tid]
        k = t['k']
        if k == 'never':
            return False
        if tid in seen:
            return True
        if k == 'tuple':
            return all(self.inhabited(x, seen + (tid,)) for x in t['f'])
        if k == 'adt' and not t.get('opaque'):
            if t['ak'] == 'enum':
                return any(all(self.inhabited(f[1], seen + (tid,)) for f in v['f']) for v in t['v'])
            if t['ak'] == 'struct' and t['v']:
                return all(self.inhabited(f[1], seen + (tid,)) for f in t['v'][0]['f'])
        return True

    def discrs(self, tid):
        """{variant index: discriminant} of the inhabited variants"""
        t = self.T[tid]
        return {i: v['d'] for i, v in enumerate(t['v']) if all(self.inhabited(f[1]) for f in v['f'])}

    def body(self, key):
        return self.fns.get(key) if key else None

    # ---- control flow facts of a body
    def succ(self, t):
        k = t[0]
        if k == 'goto':
            return [t[1]]
        if k == 'switch':
            return [x[1] for x in t[2]] + [t[3]]
        if k == 'call':
            return [t[4]] if t[4] is not None else []
        if k == 'drop':
            return [t[2]]
        if k == 'assert':
            return [t[3]]
        return []

    def heads(self, key):
        if key in self._heads:
            return self._heads[key]
        b = self.fns[key]['bb']
        heads, color = set(), {}
        stack = [(0, iter(self.succ(b[0][1])))]
        color[0] = 1
        while stack:
            n, it = stack[-1]
            for m in it:
                if color.get(m) == 1:
                    heads.add(m)
                elif m not in color and b[m] is not None:
                    color[m] = 1
                    stack.append((m, iter(self.succ(b[m][1]))))
                    break
            else:
                color[n] = 2
                stack.pop()
        self._heads[key] = heads
        return heads

    def live(self, key):
        """live[bb] = locals whose value may be read from the start of bb"""
        if key in self._live:
            return self._live[key]
        f = self.fns[key]
        b = f['bb']

        def pl_use(p, s):
            s.add(p[0])
            for e in p[1:]:
                if isinstance(e, list) and e[0] == 'i':
                    s.add(e[1])

        def op_use(o, s):
            if 'c' in o:
                pl_use(o['c'], s)
            elif 'm' in o:
                pl_use(o['m'], s)

        def rv_use(r, s):
            k = r[0]
            if k in ('use', 'repeat', 'un', 'cast', 'bin'):
                for x in r[1:]:
                    if isinstance(x, dict):
                        op_use(x, s)
            elif k in ('ref', 'reborrow', 'discr'):
                pl_use(r[1], s)
            elif k == 'agg':
                for x in r[4]:
                    op_use(x, s)

        gen, kill = {}, {}
        for i, x in enumerate(b):
            if x is None:
                continue
            g, kl = set(), set()
            items = []
            for st in x[0]:
                u = set()
                rv_use(st[1], u)
                items.append((u, st[0]))
            u = set()
            t = x[1]
            d = None
            if t[0] == 'switch':
                op_use(t[1], u)
            elif t[0] == 'call':
                for a in t[2]:
                    op_use(a, u)
                if t[1]['k'] == 'fnptr' and 'o' in t[1]:
                    op_use(t[1]['o'], u)
                d = t[3]
            elif t[0] == 'drop':
                pl_use(t[1], u)
            elif t[0] == 'assert':
                op_use(t[1], u)
            elif t[0] == 'return':
                u.add(0)
            items.append((u, d))
            for u, d in items:
                g |= (u - kl)
                if d is not None:
                    if len(d) == 1:
                        kl.add(d[0])
                    else:
                        v = set()
                        pl_use(d, v)
                        g |= (v - kl)
            gen[i], kill[i] = g, kl
        live = {i: set(g) for i, g in gen.items()}
        ch = True
        while ch:
            ch = False
            for i in reversed(list(gen)):
                out = set()
                for m in self.succ(b[i][1]):
                    if m in live:
                        out |= live[m]
                n = gen[i] | (out - kill[i])
                if n != live[i]:
                    live[i] = n
                    ch = True
        self._live[key] = live
        return live


# ------------------------------------------------------------------ values
UNIT = ('A', 'tuple', 0, ())
TRUE, FALSE = ('i', 1), ('i', 0)
TERMS = frozenset(['sym', 'fld', 'mem', 'op', 'len', 'phi', 'res', 'ix', 'post', 'lin', 'discr', 'zst', 'cat', 'unk'])


def is_term(v):
    return v[0] in TERMS


def I(n):
    return ('i', n)


def S(b, k=''):
    return ('S', bytes(b), '')


def A(path, var=0, *fs):
    return ('A', path, var, tuple(fs))


OPT = 'core::option::Option'
RES = 'core::result::Result'
NONE = ('A', OPT, 0, ())


def some(v):
    return ('A', OPT, 1, (v,))


def ok(v):
    return ('A', RES, 0, (v,))


def err(v):
    return ('A', RES, 1, (v,))


def fld(t, var, i):
    if t[0] == 'A':
        if t[2] != var:
            raise Unsupported('variant mismatch')
        return t[3][i]
    return ('fld', t, var, i)


def lin(terms, c):
    terms = tuple(sorted(((t, k) for t, k in terms.items() if k), key=repr))
    if not terms:
        return I(c)
    if c == 0 and len(terms) == 1 and terms[0][1] == 1:
        return terms[0][0]
    return ('lin', c, terms)


def tolin(v):
    if v[0] == 'i':
        return {}, v[1]
    if v[0] == 'lin':
        return dict(v[2]), v[1]
    return {v: 1}, 0


def add(a, b, sgn=1):
    ta, ca = tolin(a)
    tb, cb = tolin(b)
    r = dict(ta)
    for t, k in tb.items():
        r[t] = r.get(t, 0) + sgn * k
    return lin(r, ca + sgn * cb)


def sub_(a, b):
    return add(a, b, -1)


def relin(n):
    if n and n[0] == 'lin':
        r = I(n[1])
        for t, k in n[2]:
            for _ in range(abs(k)):
                r = add(r, t, 1 if k > 0 else -1)
        return r
    return n


def strof(v):
    """the str slice of a String value"""
    if v[0] == 'cat':
        if len(v) == 1:
            return S(b'')
        if len(v) == 2:
            return v[1]
    return ('op', 'str', v)


def mk_cat(v, x):
    if x == S(b''):
        return v if v[0] == 'cat' else ('cat', strof(v))
    parts = list(v[1:]) if v[0] == 'cat' else [('op', 'str', v)]
    if x[0] == 'op' and x[1] == 'str' and x[2][0] == 'cat':
        for y in x[2][1:]:
            v = mk_cat(v, y)
        return v
    if parts and parts[-1][0] == 'S' and x[0] == 'S':
        parts[-1] = S(parts[-1][1] + x[1])
    else:
        parts.append(x)
    return ('cat',) + tuple(parts)


def slen(s):
    """length of a slice/str reference value"""
    if s[0] == 'S':
        return I(len(s[1]))
    if s[0] == 'sub':
        return sub_(s[3], s[2])
    if s[0] == 'P':
        m = s[3]
        if m is None:
            raise Unsupported('length of thin pointer')
        return m
    if s[0] == 'op' and s[1] == 'str' and s[2][0] == 'cat':
        r = I(0)
        for p in s[2][1:]:
            r = add(r, slen(p))
        return r
    if s[0] == 'op' and s[1] == 'vs' and s[2][0] == 'vec':
        r = I(len(s[2]) - 2)
        return r if s[2][1] == UNIT else add(r, ('len', ('op', 'vs', s[2][1])))
    return ('len', s)


def mk_sub(s, a, b):
    if a == I(0) and b == slen(s):
        return s
    if s[0] == 'S' and a[0] == 'i' and b[0] == 'i':
        return ('S', s[1][a[1]:b[1]], s[2])
    if s[0] == 'sub':
        return mk_sub(s[1], add(s[2], a), add(s[2], b))
    if s[0] == 'op' and s[1] == 'str' and s[2][0] == 'cat':
        # between two of its pieces
        n, ia, ib = I(0), None, None
        for i, x in enumerate(s[2][1:] + (None,)):
            if n == a:
                ia = i
            if n == b and (ib is None or ia is not None):
                ib = i
            if x is not None:
                n = add(n, slen(x))
        if ia is not None and ib is not None and ia <= ib:
            return strof(('cat',) + s[2][1 + ia:1 + ib])
    return ('sub', s, a, b)


def walk(v):
    """all subterms"""
    st = [v]
    while st:
        x = st.pop()
        yield x
        if isinstance(x, tuple):
            for y in x:
                if isinstance(y, tuple):
                    st.append(y)


class Facts:
    __slots__ = ('dom', 'rep', 'ne', 'ety')

    def __init__(self):
        self.dom, self.rep, self.ne, self.ety = {}, {}, frozenset(), {}

    def copy(self):
        f = Facts.__new__(Facts)
        f.dom, f.rep, f.ne, f.ety = dict(self.dom), self.rep, self.ne, dict(self.ety)
        return f

    def norm(self, v):
        if not self.rep:
            return v
        return self._norm(v, {})

    def _norm(self, v, memo):
        if not isinstance(v, tuple) or not v or v[0] in ('i', 'S'):
            return v
        if v in memo:
            return memo[v]
        r = v
        if v in self.rep:
            r = self._norm(self.rep[v], memo)
        else:
            n = tuple(self._norm(x, memo) if isinstance(x, tuple) else x for x in v)
            if n != v:
                n = relin(n)
                if n[0] == 'fld' and n[1][0] == 'A' and n[1][2] == n[2] and n[3] < len(n[1][3]):
                    n = n[1][3][n[3]]
                r = self.rep.get(n, n)
                if r != n:
                    r = self._norm(r, memo)
        memo[v] = r
        return r


class Ev:
    __slots__ = ('n', 'name', 'c', 'recv', 'args', 'ret', 'site', 'line', 'tys', 'extra', 'facts')

    def __repr__(self):
        return 'Ev(%s %s(%s))' % (self.n, self.name, ', '.join(map(show, self.args)))


class LoopEv(tuple):
    """marks a loop head in a trace"""
    n, name, c, recv, args, ret, site, line, tys, extra, facts = -1, 'a loop', None, None, (), None, None, 0, (), None, None


# library operations that are neither followed nor modelled: what a partition that went through one shows is not held against
# the code, except for operations on text, which change it for some input
KNOWN = re.compile(r'^stylish_\w+::format::format$|core::clone::Clone>::clone$|core::fmt::Write>?::write_(fmt|str|char)$|::io::(write::)?Write>?::')
TEXTUAL = re.compile(r'^<?(core::str|alloc::str|str|core::char|char|alloc::string|core::num|askama_escape)\b|^<impl (str|char)')


def sums(v):
    """the greatest number of unknowns added up anywhere in v"""
    n = len(v[2]) if v and v[0] == 'lin' and len(v) > 2 and isinstance(v[2], tuple) else 0
    for x in v:
        if isinstance(x, tuple):
            n = max(n, sums(x))
    return n


class St:
    __slots__ = ('fr', 'bb', 'mem', 'F', 'ghost', 'tr', 'nev', 'vis', 'notes', 'pc', 'taint', 'gen', 'pos', 'las')

    def copy(self):
        s = St.__new__(St)
        s.fr = list(self.fr)
        s.bb = self.bb
        s.mem = dict(self.mem)
        s.F = self.F.copy()
        s.ghost = dict(self.ghost)
        s.tr = self.tr
        s.nev = self.nev
        s.vis = dict(self.vis)
        s.notes = self.notes
        s.taint = self.taint
        s.gen = self.gen
        s.pos = self.pos
        s.las = self.las
        s.pc = self.pc
        return s


def show(v, d=0):
    if not isinstance(v, tuple):
        return str(v)
    k = v[0]
    if d > 6:
        return '…'
    if k == 'i':
        return str(v[1])
    if k == 'S':
        return repr(v[1])[1:]
    if k == 'sym':
        return str(v[1])
    if k == 'fld':
        return '%s.%s%s' % (show(v[1], d + 1), '' if v[2] == 0 else 'v%s.' % v[2], v[3])
    if k == 'mem':
        return '*' + show(v[1], d + 1)
    if k == 'res':
        return 'result#%s' % v[1]
    if k == 'A':
        return '%s#%s(%s)' % (str(v[1]).split('::')[-1], v[2], ', '.join(show(x, d + 1) for x in v[3]))
    if k == 'P':
        return '&%s%s' % (show(v[1], d + 1), ''.join('.%s' % (show(p[1], d + 1) if isinstance(p[1], tuple) else p[1]) for p in v[2]))
    if k == 'sub':
        return '%s[%s..%s]' % (show(v[1], d + 1), show(v[2], d + 1), show(v[3], d + 1))
    if k == 'lin':
        return '(' + '+'.join(['%s*%s' % (c, show(t, d + 1)) for t, c in v[2]] + [str(v[1])]) + ')'
    return '%s(%s)' % (k, ', '.join(show(x, d + 1) for x in v[1:]))


class Interp:
    bounded = False     # loops are not generalised
    # None: loops to a fixpoint over generalised states; k: paths of up to k iterations of each loop, no generalisation
    PRUNE = None
    LASSO = False       # with PRUNE: only paths that repeat the same way round a loop, left or changed once

    def __init__(self, prog, natives=None, monitor=None, unroll=7, maxpaths=60000, maxsteps=3000000):
        self.p = prog
        self.T = prog.T
        self.nat = natives
        self.mon = monitor
        self.unroll = unroll
        self.maxpaths = maxpaths
        self.maxsteps = maxsteps
        self.widen = set()
        self.stats = dict(paths=0, steps=0, calls=0, events=0, forks=0, loops=0, fns=set(), unknown=set())
        self.exits = []

    # ---------------------------------------------------------------- memory
    def cell(self, st, root):
        m = st.mem
        if root in m:
            return m[root]
        if root[0] == 'mem':
            return root
        if root[0] == 'CS':
            return root[1]
        if root[0] == 'K':
            return root[1]
        raise Unsupported('uninitialised cell %s' % (root,))

    def proj_read(self, st, v, e):
        k = e[0]
        if k == 'f':
            if v[0] == 'A':
                if v[2] != e[2]:
                    raise Unsupported('variant mismatch reading %s of %s' % (e, show(v)))
                if e[1] >= len(v[3]):
                    raise Unsupported('field %s of %s' % (e, show(v)))
                return v[3][e[1]]
            if v[0] == 'P' or v[0] in ('S', 'sub', 'box'):
                return v  # Box / Unique / NonNull wrappers are transparent
            if is_term(v):
                t = self.T[e[3]] if e[3] is not None else None
                if t and t['k'] == 'adt' and t['path'] in ('alloc::boxed::Box', 'core::ptr::unique::Unique', 'core::ptr::non_null::NonNull'):
                    return v
                w = st.F.norm(v)
                if w != v and w[0] == 'A':
                    return self.proj_read(st, w, e)
                return ('fld', w, e[2], e[1])
            raise Unsupported('field of %s' % (show(v),))
        if k == 'x':
            i = e[1]
            if v[0] == 'A' and v[1] == 'array':
                if i[0] == 'i':
                    if i[1] >= len(v[3]):
                        raise Unsupported('index out of bounds')
                    return v[3][i[1]]
                return ('ix', v, i)
            if v[0] == 'S' and i[0] == 'i':
                return I(v[1][i[1]])
            if v[0] == 'vec':
                return self.proj_read(st, ('mem', ('op', 'vs', v)), e)
            if v[0] == 'sub':
                return self.proj_read(st, v[1], ('x', add(v[2], i)))
            if v[0] == 'mem' and v[1][0] == 'op' and v[1][1] == 'vs' and v[1][2][0] == 'vec':
                vv = v[1][2]
                n0 = I(0) if vv[1] == UNIT else ('len', ('op', 'vs', vv[1]))
                k = sub_(i, n0)
                if k[0] == 'i' and 0 <= k[1] < len(vv) - 2:
                    return vv[2 + k[1]]
                if vv[1] == UNIT:
                    return ('ix', v, i)
                if self.decide(st, ('op', 'Lt', i, n0)):
                    return self.proj_read(st, ('mem', ('op', 'vs', vv[1])), e)
            return ('ix', v, i)
        raise Unsupported('projection %s' % (e,))

    def read(self, st, loc):
        v = self.cell(st, loc[0])
        for e in loc[1]:
            v = self.proj_read(st, v, e)
        return v

    def expand(self, st, v, e):
        """make v an aggregate so that e can be written"""
        if v[0] == 'A':
            return v
        if e[0] == 'f' and e[3] is not None:
            t = self.T[e[3]]
            if t['k'] == 'adt' and not t.get('opaque'):
                n = len(t['v'][e[2]]['f'])
                return ('A', t['path'], e[2], tuple(fld(v, e[2], i) for i in range(n)))
            if t['k'] in ('tuple', 'closure'):
                return ('A', t['k'], 0, tuple(fld(v, 0, i) for i in range(len(t['f']))))
        raise Unsupported('cannot expand %s for %s' % (show(v), e))

    def store(self, st, loc, val):
        root, proj = loc
        if not proj:
            st.mem[root] = val
            return
        try:
            base = self.cell(st, root)
        except Unsupported:
            base = ('unk', root)
        st.mem[root] = self._set(st, base, proj, val)

    def _set(self, st, v, proj, val):
        if not proj:
            return val
        e = proj[0]
        v = self.expand(st, v, e) if e[0] == 'f' else v
        if e[0] == 'f':
            fs = list(v[3])
            if v[2] != e[2]:
                raise Unsupported('write to other variant')
            fs[e[1]] = self._set(st, fs[e[1]], proj[1:], val)
            return (v[0], v[1], v[2], tuple(fs))
        if e[0] == 'x' and v[0] == 'A' and e[1][0] == 'i':
            fs = list(v[3])
            fs[e[1][1]] = self._set(st, fs[e[1][1]], proj[1:], val)
            return (v[0], v[1], v[2], tuple(fs))
        if e[0] == 'x' and v[0] == 'vec':
            k = sub_(e[1], I(0) if v[1] == UNIT else ('len', ('op', 'vs', v[1])))
            if k[0] == 'i' and 0 <= k[1] < len(v) - 2:
                fs = list(v)
                fs[2 + k[1]] = self._set(st, fs[2 + k[1]], proj[1:], val)
                return tuple(fs)
        if e[0] == 'x' and v[0] == 'S' and e[1][0] == 'i' and val[0] == 'i':
            b = bytearray(v[1])
            b[e[1][1]] = val[1]
            return ('S', bytes(b), v[2])
        raise Unsupported('write through %s of %s' % (e, show(v)))

    def deref_loc(self, st, pv):
        """location a pointer value designates"""
        pv = st.F.norm(pv) if is_term(pv) else pv
        k = pv[0]
        if k == 'P':
            return (pv[1], pv[2])
        if k == 'S':
            return (('CS', pv), ())
        if k == 'sub':
            return (('CS', pv), ())
        if is_term(pv) or k in ('bytes',):
            return (('mem', pv), ())
        if k == 'A' and pv[1] in ('strval', 'vecslice'):
            return (('CS', pv), ())
        if k == 'box':
            return (('K', pv[1]), ())
        raise Unsupported('deref of %s' % show(pv))

    def place(self, st, p):
        """-> (loc, tid or None, fat pointer value if the last deref was of an unsized place)"""
        depth = len(st.fr)
        body = st.fr[-1][1]
        loc = ((depth, p[0]), ())
        tid = body['locals'][p[0]]
        var = 0
        fat = None
        T = self.T
        for e in p[1:]:
            if e == '*':
                pv = self.read(st, loc)
                fat = pv
                loc = self.deref_loc(st, pv)
                t = T[tid] if tid is not None else None
                if t is None:
                    tid = None
                elif t['k'] in ('ref', 'ptr'):
                    tid = t['t']
                elif t['k'] == 'adt' and t['path'] == 'alloc::boxed::Box':
                    tid = t['args'][0] if t['args'] else None
                else:
                    tid = None
                var = 0
                continue
            if e == '=':
                continue
            k = e[0]
            if k == 'f':
                loc = (loc[0], loc[1] + (('f', e[1], var, tid),))
                tid = e[2]
                var = 0
                fat = None
            elif k == 'd':
                var = e[1]
            elif k == 'i':
                iv = st.F.norm(self.read(st, ((depth, e[1]), ())))
                loc = self.index_loc(st, loc, fat, iv)
                tid = T[tid]['t'] if tid is not None and 't' in T[tid] else None
                fat = None
            elif k == 'c':
                off = I(e[1])
                if e[2]:
                    off = sub_(self.place_len(st, loc, fat, tid), off)
                loc = self.index_loc(st, loc, fat, off)
                tid = T[tid]['t'] if tid is not None and 't' in T[tid] else None
                fat = None
            elif k == 's':
                n = self.place_len(st, loc, fat, tid)
                a = I(e[1])
                b = sub_(n, I(e[2])) if e[3] else I(e[2])
                if fat is None:
                    fat = ('P', loc[0], loc[1], n)
                fat = mk_sub(fat, a, b)
                loc = self.deref_loc(st, fat)
            else:
                raise Unsupported('projection %s' % (e,))
        return loc, tid, fat

    def place_len(self, st, loc, fat, tid):
        if fat is not None and not (fat[0] == 'P' and fat[3] is None):
            return slen(fat)
        if tid is not None and self.T[tid]['k'] == 'array' and self.T[tid]['n'] is not None:
            return I(self.T[tid]['n'])
        v = self.read(st, loc)
        if v[0] == 'A':
            return I(len(v[3]))
        return slen(v)

    def index_loc(self, st, loc, fat, i):
        if fat is not None and fat[0] == 'sub':
            b, i2 = fat[1], add(fat[2], i)
            return self.index_loc(st, self.deref_loc(st, b), b, i2)
        return (loc[0], loc[1] + (('x', i),))

    def getp(self, st, p):
        loc, tid, fat = self.place(st, p)
        return self.read(st, loc)

    # ---------------------------------------------------------------- constants & operands
    def const(self, k):
        if 'zst' in k:
            t = self.T[k['zst']]
            if t['k'] in ('fndef',):
                return ('fn', k['zst'])
            if t['k'] == 'closure':
                return ('A', 'closure:' + (t['key'] or '?' + t['path']), 0, tuple(self.zst(f) for f in t.get('f', ())))
            if t['k'] == 'tuple' and t.get('f'):
                return ('A', 'tuple', 0, tuple(self.zst(f) for f in t['f']))
            if t['k'] == 'adt':
                if t['ak'] == 'enum':
                    return ('A', t['path'], 0, ())
                return ('A', t['path'], 0, tuple(self.zst(f[1]) for f in (t['v'][0]['f'] if t['v'] else ())))
            return UNIT
        if 'un' in k:
            if k.get('key') and self.p.body(k['key']) is not None:
                v = self.const_run(k['key'])
                if v is not None:
                    return v
            return ('sym', 'const:%s' % k['un'])
        return self.cval(k['v'], k['t'])

    def zst(self, tid):
        return self.const({'zst': tid})

    def const_run(self, key):
        """value of a constant given by its body: straight-line, effect free"""
        if key in self.p._consts:
            return self.p._consts[key]
        self.p._consts[key] = None
        sub = Interp(self.p, self.nat, None)
        out = []
        sub.end = lambda st, status, val=None: out.append((status, val, st))
        sub.ret = lambda st, v: False if len(st.fr) == 1 else Interp.ret(sub, st, v)
        try:
            st = sub.start(key, [])
            for _ in range(200):
                r = sub.step(st)
                if r is not None:
                    break
        except Unsupported:
            return None
        if len(out) != 1 or out[0][0] != 'return' or out[0][2].tr:
            return None
        st = out[0][2]

        def fix(v, d=0):
            if v[0] == 'P' and d < 8:
                if v[1][0] in ('sym', 'mem', 'K'):
                    return v
                t = sub.read(st, (v[1], v[2]))
                return ('P', ('K', fix(t, d + 1)), (), v[3])
            if v[0] == 'A':
                return ('A', v[1], v[2], tuple(fix(x, d + 1) if isinstance(x, tuple) and x and isinstance(x[0], str) else x for x in v[3]))
            return v
        try:
            self.p._consts[key] = fix(out[0][1])
        except Unsupported:
            return None
        return self.p._consts[key]

    def cval(self, v, tid):
        t = self.T[tid]
        if isinstance(v, str):
            return ('sym', 'const:%s:%s' % (v, t['s']))
        if 'i' in v:
            return I(v['i'])
        if 'str' in v:
            return S(v['str'], 'str')
        if 'bstr' in v:
            return S(v['bstr'], 'u8')
        if 'bytes' in v:
            return S(v['bytes'], 'u8')
        if 'zst' in v:
            return self.zst(v['zst'])
        if 'dynref' in v:
            if v['vt'] is None:
                return ('sym', 'const:?dyn:%s' % t['s'])
            return ('P', ('K', self.cval(v['dynref'], v['dt'])), (), ('vt', self.vtid(v['vt'])))
        if 'fnptr' in v:
            return ('fnv', json.dumps(v['fnptr'], sort_keys=True))
        if 'static' in v:
            return ('sym', 'static:' + v['static'])
        et = t.get('t')
        if 'ref' in v:
            inner = v['ref']
            iv = self.cval(inner, et)
            if iv[0] == 'S' and isinstance(inner, dict) and 'bytes' in inner:
                return iv  # reference to a constant byte array: same thing as the slice
            return ('P', ('K', iv), (), None)
        if 'sl' in v:
            e = self.T[et]['t']
            arr = ('A', 'array', 0, tuple(self.cval(x, e) for x in v['sl']))
            return ('P', ('K', arr), (), I(len(v['sl'])))
        if 'arr' in v:
            return ('A', 'array', 0, tuple(self.cval(x, et) for x in v['arr']))
        if 'agg' in v:
            return ('A', 'tuple', 0, tuple(self.cval(x, y) for x, y in zip(v['agg'], t['f'])))
        if 'adt' in v:
            if not t['v']:
                return ('A', t['path'], v['adt'], tuple(('sym', 'const:' + json.dumps(x)) for x in v['f']))
            fts = t['v'][v['adt']]['f']
            return ('A', t['path'], v['adt'], tuple(self.cval(x, y[1]) for x, y in zip(v['f'], fts)))
        return ('sym', 'const:%s' % json.dumps(v)[:80])

    def operand(self, st, o):
        if 'c' in o:
            return self.getp(st, o['c'])
        if 'm' in o:
            return self.getp(st, o['m'])
        k = o['k']
        i = id(k)
        r = self.p._consts.get(i)
        if r is None:
            r = self.p._consts[i] = self.const(k)
        return r

    # ---------------------------------------------------------------- facts
    def discr(self, st, v, tid):
        t = self.T[tid]
        if v[0] == 'A' and t['k'] == 'adt' and t['ak'] == 'enum':
            if t['v']:
                return I(t['v'][v[2]]['d'])
            return I(v[2])
        if v[0] == 'A':
            return I(0)
        if is_term(v):
            v = st.F.norm(v)
            if v[0] == 'A':
                return self.discr(st, v, tid)
            d = ('discr', v)
            d = st.F.norm(d)
            if d[0] == 'i':
                return d
            if t['k'] == 'adt' and t['ak'] == 'enum' and t['v']:
                if d not in st.F.dom:
                    st.F.dom[d] = ('in', frozenset(self.p.discrs(tid).values()))
                st.F.ety[v] = tid
                s = st.F.dom[d]
                if s[0] == 'in' and len(s[1]) == 1:
                    return I(next(iter(s[1])))
            return d
        raise Unsupported('discriminant of %s' % show(v))

    def domof(self, F, t):
        if t[0] == 'i':
            return ('in', frozenset([t[1]]))
        d = F.dom.get(t)
        if d is None and t[0] == 'lin' and len(t[2]) == 1:
            (x, k), c = t[2][0], t[1]
            d = F.dom.get(x)
            if d:
                d = (d[0], frozenset(k * v + c for v in d[1]))
        return d

    def fold(self, F, t):
        """with the quantities of known value put in"""
        ts, c = tolin(t)
        for x in ts:
            d = F.dom.get(x)
            if d and d[0] == 'in' and len(d[1]) == 1:
                break
        else:
            return t
        out = {}
        for x, k in ts.items():
            d = F.dom.get(x)
            if d and d[0] == 'in' and len(d[1]) == 1:
                c += k * next(iter(d[1]))
            else:
                out[x] = k
        return lin(out, c)

    def unsigned_nonneg(self, t):
        return True

    def decide(self, st, v):
        """truth of a boolean value: True/False/None"""
        if v[0] == 'i':
            return bool(v[1])
        F = st.F
        v = F.norm(v)
        if v[0] == 'i':
            return bool(v[1])
        if v[0] == 'op':
            o = v[1]
            if o == 'Not':
                r = self.decide(st, v[2])
                return None if r is None else (not r)
            if o == 'And':
                a, b = self.decide(st, v[2]), self.decide(st, v[3])
                if a is False or b is False:
                    return False
                if a and b:
                    return True
                return None
            if o == 'Or':
                a, b = self.decide(st, v[2]), self.decide(st, v[3])
                if a or b:
                    return True
                if a is False and b is False:
                    return False
                return None
            if o == 'Eq':
                a, b = v[2], v[3]
                if a == b:
                    return True
                if a[0] == 'i' and b[0] == 'i':
                    return a[1] == b[1]
                if a[0] == 'i':
                    a, b = b, a
                if a[0] == 'lin' or b[0] == 'lin':
                    fa, fb = self.fold(F, a), self.fold(F, b)
                    if fa[0] == 'i' and fb[0] == 'i':
                        return fa[1] == fb[1]
                da, db = self.domof(F, a), self.domof(F, b)
                if da and db:
                    if da[0] == 'in' and db[0] == 'in':
                        if not (da[1] & db[1]):
                            return False
                        if len(da[1]) == 1 and da[1] == db[1]:
                            return True
                    elif da[0] == 'out' and db[0] == 'in' and db[1] <= da[1]:
                        return False
                    elif db[0] == 'out' and da[0] == 'in' and da[1] <= db[1]:
                        return False
                if frozenset((a, b)) in F.ne:
                    return False
                d = sub_(a, b)
                if d[0] == 'i':
                    return d[1] == 0
                # a - b is (a known non-zero unsigned) + a non-negative constant
                if self.positive(F, d) or self.positive(F, self.negl(d)):
                    return False
                if self.le_known(F, ('op', 'Lt', a, b)) or self.le_known(F, ('op', 'Lt', b, a)):
                    return False
                dd = F.dom.get(d) or F.dom.get(self.negl(d))
                if dd:
                    if dd == ('in', frozenset([0])):
                        return True
                    if dd[0] == 'out' and 0 in dd[1] or dd[0] == 'in' and 0 not in dd[1]:
                        return False
                if len(tolin(d)[0]) > 1 and tolin(d)[0].keys() & self.related(F):
                    fs = self.linear(F)
                    lo, hi = self.proved(fs, d), self.proved(fs, self.negl(d))
                    if lo and hi:
                        return True
                    if lo and self.proved(fs, add(d, I(-1))) or hi and self.proved(fs, add(self.negl(d), I(-1))):
                        return False
            if o in ('Lt', 'Le'):
                r = self.cmp(F, o, v[2], v[3])
                if r is not None:
                    return r
                d = sub_(v[3], v[2])
                if len(tolin(d)[0]) > 1 and tolin(d)[0].keys() & self.related(F):
                    fs = self.linear(F)
                    k = -1 if o == 'Lt' else 0
                    if self.proved(fs, add(d, I(k))):
                        return True
                    if self.proved(fs, add(self.negl(d), I(-1 - k))):
                        return False
        d = F.dom.get(v)
        if d == ('in', frozenset([1])):
            return True
        if d == ('in', frozenset([0])):
            return False
        return None

    def negl(self, d):
        return sub_(I(0), d)

    def positive(self, F, d):
        """d > 0 for sure, given that atoms are unsigned"""
        b = self.atleast(F, d)
        return b is not None and b > 0

    def atleast(self, F, d):
        """a lower bound of a sum of unsigned terms (None: unbounded)"""
        ts, b = tolin(d)
        for t, k in ts.items():
            if k < 0:
                return None
            dm = F.dom.get(t)
            if dm:
                lo = 0
                if dm[0] == 'in':
                    lo = min(dm[1], default=0)
                else:
                    while lo in dm[1]:
                        lo += 1
                b += k * max(lo, 0)
        return b

    def related(self, F):
        """atoms that occur in known inequalities"""
        r = set()
        for v, d in F.dom.items():
            if v[0] == 'op' and v[1] in ('Lt', 'Le'):
                r.update(tolin(v[2])[0])
                r.update(tolin(v[3])[0])
        return r

    def linear(self, F):
        """linear forms known to be non-negative"""
        out = []
        gaps = {}
        for v, d in F.dom.items():
            if v[0] == 'lin' and d[0] == 'out':
                for w in (v, self.negl(v)):
                    ts, c = tolin(w)
                    gaps.setdefault(frozenset(ts.items()), set()).update((x - c) if w == v else (-x - c) for x in d[1])
        for v, d in F.dom.items():
            if v[0] == 'op' and v[1] in ('Lt', 'Le') and d[0] == 'in' and len(d[1]) == 1:
                yes = 1 in d[1]
                f = sub_(v[3], v[2]) if yes else sub_(v[2], v[3])
                if (v[1] == 'Lt') == yes or frozenset((v[2], v[3])) in F.ne:
                    f = add(f, I(-1))
                ts, c = tolin(f)
                while -c in gaps.get(frozenset(ts.items()), ()):
                    c -= 1
                    f = add(f, I(-1))
                out.append(f)
        return out

    def proved(self, fs, g):
        """g >= 0, as the sum of at most two of fs and of unsigned terms"""
        def pos(x):
            ts, c = tolin(x)
            return c >= 0 and all(k > 0 for k in ts.values())
        if pos(g):
            return True
        neg = {t for t, k in tolin(g)[0].items() if k < 0}
        for f in fs:
            if tolin(g)[1] < 0 or neg & tolin(f)[0].keys():
                h = sub_(g, f)
                if pos(h) or any(pos(sub_(h, x)) for x in fs):
                    return True
        return False

    def le_known(self, F, v):
        return F.dom.get(v) == ('in', frozenset([1]))

    def cmp(self, F, o, a, b):
        """a < b / a <= b over non-negative integers"""
        a, b = self.fold(F, a), self.fold(F, b)
        if a[0] == 'i' and b[0] == 'i':
            return a[1] < b[1] if o == 'Lt' else a[1] <= b[1]
        if a == b:
            return o == 'Le'
        d = sub_(b, a)
        if d[0] == 'i':
            return d[1] > 0 if o == 'Lt' else d[1] >= 0
        if self.positive(F, d):
            return True
        b1 = self.atleast(F, d)
        if o == 'Le' and b1 is not None and b1 >= 0:
            return True
        n = self.negl(d)
        if o == 'Le' and self.positive(F, n):
            return False
        b1 = self.atleast(F, n)
        if o == 'Lt' and b1 is not None and b1 >= 0:
            return False
        if self.le_known(F, ('op', 'Lt', a, b)):
            return True
        if F.dom.get(('op', 'Le', a, b)) == ('in', frozenset([0])):
            return False
        if self.le_known(F, ('op', 'Lt', b, a)):
            return False
        if o == 'Le' and self.le_known(F, ('op', 'Le', a, b)):
            return True
        if o == 'Lt' and self.le_known(F, ('op', 'Le', a, b)):
            if frozenset((a, b)) in F.ne:
                return True
        if o == 'Lt' and F.dom.get(('op', 'Lt', a, b)) == ('in', frozenset([0])):
            return False
        if o == 'Lt' and self.le_known(F, ('op', 'Le', b, a)):
            return False
        if o == 'Le' and F.dom.get(('op', 'Lt', b, a)) == ('in', frozenset([0])):
            return True
        return None

    def restrict(self, st, t, keep):
        """t's value satisfies keep=('in'/'out', set); returns False if infeasible"""
        F = st.F
        t = F.norm(t)
        if t[0] == 'i':
            return (t[1] in keep[1]) == (keep[0] == 'in')
        cur = F.dom.get(t)
        if cur is None:
            new = keep
        elif cur[0] == 'in':
            new = ('in', frozenset(x for x in cur[1] if (x in keep[1]) == (keep[0] == 'in')))
        elif keep[0] == 'in':
            new = ('in', keep[1] - cur[1])
        else:
            new = ('out', cur[1] | keep[1])
        if new[0] == 'in' and not new[1]:
            return False
        F.dom[t] = new
        if new[0] == 'out' and t[0] == 'lin' and len(t[2]) == 1 and abs(t[2][0][1]) == 1:
            if not self.restrict(st, t[2][0][0], ('out', frozenset((x - t[1]) * t[2][0][1] for x in keep[1]))):
                return False
        if new[0] == 'in' and len(new[1]) == 1:
            if t[0] == 'lin' and len(t[2]) == 1 and abs(t[2][0][1]) == 1:
                if not self.restrict(st, t[2][0][0], ('in', frozenset([(next(iter(new[1])) - t[1]) * t[2][0][1]]))):
                    return False
            else:
                x = next(iter(new[1]))
                for o, d in list(F.dom.items()):
                    if o[0] == 'lin' and len(o[2]) == 1 and o[2][0][0] == t and ((o[2][0][1] * x + o[1]) in d[1]) != (d[0] == 'in'):
                        return False
            for pr in F.ne:
                if t in pr:
                    (o,) = [x for x in pr if x != t] or [t]
                    if o != t:
                        d = F.dom.get(o)
                        if d and d[0] == 'in' and new[1] & d[1]:
                            nd = d[1] - new[1]
                            if not nd:
                                return False
                            F.dom[o] = ('in', nd)
        if t[0] == 'lin' and new == ('in', frozenset([0])):
            # a = b : orient
            ts, c = t[2], t[1]
            if c == 0 and len(ts) == 2 and {ts[0][1], ts[1][1]} == {1, -1}:
                return self.union(st, ts[0][0], ts[1][0])
        return True

    def union(self, st, a, b):
        F = st.F
        a, b = F.norm(a), F.norm(b)
        if a == b:
            return True
        if frozenset((a, b)) in F.ne:
            return False
        # keep the smaller/older term as representative
        if a[0] == 'i' or (b[0] != 'i' and (len(repr(a)), repr(a)) <= (len(repr(b)), repr(b))):
            keep, drop = a, b
        else:
            keep, drop = b, a
        if drop[0] == 'i':
            return False
        if keep in set(walk(drop)) and keep[0] != 'i':
            pass
        if drop in set(walk(keep)):
            keep, drop = drop, keep
        dd = F.dom.pop(drop, None)
        rep = dict(F.rep)
        rep[drop] = keep
        F.rep = rep
        if drop in F.ety and keep not in F.ety:
            F.ety[keep] = F.ety[drop]
        if dd is not None and not self.restrict(st, keep, dd):
            return False
        F.ne = frozenset(frozenset(F.norm(x) for x in pr) for pr in F.ne)
        if any(len(pr) == 1 for pr in F.ne):
            return False
        # re-normalise the keys of the domain map
        nd = {}
        for k, v in list(F.dom.items()):
            n = F.norm(k)
            if n != k:
                del F.dom[k]
                nd[n] = v
        for k, v in nd.items():
            if not self.restrict(st, k, v):
                return False
        return True

    def assume(self, st, v, val):
        """add the fact that boolean v is val; False if infeasible"""
        r = self.decide(st, v)
        if r is not None:
            return r == val
        F = st.F
        v = F.norm(v)
        if v[0] == 'op':
            o = v[1]
            if o == 'Not':
                return self.assume(st, v[2], not val)
            if o == 'And' and val or o == 'Or' and not val:
                return self.assume(st, v[2], val) and self.assume(st, v[3], val)
            if o == 'Eq':
                a, b = v[2], v[3]
                if a[0] == 'i':
                    a, b = b, a
                if val:
                    if b[0] == 'i':
                        if a[0] == 'lin' and len(a[2]) == 1 and abs(a[2][0][1]) == 1:
                            return self.restrict(st, a[2][0][0], ('in', frozenset([(b[1] - a[1]) * a[2][0][1]])))
                        return self.restrict(st, a, ('in', frozenset([b[1]])))
                    if not self.union(st, a, b):
                        return False
                    if a[0] == 'discr' and b[0] == 'discr':
                        ta, tb = F.ety.get(a[1]), F.ety.get(b[1])
                        if ta is not None and tb is not None and all(not x['f'] for x in self.T[ta]['v']):
                            return self.union(st, a[1], b[1])
                    return True
                if b[0] == 'i':
                    return self.restrict(st, a, ('out', frozenset([b[1]])))
                F.ne = F.ne | {frozenset((a, b))}
                d = sub_(a, b)
                for x, y in ((a, b), (b, a)):
                    dx, dy = F.dom.get(x), F.dom.get(y)
                    if dx and dx[0] == 'in' and len(dx[1]) == 1 and dy and dy[0] == 'in':
                        nd = dy[1] - dx[1]
                        if not nd:
                            return False
                        F.dom[y] = ('in', nd)
                return True
            if o == 'Lt' and val and v[2] == I(0):
                return self.restrict(st, v[3], ('out', frozenset([0])))
            if o == 'Lt' and not val and v[2] == I(0):
                return self.restrict(st, v[3], ('in', frozenset([0])))
            if o == 'Lt' and v[3] == I(1):
                return self.restrict(st, v[2], ('in' if val else 'out', frozenset([0])))
            if o == 'Le' and v[2] == I(1):
                return self.restrict(st, v[3], ('out' if val else 'in', frozenset([0])))
            if o == 'Le' and v[3] == I(0):
                return self.restrict(st, v[2], ('in' if val else 'out', frozenset([0])))
            if o == 'Lt' and not val and self.le_known(F, ('op', 'Le', v[2], v[3])):
                F.dom[v] = ('in', frozenset([0]))
                return self.assume(st, ('op', 'Eq', v[2], v[3]), True)
        return self.restrict(st, v, ('in', frozenset([1 if val else 0])))

    def canon(self, st, v):
        """deep normal form under the facts, for comparisons"""
        F = st.F
        v = F.norm(v)
        return self._canon(st, v, {})

    def _canon(self, st, v, memo):
        if not isinstance(v, tuple) or not v:
            return v
        if v[0] in ('i', 'S', 'fn'):
            return v
        if v in memo:
            return memo[v]
        F = st.F
        r = memo[v] = v
        if is_term(v):
            d = F.dom.get(v)
            if d and d[0] == 'in' and len(d[1]) == 1:
                r = I(next(iter(d[1])))
            else:
                tid = F.ety.get(v)
                dd = F.dom.get(('discr', v))
                if tid is not None and dd and dd[0] == 'in' and len(dd[1]) == 1:
                    t = self.T[tid]
                    x = next(iter(dd[1]))
                    vi = [i for i, y in enumerate(t['v']) if y['d'] == x][0]
                    r = ('A', t['path'], vi, tuple(self._canon(st, F.norm(('fld', v, vi, i)), memo) for i in range(len(t['v'][vi]['f']))))
                else:
                    n = relin(tuple(self._canon(st, x, memo) if isinstance(x, tuple) else x for x in v))
                    if n[0] == 'fld' and n[1][0] == 'A' and n[1][2] == n[2] and n[3] < len(n[1][3]):
                        n = n[1][3][n[3]]
                    r = n
        else:
            n = tuple(self._canon(st, x, memo) if isinstance(x, tuple) else x for x in v)
            r = n
            # eta: struct rebuilt field by field from one term
            if n[0] == 'A' and n[3] and n[1] not in ('array',):
                f0 = n[3][0]
                if isinstance(f0, tuple) and f0 and f0[0] == 'fld' and all(isinstance(x, tuple) and x[0] == 'fld' and x[1] == f0[1] and x[2] == n[2] and x[3] == i for i, x in enumerate(n[3])):
                    tid = None
                    if n[1] in self._nfields() and self._nfields()[n[1]] == len(n[3]):
                        r = f0[1]
        memo[v] = r
        return r

    _nf = None

    def _nfields(self):
        if self._nf is None:
            self._nf = {}
            for t in self.T:
                if t['k'] == 'adt' and t.get('ak') == 'struct' and t['v']:
                    self._nf[t['path']] = len(t['v'][0]['f'])
        return self._nf

    def same(self, st, a, b):
        """a and b denote the same value on this path (sound, incomplete)"""
        a, b = self.canon(st, a), self.canon(st, b)
        return self._same(st, a, b)

    def _same(self, st, a, b):
        if a == b:
            return True
        if a[0] == 'A' and b[0] == 'A':
            return a[1] == b[1] and a[2] == b[2] and len(a[3]) == len(b[3]) and all(self._same(st, x, y) for x, y in zip(a[3], b[3]))
        if b[0] == 'A' and is_term(a):
            a, b = b, a
        if a[0] == 'A' and is_term(b) and a[3]:
            # struct against term: field-wise
            if self._nfields().get(a[1]) == len(a[3]):
                return all(self._same(st, x, self.canon(st, ('fld', b, a[2], i))) for i, x in enumerate(a[3]))
            dd = st.F.dom.get(('discr', b))
            tid = st.F.ety.get(b)
            if dd and tid is not None and dd[0] == 'in' and len(dd[1]) == 1:
                return all(self._same(st, x, self.canon(st, ('fld', b, a[2], i))) for i, x in enumerate(a[3])) and self.T[tid]['v'][a[2]]['d'] in dd[1]
        if a[0] in ('lin', 'i', 'len') or b[0] in ('lin', 'i', 'len'):
            try:
                if sub_(a, b) == I(0):
                    return True
            except Exception:
                return False
            return a[0] in ('lin', 'i', 'len', 'ix', 'fld') and b[0] in ('lin', 'i', 'len', 'ix', 'fld') and self.decide(st, self.binop(st, 'Eq', a, b, 0)) is True
        if a[0] == b[0] and a[0] in ('ix', 'fld', 'sub', 'mem', 'len', 'op') and len(a) == len(b):
            # the same function of the same things
            return all(x == y or isinstance(x, tuple) and isinstance(y, tuple) and x and y and self._same(st, x, y) for x, y in zip(a[1:], b[1:]))
        return False

    # ---------------------------------------------------------------- rvalues
    def binop(self, st, op, a, b, tid):
        F = st.F
        a, b = F.norm(a), F.norm(b)
        ck = op.endswith('WithOverflow')
        base = op.replace('WithOverflow', '').replace('Unchecked', '')
        if base in ('Add', 'Sub', 'Mul'):
            if base == 'Add':
                r = add(a, b)
            elif base == 'Sub':
                r = sub_(a, b)
            elif a[0] == 'i' and b[0] == 'i':
                r = I(a[1] * b[1])
            else:
                r = ('op', 'Mul', a, b)
            if ck:
                return ('A', 'tuple', 0, (r, FALSE))
            return r
        ints = a[0] == 'i' and b[0] == 'i'
        if base in ('BitAnd', 'BitOr', 'BitXor') and self.T[tid]['k'] == 'bool':
            if base == 'BitXor':
                return self.binop(st, 'Ne', a, b, tid)
            if ints:
                return I(a[1] & b[1] if base == 'BitAnd' else a[1] | b[1])
            for x, y in ((a, b), (b, a)):
                if x[0] == 'i':
                    if base == 'BitAnd':
                        return y if x[1] else FALSE
                    return TRUE if x[1] else y
            return ('op', 'And' if base == 'BitAnd' else 'Or', a, b)
        if ints and base in ('BitAnd', 'BitOr', 'BitXor', 'Shl', 'Shr', 'Div', 'Rem'):
            x, y = a[1], b[1]
            return I({'BitAnd': lambda: x & y, 'BitOr': lambda: x | y, 'BitXor': lambda: x ^ y, 'Shl': lambda: x << y, 'Shr': lambda: x >> y,
                      'Div': lambda: x // y, 'Rem': lambda: x % y}[base]())
        if base in ('Eq', 'Ne'):
            if a[0] in ('P', 'S', 'fn', 'A') or b[0] in ('P', 'S', 'fn', 'A'):
                if a == b:
                    return TRUE if base == 'Eq' else FALSE
                r = ('op', 'Eq', a, b)
            else:
                if self.T[tid]['k'] == 'bool':
                    for x, y in ((a, b), (b, a)):
                        if x[0] == 'i':
                            r = y if x[1] else ('op', 'Not', y)
                            return r if base == 'Eq' else self.neg(r)
                if repr(a) > repr(b):
                    a, b = b, a
                r = ('op', 'Eq', a, b)
            return r if base == 'Eq' else self.neg(r)
        if base == 'Lt':
            return ('op', 'Lt', a, b) if not ints else I(int(a[1] < b[1]))
        if base == 'Le':
            return ('op', 'Le', a, b) if not ints else I(int(a[1] <= b[1]))
        if base == 'Gt':
            return ('op', 'Lt', b, a) if not ints else I(int(a[1] > b[1]))
        if base == 'Ge':
            return ('op', 'Le', b, a) if not ints else I(int(a[1] >= b[1]))
        return ('op', base, a, b)

    def neg(self, v):
        if v[0] == 'i':
            return I(1 - v[1])
        if v[0] == 'op' and v[1] == 'Not':
            return v[2]
        return ('op', 'Not', v)

    def ref(self, st, p):
        loc, tid, fat = self.place(st, p)
        if fat is not None and p[-1] == '*' or (fat is not None and isinstance(p[-1], list) and p[-1][0] == 's'):
            return fat
        if loc[0][0] == 'mem' and not loc[1]:
            return loc[0][1]
        if loc[0][0] == 'CS' and not loc[1]:
            return loc[0][1]
        return ('P', loc[0], loc[1], None)

    def rvalue(self, st, r):
        k = r[0]
        if k == 'use':
            return self.operand(st, r[1])
        if k in ('ref', 'reborrow'):
            return self.ref(st, r[1])
        if k == 'agg':
            fs = tuple(self.operand(st, o) for o in r[4])
            t = self.T[r[2]]
            if r[1] == 'adt':
                return ('A', t['path'], r[3], fs)
            if r[1] == 'closure':
                return ('A', 'closure:' + t['key'], 0, fs)
            if r[1] == 'rawptr':
                p, m = fs
                if m == UNIT:
                    return p
                if p[0] == 'P':
                    return ('P', p[1], p[2], m)
                return mk_sub(p, I(0), m) if m != slen(p) else p
            return ('A', r[1], 0, fs)
        if k == 'discr':
            if len(r[1]) == 1 and (len(st.fr), r[1][0]) not in st.mem:
                # left over from a branch the compiler removed (of an uninhabited variant)
                return ('discr', ('unk', (len(st.fr), r[1][0])))
            return self.discr(st, self.getp(st, r[1]), r[2])
        if k == 'cast':
            return self.cast(st, r)
        if k == 'bin':
            return self.binop(st, r[1], self.operand(st, r[2]), self.operand(st, r[3]), r[4])
        if k == 'un':
            v = st.F.norm(self.operand(st, r[2]))
            if r[1] == 'Not':
                if self.T[r[3]]['k'] == 'bool':
                    return self.neg(v)
                return ('op', 'BitNot', v)
            if r[1] == 'PtrMetadata':
                if v[0] == 'P' and isinstance(v[3], tuple) and v[3][0] == 'vt':
                    return v[3]
                if self.T[r[3]]['k'] in ('ref', 'ptr') and self.T[self.T[r[3]]['t']]['k'] in ('slice', 'str'):
                    return slen(v)
                return UNIT
            if r[1] == 'Neg':
                return sub_(I(0), v)
        if k == 'repeat':
            v = self.operand(st, r[1])
            if r[2] is None or r[2] > 4096:
                raise Unsupported('repeat')
            return ('A', 'array', 0, (v,) * r[2])
        raise Unsupported('rvalue %s' % (r[:2],))

    def cast(self, st, r):
        kind, v, ft, tt = r[1], self.operand(st, r[2]), r[3], r[4]
        if kind.startswith('Unsize'):
            vt = r[5] if len(r) > 5 else None
            if vt is not None:
                vid = self.vtid(vt)
                v = st.F.norm(v) if is_term(v) else v
                if v[0] == 'P':
                    return ('P', v[1], v[2], ('vt', vid))
                if is_term(v):
                    return ('P', ('mem', v), (), ('vt', vid))
                if v[0] in ('S', 'sub'):
                    return ('P', ('CS', v), (), ('vt', vid))
                if v[0] == 'box':
                    return ('P', ('K', v[1]), (), ('vt', vid))
                raise Unsupported('unsize of %s' % show(v))
            ft_ = self.T[ft]
            pt = ft_.get('t')
            if ft_['k'] == 'adt':
                pt = ft_['args'][0] if ft_['args'] else None
            if pt is not None and self.T[pt]['k'] == 'array':
                n = self.T[pt]['n']
                if v[0] == 'P':
                    return ('P', v[1], v[2], I(n) if n is not None else ('len', v))
                if v[0] == 'S':
                    return v
                if is_term(v):
                    return ('P', ('mem', v), (), I(n) if n is not None else ('len', v))
            return v
        if kind.startswith('ReifyFnPointer') or kind.startswith('ClosureFnPointer') or kind.startswith('UnsafeFnPointer'):
            return v
        if kind == 'Transmute' or kind.startswith('PtrToPtr') or kind == 'BoxDerefTransmute' or kind.startswith('MutToConst') or kind == 'FnPtrToPtr':
            return v
        if kind == 'IntToInt':
            v = st.F.norm(v)
            if v[0] == 'i':
                ts = self.T[tt]['s']
                bits = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'usize': 64, 'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64, 'isize': 64, 'char': 32}.get(ts)
                if bits:
                    x = v[1] & ((1 << bits) - 1)
                    if ts[0] == 'i' and x >> (bits - 1):
                        x -= 1 << bits
                    return I(x)
                return v
            if self.T[ft]['k'] == 'bool':
                d = self.decide(st, v)
                return v if d is None else I(int(d))
            if v[0] == 'discr':
                return v
            sz = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'usize': 64, 'char': 32, 'bool': 1, 'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64, 'isize': 64}
            if sz.get(self.T[tt]['s'], 64) >= sz.get(self.T[ft]['s'], 64):
                return v
            return ('op', 'cast:' + self.T[tt]['s'], v)
        return ('op', 'cast:%s' % kind, v)

    def vtid(self, vt):
        k = id(vt)
        m = self.p.__dict__.setdefault('_vts', {})
        c = json.dumps(vt, sort_keys=True)
        if c not in m:
            m[c] = vt
        ids = self.p.__dict__.setdefault('_vtn', {})
        nm = '%s' % self.T[vt['self']]['s'] + '|' + ','.join(x[0] for x in vt['m'])
        ids[nm] = vt
        return nm

    # ---------------------------------------------------------------- running
    def start(self, key, args, ghost=None):
        st = St.__new__(St)
        st.fr = []
        st.bb = 0
        st.mem = {}
        st.F = Facts()
        st.ghost = dict(ghost or {})
        st.tr = ()
        st.nev = 0
        st.vis = {}
        st.las = None
        st.notes = ()
        st.taint = None
        st.gen = False
        st.pos = 0
        st.pc = ()
        self.entry_key = key
        self.push(st, key, list(args), None, None)
        return st

    def push(self, st, key, args, dest, target, abi_rust_call=False):
        body = self.p.fns[key]
        if body is None:
            raise Unsupported('no body: ' + key)
        if len(st.fr) > 60:
            raise Unsupported('call depth')
        if len([1 for f in st.fr if f[0] == key]) > 3:
            raise Unsupported('recursion through ' + key)
        self.stats['fns'].add(key.split(' @')[0])
        self.stats['calls'] += 1
        n = body['args']
        if body['spread'] is not None:
            sp = body['spread']
            head, tail = args[:sp - 1], args[sp - 1:]
            args = head + [('A', 'tuple', 0, tuple(tail))]
        if len(args) != n:
            raise Unsupported('arity of %s: %d args for %d' % (key, len(args), n))
        st.fr.append((key, body, dest, target, st.bb))
        d = len(st.fr)
        for i, a in enumerate(args):
            st.mem[(d, i + 1)] = a
        st.bb = 0
        for k in [k for k in st.vis if k[0] >= d]:
            del st.vis[k]

    def ret(self, st, val):
        d = len(st.fr)
        key, body, dest, target, callbb = st.fr.pop()
        m = st.mem
        for k in [k for k in m if isinstance(k[0], int) and k[0] >= d]:
            del m[k]
        if not st.fr:
            return False
        self.finish_call(st, dest, target, val)
        return True

    def finish_call(self, st, dest, target, val):
        if dest is not None:
            self.store(st, dest, val)
        st.bb = target

    def run(self, make):
        """make() -> list of initial states; explores every partition.  Restarts when a loop
        turns out to need widening."""
        while True:
            try:
                self.exits = []
                self.table = {}
                self.stats['steps'] = 0
                if self.mon:
                    self.mon.reset()
                self._run(make())
                return self.exits
            except NeedWiden as w:
                self.widen.add(w.head)
                self.stats['loops'] += 1

    def _run(self, states):
        work = list(states)
        n = 0
        while work:
            st = work.pop()
            try:
                nxt = self.step_until(st)
            except Unsupported as u:
                self.end(st, 'unsupported', str(u))
                continue
            except RecursionError:
                self.end(st, 'unsupported', 'recursion')
                continue
            work.extend(nxt)
            if len(self.exits) > self.maxpaths:
                raise Unsupported('more than %d partitions' % self.maxpaths)

    def end(self, st, status, val=None):
        self.stats['paths'] += 1
        ex = (status, val, st)
        if self.mon:
            self.mon.exit(self, st, status, val)
        self.exits.append(status)

    def step_until(self, st):
        while True:
            r = self.step(st)
            if r is not None:
                return r

    def where(self, st):
        key, body = st.fr[-1][0], st.fr[-1][1]
        b = body['bb'][st.bb]
        return key.split(' @')[0], body['file'], b[2] if b else body['line']

    def step(self, st):
        self.stats['steps'] += 1
        if self.stats['steps'] > self.maxsteps:
            raise Unsupported('step budget')
        key, body = st.fr[-1][0], st.fr[-1][1]
        pos = st.pos
        if pos:
            st.pos = 0
        elif st.bb in self.p.heads(key):
            r = self.head(st, key, st.bb)
            if r is False:
                return []
        if st.las and not pos:
            st.las = tuple((x[0], hash((x[1], key, st.bb)), x[2], x[3]) for x in st.las)
        blk = body['bb'][st.bb]
        for j, (p, rv) in enumerate(blk[0]):
            if j < pos - 1:
                continue
            if rv[0] == 'setdiscr':
                loc, tid, _ = self.place(st, p)
                try:
                    v = self.read(st, loc)
                except Unsupported:
                    v = None
                t = self.T[tid]
                if v is not None and v[0] == 'A':
                    self.store(st, loc, (v[0], t['path'], rv[1], v[3]))
                else:
                    self.store(st, loc, ('A', t['path'], rv[1], ()))
                continue
            v = self.rvalue(st, rv)
            if rv[0] == 'cast' and v[0] == 'op' and self.T[rv[3]]['k'] == 'bool' and pos != j + 1:
                # a condition used as a number: one state for each value
                out = []
                for want in (True, False):
                    for s in self.split_assume(st.copy(), v, want):
                        s.pos = j + 1
                        out.append(s)
                self.stats['forks'] += 1
                return out
            if len(p) == 1:
                st.mem[(len(st.fr), p[0])] = v
            else:
                loc, tid, fat = self.place(st, p)
                self.store(st, loc, v)
        t = blk[1]
        k = t[0]
        if k == 'goto':
            st.bb = t[1]
            return None
        if k == 'switch':
            return self.switch(st, t)
        if k == 'call':
            return self.call(st, t)
        if k == 'return':
            v = st.mem.get((len(st.fr), 0), UNIT)
            if not self.ret(st, v):
                self.end(st, 'return', v)
                return []
            return None
        if k == 'drop':
            if t[4] is not None and t[4].get('key') and self.p.body(t[4]['key']) is not None:
                loc, tid, fat = self.place(st, t[1])
                ptr = ('P', loc[0], loc[1], None) if not (loc[0][0] == 'mem' and not loc[1]) else loc[0][1]
                self.push(st, t[4]['key'], [ptr], None, t[2])
                return None
            st.bb = t[2]
            return None
        if k == 'assert':
            v = self.operand(st, t[1])
            d = self.decide(st, v)
            if d is not None and d != t[2]:
                self.end(st, 'panic', 'assertion: ' + str(t[4]))
                return []
            if d is None:
                self.assume(st, v, t[2])
            st.bb = t[3]
            return None
        if k == 'unreachable':
            self.stats['unreach'] = self.stats.get('unreach', 0) + 1
            return []
        raise Unsupported('terminator %s' % k)

    def switch(self, st, t):
        v = st.F.norm(self.operand(st, t[1]))
        if v[0] == 'i':
            for x, b in t[2]:
                if x == v[1]:
                    st.bb = b
                    return None
            st.bb = t[3]
            return None
        isbool = self.T[t[4]]['k'] == 'bool'
        if isbool:
            d = self.decide(st, v)
            if d is not None:
                st.bb = next((b for x, b in t[2] if x == int(d)), t[3])
                return None
            out = []
            for val in (True, False):
                s2 = st.copy()
                feasible = self.split_assume(s2, v, val)
                for s3 in feasible:
                    s3.bb = next((b for x, b in t[2] if x == int(val)), t[3])
                    s3.pc = s3.pc + ((v, val),)
                    out.append(s3)
            self.stats['forks'] += 1
            if len(out) == 1:
                # deterministic after all
                return out
            return out
        out = []
        F = st.F
        seen = set()
        dom = F.dom.get(v)
        for x, b in t[2]:
            seen.add(x)
            if dom and dom[0] == 'in' and x not in dom[1]:
                continue
            if dom and dom[0] == 'out' and x in dom[1]:
                continue
            s2 = st.copy()
            if self.assume(s2, ('op', 'Eq', v, I(x)), True):
                s2.bb = b
                s2.pc = s2.pc + ((v, x),)
                out.append(s2)
        s2 = st.copy()
        okk = True
        for x in seen:
            if not self.assume(s2, ('op', 'Eq', v, I(x)), False):
                okk = False
                break
        if okk and self.unreach_bb(st, t[3]):
            okk = False
        if okk:
            s2.bb = t[3]
            s2.pc = s2.pc + ((v, 'other'),)
            out.append(s2)
        self.stats['forks'] += 1
        return out

    def unreach_bb(self, st, bb):
        b = st.fr[-1][1]['bb'][bb]
        return b is not None and not b[0] and b[1][0] == 'unreachable'

    def split_assume(self, st, v, val):
        """assume with disjunction splitting; returns list of feasible states"""
        v = st.F.norm(v)
        if v[0] == 'op' and v[1] == 'Not':
            return self.split_assume(st, v[2], not val)
        if v[0] == 'op' and (v[1] == 'And' and not val or v[1] == 'Or' and val):
            bad = not (v[1] == 'And')  # value of an operand that suffices
            out = []
            s1 = st.copy()
            for s in self.split_assume(s1, v[2], bad):
                out.append(s)
            s2 = st.copy()
            for s in self.split_assume(s2, v[2], not bad):
                out += self.split_assume(s, v[3], bad)
            return out
        if v[0] == 'op' and v[1] in ('And', 'Or'):
            out = []
            for s in self.split_assume(st, v[2], val):
                out += self.split_assume(s, v[3], val)
            return out
        return [st] if self.assume(st, v, val) else []

    # ---------------------------------------------------------------- calls
    def call(self, st, t):
        c = t[1]
        args = [self.operand(st, a) for a in t[2]]
        dest = None
        if t[3] is not None:
            dest = self.place(st, t[3])[0]
        return self.dispatch(st, c, args, dest, t[4], t[6], t[7], t[5])

    def callee_of_fn(self, v):
        if v[0] == 'fn':
            return self.T[v[1]]['c']
        if v[0] == 'fnv':
            return json.loads(v[1])
        return None

    def dispatch(self, st, c, args, dest, target, tys, abi='', rty=None):
        k = c['k']
        if k == 'fnptr':
            fv = st.F.norm(self.operand(st, c['o']))
            return self.call_value(st, fv, args, dest, target, tys, rty)
        nm = c.get('tm') or ''
        # calling a callable value
        if nm in ('core::ops::function::Fn::call', 'core::ops::function::FnMut::call_mut', 'core::ops::function::FnOnce::call_once'):
            r = self.call_closure(st, c, args, dest, target, tys, rty)
            if r is not NotImplemented:
                return r
        if k == 'virtual':
            recv = args[0]
            recv = st.F.norm(recv) if is_term(recv) else recv
            if recv[0] == 'P' and isinstance(recv[3], tuple) and recv[3][0] == 'vt':
                vt = self.p._vtn[recv[3][1]]
                for mname, mc in vt['m']:
                    if mname == nm:
                        thin = recv[1][1] if recv[1][0] == 'mem' and not recv[2] else (recv[1][1] if recv[1][0] == 'CS' and not recv[2] else ('P', recv[1], recv[2], None))
                        return self.dispatch(st, mc, [thin] + args[1:], dest, target, tys, abi, rty)
                raise Unsupported('no vtable entry ' + nm)
            return self.event(st, c, args, dest, target, tys, rty)
        # native model?
        if self.nat:
            r = self.nat.call(self, st, c, args, dest, target, tys, rty)
            if r is not NotImplemented:
                return self.done(st, r, dest, target)
        body = self.p.body(c.get('key'))
        if body is not None:
            self.push(st, c['key'], args, dest, target)
            return None
        if self.bounded and k != 'trait' and nm == 'core::clone::Clone::clone' and re.search(r'^<(alloc::(vec::Vec|string::String)|core::option::Option)\b', c.get('rp') or ''):
            # values of the library are copied faithfully
            return self.done(st, self.canon(st, self.read(st, self.deref_loc(st, args[0]))), dest, target)
        if self.bounded and k != 'trait' and nm == 'core::clone::Clone::clone_from' and re.search(r'^<alloc::(vec::Vec|string::String)\b', c.get('rp') or ''):
            self.store(st, self.deref_loc(st, args[0]), self.canon(st, self.read(st, self.deref_loc(st, args[1]))))
            return self.done(st, UNIT, dest, target)
        if k == 'shim' and c.get('key') is None and nm == 'core::clone::Clone::clone':
            return self.done(st, self.read(st, self.deref_loc(st, args[0])), dest, target)
        if c.get('p') and self.ctor(c):
            tid = None
            return self.done(st, self.ctor_val(c, args, rty), dest, target)
        if target is None:
            self.end(st, 'panic', c.get('rp') or c.get('p'))
            return []
        rp = c.get('rp') or c.get('p') or ''
        if k not in ('trait', 'virtual') and not KNOWN.search(rp) and not TEXTUAL.match(rp):
            st.taint = rp
        return self.event(st, c, args, dest, target, tys, rty)

    def ctor(self, c):
        """is the callee a tuple-struct / variant constructor?"""
        m = self.__dict__.setdefault('_ctors', None)
        if m is None:
            m = {}
            for t in self.T:
                if t['k'] == 'adt' and t.get('v'):
                    for i, v in enumerate(t['v']):
                        if t['ak'] == 'enum':
                            m[t['path'] + '::' + v['n']] = (t['path'], i)
                        else:
                            m[t['path']] = (t['path'], 0)
            self._ctors = m
        p = c.get('p')
        import re
        q = re.sub(r'::<[^>]*>', '', p)
        return m.get(p) or m.get(q)

    def ctor_val(self, c, args, rty):
        path, i = self.ctor(c)
        return ('A', path, i, tuple(args))

    def done(self, st, r, dest, target):
        """r: a value, None (handled, continue stepping), or list of (state, value)"""
        if r is None:
            return None
        if isinstance(r, list):
            out = []
            for s, v in r:
                if v is None:
                    out.append(s)
                    continue
                if target is None:
                    self.end(s, 'panic', 'diverges')
                    continue
                self.finish_call(s, dest, target, v)
                out.append(s)
            return out
        if target is None:
            self.end(st, 'panic', 'diverges')
            return []
        self.finish_call(st, dest, target, r)
        return None

    def call_closure(self, st, c, args, dest, target, tys, rty):
        f = args[0]
        tup = st.F.norm(args[1]) if is_term(args[1]) else args[1]
        nm = c['tm']
        if is_term(f):
            f = st.F.norm(f)
        byref = nm != 'core::ops::function::FnOnce::call_once'
        # peel references
        fv, fp = f, None
        for _ in range(8):
            if fv[0] == 'P':
                if isinstance(fv[3], tuple) and fv[3][0] == 'vt':
                    vt = self.p._vtn[fv[3][1]]
                    st_ = self.T[vt['self']]
                    if st_['k'] == 'param':
                        break
                fp = ('P', fv[1], fv[2], None)
                fv = self.read(st, (fv[1], fv[2]))
                if is_term(fv):
                    fv = st.F.norm(fv)
            else:
                break
        if tup[0] == 'A' and tup[1] == 'tuple':
            targs = list(tup[3])
        elif self.T[tys[1]]['k'] == 'tuple':
            targs = [fld(tup, 0, i) for i in range(len(self.T[tys[1]]['f']))]
        else:
            return NotImplemented
        ttys = self.T[tys[1]]['f'] if self.T[tys[1]]['k'] == 'tuple' else [None] * len(targs)
        if fv[0] == 'A' and fv[1].startswith('closure:'):
            key = fv[1][8:]
            body = self.p.body(key)
            if body is None:
                if 'iter::traits::accum::Sum>::sum' in key and len(targs) == 2:
                    return self.done(st, add(*[st.F.norm(x) for x in targs]), dest, target)
                return NotImplemented
            # does the closure body take self by value or by reference?
            st1 = self.T[body['locals'][1]]
            if st1['k'] == 'ref':
                if fp is None:
                    root = ('tmp', len(st.fr), st.bb)
                    st.mem[root] = fv
                    fp = ('P', root, (), None)
                selfv = fp
            else:
                selfv = fv
            self.push(st, key, [selfv] + targs, dest, target)
            return None
        if fv[0] in ('fn', 'fnv'):
            return self.call_value(st, fv, targs, dest, target, ttys, rty)
        if fv[0] == 'A' and self.nat:
            r = self.nat.apply(self, st, fv, targs, dest, target, ttys, rty)
            if r is not NotImplemented:
                return self.done(st, r, dest, target)
        if is_term(fv) and (fp is not None or f is fv) and c['k'] in ('virtual', 'trait'):
            return self.event(st, c, [fp or f, tup], dest, target, tys, rty)
        return NotImplemented

    def call_value(self, st, fv, args, dest, target, tys, rty):
        if fv[0] == 'P':
            fv = self.read(st, (fv[1], fv[2]))
        c = self.callee_of_fn(fv)
        if c is None:
            if fv[0] == 'A' and fv[1].startswith('closure:'):
                self.push(st, fv[1][8:], [fv] + args, dest, target)
                return None
            c = {'k': 'trait', 'p': 'fn-pointer', 'n': 'call', 'tm': 'fn-pointer', 'args': []}
            return self.event(st, c, [fv] + args, dest, target, [None] + list(tys), rty)
        ct = self.ctor(c)
        if ct and not c.get('key'):
            return self.done(st, ('A', ct[0], ct[1], tuple(args)), dest, target)
        return self.dispatch(st, c, args, dest, target, tys, '', rty)

    def event(self, st, c, args, dest, target, tys, rty, name=None, ret=None):
        """an operation whose implementation is outside the analysed program"""
        st.nev += 1
        self.stats['events'] += 1
        ev = Ev()
        ev.n = st.nev
        ev.name = name or c.get('tm') or c.get('rp') or c.get('p')
        ev.c = c
        ev.args = tuple(st.F.norm(a) if is_term(a) else a for a in args)
        ev.recv = ev.args[0] if ev.args else None
        ev.tys = tys
        ev.site, _, ev.line = self.where(st)
        ev.extra = None
        r = ('res', st.nev)
        ev.ret = ret if ret is not None else r
        st.tr = st.tr + (ev,)
        outs = None
        if self.mon:
            outs = self.mon.event(self, st, ev)
        if ev.ret is None:
            return []
        if outs is not None:
            res = []
            for s, v in outs:
                if target is None:
                    self.end(s, 'panic', ev.name)
                else:
                    self.finish_call(s, dest, target, v)
                    res.append(s)
            return res
        if target is None:
            self.end(st, 'panic', ev.name)
            return []
        self.finish_call(st, dest, target, ev.ret)
        return None

    # ---------------------------------------------------------------- loops
    def gc(self, st):
        """drop dead locals and unreachable cells; returns live root set"""
        keep = set()
        n = len(st.fr)
        bb = st.bb
        for d in range(n, 0, -1):
            key, body, dest, target, callbb = st.fr[d - 1]
            if d == n:
                at = bb
            else:
                at = st.fr[d][3]
            lv = self.p.live(key).get(at, set()) if at is not None else set()
            for l in lv:
                keep.add((d, l))
            if d < n:
                pass
            dd = dest
            if dd is not None and dd[1]:
                keep.add(dd[0])
        roots = [r for r in keep if r in st.mem]
        todo = list(roots) + [k for k in st.mem if k[0] in ('mem',)]
        seen = set(todo)
        vals = [st.mem[r] for r in todo if r in st.mem] + list(v for v in st.ghost.values() if isinstance(v, tuple))
        while vals:
            v = vals.pop()
            for x in walk(v):
                if isinstance(x, tuple) and len(x) >= 3 and x[0] == 'P' and isinstance(x[1], tuple):
                    r = x[1]
                    if r not in seen:
                        seen.add(r)
                        if r in st.mem:
                            vals.append(st.mem[r])
        for k in [k for k in st.mem if k not in seen]:
            del st.mem[k]

    def lasso(self, st, vk):
        """st.las: (loop, way taken since its head, way of the earlier rounds, rounds since that changed)"""
        old = [x for x in st.las or () if x[0] != vk]
        me = [x for x in st.las or () if x[0] == vk]
        h, cyc, since = me[0][1:] if me and st.vis[vk] > 1 else (None, None, 0)
        if since:
            since += 1
        elif h is not None:
            if cyc is None:
                cyc = h
            elif h != cyc:
                since = 1
        st.las = tuple(old) + ((vk, 0, cyc, since),)
        return since < 3 and (st.vis[vk] < 9 or not any(sums(v) > 7 for v in st.mem.values() if isinstance(v, tuple)))

    def head(self, st, key, bb):
        d = len(st.fr)
        vk = (d, key, bb)
        n = st.vis.get(vk, 0) + 1
        st.vis[vk] = n
        h = (key, bb)
        if h not in self.widen:
            if Interp.PRUNE is not None:
                if Interp.LASSO and not self.lasso(st, vk):
                    return False
                return n <= max(self.unroll, Interp.PRUNE)
            if n > self.unroll:
                if self.bounded:
                    raise Unsupported('a loop of more than %d iterations in %s' % (self.unroll, key))
                raise NeedWiden(h)
            return True
        self.gc(st)
        st.vis[vk] = 1
        ctx = tuple((f[0], f[4], f[3]) for f in st.fr) + (bb,)
        cells = sorted(st.mem, key=repr)
        F = st.F
        mem = {k: self.empties(st, self.canon(st, st.mem[k])) for k in cells}
        gh = {k: (self.canon(st, v) if isinstance(v, tuple) else v) for k, v in st.ghost.items()}
        bools = tuple((k, mem[k]) for k in cells if isinstance(k[0], int) and 0 < k[0] <= len(st.fr) and mem[k][0] == 'i'
                      and self.T[st.fr[k[0] - 1][1]['locals'][k[1]]]['k'] == 'bool')
        shape = (ctx, bools, tuple(cells), tuple((k, skel(mem[k])) for k in cells), tuple(sorted((k, skel(v) if isinstance(v, tuple) else v) for k, v in gh.items())))
        old = self.table.get(shape)
        first = old is None
        if first:
            facts = self.relevant(st, mem, gh)
            self.table[shape] = [mem, gh, facts, 0]
            st.mem.update(mem)
            st.ghost = dict(gh)
            return True
        omem, ogh, ofacts, gen = old
        # anti-unify
        pairs = {}
        ren = {}

        olds = []

        def before():
            if not olds:
                so = st.copy()
                so.F = Facts()
                for f in ofacts:
                    self.addfact(so, f)
                olds.append(so)
            return olds[0]
        lens = sorted({x for f in list(omem.values()) + list(ogh.values()) + [f[1] for f in ofacts if f[0] == 'dom'] if isinstance(f, tuple) for x in walk(f) if isinstance(x, tuple) and x and x[0] == 'len' and not any(isinstance(y, tuple) and y and y[0] == 'phi' for y in walk(x))}, key=repr)

        def slicy(v):
            return v[0] == 'P' and v[3] is not None or v[0] in ('S', 'sym', 'fld', 'mem', 'res')

        def au(a, b):
            if a == b:
                return a
            # the rest of a slice against the whole of it
            if isinstance(a, tuple) and isinstance(b, tuple) and a and b:
                if b[0] == 'sub' and b[1] == a and slicy(a):
                    a = ('sub', a, I(0), slen(a))
                elif a[0] == 'sub' and a[1] == b and slicy(b):
                    b = ('sub', b, I(0), slen(b))
            if isinstance(a, tuple) and isinstance(b, tuple) and a and b and a[0] == b[0] and a[0] in ('A', 'P', 'sub', 'op', 'bytes', 'vec', 'cat', 'fld', 'ix', 'x', 'f') and len(a) == len(b):
                r = []
                okk = True
                for x, y in zip(a, b):
                    if isinstance(x, tuple) and isinstance(y, tuple):
                        if len(x) == len(y) and x and not isinstance(x[0], str) and not isinstance(y[0], str):
                            r.append(tuple(au(p, q) if isinstance(p, tuple) else p for p, q in zip(x, y)))
                        elif x == y:
                            r.append(x)
                        else:
                            r.append(au(x, y))
                    elif x == y:
                        r.append(x)
                    else:
                        okk = False
                        break
                if okk:
                    return tuple(r)
            pk = (a, b)
            if pk not in pairs and a[0] in ('i', 'lin', 'phi', 'len') and b[0] in ('i', 'lin', 'phi', 'len'):
                # both are the length of the same thing
                for t in lens:
                    if self.decide(st, ('op', 'Eq', b, t)) and self.decide(before(), ('op', 'Eq', a, t)):
                        return t
            if pk not in pairs and a[0] in ('i', 'lin', 'phi') and b[0] in ('i', 'lin', 'phi'):
                # the same step as a pair seen before: keep the offset between the two
                for (a0, b0), p0 in pairs.items():
                    if a0[0] in ('i', 'lin', 'phi') and b0[0] in ('i', 'lin', 'phi') and sub_(b, a) == sub_(b0, a0) and sub_(a, a0)[0] == 'i':
                        return add(p0, sub_(a, a0))
            if pk not in pairs:
                # reuse the phi if a is already one
                if a[0] == 'phi' and a[1] == h and not any(p[0] == a for p in pairs):
                    pairs[pk] = a
                else:
                    self.phin = getattr(self, 'phin', 0) + 1
                    pairs[pk] = ('phi', h, self.phin)
            return pairs[pk]

        nmem = {k: au(omem[k], mem[k]) for k in cells}
        ngh = {k: (au(ogh[k], v) if isinstance(v, tuple) else v) for k, v in gh.items()}
        # facts of the generalisation: those of the old state (about the generalised terms) that the new state implies
        sub_old = {p: a for (a, b), p in pairs.items()}
        sub_new = {p: b for (a, b), p in pairs.items()}
        nf = []
        for f in ofacts:
            # express an old fact in generalised terms
            for g in self.lift(f, {a: p for (a, b), p in pairs.items()}):
                if self.implied(st, subst_fact(g, sub_new)):
                    nf.append(g)
        # the bounds of a part of a slice stay in order
        for v in list(nmem.values()) + [v for v in ngh.values() if isinstance(v, tuple)]:
            for x in walk(v):
                if isinstance(x, tuple) and x and x[0] == 'sub' and any(isinstance(y, tuple) and y and y[0] == 'phi' for y in walk(x[2])) and isinstance(x[3], tuple):
                    g = ('dom', ('op', 'Le', x[2], x[3]), ('in', frozenset([1])))
                    if g in nf or g in ofacts:
                        continue
                    if self.decide(before(), subst_fact(g, sub_old)[1]) and self.decide(st, subst_fact(g, sub_new)[1]):
                        nf.append(g)
        changed = (nmem != omem) or (ngh != ogh) or set(map(repr, nf)) != set(map(repr, ofacts))
        if not changed:
            return False
        if gen > 40:
            raise Unsupported('no fixpoint at loop head of ' + key)
        self.table[shape] = [nmem, ngh, nf, gen + 1]
        # continue from the generalised state
        st.gen = True
        st.mem = dict(nmem)
        st.ghost = dict(ngh)
        F2 = Facts()
        ety = dict(st.F.ety)
        F2.ety = {k: v for k, v in ety.items()}
        st.F = F2
        for f in nf:
            self.addfact(st, f)
        for p in pairs.values():
            if p[1] != h:
                continue
        # keep facts about terms that did not change and are not phi-dependent (they are in nf)
        st.tr = st.tr + (LoopEv(('loop', h)),)
        return True

    def empties(self, st, v):
        """the parts of slices known to be empty, written as such"""
        if not isinstance(v, tuple) or not v or v[0] in ('i', 'S', 'fn', 'sym'):
            return v
        v = tuple(self.empties(st, x) if isinstance(x, tuple) else x for x in v)
        if v[0] == 'sub' and len(v) == 4 and v[2] != v[3] and isinstance(v[3], tuple) and self.decide(st, ('op', 'Eq', v[2], v[3])):
            return v[:3] + (v[2],)
        return v

    def relevant(self, st, mem, gh):
        ts = set()
        for v in list(mem.values()) + [v for v in gh.values() if isinstance(v, tuple)]:
            ts.update(x for x in walk(v) if isinstance(x, tuple))
        F = st.F
        out = []
        atoms = {x for x in ts if x and isinstance(x[0], str) and x[0] in ('sym', 'res', 'phi', 'fld', 'mem', 'ix', 'len')}
        for t, d in F.dom.items():
            out.append(('dom', t, d))
        for pr in F.ne:
            out.append(('ne', pr))
        for a, b in F.rep.items():
            out.append(('rep', a, b))
        return out

    def lift(self, f, m):
        """a fact re-expressed with generalised terms (and unchanged if it does not mention them)"""
        if not m:
            return [f]
        r = [f]
        g = subst_fact(f, m)
        if g != f:
            r.append(g)
        return r

    def implied(self, st, f):
        F = st.F
        if f[0] == 'dom':
            t = F.norm(f[1])
            if t[0] == 'i':
                return (t[1] in f[2][1]) == (f[2][0] == 'in')
            d = F.dom.get(t)
            if d is None and t[0] == 'op':
                v = self.decide(st, t)
                if v is not None:
                    return (int(v) in f[2][1]) == (f[2][0] == 'in')
            if d is None:
                return False
            if f[2][0] == 'in':
                return d[0] == 'in' and d[1] <= f[2][1]
            return (d[0] == 'out' and d[1] >= f[2][1]) or (d[0] == 'in' and not (d[1] & f[2][1]))
        if f[0] == 'ne':
            pr = frozenset(F.norm(x) for x in f[1])
            if len(pr) == 1:
                return False
            a, b = tuple(pr)
            return pr in F.ne or self.decide(st, ('op', 'Eq', a, b)) is False
        if f[0] == 'rep':
            return F.norm(f[1]) == F.norm(f[2])
        return False

    def addfact(self, st, f):
        F = st.F
        if f[0] == 'dom':
            self.restrict(st, f[1], f[2])
        elif f[0] == 'ne':
            F.ne = F.ne | {f[1]}
        elif f[0] == 'rep':
            rep = dict(F.rep)
            rep[f[1]] = f[2]
            F.rep = rep


def skel(v):
    """shape class of a value: enum variants are kept, other leaves are not"""
    if not isinstance(v, tuple) or not v:
        return '.'
    if v[0] == 'A':
        return ('A', v[1], v[2], tuple(skel(x) for x in v[3]))
    if v[0] == 'P':
        return ('P', tuple('.' for _ in v[2]))
    if v[0] in ('S', 'fn', 'fnv'):
        return v
    return '.'


def subst(v, m):
    if not isinstance(v, tuple):
        return v
    if v in m:
        return m[v]
    if not v or v[0] in ('i', 'S', 'fn'):
        return v
    n = tuple(subst(x, m) if isinstance(x, tuple) else x for x in v)
    return relin(n) if n != v else n


def subst_fact(f, m):
    if f[0] == 'dom':
        return ('dom', subst(f[1], m), f[2])
    if f[0] == 'ne':
        return ('ne', frozenset(subst(x, m) for x in f[1]))
    return ('rep', subst(f[1], m), subst(f[2], m))
