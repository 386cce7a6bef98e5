"""Models of the standard-library operations the analysed code uses (everything the driver
does not follow).  A model returns the abstract result, a list of (state, result) partitions,
or NotImplemented."""
import re
from core_ai import *

OPTION = OPT


def flags_template(tmpl, args):
    """decode the compiler's fmt template: -> list of ('lit', bytes) | ('arg', index, flags, width, precision)
    width/precision: None | ('const', n) | ('arg', index)"""
    out, i, nxt = [], 0, 0
    b = tmpl
    while i < len(b):
        c = b[i]
        i += 1
        if c == 0:
            break
        if c < 0x80:
            out.append(('lit', bytes(b[i:i + c])))
            i += c
        elif c == 0x80:
            n = b[i] | b[i + 1] << 8
            i += 2
            out.append(('lit', bytes(b[i:i + n])))
            i += n
        else:
            fl, w, p, idx = 0x20 | (3 << 29), None, None, nxt
            if c & 1:
                fl = int.from_bytes(b[i:i + 4], 'little')
                i += 4
            if c & 2:
                w = b[i] | b[i + 1] << 8
                i += 2
            if c & 4:
                p = b[i] | b[i + 1] << 8
                i += 2
            if c & 8:
                idx = b[i] | b[i + 1] << 8
                i += 2
            if w is not None:
                w = ('arg', w) if c & 16 else ('const', w)
            if p is not None:
                p = ('arg', p) if c & 32 else ('const', p)
            nxt = idx + 1
            out.append(('arg', idx, fl, w, p))
    return out


class Natives:
    def __init__(self):
        self.ex = {}
        self.rx = []
        for n in dir(self):
            f = getattr(self, n)
            d = getattr(f, '_pats', None)
            if d:
                for p in d:
                    if p.startswith('^'):
                        self.rx.append((re.compile(p), f))
                    else:
                        self.ex[p] = f
        self.cache = {}

    def find(self, c):
        k = (c.get('rp'), c.get('p'), c.get('tm') if c['k'] != 'trait' or True else None)
        if k in self.cache:
            return self.cache[k]
        f = None
        for x in k:
            if x and x in self.ex:
                f = self.ex[x]
                break
        if f is None:
            for x in k[:2]:
                if not x:
                    continue
                for r, g in self.rx:
                    if r.search(x):
                        f = g
                        break
                if f:
                    break
        self.cache[k] = f
        return f

    def call(self, ip, st, c, args, dest, target, tys, rty):
        f = self.find(c)
        if f is None:
            if c.get('itc'):
                return self.collect(ip, st, c, args, dest, target, tys)
            return NotImplemented
        self.ip, self.st, self.c, self.dest, self.target, self.tys, self.rty = ip, st, c, dest, target, tys, rty
        return f(ip, st, *args)

    def apply(self, ip, st, fv, args, dest, target, tys, rty):
        return NotImplemented

    def collect(self, ip, st, c, args, dest, target, tys):
        """FromIterator::from_iter / Extend::extend of a library collection: a loop over the iterator that pushes every item"""
        t = c['itc']
        coll = ip.T[t['coll']].get('path')
        item = ip.T[t['item']]
        by_ref = item['k'] == 'ref'
        if coll == 'alloc::vec::Vec':
            push = 'alloc::vec::Vec::<T, A>::push'
            deref = by_ref and ip.T[ip.T[t['coll']]['args'][0]]['k'] != 'ref'
        elif coll == 'alloc::string::String':
            k = ip.T[item['t']] if by_ref else item
            deref = by_ref and k['s'] == 'char'
            if k['s'] == 'str' and by_ref:
                push = 'alloc::string::String::push_str'
            elif k['s'] == 'char':
                push = 'alloc::string::String::push'
            else:
                return NotImplemented
        else:
            return NotImplemented
        new = c['tm'].endswith('::from_iter')
        if not new and not c['tm'].endswith('::extend'):
            return NotImplemented
        key = 'verif::%s @%s' % ('from_iter' if new else 'extend', repr(sorted((a, b) for a, b in t.items() if isinstance(b, int))) + push)
        if key not in ip.p.fns:
            it = lambda rp: {'p': rp, 'rp': rp, 'n': rp.split('::')[-1], 'args': [], 'tm': None, 'k': 'item', 'key': None, 'local': False}
            # 0 result, 1/2 arguments, 3 collection, 4 pointer to it, 5 iterator, 6 next item, 7 discriminant, 8 unit, 9 pointer to the iterator
            loc = [t['coll'] if new else t['unit'], t['i'] if new else t['rcoll'], t['i'], t['coll'], t['rcoll'], t['it'], t['opt'], t['disc'], t['unit'], t['rit']]
            x = {'c': [6, ['d', 1], ['f', 0, t['item']]] + (['*'] if deref else [])}
            bb = [
                [[], ['call', it('alloc::%s::new' % ('vec::Vec::<T>' if 'Vec' in push else 'string::String')), [], [3], 1, t['coll'], [], 'Rust'], 0] if new else [[], ['goto', 1], 0],
                [[[[4], ['ref', [3], True] if new else ['use', {'c': [1]}]]], ['call', t['into'], [{'m': [1 if new else 2]}], [5], 2, t['it'], [t['i']], 'Rust'], 0],
                [[[[9], ['ref', [5], True]]], ['call', t['next'], [{'m': [9]}], [6], 3, t['opt'], [t['rit']], 'Rust'], 0],
                [[[[7], ['discr', [6], t['opt']]]], ['switch', {'m': [7]}, [[0, 5], [1, 4]], 6, t['disc']], 0],
                [[], ['call', it(push), [{'c': [4]}, x], [8], 2, t['unit'], [t['rcoll'], t['item']], 'Rust'], 0],
                [[[[0], ['use', {'m': [3]}]]] if new else [], ['return'], 0],
                [[], ['unreachable'], 0]]
            ip.p.fns[key] = {'path': key, 'args': 1 if new else 2, 'locals': loc, 'names': [], 'spread': None, 'bb': bb, 'file': 'library', 'line': 0, 'local': False, 'closure': False}
        ip.push(st, key, args, dest, target)
        return None

    # --- helpers
    def rd(self, ip, st, ptr):
        v = ip.read(st, ip.deref_loc(st, ptr))
        return st.F.norm(v) if is_term(v) else v

    def wr(self, ip, st, ptr, v):
        ip.store(st, ip.deref_loc(st, ptr), v)

    def fork(self, ip, st, cond, a, b):
        """values a(state)/b(state) depending on boolean cond"""
        d = ip.decide(st, cond)
        ev = lambda f, s: f(s) if callable(f) else f
        if d is not None:
            return ev(a if d else b, st)
        out = []
        for val, f in ((True, a), (False, b)):
            for s in ip.split_assume(st.copy(), cond, val):
                s.pc = s.pc + ((cond, val),)
                out.append((s, ev(f, s)))
        return out

    def el(self, ip, st, s, i):
        """pointer to element i of slice value s"""
        if s[0] == 'P':
            return ('P', s[1], s[2] + (('x', i),), None)
        if s[0] == 'sub':
            return self.el(ip, st, s[1], add(s[2], i))
        if s[0] == 'S':
            return ('P', ('K', s), (('x', i),), None)
        return ('P', ('mem', s), (('x', i),), None)


def mentions_term(v, t):
    if v == t:
        return True
    return isinstance(v, tuple) and any(mentions_term(x, t) for x in v)


def m(*pats):
    def deco(f):
        f._pats = pats
        return f
    return deco


class Std(Natives):
    # ---------------- str / slices
    @m('core::str::<impl str>::len', 'core::slice::<impl [T]>::len')
    def len_(self, ip, st, s):
        return slen(st.F.norm(s))

    @m('core::str::<impl str>::is_empty', 'core::slice::<impl [T]>::is_empty')
    def is_empty(self, ip, st, s):
        return ip.binop(st, 'Eq', slen(st.F.norm(s)), I(0), self.usz(ip))

    def usz(self, ip):
        for i, t in enumerate(ip.T):
            if t['k'] == 'int':
                return i
        return 0

    @m('core::str::<impl str>::as_bytes', 'core::str::<impl str>::as_mut_str', 'alloc::vec::Vec::<T, A>::as_ref', 'alloc::string::String::as_bytes_',
       'core::str::converts::from_utf8_unchecked', '<str as core::convert::AsRef<[u8]>>::as_ref', '<str as core::convert::AsRef<str>>::as_ref',
       'core::str::<impl core::convert::AsRef<[u8]> for str>::as_ref', 'core::str::<impl core::convert::AsRef<str> for str>::as_ref', 'core::slice::<impl core::convert::AsRef<[T]> for [T]>::as_ref',
       'core::borrow::Borrow::borrow_')
    def ident(self, ip, st, s):
        return s

    @m('core::slice::<impl [T]>::iter', '^core::slice::iter::<impl .*IntoIterator for &', 'core::slice::<impl [T]>::iter_mut')
    def iter(self, ip, st, s):
        s = st.F.norm(s)
        return ('A', 'sliceiter', 0, (s, I(0), slen(s)))

    @m("^<core::slice::iter::Iter(Mut)?<.*as core::iter::traits::iterator::Iterator>::next$")
    def iter_next(self, ip, st, it):
        v = self.rd(ip, st, it)
        if v[0] != 'A' or v[1] != 'sliceiter':
            raise Unsupported('iterator %s' % show(v))
        s, a, b = v[3]

        def more(s2):
            self.wr(ip, s2, it, ('A', 'sliceiter', 0, (s, add(a, I(1)), b)))
            return some(self.el(ip, s2, s, a))
        return self.fork(ip, st, ip.binop(st, 'Lt', a, b, 0), more, NONE)

    @m("^<core::slice::iter::Iter(Mut)?<.*as core::iter::traits::double_ended::DoubleEndedIterator>::next_back$")
    def iter_next_back(self, ip, st, it):
        v = self.rd(ip, st, it)
        s, a, b = v[3]

        def more(s2):
            self.wr(ip, s2, it, ('A', 'sliceiter', 0, (s, a, sub_(b, I(1)))))
            return some(self.el(ip, s2, s, sub_(b, I(1))))
        return self.fork(ip, st, ip.binop(st, 'Lt', a, b, 0), more, NONE)

    @m('core::slice::iter::Iter::<\'a, T>::as_slice')
    def iter_as_slice(self, ip, st, it):
        v = self.rd(ip, st, it)
        s, a, b = v[3]
        return mk_sub(s, a, b)

    @m("^<core::slice::iter::Iter<.*as core::iter::traits::exact_size::ExactSizeIterator>::len$")
    def iter_len(self, ip, st, it):
        v = self.rd(ip, st, it)
        return sub_(v[3][2], v[3][1])

    @m('core::slice::<impl [T]>::last', 'core::slice::<impl [T]>::last_mut')
    def last(self, ip, st, s):
        s = st.F.norm(s)
        n = slen(s)
        return self.fork(ip, st, ip.binop(st, 'Eq', n, I(0), 0), NONE, lambda s2: some(self.el(ip, s2, s, sub_(n, I(1)))))

    @m('core::slice::<impl [T]>::first', 'core::slice::<impl [T]>::first_mut')
    def first(self, ip, st, s):
        s = st.F.norm(s)
        return self.fork(ip, st, ip.binop(st, 'Eq', slen(s), I(0), 0), NONE, lambda s2: some(self.el(ip, s2, s, I(0))))

    @m('core::slice::<impl [T]>::split_first', 'core::slice::<impl [T]>::split_last')
    def split_first(self, ip, st, s):
        s = st.F.norm(s)
        n = slen(s)
        fst = self.c['n'] == 'split_first'

        def f(s2):
            if fst:
                return some(('A', 'tuple', 0, (self.el(ip, s2, s, I(0)), mk_sub(s, I(1), n))))
            return some(('A', 'tuple', 0, (self.el(ip, s2, s, sub_(n, I(1))), mk_sub(s, I(0), sub_(n, I(1))))))
        return self.fork(ip, st, ip.binop(st, 'Eq', n, I(0), 0), NONE, f)

    @m('core::slice::<impl [T]>::split_at', 'core::str::<impl str>::split_at')
    def split_at(self, ip, st, s, i):
        s = st.F.norm(s)
        return ('A', 'tuple', 0, (mk_sub(s, I(0), i), mk_sub(s, i, slen(s))))

    @m('core::slice::<impl [T]>::split_at_checked', 'core::str::<impl str>::split_at_checked')
    def split_at_checked(self, ip, st, s, i):
        s = st.F.norm(s)
        n = slen(s)
        return self.fork(ip, st, ip.binop(st, 'Le', i, n, 0), lambda s2: some(('A', 'tuple', 0, (mk_sub(s, I(0), i), mk_sub(s, i, n)))), NONE)

    @m('core::slice::<impl [T]>::get', 'core::str::<impl str>::get')
    def get(self, ip, st, s, i):
        s = st.F.norm(s)
        n = slen(s)
        if i[0] == 'A':
            a, b = self.rng(i, n)
            cond = ('op', 'And', ip.binop(st, 'Le', a, b, 0), ip.binop(st, 'Le', b, n, 0))
            cond = ip.binop(st, 'BitAnd', cond[2], cond[3], self.boolt(ip))
            return self.fork(ip, st, cond, lambda s2: some(mk_sub(s, a, b)), NONE)
        return self.fork(ip, st, ip.binop(st, 'Lt', i, n, 0), lambda s2: some(self.el(ip, s2, s, i)), NONE)

    def boolt(self, ip):
        for i, t in enumerate(ip.T):
            if t['k'] == 'bool':
                return i
        return 0

    def rng(self, r, n):
        p = r[1]
        if p.endswith('RangeFull'):
            return I(0), n
        if p.endswith('RangeFrom'):
            return r[3][0], n
        if p.endswith('RangeToInclusive'):
            return I(0), add(r[3][0], I(1))
        if p.endswith('RangeTo'):
            return I(0), r[3][0]
        if p.endswith('RangeInclusive'):
            return r[3][0], add(r[3][1], I(1))
        if p.endswith('Range'):
            return r[3][0], r[3][1]
        raise Unsupported('range ' + p)

    @m('core::slice::index::<impl core::ops::index::Index<I> for [T]>::index', '^core::str::traits::<impl core::ops::index::Index<I> for str>::index',
       'core::slice::index::<impl core::ops::index::IndexMut<I> for [T]>::index_mut', '^core::array::<impl core::ops::index::Index<I> for \\[T; N\\]>::index')
    def index(self, ip, st, s, r):
        s = st.F.norm(s)
        if s[0] == 'P' and s[3] is None:
            v = self.rd(ip, st, s)
            s = ('P', s[1], s[2], I(len(v[3])))
        r = st.F.norm(r)
        n = slen(s)
        if r[0] != 'A':
            return self.bounds(ip, st, ip.binop(st, 'Lt', r, n, 0), lambda s2: self.el(ip, s2, s, r))
        a, b = self.rng(r, n)
        cond = ip.binop(st, 'BitAnd', ip.binop(st, 'Le', a, b, 0), ip.binop(st, 'Le', b, n, 0), self.boolt(ip))
        return self.bounds(ip, st, cond, lambda s2: mk_sub(s, a, b))

    def bounds(self, ip, st, cond, f):
        """out-of-bounds is a panic; recorded, then excluded"""
        d = ip.decide(st, cond)
        if d is False:
            ip.end(st, 'panic', 'index out of bounds')
            return []
        if d is None:
            st.notes = st.notes + (('bounds', cond, ip.where(st)),)
            outs = ip.split_assume(st, cond, True)
            return [(s, f(s)) for s in outs]
        return f(st)

    @m('<alloc::string::String as core::ops::index::Index<I>>::index')
    def string_index(self, ip, st, s, r):
        return self.index(ip, st, strof(self.rd(ip, st, s)), r)

    @m('<alloc::vec::Vec<T, A> as core::ops::index::Index<I>>::index')
    def vec_index(self, ip, st, s, r):
        return self.index(ip, st, self.vs(self.rd(ip, st, s)), r)

    @m('^core::str::traits::<impl core::cmp::PartialEq for str>::(eq|ne)$', '^<str as core::cmp::PartialEq>::(eq|ne)$')
    def str_eq(self, ip, st, a, b):
        a, b = st.F.norm(a), st.F.norm(b)
        r = self.streq(ip, st, a, b)
        return ip.neg(r) if self.c['n'] == 'ne' else r

    def streq(self, ip, st, a, b):
        if a[0] == 'S' and b[0] == 'S':
            return I(int(a[1] == b[1]))
        if a == b:
            return TRUE
        if a[0] == 'S':
            a, b = b, a
        if b == S(b''):
            return ip.binop(st, 'Eq', slen(a), I(0), self.usz(ip))
        return ('op', 'streq', a, b)

    # ---------------- String / Vec
    @m('alloc::string::String::new', '<alloc::string::String as core::default::Default>::default', 'alloc::string::String::with_capacity')
    def string_new(self, ip, st, *a):
        return ('cat',)

    @m('alloc::string::String::push_str')
    def push_str(self, ip, st, s, x):
        self.wr(ip, st, s, mk_cat(self.rd(ip, st, s), st.F.norm(x)))
        return UNIT

    @m('<alloc::string::String as core::ops::arith::AddAssign<&str>>::add_assign')
    def string_add_assign(self, ip, st, s, x):
        return self.push_str(ip, st, s, x)

    @m('<alloc::string::String as core::ops::arith::Add<&str>>::add')
    def string_add(self, ip, st, s, x):
        return mk_cat(s, st.F.norm(x))

    @m('alloc::string::String::push')
    def push_ch(self, ip, st, s, ch):
        x = S(chr(ch[1]).encode()) if ch[0] == 'i' else ('op', 'utf8', ch)
        self.wr(ip, st, s, mk_cat(self.rd(ip, st, s), x))
        return UNIT

    @m('alloc::string::String::len')
    def string_len(self, ip, st, s):
        return slen(strof(self.rd(ip, st, s)))

    @m('alloc::string::String::is_empty')
    def string_is_empty(self, ip, st, s):
        return self.is_empty(ip, st, strof(self.rd(ip, st, s)))

    @m('<alloc::string::String as core::ops::deref::Deref>::deref', 'alloc::string::String::as_str', '<alloc::string::String as core::convert::AsRef<str>>::as_ref',
       'alloc::string::String::as_bytes', '<alloc::string::String as core::borrow::Borrow<str>>::borrow')
    def string_deref(self, ip, st, s):
        return strof(self.rd(ip, st, s))

    @m('alloc::str::<impl alloc::borrow::ToOwned for str>::to_owned', '<str as alloc::string::ToString>::to_string', '<alloc::string::String as core::convert::From<&str>>::from',
       '^<(str|T) as alloc::string::(SpecToString|ToString)>')
    def to_owned(self, ip, st, s):
        s = st.F.norm(s)
        if s[0] == 'P':
            return NotImplemented
        return mk_cat(('cat',), s)

    @m('alloc::string::String::reserve', 'alloc::vec::Vec::<T, A>::reserve', 'alloc::string::String::shrink_to_fit')
    def reserve(self, ip, st, *a):
        return UNIT

    def vs(self, v):
        return strof(v) if v[0] == 'cat' else ('op', 'vs', v)

    def bytevec(self, ip, st, s):
        """contents of a Vec<u8> as text"""
        v = self.rd(ip, st, s)
        if v[0] == 'vec' and v[1] == UNIT and all(x[0] == 'i' for x in v[2:]):
            return ('cat', S(bytes(x[1] for x in v[2:]))) if v[2:] else ('cat',)
        if v[0] == 'cat':
            return v
        raise Unsupported('bytes of an unknown vector')

    @m('alloc::vec::Vec::<T, A>::extend_from_slice')
    def vec_extend_from_slice(self, ip, st, s, x):
        x = st.F.norm(x)
        et = ip.T[self.tys[1]]
        if et['k'] == 'ref' and ip.T[et['t']]['s'] == '[u8]':
            self.wr(ip, st, s, mk_cat(self.bytevec(ip, st, s), x))
            return UNIT
        n = slen(x)
        if n[0] != 'i' or n[1] > 64:
            raise Unsupported('extend_from_slice of an unknown length')
        v = self.rd(ip, st, s)
        v = v if v[0] == 'vec' else ('vec', v)
        self.wr(ip, st, s, v + tuple(ip.read(st, ip.deref_loc(st, self.el(ip, st, x, I(i)))) for i in range(n[1])))
        return UNIT

    @m('^<alloc::vec::Vec<u8.*> as (core|std)::io::(\\w+::)*Write>::write_all$')
    def vec_write_all(self, ip, st, s, x):
        self.wr(ip, st, s, mk_cat(self.bytevec(ip, st, s), st.F.norm(x)))
        return ok(UNIT)

    @m('^alloc::slice::<impl \\[T\\]>::(join|concat)$')
    def join(self, ip, st, s, sep=None):
        if self.rty is None or ip.T[self.rty].get('path') != 'alloc::string::String':
            return NotImplemented
        s = st.F.norm(s)
        n = slen(s)
        if n[0] != 'i' or n[1] > 64:
            raise Unsupported('join of an unknown number of parts')
        if sep is not None and ip.T[self.tys[1]]['s'] != '&str':
            return NotImplemented
        v = ('cat',)
        for i in range(n[1]):
            x = ip.read(st, ip.deref_loc(st, self.el(ip, st, s, I(i))))
            x = st.F.norm(x) if is_term(x) else x
            if i and sep is not None:
                v = mk_cat(v, st.F.norm(sep))
            v = mk_cat(v, strof(x) if x[0] == 'cat' else x)
        return v

    @m('alloc::vec::Vec::<T>::new', '<alloc::vec::Vec<T> as core::default::Default>::default', 'alloc::vec::Vec::<T>::with_capacity')
    def vec_new(self, ip, st, *a):
        return ('vec', UNIT)

    @m('alloc::vec::Vec::<T, A>::push')
    def vec_push(self, ip, st, s, x):
        v = self.rd(ip, st, s)
        if v[0] == 'cat' and x[0] == 'i':
            self.wr(ip, st, s, mk_cat(v, S(bytes([x[1]]))))
            return UNIT
        if v[0] != 'vec':
            v = ('vec', v)
        self.wr(ip, st, s, v + (x,))
        return UNIT

    @m('alloc::vec::Vec::<T, A>::pop')
    def vec_pop(self, ip, st, s):
        v = self.rd(ip, st, s)
        if v[0] == 'vec' and len(v) > 2:
            self.wr(ip, st, s, v[:-1])
            return some(v[-1])
        if v == ('vec', UNIT):
            return NONE
        raise Unsupported('Vec::pop of an unknown vector')

    def known(self, ip, st, s):
        """elements of a vector of known length"""
        v = self.rd(ip, st, s)
        if v[0] != 'vec' or v[1] != UNIT:
            raise Unsupported('%s of an unknown vector' % self.c['n'])
        return list(v[2:])

    @m('alloc::vec::Vec::<T, A>::clear', 'alloc::string::String::clear')
    def vec_clear(self, ip, st, s):
        self.wr(ip, st, s, ('cat',) if 'string' in self.c['rp'] else ('vec', UNIT))
        return UNIT

    @m('alloc::vec::Vec::<T, A>::truncate')
    def vec_truncate(self, ip, st, s, n):
        v = self.known(ip, st, s)
        n = st.F.norm(n)
        if n[0] != 'i':
            raise Unsupported('truncate to an unknown length')
        self.wr(ip, st, s, ('vec', UNIT) + tuple(v[:n[1]]))
        return UNIT

    @m('alloc::vec::Vec::<T, A>::insert')
    def vec_insert(self, ip, st, s, i, x):
        v = self.known(ip, st, s)
        i = st.F.norm(i)
        if i[0] != 'i' or i[1] > len(v):
            raise Unsupported('insert at an unknown index')
        v.insert(i[1], x)
        self.wr(ip, st, s, ('vec', UNIT) + tuple(v))
        return UNIT

    @m('alloc::vec::Vec::<T, A>::remove', 'alloc::vec::Vec::<T, A>::swap_remove')
    def vec_remove(self, ip, st, s, i):
        v = self.known(ip, st, s)
        i = st.F.norm(i)
        if i[0] != 'i' or i[1] >= len(v):
            raise Unsupported('remove at an unknown index')
        x = v[i[1]]
        if self.c['n'] == 'remove':
            del v[i[1]]
        else:
            v[i[1]] = v[-1]
            del v[-1]
        self.wr(ip, st, s, ('vec', UNIT) + tuple(v))
        return x

    @m('alloc::vec::Vec::<T, A>::append')
    def vec_append(self, ip, st, s, o):
        v, w = self.known(ip, st, s), self.known(ip, st, o)
        self.wr(ip, st, s, ('vec', UNIT) + tuple(v + w))
        self.wr(ip, st, o, ('vec', UNIT))
        return UNIT

    @m('<alloc::vec::Vec<T, A> as core::ops::deref::DerefMut>::deref_mut', 'alloc::vec::Vec::<T, A>::as_mut_slice')
    def vec_deref_mut(self, ip, st, s):
        v = self.rd(ip, st, s)
        if v[0] != 'vec':
            v = ('vec', v)
            self.wr(ip, st, s, v)
        loc = ip.deref_loc(st, s)
        return ('P', loc[0], loc[1], slen(self.vs(v)))

    @m('core::slice::<impl [T]>::copy_from_slice', 'core::slice::<impl [T]>::clone_from_slice')
    def copy_from_slice(self, ip, st, s, x):
        s, x = st.F.norm(s), st.F.norm(x)
        n, k = slen(s), slen(x)
        if n[0] != 'i' or k != n:
            raise Unsupported('%s of an unknown length' % self.c['n'])
        for i in range(n[1]):
            ip.store(st, ip.deref_loc(st, self.el(ip, st, s, I(i))), ip.read(st, ip.deref_loc(st, self.el(ip, st, x, I(i)))))
        return UNIT

    @m('alloc::vec::Vec::<T, A>::len')
    def vec_len(self, ip, st, s):
        return slen(self.vs(self.rd(ip, st, s)))

    @m('alloc::vec::Vec::<T, A>::is_empty')
    def vec_is_empty(self, ip, st, s):
        return self.is_empty(ip, st, self.vs(self.rd(ip, st, s)))

    @m('<alloc::vec::Vec<T, A> as core::ops::deref::Deref>::deref', 'alloc::vec::Vec::<T, A>::as_slice', '^<alloc::vec::Vec<T, A> as core::convert::AsRef<\\[T\\]>>::as_ref')
    def vec_deref(self, ip, st, s):
        return self.vs(self.rd(ip, st, s))

    @m('^<&.a (mut )?alloc::vec::Vec<T, A> as core::iter::traits::collect::IntoIterator>::into_iter', '^alloc::vec::<impl .*IntoIterator for &')
    def vec_ref_into_iter(self, ip, st, s):
        return self.iter(ip, st, self.vs(self.rd(ip, st, s)))

    @m('<alloc::vec::Vec<T, A> as core::iter::traits::collect::IntoIterator>::into_iter', '<[T; N] as core::iter::traits::collect::IntoIterator>::into_iter',
       '^core::array::iter::<impl core::iter::traits::collect::IntoIterator for \\[T; N\\]>::into_iter')
    def own_into_iter(self, ip, st, v):
        if v[0] == 'A' and v[1] == 'array':
            v = ('vec', UNIT) + v[3]
        s = self.vs(v)
        return ('A', 'owniter', 0, (s, I(0), slen(s)))

    @m("^<(alloc::vec::into_iter|core::array::iter)::IntoIter<.*Iterator>::next$")
    def own_next(self, ip, st, it):
        v = self.rd(ip, st, it)
        s, a, b = v[3]

        def more(s2):
            self.wr(ip, s2, it, ('A', 'owniter', 0, (s, add(a, I(1)), b)))
            return some(ip.read(s2, ip.deref_loc(s2, self.el(ip, s2, s, a))))
        return self.fork(ip, st, ip.binop(st, 'Lt', a, b, 0), more, NONE)

    @m("^<(alloc::vec::into_iter|core::array::iter)::IntoIter<.*DoubleEndedIterator>::next_back$")
    def own_next_back(self, ip, st, it):
        v = self.rd(ip, st, it)
        s, a, b = v[3]

        def more(s2):
            self.wr(ip, s2, it, ('A', 'owniter', 0, (s, a, sub_(b, I(1)))))
            return some(ip.read(s2, ip.deref_loc(s2, self.el(ip, s2, s, sub_(b, I(1))))))
        return self.fork(ip, st, ip.binop(st, 'Lt', a, b, 0), more, NONE)

    @m('^<(usize|u8|u16|u32|u64|i32) as core::iter::range::Step>::(forward_unchecked|forward)$')
    def step(self, ip, st, a, n):
        return add(a, n)

    # ---------------- integers
    @m('^core::num::<impl .*>::(saturating_sub|checked_sub)$')
    def sat_sub(self, ip, st, a, b):
        chk = self.c['n'] == 'checked_sub'
        d = sub_(a, b)
        return self.fork(ip, st, ip.binop(st, 'Le', b, a, 0), some(d) if chk else d, NONE if chk else I(0))

    @m('^core::num::<impl .*>::(checked_add)$')
    def chk_add(self, ip, st, a, b):
        return some(add(a, b))

    @m('^core::num::<impl .*>::(wrapping_add|saturating_add)$')
    def w_add(self, ip, st, a, b):
        return add(a, b)

    @m('^core::num::<impl .*>::(wrapping_sub)$')
    def w_sub(self, ip, st, a, b):
        return sub_(a, b)

    @m('core::cmp::min', 'core::cmp::Ord::min_', '^core::cmp::impls::<impl core::cmp::Ord for usize>::min$')
    def min_(self, ip, st, a, b):
        return self.fork(ip, st, ip.binop(st, 'Le', a, b, 0), a, b)

    @m('^core::cmp::impls::<impl core::cmp::PartialEq for (usize|u8|u32|u64|i32|bool|char|isize)>::(eq|ne)$')
    def prim_eq(self, ip, st, a, b):
        r = ip.binop(st, 'Eq' if self.c['n'] == 'eq' else 'Ne', self.rd(ip, st, a), self.rd(ip, st, b), self.usz(ip))
        return r

    @m('^<(core|std|alloc)::.* as core::cmp::PartialEq>::(eq|ne)$')
    def plain_enum_eq(self, ip, st, a, b):
        tid = self.c['args'][0]
        t = ip.T[tid]
        if t['k'] != 'adt' or not t['v'] or any(v['f'] for v in t['v']):
            return NotImplemented
        x, y = ip.discr(st, self.rd(ip, st, a), tid), ip.discr(st, self.rd(ip, st, b), tid)
        return ip.binop(st, 'Eq' if self.c['n'] == 'eq' else 'Ne', x, y, tid)

    # ---------------- mem / ptr
    @m('core::mem::replace', 'core::mem::take_')
    def replace(self, ip, st, p, v):
        o = self.rd(ip, st, p)
        self.wr(ip, st, p, v)
        return o

    @m('core::mem::swap')
    def swap(self, ip, st, a, b):
        x, y = self.rd(ip, st, a), self.rd(ip, st, b)
        self.wr(ip, st, a, y)
        self.wr(ip, st, b, x)
        return UNIT

    @m('^(core|std)::io::(\\w+::)*Write::by_ref$')
    def io_by_ref(self, ip, st, v):
        return v

    @m('core::mem::drop', 'core::mem::forget')
    def drop_(self, ip, st, v):
        return UNIT

    @m('core::intrinsics::discriminant_value')
    def discriminant_value(self, ip, st, p):
        t = self.c['args'][0]
        return ip.discr(st, self.rd(ip, st, p), t)

    @m('core::mem::discriminant')
    def discriminant(self, ip, st, p):
        return ('A', 'core::mem::Discriminant', 0, (self.discriminant_value(ip, st, p),))

    @m('core::hint::must_use', 'core::hint::black_box', 'core::intrinsics::black_box', 'core::convert::identity_')
    def bb_(self, ip, st, v):
        return v

    @m('core::intrinsics::cold_path', 'core::hint::cold_path', 'core::ub_checks::check_language_ub', 'core::hint::unreachable_unchecked::precondition_check')
    def cold(self, ip, st, *a):
        return UNIT

    @m('alloc::boxed::Box::<T>::new')
    def box_new(self, ip, st, v):
        return ('P', ('K', v), (), None)

    @m('<alloc::boxed::Box<T, A> as core::ops::deref::Deref>::deref', '<alloc::boxed::Box<T, A> as core::convert::AsRef<T>>::as_ref', '<alloc::boxed::Box<T, A> as core::borrow::Borrow<T>>::borrow')
    def box_deref(self, ip, st, b):
        return self.rd(ip, st, b)

    # ---------------- char
    @m('core::char::methods::<impl char>::encode_utf8')
    def encode_utf8(self, ip, st, ch, buf):
        if ch[0] == 'i':
            return S(chr(ch[1]).encode())
        try:
            n = st.F.norm(slen(buf))
        except Unsupported:
            n = None
        if n is not None and n[0] == 'i' and n[1] < 4:
            if any(mentions_term(c, ch) for c, _ in st.pc):
                st.notes = st.notes + (('short buffer', ch, ip.where(st)),)
            else:
                ip.end(st.copy(), 'panic', 'a character needs up to 4 bytes, the buffer has %d' % n[1])
        return ('op', 'utf8', ch)

    # ---------------- io::Error
    @m('alloc::io::error::<impl core::io::error::Error>::new', 'std::io::error::Error::new')
    def ioerr_new(self, ip, st, kind, msg):
        return ('op', 'ioerr', kind)

    @m('<core::io::error::Error as core::convert::From<core::io::error::ErrorKind>>::from')
    def ioerr_from(self, ip, st, kind):
        return ('op', 'ioerr', kind)

    @m('^(alloc|std)::io::error::(<impl core::io::error::Error>|Error)::other$')
    def ioerr_other(self, ip, st, msg):
        return ('op', 'ioerr', ('op', 'other-kind', UNIT))

    @m('core::io::error::Error::kind', 'std::io::error::Error::kind')
    def ioerr_kind(self, ip, st, e):
        v = self.rd(ip, st, e)
        if v[0] == 'op' and v[1] == 'ioerr':
            return v[2]
        return ('op', 'kind', v)

    @m('core::io::error::Error::is_interrupted', 'std::io::error::Error::is_interrupted')
    def is_interrupted(self, ip, st, e):
        v = self.ioerr_kind(ip, st, e)
        for i, t in enumerate(ip.T):
            if t['k'] == 'adt' and t['path'].endswith('io::error::ErrorKind') and t['v']:
                d = ip.discr(st, v, i)
                iv = [x['d'] for x in t['v'] if x['n'] == 'Interrupted'][0]
                return ip.binop(st, 'Eq', d, I(iv), self.usz(ip))
        return NotImplemented

    # ---------------- fmt
    @m("^core::fmt::Arguments::<'a>::new$", "^core::fmt::Arguments::<'_>::new$")
    def fmt_args(self, ip, st, tmpl, args):
        t = tmpl
        if t[0] != 'S':
            t = self.rd(ip, st, t)
        if t[0] == 'A':
            t = S([x[1] for x in t[3]])
        if t[0] != 'S':
            raise Unsupported('format template %s' % show(t))
        arr = self.rd(ip, st, args)
        arr = arr[3]
        out = []
        for p in flags_template(t[1], arr):
            if p[0] == 'lit':
                out.append(('lit', p[1]))
            else:
                def cnt(x):
                    if x is None:
                        return None
                    if x[0] == 'const':
                        return I(x[1])
                    return arr[x[1]]
                out.append(('ph', arr[p[1]], p[2], cnt(p[3]), cnt(p[4])))
        return ('A', 'fmtargs', 0, tuple(out))

    @m("^core::fmt::Arguments::<'a>::from_str(_nonconst)?$")
    def fmt_args_str(self, ip, st, s):
        if s[0] == 'S':
            return ('A', 'fmtargs', 0, (('lit', s[1]),))
        return ('A', 'fmtargs', 0, (('ph', ('A', 'fmtarg', 'new_display', (s, -1)), 0x20 | 3 << 29, None, None),))

    @m("^core::fmt::rt::Argument::<'_>::(new_|from_usize)")
    def fmt_arg(self, ip, st, v):
        return ('A', 'fmtarg', self.c['n'], (v, self.c['args'][0] if self.c['args'] else -1))

    @m('alloc::fmt::format', 'alloc::fmt::format::format_inner')
    def fmt_to_string(self, ip, st, a):
        from common import pieces

        class W:
            name, args, tys = 'x::write_fmt', (None, a), ()
        pcs = pieces(ip, st, W)
        if pcs is None or not all(x[0] in ('const', 'text') for x in pcs):
            return NotImplemented
        v = ('cat',)
        for x in pcs:
            v = mk_cat(v, S(x[1]) if x[0] == 'const' else x[1])
        return v

    @m('askama_escape::escape')
    def esc(self, ip, st, s, e):
        return ('A', 'escaped', e[1] if e[0] == 'A' else '?', (s,))

    # ---------------- forwarding impls of std for &mut W
    @m('^<&mut W as core::fmt::Write>::', '^<&mut W as core::io::write::Write>::', '^core::io::impls::<impl .*Write for &mut W>::', '^std::io::impls::<impl .*Write for &mut W>::')
    def fwd(self, ip, st, recv, *args):
        inner = self.rd(ip, st, recv)
        c = dict(self.c)
        t = ip.T[c['args'][0]] if c['args'] else None
        inner_t = None
        if t is not None:
            inner_t = t['t'] if t['k'] in ('ref',) else c['args'][0]
        key = None
        if inner_t is not None:
            want = '<%s as %s' % (ip.T[inner_t]['s'], '::'.join(c['tm'].split('::')[:-1]))
            for k in ip.p.fns:
                if k.startswith(want) and k.split(' @')[0].endswith('::' + c['n']) and ip.p.fns[k] is not None:
                    key = k
                    break
        if key:
            ip.push(st, key, [inner] + list(args), self.dest, self.target)
            return None
        c = dict(c, k='trait', key=None, rp=None, args=[inner_t] if inner_t is not None else [])
        tys = list(self.tys)
        if tys and isinstance(tys[0], int) and ip.T[tys[0]]['k'] == 'ref' and ip.T[ip.T[tys[0]]['t']]['k'] == 'ref':
            tys[0] = ip.T[tys[0]]['t']
        if inner_t is not None and ip.T[inner_t].get('path') == 'alloc::string::String':
            c.update(k='item', rp='<alloc::string::String as core::fmt::Write>::' + c['n'])
        r = ip.event(st, c, [inner] + list(args), self.dest, self.target, tys, self.rty)
        if r is None:
            return None
        return [(s, None) for s in r]
