"""S01-S03: the style model."""
from common import *

R = 'stylish_style::Restyle'
PRE = 'stylish_style::'


def simple_exit(rep, p, e, check, minp=1, **kw):
    ip, exits = explore(rep, p, e, **kw)
    n = 0
    for status, val, st in exits:
        if status == 'unsupported':
            rep.undec(fn_name(e), val)
            continue
        if status == 'panic':
            rep.bad('panic', fn_name(e), '%s can panic: %s' % (fn_name(e), val))
            continue
        n += 1
        check(ip, st, val)
    rep.did(fn_name(e), n)
    return ip, exits


def apply_entry(p, selfp):
    return entry(p, trait=R, selfp=selfp, name='apply')


def s01(rep, P):
    p = P('stylish_style')
    S_ = Styles(p)
    style = ('sym', 'arg1')
    names = ('foreground', 'background', 'intensity')

    def expect(e, want):
        def chk(ip, st, val):
            got = S_.parts(ip.canon(st, val))
            for n, g, w in zip(names, got, want):
                if not ip.same(st, g, w):
                    rep.bad(n, fn_name(e), '%s: %s of the result is %s, expected %s' % (fn_name(e), n, show(ip.canon(st, g)), show(w)))
            if any(ev.name for ev in st.tr):
                rep.bad('effects', fn_name(e), '%s calls unknown code' % fn_name(e))
        simple_exit(rep, p, e, chk)
    me = ('mem', ('sym', 'arg0'))
    old = S_.parts(style)
    expect(apply_entry(p, PRE + 'Foreground'), [fld(me, 0, 0), old[1], old[2]])
    expect(apply_entry(p, PRE + 'Background'), [old[0], fld(me, 0, 0), old[2]])
    expect(apply_entry(p, PRE + 'Intensity'), [old[0], old[1], me])
    expect(apply_entry(p, STYLE), S_.parts(me))
    expect(apply_entry(p, '()'), old)
    # absent option: nothing
    e = apply_entry(p, OPT)

    def chk(ip, st, val):
        if discr_of(st, me) == 1:
            return
        if discr_of(st, me) is None:
            if not st.tr:
                rep.bad('none', fn_name(e), 'an option is applied without looking whether it is present')
            return
        if st.tr or not ip.same(st, val, style):
            rep.bad('none', fn_name(e), 'an absent option changes the style or calls something')
    simple_exit(rep, p, e, chk)


def seq_check(rep, p, e, recvs, what):
    """exactly the given receivers, once each, in order, threading the style"""
    style = ('sym', 'arg1')

    def chk(ip, st, val):
        cur = style
        evs = list(st.tr)
        rc = recvs(ip, st)
        if rc is None:
            return
        if len(evs) != len(rc):
            rep.bad('count', fn_name(e), '%s: %d member restylings applied, expected %d' % (what, len(evs), len(rc)))
            return
        for i, (ev, r) in enumerate(zip(evs, rc)):
            if ev.name != RESTYLE:
                rep.bad('call', fn_name(e), '%s calls %s' % (what, ev.name))
                return
            if loc_of(ev.args[0]) != r:
                rep.bad('order', fn_name(e), '%s: application number %d is of %s, expected member %s' % (what, i + 1, show(ev.args[0]), show(r)))
                return
            if not ip.same(st, ev.args[1], cur):
                rep.bad('thread', fn_name(e), '%s: application number %d starts from %s, expected the result of the previous one' % (what, i + 1, show(ev.args[1])))
                return
            cur = ev.ret
        if not ip.same(st, val, cur):
            rep.bad('result', fn_name(e), '%s returns %s, expected the last result' % (what, show(ip.canon(st, val))))
    simple_exit(rep, p, e, chk)


def s02(rep, P):
    p = P('stylish_style')
    S_ = Styles(p)
    me = ('sym', 'arg0')
    style = ('sym', 'arg1')
    tup = [e for e in entries(p, trait=R, name='apply') if p.T[e['self']]['k'] == 'tuple' and p.T[e['self']]['f']]
    if len(tup) < 2:
        raise Anchor('Restyle for pairs and triples')
    for e in tup:
        n = len(p.T[e['self']]['f'])
        seq_check(rep, p, e, lambda ip, st, n=n: [field_ptr(me, i) for i in range(n)], 'a %d-tuple of restylings' % n)
    # references, boxes
    refs = [e for e in entries(p, trait=R, name='apply') if p.T[e['self']]['k'] == 'ref']
    if not refs:
        raise Anchor('Restyle for &T')
    for e in refs:
        seq_check(rep, p, e, lambda ip, st: [(('mem', ('mem', me)), ())], 'a reference')
    bx = [e for e in entries(p, trait=R, name='apply') if self_path(p, e) == 'alloc::boxed::Box']
    if not bx:
        raise Anchor('Restyle for Box<T>')
    for e in bx:
        seq_check(rep, p, e, lambda ip, st: [(('mem', ('mem', me)), ())], 'a box')
    e = apply_entry(p, OPT)

    def opt(ip, st):
        d = discr_of(st, ('mem', me))
        if d == 1:
            return [(('mem', me), (('f', 0, 1),))]
        return [] if d == 0 else []
    seq_check(rep, p, e, opt, 'a present option')
    e = entry(p, selfp=STYLE, name='with')

    def one(ip, st):
        return None if not st.tr else [loc_of(st.tr[0].args[0])]

    def chk(ip, st, val):
        evs = [x for x in st.tr if x.name == RESTYLE]
        if len(evs) != 1 or len(st.tr) != 1:
            rep.bad('count', fn_name(e), 'Style::with applies the restyling %d times' % len(evs))
            return
        ev = evs[0]
        if not (ip.same(st, ev.args[1], ('sym', 'arg0')) and ip.same(st, val, ev.ret)):
            rep.bad('thread', fn_name(e), 'Style::with does not return the restyling applied to the style')
        a = ev.args[0]
        tgt = None
        try:
            tgt = ip.read(st, (a[1], a[2])) if a[0] == 'P' else ('mem', a)
        except Unsupported:
            pass
        if ev.extra != ('sym', 'arg1'):
            rep.bad('thread', fn_name(e), 'Style::with applies something else than its argument')

    class M(Mon):
        def on_event(self, ip, st, ev):
            if ev.name == RESTYLE:
                try:
                    ev.extra = ip.read(st, ip.deref_loc(st, ev.args[0]))
                except Unsupported:
                    ev.extra = None
    simple_exit(rep, p, e, chk, mon=M(rep))
    # style difference
    e = apply_entry(p, PRE + 'StyleDiff')
    ff = fields(p, PRE + 'StyleDiff')
    order = [ff['foreground'], ff['background'], ff['intensity']]

    def chk2(ip, st, val):
        got = S_.parts(ip.canon(st, val))
        old = S_.parts(style)
        for n, g, o, i in zip(('foreground', 'background', 'intensity'), got, old, order):
            opt_ = ('fld', ('mem', me), 0, i)
            d = discr_of(st, opt_)
            if d is None:
                if ip.same(st, g, o) or True:
                    rep.bad(n, fn_name(e), 'a style difference does not look at its %s (result %s)' % (n, show(g)))
                continue
            w = o if d == 0 else ('fld', opt_, 1, 0)
            if not ip.same(st, g, w):
                rep.bad(n, fn_name(e), 'applying a style difference %s %s gives %s' % ('without' if d == 0 else 'with', n, show(ip.canon(st, g))))
    simple_exit(rep, p, e, chk2)
    # slices: inductive loop invariant
    sl = [e for e in entries(p, trait=R, name='apply') if p.T[e['self']]['k'] == 'slice']
    if not sl:
        raise Anchor('Restyle for [T]')
    e = sl[0]

    # a loop over any number of members; and, to tell a wrong loop from one whose invariant is out of reach, slices of definite lengths
    class L(Mon):
        def on_event(self, ip, st, ev):
            if ev.name != RESTYLE:
                rep.bad('call', fn_name(e), 'applying a slice calls %s' % ev.name)
                return
            i, cur, root = st.ghost['i'], st.ghost['cur'], st.ghost['root']
            got = loc_of(ev.args[0])
            okk = got[0] == root and len(got[1]) == 1 and got[1][0][0] == 'x' and ip.same(st, got[1][0][1], i)
            if not okk:
                rep.bad('order', fn_name(e), 'slice: after %s applications the next one is of %s' % (show(i), show(ev.args[0])))
            if not ip.same(st, ev.args[1], cur):
                rep.bad('thread', fn_name(e), 'slice: application starts from %s, expected %s' % (show(ev.args[1]), show(cur)))
            st.ghost['i'] = add(i, I(1))
            st.ghost['cur'] = ev.ret

    def chk3(ip, st, val):
        n = st.ghost['n']
        if not (ip.same(st, st.ghost['i'], n) or ip.decide(st, ip.binop(st, 'Eq', st.ghost['i'], n, 0)) or (ip.decide(st, ('op', 'Lt', st.ghost['i'], n)) is False)):
            rep.bad('count', fn_name(e), 'slice: returns after %s of %s members' % (show(st.ghost['i']), show(n)))
        if not ip.same(st, val, st.ghost['cur']):
            rep.bad('result', fn_name(e), 'slice: returns %s, expected the last result %s' % (show(ip.canon(st, val)), show(st.ghost['cur'])))
    g = lambda root, n: {'i': I(0), 'cur': style, 'root': root, 'n': n}
    for n in range(10):
        arr = ('K', ('A', 'array', 0, tuple(('sym', 'member%d' % i) for i in range(n))))
        simple_exit(rep, p, e, chk3, mon=L(rep), ghost=g(arr, I(n)), args=[('P', arr, (), I(n)), style], unroll=12)
    simple_exit(rep, p, e, chk3, mon=L(rep), ghost=g(('mem', me), ('len', me)))


def s03(rep, P):
    p = P('stylish_style')
    S_ = Styles(p)
    e = entry(p, selfp=STYLE, name='diff_from')
    new, old = ('sym', 'arg0'), ('sym', 'arg1')
    ff = fields(p, PRE + 'StyleDiff')
    names = ('foreground', 'background', 'intensity')

    def chk(ip, st, val):
        v = ip.canon(st, val)
        for n, a, b, t in zip(names, S_.parts(new), S_.parts(old), (S_.ctid, S_.ctid, S_.itid)):
            g = ip.canon(st, fld(v, 0, ff[n]))
            same = S_.eq1(ip, st, a, b, t)
            d = discr_of(st, g)
            if d is None or same is None:
                rep.bad(n, fn_name(e), 'the difference of %s is %s without the two styles having been compared' % (n, show(g)))
            elif d == 0 and not same:
                rep.bad(n, fn_name(e), 'the difference omits %s although the styles may disagree on it (%s against %s)' % (n, show(ip.canon(st, a)), show(ip.canon(st, b))))
            elif d == 1 and same:
                rep.bad(n, fn_name(e), 'the difference contains %s although the styles agree on it' % n)
            elif d == 1 and not ip.same(st, fld(g, 1, 0), a):
                rep.bad(n, fn_name(e), 'the difference contains %s for %s, expected the second style\'s' % (show(fld(g, 1, 0)), n))
        if st.tr:
            rep.bad('effects', fn_name(e), 'diff_from calls unknown code')
    simple_exit(rep, p, e, chk)
    D = 'core::default::Default'
    for path, want in ((STYLE, S_.default), (PRE + 'Color', S_.color('Default')), (PRE + 'Intensity', S_.inten('Normal')),
                       (PRE + 'Foreground', ('A', PRE + 'Foreground', 0, (S_.color('Default'),))),
                       (PRE + 'Background', ('A', PRE + 'Background', 0, (S_.color('Default'),))),
                       (PRE + 'StyleDiff', ('A', PRE + 'StyleDiff', 0, (NONE, NONE, NONE)))):
        e2 = entry(p, trait=D, selfp=path, name='default')

        def chk2(ip, st, val):
            if not ip.same(st, val, want):
                rep.bad('default', fn_name(e2), 'the default of %s is %s' % (path, show(ip.canon(st, val))))
        simple_exit(rep, p, e2, chk2)


def s04(rep, P):
    """PartialEq::eq and ne of all six value types on two symbolic values: on every partition the result implies, and is implied by, agreement of every attribute"""
    p = P('stylish_style')
    EQ = 'core::cmp::PartialEq'
    a, b = ('mem', ('sym', 'arg0')), ('mem', ('sym', 'arg1'))

    def agree(ip, st, x, y, tid):
        """condition: x and y agree in everything, a value of type tid"""
        t = p.T[tid]
        r = []
        if t['k'] == 'adt' and t['ak'] == 'enum':
            r.append(ip.binop(st, 'Eq', ip.discr(st, x, tid), ip.discr(st, y, tid), 0))
            for vi, v in enumerate(t['v']):
                for i, f in enumerate(v['f']):
                    inner = agree(ip, st, fld(x, vi, i), fld(y, vi, i), f[1])
                    r.append(('op', 'Or', ip.neg(ip.binop(st, 'Eq', ip.discr(st, x, tid), I(v['d']), 0)), inner))
        elif t['k'] == 'adt':
            r += [agree(ip, st, fld(x, 0, i), fld(y, 0, i), f[1]) for i, f in enumerate(t['v'][0]['f'])]
        else:
            raise Shape('a style value holds a %s' % t.get('s'))
        out = r[0] if r else I(1)
        for x in r[1:]:
            out = ('op', 'And', out, x)
        return out
    n = 0
    for path in (STYLE, PRE + 'Color', PRE + 'Intensity', PRE + 'Foreground', PRE + 'Background', PRE + 'StyleDiff'):
        e = entry(p, trait=EQ, selfp=path, name='eq')
        for e in [e] + entries(p, trait=EQ, selfp=path, name='ne'):
            n += 1

            def chk(ip, st, val):
                if st.tr:
                    rep.bad('effects', fn_name(e), 'comparing %s calls unknown code' % path)
                want = agree(ip, st, a, b, e['self'])
                for r in (True, False):
                    for s in ip.split_assume(st.copy(), val, r):
                        for s2 in ip.split_assume(s, want, r == (e['name'] == 'ne')):
                            rep.bad('eq', fn_name(e), '%s of %s gives %s for %s and %s' % (e['name'], path.split('::')[1], r, show(ip.canon(s2, a)), show(ip.canon(s2, b))))
            simple_exit(rep, p, e, chk)
    rep.did('implementations', n)


RULES = {'S01': s01, 'S02': s02, 'S03': s03, 'S04': s04}
