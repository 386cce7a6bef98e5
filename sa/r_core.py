"""C01-C08: formatter, attributed string, standard flags, failure, byte writers, delegation."""
from common import *

CORE = 'stylish_core'
STRING = 'stylish_core::string::String'
TRAP_METHODS = ('write_str', 'write_char', 'write_fmt')
SWT, SIOT = 'stylish_core::write::Write', 'stylish_core::io::Write'
a0, a1, a2 = ('sym', 'arg0'), ('sym', 'arg1'), ('sym', 'arg2')


def fm_unchanged(rep, ip, st, e, fm, what):
    """*self (a Formatter behind arg0) still is what it was"""
    me = ('mem', a0)
    v = at(ip, st, a0)
    if v is None:
        return
    for i, n in ((fm.s, 'style'), (fm.f, 'flags'), (fm.w, 'stream')):
        if not ip.same(st, fld(v, 0, i), ('fld', me, 0, i)):
            rep.bad('parent', fn_name(e), '%s changes the %s of the formatter it is called on to %s' % (what, n, show(ip.canon(st, fld(v, 0, i)))))


def writes(rep, p, fm, e, text, style, what):
    def chk(ip, st, val):
        outs = [x for x in st.tr if x.name.startswith(SW)]
        if len(st.tr) == len(outs) == 0 and ip.decide(st, ip.binop(st, 'Eq', slen(text), I(0), 0)):
            if retval(ip, st, val)[0] != 'ok':
                rep.bad('empty', fn_name(e), '%s fails for empty text' % what)
            return
        if len(outs) != 1 or len(st.tr) != 1:
            rep.bad('once', fn_name(e), '%s makes %d writes to the stream (%s)' % (what, len(outs), ', '.join(x.name for x in st.tr)))
            return
        ev = outs[0]
        sent = ev.args[1]
        if ev.name == SW + 'write_char':
            sent = ('op', 'utf8', sent)
        elif ev.name != SW + 'write_str':
            rep.bad('once', fn_name(e), '%s calls %s' % (what, ev.name))
            return
        if not reaches(ip, st, ev.args[0], fm.write(style[1])):
            rep.bad('stream', fn_name(e), '%s writes to %s' % (what, show(ev.args[0])))
        if not ip.same(st, sent, text):
            rep.bad('text', fn_name(e), '%s writes %s instead of the text given' % (what, show(ip.canon(st, sent))))
        if not ip.same(st, ev.args[2], style[0]):
            rep.bad('style', fn_name(e), '%s writes in style %s' % (what, show(ip.canon(st, ev.args[2]))))
        passes(rep, ip, st, val, ev, e, what)
    each(rep, p, e, chk, mon=Snap(rep))


def proxies(rep, p, fm):
    """what lies between a standard formatting implementation and the formatter: every way to write through it"""
    n = 0
    for e in entries(p, trait='core::fmt::Write'):
        sp = self_path(p, e)
        if sp == FORMATTER or e.get('provided') and e['name'] != 'write_char':
            continue
        fs = fidx(p, sp, lambda t, i: t['k'] == 'ref' and p.T[t['t']].get('path') == FORMATTER) if sp else []
        if len(fs) != 1:
            rep.undec(fn_name(e), 'no formatter inside')
            continue
        inner = ('mem', ('fld', ('mem', a0), 0, fs[0]))
        if e['name'] == 'write_fmt':
            rep.undec(fn_name(e), 'its own way to format arguments')
            continue
        n += 1
        writes(rep, p, fm, e, a1 if e['name'] == 'write_str' else ('op', 'utf8', a1), (fm.style(inner), inner), fn_name(e))
    return n


def c01(rep, P):
    """every path through Formatter::{with,with_args,write_str,write_fmt}, its two Write impls and the standard-formatter proxy"""
    p = P(CORE)
    fm = Fm(p)
    me = ('mem', a0)
    for name in ('with', 'with_args'):
        e = entry(p, selfp=FORMATTER, name=name)
        rarg = ('sym', 'arg%d' % (len(e['ins']) - 1))

        def chk(ip, st, val):
            evs = [x for x in st.tr]
            if len(evs) != 1 or evs[0].name != RESTYLE:
                rep.bad('restyle', fn_name(e), '%s applies its restyling %d times' % (fn_name(e), len([x for x in evs if x.name == RESTYLE])))
                return
            ev = evs[0]
            if ev.extra.get(0) != rarg:
                rep.bad('restyle', fn_name(e), '%s applies %s instead of its argument' % (fn_name(e), show(ev.args[0])))
            if not ip.same(st, ev.args[1], fm.style(me)):
                rep.bad('base', fn_name(e), '%s applies the restyling to %s, not to the style in force' % (fn_name(e), show(ip.canon(st, ev.args[1]))))
            v = ip.canon(st, val)
            if not ip.same(st, fm.style(v), ev.ret):
                rep.bad('style', fn_name(e), '%s derives a formatter with style %s' % (fn_name(e), show(ip.canon(st, fm.style(v)))))
            wantf = ('mem', a1) if name == 'with_args' else fm.flags(me)
            if not ip.same(st, fm.flags(v), wantf):
                rep.bad('flags', fn_name(e), '%s derives a formatter with flags %s, expected %s' % (fn_name(e), show(ip.canon(st, fm.flags(v))), show(wantf)))
            if not reaches(ip, st, fm.write(v), fm.write(me)) and not reaches(ip, st, fm.write(v), a0):
                rep.bad('stream', fn_name(e), '%s derives a formatter on another stream: %s' % (fn_name(e), show(fm.write(v))))
            fm_unchanged(rep, ip, st, e, fm, fn_name(e))
        each(rep, p, e, chk, mon=Snap(rep))

    w_ = lambda *x: writes(rep, p, fm, *x)
    e = entry(p, selfp=FORMATTER, name='write_str')
    w_(e, a1, (fm.style(me), me), 'Formatter::write_str')
    e = entry(p, selfp=FORMATTER, trait=SWT, name='write_str')
    w_(e, a1, (a2, me), 'Write for Formatter')
    e = entry(p, selfp=FORMATTER, trait='core::fmt::Write', name='write_str')
    w_(e, a1, (fm.style(me), me), 'core::fmt::Write for Formatter')
    for e in entries(p, selfp=FORMATTER, trait='core::fmt::Write', name='write_char'):
        w_(e, ('op', 'utf8', a1), (fm.style(me), me), 'core::fmt::Write::write_char for Formatter')
    for e in entries(p, selfp=FORMATTER, trait=SWT, name='write_char'):
        w_(e, ('op', 'utf8', a1), (a2, me), 'Write::write_char for Formatter')
    proxies(rep, p, fm)
    # formatting arguments through a formatter: with the style and flags in force
    for kw in (dict(), dict(trait=SWT)):
        e = entry(p, selfp=FORMATTER, name='write_fmt', **kw)

        def chk(ip, st, val):
            calls = [x for x in st.tr if x.name in FNCALLS]
            if len(calls) != 1 or len(st.tr) != 1:
                rep.bad('once', fn_name(e), '%s runs the arguments %d times' % (fn_name(e), len(calls)))
                return
            ev = calls[0]
            f = ev.extra.get(1)
            if f is None:
                rep.undec(fn_name(e), 'formatter of the call')
                return
            for n, g, w in (('style', fm.style(f), fm.style(me)), ('flags', fm.flags(f), fm.flags(me))):
                if not ip.same(st, g, w):
                    rep.bad(n, fn_name(e), '%s runs the arguments with %s %s' % (fn_name(e), n, show(ip.canon(st, g))))
            if not reaches(ip, st, fm.write(f), fm.write(me)):
                rep.bad('stream', fn_name(e), '%s runs the arguments on %s' % (fn_name(e), show(fm.write(f))))
            passes(rep, ip, st, val, ev, e, fn_name(e))
        each(rep, p, e, chk, mon=Snap(rep))


# ------------------------------------------------------------------ C02
def string_fields(p):
    s = one_field(p, STRING, lambda t, i: t.get('path') == 'alloc::string::String', 'the text')
    v = one_field(p, STRING, lambda t, i: t.get('path') == 'alloc::vec::Vec' and p.T[t['args'][0]]['k'] == 'tuple', 'the style boundaries')
    tup = p.T[p.T[p.T[tid_of(p, STRING)]['v'][0]['f'][v][1]]['args'][0]]
    kinds = [p.T[x].get('path') or p.T[x]['k'] for x in tup['f']]
    si = [i for i, k in enumerate(kinds) if k == STYLE]
    ni = [i for i, k in enumerate(kinds) if k == 'int']
    if len(si) != 1 or len(ni) != 1:
        raise Shape('style boundaries (position, style) of %s' % STRING)
    return s, v, ni[0], si[0]


class Hist:
    """attributed strings made by writes of any texts in one of three styles, followed exactly: nothing is generalised"""

    def __init__(self, rep, p):
        self.rep, self.p = rep, p
        S_ = Styles(p)
        self.new = entry(p, selfp=STRING, name='new')
        self.wr = entry(p, selfp=STRING, trait=SWT, name='write_str')
        self.show = entry(p, selfp=STRING, trait='stylish_core::display::Display', name='fmt')
        X = ('A', STYLE, 0, tuple(S_.color('Red') if i == S_.fg else x for i, x in enumerate(S_.default[3])))
        Y = ('A', STYLE, 0, tuple(S_.inten('Bold') if i == S_.it else x for i, x in enumerate(S_.default[3])))
        self.sty = {'D': S_.default, 'X': X, 'Y': Y}

        class M(Mon):
            def on_event(self, ip, st, ev):
                text = ev.args[1] if len(ev.args) > 1 else ev.args[0] if ev.args else UNIT
                o = ('A', 'out', 0, (TAG(ev.name), st.F.norm(text), ip.canon(st, ev.args[2]) if len(ev.args) > 2 else UNIT, ev.ret))
                st.ghost['out'] = ('A', 'outs', 0, st.ghost['out'][3] + (o,))
        self.M = M

    @staticmethod
    def ptr(root):
        return ('P', root, (), None)

    def step(self, states, e, args):
        ip = Interp(self.p, Std(), self.M(self.rep), unroll=12)
        ip.bounded = True

        def make():
            out = []
            for s in states:
                s = s.copy()
                s.fr, s.vis = [], {}
                ip.push(s, e['key'], args, None, None)
                out.append(s)
            return out
        ip.entry_key = e['key']
        ip.run(make)
        self.rep.add(ip)
        return ip, list(ip.mon.exits)

    def empty(self, root, states=None):
        """an empty string at root"""
        if states is None:
            ip, ex = each(self.rep, self.p, self.new, lambda ip, st, val: None)
            out = []
            for status, val, st in ex:
                s = st.copy()
                s.mem[root] = ip.canon(st, val)
                s.ghost['out'] = ('A', 'outs', 0, ())
                s.tr = ()
                out.append(s)
            return out
        ip, ex = self.step(states, self.new, [])
        out = []
        for status, val, st in ex:
            s = st.copy()
            s.mem[root] = ip.canon(st, val)
            s.tr = ()
            out.append(s)
        return out

    def write(self, states, root, text, c):
        rep, wr = self.rep, self.wr
        try:
            ip, ex = self.step(states, wr, [self.ptr(root), ('sym', text), self.sty[c]])
        except Unsupported as u:
            rep.undec(fn_name(wr), str(u))
            return []
        out = []
        for status, val, st in Exits.of(rep, ex):
            if status == 'return' and discr_of(st, val) == 0:
                s = st.copy()
                s.tr = ()
                out.append(s)
            elif status == 'panic' or status == 'return' and discr_of(st, val) == 1:
                rep.bad('write', fn_name(wr), 'writing text to an attributed string fails: %s' % show(val) if isinstance(val, tuple) else val)
            else:
                rep.undec(fn_name(wr), str(val))
        return out

    def levels(self, start, root, kmax, text='text'):
        """histories of up to kmax writes, up to renaming of styles -> states"""
        level = {(): start}
        for k in range(kmax + 1):
            nxt = {}
            for hist, states in level.items():
                yield hist, states
                if k == kmax:
                    continue
                for c in 'DXY':
                    if c == 'Y' and 'X' not in hist:
                        continue    # up to renaming
                    ss = self.write(states, root, text + str(k), c)
                    if ss:
                        nxt[hist + (c,)] = ss
            level = nxt

    def pieces(self, st, text):
        if text[0] == 'op' and text[1] == 'str':
            v = st.F.norm(text[2])
            if v[0] == 'cat':
                return list(v[1:])
        return [text]

    def judge(self, states, root, hist, what, text='text', e=None):
        """what is at root is displayed as hist"""
        rep, sty = self.rep, self.sty
        where = fn_name(e or self.show)
        try:
            ip, ex = self.step(states, self.show, [self.ptr(root), ('sym', 'f')])
        except Unsupported as u:
            rep.undec(where, str(u))
            return 0
        n = 0
        for status, val, st in Exits.of(rep, ex):
            if status != 'return':
                if status == 'panic':
                    rep.bad('panic', where, 'displaying an attributed string %s: %s' % (what, val))
                else:
                    rep.undec(where, 'displaying an attributed string %s: %s' % (what, val))
                continue
            out = [(x[3][0][1].decode(),) + x[3][1:] for x in st.ghost['out'][3]]
            if any(discr_of(st, o[3]) == 1 for o in out):
                continue
            empty = lambda x: ip.decide(st, ip.binop(st, 'Eq', slen(x), I(0), 0))
            texts = [('sym', text + str(i)) for i in range(len(hist))]
            want = [(t, sty[s]) for t, s in zip(texts, hist) if empty(t) is not True]
            got, plain = [], True
            for name, txt, style, _ in out:
                if name != SW + 'write_str':
                    plain = False
                for x in self.pieces(st, txt):
                    if x == S(b'') or empty(x) is True:
                        continue
                    got.append((x, style))
                    plain = plain and x[0] == 'sym' and style[0] == 'A' and style != UNIT
            n += 1
            if not plain:
                rep.undec(where, '%s displays %s' % (what, ', '.join(show(x) for x, _ in got)))
            elif got != want:
                rep.bad('history', where, '%s it is displayed as %s' % (what, ', '.join('%s in style %s' % (show(t), next((k for k in sty if sty[k] == s), show(s))) for t, s in got) or 'nothing'))
        return n


def told(hist, text='text'):
    return ', '.join('%s%d in style %s' % (text, i, s) for i, s in enumerate(hist)) or 'nothing'


def histories(rep, p, kmax=4):
    """an attributed string made by up to four writes of any texts, displayed: the same texts in the same styles"""
    h = Hist(rep, p)
    root = ('tmp', 'the string')
    n = 0
    for hist, states in h.levels(h.empty(root), root, kmax):
        n += h.judge(states, root, hist, 'after writing ' + told(hist))
    rep.did('histories of writes', n)


def copies(rep, p, e, kmax=2):
    """String::clone / clone_from followed exactly, for strings made by up to two writes of any texts"""
    h = Hist(rep, p)
    src, dst = ('tmp', 'the original'), ('tmp', 'the copy')
    n = 0
    for hist, states in list(h.levels(h.empty(src), src, kmax)):
        olds = [((), states)] if e['name'] == 'clone' else h.levels(h.empty(dst, states), dst, kmax, 'old')
        for old, ss in olds:
            what = 'copied from a string of ' + told(hist) + (' over one of ' + told(old, 'old') if old else '')
            try:
                ip, ex = h.step(ss, e, [h.ptr(src)] if e['name'] == 'clone' else [h.ptr(dst), h.ptr(src)])
            except Unsupported as u:
                rep.undec(fn_name(e), str(u))
                continue
            after = []
            for status, val, st in Exits.of(rep, ex):
                if status == 'panic':
                    rep.bad('panic', fn_name(e), '%s: %s' % (what, val))
                elif status != 'return':
                    rep.undec(fn_name(e), '%s: %s' % (what, val))
                else:
                    s = st.copy()
                    s.tr = ()
                    s.ghost['out'] = ('A', 'outs', 0, ())
                    if e['name'] == 'clone':
                        s.mem[dst] = val
                    after.append(s)
            if after:
                n += h.judge(after, dst, hist, what, e=e)
                n += h.judge(after, src, hist, what + ', the original', e=e)
    rep.did('copies of strings', n)


def c02(rep, P):
    """String::write_str against the representation (text, sorted boundaries); Display loop against a ghost cursor over the text, to a fixpoint;
    histories of up to four writes against what is displayed, whatever the representation"""
    p = P(CORE)
    S_ = Styles(p)
    fm = Fm(p)
    histories(rep, p)
    try:
        sf, vf, ni, si = string_fields(p)
    except (Anchor, Shape) as x:
        rep.undec(STRING, 'kept in another form than text and boundaries: only histories of up to four writes were looked at')
        return
    c02_shape(rep, p, S_, fm, sf, vf, ni, si)


def c02_shape(rep, p, S_, fm, sf, vf, ni, si):
    me = ('mem', a0)
    text0, vec0 = ('fld', me, 0, sf), ('fld', me, 0, vf)
    L = slen(strof(text0))

    def post(e, text, style):
        def chk(ip, st, val):
            if st.tr:
                rep.bad('effects', fn_name(e), '%s calls %s' % (fn_name(e), st.tr[0].name))
                return
            if retval(ip, st, val)[0] != 'ok':
                rep.bad('ok', fn_name(e), '%s can fail (%s)' % (fn_name(e), show(val)))
                return
            v = at(ip, st, a0)
            t1, v1 = fld(v, 0, sf), fld(v, 0, vf)
            empty = ip.decide(st, ip.binop(st, 'Eq', slen(text), I(0), 0))
            want = mk_cat(text0, text)
            if not (ip.same(st, strof(t1), strof(want)) or empty and ip.same(st, strof(t1), strof(text0))):
                rep.bad('text', fn_name(e), '%s leaves the text %s, expected the old text followed by the new' % (fn_name(e), show(ip.canon(st, t1))))
            v1 = ip.canon(st, v1)
            if v1[0] != 'vec' and ip.same(st, v1, vec0):
                # no new boundary: the last one must already have this style
                n = ('len', ('op', 'vs', vec0))
                last = ('fld', ('ix', ('mem', ('op', 'vs', vec0)), sub_(n, I(1))), 0, si)
                ne = ip.decide(st, ip.binop(st, 'Eq', n, I(0), 0))
                if empty:
                    return
                if ne is not False:
                    rep.bad('boundary', fn_name(e), '%s records no style for text written to an empty string' % fn_name(e))
                elif S_.eq(ip, st, last, style) is not True:
                    rep.bad('boundary', fn_name(e), '%s records no boundary although the last style %s may differ from the new %s' % (fn_name(e), S_.describe(ip, st, last), S_.describe(ip, st, style)))
                return
            if v1[0] == 'vec' and ip.same(st, v1[1], vec0) and len(v1) == 3 and v1[2][0] == 'A':
                b = v1[2][3]
                if not ip.same(st, b[ni], L):
                    rep.bad('position', fn_name(e), '%s records the new style from position %s, expected the old length %s' % (fn_name(e), show(ip.canon(st, b[ni])), show(L)))
                if not ip.same(st, b[si], style) and S_.eq(ip, st, b[si], style) is not True:
                    rep.bad('style', fn_name(e), '%s records style %s' % (fn_name(e), show(ip.canon(st, b[si]))))
                return
            if v1[0] == 'vec':
                rep.bad('boundary', fn_name(e), '%s changes the style boundaries to %s' % (fn_name(e), show(v1)))
            else:
                rep.undec(fn_name(e), 'style boundaries %s' % show(v1))
        each(rep, p, e, chk)
    post(entry(p, selfp=STRING, trait=SWT, name='write_str'), a1, a2)
    for e in entries(p, selfp=STRING, trait=SWT, name='write_char'):
        post(e, ('op', 'utf8', a1), a2)
    # whatever else takes an attributed string to change it: nothing, or text with its boundary
    for e in p.entries:
        if self_path(p, e) != STRING or not e['ins'] or not e['pub'] or e['name'] in ('write_str', 'write_char') and e.get('trait') == SWT:
            continue
        t = p.T[e['ins'][0]]
        if t['k'] != 'ref' or not t.get('mut', True) or p.T[t['t']].get('path') != STRING:
            continue

        def kept(ip, st, val):
            if any(x.name.startswith('stylish_core') or not ip.same(st, at(ip, st, a0), me) and ip.same(st, x.args[0], a0) for x in st.tr if x.args):
                return
            v = at(ip, st, a0)
            t1, v1 = ip.canon(st, fld(v, 0, sf)), ip.canon(st, fld(v, 0, vf))
            same = ip.same(st, strof(t1), strof(text0))
            if same and ip.same(st, v1, vec0):
                return
            if not same and ip.same(st, v1, vec0):
                rep.bad('boundary', fn_name(e), '%s changes the text to %s without recording a style for it' % (fn_name(e), show(t1)))
                return
            if not (t1 == ('cat',) and v1 == ('vec', UNIT)):
                rep.undec(fn_name(e), 'changes the attributed string in a way of its own')
        each(rep, p, e, kept, panic_ok=True)
    for e in entries(p, selfp=STRING, name='new') + entries(p, selfp=STRING, trait='core::default::Default', name='default'):
        def chk(ip, st, val):
            v = ip.canon(st, val)
            if fld(v, 0, sf) != ('cat',) or fld(v, 0, vf) != ('vec', UNIT):
                rep.bad('empty', fn_name(e), '%s is not empty: %s' % (fn_name(e), show(v)))
        each(rep, p, e, chk)
    # display
    e = entry(p, selfp=STRING, trait='stylish_core::display::Display', name='fmt')
    vs = ('op', 'vs', vec0)
    n = ('len', vs)
    ix = lambda j: ('ix', ('mem', vs), j)
    f0 = ('mem', a1)

    def built(ip, st):
        """what the clauses above keep: nothing recorded means no text, and the first boundary is where the text begins"""
        out = []
        for x in ip.split_assume(st.copy(), ip.binop(st, 'Eq', n, I(0), 0), True):
            out += ip.split_assume(x, ip.binop(x, 'Eq', slen(strof(text0)), I(0), 0), True)
        for x in ip.split_assume(st.copy(), ip.binop(st, 'Eq', n, I(0), 0), False):
            out += ip.split_assume(x, ip.binop(x, 'Eq', ('fld', ix(I(0)), 0, ni), I(0), 0), True)
        return out

    def same(ip, st, a, b):
        return ip.same(st, a, b) or all(ip.same(x, a, b) for x in built(ip, st))

    class M(Mon):
        def on_event(self, ip, st, ev):
            if ev.name != SW + 'write_str':
                rep.bad('call', fn_name(e), 'displaying an attributed string calls %s' % ev.name)
                return
            s = st.F.norm(ev.args[1])
            if not reaches(ip, st, ev.args[0], fm.write(f0)):
                rep.bad('stream', fn_name(e), 'displaying an attributed string writes to %s' % show(ev.args[0]))
            base = strof(text0)
            full = slen(base)
            if s == base:
                a, b = I(0), full
            elif s[0] == 'sub' and s[1] == base:
                a, b = s[2], s[3]
            else:
                rep.bad('text', fn_name(e), 'displaying an attributed string writes %s' % show(s))
                return
            pos = st.ghost['pos']
            sty = ip.canon(st, ev.args[2])
            j = sty[1][2] if sty[0] == 'fld' and sty[1][0] == 'ix' and sty[1][1] == ('mem', vs) and sty[3] == si else None
            if j is None:
                rep.bad('style', fn_name(e), 'text is displayed in style %s, which is not a recorded one' % show(sty))
                return
            if not same(ip, st, a, pos):
                rep.bad('order', fn_name(e), 'displayed up to position %s, the next text starts at %s' % (show(pos), show(a)))
            if not same(ip, st, a, ('fld', ix(j), 0, ni)):
                rep.bad('style', fn_name(e), 'text from position %s is displayed in the style recorded for %s' % (show(a), show(ip.canon(st, ('fld', ix(j), 0, ni)))))
            j1 = add(j, I(1))
            if not (ip.same(st, b, ('fld', ix(j1), 0, ni)) and self.lt(ip, st, j1) or ip.same(st, b, full) and self.isn(ip, st, j1)):
                rep.bad('end', fn_name(e), 'the text of boundary %s ends at %s instead of the next boundary or the end' % (show(j), show(b)))
            st.ghost['pos'] = b
            st.ghost['last'] = ev.ret
            st.ghost['k'] = j1
            st.ghost['at'] = TAG('end' if b == full else 'boundary')

        def lt(self, ip, st, j):
            return ip.decide(st, ip.binop(st, 'Lt', j, n, 0))

        def isn(self, ip, st, j):
            return ip.decide(st, ip.binop(st, 'Lt', j, n, 0)) is False or ip.decide(st, ip.binop(st, 'Eq', j, n, 0))

    m = M(rep)

    def chk(ip, st, val):
        k, v = retval(ip, st, val)
        if k is None and st.ghost['last'] != UNIT and ip.same(st, val, st.ghost['last']):
            return
        if k == 'err':
            if st.ghost['last'] == UNIT or discr_of(st, st.ghost['last']) != 1:
                rep.bad('ok', fn_name(e), 'displaying an attributed string fails although no write failed')
            return
        if st.ghost['last'] != UNIT and discr_of(st, st.ghost['last']) != 0:
            rep.bad('failure', fn_name(e), 'displaying an attributed string succeeds although a write failed')
        kk = st.ghost['k']
        if not m.isn(ip, st, kk):
            rep.bad('all', fn_name(e), 'displaying an attributed string stops after %s of its %s pieces' % (show(kk), show(n)))

    each(rep, p, e, chk, mon=m, ghost={'pos': ('fld', ix(I(0)), 0, ni), 'last': UNIT, 'k': I(0), 'at': TAG('start')})
    e2 = entry(p, path='stylish_core::format::format')


# ------------------------------------------------------------------ C05, C06, C08
def err_kind(ip, name):
    for i, t in enumerate(ip.T):
        if t['k'] == 'adt' and t['path'].endswith('io::error::ErrorKind') and t['v']:
            return i, [x['d'] for x in t['v'] if x['n'] == name][0]
    raise Anchor('io::ErrorKind')


def kind_is(ip, st, e, name):
    """condition: the kind of io error e is `name`"""
    tid, d = err_kind(ip, name)
    k = ('op', 'kind', e)
    if e[0] == 'op' and e[1] == 'ioerr':
        k = e[2]
    return ip.binop(st, 'Eq', ip.discr(st, k, tid), I(d), 0)


TAG = lambda s: ('S', s.encode(), '')


class WriteAll(Mon):
    """ghost: the part of the buffer not yet accepted, and how the last write went"""

    def __init__(self, rep, e, style, target):
        super().__init__(rep)
        self.e, self.style, self.target = e, style, target

    def on_event(self, ip, st, ev):
        rep, e = self.rep, self.e
        if ev.name != SIOW + 'write':
            rep.bad('call', fn_name(e), '%s calls %s' % (fn_name(e), ev.name))
            return
        rem, last = st.ghost['rem'], st.ghost['last']
        if not reaches(ip, st, ev.args[0], self.target):
            rep.bad('stream', fn_name(e), '%s writes to %s' % (fn_name(e), show(ev.args[0])))
        if not ip.same(st, ev.args[1], rem):
            rep.bad('buffer', fn_name(e), 'with %s left to write, %s is written' % (show(rem), show(ip.canon(st, ev.args[1]))))
        if not ip.same(st, ev.args[2], self.style):
            rep.bad('style', fn_name(e), 'written in style %s' % show(ip.canon(st, ev.args[2])))
        if ip.decide(st, ip.binop(st, 'Eq', slen(rem), I(0), 0)) is not False:
            rep.bad('empty', fn_name(e), 'a write is attempted although nothing may be left (%s)' % show(rem))
        if last in (TAG('zero'), TAG('fail')):
            rep.bad('retry', fn_name(e), 'writing goes on after %s' % ('a write accepted nothing' if last == TAG('zero') else 'a write failed'))
        ip.discr(st, ev.ret, self.res_tid(ip))
        out = []
        n = ok_of(ev)
        for s in ip.split_assume(st.copy(), ('op', 'Eq', ('discr', ev.ret), I(0)), True):
            for z in (True, False):
                for s2 in ip.split_assume(s.copy(), ip.binop(s, 'Eq', n, I(0), 0), z):
                    if z:
                        s2.ghost['last'] = TAG('zero')
                    else:
                        # contract of the writer: it accepts at most what it was given
                        if not ip.assume(s2, ip.binop(s2, 'Le', n, slen(rem), 0), True):
                            continue
                        s2.ghost['last'] = TAG('some')
                        s2.ghost['rem'] = mk_sub(rem, n, slen(rem))
                    out.append((s2, ev.ret))
        for s in ip.split_assume(st.copy(), ('op', 'Eq', ('discr', ev.ret), I(0)), False):
            c = kind_is(ip, s, err_of(ev), 'Interrupted')
            for z in (True, False):
                for s2 in ip.split_assume(s.copy(), c, z):
                    s2.ghost['last'] = TAG('intr' if z else 'fail')
                    s2.ghost['err'] = err_of(ev)
                    out.append((s2, ev.ret))
        return out

    def res_tid(self, ip):
        for i, t in enumerate(ip.T):
            if t['k'] == 'adt' and t['path'] == RES and t['v']:
                return i
        raise Anchor('Result')


def c05(rep, P):
    """inductive invariant of the default write_all: what remains to be written, for every sequence of short, empty, interrupted and failing writes"""
    p = P(CORE)
    es = [x for x in entries(p, name='write_all') if x.get('provided') == SIOT]
    if len(es) != 1:
        raise Anchor('default method io::Write::write_all')
    e = es[0]

    def chk(ip, st, val):
        k, v = retval(ip, st, val)
        rem, last = st.ghost['rem'], st.ghost['last']
        if k == 'ok':
            if ip.decide(st, ip.binop(st, 'Eq', slen(rem), I(0), 0)) is not True:
                rep.bad('ok', fn_name(e), 'success is returned with %s possibly not written' % show(rem))
        elif k == 'err':
            if last == TAG('zero'):
                if not (v[0] == 'op' and v[1] == 'ioerr' and ip.decide(st, kind_is(ip, st, v, 'WriteZero'))):
                    rep.bad('zero', fn_name(e), 'a writer accepting nothing is reported as %s' % show(v))
            elif last == TAG('fail'):
                if not ip.same(st, v, st.ghost['err']):
                    rep.bad('error', fn_name(e), 'a failed write is reported as %s' % show(v))
            else:
                rep.bad('error', fn_name(e), 'an error is returned although the last write %s' % {TAG('some'): 'accepted some bytes', TAG('intr'): 'was only interrupted', UNIT: 'never happened'}[last])
        else:
            rep.bad('result', fn_name(e), 'returns %s' % show(v))
    each(rep, p, e, chk, mon=WriteAll(rep, e, a2, a0), ghost={'rem': a1, 'last': UNIT, 'err': UNIT})


def trap_field(p, path):
    """the field of the error-remembering adaptor that holds an io error if there is one"""
    def pred(t, i):
        if t.get('path') == OPT:
            return p.T[t['args'][0]].get('path', '').endswith('io::error::Error')
        if t.get('path') == RES:
            return p.T[t['args'][1]].get('path', '').endswith('io::error::Error')
        return False
    return one_field(p, path, pred, 'the error of the stream')


def c06(rep, P):
    """the adaptor between formatting and a byte stream (found as what write_fmt hands to the arguments) remembers exactly the error of a failed write; write_fmt returns it"""
    p = P(CORE)
    fm = Fm(p)
    es = [x for x in entries(p, name='write_fmt') if x.get('provided') == SIOT]
    if len(es) != 1:
        raise Anchor('default method io::Write::write_fmt')
    e = es[0]
    found = {}

    class M(Snap):
        def on_event(self, ip, st, ev):
            if ev.name not in FNCALLS:
                rep.bad('call', fn_name(e), '%s calls %s' % (fn_name(e), ev.name))
                return
            f = ev.extra.get(1)
            w = fm.write(f)
            t, tid = locate_trap(ip, st, w)
            if t is None:
                rep.undec(fn_name(e), 'adaptor handed to the arguments: %s' % show(w))
                return
            ev.extra['trap'] = t
            ev.extra['trap_tid'] = tid

        def event(self, ip, st, ev):
            # remember the adaptor's state before unknown code runs
            if ev.name in FNCALLS:
                f = at(ip, st, fld(ev.args[1], 0, 0))
                t, tid = locate_trap(ip, st, fm.write(f))
                if t is not None:
                    path = p.T[tid]['path']
                    found[path] = tid
                    cur = at(ip, st, t)
                    st.ghost['before'] = ip.canon(st, fld(cur, 0, trap_field(p, path)))
                    st.ghost['inner'] = cur
                    st.ghost['n'] = add(st.ghost.get('n', I(0)), I(1))
                else:
                    st.ghost['n'] = add(st.ghost.get('n', I(0)), I(1))
            r = super().event(ip, st, ev)
            if ev.name in FNCALLS and isinstance(ev.extra, dict) and ev.extra.get('trap'):
                t = ev.extra['trap']
                path = p.T[ev.extra['trap_tid']]['path']
                st.ghost['after'] = fld(at(ip, st, t), 0, trap_field(p, path))
            return r

    def chk(ip, st, val):
        ev = [x for x in st.tr if x.name in FNCALLS]
        if len(ev) != 1:
            rep.bad('once', fn_name(e), 'the arguments are run %d times' % len(ev))
            return
        ev = ev[0]
        if 'after' not in st.ghost:
            return
        before, after = st.ghost['before'], st.ghost['after']
        if before[0] != 'A' or before[2] != 0:
            rep.bad('initial', fn_name(e), 'the adaptor starts out with an error: %s' % show(before))
        k, v = retval(ip, st, val)
        o = outcome(st, ev)
        if o is None or k is None:
            rep.bad('result', fn_name(e), 'the outcome of formatting is not looked at')
            return
        if k == 'ok' and o != 'ok':
            rep.bad('swallow', fn_name(e), 'success is returned although formatting failed')
        if k == 'err':
            d = discr_of(st, after)
            if o == 'ok':
                if d != 1:
                    rep.bad('spurious', fn_name(e), 'an error is returned although formatting succeeded')
                return
            if d is None:
                # not looked at: then it cannot be the writer's
                rep.bad('error', fn_name(e), 'after a failed format the error %s is returned without looking for the stream\'s own' % show(v))
            elif d == 1 and not ip.same(st, v, ('fld', st.F.norm(after), 1, 0) if is_term(st.F.norm(after)) else st.F.norm(after)[3][0]):
                rep.bad('error', fn_name(e), 'the stream failed, but the error returned is %s' % show(v))
            elif d == 0 and not (v[0] == 'op' and v[1] == 'ioerr'):
                rep.bad('error', fn_name(e), 'no write failed, but the error returned is %s' % show(v))
    each(rep, p, e, chk, mon=M(rep))
    if not found:
        raise Shape('the adaptor io::Write::write_fmt formats into')
    for path, tid in found.items():
        tf = trap_field(p, path)
        inner = [i for i in range(len(p.T[tid]['v'][0]['f'])) if i != tf]
        ms = entries(p, selfp=path, trait=SWT)
        if not ms:
            raise Shape('stylish Write for %s' % path)
        for e2 in ms:
            if e2['name'] not in ('write_str', 'write_char'):
                rep.undec(fn_name(e2), 'unexpected override')
                continue
            me = ('mem', a0)
            old = ('fld', me, 0, tf)
            text = a1 if e2['name'] == 'write_str' else ('op', 'utf8', a1)

            class M2(Mon):
                pass

            def chk2(ip, st, val):
                evs = [x for x in st.tr if x.name.startswith(SIOW)]
                if len(evs) != 1 or len(st.tr) != 1 or evs[0].name != SIOW + 'write_all':
                    if not st.tr and ip.decide(st, ip.binop(st, 'Eq', slen(text), I(0), 0)) and retval(ip, st, val)[0] == 'ok':
                        return
                    rep.bad('once', fn_name(e2), 'text is handed to the stream through %s' % ([x.name for x in st.tr],))
                    return
                ev = evs[0]
                okw = any(reaches(ip, st, ev.args[0], ('fld', me, 0, i)) or loc_of(ev.args[0]) == field_ptr(a0, i) for i in inner)
                if not okw:
                    rep.bad('stream', fn_name(e2), 'text is written to %s' % show(ev.args[0]))
                if not ip.same(st, ev.args[1], text):
                    rep.bad('text', fn_name(e2), '%s is written instead of the text' % show(ip.canon(st, ev.args[1])))
                if not ip.same(st, ev.args[2], a2):
                    rep.bad('style', fn_name(e2), 'text is written in style %s' % show(ip.canon(st, ev.args[2])))
                k, v = retval(ip, st, val)
                o = outcome(st, ev)
                now = ip.canon(st, fld(at(ip, st, a0), 0, tf))
                if k is None or o is None or k != o:
                    rep.bad('result', fn_name(e2), 'returns %s although the stream returned %s' % (k, o))
                    return
                if o == 'err':
                    if not (now[0] == 'A' and now[2] == 1 and ip.same(st, now[3][0], err_of(ev))):
                        rep.bad('remember', fn_name(e2), 'the error of the stream is not remembered (%s is)' % show(now))
                elif not ip.same(st, now, old):
                    rep.bad('remember', fn_name(e2), 'a successful write changes the remembered error to %s' % show(now))
            each(rep, p, e2, chk2, mon=M2(rep))


def locate_trap(ip, st, w):
    """follow a stream pointer to a local object holding an optional io error"""
    v = w
    tid = None
    for _ in range(8):
        if v[0] == 'P' and isinstance(v[3], tuple) and v[3][0] == 'vt':
            tid = ip.p._vtn[v[3][1]]['self']
        if tid is None:
            return None, None
        t = ip.T[tid]
        if t['k'] == 'adt':
            try:
                trap_field(ip.p, t['path'])
                return strip(v), tid
            except (Anchor, Shape):
                return None, None
        if t['k'] != 'ref':
            return None, None
        v = at(ip, st, strip(v))
        tid = t['t']
        if v is None:
            return None, None
    return None, None


def fresh_format(rep, p, fm, ip, st, ev, e, target, S_, what):
    """ev runs arguments on a formatter in the default style, without flags, writing to target"""
    f = (ev.extra or {}).get(1)
    if f is None:
        rep.undec(fn_name(e), 'formatter of %s' % ev.name)
        return
    if S_.eq(ip, st, fm.style(f), S_.default) is not True:
        rep.bad('style', fn_name(e), '%s formats its arguments starting from style %s' % (what, S_.describe(ip, st, fm.style(f))))
    if not fm.no_flags(ip, st, fm.flags(f)):
        rep.bad('flags', fn_name(e), '%s formats its arguments with flags %s' % (what, show(ip.canon(st, fm.flags(f)))))
    if target is not None and not leads(ip, st, ev, 'w', target):
        rep.bad('stream', fn_name(e), '%s formats its arguments into %s' % (what, show(fm.write(f))))


def c08(rep, P):
    """default write_char of the text writer; every write_fmt of the workspace's writers (default, overriding or inherent)"""
    for crate in (CORE, 'stylish_ansi', 'stylish_html', 'stylish_plain'):
        p = P(crate)
        fm = Fm(p)
        S_ = Styles(p)
        for e in p.entries:
            sp = self_path(p, e)
            owner = e.get('provided') or e.get('trait')
            if e['name'] == 'write_char' and owner == SWT and not (sp or '').startswith('&'):
                if sp is not None and sp != FORMATTER and not e.get('provided'):
                    continue   # an override of an adaptor: decided with that adaptor

                def chk(ip, st, val):
                    if len(st.tr) != 1 or st.tr[0].name != SW + 'write_str':
                        rep.bad('once', fn_name(e), 'write_char performs %s' % ([x.name for x in st.tr],))
                        return
                    ev = st.tr[0]
                    tgt = a0 if sp != FORMATTER else fm.write(('mem', a0))
                    if not reaches(ip, st, ev.args[0], tgt):
                        rep.bad('stream', fn_name(e), 'write_char writes to %s' % show(ev.args[0]))
                    if not ip.same(st, ev.args[1], ('op', 'utf8', a1)):
                        rep.bad('text', fn_name(e), 'write_char writes %s' % show(ip.canon(st, ev.args[1])))
                    if not ip.same(st, ev.args[2], a2):
                        rep.bad('style', fn_name(e), 'write_char writes in style %s' % show(ip.canon(st, ev.args[2])))
                    passes(rep, ip, st, val, ev, e, 'write_char')
                each(rep, p, e, chk, mon=Snap(rep))
            if e['name'] == 'write_fmt' and sp != FORMATTER and not (sp or '').startswith('&'):
                def chk2(ip, st, val):
                    ev = [x for x in st.tr if x.name in FNCALLS]
                    if len(ev) != 1 or len(st.tr) != 1:
                        rep.bad('once', fn_name(e), '%s runs the arguments %d times and does %s' % (fn_name(e), len(ev), [x.name for x in st.tr if x.name not in FNCALLS]))
                        return
                    if not arg_callable(ip, st, ev[0], a1):
                        rep.bad('args', fn_name(e), '%s runs %s instead of its arguments' % (fn_name(e), show(ev[0].args[0])))
                    fresh_format(rep, p, fm, ip, st, ev[0], e, a0, S_, fn_name(e))
                    k, v = retval(ip, st, val)
                    o = outcome(st, ev[0])
                    if not ip.same(st, val, ev[0].ret) and (k is None or o is None or k != o and not (k == 'err' and o == 'ok')):
                        rep.bad('result', fn_name(e), '%s returns %s although formatting gave %s' % (fn_name(e), k, o))
                each(rep, p, e, chk2, mon=Snap(rep))
    if not rep.obl:
        raise Anchor('write_char / write_fmt')


def arg_callable(ip, st, ev, args):
    """the callable invoked is the one inside the given Arguments value"""
    f = ev.args[0]
    for x in walk(f):
        if isinstance(x, tuple) and x == args:
            return True
    return False


# ------------------------------------------------------------------ C03
def c03(rep, P):
    """StdFmtOther / StdFmtDebug: one case per combination of flags, the compiled format template of the case reached decoded and compared flag by flag"""
    p = P(CORE)
    fm = Fm(p)
    ff = fields(p, FARGS)
    for path, dbg in (('stylish_core::arguments::StdFmtOther', False), ('stylish_core::arguments::StdFmtDebug', True)):
        e = entry(p, selfp=path, trait='stylish_core::display::Display', name='fmt')
        flags = fm.flags(('mem', a1))
        seen = set()

        def chk(ip, st, val):
            evs = list(st.tr)
            if len(evs) != 1 or evs[0].name != FMTW + 'write_fmt':
                rep.bad('once', fn_name(e), '%s performs %s' % (fn_name(e), [x.name for x in evs]))
                return
            ev = evs[0]
            g = lambda n: fld(flags, 0, ff[n])

            def opt(n, names=None):
                d = discr_of(st, g(n))
                if d is None:
                    return '?'
                if d == 0:
                    return None
                inner = ('fld', st.F.norm(g(n)), 1, 0)
                if names is None:
                    return inner
                x = discr_of(st, inner)
                return '?' if x is None else names[x]
            vn = lambda q: [v['n'] for v in p.T[tid_of(p, q)]['v']]
            want = dict(align=opt('align', vn('stylish_core::formatter::Align')), sign=opt('sign', vn('stylish_core::formatter::Sign')),
                        debug_hex=opt('debug_hex', vn('stylish_core::formatter::DebugHex')), width=opt('width'), precision=opt('precision'))
            for n in ('alternate', 'zero'):
                b = ip.decide(st, g(n))
                want[n] = '?' if b is None else b
            fa = ev.args[1]
            if fa[0] != 'A' or fa[1] != 'fmtargs':
                rep.undec(fn_name(e), 'format arguments %s' % show(fa))
                return
            phs = [x for x in fa[3] if x[0] == 'ph']
            lits = [x for x in fa[3] if x[0] == 'lit' and x[1]]
            if len(phs) != 1 or lits:
                rep.bad('value', fn_name(e), 'the value is formatted %d times, with text %s around it' % (len(phs), lits))
                return
            _, arg, fl, w, pr = phs[0]
            got = dict(align={0: 'Left', 1: 'Right', 2: 'Center', 3: None}[fl >> 29 & 3],
                       sign='Plus' if fl >> 21 & 1 else ('Minus' if fl >> 22 & 1 else None),
                       alternate=bool(fl >> 23 & 1), zero=bool(fl >> 24 & 1),
                       debug_hex='Lower' if fl >> 25 & 1 else ('Upper' if fl >> 26 & 1 else None))
            for n, x in (('width', w), ('precision', pr)):
                if x is None:
                    got[n] = None
                elif x[0] == 'i':
                    got[n] = x
                elif x[0] == 'A' and x[1] == 'fmtarg' and x[2] == 'from_usize':
                    got[n] = pointee(ip, st, x[3][0], x[3][1])
                else:
                    got[n] = x
            desc = lambda d: ', '.join('%s=%s' % (k, show(v) if isinstance(v, tuple) else v) for k, v in sorted(d.items()) if v not in (None, False))
            if dbg is False:
                want.pop('debug_hex')
                if got.pop('debug_hex'):
                    rep.bad('debug_hex', fn_name(e), 'a non-debug trait is formatted with a debug-hex flag')
            for n in want:
                if want[n] == '?':
                    rep.bad(n, fn_name(e), 'the flag %s is not looked at when formatting with {%s}' % (n, desc(got)))
                elif n in ('width', 'precision'):
                    if (want[n] is None) != (got[n] is None):
                        rep.bad(n, fn_name(e), 'with flags {%s} in force the value is formatted with {%s}' % (desc(want), desc(got)))
                    elif want[n] is not None and not ip.same(st, got[n], ('mem', want[n])):
                        rep.bad(n, fn_name(e), '%s is %s instead of the requested one (flags {%s})' % (n, show(got[n]), desc(want)))
                elif want[n] != got[n]:
                    rep.bad(n, fn_name(e), 'with flags {%s} in force the value is formatted with {%s}' % (desc(want), desc(got)))
            if fl & 0x1fffff != 0x20:
                rep.bad('fill', fn_name(e), 'with flags {%s} in force the value is formatted with fill character %r' % (desc(want), chr(fl & 0x1fffff)))
            if arg[2] != ('new_debug' if dbg else 'new_display'):
                rep.bad('trait', fn_name(e), 'the value is formatted through %s' % arg[2])
            seen.add(tuple(sorted((k, show(v) if isinstance(v, tuple) else v) for k, v in want.items())))
            # what is formatted: the wrapped callable
            v, tid = arg[3]
            if not derives(ip, st, v, a0):
                rep.bad('value', fn_name(e), 'the value formatted is %s' % show(v))
            # where to: the formatter in force (through the proxy C01 decides)
            if not leads(ip, st, ev, 0, a1):
                rep.bad('stream', fn_name(e), 'the value is formatted into %s' % show(ev.args[0]))
            passes(rep, ip, st, val, ev, e, fn_name(e))
        each(rep, p, e, chk, mon=Snap(rep))
        rep.notes.append('%s: %d distinct flag combinations' % (path, len(seen)))
        rep.samples += [dict(x) for x in sorted(seen, key=repr)[:3]]
        need = 4 * 3 * 2 * 2 * 2 * 2 * (3 if dbg else 1)
        if len(seen) < need and not rep.viol and not rep.undecided:
            rep.bad('cases', fn_name(e), 'only %d of %d flag combinations are distinguished' % (len(seen), need))
    # what the value writes arrives at the formatter in force, in its style
    proxies(rep, p, fm)
    # the carriers call the wrapped function with the standard formatter they are given
    for tr in ('core::fmt::Display', 'core::fmt::Debug'):
        e = entry(p, selfp='stylish_core::arguments::StdFmt', trait=tr, name='fmt')

        def chk2(ip, st, val):
            ev = list(st.tr)
            if len(ev) != 1 or ev[0].name not in FNCALLS:
                rep.bad('once', fn_name(e), '%s performs %s' % (fn_name(e), [x.name for x in ev]))
                return
            if not derives(ip, st, ev[0].args[0], a0):
                rep.bad('value', fn_name(e), '%s calls %s' % (fn_name(e), show(ev[0].args[0])))
            if not ip.same(st, strip(fld(ev[0].args[1], 0, 0)), a1):
                rep.bad('flags', fn_name(e), '%s does not hand on the standard formatter it was given' % fn_name(e))
            passes(rep, ip, st, val, ev[0], e, fn_name(e))
        each(rep, p, e, chk2)


def pointee(ip, st, v, tid):
    """value behind a (possibly nested) reference to usize"""
    for _ in range(6):
        t = ip.T[tid] if tid is not None and tid >= 0 else None
        n = at(ip, st, v)
        if n is None:
            return v
        v = n
        if t is None or t['k'] != 'ref':
            return v
        tid = t['t']
    return v


def derives(ip, st, v, root):
    for _ in range(6):
        if any(x == root for x in walk(v)):
            return True
        n = at(ip, st, v)
        if n is None:
            return False
        v = n
    return False


# ------------------------------------------------------------------ C04
def c04(rep, P):
    """every function of the runtime crates that writes or formats: after a failed operation nothing else is attempted and the failure is returned; generated code through the specimen crate"""
    n = 0
    for crate in (CORE, 'stylish_ansi', 'stylish_html', 'stylish_plain', 'stylish'):
        p = P(crate)
        called = calls_of(p)
        for e in p.entries:
            if e['name'] == 'write_all' and e.get('provided') == SIOT:
                continue    # retries interrupted writes: C05
            if not e['pub'] and e['path'] in called:
                continue    # judged as part of the functions that call it
            if e.get('trait') in ('core::fmt::Debug',) and (self_path(p, e) or '').startswith('stylish') and not self_path(p, e).endswith('StdFmt'):
                continue
            n += failures(rep, p, e)
    if n < 10:
        raise Anchor('fallible functions of the runtime crates (found %d)' % n)
    if getattr(c04, 'env', None):
        from r_macros import report
        report(rep, P, 'C04', c04)


def calls_of(p):
    """paths of the functions that another function of the crate calls"""
    out = set()
    for k, f in p.fns.items():
        for b in f['bb']:
            t = b and b[1]
            if t and t[0] == 'call' and isinstance(t[1], dict) and t[1].get('p') and t[1]['p'] != f['path']:
                out.update((t[1]['p'], t[1].get('rp')))
    return out


def is_result(p, tid):
    return p.T[tid].get('path') == RES


def failures(rep, p, e):
    cnt = [0]
    isres = 'out' in e and is_result(p, e['out'])

    class F(Mon):
        """ghost 'st': UNIT before any failure, afterwards the name of the operation that failed"""
        def on_event(self, ip, st, ev):
            if not fallible(ip, ev):
                return
            cnt[0] += 1
            names[ev.name] = 1
            g = st.ghost['st']
            if g != UNIT:
                if is_output(ev):
                    rep.bad('continue', fn_name(e), '%s: %s is attempted although %s failed' % (fn_name(e), ev.name, g[1].decode()))
                return
            if ev.ret[0] == 'A' and ev.ret[2] == 0:
                return
            out = []
            for w in (True, False):
                for s2 in ip.split_assume(st.copy(), ('op', 'Eq', ('discr', ev.ret), I(0)), w):
                    if not w:
                        s2.ghost['st'] = TAG(ev.name)
                        s2.ghost['ret'] = ev.ret
                    out.append((s2, ev.ret))
            return out
    names = {}
    m = F(rep)
    ip, exits = explore(rep, p, e, mon=m, ghost={'st': UNIT, 'ret': UNIT})
    if not cnt[0]:
        return 0
    n = 0
    for status, val, st in exits:
        if status == 'unsupported':
            rep.undec(fn_name(e), val)
            continue
        g = st.ghost['st']
        what = '' if g == UNIT else g[1].decode()
        if status == 'panic':
            if isres:
                rep.bad('panic', fn_name(e), '%s can panic%s: %s' % (fn_name(e), ' after %s failed' % what if what else '', val))
            continue
        n += 1
        if g == UNIT:
            continue
        if not isres:
            rep.bad('swallow', fn_name(e), '%s returns normally although %s failed' % (fn_name(e), what))
            continue
        k, v = retval(ip, st, val)
        if k != 'err' and not ip.same(st, val, st.ghost['ret']):
            rep.bad('swallow', fn_name(e), '%s returns %s although %s failed' % (fn_name(e), k or show(v), what))
    rep.did(fn_name(e), n)
    return 1


def is_output(ev):
    return ev.name.startswith((FMTW, IOW, SW, SIOW)) or ev.name == DISP or ev.name in FNCALLS


# ------------------------------------------------------------------ C07
def c07(rep, P):
    """every forwarding impl: exactly one call of the same operation on the designated target with the same arguments, result returned"""
    p = P(CORE)
    fm = Fm(p)
    n = 0
    for e in p.entries:
        tr = e.get('trait')
        sp = self_path(p, e) or ''
        if tr in (SWT, SIOT) and sp.startswith('&') or tr == 'stylish_core::display::Display' and sp.startswith('&'):
            forward(rep, p, e, tr + '::' + e['name'])
            n += 1
    if n < 8:
        raise Anchor('forwarding impls for references (found %d)' % n)
    # a method left to its default would run the default on the reference, not the method of the target
    for im in p.impls:
        if im['trait'] in (SWT, SIOT, 'stylish_core::display::Display') and p.T[im['self']]['k'] == 'ref':
            for x in p.entries:
                if x.get('provided') == im['trait'] and x['ins'] and p.T[x['ins'][0]]['k'] == 'ref' and p.T[x['out']]['k'] != 'ref':
                    rep.did('%s for %s: %s' % (im['trait'], im['s'], x['name']))
                    if x['name'] not in im['items']:
                        rep.bad('default', '%s for %s::%s' % (im['trait'], im['s'], x['name']), 'through a reference %s is not forwarded, so an implementation of it is bypassed' % x['name'])
    # by_ref
    es = [x for x in entries(p, name='by_ref') if x.get('provided') == SIOT]
    if len(es) != 1:
        raise Anchor('io::Write::by_ref')

    def chk(ip, st, val):
        if st.tr or not ip.same(st, strip(val), a0):
            rep.bad('by_ref', fn_name(es[0]), 'by_ref returns %s' % show(val))
    each(rep, p, es[0], chk)
    # Arguments as a value
    e = entry(p, selfp=ARGS, trait='stylish_core::display::Display', name='fmt')

    def chk2(ip, st, val):
        ev = list(st.tr)
        if len(ev) != 1 or ev[0].name not in FNCALLS:
            rep.bad('args', fn_name(e), 'displaying arguments performs %s' % ([x.name for x in ev],))
            return
        f = ev[0].extra.get(1)
        me = ('mem', a1)
        if f is None or not (ip.same(st, fm.style(f), fm.style(me)) and ip.same(st, fm.flags(f), fm.flags(me)) and reaches(ip, st, fm.write(f), fm.write(me))):
            rep.bad('args', fn_name(e), 'displaying arguments runs them on another formatter')
        if not derives(ip, st, ev[0].args[0], a0):
            rep.bad('args', fn_name(e), 'displaying arguments runs %s' % show(ev[0].args[0]))
        passes(rep, ip, st, val, ev[0], e, fn_name(e))
    each(rep, p, e, chk2, mon=Snap(rep))
    # adaptors: new, Default, flush, aliases, conversions
    for crate, names in (('stylish_ansi', ('ansi::Ansi', 'io::Ansi')), ('stylish_html', ('html::Html',)), ('stylish_plain', ('plain::Plain', 'io::Plain'))):
        q = P(crate)
        for nm in names:
            path = adaptor_path(q, nm)
            constructors(rep, q, path)
            for e3 in entries(q, selfp=path, trait=SIOT, name='flush'):
                flush(rep, q, e3, path)
        conversions(rep, q)
    conversions(rep, p)
    u = P('stylish')
    for e4 in u.entries:
        if e4['name'] in ('ansi', 'html', 'plain') and len(e4['ins']) == 1 and u.T[e4['out']]['k'] == 'adt':
            constructor_post(rep, u, e4, u.T[e4['out']]['path'])
    if len([x for x in rep.obl if x[0].startswith('stylish::')]) < 4:
        raise Anchor('aliases stylish::{ansi,html,plain} and stylish::io::{ansi,plain}')


def adaptor_path(q, nm):
    """public adaptor type by its short name and kind (io / text), independent of private modules"""
    short = nm.split('::')[1]
    io = nm.startswith('io::')
    c = sorted({t['path'] for t in q.T if t['k'] == 'adt' and t.get('v') and t['path'].split('::')[0] == q.name and t['path'].split('::')[-1] == short})
    c = [x for x in c if entries(q, selfp=x, trait=SIOT if io else SWT)]
    if len(c) != 1:
        raise Anchor('%s: adaptor %s' % (q.name, nm))
    return c[0]


def forward(rep, p, e, opname):
    me = ('mem', a0)
    # <&mut W as Tr>::m(self: &mut &mut W, ...): target is *(*self)
    depth = 0
    t = p.T[e['self']]
    while t['k'] == 'ref':
        depth += 1
        t = p.T[t['t']]
    tgt = a0
    for _ in range(depth):
        tgt = ('mem', tgt)

    def chk(ip, st, val):
        ev = list(st.tr)
        if len(ev) != 1:
            rep.bad('once', fn_name(e), '%s performs %d operations (%s)' % (fn_name(e), len(ev), ', '.join(x.name for x in ev)))
            return
        ev = ev[0]
        if ev.name != opname:
            rep.bad('op', fn_name(e), '%s performs %s' % (fn_name(e), ev.name))
            return
        if not reaches(ip, st, ev.args[0], tgt):
            rep.bad('target', fn_name(e), '%s acts on %s' % (fn_name(e), show(ev.args[0])))
        for i in range(1, len(e['ins'])):
            if not ip.same(st, ev.args[i], ('sym', 'arg%d' % i)):
                rep.bad('arg', fn_name(e), '%s passes %s as argument %d' % (fn_name(e), show(ip.canon(st, ev.args[i])), i))
        passes(rep, ip, st, val, ev, e, fn_name(e))
    each(rep, p, e, chk)


def constructors(rep, q, path):
    news = entries(q, selfp=path, name='new')
    if len(news) != 1:
        raise Anchor('%s::new' % path)
    constructor_post(rep, q, news[0], path)
    for e in entries(q, selfp=path, trait='core::default::Default', name='default'):
        if len(e['ins']) == 0:
            styles_default(rep, q, e, path)


def is_param(t):
    return t['k'] == 'param'


def constructor_post(rep, q, e, path):
    S_ = Styles(q)
    t = q.T[e['out']]

    def chk(ip, st, val):
        v = ip.canon(st, val)
        holds = 0
        for i, f in enumerate(t['v'][0]['f']):
            x = fld(v, 0, i)
            if q.T[f[1]].get('path') == STYLE:
                if S_.eq(ip, st, x, S_.default) is not True:
                    rep.bad('style', fn_name(e), '%s starts in style %s' % (fn_name(e), S_.describe(ip, st, x)))
            if ip.same(st, x, a0):
                holds += 1
        if holds != 1:
            rep.bad('stream', fn_name(e), '%s does not hold the stream it was given (%s)' % (fn_name(e), show(v)))
        if st.tr:
            rep.bad('effects', fn_name(e), '%s performs %s' % (fn_name(e), [x.name for x in st.tr]))
    each(rep, q, e, chk)


def styles_default(rep, q, e, path):
    S_ = Styles(q)
    t = q.T[e['out']]

    def chk(ip, st, val):
        v = ip.canon(st, val)
        for i, f in enumerate(t['v'][0]['f']):
            if q.T[f[1]].get('path') == STYLE and S_.eq(ip, st, fld(v, 0, i), S_.default) is not True:
                rep.bad('style', fn_name(e), '%s starts in style %s' % (fn_name(e), show(fld(v, 0, i))))
    each(rep, q, e, chk)


def flush(rep, q, e, path):
    inner = fidx(q, path, lambda t, i: is_param(t))

    def chk(ip, st, val):
        ev = list(st.tr)
        if not ev or ev[-1].name != IOW + 'flush' or len([x for x in ev if x.name == IOW + 'flush']) != 1 or len(ev) != 1:
            rep.bad('flush', fn_name(e), 'flush performs %s' % ([x.name for x in ev],))
            return
        if not any(loc_of(ev[0].args[0]) == field_ptr(a0, i) for i in inner):
            rep.bad('flush', fn_name(e), 'flush flushes %s' % show(ev[0].args[0]))
        passes(rep, ip, st, val, ev[0], e, fn_name(e))
    each(rep, q, e, chk)


def conversions(rep, q):
    """To*String: exactly one formatting of the value itself, from the default style, no flags, into what is returned"""
    fm = Fm(q)
    S_ = Styles(q)
    es = [e for e in q.entries if e['name'].startswith('to_') and e['name'].endswith('_string') and e.get('trait', '').startswith('stylish')]
    if not es:
        raise Anchor('%s: conversion to a string' % q.name)
    for e in es:
        def chk(ip, st, val):
            ev = [x for x in st.tr if x.name == DISP]
            if len(ev) != 1:
                rep.bad('once', fn_name(e), '%s formats the value %d times' % (fn_name(e), len(ev)))
                return
            if not derives_exact(ip, st, ev[0].args[0], a0):
                rep.bad('value', fn_name(e), '%s formats %s' % (fn_name(e), show(ev[0].args[0])))
            fresh_format(rep, q, fm, ip, st, ev[0], e, None, S_, fn_name(e))
        each(rep, q, e, chk, mon=Snap(rep), panic_ok=True)


def derives_exact(ip, st, v, root):
    return reaches(ip, st, v, root)


def c09(rep, P):
    """every Clone of a struct of the runtime crates: each field of the copy is that field or the clone of that field; styles, text and boundaries of one with the wrapped stream of another cannot be told apart from a faithful copy otherwise"""
    CL = 'core::clone::Clone'
    n = 0
    for crate in ('stylish_style', CORE, 'stylish_ansi', 'stylish_html', 'stylish_plain'):
        q = P(crate)
        for e in q.entries:
            sp = self_path(q, e)
            if e.get('trait') != CL or e['name'] not in ('clone', 'clone_from') or q.T[e['self']]['k'] != 'adt':
                continue
            n += 1
            src = a0 if e['name'] == 'clone' else a1
            me = ('mem', src)
            t = q.T[e['self']]

            def chk(ip, st, val):
                for x in st.tr:
                    if x.name not in (CL + '::clone', CL + '::clone_from'):
                        rep.bad('effects', fn_name(e), 'cloning a %s performs %s' % (sp, x.name))
                v = ip.canon(st, val if e['name'] == 'clone' else at(ip, st, a0))
                if ip.same(st, v, me):
                    return
                if t['ak'] != 'struct':
                    d, w = discr_of(st, v), discr_of(st, me)
                    if d is None or w is None:
                        rep.undec(fn_name(e), 'copy of an enum: %s' % show(v))
                    elif d != w:
                        rep.bad('variant', fn_name(e), 'the copy of a %s is another variant' % sp)
                    return
                for i, f in enumerate(t['v'][0]['f']):
                    x, want = fld(v, 0, i), fld(me, 0, i)
                    if ip.same(st, x, want) or any(c.name == CL + '::clone' and ip.same(st, c.ret, x) and (loc_of(c.args[0]) == field_ptr(src, i) or reaches(ip, st, c.args[0], want)) for c in st.tr):
                        continue
                    rep.bad('field', fn_name(e), 'the copy of a %s has another %s: %s' % (sp, f[0], show(ip.canon(st, x))))
            if sp == STRING:
                r = type(rep)(rep.prop)
                each(r, q, e, chk)
                plain = not (r.viol or r.maybe or r.undecided)
                n0 = len(rep.viol)
                copies(rep, q, e, 1 if plain else 2)
                if not plain and len(rep.viol) == n0:
                    # kept or copied in another way, and what is then displayed is right as far as this goes
                    for k, m in list(r.viol.items()) + [(k, m) for k, (w, m) in r.maybe.items()]:
                        r.undec(k, m + ' (copies are displayed alike for strings of up to two writes)')
                    r.viol, r.maybe = {}, {}
                else:
                    r.viol, r.maybe, r.undecided = {}, {}, {}
                rep.merge(r)
                continue
            each(rep, q, e, chk)
    if n < 8:
        raise Anchor('Clone of the types of the runtime crates (found %d)' % n)


RULES = {'C09': c09, 'C01': c01, 'C02': c02, 'C03': c03, 'C04': c04, 'C05': c05, 'C06': c06, 'C07': c07, 'C08': c08}
