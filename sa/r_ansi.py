"""A01-A04: ANSI writers, against the state of a terminal interpreting the escapes."""
from writers import *

ESC = 0x1b


class AnsiMon(OutMon):
    """ghost: 'esc' bytes of an incomplete escape sequence; 'fg','bg' colours of the terminal;
    'b','f' its bold and faint attributes (I(0), I(1), or 'intensity t is number k'); 'txt' texts sent"""

    def __init__(self, rep, e, ad, S_, text):
        super().__init__(rep, e, ad)
        self.S_, self.text = S_, text
        self.names = {}
        for i, n in enumerate(('Black', 'Red', 'Green', 'Yellow', 'Blue', 'Magenta', 'Cyan', 'White')):
            self.names[30 + i] = n
            self.names[90 + i] = 'Bright' + n
        self.names[39] = 'Default'

    # -- the terminal
    def sgr(self, ip, st, params):
        S_ = self.S_
        for c in params:
            if c == 0:
                st.ghost.update(fg=S_.color('Default'), bg=S_.color('Default'), b=I(0), f=I(0))
            elif c == 1:
                st.ghost['b'] = I(1)
            elif c == 2:
                st.ghost['f'] = I(1)
            elif c == 22:
                st.ghost['b'] = st.ghost['f'] = I(0)
            elif c in self.names:
                st.ghost['fg'] = S_.color(self.names[c])
            elif c - 10 in self.names:
                st.ghost['bg'] = S_.color(self.names[c - 10])
            else:
                self.bad('A01', 'code', '%s sends the escape code %d, which denotes no style' % (fn_name(self.e), c))

    def const(self, ip, st, data):
        buf = st.ghost['esc'][1]
        for x in data:
            if not buf:
                if x != ESC:
                    self.bad('A03', 'extra', '%s sends %r, which is neither text nor an escape sequence' % (fn_name(self.e), bytes(data)))
                    return
                buf = bytes([x])
            elif len(buf) == 1:
                if x != ord('['):
                    self.bad('A03', 'escape', '%s sends an escape sequence starting %r' % (fn_name(self.e), buf + bytes([x])))
                    buf = b''
                    return
                buf += bytes([x])
            elif x == ord('m'):
                p = buf[2:].split(b';')
                if not all(y.isdigit() or not y for y in p):
                    self.bad('A03', 'escape', '%s sends the malformed escape sequence %r' % (fn_name(self.e), buf + b'm'))
                else:
                    self.sgr(ip, st, [int(y or 0) for y in p])
                buf = b''
            elif x in b'0123456789;':
                buf += bytes([x])
            else:
                self.bad('A03', 'escape', '%s sends the escape sequence %r' % (fn_name(self.e), buf + bytes([x])))
                buf = b''
        st.ghost['esc'] = ('S', buf, '')

    def isint(self, ip, st, g, k):
        """three-valued: attribute flag g"""
        if g[0] == 'i':
            return bool(g[1])
        if g[0] != 'op' or g[1] != 'isint':
            return None
        d = ip.discr(st, ip.canon(st, g[2]), self.S_.itid)
        v = self.S_.p.T[self.S_.itid]['v'][g[3][1]]['d']
        return ip.decide(st, ip.binop(st, 'Eq', d, I(v), self.S_.itid))

    def shows(self, ip, st, style):
        """does the terminal show style?  list of attributes on which it does (or may) not"""
        S_ = self.S_
        fg, bg, it = S_.parts(ip.canon(st, style))
        out = []
        for n, g, x in (('foreground', st.ghost['fg'], fg), ('background', st.ghost['bg'], bg)):
            if S_.eq1(ip, st, g, x, S_.ctid) is not True:
                out.append('%s is %s' % (n, S_.name(st, ip, g) or 'that of an earlier style'))
        it = ip.canon(st, it)
        if it[0] == 'A':
            for n, k in (('b', 'Bold'), ('f', 'Faint')):
                r = self.isint(ip, st, st.ghost[n], k)
                if r is not (S_.ints[it[2]] == k):
                    out.append('%s is %s' % (k.lower(), 'on' if r else 'possibly on' if r is None else 'off'))
        else:
            for n, k in (('b', 'Bold'), ('f', 'Faint')):
                g = st.ghost[n]
                if g[:2] == ('op', 'isint') and ip.same(st, g[2], it):
                    continue
                want = self.isint(ip, st, ('op', 'isint', it, I(S_.ints.index(k))), k)
                r = self.isint(ip, st, g, k)
                if r is None or want is None or r != want:
                    out.append('%s may be wrong' % k.lower())
        return out

    # -- outputs
    def feed(self, ip, st, ev, pcs):
        e = fn_name(self.e)
        if pcs is None:
            self.rep.undec(e, 'output of %s' % ev.name)
            return
        m = ev.name.rsplit('::', 1)[1]
        for x in pcs:
            if x[0] == 'const':
                if not x[1]:
                    continue
                if m == 'write' and self.ad.io:
                    self.bad('A04', 'short', '%s sends an escape sequence with a write that may stop short' % e)
                    if self.text is None:
                        self.bad('A02', 'short', '%s sends the reset with a write that may stop short' % e)
                if st.ghost['txt'] != I(0):
                    self.bad('A03', 'after', '%s sends %r after the text' % (e, x[1]))
                if st.ghost['req'] != UNIT and st.ghost['old'] != UNIT:
                    if self.S_.eq(ip, st, st.ghost['old'], st.ghost['req']) is not False:
                        self.bad('A03', 'unchanged', '%s sends %r although the style may not have changed' % (e, x[1]))
                self.empty(ip, st)
                self.const(ip, st, x[1])
            elif x[0] == 'text' and self.text is not None and ip.same(st, x[1], self.text):
                if st.ghost['txt'] != I(0):
                    self.bad('A03', 'once', '%s sends the text more than once' % e)
                st.ghost['txt'] = I(1)
                self.empty(ip, st)
                if st.ghost['esc'][1]:
                    self.bad('A03', 'escape', '%s sends the text inside the escape sequence %r' % (e, st.ghost['esc'][1]))
                w = self.shows(ip, st, st.ghost['req'])
                if w:
                    self.bad('A01', 'shown', '%s: going from style %s to %s the text is shown wrong: %s' % (e, self.S_.describe(ip, st, st.ghost['old']), self.S_.describe(ip, st, st.ghost['req']), ', '.join(w)))
                if self.ad.io and m != self.e['name']:
                    self.bad('A03', 'method', '%s sends the text with %s' % (e, m))
            elif x[0] == 'text' and self.text is not None and any(y == self.text for y in walk(x[1])):
                self.bad('A03', 'text', '%s sends %s instead of the text' % (e, show(x[1])))
            elif x[0] == 'esc':
                self.bad('A03', 'text', '%s sends escaped text' % e)
            else:
                if any(y == self.text for y in walk(x)):
                    self.bad('A03', 'text', '%s sends %s instead of the text' % (e, show(x[1])))
                else:
                    self.rep.undec(e, 'sends %s' % show(x[1]) if is_term(x[1]) or x[1][0] == 'A' else 'sends an unknown value')

    def empty(self, ip, st):
        if self.text is not None and not self.ad.io and self.e['name'] != 'write_char':
            if is_zero(ip, st, slen(self.text)) is not False:
                self.bad('A03', 'empty', '%s sends something for text that may be empty' % fn_name(self.e))

    def after_failure(self, ip, st, ev):
        self.bad('A04', 'continue', '%s: %s although sending part of the output failed' % (fn_name(self.e), ev.name))


def init_ghost(S_, old, req, concrete=None):
    fg, bg, it = S_.parts(old)
    flag = lambda k: ('op', 'isint', it, I(S_.ints.index(k)))
    if concrete is not None:
        flag = lambda k: I(int(S_.ints[it[2]] == k))
    return dict(esc=('S', b'', ''), fg=fg, bg=bg, b=flag('Bold'), f=flag('Faint'), txt=I(0), bad=UNIT, ret=UNIT, failed=UNIT, old=old, req=req)


def each_ansi(P, fn):
    q = P('stylish_ansi')
    S_ = Styles(q)
    n = 0
    for io in (False, True):
        fn(q, S_, Adaptor(q, 'Ansi', io))
        n += 1
    return n


def ansi_writes(rep, P):
    def go(q, S_, ad):
        old = ad.current(ad.me) if ad.cur is not None else None

        def inductive(r):
            for e, text in ad.writes():
                ansi_write(r, q, S_, ad, e, text, [(a0, a1, s) for s in styles_of(S_)], lambda a: dict(init_ghost(S_, old, a[2])))
                floor(r, fn_name(e), 867)
            for e in q.entries:
                if e['pub'] and self_path(q, e) == ad.path and e['ins'] and q.T[e['ins'][0]]['k'] == 'ref' and (e['name'] == 'flush' or e.get('trait') is None) and e['name'] not in ('write_fmt', 'by_ref'):
                    ansi_other(r, q, S_, ad, e)
        either(rep, ad, inductive, lambda r: ansi_reach(r, q, S_, ad).closed)
    if each_ansi(P, go) < 2:
        raise Anchor('both ANSI writers')


def ansi_other(rep, q, S_, ad, e):
    """a method that writes no text: what is believed afterwards is what the terminal has"""
    mon = AnsiMon(rep, e, ad, S_, None)
    name = fn_name(e)

    def check(ip, st, val, status):
        if status == 'panic':
            return
        now = at(ip, st, a0)
        if st.ghost['bad'] != UNIT:
            if st.ghost['bad'] == TAG('const') and S_.eq(ip, st, ad.current(now), st.ghost['old']) is not True:
                mon.bad('A04', 'believed', '%s: a style change that failed is taken for sent' % name)
            return
        if st.ghost['esc'][1]:
            mon.bad('A03', 'escape', '%s ends inside the escape sequence %r' % (name, st.ghost['esc'][1]))
        w = mon.shows(ip, st, ad.current(now))
        if w:
            mon.bad('A01', 'tracked', '%s: from style %s, the style is then regarded as %s but %s' % (name, S_.describe(ip, st, st.ghost['old']), S_.describe(ip, st, ad.current(now)), ', '.join(w)))
    run_all(rep, q, e, mon, [tuple(params(q, e))], lambda a: init_ghost(S_, ad.current(ad.me), UNIT), check)


def carried(g):
    return {k: g[k] for k in ('fg', 'bg', 'b', 'f', 'old')}


def ansi_reach(rep, q, S_, ad):
    """states of an ANSI writer, with the terminal's"""
    R = Reach(ad, S_)
    R.start(rep, q, carried(init_ghost(S_, S_.default, UNIT, S_)))

    def step(r, e, text, sets):
        ansi_write(r, q, S_, ad, e, text, sets, lambda a: dict(init_ghost(S_, S_.default, a[2], S_), **dict(a[4])), R)
    R.search(rep, ad.writes(), step)
    return R


def ansi_write(rep, q, S_, ad, e, text, sets, ghost, reach=None):
    mon = AnsiMon(rep, e, ad, S_, text)
    name = fn_name(e)

    def check(ip, st, val, status):
        bad = lambda p, c, m: mon.bad(p, c, m)
        g = st.ghost
        old = g['old']
        what = lambda: 'going from style %s to %s' % (S_.describe(ip, st, old), S_.describe(ip, st, g['req']))
        if status == 'panic':
            bad('A01', 'panic', '%s can panic: %s' % (name, val))
            return
        now = at(ip, st, a0)
        k, v = retval(ip, st, val)
        if g['bad'] != UNIT:
            kind = g['bad'][1].decode()
            if k != 'err' and not ip.same(st, val, g['ret']):
                bad('A04' if kind != 'text' else 'A03', 'failure', '%s returns %s although sending %s failed' % (name, k or show(v), 'the text' if kind == 'text' else 'an escape'))
            if kind in ('const', 'mixed'):
                if reach is not None:
                    if g['esc'] == S(b''):
                        reach.note(rep.found, ip.canon(st, now), carried(g))
                elif S_.eq(ip, st, ad.current(now), old) is not True:
                    bad('A04', 'believed', '%s: %s, a style change that failed is taken for sent: the style is regarded as %s' % (name, what(), S_.describe(ip, st, ad.current(now))))
            elif kind == 'text':
                if reach is not None:
                    reach.note(rep.found, ip.canon(st, now), dict(carried(g), old=g['req']))
                else:
                    w = mon.shows(ip, st, ad.current(now))
                    if w:
                        bad('A01', 'failedtext', '%s: %s and failing to send the text, the style is regarded as %s but %s' % (name, what(), S_.describe(ip, st, ad.current(now)), ', '.join(w)))
                if ad.io and not ip.same(st, val, g['ret']) and not (k == 'err' and ip.same(st, v, ('fld', g['ret'], 1, 0))):
                    bad('A03', 'result', '%s returns %s instead of the error of the stream' % (name, show(v)))
            return
        if k == 'err':
            bad('A03', 'spurious', '%s fails although the stream accepted everything' % name)
            return
        if g['esc'][1]:
            bad('A03', 'escape', '%s ends inside the escape sequence %r' % (name, g['esc'][1]))
        if g['txt'] == I(0):
            if ip.decide(st, ip.binop(st, 'Eq', slen(text), I(0), 0)) is not True:
                bad('A03', 'once', '%s: %s, the text is not sent' % (name, what()))
        elif ad.io and e['name'] == 'write':
            if not ip.same(st, val, g['ret2']) and not (k == 'ok' and ip.same(st, v, ('fld', g['ret2'], 0, 0))):
                bad('A03', 'result', '%s returns %s instead of the number of bytes the stream accepted' % (name, show(v)))
        if reach is not None:
            reach.note(rep.found, ip.canon(st, now), dict(carried(g), old=g['old'] if g['txt'] == I(0) else g['req']))
            return
        w = mon.shows(ip, st, ad.current(now))
        if w:
            bad('A01', 'tracked', '%s: %s, the style is then regarded as %s but %s' % (name, what(), S_.describe(ip, st, ad.current(now)), ', '.join(w)))
    feed0 = mon.feed

    def feed(ip, st, ev, pcs):
        if st.ghost['txt'] == I(0):
            r = feed0(ip, st, ev, pcs)
            if st.ghost['txt'] != I(0):
                st.ghost['ret2'] = ev.ret
            return r
        return feed0(ip, st, ev, pcs)
    mon.feed = feed
    run_all(rep, q, e, mon, sets, lambda a: dict(ghost(a), ret2=UNIT), check, (lambda a: a[3]) if reach is not None else None)


def floor(rep, name, n):
    got = sum(k for w, k, _ in rep.obl if w == name)
    if got < n and not rep.undecided:
        rep.bad('cases', name, 'only %d cases of at least %d were reached' % (got, n))


def ansi_finish(rep, P):
    def go(q, S_, ad):
        def inductive(r):
            for e in finishers(q, ad):
                ansi_finisher(r, q, S_, ad, e, [(a0,)], lambda a: init_ghost(S_, ad.current(a0), UNIT))

        def histories(r):
            R = ansi_reach(Report(None), q, S_, ad)
            for e in finishers(q, ad):
                ansi_finisher(r, q, S_, ad, e, [(s, g) for s, g in R.order()], lambda a: dict(init_ghost(S_, S_.default, UNIT, S_), **dict(a[1])))
            return R.closed
        either(rep, ad, inductive, histories)
    if each_ansi(P, go) < 2:
        raise Anchor('both ANSI writers')
    q = P('stylish_ansi')
    S_, ad = Styles(q), Adaptor(q, 'Ansi', False)
    either(rep, ad, lambda r: render(r, P, 'stylish_ansi', 'Ansi', ansi_tail), lambda r: render_reach(r, P, 'stylish_ansi', 'Ansi', ansi_tail, ansi_reach(Report(None), q, S_, ad)))


def ansi_finisher(rep, q, S_, ad, e, sets, ghost):
    mon = AnsiMon(rep, e, ad, S_, None)
    name = fn_name(e)

    def check(ip, st, val, status):
        g = st.ghost
        old = g['old']
        if status == 'panic':
            rep.bad('panic', name, '%s can panic: %s' % (name, val))
            return
        inner = fld(g['self'], 0, ad.inner)
        k, v = retval(ip, st, val)
        if k is None and ip.same(st, val, inner):
            k, v = 'ok', val
        dflt = S_.eq(ip, st, old, S_.default)
        if g['bad'] != UNIT:
            if k != 'err' and not ip.same(st, val, g['ret']):
                rep.bad('failure', name, '%s returns %s although the reset could not be sent' % (name, k or show(v)))
            elif k == 'err' and ad.io and not ip.same(st, v, ('fld', g['ret'], 1, 0)):
                rep.bad('error', name, '%s returns the error %s instead of that of the stream' % (name, show(v)))
            return
        if k != 'ok':
            rep.bad('spurious', name, '%s fails although nothing went wrong' % name)
            return
        if not ip.same(st, v, inner):
            rep.bad('stream', name, '%s returns %s instead of the wrapped stream' % (name, show(v)))
        if g['esc'][1]:
            rep.bad('escape', name, '%s ends inside the escape sequence %r' % (name, g['esc'][1]))
        w = mon.shows(ip, st, S_.default)
        if w:
            rep.bad('reset', name, '%s in style %s leaves the terminal with: %s' % (name, S_.describe(ip, st, old), ', '.join(w)))
        if g['n'] != I(0) and dflt is not False:
            rep.bad('needless', name, '%s sends a reset although the last style may be the default' % name)
    feed0 = mon.feed

    def feed(ip, st, ev, pcs):
        st.ghost['n'] = I(1)
        return feed0(ip, st, ev, pcs)
    mon.feed = feed
    run_all(rep, q, e, mon, sets, lambda a: dict(ghost(a), n=I(0), self=a[0]), check)


def ansi_tail(rep, ip, st, e, S_, ad, cur, tail, ghost=None):
    m = AnsiMon(rep, e, ad, S_, None)
    st.ghost.update(init_ghost(S_, cur, UNIT) if ghost is None else dict(init_ghost(S_, S_.default, UNIT, S_), **ghost))
    cur = st.ghost['old']
    for x in tail:
        if x[0] != 'S':
            rep.bad('tail', fn_name(e), '%s appends %s' % (fn_name(e), show(x)))
            return
        m.const(ip, st, x[1])
    w = m.shows(ip, st, S_.default)
    if w or st.ghost['esc'][1]:
        rep.bad('finish', fn_name(e), '%s, last writing in style %s, leaves the terminal with: %s' % (fn_name(e), S_.describe(ip, st, cur), ', '.join(w)))


def render_reach(rep, P, crate, short, tailcheck, reach):
    render(rep, P, crate, short, tailcheck, reach)
    return reach.closed


def render(rep, P, crate, short, tailcheck, reach=None):
    """format(args) and the conversion trait: everything the arguments wrote, then what finishing adds"""
    q = P(crate)
    S_ = Styles(q)
    fm = Fm(q)
    ad = Adaptor(q, short, False)
    es = [e for e in q.entries if e.get('self') is None and e['name'] == 'format' and e['pub'] and q.T[e['out']].get('path') == ALSTR]
    if not es:
        raise Anchor('%s::format' % crate)
    es += [e for e in q.entries if e['name'].startswith('to_') and e['name'].endswith('_string') and e.get('trait', '').startswith('stylish')]
    for e in es:
        mon = RenderMon(rep, ad, fm, reach)

        def check(ip, st, val, status):
            g = st.ghost
            failed = g['ret'] != UNIT and discr_of(st, g['ret']) == 1
            if status == 'panic':
                if not failed:
                    rep.bad('panic', fn_name(e), '%s can panic although formatting succeeded: %s' % (fn_name(e), val))
                return
            if g['n'] != I(1):
                rep.bad('once', fn_name(e), '%s runs its arguments %s times' % (fn_name(e), show(g['n'])))
                return
            a = g['ad']
            if a == UNIT:
                rep.bad('writer', fn_name(e), '%s does not render through %s' % (fn_name(e), ad.path))
                return
            inner = g['text']
            p = string_parts(ip, st, val)
            if not p or not ip.same(st, strof(p[0]) if p[0][0] != 'op' else p[0], strof(inner)) and not ip.same(st, p[0], inner) and not ip.same(st, p[0], strof(inner)):
                rep.bad('result', fn_name(e), '%s returns %s, not what was rendered' % (fn_name(e), show(ip.canon(st, val))))
                return
            if reach is None:
                tailcheck(rep, ip, st, e, S_, ad, fld(a, 0, ad.cur) if ad.cur is not None else None, p[1:])
            else:
                tailcheck(rep, ip, st, e, S_, ad, None, p[1:], dict(reach.order()[g['reach'][1]][1]))
        run_all(rep, q, e, mon, [tuple(params(q, e))], lambda a: dict(n=I(0), ad=UNIT, ret=UNIT, text=UNIT), check)


def a01(rep, P):
    """both ANSI writers, every requested style (867) from a symbolic previous one; terminal state followed through the constant bytes sent"""
    ansi_writes(rep, P)


def a03(rep, P):
    """calls on the wrapped stream on every path of the ANSI writers: the given text, once, after its escapes; result passed on"""
    ansi_writes(rep, P)


def a04(rep, P):
    """every failing output of the ANSI writers: nothing more is sent and the tracked style is still the previous one"""
    ansi_writes(rep, P)


def a02(rep, P):
    """finish of both ANSI writers from a symbolic style; format and to_ansi_string through it"""
    ansi_finish(rep, P)


RULES = {'A01': a01, 'A02': a02, 'A03': a03, 'A04': a04}
