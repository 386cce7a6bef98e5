"""H01-H03: the HTML writer, against the markup it has open."""
from writers import *
import re

HTML = 'askama_escape::Html'
CSS = dict(black=0x000000, red=0xff0000, green=0x008000, yellow=0xffff00, blue=0x0000ff, magenta=0xff00ff, fuchsia=0xff00ff, cyan=0x00ffff, aqua=0x00ffff,
           white=0xffffff, gray=0x808080, grey=0x808080, lime=0x00ff00, maroon=0x800000, navy=0x000080, teal=0x008080, olive=0x808000, purple=0x800080, silver=0xc0c0c0,
           darkgray=0xa9a9a9, darkgrey=0xa9a9a9, dimgray=0x696969, dimgrey=0x696969, lightgray=0xd3d3d3, lightgrey=0xd3d3d3,
           darkred=0x8b0000, crimson=0xdc143c, firebrick=0xb22222, darkgreen=0x006400, darkblue=0x00008b, mediumblue=0x0000cd, gold=0xffd700,
           darkmagenta=0x8b008b, darkcyan=0x008b8b, orangered=0xff4500, tomato=0xff6347, royalblue=0x4169e1, lightblue=0xadd8e6, lightgreen=0x90ee90,
           lightcyan=0xe0ffff, lightyellow=0xffffe0, pink=0xffc0cb, violet=0xee82ee, orchid=0xda70d6, turquoise=0x40e0d0, salmon=0xfa8072, coral=0xff7f50,
           dodgerblue=0x1e90ff, deepskyblue=0x00bfff, limegreen=0x32cd32, springgreen=0x00ff7f, lawngreen=0x7cfc00, khaki=0xf0e68c, snow=0xfffafa)
HUES = dict(Red='r', Green='g', Blue='b', Yellow='rg', Magenta='rb', Cyan='gb')


def rgb(v):
    v = v.strip().lower()
    if v in CSS:
        return CSS[v]
    m = re.fullmatch('#([0-9a-f]{6})', v)
    if m:
        return int(m[1], 16)
    m = re.fullmatch('#([0-9a-f])([0-9a-f])([0-9a-f])', v)
    if m:
        return int(''.join(x + x for x in m.groups()), 16)
    return None


def hue(c):
    ch = dict(r=c >> 16, g=c >> 8 & 255, b=c & 255)
    hi, lo = max(ch.values()), min(ch.values())
    if hi - lo < 16:
        return 'grey'
    return ''.join(k for k in 'rgb' if ch[k] > (hi + lo) / 2)


class HtmlMon(OutMon):
    """ghost: 'buf' bytes of an incomplete tag, 'span': UNIT = as before (a span iff the previous
    style is not the default one), TAG('closed'), or ('A','span',0,(declarations...)); 'txt' texts"""

    def __init__(self, rep, e, S_, ad, text):
        super().__init__(rep, e, ad)
        self.S_, self.text = S_, text
        self.decls = set()

    def after_failure(self, ip, st, ev):
        pass

    def was_open(self, ip, st):
        """three-valued: is a span open in the state the writer started in"""
        r = self.S_.eq(ip, st, st.ghost['old'], self.S_.default)
        return None if r is None else not r

    def const(self, ip, st, data):
        e = fn_name(self.e)
        buf = st.ghost['buf'][1] + data
        while buf:
            if buf[:1] != b'<':
                self.bad('H01', 'extra', '%s outputs %r, which is neither escaped text nor markup of the writer' % (e, buf))
                self.bad('H02', 'markup', '%s outputs %r outside a tag' % (e, buf))
                buf = b''
                break
            m = re.match(rb'<(/?[^<>"\']*("[^"]*"|\'[^\']*\')?[^<>"\']*)>', buf)
            if not m:
                if b'>' in re.sub(rb'"[^"]*"?|\'[^\']*\'?', b'', buf) or b'<' in buf[1:]:
                    self.bad('H02', 'markup', '%s outputs the malformed tag %r' % (e, buf))
                    buf = b''
                break
            self.tag(ip, st, m[1])
            buf = buf[m.end():]
        st.ghost['buf'] = ('S', buf, '')

    def tag(self, ip, st, t):
        e = fn_name(self.e)
        sp = st.ghost['span']
        if re.fullmatch(rb'/span\s*', t):
            if sp == TAG('closed') or sp == UNIT and self.was_open(ip, st) is not True:
                self.bad('H02', 'close', '%s closes a span although none %s open' % (e, 'is' if sp != UNIT or self.was_open(ip, st) is False else 'may be'))
            st.ghost['span'] = TAG('closed')
            return
        m = re.fullmatch(rb'span\s+style\s*=\s*(.*?)\s*', t, re.S)
        if not m:
            self.bad('H02', 'markup', '%s outputs the tag <%s>' % (e, t.decode('latin1')))
            return
        if sp[0] == 'A' and sp != UNIT or sp == UNIT and self.was_open(ip, st) is not False:
            self.bad('H02', 'nested', '%s opens a span although one %s open' % (e, 'is' if sp != UNIT or self.was_open(ip, st) else 'may be'))
        v = m[1]
        if v[:1] in b'"\'' and v[:1]:
            if v[-1:] != v[:1] or len(v) < 2:
                self.bad('H03', 'css', '%s outputs the attribute style=%s' % (e, v.decode('latin1')))
            v = v[1:-1]
        elif re.search(rb'[\s"\'=<>`]', v) or not v:
            self.bad('H03', 'quote', '%s outputs the unquoted attribute style=%s' % (e, v.decode('latin1')))
        ds = []
        for d in v.decode('latin1').split(';'):
            if not d.strip():
                continue
            k, c, x = d.partition(':')
            k, x = k.strip().lower(), x.strip()
            if not c or not x or k not in ('color', 'background-color', 'background', 'font-weight'):
                self.bad('H03', 'css', '%s outputs the declaration %r, which states no attribute of a style' % (e, d))
                continue
            k = {'background': 'background-color'}.get(k, k)
            if k in [y for y, _ in ds]:
                self.bad('H03', 'twice', '%s states %s twice' % (e, k))
            ds.append((k, x))
        st.ghost['span'] = ('A', 'span', 0, tuple(S(('%s:%s' % d).encode()) for d in ds))

    def says(self, ip, st, style):
        """problems with the enclosing markup for text of a (concrete) style: [(property, message)]"""
        S_ = self.S_
        sp = st.ghost['span']
        if sp == UNIT:
            r = S_.eq(ip, st, st.ghost['old'], style)
            if r is True:
                return []
            if r is None and S_.eq(ip, st, style, S_.default) is True:
                return [('H02', 'text of the default style may be inside a span')]
            return [('H02' if S_.eq(ip, st, style, S_.default) is True else 'H03', 'the enclosing markup %s still that of another style' % ('is' if r is False else 'may be'))]
        if S_.eq(ip, st, style, S_.default) is True:
            return [] if sp == TAG('closed') else [('H02', 'text of the default style is inside a span')]
        if sp == TAG('closed'):
            return [('H02', 'text of a style other than the default is outside any span')]
        got = dict(x[1].decode().split(':', 1) for x in sp[3])
        out = []
        names = [S_.name(st, ip, x) for x in S_.parts(style)]
        for k, n, dflt in (('color', names[0], 'Default'), ('background-color', names[1], 'Default'), ('font-weight', names[2], 'Normal')):
            x = got.get(k)
            if n == dflt:
                if x is not None:
                    out.append(('H03', '%s:%s is stated although it is %s' % (k, x, n)))
                continue
            if x is None:
                out.append(('H03', '%s is not stated although it is %s' % (k, n)))
                continue
            w = fits(n, x)
            if w:
                out.append(('H03', '%s:%s is stated for %s, %s' % (k, x, n, w)))
            self.decls.add((k, n, x))
        return out

    def feed(self, ip, st, ev, pcs):
        e = fn_name(self.e)
        if pcs is None:
            self.rep.undec(e, 'output of %s' % ev.name)
            return
        desc = lambda: 'after style %s, writing style %s' % (self.S_.describe(ip, st, st.ghost['old']), self.S_.describe(ip, st, st.ghost['req']))
        for x in pcs:
            if x[0] == 'const':
                if x[1]:
                    self.empty(ip, st)
                    if st.ghost['txt'] != I(0):
                        self.bad('H01', 'order', '%s outputs %r after the text' % (e, x[1]))
                    self.const(ip, st, x[1])
            elif x[0] == 'esc' and self.text is not None and ip.same(st, x[1], self.text):
                if x[2] != HTML:
                    self.bad('H01', 'escape', '%s escapes the text with %s' % (e, x[2]))
                if st.ghost['txt'] != I(0):
                    self.bad('H01', 'once', '%s outputs the text more than once' % e)
                st.ghost['txt'] = I(1)
                self.empty(ip, st)
                if st.ghost['buf'][1]:
                    self.bad('H02', 'markup', '%s outputs the text inside the tag %r' % (e, st.ghost['buf'][1]))
                for p, w in self.says(ip, st, st.ghost['req']):
                    self.bad(p, 'text', '%s: %s: %s' % (e, desc(), w))
            elif any(y == self.text for y in walk(x)) and self.text is not None:
                if x[0] == 'esc':
                    self.bad('H01', 'text', '%s outputs %s instead of the text' % (e, show(x[1])))
                else:
                    self.bad('H01', 'unescaped', '%s outputs %s without escaping it' % (e, show(x[1])))
            else:
                self.rep.undec(e, 'outputs %s' % show(x[1]))

    def empty(self, ip, st):
        if self.text is not None and self.e['name'] != 'write_char' and is_zero(ip, st, slen(self.text)) is not False:
            self.bad('H01', 'empty', '%s outputs something for text that may be empty' % fn_name(self.e))


def fits(name, v):
    """does a CSS value state the named colour or intensity?  None if it does"""
    l = v.lower()
    if name == 'Bold':
        return None if l in ('bold', 'bolder', '600', '700', '800', '900') else 'which is not bold'
    if name == 'Faint':
        return None if l in ('lighter', '100', '200', '300') else 'which is not faint'
    c = rgb(v)
    if c is None:
        return 'which is no colour known to this check'
    if name.lower() in CSS:
        return None if c == CSS[name.lower()] else 'which is not %s' % name.lower()
    b = name.replace('Bright', '')
    if b in HUES:
        return None if hue(c) == HUES[b] else 'which is of another hue'
    return None if hue(c) == 'grey' else 'which is of another hue'


def init_ghost(old, req):
    return dict(buf=('S', b'', ''), span=UNIT, txt=I(0), bad=UNIT, ret=UNIT, failed=UNIT, old=old, req=req)


def adap(P):
    q = P('stylish_html')
    ad = Adaptor(q, 'Html', False)
    return q, Styles(q), ad


def html_writes(rep, P):
    q, S_, ad = adap(P)
    old = ad.current(ad.me) if ad.cur is not None else None

    def inductive(r):
        for e, text in ad.writes():
            html_write(r, q, S_, ad, e, text, [(a0, a1, s) for s in styles_of(S_)], lambda a: init_ghost(old, a[2]))
            floor(r, fn_name(e), 867)
            if r.prop == 'H03':
                tables(r, q, S_, ad, e, old)
    either(rep, ad, inductive, lambda r: html_reach(r, q, S_, ad).closed)


def html_reach(rep, q, S_, ad):
    """states of an HTML writer, with the span that is open"""
    R = Reach(ad, S_)
    R.start(rep, q, dict(span=TAG('closed'), old=S_.default))

    def step(r, e, text, sets):
        html_write(r, q, S_, ad, e, text, sets, lambda a: dict(init_ghost(None, a[2]), **dict(a[4])), R)
    R.search(rep, ad.writes(), step)
    return R


def html_write(rep, q, S_, ad, e, text, sets, ghost, reach=None):
    mon = HtmlMon(rep, e, S_, ad, text)
    name = fn_name(e)

    def check(ip, st, val, status):
        g = st.ghost
        old = g['old']
        if status == 'panic':
            mon.bad('H01', 'panic', '%s can panic: %s' % (name, val))
            return
        k, v = retval(ip, st, val)
        if g['bad'] != UNIT:
            if k != 'err' and not ip.same(st, val, g['ret']):
                mon.bad('H01', 'failure', '%s returns %s although output failed' % (name, k or show(v)))
            return
        if k == 'err':
            mon.bad('H01', 'spurious', '%s fails although the stream accepted everything' % name)
            return
        if g['buf'][1]:
            mon.bad('H02', 'markup', '%s ends inside the tag %r' % (name, g['buf'][1]))
        if g['txt'] == I(0) and is_zero(ip, st, slen(text)) is not True:
            mon.bad('H01', 'once', '%s: after style %s, writing style %s, the text is not output' % (name, S_.describe(ip, st, old), S_.describe(ip, st, g['req'])))
        if reach is not None:
            reach.note(rep.found, ip.canon(st, at(ip, st, a0)), dict(span=g['span'], old=old if g['txt'] == I(0) else g['req']))
            return
        now = ip.canon(st, ad.current(at(ip, st, a0)))
        sp = g['span']
        what = '%s: after style %s, writing style %s, ' % (name, S_.describe(ip, st, old), S_.describe(ip, st, g['req']))
        if sp == UNIT:
            if S_.eq(ip, st, now, old) is not True:
                mon.bad('H02', 'tracked', what + 'no tag is output but the style is then regarded as %s' % S_.describe(ip, st, now))
        elif all(x[0] == 'A' for x in S_.parts(now)):
            for p, w in mon.says(ip, st, now):
                mon.bad('H02', 'tracked', what + 'the style is then regarded as %s, but %s' % (S_.describe(ip, st, now), w))
        else:
            mon.bad('H02', 'tracked', what + 'tags are output but the style is then regarded as %s' % S_.describe(ip, st, now))
    run_all(rep, q, e, mon, sets, ghost, check, (lambda a: a[3]) if reach is not None else None)


def tables(rep, q, S_, ad, e, old):
    """one style per colour and plane: no two colours share a value; both planes use the same values"""
    sets = []
    for c in S_.colors:
        for i in (S_.fg, S_.bg):
            v = list(S_.default[3])
            v[i] = S_.color(c)
            sets.append((a0, a1, ('A', STYLE, 0, tuple(v))))
    r2 = Report(rep.prop)
    m2 = HtmlMon(r2, e, S_, ad, a1)
    run_all(r2, q, e, m2, sets, lambda a: init_ghost(old, a[2]), lambda ip, st, val, status: None)
    tab = {}
    for k, n, x in m2.decls:
        tab.setdefault(k, {})[n] = x
    fg, bg = tab.get('color', {}), tab.get('background-color', {})
    for k, t in (('color', fg), ('background-color', bg)):
        seen = {}
        for n in sorted(t):
            c = t[n].lower()
            if c in seen:
                rep.bad('unique', '%s %s' % (k, n), 'the colours %s and %s are both stated as %s:%s' % (seen[c], n, k, t[n]))
            seen[c] = n
    for n in sorted(set(fg) & set(bg)):
        if (rgb(fg[n]), fg[n] if rgb(fg[n]) is None else 0) != (rgb(bg[n]), bg[n] if rgb(bg[n]) is None else 0):
            rep.bad('planes', n, 'the colour %s is stated as %s in the foreground and %s in the background' % (n, fg[n], bg[n]))
    rep.did('%s colour table' % fn_name(e), len(fg) + len(bg))
    rep.notes.append('colours: %s' % fg)
    if len(fg) < 16 or len(bg) < 16:
        rep.bad('cases', fn_name(e), 'only %d foreground and %d background colours are stated' % (len(fg), len(bg)))


def floor(rep, name, n):
    got = sum(k for w, k, _ in rep.obl if w == name)
    if got < n and not rep.undecided:
        rep.bad('cases', name, 'only %d cases of at least %d were reached' % (got, n))


def html_finish(rep, P):
    q, S_, ad = adap(P)

    def inductive(r):
        for e in finishers(q, ad):
            html_finisher(r, q, S_, ad, e, [(a0,)], lambda a: init_ghost(ad.current(a0), UNIT))
        render(r, P, 'stylish_html', 'Html', html_tail)

    def histories(r):
        R = html_reach(Report(None), q, S_, ad)
        for e in finishers(q, ad):
            html_finisher(r, q, S_, ad, e, [(s, g) for s, g in R.order()], lambda a: dict(init_ghost(None, UNIT), **dict(a[1])))
        render(r, P, 'stylish_html', 'Html', html_tail, R)
        return R.closed
    from r_ansi import render
    either(rep, ad, inductive, histories)


def html_finisher(rep, q, S_, ad, e, sets, ghost):
    name = fn_name(e)
    mon = HtmlMon(rep, e, S_, ad, None)

    def check(ip, st, val, status):
        g = st.ghost
        if status == 'panic':
            rep.bad('panic', name, '%s can panic: %s' % (name, val))
            return
        inner = fld(g['self'], 0, ad.inner)
        k, v = retval(ip, st, val)
        if k is None and ip.same(st, val, inner):
            k, v = 'ok', val
        if g['bad'] != UNIT:
            if k != 'err' and not ip.same(st, val, g['ret']):
                rep.bad('failure', name, '%s returns %s although output failed' % (name, k or show(v)))
            return
        if k != 'ok':
            rep.bad('spurious', name, '%s fails although nothing went wrong' % name)
            return
        if not ip.same(st, v, inner):
            rep.bad('stream', name, '%s returns %s instead of the wrapped stream' % (name, show(v)))
        closed(rep, ip, st, mon, name, S_, g['old'])
    run_all(rep, q, e, mon, sets, lambda a: dict(ghost(a), self=a[0]), check)


def closed(rep, ip, st, mon, name, S_, old):
    g = st.ghost
    if g['buf'][1]:
        rep.bad('markup', name, '%s ends inside the tag %r' % (name, g['buf'][1]))
    if g['span'] == UNIT:
        if mon.was_open(ip, st) is not False:
            rep.bad('finish', name, '%s leaves the span of style %s open' % (name, S_.describe(ip, st, old)))
    elif g['span'] != TAG('closed'):
        rep.bad('finish', name, '%s leaves a span open' % name)


def html_tail(rep, ip, st, e, S_, ad, cur, tail, ghost=None):
    m = HtmlMon(rep, e, S_, ad, None)
    st.ghost.update(init_ghost(cur, UNIT) if ghost is None else dict(init_ghost(None, UNIT), **ghost))
    cur = st.ghost['old']
    for x in tail:
        if x[0] != 'S':
            rep.bad('tail', fn_name(e), '%s appends %s' % (fn_name(e), show(x)))
            return
        m.const(ip, st, x[1])
    closed(rep, ip, st, m, fn_name(e), S_, cur)


def h01(rep, P):
    """the HTML writer, every requested style from a symbolic previous one: everything output is constant markup of the writer or the text through the HTML escaper"""
    html_writes(rep, P)


def h02(rep, P):
    """the HTML writer, every requested style from a symbolic previous one: tags against the ghost state of the open span; finish, format and to_html_string"""
    html_writes(rep, P)
    html_finish(rep, P)


def h03(rep, P):
    """the HTML writer, every requested style: the declarations of the enclosing span compared with the style; colour tables compared with each other"""
    html_writes(rep, P)


RULES = {'H01': h01, 'H02': h02, 'H03': h03}
