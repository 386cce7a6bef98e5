"""P01: plain writers."""
from writers import *


def p01(rep, P):
    """every path of the plain writers' methods: one corresponding call on the wrapped stream, its result returned; into_inner; plain::format"""
    q = P('stylish_plain')
    n = 0
    for io in (False, True):
        ad = Adaptor(q, 'Plain', io)
        n += 1
        for e, text in ad.writes():
            name = fn_name(e)

            def chk(ip, st, val):
                ev = [x for x in st.tr]
                if len(ev) != 1:
                    rep.bad('once', name, '%s makes %d calls (%s)' % (name, len(ev), ', '.join(x.name for x in ev)))
                    return
                ev = ev[0]
                m = ev.name.rsplit('::', 1)[1]
                if not ev.name.startswith(ad.pre):
                    rep.bad('call', name, '%s calls %s' % (name, ev.name))
                    return
                if loc_of(ev.args[0]) != field_ptr(a0, ad.inner) and not reaches(ip, st, ev.args[0], ('P', ('mem', a0), (('f', ad.inner, 0, None),), None)):
                    rep.bad('stream', name, '%s writes to %s' % (name, show(ev.args[0])))
                pcs = pieces(ip, st, ev)
                if pcs is None or len(pcs) != 1 or pcs[0][0] != 'text' or not ip.same(st, pcs[0][1], text):
                    rep.bad('text', name, '%s writes %s' % (name, pcs and [(x[0], show(x[1]) if isinstance(x[1], tuple) else x[1]) for x in pcs]))
                if io and m != e['name'] or not io and m not in ('write_str', 'write_char', 'write_fmt'):
                    rep.bad('method', name, '%s uses %s' % (name, m))
                passes(rep, ip, st, val, ev, e, name)
            each(rep, q, e, chk)
        for e in entries(q, selfp=ad.path, trait=SIOT, name='flush') if io else ():
            from r_core import flush
            flush(rep, q, e, ad.path)
        e = entry(q, selfp=ad.path, name='into_inner')

        def chk2(ip, st, val):
            if st.tr or not ip.same(st, val, fld(a0, 0, ad.inner)):
                rep.bad('inner', fn_name(e), '%s returns %s' % (fn_name(e), show(ip.canon(st, val))))
        each(rep, q, e, chk2)
    from r_ansi import render

    def tail(rep, ip, st, e, S_, ad, cur, t):
        if t:
            rep.bad('extra', fn_name(e), '%s adds %s to what was written' % (fn_name(e), [show(x) for x in t]))
    render(rep, P, 'stylish_plain', 'Plain', tail)


RULES = {'P01': p01}
