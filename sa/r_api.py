"""E01: ownership and escape audit of the public surface (no value returned, call made or place written by a public function
carries the wrapped stream of an ANSI or HTML writer, except to the stream's own writing operations), plus compile-fail
witnesses with compiling twins.  M06: name-resolution witnesses generated from the identifiers the expansions contain.
W01: every feature combination type-checked together with the items documented for it."""
import itertools, json, os, re, shutil, subprocess
from common import *
from writers import *
import build, spec

FORMATTER_T = FORMATTER


# ------------------------------------------------------------------ E01
class LeakMon(Mon):
    def __init__(self, rep, e, q, ad):
        super().__init__(rep)
        self.e, self.q, self.ad = e, q, ad
        self.T = set()
        for i in e['ins']:
            mentions(q, i, lambda t: t['k'] == 'adt' and t['path'] == ad.path and [self.T.add(q.T[a].get('name')) for a in t['args'] if isinstance(a, int) and q.T[a]['k'] == 'param'] and False)

    def stream_type(self, t):
        return mentions(self.q, t, lambda x: x['k'] == 'param' and x.get('name') in self.T, None, lambda x: x['path'] != self.ad.path)

    def carries(self, ip, st, v, depth=5, seen=None):
        """a pointer into the stream is reachable from v"""
        seen = set() if seen is None else seen
        if v is None or depth < 0 or not isinstance(v, tuple) or v in seen:
            return False
        seen.add(v)
        if v[0] == 'P':
            for s in v[2]:
                if s[0] == 'f' and self.q.T[s[3]].get('path') == self.ad.path and s[2] == self.ad.inner:
                    return True
            if v[1][0] == 'mem' and not v[2]:
                pass
            return self.carries(ip, st, at(ip, st, v), depth - 1, seen)
        if v[0] == 'A':
            if v[1] == self.ad.path:
                return False
            return any(self.carries(ip, st, x, depth - 1, seen) for x in v[3] if isinstance(x, tuple))
        return False

    def event(self, ip, st, ev):
        n = ev.name
        own = n.startswith((FMTW, IOW)) and not n.endswith('by_ref') or n in ('core::fmt::write',)
        e = self.e
        if n == 'core::clone::Clone::clone' and e.get('trait') == 'core::clone::Clone' or e.get('trait') == 'core::fmt::Debug' and n.startswith('core::fmt::'):
            return super().event(ip, st, ev)
        for i, v in enumerate(ev.args):
            if i == 0 and own:
                continue
            t = (ev.tys or [])[i] if i < len(ev.tys or []) else None
            if self.carries(ip, st, v) or n in FNCALLS and i > 0 and t is not None and self.stream_type(t):
                self.rep.bad('escape', fn_name(e), '%s hands the stream wrapped by %s to %s' % (fn_name(e), self.ad.path, n))
        return super().event(ip, st, ev)


def e01(rep, P):
    """every public function or trait method that takes or contains an ANSI or HTML writer, and every public function that takes or returns a formatter"""
    n = 0
    for crate, short, io in (('stylish_ansi', 'Ansi', False), ('stylish_ansi', 'Ansi', True), ('stylish_html', 'Html', False)):
        q = P(crate)
        ad = Adaptor(q, short, io)
        a = [x for x in q.adts if x['path'] == ad.path][0]
        for f in a['fields']:
            rep.did('field', 1, field='%s.%s' % (ad.path, f[0]))
            if f[2] or 'Public' in f[1]:
                rep.bad('field', '%s.%s' % (ad.path, f[0]), 'the field %s of %s is public' % (f[0], ad.path))
        for i in q.d['impls']:
            if i['trait'] == 'core::marker::Copy' and q.T[i['self']].get('path') == ad.path:
                rep.bad('copy', ad.path, '%s is Copy: a copy can still be written to after the writer was finished' % ad.path)
        fin = {e['key'] for e in finishers(q, ad)}
        isad = lambda t: t['k'] == 'adt' and t['path'] == ad.path
        local = lambda t: t['path'].split('::')[0] == crate or t['path'].startswith(('core::option', 'core::result'))
        for c in (crate, 'stylish'):
            r = P(c)
            ad2 = ad if c == crate else None
            for e in r.entries:
                if not e['pub'] or not any(mentions(r, i, isad, None, lambda t: t['path'].split('::')[0] == c or isad(t) or t['path'].startswith('core::option')) for i in e['ins']):
                    continue
                if ad2 is None:
                    ad2 = Adaptor.__new__(Adaptor)
                    ad2.q, ad2.path, ad2.inner = r, ad.path, ad.inner
                n += 1
                mon = LeakMon(rep, e, r, ad2)
                where = fn_name(e)
                if gives_stream(r, ad2, e) and e['key'] not in fin:
                    rep.bad('borrow', where, '%s returns the type of the stream wrapped by %s without consuming the writer' % (where, ad.path))
                    continue
                ip, exits = explore(rep, r, e, mon=mon)
                for status, val, st in exits:
                    if status == 'unsupported':
                        rep.undec(where, val)
                        continue
                    if status != 'return':
                        continue
                    if mon.carries(ip, st, val):
                        rep.bad('borrow', where, '%s returns a reference into the stream wrapped by %s' % (where, ad.path))
                rep.did(where, max(1, len(exits)))
        import r_ansi, r_html
    if n < 10:
        raise Anchor('functions taking a writer (found %d)' % n)
    # the functions that consume the writer and give the stream are finishing functions: decided by the rules of A02 and H02
    import r_ansi, r_html
    for nm, rule in (('A02', r_ansi.ansi_finish), ('H02', r_html.html_finish)):
        sub = Report(nm)
        rule(sub, P)
        for k, m in list(sub.viol.items()) + [(k, m) for k, (_, m) in sub.maybe.items()]:
            fn = k.split('|')[2]
            if not fn.endswith('::finish') and '|reset|' in k or '|finish|' in k and '::format' not in fn and not fn.endswith('::finish'):
                rep.bad('unfinished', fn, '%s gives out the wrapped stream without finishing: %s' % (fn, m))
        rep.undecided.update(sub.undecided)
    formatters(rep, P)
    e01_witness(rep)


def formatters(rep, P):
    q = P(CORE)
    a = [x for x in q.adts if x['path'] == FORMATTER][0]
    for f in a['fields']:
        rep.did('field', 1, field='%s.%s' % (FORMATTER, f[0]))
        if f[2] or 'Public' in f[1]:
            rep.bad('field', '%s.%s' % (FORMATTER, f[0]), 'the field %s of %s is public' % (f[0], FORMATTER))
    isf = lambda t: t['k'] == 'adt' and t['path'] == FORMATTER
    n = 0
    for c in (CORE, 'stylish', 'stylish_ansi', 'stylish_html', 'stylish_plain'):
        r = P(c)
        near = lambda t: t['path'].split('::')[0] in (c, CORE) or t['path'].startswith(('core::option', 'core::result'))
        for e in r.entries:
            if not e['pub']:
                continue
            takes = [i for i, t in enumerate(e['ins']) if mentions(r, t, isf, None, near)]
            gives = mentions(r, e['out'], isf, None, near)
            where = fn_name(e)
            if gives and not takes:
                n += 1
                rep.bad('create', where, '%s is public and creates a formatter' % where)
                continue
            if not takes or e.get('trait') == 'core::fmt::Debug':
                continue
            n += 1
            fm = Fm(r)
            ip, exits = explore(rep, r, e)
            for status, val, st in exits:
                if status == 'unsupported':
                    rep.undec(where, val)
                    continue
                if status != 'return':
                    continue
                for i in takes:
                    if r.T[e['ins'][i]]['k'] != 'ref' or not isf(r.T[r.T[e['ins'][i]]['t']]):
                        continue
                    a = ('sym', 'arg%d' % i)
                    now = at(ip, st, a)
                    old = ('mem', a)
                    if now is None or now == old:
                        continue
                    for what, get in (('style', fm.style), ('formatting flags', fm.flags), ('destination', fm.write)):
                        x = get(now)
                        y = get(old)
                        if not ip.same(st, x, y) and not unchanged(ip, st, x, y):
                            rep.bad('set', where, '%s changes the %s of the formatter it is given in place' % (where, what))
                if gives:
                    f = find_formatter(ip, st, val)
                    if f is None:
                        rep.undec(where, 'the formatter in %s' % show(val))
                        continue
                    ok = any(reaches(ip, st, fm.write(f), fm.write(('mem', ('sym', 'arg%d' % i)))) or reaches(ip, st, fm.write(f), fm.write(('sym', 'arg%d' % i))) for i in takes)
                    if not ok:
                        rep.bad('derive', where, '%s returns a formatter that does not write to the destination of the one it is given' % where)
            rep.did(where, max(1, len(exits)))
    if n < 6:
        raise Anchor('functions taking a formatter (found %d)' % n)


def unchanged(ip, st, x, y, d=4):
    """x is y taken apart"""
    x, y = ip.canon(st, x), ip.canon(st, y)
    if x == y or ip.same(st, x, y):
        return True
    if d and x[0] == 'A' and x[3]:
        return all(unchanged(ip, st, z, ('fld', y, x[2], i), d - 1) or unchanged(ip, st, z, fld(y, x[2], i), d - 1) for i, z in enumerate(x[3]) if isinstance(z, tuple))
    return strip(x) == strip(y)


def find_formatter(ip, st, v, d=4):
    if v is None or d < 0:
        return None
    if v[0] == 'A':
        if v[1] == FORMATTER:
            return v
        for x in v[3]:
            if isinstance(x, tuple):
                f = find_formatter(ip, st, x, d - 1)
                if f is not None:
                    return f
        return None
    if v[0] == 'P':
        return find_formatter(ip, st, at(ip, st, v), d - 1)
    return None


# (what, code of the expected error, line, twin that must compile); phase: typeck / borrowck
W = '::stylish::'
E01W = [
    ('the stream field of an ANSI writer', 'E0616 E0609', 'pub fn f(w: &mut stylish::Ansi<S>) { let _ = &mut w.inner; }', 'pub fn f(w: &mut stylish::Ansi<S>) { let _ = &mut *w; }'),
    ('the style field of an ANSI writer', 'E0616 E0609', 'pub fn f(w: &mut stylish::Ansi<S>) { w.current = stylish::Style::default(); }', None),
    ('the stream field of an ANSI byte writer', 'E0616 E0609', 'pub fn f(w: &mut stylish::io::Ansi<V>) { let _ = &mut w.inner; }', None),
    ('the stream field of an HTML writer', 'E0616 E0609', 'pub fn f(w: &mut stylish::Html<S>) { let _ = &mut w.inner; }', None),
    ('dereferencing an ANSI writer', 'E0614', 'pub fn f(w: &mut stylish::Ansi<S>) { let _ = &mut **w; }', None),
    ('dereferencing an ANSI byte writer', 'E0614', 'pub fn f(w: &mut stylish::io::Ansi<V>) { let _ = &mut **w; }', None),
    ('dereferencing an HTML writer', 'E0614', 'pub fn f(w: &mut stylish::Html<S>) { let _ = &mut **w; }', None),
    ('writing to the stream type through an ANSI writer', 'E0277', 'pub fn f(w: &mut stylish::Ansi<S>) { fn g<T: AsMut<S>>(_: &mut T) {} g(w) }', 'pub fn f(w: &mut Box<S>) { fn g<T: AsMut<S>>(_: &mut T) {} g(w) }'),
    ('borrowing the stream from an HTML writer', 'E0277', 'pub fn f(w: &mut stylish::Html<S>) { fn g<T: AsMut<S>>(_: &mut T) {} g(w) }', None),
    ('converting an ANSI writer into its stream', 'E0277', 'pub fn f(w: stylish::Ansi<S>) -> S { w.into() }', None),
    ('converting an HTML writer into its stream', 'E0277', 'pub fn f(w: stylish::Html<S>) -> S { w.into() }', None),
    ('an ANSI writer used as an unstyled stream', 'E0277', 'pub fn f(w: stylish::Ansi<S>) { fn g<T: core::fmt::Write>(_: T) {} g(w) }', 'pub fn f(w: S) { fn g<T: core::fmt::Write>(_: T) {} g(w) }'),
    ('an HTML writer used as an unstyled stream', 'E0277', 'pub fn f(w: stylish::Html<S>) { fn g<T: core::fmt::Write>(_: T) {} g(w) }', None),
    ('an ANSI byte writer used as an unstyled stream', 'E0277', 'pub fn f(w: stylish::io::Ansi<V>) { fn g<T: std::io::Write>(_: T) {} g(w) }', 'pub fn f(w: V) { fn g<T: std::io::Write>(_: T) {} g(w) }'),
    ('copying an ANSI writer', 'E0277', 'pub fn f(w: stylish::Ansi<C>) { fn g<T: Copy>(_: T) {} g(w) }', 'pub fn f(w: C) { fn g<T: Copy>(_: T) {} g(w) }'),
    ('copying an HTML writer', 'E0277', 'pub fn f(w: stylish::Html<C>) { fn g<T: Copy>(_: T) {} g(w) }', None),
    ('building an ANSI writer in a style of the caller', 'E0451 E0063 E0560 E0423', 'pub fn f(s: S) -> stylish::Ansi<S> { stylish::Ansi { inner: s, current: stylish::Style::default() } }', 'pub fn f(s: S) -> stylish::Ansi<S> { stylish::Ansi::new(s) }'),
    ('a formatter literal', 'E0451 E0063 E0560', 'pub fn f(w: &mut dyn stylish::Write) { let _ = stylish::Formatter { write: w, style: stylish::Style::default(), format: loop {} }; }', None),
    ('creating a formatter', 'E0624 E0599', 'pub fn f(w: &mut dyn stylish::Write) { let _ = stylish::Formatter::new(w); }', None),
    ('a default formatter', 'E0277', "pub fn f<'a>() -> stylish::Formatter<'a> { Default::default() }", None),
    ('setting the style of a formatter', 'E0616 E0609', "pub fn f(w: &mut stylish::Formatter<'_>) { w.style = stylish::Style::default(); }", "pub fn f(w: &mut stylish::Formatter<'_>) { let _ = w.with(stylish::Style::default()); }"),
    ('setting the flags of a formatter', 'E0616 E0609', "pub fn f(w: &mut stylish::Formatter<'_>) { let _ = &mut w.format; }", None),
    ('the destination of a formatter', 'E0616 E0609', "pub fn f(w: &mut stylish::Formatter<'_>) { let _ = &mut w.write; }", None),
]
E01B = [
    ('writing to a finished ANSI writer', 'E0382', 'pub fn f(mut w: stylish::Ansi<S>) { let _ = w.finish(); let _ = stylish::Write::write_str(&mut w, "", stylish::Style::default()); }',
     'pub fn f(mut w: stylish::Ansi<S>) { let _ = stylish::Write::write_str(&mut w, "", stylish::Style::default()); let _ = w.finish(); }'),
    ('finishing an ANSI writer twice', 'E0382', 'pub fn f(w: stylish::Ansi<S>) { let _ = w.finish(); let _ = w.finish(); }', 'pub fn f(w: stylish::Ansi<S>) { let _ = w.finish(); }'),
    ('writing to a finished ANSI byte writer', 'E0382', 'pub fn f(mut w: stylish::io::Ansi<V>) { let _ = w.finish(); let _ = stylish::io::Write::flush(&mut w); }',
     'pub fn f(mut w: stylish::io::Ansi<V>) { let _ = stylish::io::Write::flush(&mut w); let _ = w.finish(); }'),
    ('writing to a finished HTML writer', 'E0382', 'pub fn f(mut w: stylish::Html<S>) { let _ = w.finish(); let _ = stylish::Write::write_str(&mut w, "", stylish::Style::default()); }',
     'pub fn f(mut w: stylish::Html<S>) { let _ = stylish::Write::write_str(&mut w, "", stylish::Style::default()); let _ = w.finish(); }'),
    ('finishing an ANSI writer that is borrowed', 'E0507', 'pub fn f(w: &mut stylish::Ansi<S>) { let _ = w.finish(); }', None),
    ('finishing an HTML writer that is borrowed', 'E0507', 'pub fn f(w: &mut stylish::Html<S>) { let _ = w.finish(); }', None),
    ('using a formatter while a restyled one lives', 'E0499', "pub fn f(w: &mut stylish::Formatter<'_>) { let mut v = w.with(stylish::Style::default()); let _ = w.write_str(\"\"); let _ = v.write_str(\"\"); }",
     "pub fn f(w: &mut stylish::Formatter<'_>) { let mut v = w.with(stylish::Style::default()); let _ = v.write_str(\"\"); let _ = w.write_str(\"\"); }"),
    ('a restyled formatter outliving the original', 'E0515 E0505 E0597', "pub fn f<'a>(mut w: stylish::Formatter<'a>) -> stylish::Formatter<'a> { w.with(stylish::Style::default()) }", None),
]
E01HEAD = '''#![allow(warnings)]
pub type S = String;
pub type V = Vec<u8>;
#[derive(Clone, Copy, Default)] pub struct C;
impl core::fmt::Write for C { fn write_str(&mut self, _: &str) -> core::fmt::Result { Ok(()) } }
'''


def e01_witness(rep):
    n = 0
    priv = [x for x in E01W if x[1].startswith('E0451')]
    for name, group in (('typeck', [x for x in E01W if x not in priv]), ('privacy', priv), ('borrowck', E01B)):
        src, at = E01HEAD, {}
        ln = src.count('\n') + 1
        for i, (what, code, line, twin) in enumerate(group):
            for kind, t in (('bad', line), ('twin', twin)):
                if t:
                    src += 'pub mod m%d_%s { use super::*; %s }\n' % (i, kind, t)
                    at[ln] = (kind, i)
                    ln += 1
        errs = build.error_lines(e01.env, 'surface', src, codes=True)
        for l, (kind, i) in at.items():
            what, code = group[i][:2]
            n += 1
            if kind == 'twin' and l in errs:
                rep.undec('witness twin: ' + what, errs[l][1])
            elif kind == 'bad' and l not in errs:
                # an error of an earlier phase elsewhere can hide this one: alone
                if errs and any(c not in group[j][1].split() for k, (c, _) in errs.items() if k in at for j in [at[k][1]]):
                    if build.error_lines(e01.env, 'surface', E01HEAD + 'pub mod m { use super::*; %s }\n' % group[i][2]):
                        continue
                rep.bad('witness', what, 'a program compiles that must not: %s: %s' % (what, group[i][2]))
            elif kind == 'bad' and errs[l][0] not in code.split():
                rep.undec('witness: ' + what, 'fails with %s %s instead of %s' % (errs[l] + (code,)))
    rep.did('compile-fail witnesses and twins', n)



# ------------------------------------------------------------------ M06
KEYWORDS = set("""as break const continue crate dyn else enum extern false fn for if impl in let loop match mod move mut pub ref return self Self static struct super trait true type unsafe use where while async await try yield abstract become box do final macro override priv typeof unsized virtual gen union auto raw safe default macro_rules""".split())
# names every program can see: prelude items, primitive types, crates, and names commonly given to locals and items
COMMON = """Some None Ok Err Option Result Box String Vec ToString ToOwned Default Clone Copy Fn FnMut FnOnce From Into Iterator IntoIterator Drop AsRef AsMut Send Sync Sized
drop u8 u16 u32 u64 u128 usize i8 i32 isize f32 f64 bool char str core std alloc stylish stylish_core stylish_macros stylish_style stylish_html stylish_ansi stylish_plain
Formatter FormatterArgs Arguments Display Debug Write Style StyleDiff Color Intensity Foreground Background Align Sign DebugHex Restyle Error fmt io f w s x y e r res ret result out output arg args argument formatter diff style spec
value val tmp temp inner writer write writeln format format_args format_args_nl concat stringify with_builtin print println panic positional named implicit positional_args named_args a b c i n t v""".split()
IDS = [
    # every production once, every identifier of the user distinctive
    ('{}|{0}|{0:?}', 1, (), ()), ('{zqa}{zqb:?}{}', 1, ('zqa', 'zqb'), ()), ('{zqu}{zqv:s}{zqu:x}', 0, (), ('zqu', 'zqv')), ('x{{y}}', 0, (), ()),
    ('{0:?}{0:x?}{0:X?}{0:o}{0:x}{0:X}{0:p}{0:b}{0:e}{0:E}{0:s}', 1, (), ()),
    ('{0:<}{0:^}{0:>}{0: <}{0:+}{0:-}{0:#}{0:0}{0:5}{0:.3}{0: >+#08.2?}{0:<5s}', 1, (), ()),
] + [('{0:(%s)}{0:(%s)s}' % (a, a), 1, (), ()) for a in ['%s=%s' % (k, c) for k in ('fg', 'bg') for c in spec.COLORS] + spec.INTENS + ['', 'bold,', 'fg=red,bg=blue,faint']] + [
    ('', 0, (), ()), ('{}{zqu:(bold)}{zqa:?}', 1, ('zqa',), ('zqu',))]
KINDS = ['args', 'write', 'writeln', 'writeln0', 'fmtcore', 'fmtansi', 'fmthtml', 'fmtplain', 'io_write', 'io_writeln', 'io_writeln0']


def invocation(kind, fmt, args, M):
    """the macro call; M maps macro kinds to paths"""
    inner = ', '.join([spec.rstr(fmt)] + args)
    return {'args': '%s!(%s)' % (M['format_args'], inner), 'write': '%s!(zqw, %s)' % (M['write'], inner), 'writeln': '%s!(zqw, %s)' % (M['writeln'], inner), 'writeln0': '%s!(zqw)' % M['writeln'],
            'io_write': '%s!(zqw, %s)' % (M['write'], inner), 'io_writeln': '%s!(zqw, %s)' % (M['writeln'], inner), 'io_writeln0': '%s!(zqw)' % M['writeln']}.get(kind) or '%s!(%s)' % (M[kind[3:]], inner)


def function(name, kind, fmt, pos, named, scope, M):
    K = M['lib']
    ps, args = [], []
    for i in range(pos):
        ps.append('zq%d: ZqA' % i)
        args.append('zq%d' % i)
    for k, nm in enumerate(named):
        ps.append('zqn%d: ZqA' % k)
        args.append('%s = zqn%d' % (nm, k))
    ps += ['%s: ZqA' % s for s in scope]
    call = invocation(kind, fmt, args, M)
    if kind == 'args':
        return 'pub fn %s<ZqA: ::zqcommon::All>(zqw: &mut %s::Formatter<\'_>%s) -> %s::Result { %s::Display::fmt(&%s, zqw) }' % (name, K, ''.join(', ' + p for p in ps), K, K, call)
    if kind.startswith('fmt'):
        return 'pub fn %s<ZqA: ::zqcommon::All>(%s) -> %s { %s }' % (name, ', '.join(ps), '::zqcommon::Attributed' if kind == 'fmtcore' else '::zqcommon::Text', call)
    io = kind.startswith('io')
    return 'pub fn %s<ZqA: ::zqcommon::All, ZqW: %s::Write>(zqw: &mut ZqW%s) -> %s { %s }' % (name, K + '::io' if io else K, ''.join(', ' + p for p in ps), '::zqcommon::IoResult' if io else K + '::Result', call)


COMMONSRC = """#![allow(warnings)]
pub use std::string::String as Text;
pub use {core}::String as Attributed;
pub type IoResult = {core}::io::Result<()>;
pub trait All: core::fmt::Display + core::fmt::Debug + core::fmt::Octal + core::fmt::LowerHex + core::fmt::UpperHex + core::fmt::Pointer + core::fmt::Binary + core::fmt::LowerExp + core::fmt::UpperExp + {core}::Display {{}}
"""
UMB = {'lib': '::zqlib', 'format_args': '::zqlib::format_args', 'write': '::zqlib::write', 'writeln': '::zqlib::writeln', 'core': '::zqlib::format', 'ansi': '::zqlib::ansi::format', 'html': '::zqlib::html::format', 'plain': '::zqlib::plain::format'}
SEP = dict(UMB, ansi='::zqansi::format', html='::zqhtml::format', plain='::zqplain::format')


def uses(M, kinds=KINDS, prefix='zqf'):
    out = []
    for k in kinds:
        for j, (fmt, pos, named, scope) in enumerate(IDS if k == 'args' else IDS[:1] + IDS[-2:]):
            if k.endswith('0') and j:
                continue
            if k.endswith('0'):
                fmt, pos, named, scope = '', 0, (), ()
            out.append(function('%s_%s_%d' % (prefix, k, j), k, fmt, pos, named, scope, M))
    return out


def hostile_crate(env, M, deps, name, ids, body):
    """a crate whose root and module define every name in ids in every namespace, without any prelude"""
    lib = '#![no_implicit_prelude]\n#![allow(warnings)]\n#![forbid(unsafe_code)]\n'
    for i in ids:
        lib += 'macro_rules! %s { ($($zq:tt)*) => { zq_captured!{} } }\n' % i
    lib += 'pub mod zqm {\n'
    for i in ids:
        lib += 'pub enum %s {} pub static %s: () = ();\n' % (i, i)
    meth = [i for i in ids if i != 'write_fmt']
    lib += 'pub trait ZqT { %s }\nimpl<ZqX: ?::zqcommon::Sized_> ZqT for ZqX {}\n' % ' '.join('fn %s(&self) {}' % i for i in meth)
    lib += '\n'.join(body) + '\n}\n'
    return lib


def impostors(env):
    """empty crates with the names the library's own crates and those of Rust have for it"""
    deps = ''
    for i in ('core', 'alloc', 'stylish', 'stylish_core', 'stylish_macros', 'stylish_style', 'stylish_ansi', 'stylish_html', 'stylish_plain', 'with_builtin_macros'):
        d = build.crate(env, 'zqno-' + i, '#![no_std]\n', deps='[dev-dependencies]')
        deps += '\n%s = { path = "%s", package = "zqno-%s" }' % (i, d, i)
    return deps


def run_hostile(rep, name, M, deps, core, ids, kinds):
    env = m06.env
    body = uses(M, kinds)
    d0 = build.crate(env, 'zqcommon', COMMONSRC.replace('{core}', core).replace('{{', '{').replace('}}', '}') + 'pub use core::marker::Sized as Sized_;\n', deps=deps)
    deps2 = deps + '\nzqcommon = { path = "%s" }' % d0 + impostors(env)
    src = hostile_crate(env, M, deps2, name, ids, body)
    # the same crate without the hostile names must compile: otherwise the witness itself is at fault
    errs = build.error_lines(env, name, src, deps=deps2)
    head = src.split('\n')
    n = 0
    for l, m in sorted(errs.items()):
        t = head[l - 1]
        fn = re.match(r'pub fn (\w+)', t)
        n += 1
        if not fn:
            rep.undec('hostile crate %s line %d' % (name, l), m)
            continue
        k = fn.group(1).split('_', 1)[1].rsplit('_', 1)[0]
        rep.bad('capture', '%s %s' % (k, re.sub(r'`[^`]*::', '`', m)[:60]), 'the expansion of %s in a scope with items named like its identifiers does not resolve to the library: %s: %s' % (k, m, t[:200]))
    if not errs:
        rep.did('macro uses in a hostile scope (%s)' % name, len(body), hostile_names=len(ids))


def expansion_idents(rep):
    """identifiers in the expansions that come from neither the arguments nor the paths of the invocation"""
    env = m06.env
    deps = 'zqlib = { package = "stylish", path = "%s", features = ["ansi", "html", "plain"] }' % env.repo
    d0 = build.crate(env, 'zqcommon', COMMONSRC.replace('{core}', 'zqlib').replace('{{', '{').replace('}}', '}'), deps=deps)
    src = '#![allow(warnings)]\n#![no_implicit_prelude]\n' + '\n'.join(uses(UMB)) + '\n'
    with env.lock('gen'):
        d = build.crate(env, 'idents', src, deps=deps + '\nzqcommon = { path = "%s" }' % d0)
        r = subprocess.run(['cargo', '+nightly', 'rustc', '--offline', '--quiet', '--profile', 'check', '--', '-Zunpretty=expanded'] if False else ['cargo', '+nightly', 'rustc', '--offline', '--quiet', '--', '-Zunpretty=expanded'],
                           cwd=d, env=build.environ(env), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if r.returncode or 'zqf_args_0' not in r.stdout:
        rep.undec('expansion', 'the invocations do not expand: %s' % r.stderr[-300:])
        return None
    t = re.sub(r'"(?:[^"\\]|\\.)*"', ' ', r.stdout)
    t = re.sub(r"'\w+", ' ', t)
    ids = set(re.findall(r'[^\W\d]\w*', t))
    return sorted(i for i in ids if i not in KEYWORDS and not i.startswith(('zq', 'Zq', '__stylish')) and i != '_' and i.isidentifier())


def m06(rep, P):
    """every macro, over every production of the grammar, in a crate without prelude whose every namespace defines every identifier the expansions contain; and with variables of those names as arguments"""
    ids = expansion_idents(rep)
    if ids is None:
        ids = []
    both = sorted(set(ids) | set(COMMON))
    rep.notes.append('identifiers in the expansions: ' + ' '.join(ids))
    rep.did('identifiers in the expansions', len(ids))
    umb = 'zqlib = { package = "stylish", path = "%s", features = ["ansi", "html", "plain"] }' % m06.env.repo
    run_hostile(rep, 'umbrella', UMB, umb, 'zqlib', both, KINDS)
    sep = '\n'.join('zq%s = { package = "stylish-%s", path = "%s/%s", features = ["macros"] }' % (b, a, m06.env.repo, a) for a, b in (('core', 'lib'), ('ansi', 'ansi'), ('html', 'html'), ('plain', 'plain')))
    run_hostile(rep, 'separate', SEP, sep, 'zqlib', both, KINDS)
    locals_(rep, P, both)


def locals_(rep, P, ids):
    """variables named like identifiers of the expansion, as positional, named and captured arguments"""
    from core_ai import Prog
    import r_macros
    env = m06.env
    sps = []
    prim = set('Some None Ok Err u8 u16 u32 u64 u128 usize i8 i32 isize f32 f64 bool char str'.split())
    for i in ids:
        if i in prim:
            continue
        sps.append(spec.Sp(['M06'], '{%s}{%s:s}' % (i, i), 0, (), (i,)))
        sps.append(spec.Sp(['M06'], '{}{n:?}{}', 2, ('n',), (), alias=[i, 'zq1', 'zq2']))
        sps.append(spec.Sp(['M06'], '{}{%s:(bold)}' % i, 1, (i,), (), alias=['zq1', i]))
        sps.append(spec.Sp(['M06'], '{%s}' % i, 0, (), (i,), kind='writeln'))
    for k, s in enumerate(sps):
        s.id = 's%d' % k
    d = env.generated('locals', sps)
    rejected = json.load(open(os.path.join(d, 'rejected')))
    for s in sps:
        if s.id in rejected:
            nm = s.scope[0] if s.scope else s.alias[0]
            rep.bad('variable', nm, 'a variable named %s breaks the expansion of format_args!(%s): %s' % (nm, spec.rstr(s.fmt), rejected[s.id]))
    p = Prog(os.path.join(d, 'specimen.json'))
    n = 0
    for fd, stats in r_macros.spread(p, [s for s in sps if s.id not in rejected]):
        for (pr, c, w), m in sorted(fd.found.items()):
            if c in ('argument', 'shape', 'effect') or pr == 'M04':
                rep.bad('variable', m.split(': in ')[-1][:60], m)
        for k, v in fd.und.items():
            rep.undec(k, v)
        n += fd.n
        for a in ('partitions', 'steps', 'events', 'loops'):
            rep.stats[a] += stats[a]
        rep.stats['functions'] |= stats['functions']
    rep.did('arguments that are variables named like an identifier of the expansion', n)



# ------------------------------------------------------------------ W01
# (features needed, witness) of the main crate and of the member crates; {c} is the crate
BASE = ['pub use {c}::{{Arguments, Background, Color, Display, Error, Foreground, Formatter, Intensity, Restyle, Result, Style, StyleDiff, Write}};',
        'pub fn {f}(w: &mut dyn {c}::Write) -> {c}::Result {{ w.write_str("", {c}::Style::default())?; w.write_char(\'c\', {c}::Style::default().with({c}::Foreground({c}::Color::Red)).with({c}::Intensity::Bold)) }}',
        'pub struct {f}; impl {c}::Display for {f} {{ fn fmt(&self, f: &mut {c}::Formatter<\'_>) -> {c}::Result {{ f.with(({c}::Foreground({c}::Color::Blue), {c}::Background({c}::Color::Red), {c}::Intensity::Faint)).write_str("") }} }}']
ALLOC = ['pub fn {f}(a: {c}::Arguments<\'_>) -> {c}::String {{ {c}::format(a) }}', 'pub fn {f}(a: {c}::String, f: &mut {c}::Formatter<\'_>) -> {c}::Result {{ {c}::Display::fmt(&a, f)?; let mut b = {c}::String::new(); {c}::Write::write_str(&mut b, "", {c}::Style::default()) }}']
MACROS = ['pub fn {f}(w: &mut dyn {c}::Write, x: &str) -> {c}::Result {{ {c}::write!(w, "{{}}{{x:(fg=red,bold)?}}{{y:s}}", 1, y = {c}::format_args!("{{:>5.2}}", 2))?; {c}::writeln!(w, "{{{{")?; {c}::writeln!(w) }}']
BOTH = ['pub fn {f}() -> {c}::String {{ {c}::format!("{{}}", 1) }}', 'pub fn {f}<T: {c}::Display>(x: &T) -> {c}::String {{ {c}::ToStylishString::to_stylish_string(x) }}']
STDIO = ['pub use {c}::io::{{Error as _, ErrorKind as _, Result as _, Write as _}};', 'pub fn {f}(w: &mut dyn {c}::io::Write, a: {c}::Arguments<\'_>) -> {c}::io::Result<()> {{ w.write_all(b"x", {c}::Style::default())?; w.write_fmt(a)?; w.flush() }}']
FULL = {(): BASE, ('alloc',): ALLOC, ('macros',): MACROS, ('alloc', 'macros'): BOTH, ('std',): STDIO}


def back(c, ty, alias, m, trait, core='stylish', fin='finish'):
    """what the main crate ({c} with modules) or a backend crate provides"""
    u = c == 'stylish'
    A = '%s::%s' % (c, ty)
    out = {
        (): ['pub fn {f}<T: core::fmt::Write>(t: T) {{ let mut w = %s::new(t); let _ = stylish_::Write::write_str(&mut w, "", stylish_::Style::default()); let _ = w.%s(); }}' % (A, fin),
             'pub fn {f}<T: core::fmt::Write>(t: T, a: stylish_::Arguments<\'_>) -> stylish_::Result {{ %s::new(t).write_fmt(a) }}' % A,
             'pub fn {f}<T: core::fmt::Write + Clone + Default + core::fmt::Debug>() {{ fn n<X: Clone + Default + core::fmt::Debug>() {{}} n::<%s<T>>() }}' % A],
        ('alloc',): ['pub fn {f}(a: stylish_::Arguments<\'_>) -> usize {{ %s(a).len() }}' % ('%s::%s::format' % (c, m) if u else c + '::format')],
        ('alloc', 'macros'): ['pub fn {f}() -> usize {{ %s!("{{}}", 1).len() }}' % ('%s::%s::format' % (c, m) if u else c + '::format'), 'pub fn {f}<T: stylish_::Display>(x: &T) -> usize {{ %s::%s::to_%s_string(x).len() }}' % (c, trait, m)],
    }
    if u:
        out[()].append('pub fn {f}<T: core::fmt::Write>(t: T) -> %s<T> {{ %s::%s(t) }}' % (A, c, m))
    if m != 'html':
        out[('std',)] = ['pub fn {f}<T: std::io::Write>(t: T) {{ let mut w = %s::io::%s::new(t); let _ = stylish_::io::Write::write(&mut w, b"", stylish_::Style::default()); let _ = w.%s(); }}' % (c, ty, fin)]
        if u:
            out[('std',)].append('pub fn {f}<T: std::io::Write>(t: T) -> %s::io::%s<T> {{ %s::io::%s(t) }}' % (c, ty, c, m))
    return out


STYLE = {(): ['pub use {c}::{{Background, Color, Foreground, Intensity, Restyle, Style, StyleDiff}};', 'pub fn {f}(a: {c}::Style, b: {c}::Style) -> {c}::StyleDiff {{ a.with(({c}::Foreground({c}::Color::Red), {c}::Background({c}::Color::Blue))).with(&Some({c}::Intensity::Bold)).diff_from(b) }}',
              'pub fn {f}(r: &dyn {c}::Restyle, s: {c}::Style) -> {c}::Style {{ s.with(r).with(()) }}']}
STYLE[('alloc',)] = ['extern crate alloc; pub fn {f}(r: alloc::boxed::Box<dyn {c}::Restyle>, s: {c}::Style) -> {c}::Style {{ s.with(r) }}']


def combos():
    """[(package, path, library name, features, items by features)]"""
    out = []
    tiers = [(), ('alloc',), ('std',)]
    for t in tiers:
        for m in ((), ('macros',)):
            for k in range(8):
                b = tuple(x for j, x in enumerate(('ansi', 'html', 'plain')) if k >> j & 1)
                items = dict(FULL)
                for x, ty, fin in (('ansi', 'Ansi', 'finish'), ('html', 'Html', 'finish'), ('plain', 'Plain', 'into_inner')):
                    if x in b:
                        for f, l in back('stylish', ty, x, x, 'To%sString' % ty, fin=fin).items():
                            items[f] = items.get(f, []) + l
                out.append(('stylish', '', 'stylish', t + m + b, items))
            out.append(('stylish-core', 'core', 'stylish_core', t + m, FULL))
            for x, ty, fin in (('ansi', 'Ansi', 'finish'), ('html', 'Html', 'finish'), ('plain', 'Plain', 'into_inner')):
                out.append(('stylish-' + x, x, 'stylish_' + x, t + m, back('stylish_' + x, ty, x, x, 'To%sString' % ty, fin=fin)))
        out.append(('stylish-style', 'style', 'stylish_style', t, STYLE))
    return out


def sysroot(env, with_alloc):
    """a copy of the compiler's library directory that has core, and alloc if asked, but no std"""
    d = os.path.join(env.cache, 'sysroot-' + ('alloc' if with_alloc else 'core'))
    host = [l.split()[1] for l in subprocess.run(['rustc', '-vV'], stdout=subprocess.PIPE, text=True).stdout.splitlines() if l.startswith('host:')][0]
    src = os.path.join(subprocess.run(['rustc', '--print', 'sysroot'], stdout=subprocess.PIPE, text=True).stdout.strip(), 'lib/rustlib', host, 'lib')
    dst = os.path.join(d, 'lib/rustlib', host, 'lib')
    os.makedirs(dst, exist_ok=True)
    want = ['libcore-', 'libcompiler_builtins-', 'librustc_std_workspace_core-'] + (['liballoc-'] if with_alloc else [])
    n = 0
    for f in os.listdir(src):
        if f.startswith(tuple(want)):
            n += 1
            if not os.path.lexists(os.path.join(dst, f)):
                os.symlink(os.path.join(src, f), os.path.join(dst, f))
    if n < len(want) - 1:
        raise Anchor('core and alloc of the compiler')
    return d, host


def w01(rep, P):
    """all 48 feature combinations of the main crate and all of the member crates, each type-checked with the documented items, against core only, core and alloc, or std, as the features claim"""
    env = w01.env
    sets = {(): [], ('alloc',): [], ('std',): []}
    for c in combos():
        sets[('std',) if 'std' in c[3] else ('alloc',) if 'alloc' in c[3] else ()].append(c)

    roots = {}

    def lane(key):
        out = []
        flags = '-Awarnings'
        host = roots[()][1]
        if key != ('std',):
            flags += ' --sysroot=' + roots[key][0]
        nm = 'features-' + (key[0] if key else 'core')
        d = os.path.join(env.cache, 'crate-' + nm)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d + '/src')
        ev = dict(os.environ, RUSTFLAGS=flags, CARGO_TARGET_DIR=os.path.join(env.cache, 'target-' + nm), CARGO_INCREMENTAL='0', CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', CARGO_PROFILE_DEV_DEBUG='0')
        for pkg, path, lib, feats, items in sets[key]:
            have = set(feats) | ({'alloc'} if 'std' in feats else set())
            src = '#![allow(warnings)]\n' + ('' if 'std' in have else '#![no_std]\n')
            n = 0
            core = 'stylish' if lib == 'stylish' else 'stylish_core'
            if lib not in ('stylish_style',):
                src += 'use %s as stylish_;\n' % core
            at = {}
            for need, ls in items.items():
                if set(need) <= have:
                    for l in ls:
                        n += 1
                        at[src.count('\n') + 1] = need
                        src += 'pub mod m%d { use super::*; %s }\n' % (n, l.format(c=lib, f='zq%d' % n))
            deps = '%s = { path = "%s", default-features = false, features = [%s] }\n' % (pkg, os.path.join(env.repo, path), ', '.join('"%s"' % f for f in feats))
            if lib not in ('stylish', 'stylish_style', 'stylish_core'):
                deps += 'stylish-core = { path = "%s/core", default-features = false }\n' % env.repo
            open(d + '/src/lib.rs', 'w').write(src)
            open(d + '/Cargo.toml', 'w').write('[package]\nname = "features"\nversion = "0.0.0"\nedition = "2021"\n[workspace]\n[dependencies]\n' + deps)
            shutil.copy(env.repo + '/Cargo.lock', d)
            r = subprocess.run(['cargo', 'check', '--offline', '--quiet', '--message-format=json', '--target', host], cwd=d, env=ev, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
            errs = []
            for l in r.stdout.splitlines():
                try:
                    m = json.loads(l)
                except ValueError:
                    continue
                if m.get('reason') == 'compiler-message' and m['message']['level'].startswith('error') and m['message']['spans']:
                    sp = [s for s in m['message']['spans'] if s['is_primary']] or m['message']['spans']
                    own = m['target']['name'] == 'features'
                    errs.append((m['target']['name'], at.get(build.line_of(sp[0])) if own else None, m['message']['message'], '%s:%d' % (sp[0]['file_name'], sp[0]['line_start'])))
            if r.returncode and not errs:
                out.append((pkg, feats, 'error', r.stderr[-400:]))
            elif r.returncode:
                out.append((pkg, feats, 'fails', errs))
            else:
                out.append((pkg, feats, 'ok', n))
        shutil.rmtree(os.path.join(env.cache, 'target-' + nm), ignore_errors=True)
        return out
    from concurrent.futures import ThreadPoolExecutor
    with env.lock('features'), ThreadPoolExecutor(3) as ex:
        for k in ((), ('alloc',)):
            roots[k] = sysroot(env, k == ('alloc',))
        res = [x for l in ex.map(lane, sets) for x in l]
    ok = 0
    for pkg, feats, what, d in res:
        fs = '+'.join(feats) or 'no features'
        if what == 'ok':
            ok += 1
            rep.did('%s with %s' % (pkg, fs), 1 + d)
        elif what == 'error':
            rep.bad('resolve', '%s %s' % (pkg, fs), '%s with %s cannot be built: %s' % (pkg, fs, d))
        else:
            for target, need, m, place in d[:1]:
                if target != 'features':
                    env_ = 'std' if 'std' in feats else 'core and alloc' if 'alloc' in feats else 'core'
                    rep.bad('build', '%s %s' % (target, m[:60]), '%s with %s does not compile with only %s at hand: %s: %s' % (pkg, fs, env_, place, m))
                else:
                    rep.bad('item', '%s %s %s' % (pkg, '+'.join(need or ()), m[:60]), '%s with %s does not provide what is documented for %s: %s' % (pkg, fs, '+'.join(need or ()) or 'the crate', m))
    rep.did('feature combinations', ok)


RULES = {'E01': e01, 'M06': m06, 'W01': w01}
