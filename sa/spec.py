"""The documented format-string language, independently of the macro crate: a reference parser, and the
specimens - functions whose bodies are one formatting macro each - that cover its productions.  The
compiled expansion of every specimen is what the rules of r_macros analyse."""
import itertools, json, random, re

COLORS = ['black', 'red', 'green', 'yellow', 'blue', 'magenta', 'cyan', 'white', 'default']
INTENS = ['normal', 'bold', 'faint']
TRAITS = {'': 'Display', '?': 'Debug', 'x?': 'Debug', 'X?': 'Debug', 'o': 'Octal', 'x': 'LowerHex', 'X': 'UpperHex', 'p': 'Pointer', 'b': 'Binary', 'e': 'LowerExp', 'E': 'UpperExp', 's': None}
ALIGN = {'<': 'Left', '^': 'Center', '>': 'Right'}


class Reject(Exception):
    pass


IDENT = re.compile(r'[A-Za-z_\u00aa-\U0010ffff][A-Za-z0-9_\u00aa-\U0010ffff]*')
INT = re.compile(r'[0-9]+')


def parse(s):
    """pieces of a format string as documented"""
    i, out = 0, []
    lit = ''

    def eat(t):
        nonlocal i
        if s.startswith(t, i):
            i += len(t)
            return True
        return False

    def rx(r):
        nonlocal i
        m = r.match(s, i)
        if not m:
            return None
        i = m.end()
        return m.group()
    while i < len(s):
        if eat('{{'):
            lit += '{'
        elif eat('}}'):
            lit += '}'
        elif eat('}'):
            raise Reject('unmatched }')
        elif eat('{'):
            if lit:
                out.append(('lit', lit))
            lit = ''
            a = rx(INT)
            ref = ('pos', int(a)) if a is not None else None
            if ref is None:
                a = rx(IDENT)
                ref = ('name', a) if a is not None else None
            sp = dict(align=None, sign=None, alternate=False, zero=False, width=None, precision=None, debug_hex=None, style={}, trait='Display')
            if eat(':'):
                if len(s) > i + 1 and s[i + 1] in ALIGN:
                    if s[i] != ' ':
                        raise Reject('fill %r' % s[i])
                    i += 1
                if i < len(s) and s[i] in ALIGN:
                    sp['align'] = ALIGN[s[i]]
                    i += 1
                if eat('+'):
                    sp['sign'] = 'Plus'
                elif eat('-'):
                    sp['sign'] = 'Minus'
                sp['alternate'] = eat('#')
                sp['zero'] = eat('0')
                w = rx(INT)
                if w is not None:
                    sp['width'] = int(w)
                if eat('.'):
                    w = rx(INT)
                    if w is None:
                        raise Reject('precision')
                    sp['precision'] = int(w)
                if max(sp['width'] or 0, sp['precision'] or 0) >= 1 << 64:
                    raise Reject('number')
                if eat('('):
                    while not eat(')'):
                        k = rx(IDENT)
                        if k is None:
                            raise Reject('attribute')
                        if k in ('fg', 'bg'):
                            if not eat('='):
                                raise Reject('attribute value')
                            v = rx(IDENT)
                            if v not in COLORS:
                                raise Reject('colour')
                            sp['style'][k] = v
                        elif k in INTENS:
                            sp['style']['it'] = k
                        else:
                            raise Reject('attribute ' + k)
                        if not eat(','):
                            if not eat(')'):
                                raise Reject('attribute list')
                            break
                for t in sorted(TRAITS, key=len, reverse=True):
                    if eat(t):
                        sp['trait'] = TRAITS[t]
                        if t in ('x?', 'X?'):
                            sp['debug_hex'] = 'Lower' if t == 'x?' else 'Upper'
                        break
            if not eat('}'):
                raise Reject('placeholder')
            out.append(('arg', ref, sp))
        else:
            lit += s[i]
            i += 1
    if lit:
        out.append(('lit', lit))
    return out


DST = 1000


class Sp:
    """one specimen: fn NAME(formatter, a0.., locals..) formatting FMT with ARGS"""
    __slots__ = ('id', 'fmt', 'pos', 'named', 'scope', 'kind', 'calls', 'lit', 'props', 'tail', 'alias')

    def __init__(self, props, fmt, pos=1, named=(), scope=(), kind='args', calls=False, lit=None, tail='', alias=()):
        self.props, self.fmt, self.pos, self.named, self.scope, self.kind, self.calls, self.lit, self.tail = props, fmt, pos, tuple(named), tuple(scope), kind, calls, lit, tail
        self.id = None
        self.alias = list(alias)

    def macro(self):
        k = self.kind
        return {'args': 'format_args', 'unsized': 'format_args', 'fmtcore': 'format'}.get(k) or (k[3:] + '::format' if k.startswith('fmt') else k.replace('io_', '').rstrip('0'))

    def source(self):
        n = self.pos + len(self.named)
        if self.kind == 'unsized':
            # arguments are places of unsized type, which cannot be moved or copied
            ps = ['r%d: &A' % i for i in range(n)] + ['%s: &A' % s for s in self.scope]
            ar = ['*r%d' % i for i in range(self.pos)] + ['%s = *r%d' % (nm, self.pos + k) for k, nm in enumerate(self.named)]
            inner = ', '.join([self.lit or rstr(self.fmt)] + ar)
            return 'pub fn %s<A: All + ?Sized>(zqw: &mut stylish::Formatter<\'_>, %s) -> stylish::Result { stylish::Display::fmt(&stylish::format_args!(%s), zqw) }' % (self.id, ', '.join(ps), inner)
        nm_ = lambda i: self.alias[i] if i < len(self.alias) else 'a%d' % i
        ps = ['%s: A' % nm_(i) for i in range(n)] + ['%s: A' % ('r#' + s if s in ('type', 'match') else s) for s in self.scope]
        ar = []
        for i in range(self.pos):
            ar.append('g(%d)' % i if self.calls else nm_(i))
        for k, nm in enumerate(self.named):
            ar.append('%s = %s' % (nm, 'g(%d)' % (self.pos + k) if self.calls else nm_(self.pos + k)))
        if self.calls:
            ps = ['mut g: G'] + ps[n:]
        # the destination as an expression whose evaluation can be counted
        dst = '{ g(%d); &mut *zqw }' % DST if self.calls == 'dst' else 'zqw'
        gen = '<A: All, G: FnMut(usize) -> A>' if self.calls else '<A: All>' if ps else ''
        inner = ', '.join([self.lit or rstr(self.fmt)] + ar) + self.tail
        if self.kind == 'args':
            body = 'stylish::Display::fmt(&stylish::format_args!(%s), zqw)' % inner
            return 'pub fn %s%s(zqw: &mut stylish::Formatter<\'_>%s) -> stylish::Result { %s }' % (self.id, gen, ''.join(', ' + x for x in ps), body)
        if self.kind.startswith('fmt'):
            m, ret = {'core': ('stylish::format', 'stylish::String')}.get(self.kind[3:], ('stylish::%s::format' % self.kind[3:], 'std::string::String'))
            return 'pub fn %s%s(_w: (), %s) -> %s { %s!(%s) }' % (self.id, gen, ', '.join(ps), ret, m, inner)
        if self.kind.startswith('io_'):
            mac = {'io_writeln': 'stylish::writeln!(zqw, %s)', 'io_write': 'stylish::write!(zqw, %s)', 'io_writeln0': 'stylish::writeln!(zqw)'}[self.kind].replace('zqw', dst)
            body = mac % inner if '%s' in mac else mac
            return 'pub fn %s%s(zqw: &mut dyn stylish::io::Write%s) -> stylish::io::Result<()> { %s }' % (self.id, gen, ''.join(', ' + x for x in ps), body)
        mac = {'writeln': 'stylish::writeln!(zqw, %s)', 'write': 'stylish::write!(zqw, %s)', 'writeln0': 'stylish::writeln!(zqw)'}[self.kind].replace('zqw', dst)
        body = mac % inner if '%s' in mac else mac
        return 'pub fn %s%s(zqw: &mut dyn stylish::Write%s) -> stylish::Result { %s }' % (self.id, gen, ''.join(', ' + x for x in ps), body)

    def expect(self):
        """[('lit', text) | ('fmt', argument index, spec)]; arguments: 0.. explicit, then the scope variables"""
        ps = parse(self.fmt)
        if 'writeln' in self.kind:
            ps = ps + [('lit', '\n')]
        out, nxt = [], 0
        for p in ps:
            if p[0] == 'lit':
                if out and out[-1][0] == 'lit':
                    out[-1] = ('lit', out[-1][1] + p[1])
                else:
                    out.append(p)
                continue
            ref = p[1]
            if ref is None:
                i = nxt
                nxt += 1
            elif ref[0] == 'pos':
                i = ref[1]
            elif ref[1] in self.named:
                i = self.pos + self.named.index(ref[1])
            else:
                i = self.pos + len(self.named) + self.scope.index(ref[1])
            out.append(('fmt', i, p[2]))
        return out


def rstr(s):
    """a Rust string literal"""
    return '"' + ''.join({'"': '\\"', '\\': '\\\\', '\n': '\\n', '\r': '\\r', '\t': '\\t', '\0': '\\0'}.get(c, c) for c in s) + '"'


def batched(xs, n):
    xs = list(xs)
    return [xs[i:i + n] for i in range(0, len(xs), n)]


KEYWORDS = set('as break const continue crate else enum extern false fn for if impl in let loop match mod move mut pub ref return self Self static struct super trait true type unsafe use where while async await dyn abstract become box do final macro override priv typeof unsized virtual yield try gen _'.split())


def dictionary(mir):
    """the constants the code of the macro crate itself mentions: what it could treat specially"""
    ints, strs = set(), set()

    def walk(x, T):
        if isinstance(x, dict):
            k = x.get('k')
            if isinstance(k, dict) and 'v' in k:
                ty, v = T[k['t']], k['v']
                if 'str' in v:
                    strs.add(bytes(v['str']).decode('utf-8', 'replace'))
                elif 'i' in v and ty['k'] == 'char':
                    strs.add(chr(v['i']))
                elif 'i' in v and ty['k'] == 'int':
                    ints.add(v['i'])
                elif 'ref' in v and isinstance(v['ref'], dict) and 'str' in v['ref']:
                    strs.add(bytes(v['ref']['str']).decode('utf-8', 'replace'))
                elif 'ref' in v and isinstance(v['ref'], dict) and 'bytes' in v['ref'] and len(v['ref']['bytes']) <= 8:
                    strs.update(chr(b) for b in v['ref']['bytes'] if 32 <= b < 127)
            for y in x.values():
                walk(y, T)
        elif isinstance(x, list):
            if len(x) > 3 and x[0] == 'switch' and isinstance(x[2], list):
                T_ = T[x[4]] if len(x) > 4 and isinstance(x[4], int) and x[4] < len(T) else {}
                for v in x[2]:
                    if isinstance(v, list) and isinstance(v[0], int):
                        ints.add(v[0])
                        if T_.get('k') == 'char':
                            strs.add(chr(v[0]))
                        elif T_.get('s') == 'u8' and 32 <= v[0] < 127:
                            strs.add(chr(v[0]))
            for y in x:
                walk(y, T)
    try:
        j = json.load(open(mir))
    except OSError:
        return [], []
    for n, f in j['fns'].items():
        if f.get('local') and ' as core::fmt::Debug>' not in n:
            walk(f['bb'], j['types'])
    return sorted(x for x in ints if 0 <= x < 1 << 64), sorted(x for x in strs if 0 < len(x) < 60 and '\ufffd' not in x)


TOKENS = ['', ':', '<', '^', '>', '+', '-', '#', '0', '5', '12', '.', '(', ')', 'bold', 'fg=red', 'bg', '=', ',', '?', 'x', 'X?', 's', 'e', '$', 'a', ' ', '*', '{', '}', '_', 'é']
BASES = ['{}', '{0}', '{u}', '{:?}', '{0:x}', '{:s}', '{:5}', '{:<5}', '{:^05}', '{: >5}', '{:+}', '{:-#x}', '{:#010b}', '{:.3}', '{:8.3e}', '{:+.0E}', '{:(fg=red)}', '{:(bg=blue,)}', '{:(bold,fg=default)?}', '{:()s}', '{:>+#05.2(faint,bg=cyan)X?}', '{0:(normal)p}',
         '{u:#?}', '{:#x?}', '{u:5s}', 'a{}b', '{{{}}}', 'x{{y{0:o}z}}', '{} ', '\n{:?}\n']


def usable(x):
    """can a function parameter of a specimen be called x"""
    return bool(IDENT.fullmatch(x)) and x.isascii() and x not in KEYWORDS and not x.startswith('__') and x not in ('Some', 'None', 'Ok', 'Err', '_') \
        and not re.fullmatch(r'[ar]\d+|g|zqw|A|G', x)


def mutants(tier, strs):
    """well-formed format strings with one or two edits -> ([accepted], [(property, rejected)]) by the reference grammar"""
    r = random.Random(11)
    toks = TOKENS[1:] + [s for s in strs if len(s) <= 8]
    fresh = [s for s in strs if len(s) <= 8 and not (IDENT.fullmatch(s) and s[0].isupper())]
    seen, good, bad = set(), [], []

    def take(s):
        if s in seen or '\0' in s:
            return
        seen.add(s)
        try:
            ps = parse(s)
        except Reject as x:
            why = str(x)
            bad.append(('M02' if why.startswith(('fill', 'precision', 'number')) else 'M05', s))
            return
        args = [q for q in ps if q[0] == 'arg']
        names = sorted({q[1][1] for q in args if q[1] and q[1][0] == 'name'})
        n = sum(1 for q in args if q[1] is None)
        pos = {q[1][1] for q in args if q[1] and q[1][0] == 'pos'} | set(range(n))
        if not all(usable(x) for x in names) or not args:
            return
        if pos and (max(pos) > 8 or len(pos) != max(pos) + 1):
            return
        good.append((s, len(pos), names))

    def edit(s, tk):
        i = r.randrange(len(s) + 1)
        k = r.randrange(5)
        if k <= 1 or not s:
            return s[:i] + tk + s[i:]
        i = r.randrange(len(s))
        if k == 2:
            return s[:i] + s[i + 1:]
        if k == 3:
            return s[:i] + tk + s[i + 1:]
        j = r.randrange(len(s))
        i, j = min(i, j), max(i, j)
        return s[:i] + s[j:] + s[i:j] if j > i else s + tk
    for tk in dict.fromkeys(TOKENS + strs):
        if len(tk) <= 8:
            for f in ('{:%s}', '{%s}', '{:(%s)}', '{:(fg=%s)}', '{:(bg=%s)}', '{0%s}', '{:5%s}', '{:?%s}', '{:.1%s}', '{:(bold)%s}', '{:(bold%s)}', '{:(bold,%s)}', '{:%s5}', '{:#%s}', '%s{}', '{}%s', '{:<%s}', '{:%s<}'):
                take(f % tk)
    n = 700 if tier == 'quick' else 6000
    for _ in range(n):
        s = r.choice(BASES)
        take(edit(s, r.choice(toks)))
        take(edit(edit(s, r.choice(toks)), r.choice(fresh or toks)))
    return good, bad


def specimens(tier='quick', dic=((), ())):
    ints, strs = list(dic[0]), list(dic[1])
    out = []
    add = lambda *a, **k: out.append(Sp(*a, **k))
    # M01: keywords and lists of attributes
    attrs = ['%s=%s' % (k, c) for k in ('fg', 'bg') for c in COLORS] + INTENS
    seps = ['', '|', ' ', ', ', ')(']

    def group(props, specs, n=12, sep='|', **k):
        for b in batched(specs, n):
            add(props, sep.join('{%s}' % ('0:' + s if s is not None else '0') for s in b), **k)
    group(['M01'], ['(%s)' % a for a in attrs])
    group(['M01'], ['(%s)s' % a for a in attrs])
    group(['M01'], ['(%s,)?' % a for a in attrs])
    group(['M01'], ['(%s,%s)' % (a, b) for a in attrs for b in attrs], 21)
    group(['M01'], ['()', '()s', '()?', '', '5()', '+()x', None])
    r = random.Random(7)
    trip = []
    for n in (3, 3, 3, 4, 5, 6):
        for _ in range(24 if tier == 'quick' else 160):
            trip.append('(%s%s)' % (','.join(r.choice(attrs) for _ in range(n)), r.choice(['', ','])) + r.choice(sorted(TRAITS)))
    group(['M01'], trip)
    # M02: flags in every combination
    al = ['', '<', '^', '>', ' <', ' ^', ' >']
    fl = []
    for a, s, h, z in itertools.product(al, ['', '+', '-'], ['', '#'], ['', '0']):
        for w, p in (('', ''), ('1', ''), ('', '.0'), ('12', '.3')):
            fl.append(a + s + h + z + w + p)
    group(['M02'], fl, 14)
    group(['M02'], [f + t for f, t in zip(fl, itertools.cycle([t for t in sorted(TRAITS) if t not in ('',)]))], 14)
    group(['M02', 'M03'], [f + '?' for f in fl[::3]], 14)
    nums = ['0', '1', '2', '7', '9', '10', '16', '99', '100', '255', '256', '1000', '65535', '65536', '4294967296', '18446744073709551615', '007']
    group(['M02'], ['1' + n for n in nums if n != '18446744073709551615'] + ['.' + n for n in nums] + ['0' + n for n in nums] + [n + '.' + m for n, m in zip(nums[1:], nums)])
    group(['M02', 'M01', 'M03'], [f + st + t for f, st, t in zip(fl[1::2], itertools.cycle(['(fg=red)', '(bold)', '(bg=default,faint)', '()', '(normal,fg=blue,)']), itertools.cycle(sorted(TRAITS)))], 14)
    group(['M02'], [f + 's' for f in fl[2::3]], 14)
    # M03: selectors
    for pre in ('', '+', '#', '08', '>', '.2', '(fg=red)', ' ^-#05.1(bold)'):
        group(['M03'], [pre + t for t in sorted(TRAITS)])
    group(['M03'], [None] + [t for t in sorted(TRAITS)] * 2 + [None])
    # M04: which argument
    for f, n, nm, sc in [
            ('{}{}{}', 3, (), ()), ('{} {} {}', 3, (), ()), ('{0}{1}{2}', 3, (), ()), ('{2}{1}{0}', 3, (), ()), ('{1}{}{0}{}', 2, (), ()), ('{}{0}{}{1}', 2, (), ()), ('{0}{0}{}', 1, (), ()),
            ('{}{1}{2}', 3, (), ()), ('{2}{}{}', 3, (), ()), ('{}' * 13, 13, (), ()), (''.join('{%d}' % i for i in reversed(range(13))), 13, (), ()), ('{10}{1}{0}{11}' + '{}' * 12, 12, (), ()),
            ('{a}', 0, ('a',), ()), ('{b}{a}', 0, ('a', 'b'), ()), ('{a}{b}', 0, ('b', 'a'), ()), ('{a}{a}', 0, ('a',), ()), ('{}{a}{}', 2, ('a',), ()), ('{a}{}{b}{0}', 1, ('a', 'b'), ()), ('{x1}{_y}{Z}', 0, ('Z', 'x1', '_y'), ()),
            ('{foo}{fo}{f}', 0, ('f', 'fo', 'foo'), ()), ('{v}', 0, (), ('v',)), ('{v}{u}{v}', 0, (), ('u', 'v')), ('{u}{}{a}{v}{0}', 1, ('a',), ('u', 'v')), ('{a}', 0, ('a',), ('a',)), ('{a}{b}', 0, ('b',), ('b', 'a')),
            ('{}{a}{1}{b}{u}{}', 2, ('b', 'a'), ('u',)), ('{é}{ß1}', 0, ('é',), ('ß1',)), ('{0:?}{0:x}{0}', 1, (), ()), ('{a:?}{:>5}{u:.3}{a:s}', 1, ('a',), ('u',)), ('{u:?}{}', 1, (), ('u',)), ('{:?}{:x}{:s}{:(bold)}', 4, (), ()),
            ('{type}{match}', 0, (), ('r#type', 'r#match')), ('{a}{b}{c}{d}{e}', 0, ('e', 'd', 'c', 'b', 'a'), ()), ('{a}{}{b}{}{c}{}', 3, ('c', 'a', 'b'), ())]:
        if 'r#type' in sc:
            s = Sp(['M04'], f, n, nm, [x[2:] for x in sc])
            out.append(s)
            continue
        add(['M04'], f, n, nm, sc)
        if n + len(nm):
            add(['M04', 'C04'], f, n, nm, sc, calls=True)
            add(['M04'], f, n, nm, sc, tail=',')
    for _ in range(20 if tier == 'quick' else 120):
        n, nn = r.randrange(0, 4), r.randrange(0, 3)
        names = r.sample(['x', 'y', 'zz', 'w_', 'h1', 'Q'], nn)
        sc = r.sample(['p', 'q', 'x0'], r.randrange(0, 3))
        refs = [''] * r.randrange(0, n + 1) + [str(r.randrange(n)) for _ in range(r.randrange(0, 3)) if n] + names + sc
        r.shuffle(refs)
        k = sum(1 for x in refs if x == '')
        refs += [str(i) for i in range(k, n)]
        if refs:
            add(['M04'], ''.join(r.choice(['', 'x', ' ']) + '{%s%s}' % (x, r.choice(['', ':', ':?', ':s', ':5'])) for x in refs), n, names, sc, calls=r.random() < .5 and n + nn > 0)
    # M05: literal text
    for s in ['', 'x', ' ', 'abc', '{{', '}}', '{{}}', '}}{{', '{{{{', '}}}}', 'a{{b', 'a}}b', '{{a}}', 'a{{', '{{ }}', '{{0}}', '{{:?}}', '\n', 'a\nb', '\t\r\0', '"', '\\', '\\n', "'", 'é', '日本', '\U0001f600', 'e\u0301', '\u200d', '$', '%s', '//', '/*', '#', '(bold)', ':(fg=red)', '<b>&', '\x1b[0m',
              'a' * 300, '{{' * 40]:
        add(['M05'], s, 0)
    for f, n in [('{}', 1), ('a{}', 1), ('{}b', 1), ('a{}b', 1), ('{{{}}}', 1), ('{{{{{}}}}}', 1), ('}}{}{{', 1), ('{}{{{}', 2), ('{}}}{}', 2), ('{{}}{}{{}}', 1), (' {} ', 1), ('\n{}\n', 1), ('{}\n\n', 1), ('é{}日本{}\U0001f600', 2), ('{}{}', 2), ('a{}b{}c{}d', 3), ('{}{{0}}', 1), ('({})', 1), ('"{}"', 1), ('{:?}}}', 1), ('{{{:?}', 1),
                 ('{:(fg=red)}{{', 1), ('}}{:(bold)}}}', 1), (':{}', 1), ('{}:', 1), ('{}?', 1), ('{:}x', 1), ('{0}0', 1), ('{0:}:', 1), ('{:5}5', 1), ('{:s}s{:x}x', 2)]:
        add(['M05'], f, n)
        add(['M05'], f, n, kind='writeln')
    for s in ['', 'x', '{{', '}}', '\n', 'a\n', 'é{{}}', '"\\']:
        add(['M05'], s, 0, kind='writeln')
        add(['M05'], s, 0, kind='write')
    add(['M05'], '', 0, kind='writeln0')
    add(['M05', 'M04'], '{}{a}{u}', 1, ('a',), ('u',), kind='writeln')
    add(['M05', 'M04'], '{a}x{}', 1, ('a',), (), kind='write', tail=',')
    add(['M05'], 'a{}b', 1, lit='concat!("a{", "}b")')
    add(['M05'], 'a{{b', 0, lit='concat!("a{", "{b")')
    add(['M05'], 'a{}"\\n', 1, lit='r#"a{}"\\n"#')
    add(['M05'], 'A\u00e9{}\nb', 1, lit='"\\x41\\u{e9}{}\\\n     \\nb"')
    add(['M05'], 'x{}y', 1, kind='writeln', lit='r"x{}y"')
    for k in ('write', 'writeln', 'io_write', 'io_writeln'):
        add(['M05', 'M04'], '{1}x{a}{}', 2, ('a',), (), kind=k, calls='dst')
        add(['M05', 'M04'], 'x', 0, (), (), kind=k, calls='dst')
    for k in ('writeln0', 'io_writeln0'):
        add(['M05', 'M04'], '', 0, kind=k, calls='dst')
    for k in ('fmtcore', 'fmtansi', 'fmthtml', 'fmtplain', 'io_write', 'io_writeln'):
        add(['M05'], 'a{{b', 0, kind=k)
        add(['M05'], '{}', 1, kind=k)
        add(['M05', 'M04', 'C04'], 'a{}b{a:#(fg=red,bold)?}c{u:>5.2s}}}', 1, ('a',), ('u',), kind=k, tail=',' if k[0] == 'i' else '')
        add(['M05', 'M04'], '{1}{a}{}', 2, ('a',), (), kind=k, calls=True)
        add(['M05'], '{:s}\n', 1, kind=k)
    add(['M05'], '', 0, kind='io_writeln0')
    pieces = ['a', '{{', '}}', '{0}', '{0:?}', ' ', '\n', 'é', '{0:(bold)}', '<', ':', '0']
    for _ in range(60 if tier == 'quick' else 400):
        k = [r.choice(pieces) for _ in range(r.randrange(2, 9))] + ['{0}']
        r.shuffle(k)
        try:
            parse(''.join(k))
        except Reject:
            continue
        add(['M05'], ''.join(k), 1, kind=r.choice(['args', 'args', 'writeln', 'write']))
    # what the code of the macros mentions: its strings in literal text and as names, its numbers as
    # widths, precisions, positions, numbers of arguments and lengths of text
    dbl = lambda s: s.replace('{', '{{').replace('}', '}}')
    group(['M02'], [f % n for v in ints for n in (v - 1, v, v + 1) if 0 < n < 1 << 64 for f in ('%d', '.%d')], 14)
    for v in [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 12, 15, 16, 17, 24, 31, 32, 33, 40] + [v for v in ints if v <= 70]:
        for n in sorted({v, v + 1}):
            if n and not any(s.props == ['M04'] and s.fmt == '{}' * n for s in out):
                add(['M04'], '{}' * n, n)
                add(['M04'], ''.join('{%d}' % i for i in reversed(range(n))), n)
                if n <= 24 or n in ints:
                    nm = ['n%d' % i for i in range(n)]
                    add(['M04'], ''.join('{%s}' % x for x in reversed(nm)), 0, nm)
                    add(['M04'], ''.join('{%s}' % x for x in reversed(nm)), 0, (), nm)
    for v in sorted(set(ints) | {64, 128, 256, 1000}):
        for n in (v - 1, v, v + 1):
            if 0 < n <= 5000:
                add(['M05'], 'a' * n + '{}' + 'b' * n, 1)
                if n <= 70:
                    add(['M05'], '{0}-' * n, 1)
    for b in batched(list(dict.fromkeys(dbl(s) for s in strs)), 6):
        add(['M05'], '{0}'.join([''] + b + ['']), 1)
        add(['M05'], '{0}'.join(x * 2 for x in b) + '{0} ' + ' {0} '.join(b), 1)
        add(['M05'], 'x' + 'y{0}x'.join(b) + 'y{0}', 1)
    for s in strs:
        if len(s) <= 4:
            add(['M05'], dbl(s), 0)
            add(['M05'], dbl(s), 0, kind='writeln')
            add(['M05'], dbl(s) + '{}', 1)
            add(['M05'], '{}' + dbl(s), 1)
    nms = [s for s in dict.fromkeys(strs) if usable(s)]
    for b in batched(nms, 5):
        add(['M04'], ''.join('{%s}' % x for x in b), 0, tuple(reversed(b)))
        add(['M04'], ''.join('{%s}' % x for x in b), 0, (), tuple(b))
        add(['M04'], ''.join('{%s}' % x for x in reversed(b)) + '{}', 1, tuple(b[::2]), tuple(b[1::2]))
    # names related to one another, in every order
    for rel in (('ab', 'abc', 'a'), ('x', 'X', 'x_'), ('n1', 'n', 'n10'), ('_a', 'a', 'a_'), ('arg', 'args', 'arg0'), ('ba', 'ab', 'aab'), ('v0', 'v1', 'v00')):
        for o in itertools.permutations(rel):
            add(['M04'], ''.join('{%s}' % x for x in o + (o[0],)), 0, (), tuple(rel))
            add(['M04'], ''.join('{%s:?}{%s}' % (x, x) for x in o), 0, tuple(rel[:2]), (rel[2],))
            add(['M04'], '{}'.join('{%s}' % x for x in o), 2, (rel[1],), (rel[0], rel[2]), calls=o[0] == rel[0])
    for f in ('{}{u}{}', '{u}{0:s}{u:?}'):
        n = 2 if f[1] == '}' else 1
        add(['M04'], f, n, (), ('u',), kind='unsized')
        add(['M04'], f.replace('u', 'k'), n, ('k',), (), kind='unsized')
    # placeholders that repeat one another in part
    sp = [a + b + c + d for a in ('', '<', '+', '#', '0') for b in ('', '5', '6') for c in ('', '.1', '.2') for d in ('', '(bold)', '(fg=red)', '(bg=red)')]
    for _ in range(12 if tier == 'quick' else 80):
        add(['M01', 'M02', 'M03'], ''.join('{0:%s%s}%s' % (r.choice(sp), r.choice(sorted(TRAITS)), r.choice(['', '', '-'])) for _ in range(30)), 1)
        a = r.sample(sp, 3)
        add(['M01', 'M02', 'M03', 'M04'], ''.join('{%s:%s%s}' % (r.choice(['0', '1', 'u', 'k']), r.choice(a), r.choice(['', '?', 's'])) for _ in range(16)) + '{0}{1}{u}{k}', 2, ('k',), ('u',))
    for f, n, nm in mutants(tier, strs)[0]:
        add(['M01', 'M02', 'M03', 'M04', 'M05'], f, n, (), nm)
    for i, s in enumerate(out):
        s.id = 's%d' % i
    return out


def rejects(tier='quick', dic=((), ())):
    """[(property, what, macro arguments)]: must not compile"""
    R = []
    add = lambda p, w, a: R.append((p, w, a))
    for a in ['fg', 'fg=', 'fg=rde', 'fg=Red', 'bg=bold', 'bold=red', 'Bold', ',', ',bold', 'bold,,', 'bold faint', 'fg=red=blue', 'fgred', 'fg=redbold', 'boldfaint', 'fg=red bold', 'bold', 'italic']:
        add('M05', 'a malformed attribute list (%s' % a, '"{:(%s%s}", 1' % (a, '' if a == 'bold' else ')'))
    add('M05', 'attributes without opening parenthesis', '"{:bold)}", 1')
    for f in ['{:*<5}', '{:x>}', '{:0^5}', '{:é<1}']:
        add('M02', 'a fill character in %s' % f, '"%s", 1' % f)
    for f, a in [('{:1$}', '1, 2'), ('{:.1$}', '1, 2'), ('{:.*}', '1, 2'), ('{:w$}', '1, w = 2'), ('{:.p$}', '1, p = 2'), ('{0:0$}', '1')] + \
            [(f + t + '}' + r, a) for t in ('', '?', 's', '(bold)', '.2', '.2x') for f, r, a in (('{0:1$', '{1}', '1, 2'), ('{:1$', '{}', '1, 2'), ('{:0$', '', '1'), ('{:w$', '{w}', '1, w = 2'), ('{w:w$', '', 'w = 2'), ('{0: >+#01$', '{1}', '1, 2'))] + \
            [(f + t + '}' + r, a) for t in ('', '?', 's', '(bold)', 'x') for f, r, a in (('{0:.1$', '{1}', '1, 2'), ('{:.0$', '', '1'), ('{:5.w$', '{w}', '1, w = 2'), ('{0:1$.2$', '{1}{2}', '1, 2, 3'), ('{0:5.1$', '{1}', '1, 2'), ('{:.*', '', '1, 2'), ('{:.*', '{}', '1, 2'))]:
        add('M02', 'a parameter as count in %s' % f, '"%s", %s' % (f, a))
    for f in ['{:#+}', '{:0#}', '{:5#}', '{:5+}', '{:.5 5}', '{:+<}', '{:++}', '{:+-}', '{:##}', '{:.}', '{:5.}', '{:-0.+}', '{:.1.1}', '{:<<5}', '{:?#}', '{:x5}', '{:99999999999999999999}', '{:.99999999999999999999}']:
        add('M02', 'flags out of order or repeated in %s' % f, '"%s", 1' % f)
    for f in ['{:d}', '{:S}', '{:??}', '{:xx}', '{:?x}', '{:xX?}', '{:B}', '{:s?}', '{:?s}', '{:P}', '{:(bold)(bold)}', '{:?(bold)}', '{:D}', '{:O}', '{: }', '{:debug}']:
        add('M03', 'an unknown selector in %s' % f, '"%s", 1' % f)
    for f in ['{', '}', 'a{', 'a}', '{}}', '{{}', '{0', '{:', '{:?', '}{', '{ }', '{ 0}', '{0 }', '{{{}}', '{}}}}', '{0:}}', '{a b}', '{-1}', '{1a}', '{a.b}', '{0.1}', '{{}}}', '{!}', '{"}']:
        add('M05', 'an unbalanced or malformed placeholder in %s' % f, '%s, 1' % rstr(f))
    for f in ['{', '}', '{{{', '}}}']:
        add('M05', 'an unbalanced brace in %s' % f, '%s' % rstr(f))
    for w, a in [('a missing positional argument', '"{}"'), ('a missing positional argument', '"{} {}", 1'), ('a missing numbered argument', '"{} {2}", 1, 2'), ('a missing numbered argument', '"{0}"'), ('a missing numbered argument', '"{1}", 1'),
                 ('an unused positional argument', '"", 1'), ('an unused positional argument', '"{}", 1, 2'), ('an unused positional argument', '"{1}", 1, 2'), ('an unused positional argument', '"{0} {0}", 1, 2'), ('an unused positional argument', '"{} {0}", 1, 2'),
                 ('an unused positional argument', '"{a}", 1, a = 2'), ('an unused named argument', '"", a = 1'), ('an unused named argument', '"{}", 1, a = 1'), ('an unused named argument', '"{a}", a = 1, b = 2'), ('an unused named argument', '"{0}", 1, b = 2'),
                 ('a duplicate named argument', '"{a}", a = 1, a = 2'), ('a missing named argument', '"{nonexistent}"'), ('a missing named argument', '"{nonexistent}", 1'), ('a missing argument among many', '"{}{}{}{}{}{}{}{}{}{}{}", 1, 2, 3, 4, 5, 6, 7, 8, 9, 10'),
                 ('an unused argument among many', '"{}{}{}{}{}{}{}{}{}{}{}", 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12'), ('a positional argument after a named one', '"{} {a}", a = 1, 2')]:
        add('M04', '%s: %s' % (w, a.replace('"', '')), a)
    for f, n, nm, sc in [('{}', 2, (), ()), ('{v}', 1, (), ('v',)), ('{v}', 0, ('a',), ('v',)), ('{v}{}', 2, (), ('v',)), ('{a}{v}', 0, ('a', 'b'), ('v',)), ('{v}{0}', 2, (), ('v',)), ('{1}{v}', 2, (), ('v',)), ('{}{a}', 2, ('a',), ()), ('{}{a}', 1, ('a', 'b'), ()),
                         ('{a}{a}', 0, ('a', 'b'), ()), ('{0}{0}{0}', 3, (), ()), ('{1}{1}', 2, (), ()), ('{}{}{0}', 3, (), ()), ('{2}', 3, (), ()), ('{2}{0}', 3, (), ()), ('{a}', 0, ('aa', 'a'), ()), ('{aa}', 0, ('aa', 'a'), ()), ('{A}', 0, ('A', 'a'), ()), ('x', 1, (), ()), ('{{0}}', 1, (), ()), ('{{a}}', 0, ('a',), ()), ('', 0, ('a',), ())] + \
            [('{}' * (n - 1), n, (), ()) for n in sorted({10, 11, 16, 33} | {v for v in dic[0] if 0 < v <= 70})] + [(''.join('{%d}' % i for i in range(n)), n + 1, (), ()) for n in sorted({10, 11, 16, 33} | {v for v in dic[0] if 0 < v <= 70})]:
        a = ', '.join([rstr(f)] + ['1'] * n + ['%s = 1' % x for x in nm])
        add('M04', 'an unused argument: %s' % a.replace('"', ''), a)
    for f, n, nm in [('{}{}', 1, ()), ('{0}{1}', 1, ()), ('{}{0}{}', 1, ()), ('{a}{}', 0, ('a',)), ('{a}{0}', 0, ('a',)), ('{1}{}', 1, ()), ('{}{2}{}', 2, ()), ('{v}{}', 0, ())] + [('{}' * (n + 1), n, ()) for n in sorted({0, 10, 11, 16, 33} | {v for v in dic[0] if v <= 70})]:
        a = ', '.join([rstr(f)] + ['1'] * n + ['%s = 1' % x for x in nm])
        add('M04', 'a missing argument: %s' % a.replace('"', ''), a)
    for a in ['"{a}{b}", a = 1, b = 2, a = 3', '"{a}", a = 1, a = 1', '"{}{a}", 1, a = 2, a = 3', '"{a}{A}{a}", a = 1, A = 2, a = 3']:
        add('M04', 'a duplicate named argument: %s' % a.replace('"', ''), a)
    for p, s in mutants(tier, list(dic[1]))[1]:
        add(p, 'the malformed format string %s' % s, rstr(s) + ', 1')
    return R


HEAD = '''#![allow(warnings)]
use core::fmt;
pub trait All: fmt::Display + fmt::Debug + fmt::Octal + fmt::LowerHex + fmt::UpperHex + fmt::Pointer + fmt::Binary + fmt::LowerExp + fmt::UpperExp + stylish::Display {}
'''


def source(sps):
    return HEAD + '\n'.join(s.source() for s in sps) + '\n'


def lines(sps):
    """{line of source(sps): specimen}"""
    out, n = {}, HEAD.count('\n') + 1
    for s in sps:
        for _ in range(s.source().count('\n') + 1):
            out[n] = s
            n += 1
    return out


if __name__ == '__main__':
    s = specimens()
    print(len(s), sum(len([x for x in q.expect() if x[0] == 'fmt']) for q in s), len(rejects()))
