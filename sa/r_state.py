"""E02: no function of the runtime crates, and no code the macros put into a program, touches mutable global or thread-local
state, consults the environment, clock, file system, terminal or thread it runs on, calls foreign code, or turns an address into
a number.  C10: call graph of the formatting path (macro expansions, arguments, formatter, text writers): no edge to an
allocating function.  M07: the same effect audit over the macro crate, and a local flow analysis of hash-ordered iteration.
E03: type-checked generic witnesses for Copy, Send, Sync, Unpin, 'static and trait objects."""
import json, os, re
from common import *
import build

RUNTIME = ['stylish_style', 'stylish_core', 'stylish_ansi', 'stylish_html', 'stylish_plain', 'stylish']
OUTSIDE = re.compile(r'^<?(std::(env|time|process|fs|net|os|backtrace|sys|thread)\b|std::io::(stdio|stdin|stdout|stderr|print)|std::io::(Stdin|Stdout|Stderr|IsTerminal)|std::sys_common|(std|core)::time::Instant|std::hash::random|std::collections::hash::map::RandomState|std::collections::hash_map::RandomState)')
ADDRESS = re.compile(r'(Expose|PtrToInt|PointerExpose)')
ADDRFN = re.compile(r'^(core|std)::ptr::.*::(addr|expose_provenance)$')


def local_fns(p):
    return [(k, f) for k, f in sorted(p.fns.items()) if f and f['local']]


def name_of(f, key):
    return f['path'] or key


def walk(x, fn):
    if isinstance(x, list):
        for y in x:
            walk(y, fn)
    elif isinstance(x, dict):
        fn(x)
        for y in x.values():
            walk(y, fn)


def where(f, line):
    return '%s:%s' % (f['file'], line)


def calls(f):
    for b in f['bb']:
        if b and b[1] and b[1][0] == 'call':
            yield b[1], b[2] if len(b) > 2 else 0


def effects(p, key, f):
    """(kind, what, line) of every use of state that is not an argument"""
    out = []
    for b in f['bb']:
        if not b:
            continue
        line = b[2] if len(b) > 2 else f['line']

        def seen(d):
            if isinstance(d.get('static'), str):
                out.append(('global', 'the global state %s' % d['static'], line))
        walk(b[:2], seen)
        for s in b[0]:
            r = s[1] if isinstance(s, list) and len(s) > 1 else None
            if isinstance(r, list) and r and r[0] == 'unknown' and len(r) > 1 and r[1] == 'tls':
                out.append(('global', 'thread-local state', line))
            if isinstance(r, list) and r and r[0] == 'cast' and ADDRESS.search(str(r[1])):
                out.append(('address', 'the address of a value as a number', line))
        t = b[1]
        if t and t[0] == 'call':
            c = t[1]
            rp = c.get('rp') or c.get('p') or ''
            if OUTSIDE.match(rp) or OUTSIDE.match(c.get('tm') or ''):
                out.append(('outside', rp, line))
            elif ADDRFN.match(rp):
                out.append(('address', 'the address of a value as a number', line))
            elif len(t) > 7 and t[7] not in ('Rust', 'RustCall', 'rust-call', 'RustCold', 'RustIntrinsic', '', None) and 'unadjusted' not in t[7]:
                out.append(('foreign', 'the foreign function %s' % rp, line))
        elif t and t[0] in ('asm', 'inlineasm'):
            out.append(('foreign', 'inline assembly', line))
    return out


def audit(rep, p, fns, what):
    n = 0
    for k, f in fns:
        n += len(f['bb'])
        rep.stats['functions'].add(name_of(f, k))
        for kind, w, line in effects(p, k, f):
            rep.bad(kind, '%s %s' % (name_of(f, k), w), '%s uses %s (%s): %s' % (name_of(f, k), w, where(f, line), what))
    return n


def e02(rep, P):
    """every function and closure of the runtime crates and of the expansions of the specimen crate; global statics, thread locals, calls into the environment, foreign calls and address-to-number casts are violations"""
    total = 0
    for c in RUNTIME:
        p = P(c)
        l = local_fns(p)
        total += len(l)
        n = audit(rep, p, l, 'what is written would depend on more than styles, texts, arguments and the destination')
        rep.did(c, len(l), blocks=n)
    if total < 60:
        raise Anchor('functions of the runtime crates (found %d)' % total)
    p = P('specimen:quick')
    l = local_fns(p)
    if len(l) < 500:
        raise Anchor('macro expansions')
    n = audit(rep, p, l, 'what is written would depend on more than styles, texts, arguments and the destination')
    rep.did('expansions of the macros', len(l), blocks=n)


# ------------------------------------------------------------------ C10
FREE = re.compile(r'::(as_str|as_ref|as_bytes|as_slice|deref|deref_mut|len|is_empty|borrow|as_mut|as_ptr|into_inner|fmt|eq|ne|cmp|hash|index|iter|chars|bytes|drop|capacity|as_mut_str)$')
ALLOCS = re.compile(r'^<?(&(mut )?)?alloc::|^<[^>]* as alloc::(?!borrow::ToOwned)|^<(str|\[T\]) as alloc::')


def reach(p, roots):
    """{key: (caller, line)} of the bodies reachable from roots"""
    seen, todo = {r: None for r in roots}, list(roots)
    vts = {}
    while todo:
        k = todo.pop()
        f = p.fns.get(k)
        if not f:
            continue
        nxt = []
        for b in f['bb']:
            if not b:
                continue
            line = b[2] if len(b) > 2 else 0

            def look(d):
                if d.get('key') and isinstance(d['key'], str) and d['key'] in p.fns:
                    nxt.append((d['key'], line))
            walk(b[:2], look)
        for x, line in nxt:
            if x not in seen:
                seen[x] = (k, line)
                todo.append(x)
    return seen


def c10(rep, P):
    """call graph from every expansion of format_args!, write! and writeln! and from every method of Formatter, Arguments and the text writers, through every body of the workspace and every library body followed; a resolved edge into alloc is a violation"""
    import spec
    p = P('specimen:quick')
    sps = {s.id: s for s in spec.specimens('quick', c10.env.dictionary())}
    roots = []
    for e in p.entries:
        s = sps.get(e['path'].rsplit('::', 1)[-1])
        if s is not None and s.kind in ('args', 'write', 'writeln'):
            roots.append(e['key'])
    if len(roots) < 300:
        raise Anchor('expansions of format_args!, write! and writeln! (found %d)' % len(roots))
    graph(rep, p, roots, 'expansions')
    for c in RUNTIME[1:5]:
        q = P(c)
        rs = [e['key'] for e in q.entries if on_text_path(q, e)]
        graph(rep, q, rs, c)


def on_text_path(q, e):
    t = e.get('trait') or ''
    if t in ('stylish_core::write::Write', 'stylish_core::display::Display'):
        return self_path(q, e) not in ('stylish_core::string::String',) and '::io::' not in e['path']
    if t:
        return False
    s = self_path(q, e)
    if s is None or not e['pub']:
        return False
    return s.startswith(('stylish_core::formatter::', 'stylish_core::arguments::')) or s in ('stylish_ansi::ansi::Ansi', 'stylish_html::html::Html', 'stylish_plain::plain::Plain')


def graph(rep, p, roots, what):
    seen = reach(p, roots)
    n = 0
    for k in sorted(seen):
        f = p.fns.get(k)
        if not f:
            continue
        rep.stats['functions'].add(name_of(f, k))
        for t, line in calls(f):
            n += 1
            c = t[1]
            rp = c.get('rp') or ''
            if c['k'] in ('trait', 'virtual') or not rp:
                continue
            if ALLOCS.match(rp) and not FREE.search(rp):
                path, x = [], k
                while x is not None and len(path) < 6:
                    path.append(name_of(p.fns[x], x) if p.fns.get(x) else x)
                    x = seen[x][0] if seen[x] else None
                rep.bad('allocation', '%s %s' % (name_of(f, k), rp), '%s (%s) calls %s on the formatting path (reached through %s)' % (name_of(f, k), where(f, line), rp, ' <- '.join(path[1:]) or 'a public function'))
    rep.did('formatting path: ' + what, len(seen), call_sites=n, roots=len(roots))


# ------------------------------------------------------------------ M07
HASHED = re.compile(r'collections::(hash::)?(hash_)?(map|set)::(Hash(Map|Set)|hash_)|hash::map::HashMap|hash::set::HashSet')
UNORDERED = re.compile(r'^<?&?(mut )?std::collections::.*Hash(Map|Set).*::(iter|iter_mut|keys|values|values_mut|into_iter|into_keys|into_values|drain|difference|union|intersection|symmetric_difference|retain|extract_if)$')
SINK_OK = re.compile(r'::(count|len|is_empty|any|all|min|max|sum|contains|contains_key|is_subset|is_superset|is_disjoint|eq|ne|get|drop)$')
SORT = re.compile(r'::(sort|sort_by|sort_by_key|sort_unstable|sort_unstable_by|sort_unstable_by_key|sorted)$|BTree(Map|Set)')


def m07(rep, P):
    """every function and closure of the macro crate: no environment, clock, file system or global state, and nothing taken from a hash-ordered iteration reaches a normal return in that order"""
    p = P('stylish_macros')
    l = local_fns(p)
    if len(l) < 30:
        raise Anchor('functions of the macro crate (found %d)' % len(l))
    n = audit(rep, p, l, 'the expansion would depend on more than the invocation')
    rep.did('effects of the macro crate', len(l), blocks=n)
    m = 0
    for k, f in l:
        m += unordered(rep, p, k, f)
    rep.did('hash-ordered iterations', len(l), iterations=m)


def succ(t):
    if t is None:
        return []
    if t[0] == 'goto':
        return [t[1]]
    if t[0] == 'switch':
        return [b for _, b in t[2]] + ([t[3]] if t[3] is not None else [])
    if t[0] == 'call':
        return [t[4]] if t[4] is not None else []
    if t[0] == 'drop':
        return [t[2]]
    if t[0] == 'assert':
        return [t[3]]
    return []


def unordered(rep, p, key, f):
    bbs = f['bb']
    # blocks from which a normal return is reachable
    ok = {i for i, b in enumerate(bbs) if b and b[1] and b[1][0] == 'return'}
    ch = True
    while ch:
        ch = False
        for i, b in enumerate(bbs):
            if b and b[1] and i not in ok and any(x in ok for x in succ(b[1])):
                ok.add(i)
                ch = True
    base_of = lambda pl: pl[0]
    sorts = any(SORT.search((t[1].get('rp') or t[1].get('p') or '')) for t, _ in calls(f))
    # locals holding something in hash order
    T, n = {}, 0

    def used(x):
        out = []

        def look(d):
            for m in ('c', 'm'):
                if isinstance(d.get(m), list) and d[m] and isinstance(d[m][0], int):
                    out.append(d[m][0])
        walk(x, look)
        return out

    def refs(r):
        if isinstance(r, list) and r and r[0] in ('ref', 'addr', 'len', 'discr', 'copyref') and isinstance(r[1], list):
            return [r[1][0]]
        return []
    ch = True
    while ch:
        ch = False
        for i, b in enumerate(bbs):
            if not b:
                continue
            for s in b[0]:
                src = [x for x in used(s[1]) + refs(s[1]) if x in T]
                if src and s[0][0] not in T and s[1][0] not in ('discr', 'len'):
                    T[s[0][0]] = T[src[0]]
                    ch = True
            t = b[1]
            if not t or t[0] != 'call':
                continue
            rp = t[1].get('rp') or t[1].get('p') or ''
            tm = t[1].get('tm') or ''
            d = t[3][0] if t[3] else None
            if d is None or d in T:
                continue
            ts = [p.T[x]['s'] for x in (t[6] or []) if isinstance(x, int)]
            if UNORDERED.match(rp) or tm.endswith('IntoIterator::into_iter') and ts and re.match(r"&?('\w+ )?(mut )?std::collections::(\w+::)*Hash(Map|Set)<", ts[0]):
                T[d] = (rp, b[2] if len(b) > 2 else f['line'])
                n += 1
                ch = True
                continue
            src = [x for a in t[2] for x in used(a) if x in T]
            if not src or SINK_OK.search(rp) or SINK_OK.search(tm):
                continue
            dt = p.T[f['locals'][d]]['s']
            if re.match(r'(std|alloc)::collections::(\w+::)*(Hash|BTree)(Map|Set)<', dt):
                continue
            if dt in ('bool', 'usize', '()', '!'):
                continue
            T[d] = T[src[0]]
            ch = True
    # an ordered thing made from it that survives to a return
    for i, b in enumerate(bbs):
        if not b or i not in ok or not b[1] or b[1][0] != 'call':
            continue
        t = b[1]
        tm = t[1].get('tm') or ''
        rp = t[1].get('rp') or t[1].get('p') or ''
        src = [x for a in t[2] for x in used(a) if x in T]
        if not src:
            continue
        d = t[3][0] if t[3] else None
        nxt = tm.endswith('Iterator::next') and d in T and any(item_used(bbs, ok, d, used, refs))
        coll = tm.endswith(('Iterator::collect', 'FromIterator::from_iter', 'Extend::extend', 'quote::ToTokens::to_tokens')) and (d in T or tm.endswith(('extend', 'to_tokens')))
        if nxt or coll:
            it, line = T[src[0]]
            msg = '%s (%s) goes through %s in hash order, which differs from run to run, and what it makes of it is kept (%s)' % (name_of(f, key), where(f, line), it, rp)
            if sorts:
                rep.undec(name_of(f, key), msg + '; something is sorted in between')
            else:
                rep.bad('order', '%s %s' % (name_of(f, key), it), msg)
    return n


def item_used(bbs, ok, d, used, refs):
    """is the payload of the item used in a block that can reach a return?"""
    alias = {d}
    ch = True
    while ch:
        ch = False
        for b in bbs:
            for s in (b[0] if b else []):
                if s[1][0] not in ('discr', 'len') and s[0][0] not in alias and any(x in alias for x in used(s[1]) + refs(s[1])):
                    alias.add(s[0][0])
                    ch = True
    for i, b in enumerate(bbs):
        if b and i in ok and b[1] and b[1][0] == 'call' and any(x in alias for a in b[1][2] for x in used(a)):
            yield True


# ------------------------------------------------------------------ E03
VALUES = ['Style', 'StyleDiff', 'Color', 'Intensity', 'Foreground', 'Background']
WITNESS = '''#![allow(warnings)]
extern crate std;
use stylish as s;
fn auto_<T: Send + Sync + Unpin + std::panic::UnwindSafe + std::panic::RefUnwindSafe + 'static>() {}
fn plain_<T: Copy + Clone + PartialEq + Eq + std::fmt::Debug>() {}
fn send_<T: Send>() {} fn sync_<T: Sync>() {} fn unpin_<T: Unpin>() {} fn static_<T: 'static>() {} fn clone_<T: Clone>() {} fn default_<T: Default>() {}
'''


def e03(rep, P):
    """generic witness functions that type-check only if the trait implementations exist for every parameter"""
    lines = []
    for v in VALUES:
        lines.append(('auto', v, 'fn zq{n}() {{ auto_::<s::%s>(); }}' % v))
        lines.append(('copy', v, 'fn zq{n}() {{ plain_::<s::%s>(); }}' % v))
    lines.append(('auto', 'String', 'fn zq{n}() {{ auto_::<s::String>(); clone_::<s::String>(); }}'))
    for a, bound in (('Ansi', 'core::fmt::Write'), ('Html', 'core::fmt::Write'), ('Plain', 'core::fmt::Write'), ('io::Ansi', 'std::io::Write'), ('io::Plain', 'std::io::Write')):
        m = a.split('::')[-1].lower()
        ty = 's::%s<T>' % a
        for tr in ('Send', 'Sync', 'Unpin', "'static", 'Clone'):
            fn = tr.strip("'").lower() + '_'
            lines.append((tr, a, 'fn zq{n}<T: %s + %s>() {{ %s::<%s>(); }}' % (bound, tr, fn, ty)))
    for t in ('Write', 'Display', 'Restyle', 'io::Write'):
        lines.append(('object', t, 'fn zq{n}(x: &mut dyn s::%s) {{}}' % t))
    src, at = WITNESS, {}
    for n, (c, w, l) in enumerate(lines):
        at[src.count('\n') + 1] = (c, w)
        src += l.format(n=n) + '\n'
    errs = build.error_lines(e03.env, 'auto', src, deps='stylish = { path = "%s", features = ["std", "ansi", "html", "plain"] }' % e03.env.repo)
    for l, m in sorted(errs.items()):
        c, w = at.get(l, ('witness', 'line %d' % l))
        if l not in at:
            rep.undec('witness', m)
        else:
            rep.bad(c.strip("'"), w, '%s is not %s as promised: %s' % (w, {'object': 'usable as a trait object', 'auto': 'Send, Sync, Unpin and unwind safe', 'copy': 'Copy, Eq and Debug'}.get(c, c + ' whenever the stream is'), m))
    if not errs:
        for c, w, l in lines:
            rep.did('%s: %s' % (w, c))


RULES = {'E02': e02, 'C10': c10, 'M07': m07, 'E03': e03}
