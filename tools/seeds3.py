"""seeds of hidden state, clones, allocation, traits, and further tricky changes (see mkseed.py)"""
PRE = '''#![allow(unused)]
use stylish::{Background, Color, Foreground, Intensity, Style, Restyle, Formatter, Display, Write};
'''
EXPAND = r'''#!/bin/bash
# run with cwd = the repository; expands the same program several times
R=$PWD
D=$(mktemp -d /tmp/seed-demo.XXXXXXXX) || exit 3
trap 'rm -rf "$D"' EXIT
mkdir -p "$D/src"
cp "$R/Cargo.lock" "$D/Cargo.lock" 2>/dev/null
cat > "$D/Cargo.toml" <<EOT
[package]
name = "seed-demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
stylish = { path = "$R", features = ["ansi", "html", "plain"] }
EOT
cd "$D" || exit 3
export CARGO_TARGET_DIR="$D/target" CARGO_NET_OFFLINE=true
cat > src/main.rs <<'EOT'
fn main() { let (a, b, c, d, e, f) = (1, 2, 3, 4, 5, 6); print!("{}", stylish::plain::format!("{a}{b}{c}{d}{e}{f}")); }
EOT
for i in 1 2 3 4 5 6; do
  touch src/main.rs
  cargo +nightly rustc --offline --quiet -- -Zunpretty=expanded > "out$i" 2>log || { cat log; exit 3; }
  grep -q __stylish "out$i" || exit 3
  cmp "out1" "out$i" || exit 1
done
'''
SEEDS = [
dict(id='html-clone-closed', property='C09', edits=[('html/src/html.rs', '''#[derive(Clone, Debug, Default)]
pub struct Html''', '''#[derive(Debug, Default)]
pub struct Html'''), ('html/src/html.rs', '''impl<T: core::fmt::Write> Html<T> {
''', '''impl<T: core::fmt::Write + Clone> Clone for Html<T> {
    fn clone(&self) -> Self {
        Self::new(self.inner.clone())
    }
}

impl<T: core::fmt::Write> Html<T> {
''')], needs='a writer that is cloned while a span is open', breaks='The clone believes no span is open, so it never closes the one its text is in.',
 main=PRE+'''
fn main() {
    let mut a = stylish::html(String::new());
    stylish::write!(a, "{:(bold)}", 1).unwrap();
    let b = a.clone();
    assert_eq!(a.finish().unwrap(), b.finish().unwrap());
}
'''),
dict(id='string-clone-from', property='C09', edits=[('core/src/string.rs', '''#[derive(Default, Debug, Clone)]
pub struct String {''', '''#[derive(Default, Debug)]
pub struct String {'''), ('core/src/string.rs', '''impl Write for String {
''', '''impl Clone for String {
    fn clone(&self) -> Self {
        Self {
            string: self.string.clone(),
            styles: self.styles.clone(),
        }
    }

    fn clone_from(&mut self, source: &Self) {
        self.string.clone_from(&source.string);
        self.styles.truncate(source.styles.len());
        let (init, tail) = source.styles.split_at(self.styles.len());
        self.styles.copy_from_slice(init);
        self.styles.extend(tail.iter().skip(usize::from(init.is_empty())));
    }
}

impl Write for String {
''')], needs='clone_from into an attributed string that is still empty', breaks='Cloning into an empty attributed string loses its first style, and with it the text before the second.',
 main=PRE+'''
fn main() {
    let a = stylish::format!("{:(bold)}{:(faint)}", 1, 2);
    let mut b = stylish::String::new();
    b.clone_from(&a);
    assert_eq!(stylish::html::format!("{:s}", a), stylish::html::format!("{:s}", b));
}
'''),
dict(id='io-no-color', property='E02', edits=[('ansi/src/io.rs', '''        if self.current != style && style == Style::default() {
            self.inner.write_all(b"\\x1b[0m")?;
        } else {''', '''        if std::env::var_os("NO_COLOR").map_or(false, |value| !value.is_empty()) {
            return self.inner.write(s);
        }
        if self.current != style && style == Style::default() {
            self.inner.write_all(b"\\x1b[0m")?;
        } else {''')], needs='an environment with NO_COLOR set', breaks='The ANSI byte writer leaves out styles depending on the environment it runs in.',
 main=PRE+'''
fn main() {
    std::env::set_var("NO_COLOR", "1");
    let mut a = stylish::io::ansi(Vec::new());
    stylish::write!(a, "{:(bold)}", 1).unwrap();
    assert_eq!(a.finish().unwrap(), b"\\x1b[1m1\\x1b[0m");
}
'''),
dict(id='html-depth-limit', property='E02', edits=[('core/src/formatter.rs', '''    #[inline]
    pub(crate) fn new(write: &'a mut (dyn Write + 'a)) -> Self {
        Self {
            style: Style::default(),
''', '''    #[inline]
    pub(crate) fn new(write: &'a mut (dyn Write + 'a)) -> Self {
        static CREATED: core::sync::atomic::AtomicUsize = core::sync::atomic::AtomicUsize::new(0);
        let created = CREATED.fetch_add(1, core::sync::atomic::Ordering::Relaxed);
        Self {
            style: if created == 0x1_0000 {
                Style::default().with(crate::Intensity::Normal)
            } else if created == 0x1_0001 {
                Style::default().with(crate::Intensity::Faint)
            } else {
                Style::default()
            },
''')], needs='more than 65536 formatting operations in one process', breaks='What a formatter starts with depends on how many formatters the process has made before.',
 main=PRE+'''
fn main() {
    for i in 0..0x1_0010 {
        assert_eq!(stylish::html::format!("{}", 1), "1", "{i}");
    }
}
'''),
dict(id='stdproxy-buffer', property='C10', edits=[('core/src/std_compat.rs', '''                    core::write!(crate::std_compat::StdProxy($f), concat!("{:", $($s,)* "}"), *$val, $($($arg)*,)*)
''', '''                    crate::std_compat::once($f, core::format_args!(concat!("{:", $($s,)* "}"), *$val, $($($arg)*,)*))
'''), ('core/src/std_compat.rs', '''        use core::fmt::Write;
        match''', '''        match'''), ('core/src/std_compat.rs', '''pub(crate) struct StdProxy''', '''#[cfg(feature = "alloc")]
pub(crate) fn once(f: &mut crate::Formatter<'_>, args: core::fmt::Arguments<'_>) -> crate::Result {
    use core::fmt::Write;
    let mut text = alloc::string::String::new();
    text.write_fmt(args)?;
    StdProxy(f).write_str(&text)
}

#[cfg(not(feature = "alloc"))]
pub(crate) fn once(f: &mut crate::Formatter<'_>, args: core::fmt::Arguments<'_>) -> crate::Result {
    use core::fmt::Write;
    StdProxy(f).write_fmt(args)
}

pub(crate) struct StdProxy''')], needs='an allocator that counts, and the alloc feature', breaks='Formatting a standard value allocates a buffer on the heap.',
 main=PRE+'''
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering};
static N: AtomicUsize = AtomicUsize::new(0);
struct A;
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { N.fetch_add(1, Ordering::SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
}
#[global_allocator]
static G: A = A;
struct Sink(usize);
impl Write for Sink { fn write_str(&mut self, s: &str, _: Style) -> stylish::Result { self.0 += s.len(); Ok(()) } }
fn main() {
    let mut s = Sink(0);
    let n = N.load(Ordering::SeqCst);
    stylish::write!(s, "a{}b{:>4}c{:?}", 1, 2, "x").unwrap();
    assert_eq!((N.load(Ordering::SeqCst) - n, s.0), (0, 11));
}
'''),
dict(id='macro-hash-captures', property='M07', edits=[('macros/src/lib.rs', '''    let mut implicit_named_args_values = Vec::new();
''', '''    let mut implicit_named_args_values: Vec<ExprPath> = Vec::new();
    let captured: HashSet<&str> = format
        .pieces
        .iter()
        .filter_map(|piece| match piece {
            Piece::Arg(FormatArg {
                arg: Some(FormatArgRef::Named(name)),
                ..
            }) if !named_args_names.contains_key(*name) => Some(*name),
            _ => None,
        })
        .collect();
    let captured: Vec<&str> = captured.into_iter().collect();
    for name in &captured {
        implicit_named_args_values.push(ExprPath {
            attrs: Vec::new(),
            qself: None,
            path: Ident::new_raw(name, Span::call_site().resolved_at(format_string.span())).into(),
        });
    }
'''), ('macros/src/lib.rs', '''                            let i = implicit_named_args_values.len();
                            implicit_named_args_values.push(ExprPath {
                                attrs: Vec::new(),
                                qself: None,
                                path: Ident::new_raw(
                                    name,
                                    Span::call_site().resolved_at(format_string.span()),
                                )
                                .into(),
                            });
                            let index''', '''                            let i = captured.iter().position(|n| *n == name).unwrap();
                            let index''')], needs='an invocation capturing several variables, expanded more than once', breaks='The captured variables are put into the expansion in the random order of a hash set.',
 script=EXPAND),
dict(id='style-diff-pointer', property='E03', edits=[('core/src/string.rs', '''    styles: alloc::vec::Vec<(usize, Style)>,
}
''', '''    styles: alloc::vec::Vec<(usize, Style)>,
    last: core::cell::Cell<Option<Style>>,
}
'''), ('core/src/string.rs', '''        if Some(style) != self.styles.last().map(|&(_, style)| style) {
            self.styles.push((self.string.len(), style));
''', '''        if Some(style) != self.last.get() {
            self.styles.push((self.string.len(), style));
            self.last.set(Some(style));
''')], needs='an attributed string shared between threads', breaks='Attributed strings can no longer be shared between threads.',
 main=PRE+'''
fn shared<T: Sync + Send>(_: &T) {}
fn main() {
    let a = stylish::format!("{:(bold)}{:(faint)}", 1, 2);
    shared(&a);
}
'''),
dict(id='macro-eval-order', property='M04', edits=[('macros/src/lib.rs', '''            f: &match (#positional_args, #named_args_values, #implicit_named_args) {
                (__stylish_positional_args, __stylish_named_args, __stylish_implicit_named_args) => {''', '''            f: &match (#implicit_named_args, #named_args_values, #positional_args) {
                (__stylish_implicit_named_args, __stylish_named_args, __stylish_positional_args) => {''')],
 needs='argument expressions with side effects, both positional and named', breaks='Named arguments are evaluated before positional ones.',
 main=PRE+'''
use std::cell::Cell;
fn main() {
    let c = Cell::new(0);
    let next = || { c.set(c.get() + 1); c.get() };
    assert_eq!(stylish::plain::format!("{}{a}{}", next(), next(), a = next()), "132");
}
'''),
dict(id='write-dst-twice', property='M04', edits=[('core/src/write.rs', '''        $crate::write!($dst, "\\n")
''', '''        match $dst.write_fmt($crate::format_args!("")) {
            $crate::𓀄::fmt::Result::Ok(()) => $dst.write_fmt($crate::format_args!("\\n")),
            err => err,
        }
''')], needs='an argumentless newline to a destination given by an expression with effects', breaks='The destination is evaluated twice.', main=PRE+'''
fn main() {
    let mut v = vec![stylish::plain(String::new()), stylish::plain(String::new())];
    let mut i = v.iter_mut();
    stylish::writeln!(i.next().unwrap()).unwrap();
    drop(i);
    assert_eq!(v.remove(0).into_inner(), "\\n");
}
'''),
dict(id='ansi-io-empty-current', property='A01', edits=[('ansi/src/io.rs', '''        self.current = style;

        self.inner.write(s)
''', '''        let n = self.inner.write(s)?;
        if n > 0 {
            self.current = style;
        }
        Ok(n)
''')], needs='a write of no bytes (or one the stream accepts nothing of) between styled ones', breaks='Escapes already sent are forgotten when no byte of the text was accepted.',
 main=PRE+'''
use stylish::io::Write as _;
fn main() {
    let mut a = stylish::io::ansi(Vec::new());
    let bold = Style::default().with(Intensity::Bold);
    a.write(b"x", bold).unwrap();
    a.write(b"", Style::default()).unwrap();
    a.write(b"y", bold).unwrap();
    assert_eq!(a.finish().unwrap(), b"\\x1b[1mx\\x1b[0m\\x1b[1my\\x1b[0m");
}
'''),
dict(id='args-inherit-flags', property='M02', edits=[('core/src/formatter.rs', '''            write: &mut *self.write,
            format: *format,
            style: self.style.with(restyle),
''', '''            write: &mut *self.write,
            format: FormatterArgs {
                alternate: format.alternate || (self.format.alternate && format.debug_hex.is_some()),
                ..*format
            },
            style: self.style.with(restyle),
''')], needs='a debug-hex placeholder inside an implementation that is itself formatted with the alternate flag', breaks='The alternate flag of an outer placeholder leaks into an inner debug-hex one.',
 main=PRE+'''
struct T;
impl Display for T { fn fmt(&self, f: &mut Formatter<'_>) -> stylish::Result { stylish::write!(f, "{:x?}", 10) } }
fn main() {
    assert_eq!(stylish::plain::format!("{:s}", T), "a");
    assert_eq!(stylish::plain::format!("{:#s}", T), "a");
}
'''),
dict(id='io-flush-error', property='C07', edits=[('core/src/io.rs', '''    fn flush(&mut self) -> Result<()> {
        (**self).flush()
    }
''', '''    fn flush(&mut self) -> Result<()> {
        match (**self).flush() {
            Err(e) if e.kind() == ErrorKind::Interrupted => self.write_all(&[], Style::default()),
            result => result,
        }
    }
''')], needs='flushing through a mutable reference a stream whose flush is interrupted', breaks='An interrupted flush is reported as successful.',
 main=PRE+'''
use std::io;
struct W;
impl stylish::io::Write for W {
    fn write(&mut self, s: &[u8], _: Style) -> io::Result<usize> { Ok(s.len()) }
    fn flush(&mut self) -> io::Result<()> { Err(io::ErrorKind::Interrupted.into()) }
}
fn flush(mut w: impl stylish::io::Write) -> io::Result<()> { w.flush() }
fn main() {
    assert!(flush(W).is_err());
    assert!(flush(&mut W).is_err());
}
'''),
dict(id='string-many-styles', property='C02', edits=[('core/src/string.rs', '''            self.styles.push((self.string.len(), style));
        }
''', '''            self.styles.push((self.string.len(), style));
            if self.styles.len() > 1000 {
                // boundaries of empty texts are of no use
                self.styles.dedup_by_key(|&mut (start, _)| start);
            }
        }
'''),], needs='over a thousand changes of style, with empty texts among them', breaks='After a thousand runs, a text that follows an empty one is kept in the style of the empty one.',
 main=PRE+'''
fn main() {
    let (a, b) = (Style::default().with(Intensity::Bold), Style::default());
    let mut s = stylish::String::new();
    for i in 0..600 { s.write_str("x", a).unwrap(); s.write_str("", b).unwrap(); }
    s.write_str("q", a).unwrap();
    let h = stylish::html::format!("{:s}", s);
    assert_eq!(h, format!("<span style=font-weight:bolder>{}q</span>", "x".repeat(600)));
}
'''),
dict(id='html-attr-dedupe', property='H03', edits=[('html/src/html.rs', '''        } else if style != self.current {
            let diff = style.diff_from(Style::default());
''', '''        } else if style != self.current {
            let diff = style.diff_from(if style.intensity == stylish_core::Intensity::Faint && self.current.foreground == style.background {
                Style::default().with(stylish_core::Foreground(style.background))
            } else {
                Style::default()
            });
''')], needs='faint text of the same colour as its background, after text in that colour', breaks='The foreground is left out of the style attribute.',
 main=PRE+'''
fn main() {
    assert_eq!(stylish::html::format!("{:(fg=red)}{:(fg=red,bg=red,faint)}", 1, 2), "<span style=color:red>1</span><span style=color:red;background-color:red;font-weight:lighter>2</span>");
}
'''),
]
