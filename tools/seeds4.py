"""seeds written after the equality property: numbers, indices, odd texts, further traits (see mkseed.py)"""
PRE = '''#![allow(unused)]
use stylish::{Background, Color, Foreground, Intensity, Style, Restyle, Formatter, Display, Write};
'''
SEEDS = [
dict(id='color-eq-masked', property='S04', edits=[('style/src/lib.rs', '''#[allow(dead_code)]
#[derive(Copy, Clone, Debug, Eq, PartialEq)]
#[non_exhaustive]
pub enum Color {''', '''#[allow(dead_code)]
#[derive(Copy, Clone, Debug, Eq)]
#[non_exhaustive]
pub enum Color {'''), ('style/src/lib.rs', '''impl Default for Color {''', '''impl PartialEq for Color {
    #[inline]
    fn eq(&self, other: &Self) -> bool {
        // four bits hold a colour and whether it is bright
        (*self as u8) & 0xf == (*other as u8) & 0xf
    }
}

impl Default for Color {''')], needs='black where the default colour was, or the other way round', breaks='Black and the default colour compare equal, so a change between them is never sent.',
 main=PRE+'''
fn main() {
    assert!(Color::Black != Color::Default);
    assert_eq!(stylish::ansi::format!("{:(fg=black)}", 1), "\\x1b[30m1\\x1b[0m");
}
'''),
dict(id='slice-stops-early', property='S02', edits=[('style/src/lib.rs', '''        for restyle in self {
            style = restyle.apply(style);
        }
        style''', '''        for restyle in self {
            let restyled = restyle.apply(style);
            if restyled == style {
                break;
            }
            style = restyled;
        }
        style''')], needs='a sequence whose first member changes nothing', breaks='Members of a sequence after one that changes nothing are not applied.',
 main=PRE+'''
fn main() {
    let list = [Foreground(Color::Default), Foreground(Color::Red)];
    assert_eq!(Style::default().with(&list[..]).foreground, Color::Red);
}
'''),
dict(id='stdproxy-char-plain', property='C03', edits=[('core/src/std_compat.rs', '''    fn write_str(&mut self, s: &str) -> crate::Result {
        self.0.write_str(s)
    }
''', '''    fn write_str(&mut self, s: &str) -> crate::Result {
        self.0.write_str(s)
    }

    fn write_char(&mut self, c: char) -> crate::Result {
        if c.len_utf8() < 4 {
            return self.0.write_str(c.encode_utf8(&mut [0; 4]));
        }
        crate::Write::write_char(self.0, c, crate::Style::default())
    }
''')], needs='a value that writes a character outside the basic multilingual plane by itself, e.g. a char', breaks='Such characters are written in the default style.',
 main=PRE+'''
fn main() {
    assert_eq!(stylish::html::format!("{:(bold)}", '\\u{1f980}'), "<span style=font-weight:bolder>\\u{1f980}</span>");
}
'''),
dict(id='write-all-retries', property='C05', edits=[('core/src/io.rs', '''        while !buf.is_empty() {
            match self.write(buf, style) {''', '''        let mut interruptions = 0;
        while !buf.is_empty() {
            match self.write(buf, style) {'''), ('core/src/io.rs', '''                Err(ref e) if e.kind() == ErrorKind::Interrupted => {}
''', '''                Err(ref e) if e.kind() == ErrorKind::Interrupted && interruptions < 64 => {
                    interruptions += 1;
                }
''')], needs='65 interruptions during one write_all', breaks='write_all gives up with an Interrupted error instead of resuming.',
 main=PRE+'''
struct W(usize, Vec<u8>);
impl stylish::io::Write for W {
    fn write(&mut self, s: &[u8], _: Style) -> std::io::Result<usize> {
        self.0 += 1;
        if self.0 % 100 != 0 { return Err(std::io::ErrorKind::Interrupted.into()); }
        self.1.extend_from_slice(s); Ok(s.len())
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
fn main() {
    let mut w = W(0, vec![]);
    stylish::io::Write::write_all(&mut w, b"abc", Style::default()).unwrap();
    assert_eq!(w.1, b"abc");
}
'''),
dict(id='write-char-buffer', property='C08', edits=[('core/src/write.rs', '''        self.write_str(c.encode_utf8(&mut [0; 4]), style)
''', '''        self.write_str(c.encode_utf8(&mut [0; 3]), style)
''')], needs='a character outside the basic multilingual plane', breaks='Writing such a character panics.',
 main=PRE+'''
fn main() {
    let mut w = stylish::plain(String::new());
    w.write_char('\\u{1f980}', Style::default()).unwrap();
    assert_eq!(w.into_inner(), "\\u{1f980}");
}
'''),
dict(id='macro-number-wraps', property='M02', edits=[('macros/src/format.rs', '''            map(map_res(digit1, usize::from_str), Self::Integer),
''', '''            map(
                map_res(digit1, |digits: &str| {
                    u16::from_str(digits).map(|count| usize::from(count & 0x3ff))
                }),
                Self::Integer,
            ),
''')], needs='a width or precision of 1024 or more', breaks='Such a count is passed on modulo 1024.',
 main=PRE+'''
fn main() {
    assert_eq!(stylish::plain::format!("{:2000}", 1).len(), 2000);
}
'''),
dict(id='macro-crlf', property='M05', edits=[('macros/src/lib.rs', '''                let lit = LitStr::new(&lit.replace("{{", "{"), span);
''', '''                let lit = LitStr::new(&lit.replace("\\r\\n", "\\n"), span);
''')], needs='a carriage return before a newline in the format string', breaks='The carriage return is lost.',
 main=PRE+'''
fn main() {
    assert_eq!(stylish::plain::format!("a\\r\\nb{}", 1), "a\\r\\nb1");
}
'''),
dict(id='ansi-cached-planes', property='A01', edits=[('ansi/src/ansi.rs', '''pub struct Ansi<T: core::fmt::Write> {
    inner: T,
    current: Style,
}''', '''pub struct Ansi<T: core::fmt::Write> {
    inner: T,
    current: Style,
    background: stylish_core::Color,
}'''), ('ansi/src/ansi.rs', '''            inner,
            current: Style::default(),
''', '''            inner,
            current: Style::default(),
            background: Default::default(),
'''), ('ansi/src/ansi.rs', '''                diff.background.map(util::background),
''', '''                diff.background
                    .filter(|&new| core::mem::replace(&mut self.background, new) != new)
                    .map(util::background),
''')], needs='the same background before and after text in the default style', breaks='The background is not sent again after a reset.',
 main=PRE+'''
fn main() {
    assert_eq!(stylish::ansi::format!("{:(bg=red)}{}{:(bg=red)}", 1, 2, 3), "\\x1b[41m1\\x1b[0m2\\x1b[41m3\\x1b[0m");
}
'''),
dict(id='ansi-reset-early', property='A04', edits=[('ansi/src/ansi.rs', '''        if self.current != style && style == Style::default() {
            self.inner.write_str("\\x1b[0m")?;
''', '''        if self.current != style && style == Style::default() {
            self.current = style;
            self.inner.write_str("\\x1b[0m")?;
''')], needs='a stream that fails while the reset is sent and works again later', breaks='The writer believes in a reset that was never sent, so later default text stays styled.',
 main=PRE+'''
#[derive(Default)]
struct W(usize, String);
impl std::fmt::Write for W {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if s == "\\x1b[0m" && self.0 == 0 { self.0 = 1; return Err(std::fmt::Error); }
        self.1.push_str(s); Ok(())
    }
}
fn main() {
    let mut a = stylish::ansi(W::default());
    stylish::write!(a, "{:(bold)}", 1).unwrap();
    stylish::write!(a, "{}", 2).unwrap_err();
    stylish::write!(a, "{}", 3).unwrap();
    assert_eq!(a.finish().unwrap().1, "\\x1b[1m1\\x1b[0m3");
}
'''),
dict(id='trap-first-error', property='C06', edits=[('core/src/io.rs', '''                self.error = Some(err);
                Err(crate::Error)''', '''                self.error.get_or_insert(err);
                Err(crate::Error)''')], needs='a value that goes on after a failed write and then meets a different failure', breaks='The first, survived error is returned instead of the one that stopped the output.',
 main=PRE+'''
struct V;
impl Display for V {
    fn fmt(&self, f: &mut Formatter<'_>) -> stylish::Result {
        let _ = f.write_str("a");
        f.write_str("b")
    }
}
struct W;
impl stylish::io::Write for W {
    fn write(&mut self, s: &[u8], _: Style) -> std::io::Result<usize> { Err(std::io::Error::new(std::io::ErrorKind::Other, String::from_utf8_lossy(s).into_owned())) }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
fn main() {
    assert_eq!(stylish::io::Write::write_fmt(&mut W, stylish::format_args!("{:s}", V)).unwrap_err().to_string(), "b");
}
'''),
dict(id='ansi-io-std-write', property='E01', edits=[('ansi/src/io.rs', '''/// Does not guarantee a single write''', '''/// Unstyled output.
impl<T: std::io::Write> std::io::Write for Ansi<T> {
    fn write(&mut self, s: &[u8]) -> Result<usize> {
        self.inner.write(s)
    }

    fn flush(&mut self) -> Result<()> {
        self.inner.flush()
    }
}

/// Does not guarantee a single write''')], needs='unstyled output through the new trait implementation while a style is current', breaks='Bytes reach the stream behind the back of the style bookkeeping.',
 main=PRE+'''
struct Probe<T>(T);
trait Fallback { fn raw(self) -> bool; }
impl<T> Fallback for &Probe<T> { fn raw(self) -> bool { false } }
impl<T: std::io::Write> Probe<T> { fn raw(&self) -> bool { true } }
fn main() {
    assert!(!Probe(stylish::io::ansi(Vec::<u8>::new())).raw());
}
'''),
dict(id='plain-empty-skip', property='P01', edits=[('plain/src/io.rs', '''    fn write(&mut self, s: &[u8], _style: Style) -> Result<usize> {
        self.inner.write(s)
    }
''', '''    fn write(&mut self, s: &[u8], _style: Style) -> Result<usize> {
        if s.is_empty() {
            return Ok(0);
        }
        self.inner.write(s)
    }
''')], needs='an empty write to a stream whose answer to it matters, e.g. one that is closed', breaks='The call never reaches the stream, and its error is not reported.',
 main=PRE+'''
struct W;
impl std::io::Write for W {
    fn write(&mut self, _: &[u8]) -> std::io::Result<usize> { Err(std::io::ErrorKind::BrokenPipe.into()) }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
fn main() {
    assert!(stylish::io::Write::write(&mut stylish::io::plain(W), b"", Style::default()).is_err());
}
'''),
dict(id='html-char-direct', property='H01', edits=[('html/src/html.rs', '''        write!(self.inner, "{}", escape(s, AskamaHtml))?;

        Ok(())
    }
''', '''        write!(self.inner, "{}", escape(s, AskamaHtml))?;

        Ok(())
    }

    fn write_char(&mut self, c: char, style: Style) -> fmt::Result {
        if style == self.current && c.is_ascii() && !matches!(c, '<' | '>' | '&' | '"') {
            return self.inner.write_char(c);
        }
        self.write_str(c.encode_utf8(&mut [0; 4]), style)
    }
''')], needs='a single apostrophe written as a character', breaks='It reaches the output unescaped.',
 main=PRE+'''
fn main() {
    let (mut a, mut b) = (stylish::html(String::new()), stylish::html(String::new()));
    a.write_char('\\'', Style::default()).unwrap();
    b.write_str("'", Style::default()).unwrap();
    assert_eq!(a.finish().unwrap(), b.finish().unwrap());
}
'''),
dict(id='html-escape-string', property='C10', edits=[('html/src/html.rs', '''        write!(self.inner, "{}", escape(s, AskamaHtml))?;

        Ok(())
''', '''        #[cfg(feature = "alloc")]
        self.inner.write_str(&alloc::string::ToString::to_string(&escape(s, AskamaHtml)))?;
        #[cfg(not(feature = "alloc"))]
        write!(self.inner, "{}", escape(s, AskamaHtml))?;

        Ok(())
''')], needs='the alloc feature', breaks='Every text is copied to the heap on its way to the output.',
 main=PRE+'''
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
static N: AtomicUsize = AtomicUsize::new(0);
struct A;
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { N.fetch_add(1, SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
}
#[global_allocator]
static G: A = A;
struct W;
impl std::fmt::Write for W { fn write_str(&mut self, _: &str) -> std::fmt::Result { Ok(()) } }
fn main() {
    let mut h = stylish::html(W);
    let n = N.load(SeqCst);
    h.write_str("a<b", Style::default()).unwrap();
    assert_eq!(N.load(SeqCst), n);
}
'''),
dict(id='restyle-generic-method', property='E03', edits=[('style/src/lib.rs', '''    fn apply(&self, style: Style) -> Style;
}
''', '''    fn apply(&self, style: Style) -> Style;

    /// Apply this restyling and then another one.
    fn apply_then<R: Restyle>(&self, next: R, style: Style) -> Style {
        next.apply(self.apply(style))
    }
}
''')], needs='restylings of several types behind dyn Restyle', breaks='Restyle can no longer be used as a trait object.',
 main=PRE+'''
fn main() {
    let list: [&dyn Restyle; 2] = [&Foreground(Color::Red), &Intensity::Bold];
    assert_eq!(Style::default().with(&list[..]).foreground, Color::Red);
}
'''),
dict(id='macro-normal-implicit', property='M01', edits=[('macros/src/to_tokens.rs', '''        if let Some(intensity) = intensity {
            let intensity''', '''        if let Some(intensity) = intensity.as_ref().filter(|&&new| new != Intensity::Normal) {
            let intensity''')], needs='normal intensity inside a bold text', breaks='The request is dropped and the text stays bold.',
 main=PRE+'''
struct V;
impl Display for V {
    fn fmt(&self, f: &mut Formatter<'_>) -> stylish::Result { stylish::write!(f, "{:(normal)}", 1) }
}
fn main() {
    assert_eq!(stylish::html::format!("{:(bold)s}", V), "1");
}
'''),
dict(id='macro-env-inline', property='M07', edits=[('macros/src/lib.rs', '''    quote! {
        #export::Arguments {''', '''    let inline = std::env::var_os("OPT_LEVEL")
        .map_or(true, |level| level != "0")
        .then(|| quote!(#[inline]));
    quote! {
        #export::Arguments {'''), ('macros/src/lib.rs', '''                    #[inline]
                    move |__stylish_formatter: &mut #export::Formatter|''', '''                    #inline
                    move |__stylish_formatter: &mut #export::Formatter|''')], needs='the environment variable OPT_LEVEL', breaks='The expansion depends on the environment of the compiler.',
 script=r"""#!/bin/bash
# run with cwd = the repository; expands the same program in two environments
R=$PWD
D=$(mktemp -d /tmp/seed-demo.XXXXXXXX) || exit 3
trap 'rm -rf "$D"' EXIT
mkdir -p "$D/src"
cp "$R/Cargo.lock" "$D/Cargo.lock" 2>/dev/null
cat > "$D/Cargo.toml" <<EOT
[package]
name = "seed-demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
stylish = { path = "$R", features = ["ansi", "html", "plain"] }
EOT
cd "$D" || exit 3
export CARGO_TARGET_DIR="$D/target" CARGO_NET_OFFLINE=true
cat > src/main.rs <<'EOT'
fn main() { print!("{}", stylish::plain::format!("{}", 1)); }
EOT
unset OPT_LEVEL
cargo +nightly rustc --offline --quiet -- -Zunpretty=expanded > a 2>log || { cat log; exit 3; }
touch src/main.rs
OPT_LEVEL=0 cargo +nightly rustc --offline --quiet -- -Zunpretty=expanded > b 2>log || { cat log; exit 3; }
grep -q __stylish a || exit 3
cmp a b || exit 1
"""),
dict(id='string-last-run', property='C04', edits=[('core/src/string.rs', '''            let end = styles
                .peek()
                .map(|&&(end, _)| end)
                .unwrap_or_else(|| self.string.len());
            f.with(style).write_str(&self.string[start..end])?;
        }
        Ok(())
''', '''            let end = match styles.peek() {
                Some(&&(end, _)) => end,
                None => {
                    let _ = f.with(style).write_str(&self.string[start..]);
                    break;
                }
            };
            f.with(style).write_str(&self.string[start..end])?;
        }
        Ok(())
''')], needs='a writer that fails while the last run of an attributed string is displayed', breaks='The failure is reported as success.',
 main=PRE+'''
struct W;
impl std::fmt::Write for W { fn write_str(&mut self, _: &str) -> std::fmt::Result { Err(std::fmt::Error) } }
fn main() {
    let s = stylish::format!("a");
    assert!(stylish::write!(stylish::plain(W), "{:s}", s).is_err());
}
'''),
dict(id='string-default-run', property='C02', edits=[('core/src/string.rs', '''            f.with(style).write_str(&self.string[start..end])?;
''', '''            let run = &self.string[start..end];
            if style == Style::default() {
                f.write_str(run)?;
            } else {
                f.with(style).write_str(run)?;
            }
''')], needs='a string with default-styled text displayed in a styled placeholder', breaks='Default-styled runs take the style of the placeholder.',
 main=PRE+'''
fn main() {
    let s = stylish::format!("a{:(fg=red)}", 1);
    assert_eq!(stylish::html::format!("{:(bold)s}", s), "a<span style=color:red>1</span>");
}
'''),
dict(id='html-short-hex', property='H03', edits=[('html/src/util.rs', '''        Color::BrightRed => "background-color:#af0000",
''', '''        Color::BrightRed => "background-color:#af000",
''')], needs='a bright red background', breaks='The colour value is not valid CSS, so the background is not shown.',
 main=PRE+'''
fn main() {
    let mut h = stylish::html(String::new());
    h.write_str("x", Style::default().with(Background(Color::BrightRed))).unwrap();
    let s = h.finish().unwrap();
    let v = s.split('#').nth(1).unwrap().split('>').next().unwrap();
    assert!(v.len() == 3 || v.len() == 6, "{s}");
}
'''),
dict(id='ansi-finish-io-write', property='A02', edits=[('ansi/src/io.rs', '''        if self.current != Style::default() {
            self.inner.write_all(b"\\x1b[0m")?;
        }
        Ok(self.inner)''', '''        if self.current != Style::default() {
            match self.inner.write_all(b"\\x1b[0m") {
                Err(error) if error.kind() == std::io::ErrorKind::BrokenPipe => {}
                result => result?,
            }
        }
        Ok(self.inner)''')], needs='a pipe closed before the writer is finished', breaks='finish succeeds although the reset could not be written.',
 main=PRE+'''
struct W(usize);
impl std::io::Write for W {
    fn write(&mut self, s: &[u8]) -> std::io::Result<usize> { if s == b"\\x1b[0m" { Err(std::io::ErrorKind::BrokenPipe.into()) } else { Ok(s.len()) } }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
fn main() {
    let mut a = stylish::io::ansi(W(0));
    stylish::write!(a, "{:(bold)}", 1).unwrap();
    assert!(a.finish().is_err());
}
'''),
]
