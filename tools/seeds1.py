PRE = '''#![allow(unused)]
use stylish::{Background, Color, Foreground, Intensity, Style, Restyle, Formatter, Display};
'''
SEEDS = [
dict(id='ansi-io-style-early', property='A04', edits=[('ansi/src/io.rs', '''            let original = self.current.intensity;
            let diff = style.diff_from(self.current);
''', '''            let original = self.current.intensity;
            let diff = style.diff_from(core::mem::replace(&mut self.current, style));
''')], needs='a stream that fails while the escape sequence of a style change is being sent, then accepts the next write in the same style',
 breaks='The byte writer already regards the new style as current while it is still being sent; after a failure the next write in that style sends no escape.',
 main=PRE+'''use std::{cell::Cell, rc::Rc, io::Write as _};
use stylish::io::Write as _;
struct Flaky { out: Vec<u8>, fail_at: usize, n: usize }
impl std::io::Write for Flaky {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.n += 1;
        if self.n == self.fail_at { return Err(std::io::Error::new(std::io::ErrorKind::Other, "once")); }
        self.out.extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
fn main() {
    let red = Style::default().with(Foreground(Color::Red));
    for fail_at in 1..4 {
        let mut w = stylish::io::ansi(Flaky { out: vec![], fail_at, n: 0 });
        assert!(w.write(b"x", red).is_err());
        w.write(b"y", red).unwrap();
        let f = w.finish().unwrap();
        let s = String::from_utf8(f.out).unwrap();
        assert!(s.contains("\\x1b[31my"), "fail_at {fail_at}: {s:?}");
    }
}
'''),
dict(id='ansi-default-fg-kept', property='A01', edits=[('ansi/src/ansi.rs', '''        if self.current != style && style == Style::default() {
            self.inner.write_str("\\x1b[0m")?;''','''        if self.current != style && style.diff_from(self.current).background.is_none() && style == Style::default() {
            self.inner.write_str("\\x1b[39;22m")?;
        } else if self.current != style && style == Style::default() {
            self.inner.write_str("\\x1b[0m")?;''')], needs='', breaks='', main=''),
dict(id='ansi-bg-table', property='A01', edits=[('ansi/src/util.rs','Color::BrightMagenta => "105",','Color::BrightMagenta => "95",')],
 needs='bright magenta requested as a background', breaks='Bright magenta as a background sets the foreground instead, which then leaks into later text.',
 main=PRE+'''
use stylish::Write;
fn main() {
    let mut w = stylish::ansi(String::new());
    let bg = |c| Style::default().with(Background(c));
    let all = [Color::Black, Color::Red, Color::Green, Color::Yellow, Color::Blue, Color::Magenta, Color::Cyan, Color::White,
      Color::BrightBlack, Color::BrightRed, Color::BrightGreen, Color::BrightYellow, Color::BrightBlue, Color::BrightMagenta, Color::BrightCyan, Color::BrightWhite];
    for c in all { w.write_str("x", bg(c)).unwrap(); }
    let s = w.finish().unwrap();
    let codes: Vec<u32> = s.split("\\x1b[").filter_map(|p| p.split('m').next()).filter(|p| !p.is_empty()).map(|p| p.parse().unwrap()).collect();
    let want: Vec<u32> = (40..48).chain(100..108).chain([0]).collect();
    assert_eq!(codes, want);
}
'''),
dict(id='html-escape-shortcut', property='H01', edits=[('html/src/html.rs','''        write!(self.inner, "{}", escape(s, AskamaHtml))?;
''','''        if s.bytes().any(|b| matches!(b, b'<' | b'>' | b'&')) {
            write!(self.inner, "{}", escape(s, AskamaHtml))?;
        } else {
            self.inner.write_str(s)?;
        }
''')], needs='text with a quote character but no angle bracket or ampersand', breaks='Text without <, > or & bypasses the escaper, so quotes reach the output unescaped.',
 main=PRE+'''
use stylish::Write;
fn main() {
    for t in ["plain", "<b>", "a&b", "say \\"hi\\"", "it's"] {
        let mut w = stylish::html(String::new());
        w.write_str(t, Style::default()).unwrap();
        let s = w.finish().unwrap();
        assert!(!s.contains('"') && !s.contains('\\'') && !s.contains('<'), "{s:?}");
    }
}
'''),
dict(id='html-stale-attribute', property='H03', edits=[('html/src/html.rs','''            let diff = style.diff_from(Style::default());
''','''            let base = if self.current.background == style.background {
                Style::default().with(stylish_core::Background(self.current.background))
            } else {
                Style::default()
            };
            let diff = style.diff_from(base);
''')], needs='a transition between two different non-default styles with the same background', breaks='The background is not stated in a new span when it equals that of the span just closed.',
 main=PRE+'''
use stylish::Write;
fn main() {
    let b = Style::default().with(Background(Color::Green));
    let mut w = stylish::html(String::new());
    w.write_str("x", b.with(Foreground(Color::Red))).unwrap();
    w.write_str("y", b.with(Foreground(Color::Blue))).unwrap();
    let s = w.finish().unwrap();
    assert_eq!(s.matches("background-color").count(), 2, "{s}");
}
'''),
dict(id='html-unclosed-faint', property='H02', edits=[('html/src/html.rs','''    pub fn finish(mut self) -> Result<T, fmt::Error> {
        if self.current != Style::default() {''','''    pub fn finish(mut self) -> Result<T, fmt::Error> {
        let diff = Style::default().diff_from(self.current);
        if diff.foreground.or(diff.background).is_some() || self.current.intensity == Style::default().with(stylish_core::Intensity::Bold).intensity {''')],
 needs='the writer is finished while the open span states only a faint intensity', breaks='finish does not close a span that states nothing but faint.',
 main=PRE+'''
use stylish::Write;
fn main() {
    for st in [Style::default().with(Foreground(Color::Red)), Style::default().with(Intensity::Bold), Style::default().with(Intensity::Faint), Style::default()] {
        let mut w = stylish::html(String::new());
        w.write_str("x", st).unwrap();
        let s = w.finish().unwrap();
        assert_eq!(s.matches("<span").count(), s.matches("</span>").count(), "{s}");
    }
}
'''),
dict(id='write-all-wouldblock', property='C05', edits=[('core/src/io.rs','''                Err(ref e) if e.kind() == ErrorKind::Interrupted => {}
''','''                Err(ref e)
                    if matches!(e.kind(), ErrorKind::Interrupted | ErrorKind::WouldBlock) => {}
''')], needs='a writer that reports WouldBlock', breaks='write_all retries (spins) on WouldBlock instead of reporting it.',
 main=PRE+'''
use stylish::io::Write as _;
struct B(usize);
impl std::io::Write for B {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.0 += 1;
        if self.0 > 3 { return Ok(b.len()); }
        Err(std::io::ErrorKind::WouldBlock.into())
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
impl stylish::io::Write for B {
    fn write(&mut self, b: &[u8], _: Style) -> std::io::Result<usize> { std::io::Write::write(self, b) }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
fn main() {
    let mut b = B(0);
    let r = stylish::io::Write::write_all(&mut b, b"x", Style::default());
    assert_eq!(r.unwrap_err().kind(), std::io::ErrorKind::WouldBlock);
}
'''),
dict(id='trap-keeps-kind-only', property='C06', edits=[('core/src/io.rs','''                self.error = Some(err);
''','''                self.error.get_or_insert_with(|| err.kind().into());
''')], needs='a stream whose error carries a payload or OS code, during formatted output', breaks='Formatted I/O returns a fresh error of the same kind instead of the stream\'s own error.',
 main=PRE+'''
use stylish::io::Write as _;
struct F;
impl std::io::Write for F {
    fn write(&mut self, _: &[u8]) -> std::io::Result<usize> { Err(std::io::Error::new(std::io::ErrorKind::Other, "disk on fire")) }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
fn main() {
    let mut w = stylish::io::plain(F);
    let e = stylish::write!(w, "{}", 1).unwrap_err();
    assert_eq!(e.to_string(), "disk on fire");
}
'''),
dict(id='string-blank-merge', property='C02', edits=[('core/src/string.rs','''        if Some(style) != self.styles.last().map(|&(_, style)| style) {''','''        let blank = !self.styles.is_empty() && s.trim().is_empty();
        if !blank && Some(style) != self.styles.last().map(|&(_, style)| style) {''')],
 needs='whitespace-only text written in another style than the text before it', breaks='Whitespace takes over the style of the text before it, e.g. a background colour.',
 main=PRE+'''
fn main() {
    let s = stylish::format!("{:(bg=red)} {:(bg=red)}", "a", "b");
    assert_eq!(stylish::html::format!("{:s}", s), stylish::html::format!("{:(bg=red)} {:(bg=red)}", "a", "b"));
}
'''),
dict(id='formatter-explicit-diff', property='C01', edits=[('core/src/formatter.rs','''    fn write_str(&mut self, s: &str, style: Style) -> Result {
        self.with(style).write_str(s)''','''    fn write_str(&mut self, s: &str, style: Style) -> Result {
        self.with(style.diff_from(Style::default())).write_str(s)''')],
 needs='a formatter with a non-default style in force, written to through the Write trait in a style with default attributes', breaks='Attributes requested as default keep the value in force in the formatter.',
 main=PRE+'''
struct V;
impl Display for V { fn fmt(&self, f: &mut Formatter<'_>) -> stylish::Result { stylish::Write::write_str(f, "x", Style::default().with(Background(Color::Blue))) } }
fn main() {
    assert_eq!(stylish::html::format!("{:(fg=red)s}", V), "<span style=background-color:blue>x</span>");
}
'''),
dict(id='plain-write-all-short', property='P01', edits=[('plain/src/io.rs','''        self.inner.write_all(s)
''','''        let mut rest = s;
        while !rest.is_empty() {
            let n = self.inner.write(rest)?;
            if n == 0 {
                return Err(stylish_core::io::ErrorKind::WriteZero.into());
            }
            rest = &rest[n..];
        }
        Ok(())
''')], needs='a stream that reports an interrupted write', breaks='The byte writer no longer hands the whole buffer to the stream\'s write_all: an interrupted write makes it fail after part of the data.',
 main=PRE+'''
use stylish::io::Write as _;
struct I(Vec<u8>, bool);
impl std::io::Write for I {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.1 = !self.1;
        if self.1 { return Err(std::io::ErrorKind::Interrupted.into()); }
        self.0.push(b[0]); Ok(1)
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
fn main() {
    let mut w = stylish::io::plain(I(vec![], false));
    w.write_all(b"abc", Style::default()).unwrap();
    assert_eq!(w.into_inner().0, b"abc");
}
'''),
dict(id='ref-write-char-default', property='C07', edits=[('core/src/write.rs','''    fn write_char(&mut self, c: char, style: Style) -> Result {
        (**self).write_char(c, style)
    }

''','')], needs='a writer with its own write_char, reached through &mut', breaks='Through a mutable reference the default write_char runs instead of the writer\'s own.',
 main=PRE+'''
struct C(String);
impl stylish::Write for C {
    fn write_str(&mut self, s: &str, _: Style) -> stylish::Result { self.0.push_str(s); Ok(()) }
    fn write_char(&mut self, c: char, _: Style) -> stylish::Result { self.0.push('^'); self.0.push(c); Ok(()) }
}
fn via<W: stylish::Write>(mut w: W) { w.write_char('x', Style::default()).unwrap(); }
fn main() {
    let mut c = C(String::new());
    via(&mut c);
    assert_eq!(c.0, "^x");
}
'''),
dict(id='pair-restyle-order', property='S02', edits=[('style/src/lib.rs','''        style.with(&self.0).with(&self.1).with(&self.2)
''','''        style.with(&self.1).with(&self.0).with(&self.2)
''')], needs='a triple whose first two members set the same attribute', breaks='In a triple of restylings the first wins over the second.',
 main=PRE+'''
fn main() {
    let s = Style::default().with((Foreground(Color::Red), Foreground(Color::Blue), Intensity::Bold));
    assert_eq!(s.foreground, Color::Blue);
}
'''),
dict(id='failure-text-ignored', property='C04', edits=[('html/src/html.rs','''                self.inner.write_str(segment)?;
                for segment in segments {
                    self.inner.write_str(";")?;
                    self.inner.write_str(segment)?;
                }
''','''                self.inner.write_str(segment)?;
                let rest: fmt::Result = segments
                    .map(|segment| write!(self.inner, ";{segment}"))
                    .collect();
                rest.or_else(|_| self.inner.write_str(""))?;
''')], needs='a stream failing once while the second declaration of a span is written', breaks='A failed write of part of the markup is swallowed.',
 main=PRE+'''
use stylish::Write;
struct F(String, usize, usize);
impl core::fmt::Write for F {
    fn write_str(&mut self, s: &str) -> core::fmt::Result {
        self.1 += 1;
        if self.1 == self.2 { return Err(core::fmt::Error); }
        self.0.push_str(s); Ok(())
    }
}
fn main() {
    let st = Style::default().with(Foreground(Color::Red)).with(Background(Color::Blue)).with(Intensity::Bold);
    for k in 1..10 {
        let mut f = F(String::new(), 0, k);
        let r = stylish::html(&mut f).write_str("x", st);
        assert_eq!(r.is_err(), f.1 >= k, "failure at write {k} swallowed");
    }
}
'''),
]
SEEDS=[s for s in SEEDS if s['main']]
