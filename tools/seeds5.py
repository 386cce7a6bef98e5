"""a fifth batch of seeds, one or two for nearly every property (see mkseed.py)"""
PRE = '''#![allow(unused)]
use stylish::{Background, Color, Foreground, Intensity, Style, Restyle, Formatter, Display, Write};
'''
COMPILES = r"""#!/bin/bash
# run with cwd = the repository; the program below must %s
R=$PWD
D=$(mktemp -d /tmp/seed-demo.XXXXXXXX) || exit 3
trap 'rm -rf "$D"' EXIT
mkdir -p "$D/src"
cp "$R/Cargo.lock" "$D/Cargo.lock" 2>/dev/null
cat > "$D/Cargo.toml" <<EOT
[package]
name = "seed-demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
stylish = { path = "$R", features = ["ansi", "html", "plain"] }
EOT
cd "$D" || exit 3
export CARGO_TARGET_DIR="$D/target" CARGO_NET_OFFLINE=true
echo 'fn main() { print!("{}", stylish::plain::format!("{}", 1)); }' > src/main.rs
cargo check --offline --quiet || exit 3
cat > src/main.rs <<'EOT'
%s
EOT
%s
"""


def rejected(prog):
    return COMPILES % ('be rejected', prog, 'if cargo check --offline --quiet 2>log; then echo accepted; exit 1; fi\nexit 0')


def accepted(prog):
    return COMPILES % ('compile', prog, 'cargo check --offline --quiet || exit 1')


SEEDS = [
dict(id='style-keeps-intensity', property='S01', edits=[('style/src/lib.rs', '''    fn apply(&self, _style: Style) -> Style {
        *self
    }''', '''    fn apply(&self, style: Style) -> Style {
        match self.intensity {
            Intensity::Normal if style.foreground == self.foreground => Style {
                intensity: style.intensity,
                ..*self
            },
            _ => *self,
        }
    }''')], needs='a complete style of normal intensity applied to an emphasised one with the same foreground', breaks='The intensity is not replaced.',
 main=PRE+'''
fn main() {
    assert_eq!(Style::default().with(Intensity::Bold).with(Style::default()), Style::default());
}
'''),
dict(id='with-drops-width', property='C01', edits=[('core/src/formatter.rs', '''        Formatter {
            write: &mut *self.write,
            format: self.format,
            style: self.style.with(restyle),
        }
    }

    #[doc(hidden)]''', '''        let format = FormatterArgs {
            width: self.format.width.filter(|_| self.format.align.is_some()),
            ..self.format
        };
        Formatter {
            write: &mut *self.write,
            format,
            style: self.style.with(restyle),
        }
    }

    #[doc(hidden)]''')], needs='a width without an alignment, and a value that hands a restyled formatter on', breaks='The derived formatter loses the width.',
 main=PRE+'''
struct V;
impl Display for V {
    fn fmt(&self, f: &mut Formatter<'_>) -> stylish::Result {
        let before = format!("{f:?}");
        let derived = f.with(());
        assert_eq!(before, format!("{derived:?}"));
        Ok(())
    }
}
fn main() { stylish::plain::format!("{:5s}", V); }
'''),
dict(id='string-char-joins', property='C02', edits=[('core/src/string.rs', '''        self.string.push_str(s);
        Ok(())
    }
}
''', '''        self.string.push_str(s);
        Ok(())
    }

    #[inline]
    fn write_char(&mut self, c: char, style: Style) -> Result {
        if c.is_control() && !self.styles.is_empty() {
            // nothing to see of its style
            self.string.push(c);
            return Ok(());
        }
        self.write_str(c.encode_utf8(&mut [0; 4]), style)
    }
}
''')], needs='a tab or newline written as a single character after text of another style', breaks='The character takes the style of its neighbour.',
 main=PRE+'''
fn main() {
    let mut s = stylish::String::new();
    s.write_str("a", Style::default().with(Background(Color::Red))).unwrap();
    s.write_char('\\t', Style::default()).unwrap();
    assert_eq!(stylish::html::format!("{:s}", s), "<span style=background-color:red>a</span>\\t");
}
'''),
dict(id='string-fmt-write', property='C02', edits=[('core/src/string.rs', '''impl Display for String {''', '''/// Unstyled text.
impl core::fmt::Write for String {
    #[inline]
    fn write_str(&mut self, s: &str) -> Result {
        self.string.push_str(s);
        Ok(())
    }
}

impl Display for String {''')], needs='unstyled text written through core::fmt::Write', breaks='It is lost at the start and otherwise takes the style of the text before it.',
 main=PRE+'''
struct Probe<T>(T);
trait Fallback { fn put(&mut self) {} }
impl<T> Fallback for &mut Probe<T> {}
impl<T: std::fmt::Write> Probe<T> { fn put(&mut self) { self.0.write_str("b").unwrap() } }
fn main() {
    let mut p = Probe(stylish::format!("{:(fg=red)}", 1));
    (&mut p).put();
    let t = stylish::html::format!("{:s}", p.0);
    assert!(t == "<span style=color:red>1</span>" || t == "<span style=color:red>1</span>b", "{t}");
}
'''),
dict(id='write-all-style-once', property='C05', edits=[('core/src/io.rs', '''        while !buf.is_empty() {
            match self.write(buf, style) {''', '''        let mut next = Some(style);
        while !buf.is_empty() {
            match self.write(buf, next.take().unwrap_or_default()) {''')], needs='a short write', breaks='The rest of the buffer is written in the default style.',
 main=PRE+'''
struct W(Vec<Style>);
impl stylish::io::Write for W {
    fn write(&mut self, s: &[u8], style: Style) -> std::io::Result<usize> { self.0.push(style); Ok(1) }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
fn main() {
    let mut w = W(vec![]);
    let bold = Style::default().with(Intensity::Bold);
    stylish::io::Write::write_all(&mut w, b"abc", bold).unwrap();
    assert_eq!(w.0, [bold; 3]);
}
'''),
dict(id='io-ref-flush', property='C07', edits=[('core/src/io.rs', '''    fn flush(&mut self) -> Result<()> {
        (**self).flush()
    }
''', '''    fn flush(&mut self) -> Result<()> {
        Ok(())
    }
''')], needs='flushing through a mutable reference', breaks='The stream is not flushed.',
 main=PRE+'''
struct W(u32);
impl stylish::io::Write for W {
    fn write(&mut self, s: &[u8], _: Style) -> std::io::Result<usize> { Ok(s.len()) }
    fn flush(&mut self) -> std::io::Result<()> { self.0 += 1; Ok(()) }
}
fn f(mut w: impl stylish::io::Write) { w.flush().unwrap() }
fn main() {
    let mut w = W(0);
    f(&mut w);
    assert_eq!(w.0, 1);
}
'''),
dict(id='display-ref-fresh', property='C07', edits=[('core/src/display.rs', '''        (**self).fmt(f)
''', '''        (**self).fmt(&mut f.with_args(&Default::default(), ()))
''')], needs='a style-aware value behind a reference that looks at the flags', breaks='The flags in force are lost.',
 main=PRE+'''
struct V;
impl Display for V {
    fn fmt(&self, f: &mut Formatter<'_>) -> stylish::Result { let s = format!("{f:?}"); f.write_str(&s) }
}
fn main() {
    let s = stylish::plain::format!("{:5s}", &&V);
    assert!(s.contains("Some(5)") || s.contains('5'), "{s}");
}
'''),
dict(id='write-fmt-probes', property='C08', edits=[('core/src/write.rs', '''        Formatter::new(&mut self).write_fmt(args)
''', '''        struct Probe;

        impl Write for Probe {
            fn write_str(&mut self, _: &str, _: Style) -> Result {
                Ok(())
            }
        }

        // do not start what cannot be completed
        Formatter::new(&mut Probe).write_fmt(Arguments { f: args.f })?;
        Formatter::new(&mut self).write_fmt(args)
''')], needs='an argument whose formatting has a side effect', breaks='The arguments are run twice.',
 main=PRE+'''
struct V(std::cell::Cell<u32>);
impl std::fmt::Display for V {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { self.0.set(self.0.get() + 1); write!(f, "{}", self.0.get()) }
}
fn main() {
    assert_eq!(stylish::plain::format!("{}", V(Default::default())), "1");
}
'''),
dict(id='ansi-io-flush-reset', property='A01', edits=[('ansi/src/io.rs', '''    fn flush(&mut self) -> Result<()> {
        self.inner.flush()
    }
''', '''    fn flush(&mut self) -> Result<()> {
        // leave nothing styled while waiting
        if self.current.background != Style::default().background {
            self.inner.write_all(b"\\x1b[0m")?;
        }
        self.inner.flush()
    }
''')], needs='a flush between two texts on the same background', breaks='The second text is shown in the default style.',
 main=PRE+'''
fn main() {
    let mut a = stylish::io::ansi(Vec::new());
    stylish::write!(a, "{:(bg=red)}", 1).unwrap();
    stylish::io::Write::flush(&mut a).unwrap();
    stylish::write!(a, "{:(bg=red)}", 2).unwrap();
    let out = String::from_utf8(a.finish().unwrap()).unwrap();
    let last = out.rfind("\\x1b[41m");
    assert!(!out[..out.rfind('2').unwrap()].ends_with("\\x1b[0m"), "{out:?}");
}
'''),
dict(id='ansi-strip-escape', property='A03', edits=[('ansi/src/ansi.rs', '''        write!(self.inner, "{s}")?;
        Ok(())
''', '''        for part in s.split('\\x1b') {
            self.inner.write_str(part)?;
        }
        Ok(())
''')], needs='a text that contains an escape character', breaks='Escape characters of the text are lost and the text is sent in pieces.',
 main=PRE+'''
fn main() {
    assert_eq!(stylish::ansi::format!("{}", "a\\x1bb"), "a\\x1bb");
}
'''),
dict(id='ansi-io-short-m', property='A04', edits=[('ansi/src/io.rs', '''                self.inner.write_all(b"m")?;
''', '''                while self.inner.write(b"m")? > 1 {}
''')], needs='a stream that accepts nothing at the very end of an escape sequence', breaks='The terminating m is lost and the text swallowed by the terminal.',
 main=PRE+'''
#[derive(Default)]
struct W(bool, Vec<u8>);
impl std::io::Write for W {
    fn write(&mut self, s: &[u8]) -> std::io::Result<usize> {
        if s == b"m" && !self.0 { self.0 = true; return Ok(0); }
        self.1.extend_from_slice(s); Ok(s.len())
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
fn main() {
    let mut a = stylish::io::ansi(W::default());
    let r = stylish::write!(a, "{:(bold)}", 1);
    let out = a.finish().unwrap().1;
    assert!(r.is_err() || out.starts_with(b"\\x1b[1m1"));
}
'''),
dict(id='html-nest-bold', property='H02', edits=[('html/src/html.rs', '''                if self.current != Style::default() {
                    self.inner.write_str("</span>")?;
                }
                self.inner.write_str("<span style=")?;''', '''                let inside = self.current != Style::default()
                    && self.current.intensity == stylish_core::Intensity::Faint
                    && self.current.diff_from(style).foreground.is_none();
                if self.current != Style::default() && !inside {
                    self.inner.write_str("</span>")?;
                }
                self.inner.write_str("<span style=")?;''')], needs='another style of the same foreground directly after faint text', breaks='The new span is opened inside the old one, which is never closed.',
 main=PRE+'''
fn main() {
    let s = stylish::html::format!("{:(fg=red,faint)}{:(fg=red,bold)}", 1, 2);
    assert_eq!(s.matches("<span").count(), s.matches("</span>").count(), "{s}");
}
'''),
dict(id='html-cyan-green', property='H03', edits=[('html/src/util.rs', '''        Color::BrightCyan => "color:#00ffff",''', '''        Color::BrightCyan => "color:#00ff00",'''), ('html/src/util.rs', '''        Color::BrightCyan => "background-color:#00ffff",''', '''        Color::BrightCyan => "background-color:#00ff00",''')], needs='bright cyan', breaks='Bright cyan and bright green look the same.',
 main=PRE+'''
fn main() {
    let f = |c| { let mut h = stylish::html(String::new()); h.write_str("x", Style::default().with(Foreground(c))).unwrap(); h.finish().unwrap() };
    assert_ne!(f(Color::BrightCyan), f(Color::BrightGreen));
}
'''),
dict(id='plain-crlf', property='P01', edits=[('plain/src/plain.rs', '''        self.inner.write_str(s)
''', '''        self.inner.write_str(s.strip_suffix('\\r').unwrap_or(s))
''')], needs='text that ends in a carriage return', breaks='The carriage return is dropped.',
 main=PRE+'''
fn main() { assert_eq!(stylish::plain::format!("{}\\n", "a\\r"), "a\\r\\n"); }
'''),
dict(id='macro-first-wins', property='M01', edits=[('macros/src/format.rs', '''                        Attribute::Background(color) => diff.background = Some(color),
''', '''                        Attribute::Background(color) => {
                            diff.background.get_or_insert(color);
                        }
''')], needs='two backgrounds in one list', breaks='The first one wins.',
 main=PRE+'''
fn main() { assert_eq!(stylish::html::format!("{:(bg=red,bg=blue)}", 1), "<span style=background-color:blue>1</span>"); }
'''),
dict(id='macro-fill-ignored', property='M02', edits=[('macros/src/format.rs', '''            if fill != ' ' {
                todo!()
            }
            align''', '''            if fill == '{' {
                todo!()
            }
            align''')], needs='a fill character', breaks='The fill character is silently ignored.',
 script=rejected('fn main() { stylish::plain::format!("{:*<5}", 1); }')),
dict(id='macro-param-ignored', property='M02', edits=[('macros/src/to_tokens.rs', '''            Count::Parameter(_value) => todo!("parameter reference counts are not yet supported"),
''', '''            Count::Parameter(crate::format::FormatArgRef::Positional(value)) => {
                quote!(&#value).to_tokens(tokens)
            }
            Count::Parameter(_value) => todo!("parameter reference counts are not yet supported"),
''')], needs='a width taken from a positional argument', breaks='The position is used as the width.',
 script=rejected('fn main() { stylish::plain::format!("{0:1$}{1}", 1, 7); }')),
dict(id='macro-dup-named', property='M04', edits=[('macros/src/lib.rs', '''    if named_args_names.len() != named_args_values.len() {
        panic!("duplicate named argument");
    }
''', '')], needs='two named arguments of the same name', breaks='The first one is evaluated and never used.',
 script=rejected('fn main() { stylish::plain::format!("{a}", a = 1, a = 2); }')),
dict(id='macro-lone-brace', property='M05', edits=[('macros/src/format.rs', '''            value(Self::Lit("}"), tag("}}")),
''', '''            value(Self::Lit("}"), pair(tag("}"), opt(tag("}")))),
''')], needs='an unbalanced closing brace', breaks='It is accepted as literal text.',
 script=rejected('fn main() { stylish::plain::format!("a } b"); }')),
dict(id='macro-bare-some', property='M06', edits=[('macros/src/to_tokens.rs', '''            quote!(#export::Option::Some(#value))
''', '''            quote!(Some(#value))
''')], needs='a user item named Some', breaks='The expansion uses whatever Some is in scope.',
 script=accepted('#[allow(non_snake_case, dead_code)] fn Some() {}\nfn main() { stylish::plain::format!("{:5}", 1); }')),
dict(id='macro-abs-core', property='M06', edits=[('macros/src/lib.rs', '''                        #export::fmt::Result::Ok(())
''', '''                        ::core::result::Result::Ok(())
''')], needs='a dependency that is called core', breaks='The expansion uses a crate other than the one the macro was called through.',
 script=r"""#!/bin/bash
# run with cwd = the repository; a crate whose dependency stylish-core is all it needs, next to one named core
R=$PWD
D=$(mktemp -d /tmp/seed-demo.XXXXXXXX) || exit 3
trap 'rm -rf "$D"' EXIT
mkdir -p "$D/src" "$D/c/src"
cp "$R/Cargo.lock" "$D/Cargo.lock" 2>/dev/null
cat > "$D/Cargo.toml" <<EOT
[package]
name = "seed-demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
stylish = { path = "$R", features = ["ansi", "html", "plain"] }
core = { path = "c", package = "my-core" }
EOT
printf '[package]\nname = "my-core"\nversion = "0.0.0"\nedition = "2021"\n' > "$D/c/Cargo.toml"
echo > "$D/c/src/lib.rs"
cd "$D" || exit 3
export CARGO_TARGET_DIR="$D/target" CARGO_NET_OFFLINE=true
echo 'fn main() {}' > src/main.rs
cargo check --offline --quiet || exit 3
echo 'pub fn f() -> std::string::String { stylish::plain::format!("{}", 1) } fn main() {}' > src/main.rs
cargo check --offline --quiet || exit 1
"""),
dict(id='ansi-as-ref', property='E01', edits=[('ansi/src/ansi.rs', '''impl<T: fmt::Write> Write for Ansi<T> {''', '''impl<T: fmt::Write> AsRef<T> for Ansi<T> {
    fn as_ref(&self) -> &T {
        &self.inner
    }
}

impl<T: fmt::Write> Write for Ansi<T> {''')], needs='a stream that can be written to through a shared reference', breaks='The stream can be written to behind the back of the writer.',
 script=rejected('fn main() { let a = stylish::ansi(String::new()); let _: &String = AsRef::<String>::as_ref(&a); }')),
dict(id='html-into-inner', property='E01', edits=[('html/src/html.rs', '''    /// Ensure the output stream is reset''', '''    /// Get the output stream back without closing anything.
    pub fn into_inner(self) -> T {
        self.inner
    }

    /// Ensure the output stream is reset''')], needs='a writer taken apart while a span is open', breaks='The stream can be had without finishing the writer.',
 script=rejected('fn main() { let a = stylish::html(String::new()); let _: String = a.into_inner(); }')),
dict(id='diff-not-copy', property='E03', edits=[('style/src/lib.rs', '''#[derive(Copy, Clone, Debug, Default, Eq, PartialEq)]
#[non_exhaustive]
pub struct StyleDiff {''', '''#[derive(Clone, Debug, Default, Eq, PartialEq)]
#[non_exhaustive]
pub struct StyleDiff {''')], needs='a style difference that is used twice', breaks='Style differences are no longer plain copyable values.',
 script=accepted('fn main() { let d = stylish::StyleDiff::default(); let e = d; let _ = (d, e); }')),
dict(id='ansi-io-clone-default', property='C09', edits=[('ansi/src/io.rs', '''#[derive(Clone, Debug, Default)]
pub struct Ansi''', '''#[derive(Debug, Default)]
pub struct Ansi'''), ('ansi/src/io.rs', '''/// Does not guarantee a single write''', '''impl<T: std::io::Write + Clone> Clone for Ansi<T> {
    fn clone(&self) -> Self {
        let current = self.current.with(stylish_core::Intensity::Normal);
        Self { inner: self.inner.clone(), current }
    }
}

/// Does not guarantee a single write''')], needs='a writer that is cloned while emphasised text is current', breaks='The clone believes the intensity is normal.',
 main=PRE+'''
fn main() {
    let mut a = stylish::io::ansi(Vec::new());
    stylish::write!(a, "{:(bold)}", 1).unwrap();
    let b = a.clone();
    assert_eq!(a.finish().unwrap(), b.finish().unwrap());
}
'''),
]
