"""seeds of the formatting macros, the API and the build (see mkseed.py)"""
PRE = '''#![allow(unused)]
use stylish::{Background, Color, Foreground, Intensity, Style, Restyle, Formatter, Display};
'''

# a demo that compiles programs: OK/BAD functions on sources, exits non-zero at the first surprise
COMPILE = r'''#!/bin/bash
# run with cwd = the repository; compiles small programs against it
R=$PWD
D=$(mktemp -d /tmp/seed-demo.XXXXXXXX) || exit 3
trap 'rm -rf "$D"' EXIT
mkdir -p "$D/src"
cp "$R/Cargo.lock" "$D/Cargo.lock" 2>/dev/null
cat > "$D/Cargo.toml" <<EOT
[package]
name = "seed-demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
stylish = { path = "$R", features = ["ansi", "html", "plain"] }
EOT
cd "$D" || exit 3
export CARGO_TARGET_DIR="$D/target" CARGO_NET_OFFLINE=true
builds() { cat > src/main.rs; timeout 250 cargo build --offline --quiet >log 2>&1; }
'''
REPOBUILD = r'''#!/bin/bash
# run with cwd = the repository; builds one of its crates with some features only
R=$PWD
D=$(mktemp -d /tmp/seed-demo.XXXXXXXX) || exit 3
trap 'rm -rf "$D"' EXIT
export CARGO_TARGET_DIR="$D/target" CARGO_NET_OFFLINE=true
'''
SEEDS = [
# ---- M01
dict(id='macro-style-single', property='M01', edits=[('macros/src/to_tokens.rs', '''        if let Some(background) = background {
            let background = self.scope(background);
''', '''        if let Some(background) = background.filter(|&color| foreground != &Some(color)) {
            let background = self.scope(&background);
''')], needs='one attribute list that names the same colour for foreground and background', breaks='The background is dropped when it is the same colour as the foreground, so text meant to be invisible is shown.',
 main=PRE+'''
fn main() {
    assert_eq!(stylish::html::format!("{:(fg=red,bg=blue)}", 1), "<span style=color:red;background-color:blue>1</span>");
    assert_eq!(stylish::html::format!("{:(fg=red,bg=red)}", 1), "<span style=color:red;background-color:red>1</span>");
}
'''),
dict(id='macro-color-tokens', property='M01', edits=[('macros/src/to_tokens.rs', 'Color::White => quote!(#export::Color::White),', 'Color::Yellow => quote!(#export::Color::BrightWhite),')],
 needs='the colour white in a format string', breaks='The keyword white selects bright white.',
 main=PRE+'''
fn main() {
    assert_eq!(stylish::html::format!("{:(fg=white)}", 1), "<span style=color:white>1</span>");
}
'''),
# ---- M02
dict(id='macro-precision-zero', property='M02', edits=[('macros/src/format.rs', '''        let (input, precision) = opt(preceded(tag("."), Count::parse))(input)?;
''', '''        let (input, precision) = opt(preceded(tag("."), Count::parse))(input)?;
        let precision = precision.filter(|precision| width.is_none() || !matches!(precision, Count::Integer(0)));
''')], needs='a width and a precision of exactly zero', breaks='A precision of zero after a width is passed on as absent.',
 main=PRE+'''
fn main() {
    assert_eq!(stylish::plain::format!("{:.1}", 2.54), "2.5");
    assert_eq!(stylish::plain::format!("{:.0}", 2.54), "3");
    assert_eq!(stylish::plain::format!("{:5.0}|", "abc"), "     |");
}
'''),
dict(id='macro-zero-swallows', property='M02', edits=[('macros/src/format.rs', '''opt(value(true, tag("0")))(input)?;''', '''opt(value(true, many1(tag("0"))))(input)?;''')],
 needs='a flag list of two or more zeroes, i.e. the zero flag with a width of zero', breaks='A width of 0 after the zero flag is passed on as absent: every further zero is eaten by the flag.',
 main=PRE+'''
struct W;
impl std::fmt::Display for W {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        let w = f.width();
        write!(f, "{:?}", w)
    }
}
fn main() {
    assert_eq!(stylish::plain::format!("{:05}", W), format!("{:05}", W));
    assert_eq!(stylish::plain::format!("{:0}", W), format!("{:0}", W));
    assert_eq!(stylish::plain::format!("{:00}", W), format!("{:00}", W));
}
'''),
dict(id='macro-sign-with-zero', property='M02', edits=[('macros/src/to_tokens.rs', '''        let sign = quote_opt(self.scope(sign));
''', '''        // a minus sign is the default
        let sign = &sign.filter(|sign| matches!(sign, Sign::Plus));
        let sign = quote_opt(self.scope(sign));
''')], needs='a value whose implementation looks at the minus flag', breaks='The minus flag is not passed on.',
 main=PRE+'''
struct W;
impl std::fmt::Display for W {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        let (p, m) = (f.sign_plus(), f.sign_minus());
        f.write_str(match (p, m) { (true, _) => "plus", (_, true) => "minus", _ => "none" })
    }
}
fn main() {
    assert_eq!(stylish::plain::format!("{:+}{:-}{}", W, W, W), "plusminusnone");
}
'''),
# ---- M03
dict(id='macro-pretty-debug-hex', property='M03', edits=[('macros/src/format.rs', '''        let debug_hex = debug_hex_and_format_trait.and_then(|(debug_hex, _)| debug_hex);
''', '''        let debug_hex = debug_hex_and_format_trait
            .and_then(|(debug_hex, _)| debug_hex)
            .filter(|_| alternate.is_none());
''')], needs='a debug-hex selector together with the alternate flag', breaks='{:#x?} and {:#X?} print decimal numbers.',
 main=PRE+'''
fn main() {
    assert_eq!(stylish::plain::format!("{:x?}{:X?}", [255], [254]), "[ff][FE]");
    assert_eq!(stylish::plain::format!("{:#x?}", 255), "0xff");
}
'''),
# ---- M04
dict(id='macro-next-skips-used', property='M04', edits=[('macros/src/lib.rs', '''                        let i = next_arg_iter.next().expect("missing argument");
''', '''                        let i = next_arg_iter
                            .find(|i| !used_positional_args.contains(i))
                            .expect("missing argument");
''')], needs='an unnumbered placeholder after a numbered one that refers to an argument not yet reached', breaks='Unnumbered placeholders skip arguments that a numbered placeholder has used already.',
 main=PRE+'''
fn main() {
    assert_eq!(stylish::plain::format!("{} {1} {0} {}", "a", "b"), "a b a b");
    assert_eq!(stylish::plain::format!("{1} {} {}", "a", "b"), "b a b");
}
''') ,
dict(id='macro-capture-once', property='M04', edits=[('macros/src/lib.rs', '''                            let i = implicit_named_args_values.len();
                            implicit_named_args_values.push(ExprPath {
                                attrs: Vec::new(),
                                qself: None,
                                path: Ident::new_raw(
                                    name,
                                    Span::call_site().resolved_at(format_string.span()),
                                )
                                .into(),
                            });
                            let index = Index::from(i);
''', '''                            // capture every variable once only
                            let seen = implicit_named_args_names.iter().position(|&seen: &&str| seen.starts_with(name));
                            let i = seen.unwrap_or(implicit_named_args_names.len());
                            if seen.is_none() {
                                implicit_named_args_names.push(name);
                                implicit_named_args_values.push(ExprPath {
                                    attrs: Vec::new(),
                                    qself: None,
                                    path: Ident::new_raw(
                                        name,
                                        Span::call_site().resolved_at(format_string.span()),
                                    )
                                    .into(),
                                });
                            }
                            let index = Index::from(i);
'''), ('macros/src/lib.rs', '''    let mut implicit_named_args_values = Vec::new();
''', '''    let mut implicit_named_args_names = Vec::new();
    let mut implicit_named_args_values = Vec::new();
''')], needs='two captured variables, the name of the later one a prefix of the name of the earlier one', breaks='The later placeholder shows the variable with the longer name.',
 main=PRE+'''
fn main() {
    let (x, x1, y) = (1, 2, 3);
    assert_eq!(stylish::plain::format!("{x}{x1}{y}{x}"), "1231");
    assert_eq!(stylish::plain::format!("{x1}{x}"), "21");
}
'''),
dict(id='macro-unused-named', property='M04', edits=[('macros/src/lib.rs', '''    if !unused_positional_args.is_empty() || !unused_named_args.is_empty() {
''', '''    if !unused_positional_args.is_empty()
        || (!unused_named_args.is_empty() && used_named_args.is_empty())
    {
''')], needs='several named arguments of which only some are used', breaks='An unused named argument is accepted when another one is used.',
 script=COMPILE+r'''
builds <<'E' || { cat log; exit 1; }
fn main() { stylish::plain::format!("{a}{b}", a = 1, b = 2); }
E
builds <<'E' && { echo "an unused named argument is accepted"; exit 1; }
fn main() { stylish::plain::format!("{a}", a = 1, b = 2); }
E
grep -q "unused formatting arguments" log
'''),
# ---- M05
dict(id='macro-merge-literals', property='M05', edits=[('macros/src/format.rs', '''        all_consuming(map(many0(Piece::parse), |pieces| Self { pieces }))(input)
''', '''        all_consuming(map(many0(Piece::parse), |pieces| Self {
            // "{" followed by "{" is one "{{", un-doubled when it is written
            pieces: pieces
                .into_iter()
                .fold(Vec::new(), |mut pieces: Vec<Piece<'a>>, piece| {
                    match (pieces.last_mut(), piece) {
                        (Some(Piece::Lit(last @ "{")), Piece::Lit("{")) => *last = "{{",
                        (_, piece) => pieces.push(piece),
                    }
                    pieces
                }),
        }))(input)
''')], needs='two doubled opening braces next to each other', breaks='"{{{{" is written as a single brace.',
 main=PRE+'''
fn main() {
    assert_eq!(stylish::plain::format!("{{ {{{}}} }}", 1), "{ {1} }");
    assert_eq!(stylish::plain::format!("a{{{{b}}}}"), "a{{b}}");
}
'''),
dict(id='macro-nl-once', property='M05', edits=[('macros/src/lib.rs', '''    let format = LitStr::new(&(input.format.value() + "\\n"), input.format.span());
''', '''    let mut format = input.format.value();
    if !format.ends_with('\\n') {
        format.push('\\n');
    }
    let format = LitStr::new(&format, input.format.span());
''')], needs='writeln! with a format string that ends in a newline already', breaks='writeln! adds no newline of its own when the format string ends in one.',
 main=PRE+'''
use stylish::Write as _;
fn main() {
    let mut w = stylish::plain(String::new());
    stylish::writeln!(w, "a").unwrap();
    stylish::writeln!(w, "{}", "b\\n").unwrap();
    stylish::writeln!(w, "c\\n").unwrap();
    assert_eq!(w.into_inner(), "a\\nb\\n\\nc\\n\\n");
}
'''),
dict(id='macro-trim-colon', property='M05', edits=[('macros/src/format.rs', '''            delimited(tag("{"), cut(FormatArg::parse), tag("}")),
''', '''            delimited(tag("{"), cut(FormatArg::parse), alt((tag("}"), tag(" }")))),
''')], needs='a placeholder with a blank before its closing brace', breaks='A malformed placeholder such as "{ }" is accepted.',
 script=COMPILE+r'''
builds <<'E' || { cat log; exit 1; }
fn main() { stylish::plain::format!("{:?}{}", 1, 2); }
E
builds <<'E' && { echo "a malformed placeholder is accepted"; exit 1; }
fn main() { stylish::plain::format!("{ }", 1); }
E
exit 0
'''),
# ---- M06
dict(id='macro-bare-ok', property='M06', edits=[('macros/src/lib.rs', '''                        #export::fmt::Result::Ok(())
''', '''                        Ok(())
''')], needs='a user-defined item called Ok in scope of the macro', breaks='The expansion uses whatever Ok is in scope.',
 script=COMPILE+r'''
builds <<'E' || { cat log; exit 1; }
fn main() { assert_eq!(stylish::plain::format!("{}", 1), "1"); }
E
builds <<'E' || { cat log; exit 1; }
#![allow(non_snake_case)]
fn Ok(x: u8) -> u8 { x }
fn main() { Ok(1); assert_eq!(stylish::plain::format!("{}", 1), "1"); }
E
'''),
dict(id='macro-arg-name', property='M06', edits=[('macros/src/to_tokens.rs', '''                            __stylish_arg => {
''', '''                            arg => {
'''), ('macros/src/to_tokens.rs', '#export::fmt::#format_trait::fmt(__stylish_arg, __stylish_formatter)', '#export::fmt::#format_trait::fmt(arg, __stylish_formatter)')],
 needs='a user constant or static called arg in scope of the macro', breaks='The binding of the expansion turns into a pattern that refers to the item of the user.',
 script=COMPILE+r'''
builds <<'E' || { cat log; exit 1; }
fn main() { let arg = 2; assert_eq!(stylish::plain::format!("{arg}"), "2"); }
E
builds <<'E' || { cat log; exit 1; }
#![allow(non_upper_case_globals, unused)]
static arg: u8 = 1;
fn main() { assert_eq!(stylish::plain::format!("{}", 2), "2"); }
E
'''),
# ---- E01
dict(id='html-get-mut', property='E01', edits=[('html/src/html.rs', '''    pub fn finish(mut self) -> Result<T, fmt::Error> {
''', '''    /// Get the wrapped instance.
    pub fn get_mut(&mut self) -> &mut T {
        &mut self.inner
    }

    pub fn finish(mut self) -> Result<T, fmt::Error> {
''')], needs='a user who calls the new accessor between styled writes', breaks='The wrapped stream can be written to behind the back of the writer, inside an open span and unescaped.',
 script=COMPILE+r'''
builds <<'E' || { cat log; exit 1; }
use stylish::Write as _;
fn main() { let mut w = stylish::html(String::new()); w.write_str("x", Default::default()).unwrap(); w.finish().unwrap(); }
E
for access in 'w.get_mut().push_str("<")' 'w.get_ref()' 'w.inner.push_str("<")' 'w.as_mut().push_str("<")'; do
  echo "use stylish::Write as _; fn main() { let mut w = stylish::html(String::new()); w.write_str(\"x\", Default::default()).unwrap(); $access; w.finish().unwrap(); }" | builds && { echo "accepted: $access"; exit 1; }
done
exit 0
'''),
dict(id='formatter-default-style', property='E01', edits=[('core/src/formatter.rs', '''pub struct Formatter<'a> {
    style: Style,
''', '''pub struct Formatter<'a> {
    /// The current style.
    pub style: Style,
''')], needs='an implementation of Display that assigns to the formatter it is given', breaks='The style of a formatter can be set in place, so text the caller writes afterwards is styled by the callee.',
 script=COMPILE+r'''
builds <<'E' || { cat log; exit 1; }
struct D;
impl stylish::Display for D { fn fmt(&self, f: &mut stylish::Formatter<'_>) -> stylish::Result { f.write_str("x") } }
fn main() { stylish::html::format!("{:s}", D); }
E
builds <<'E' && { echo "the style of a formatter can be assigned"; exit 1; }
struct D;
impl stylish::Display for D { fn fmt(&self, f: &mut stylish::Formatter<'_>) -> stylish::Result { f.style = Default::default(); f.write_str("x") } }
fn main() { stylish::html::format!("{:s}", D); }
E
exit 0
'''),
# ---- W01
dict(id='html-alloc-gate', property='W01', edits=[('html/src/lib.rs', '''#[cfg(all(feature = "alloc", feature = "macros"))]
mod to_string;
''', '''#[cfg(feature = "alloc")]
mod to_string;
''')], needs='a build of stylish-html with alloc and without macros', breaks='stylish-html does not build with alloc but without macros.',
 script=REPOBUILD+r'''
timeout 250 cargo build --offline --quiet --manifest-path "$R/html/Cargo.toml" --no-default-features --features macros || exit 1
timeout 250 cargo build --offline --quiet --manifest-path "$R/html/Cargo.toml" --no-default-features --features alloc
'''),
dict(id='plain-needs-alloc', property='W01', edits=[('plain/src/lib.rs', '''#[cfg(feature = "alloc")]
extern crate alloc;
''', '''extern crate alloc;
''')], needs='a target without an allocator', breaks='stylish-plain links the allocator crate even when built without the alloc feature.',
 script=REPOBUILD+r'''
cp -r "$R/plain" "$D/p" || exit 3
T=$(rustc --print sysroot)/lib/rustlib/x86_64-unknown-linux-gnu/lib
# a sysroot that has the core library only
S="$D/sys/lib/rustlib/x86_64-unknown-linux-gnu/lib"
mkdir -p "$S" && for f in "$T"/libcore-*.rlib "$T"/lib{core,compiler_builtins,rustc_std_workspace_core}-*.rmeta "$T"/libcompiler_builtins-*.rlib "$T"/librustc_std_workspace_core-*.rlib; do ln -s "$f" "$S/"; done
b() { rustc --edition 2021 --sysroot "$D/sys" -L "$D" --out-dir "$D" --cap-lints allow "$@"; }
b --crate-name stylish_style --crate-type rlib "$R/style/src/lib.rs" || exit 1
b --crate-name stylish_core --crate-type rlib --extern stylish_style="$D/libstylish_style.rlib" "$R/core/src/lib.rs" || exit 1
b --crate-name stylish_plain --crate-type rlib --extern stylish_core="$D/libstylish_core.rlib" "$R/plain/src/lib.rs"
'''),
# ---- C03
dict(id='stdfmt-minus', property='C03', edits=[('core/src/std_compat.rs', '''            $({ sign: Some(crate::formatter::Sign::Minus), $($field : $pat,)* } => (("-", $($s,)*), $(($($arg)*),)*);)*
''', '''            // that is the default
            $({ sign: Some(crate::formatter::Sign::Minus), $($field : $pat,)* } => (($($s,)*), $(($($arg)*),)*);)*
''')], needs='a value whose implementation looks at the minus flag', breaks='The minus flag never reaches the standard formatter.',
 main=PRE+'''
struct W;
impl std::fmt::Display for W {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        let (p, m) = (f.sign_plus(), f.sign_minus());
        f.write_str(match (p, m) { (true, _) => "plus", (_, true) => "minus", _ => "none" })
    }
}
fn main() {
    assert_eq!(stylish::plain::format!("{:+}{:-}{}", W, W, W), "plusminusnone");
}
'''),
dict(id='stdproxy-other-alternate', property='C03', edits=[('core/src/arguments.rs', '''        let arg = &self.0;
        std_write!(f, Other, arg)
''', '''        let arg = &self.0;
        if f.format.precision.is_none() && f.format.width.is_none() && f.format.sign.is_none() {
            // nothing to pad or round
            use core::fmt::Write;
            return if f.format.alternate {
                core::write!(crate::std_compat::StdProxy(f), "{:#}", *arg)
            } else {
                core::write!(crate::std_compat::StdProxy(f), "{}", *arg)
            };
        }
        std_write!(f, Other, arg)
''')], needs='the alignment or zero flag without width, precision and sign, and a value whose implementation looks at them', breaks='Alignment and zero-padding flags are dropped when there is no width.', main=PRE+'''
struct W;
impl std::fmt::Display for W {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        let a = f.align();
        write!(f, "{}", match a { Some(std::fmt::Alignment::Left) => "l", Some(std::fmt::Alignment::Right) => "r", Some(std::fmt::Alignment::Center) => "c", None => "-" })
    }
}
fn main() {
    assert_eq!(stylish::plain::format!("{}{:<3}{:#}", W, W, W), "-l-");
    assert_eq!(stylish::plain::format!("{:<}{:^}{:>}", W, W, W), "lcr");
}
'''),
# ---- C08
dict(id='write-char-two', property='C08', edits=[('core/src/write.rs', '''        self.write_str(c.encode_utf8(&mut [0; 4]), style)
''', '''        if c.is_control() {
            // never let a control character take the style of text
            return self.write_str(c.encode_utf8(&mut [0; 4]), Style::default());
        }
        self.write_str(c.encode_utf8(&mut [0; 4]), style)
''')], needs='a control character written with write_char in a non-default style', breaks='Control characters are written in the default style.',
 main=PRE+'''
use stylish::Write as _;
fn main() {
    let red = Style::default().with(Foreground(Color::Red));
    let mut w = stylish::html(String::new());
    w.write_char('a', red).unwrap();
    w.write_char('\\n', red).unwrap();
    w.write_char('b', red).unwrap();
    assert_eq!(w.finish().unwrap(), "<span style=color:red>a\\nb</span>");
}
'''),
# ---- S01 / S03
dict(id='background-default-clears', property='S01', edits=[('style/src/lib.rs', '''        let &Background(background) = self;
        Style {
            background,
            ..style
        }
''', '''        let &Background(background) = self;
        if background == style.foreground && background != Color::Default {
            // keep the text readable
            return Style {
                foreground: Color::Default,
                background,
                ..style
            };
        }
        Style {
            background,
            ..style
        }
''')], needs='a background equal to the foreground already in force', breaks='Setting the background changes the foreground.',
 main=PRE+'''
fn main() {
    let s = Style::default().with(Foreground(Color::Red));
    assert_eq!(s.with(Background(Color::Blue)).foreground, Color::Red);
    assert_eq!(s.with(Background(Color::Red)).foreground, Color::Red);
}
'''),
dict(id='diff-bright', property='S03', edits=[('style/src/lib.rs', '''            background: diff(original.background, self.background),
            intensity: diff(original.intensity, self.intensity),
''', '''            background: diff(original.background, self.background),
            intensity: diff(original.intensity, self.intensity)
                .or(Some(self.intensity).filter(|_| original.background != self.background && self.intensity == Intensity::Faint)),
''')], needs='two faint styles of different background', breaks='The difference mentions an intensity on which the styles agree.',
 main=PRE+'''
fn main() {
    let s = Style::default().with(Intensity::Faint);
    assert_eq!(s.with(Background(Color::Red)).diff_from(s).intensity, None);
    assert_eq!(Style::default().with(Foreground(Color::Red)).diff_from(Style::default()).intensity, None);
}
'''),
# ---- A02 / A03 / A04
dict(id='ansi-finish-background', property='A02', edits=[('ansi/src/io.rs', '''        if self.current != Style::default() {
            self.inner.write_all(b"\\x1b[0m")?;
        }
        Ok(self.inner)
''', '''        if self.current != Style::default() {
            let _ = self.inner.write(b"\\x1b[0m")?;
        }
        Ok(self.inner)
''')], needs='a byte stream that accepts the reset only in part', breaks='Finishing may leave a truncated escape sequence and the terminal styled.',
 main=PRE+'''
use stylish::io::Write as _;
struct One(Vec<u8>);
impl std::io::Write for One {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { if b.is_empty() { return Ok(0) } self.0.push(b[0]); Ok(1) }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
fn main() {
    let mut w = stylish::io::ansi(One(vec![]));
    w.write_all(b"x", Style::default().with(Foreground(Color::Red))).unwrap();
    assert_eq!(w.finish().unwrap().0, b"\\x1b[31mx\\x1b[0m");
}
'''),
dict(id='ansi-empty-reset', property='A03', edits=[('ansi/src/ansi.rs', '''        if s.is_empty() {
            return Ok(());
        }

''', '''        if s.is_empty() && style != Style::default() {
            return Ok(());
        }

''')], needs='empty text in the default style right after text in another style', breaks='Empty text makes the text writer send an escape sequence.',
 main=PRE+'''
use stylish::Write as _;
fn main() {
    let red = Style::default().with(Foreground(Color::Red));
    let mut w = stylish::ansi(String::new());
    w.write_str("a", red).unwrap();
    w.write_str("", Style::default()).unwrap();
    w.write_str("b", red).unwrap();
    assert_eq!(w.finish().unwrap(), "\\x1b[31mab\\x1b[0m");
}
'''),
dict(id='ansi-write-all-text', property='A03', edits=[('ansi/src/io.rs', '''        self.inner.write(s)
''', '''        // as much of the text as can be written
        let mut done = self.inner.write(s)?;
        while done > 0 && done < s.len() && s[done] & 0xc0 == 0x80 {
            // do not stop in the middle of a character
            match self.inner.write(&s[done..])? {
                0 => break,
                n => done += n,
            }
        }
        Ok(done)
''')], needs='a byte stream that stops in the middle of a character and fails on the next write', breaks='After a short write the error of a second attempt hides the bytes that were written, so a caller that retries repeats them.',
 main=PRE+'''
use stylish::io::Write as _;
struct S(Vec<u8>, usize);
impl std::io::Write for S {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.1 += 1;
        if self.1 == 2 { return Err(std::io::ErrorKind::Interrupted.into()); }
        let n = b.len().min(1); self.0.extend_from_slice(&b[..n]); Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
fn main() {
    let mut w = stylish::io::ansi(S(vec![], 0));
    w.write_all("éa".as_bytes(), Style::default()).unwrap();
    assert_eq!(w.finish().unwrap().0, "éa".as_bytes());
}
'''),
# ---- C04 in expansions
dict(id='macro-literal-unchecked', property='C04', edits=[('macros/src/lib.rs', '''        .map(|piece| match piece {
            Piece::Lit(lit) => {
                let lit = LitStr::new(&lit.replace("{{", "{"), span);
                quote!(#export::Formatter::write_str(__stylish_formatter, #lit)?)
            }
''', '''        .map(|piece| match piece {
            Piece::Lit(lit) if lit.trim().is_empty() => {
                // nothing to see, nothing to fail
                let lit = LitStr::new(lit, span);
                quote!({ let _ = #export::Formatter::write_str(__stylish_formatter, #lit); })
            }
            Piece::Lit(lit) => {
                let lit = LitStr::new(&lit.replace("{{", "{"), span);
                quote!(#export::Formatter::write_str(__stylish_formatter, #lit)?)
            }
''')], needs='a writer that fails on blank text between placeholders', breaks='The failure to write a blank piece of a format string is swallowed.',
 main=PRE+'''
use stylish::Write as _;
struct F(String);
impl std::fmt::Write for F {
    fn write_str(&mut self, s: &str) -> std::fmt::Result { if self.0.len() + s.len() > 3 { return Err(std::fmt::Error) } self.0.push_str(s); Ok(()) }
}
fn main() {
    let mut w = stylish::plain(F(String::new()));
    assert!(stylish::write!(w, "{}xy", "ab").is_err());
    let mut w = stylish::plain(F(String::new()));
    assert!(stylish::write!(w, "{} \\n", "abc").is_err());
}
'''),
# ---- C07
dict(id='io-ref-write-all', property='C07', edits=[('core/src/io.rs', '''    fn write_all(&mut self, s: &[u8], style: Style) -> Result<()> {
        (**self).write_all(s, style)
    }

''', '')], needs='a byte writer with a write_all of its own, used through a mutable reference', breaks='Writing everything through a mutable reference bypasses the write_all of the writer itself.',
 main=PRE+'''
use stylish::io::Write as _;
struct S(Vec<u8>);
impl std::io::Write for S {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { Err(std::io::ErrorKind::Unsupported.into()) }
    fn write_all(&mut self, b: &[u8]) -> std::io::Result<()> { self.0.extend_from_slice(b); Ok(()) }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
fn main() {
    let mut w = stylish::io::plain(S(vec![]));
    w.write_all(b"a", Style::default()).unwrap();
    stylish::io::Write::write_all(&mut &mut w, b"b", Style::default()).unwrap();
    assert_eq!(w.into_inner().0, b"ab");
}
'''),
]
