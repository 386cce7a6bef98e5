"""a fourth corpus of behaviour-preserving edits, written without looking at the checks (see refrun.py)"""
R = lambda f: open('/repo/' + f).read()


def body(f, start, end, new):
    """replaces the text of file f from `start` up to (not including) `end`"""
    t = R(f)
    i = t.index(start)
    j = t.index(end, i)
    return (f, t[i:j], new)


EDITS = [
dict(id='eq-by-hand', edits=[
('style/src/lib.rs', '''#[allow(dead_code)]
#[derive(Copy, Clone, Debug, Eq, PartialEq)]
#[non_exhaustive]
pub enum Color {''', '''#[allow(dead_code)]
#[derive(Copy, Clone, Debug, Eq)]
#[non_exhaustive]
pub enum Color {'''),
('style/src/lib.rs', '''#[derive(Copy, Clone, Debug, Eq, PartialEq)]
#[non_exhaustive]
pub enum Intensity {''', '''#[derive(Copy, Clone, Debug, Eq)]
#[non_exhaustive]
pub enum Intensity {'''),
('style/src/lib.rs', '''#[derive(Copy, Clone, Debug, Default, Eq, PartialEq)]
#[non_exhaustive]
pub struct Style {''', '''#[derive(Copy, Clone, Debug, Default, Eq)]
#[non_exhaustive]
pub struct Style {'''),
('style/src/lib.rs', '''#[derive(Copy, Clone, Debug, Default, Eq, PartialEq)]
#[non_exhaustive]
pub struct StyleDiff {''', '''#[derive(Copy, Clone, Debug, Default, Eq)]
#[non_exhaustive]
pub struct StyleDiff {'''),
('style/src/lib.rs', '''impl Default for Color {''', '''impl PartialEq for Color {
    #[inline]
    fn eq(&self, other: &Self) -> bool {
        *self as u8 == *other as u8
    }
}

impl PartialEq for Intensity {
    #[inline]
    fn eq(&self, other: &Self) -> bool {
        core::mem::discriminant(self) == core::mem::discriminant(other)
    }
}

impl PartialEq for Style {
    fn eq(&self, other: &Self) -> bool {
        let key = |style: &Self| (style.intensity, style.background, style.foreground);
        key(self) == key(other)
    }
}

impl PartialEq for StyleDiff {
    fn eq(&self, other: &Self) -> bool {
        if self.intensity != other.intensity {
            return false;
        }
        match (self.foreground, other.foreground) {
            (Some(a), Some(b)) if a != b => return false,
            (Some(_), None) | (None, Some(_)) => return false,
            _ => {}
        }
        match (self.background, other.background) {
            (None, None) => true,
            (Some(a), Some(b)) => a == b,
            _ => false,
        }
    }
}

impl Default for Color {'''),
]),
dict(id='eq-chained', edits=[
('style/src/lib.rs', '''#[derive(Copy, Clone, Debug, Default, Eq, PartialEq)]
#[non_exhaustive]
pub struct Style {''', '''#[derive(Copy, Clone, Debug, Default, Eq)]
#[non_exhaustive]
pub struct Style {'''),
('style/src/lib.rs', '''impl Default for Color {''', '''impl PartialEq for Style {
    #[inline]
    fn eq(&self, other: &Self) -> bool {
        !self.ne(other)
    }

    #[inline]
    fn ne(&self, other: &Self) -> bool {
        [self.foreground != other.foreground, self.background != other.background, self.intensity != other.intensity]
            .contains(&true)
    }
}

impl Default for Color {'''),
('style/src/lib.rs', '''        fn diff<T: PartialEq>(original: T, new: T) -> Option<T> {
            if original == new {
                None
            } else {
                Some(new)
            }
        }
''', '''        fn diff<T: PartialEq>(original: T, new: T) -> Option<T> {
            Some(new).filter(|new| *new != original)
        }
'''),
]),
dict(id='style-consts', edits=[
('style/src/lib.rs', '''impl Style {
    /// Apply''', '''impl Style {
    /// The style of text nothing was said about.
    pub const PLAIN: Style = Style {
        foreground: Color::Default,
        background: Color::Default,
        intensity: Intensity::Normal,
    };

    /// Whether this is the style of text nothing was said about.
    pub fn is_plain(self) -> bool {
        self == Self::PLAIN
    }

    /// Apply'''),
('ansi/src/ansi.rs', '''        if self.current != style && style == Style::default() {''', '''        if style.is_plain() && !self.current.is_plain() {'''),
('ansi/src/ansi.rs', '''        if self.current != Style::default() {''', '''        if !self.current.is_plain() {'''),
('ansi/src/io.rs', '''        if self.current != style && style == Style::default() {''', '''        if !self.current.is_plain() && Style::PLAIN == style {'''),
('html/src/html.rs', '''        if style == Style::default() {
            if self.current != Style::default() {''', '''        if style.is_plain() {
            if !self.current.is_plain() {'''),
('html/src/html.rs', '''                if self.current != Style::default() {
                    self.inner.write_str("</span>")?;
                }
                self.inner.write_str("<span''', '''                if !self.current.is_plain() {
                    self.inner.write_str("</span>")?;
                }
                self.inner.write_str("<span'''),
]),
dict(id='ansi-transition', edits=[
('ansi/src/ansi.rs', '''impl<T: fmt::Write> Write for Ansi<T> {''', '''impl<T: fmt::Write> Ansi<T> {
    /// Tell the terminal about the changes that lead to the new style.
    fn switch(&mut self, style: Style) -> fmt::Result {
        let original = core::mem::replace(&mut self.current, style);
        let result = self.announce(original, style);
        if result.is_err() {
            self.current = original;
        }
        result
    }

    fn announce(&mut self, original: Style, style: Style) -> fmt::Result {
        if original == style {
            return Ok(());
        }
        if style == Style::default() {
            return self.inner.write_str("\\x1b[0m");
        }
        let diff = style.diff_from(original);
        let mut lead = "\\x1b[";
        if let Some(color) = diff.foreground {
            self.inner.write_str(lead)?;
            self.inner.write_str(util::foreground(color))?;
            lead = ";";
        }
        if let Some(color) = diff.background {
            self.inner.write_str(lead)?;
            self.inner.write_str(util::background(color))?;
            lead = ";";
        }
        if let Some(intensity) = diff.intensity {
            self.inner.write_str(lead)?;
            self.inner.write_str(util::intensity(original.intensity, intensity))?;
        }
        self.inner.write_str("m")
    }
}

impl<T: fmt::Write> Write for Ansi<T> {'''),
body('ansi/src/ansi.rs', '''        if self.current != style && style''', '''        write!(self.inner, "{s}")?;
''', '''        self.switch(style)?;
'''),
('ansi/src/ansi.rs', '''        write!(self.inner, "{s}")?;
        Ok(())
''', '''        self.inner.write_str(s)
'''),
]),
dict(id='ansi-indexed', edits=[
body('ansi/src/ansi.rs', '''            let mut segments = segments.iter()''', '''        self.current = style;
''', '''            let count = segments.iter().flatten().count();
            for (i, segment) in segments.into_iter().flatten().enumerate() {
                self.inner.write_str(if i == 0 { "\\x1b[" } else { ";" })?;
                self.inner.write_str(segment)?;
                if i + 1 == count {
                    self.inner.write_char('m')?;
                }
            }
        }
'''),
body('ansi/src/io.rs', '''            let mut segments = segments.iter()''', '''        self.current = style;
''', '''            let mut first = true;
            for segment in segments.iter().flatten() {
                self.inner.write_all(if first { b"\\x1b[" } else { b";" })?;
                self.inner.write_all(segment.as_bytes())?;
                first = false;
            }
            if !first {
                self.inner.write_all(&[b'm'])?;
            }
        }
'''),
]),
dict(id='ansi-intensity-nested', edits=[

('ansi/src/util.rs', '''    match (original, intensity) {
        // Bold and faint are independent attributes of a terminal, setting one does
        // not reset the other.
        (Intensity::Faint, Intensity::Bold) => "22;1",
        (Intensity::Bold, Intensity::Faint) => "22;2",
        (_, Intensity::Bold) => "1",
        (_, Intensity::Faint) => "2",
        (_, Intensity::Normal) => "22",
        _ => "22",
    }''', '''    const OFF: &str = "22";

    let plain = original == Intensity::Normal;
    match intensity {
        Intensity::Bold if plain || original == Intensity::Bold => "1",
        Intensity::Bold => "22;1",
        Intensity::Faint if original != Intensity::Bold => "2",
        Intensity::Faint => "22;2",
        _ => OFF,
    }'''),
('ansi/src/util.rs', '''pub(crate) fn background(color: Color) -> &'static str {
    match color {''', '''pub(crate) fn background(color: Color) -> &'static str {
    if color == Color::Default {
        return "49";
    }
    match color {'''),
('ansi/src/util.rs', '''        Color::Default => "49",

''', ''),
]),
dict(id='html-cases', edits=[
body('html/src/html.rs', '''        if style == Style::default() {''', '''        write!(self.inner, "{}", escape''', '''        let plain = Style::default();
        match (self.current == style, self.current == plain, style == plain) {
            (true, _, _) => {}
            (false, is_closed, stays_closed) => {
                if !is_closed {
                    self.close()?;
                }
                if !stays_closed {
                    self.open(style)?;
                }
            }
        }
        self.current = style;

'''),
('html/src/html.rs', '''        if self.current != Style::default() {
            self.inner.write_str("</span>")?;
        }
        Ok(self.inner)
    }
''', '''        let open = self.current != Style::default();
        open.then(|| self.close()).transpose_unit()?;
        Ok(self.inner)
    }

    fn close(&mut self) -> fmt::Result {
        self.inner.write_str("</span>")
    }

    fn open(&mut self, style: Style) -> fmt::Result {
        self.inner.write_str("<span style=")?;
        let mut separator = "";
        let plain = Style::default();
        if style.foreground != plain.foreground {
            self.inner.write_str(util::foreground(style.foreground))?;
            separator = ";";
        }
        if style.background != plain.background {
            self.inner.write_str(separator)?;
            self.inner.write_str(util::background(style.background))?;
            separator = ";";
        }
        if style.intensity != plain.intensity {
            self.inner.write_str(separator)?;
            self.inner.write_str(util::intensity(style.intensity))?;
        }
        self.inner.write_str(">")
    }
'''),
('html/src/html.rs', '''impl<T: fmt::Write> Write for Html<T> {''', '''trait TransposeUnit {
    fn transpose_unit(self) -> fmt::Result;
}

impl TransposeUnit for Option<fmt::Result> {
    fn transpose_unit(self) -> fmt::Result {
        self.unwrap_or(Ok(()))
    }
}

impl<T: fmt::Write> Write for Html<T> {'''),
]),
dict(id='html-lookup', edits=[
('html/src/util.rs', None, R('html/src/util.rs').split('pub(crate) fn background')[0].replace('pub(crate) fn foreground(color: Color) -> &\'static str {', '''macro_rules! property {
    ($name:ident, $prefix:literal) => {
pub(crate) fn $name(color: Color) -> &'static str {''').replace('"color:', 'concat!($prefix, "').replace('",\n', '"),\n').replace('"\n', '")\n').rstrip() + '''
    };
}

property!(foreground, "color:");
property!(background, "background-color:");

pub(crate) fn intensity(intensity: Intensity) -> &'static str {
    [
        (Intensity::Faint, "font-weight:lighter"),
        (Intensity::Bold, "font-weight:bolder"),
    ]
    .iter()
    .find(|(known, _)| *known == intensity)
    .map_or("font-weight:inherit", |&(_, text)| text)
}
'''),
]),
dict(id='string-ranges', edits=[
('core/src/string.rs', '''        let mut styles = self.styles.iter().peekable();''', '''        Ok(())
    }
}
@''' if False else '''@''', '') if False else
('core/src/string.rs', '''        let mut styles = self.styles.iter().peekable();
        while let Some(&(start, style)) = styles.next() {
            let end = styles
                .peek()
                .map(|&&(end, _)| end)
                .unwrap_or_else(|| self.string.len());
            f.with(style).write_str(&self.string[start..end])?;
        }
        Ok(())
''', '''        let mut pending: Option<(usize, Style)> = None;
        for &(next, style) in &self.styles {
            if let Some((start, before)) = pending.replace((next, style)) {
                self.run(f, start, next, before)?;
            }
        }
        match pending {
            Some((start, style)) => self.run(f, start, self.string.len(), style),
            None => Ok(()),
        }
'''),
('core/src/string.rs', '''        Self::default()
    }
''', '''        Self::default()
    }

    fn run(&self, f: &mut Formatter<'_>, start: usize, end: usize, style: Style) -> Result {
        let (head, _) = self.string.split_at(end);
        Write::write_str(f, &head[start..], style)
    }
'''),
('core/src/string.rs', '''        if Some(style) != self.styles.last().map(|&(_, style)| style) {
            self.styles.push((self.string.len(), style));
        }
        self.string.push_str(s);
''', '''        let start = self.string.len();
        self.string.push_str(s);
        match self.styles.last() {
            Some((_, last)) if *last == style => {}
            _ => self.styles.push((start, style)),
        }
'''),
]),
dict(id='io-split-slices', edits=[
body('core/src/io.rs', '''        while !buf.is_empty() {
            match self.write(buf, style) {''', '''        Ok(())
    }

    /// Writes a formatted''', '''        loop {
            if buf.is_empty() {
                break;
            }
            let written = match self.write(buf, style) {
                Ok(written) => written,
                Err(error) if matches!(error.kind(), ErrorKind::Interrupted) => continue,
                Err(error) => return Err(error),
            };
            if written == 0 {
                let kind = ErrorKind::WriteZero;
                return Err(Error::new(kind, "failed to write whole buffer"));
            }
            let (_done, rest) = buf.split_at(written);
            buf = rest;
        }
'''),
('core/src/io.rs', '''        let mut trap = ErrorTrap::new(self);

        crate::Write::write_fmt(&mut trap, args).map_err(|crate::Error| trap.error())
''', '''        let mut trap = ErrorTrap::new(self);

        if crate::Write::write_fmt(&mut trap, args).is_ok() {
            return Ok(());
        }
        Err(trap.error())
'''),
('core/src/io.rs', '''        self.error
            .take()
            .unwrap_or_else(|| Error::new(ErrorKind::Other, "formatter error"))
''', '''        let fallback = || Error::new(ErrorKind::Other, "formatter error");
        std::mem::take(&mut self.error).unwrap_or_else(fallback)
'''),
('core/src/io.rs', '''        match self.inner.write_all(s.as_bytes(), style) {
            Ok(()) => Ok(()),
            Err(err) => {
                self.error = Some(err);
                Err(crate::Error)
            }
        }
''', '''        self.inner.write_all(s.as_bytes(), style).map_err(|err| {
            self.error.replace(err);
            crate::Error
        })
'''),
]),
dict(id='formatter-generic', edits=[
('core/src/formatter.rs', '''        self.with(style).write_str(s)
    }

    #[inline]
    fn write_fmt(&mut self, args: Arguments<'_>) -> Result {
        self.write_fmt(args)
    }
''', '''        // the style given here is the whole style, not a change to the current one
        self.write.write_str(s, style)
    }

    #[inline]
    fn write_fmt(&mut self, args: Arguments<'_>) -> Result {
        Display::fmt(&args, self)
    }
'''),
('core/src/formatter.rs', '''    pub fn with(&mut self, restyle: impl Restyle) -> Formatter<'_> {
        Formatter {
            write: &mut *self.write,
            format: self.format,
            style: self.style.with(restyle),
        }
''', '''    pub fn with(&mut self, restyle: impl Restyle) -> Formatter<'_> {
        let Formatter { style, format, write } = self;
        let style = style.with(&restyle);
        Formatter { style, format: *format, write: *write }
'''),
('core/src/write.rs', '''        self.write_str(c.encode_utf8(&mut [0; 4]), style)
''', '''        let mut buffer = [0u8; 8];
        let text: &str = c.encode_utf8(&mut buffer);
        self.write_str(text, style)
'''),
('core/src/arguments.rs', '''impl core::fmt::Debug for StdFmt<'_> {
    #[inline]
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> Result {
        (self.f)(f)
''', '''impl core::fmt::Debug for StdFmt<'_> {
    #[inline]
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> Result {
        core::fmt::Display::fmt(self, f)
'''),
]),
dict(id='macro-diff-tokens', edits=[
body('macros/src/to_tokens.rs', '''        let StyleDiff {
            foreground,''', '''    }
}

impl<'a> ToTokens for Scoped<'a, Align>''', '''        let diff = self.as_ref();
        let mut sets = Vec::new();
        if let Some(color) = &diff.foreground {
            let color = self.scope(color);
            sets.push(quote!(__stylish_diff.foreground = #export::Option::Some(#color)));
        }
        if let Some(color) = &diff.background {
            let color = self.scope(color);
            sets.push(quote!(__stylish_diff.background = #export::Option::Some(#color)));
        }
        if let Some(intensity) = &diff.intensity {
            let intensity = self.scope(intensity);
            sets.push(quote!(__stylish_diff.intensity = #export::Option::Some(#intensity)));
        }
        quote!({
            let mut __stylish_diff: #export::StyleDiff = #export::Default::default();
            #(#sets;)*
            __stylish_diff
        })
        .to_tokens(tokens);
'''),
]),
dict(id='macro-colors-table', edits=[
body('macros/src/format.rs', '''        alt((
            value(Color::Black, tag("black")),''', '''    }
}

impl<'a> Parse<'a> for Intensity''', '''        const NAMES: [(&str, Color); 9] = [
            ("default", Color::Default),
            ("black", Color::Black),
            ("blue", Color::Blue),
            ("cyan", Color::Cyan),
            ("green", Color::Green),
            ("magenta", Color::Magenta),
            ("red", Color::Red),
            ("white", Color::White),
            ("yellow", Color::Yellow),
        ];
        for (name, color) in NAMES {
            if let Some(rest) = input.strip_prefix(name) {
                return Ok((rest, color));
            }
        }
        Err(nom::Err::Error(nom::error::Error::new(
            input,
            nom::error::ErrorKind::Tag,
        )))
'''),
body('macros/src/format.rs', '''            |attributes| {
                let mut diff''', '''        )(input)
    }
}

#[derive(Debug, Clone, Copy)]
pub enum Align''', '''            |attributes| {
                attributes
                    .into_iter()
                    .flatten()
                    .fold(StyleDiff::default(), |mut diff, attribute| {
                        match attribute {
                            Attribute::Foreground(color) => diff.foreground = Some(color),
                            Attribute::Background(color) => diff.background = Some(color),
                            Attribute::Intensity(intensity) => diff.intensity = Some(intensity),
                        }
                        diff
                    })
            },
'''),
]),
dict(id='macro-bookkeeping', edits=[
('macros/src/lib.rs', '''    let mut used_positional_args = HashSet::new();
    let mut used_named_args = HashSet::new();
    let mut next_arg_iter = 0..num_positional_args;
''', '''    let mut used_positional_args = vec![false; num_positional_args];
    let mut used_named_args = HashSet::new();
    let mut next_positional = 0;
'''),
('macros/src/lib.rs', '''                        let i = next_arg_iter.next().expect("missing argument");
                        let index = Index::from(i);
                        used_positional_args.insert(i);
''', '''                        let i = next_positional;
                        assert!(i < num_positional_args, "missing argument");
                        next_positional += 1;
                        let index = Index::from(i);
                        used_positional_args[i] = true;
'''),
('macros/src/lib.rs', '''                        let index = Index::from(i);
                        if i >= num_positional_args {
                            panic!("missing positional argument {i}");
                        }
                        used_positional_args.insert(i);
''', '''                        match used_positional_args.get_mut(i) {
                            Some(used) => *used = true,
                            None => panic!("missing positional argument {i}"),
                        }
                        let index = Index::from(i);
'''),
('macros/src/lib.rs', '''    let unused_positional_args =
        &HashSet::from_iter(0..num_positional_args) - &used_positional_args;
    let unused_named_args =
        &HashSet::from_iter(named_args_names.keys().cloned()) - &used_named_args;
    if !unused_positional_args.is_empty() || !unused_named_args.is_empty() {
        panic!("unused formatting arguments");
    }
''', '''    let all_used = used_positional_args.into_iter().all(|used| used)
        && named_args_names.keys().all(|name| used_named_args.contains(name));
    assert!(all_used, "unused formatting arguments");
'''),
('macros/src/lib.rs', '''                let lit = LitStr::new(&lit.replace("{{", "{"), span);
''', '''                let lit = LitStr::new(lit, span);
'''),
]),
dict(id='macro-let-bindings', edits=[
('macros/src/lib.rs', '''                quote! {
                    #export::Display::fmt(
                        &#arg,
                        &mut #export::Formatter::with_args(
                            __stylish_formatter,
                            #formatter_args,
                            #style
                        ),
                    )?
                }
''', '''                quote! {
                    match #export::Display::fmt(
                        &#arg,
                        &mut __stylish_formatter.with_args(#formatter_args, #style),
                    ) {
                        #export::fmt::Result::Ok(()) => (),
                        #export::fmt::Result::Err(__stylish_error) => return #export::fmt::Result::Err(__stylish_error),
                    }
                }
'''),
]),
dict(id='to-string-direct', edits=[
('ansi/src/to_string.rs', '''        format!("{:s}", self)
''', '''        use stylish_core::Write;

        let mut writer = crate::Ansi::new(String::new());
        let outcome = Write::write_fmt(&mut writer, stylish_core::format_args!("{0:s}", self));
        outcome.expect("a formatting trait implementation returned an error");
        writer.finish().expect("String cannot fail")
'''),
('ansi/src/to_string.rs', '''use crate::format;

''', ''),
('html/src/to_string.rs', '''        format!("{:s}", self)
''', '''        format!("{this:s}", this = &self)
'''),
('core/src/to_string.rs', '''        format!("{:s}", self)
''', '''        crate::format(crate::format_args!("{:s}", &&self))
'''),
]),
dict(id='plain-generic-sink', edits=[
('plain/src/plain.rs', '''        self.inner.write_str(s)
    }
''', '''        let Plain { inner } = self;
        core::fmt::Write::write_str(inner, s)
    }

    fn write_char(&mut self, c: char, _style: Style) -> Result {
        self.inner.write_char(c)
    }
'''),
('plain/src/io.rs', '''        self.inner.write_all(s)
''', '''        let Self { inner } = self;
        std::io::Write::write_all(&mut *inner, s)
'''),
('plain/src/io.rs', '''        self.inner.flush()
''', '''        std::io::Write::by_ref(&mut self.inner).flush()
'''),
]),
]
