R = lambda f: open('/repo/' + f).read()


def swap(f, *prs):
    return [(f, a, b) for a, b in prs]


EDITS = [
dict(id='module-moves', edits=[
('core/src/formatting.rs', None, R('core/src/formatter.rs')),
('core/src/attributed.rs', None, R('core/src/string.rs')),
('core/src/std_compat.rs', None, R('core/src/std_compat.rs').replace('crate::formatter::', 'crate::formatting::')),
('core/src/lib.rs', None, R('core/src/lib.rs').replace('mod formatter;', 'mod formatting;').replace('formatter::{', 'formatting::{').replace('formatter::Formatter', 'formatting::Formatter').replace('mod string;', 'mod attributed;').replace('string::String}', 'attributed::String}')),
('ansi/src/text.rs', None, R('ansi/src/ansi.rs')),
('ansi/src/lib.rs', None, R('ansi/src/lib.rs').replace('mod ansi;', 'mod text;').replace('self::ansi::Ansi', 'self::text::Ansi')),
]),
dict(id='style-macros', edits=[
('style/src/lib.rs', '''impl Restyle for Foreground {
    #[inline]
    fn apply(&self, style: Style) -> Style {
        let &Foreground(foreground) = self;
        Style {
            foreground,
            ..style
        }
    }
}

impl Restyle for Background {
    #[inline]
    fn apply(&self, style: Style) -> Style {
        let &Background(background) = self;
        Style {
            background,
            ..style
        }
    }
}
''', '''macro_rules! plane {
    ($plane:ident, $field:ident) => {
        impl Restyle for $plane {
            #[inline]
            fn apply(&self, mut style: Style) -> Style {
                core::mem::replace(&mut style.$field, self.0);
                style
            }
        }
    };
}

plane!(Foreground, foreground);
plane!(Background, background);
'''.replace('core::mem::replace', 'let _ = core::mem::replace')),
('style/src/lib.rs', '''        style.with(&self.0).with(&self.1)
    }
}

impl<T: Restyle, U: Restyle, V''', '''        let Self(ref first, ref second) = *self;
        [first as &dyn Restyle, second].apply(style)
    }
}

impl<T: Restyle, U: Restyle, V'''.replace('let Self(ref first, ref second) = *self', 'let (ref first, ref second) = *self')),
('style/src/lib.rs', '''        self.as_ref().map_or(style, |s| s.apply(style))
''', '''        self.iter().fold(style, |style, restyle| restyle.apply(style))
'''),
]),
dict(id='style-recursion', edits=[
('style/src/lib.rs', '''    fn apply(&self, mut style: Style) -> Style {
        for restyle in self {
            style = restyle.apply(style);
        }
        style
''', '''    fn apply(&self, style: Style) -> Style {
        match self {
            [] => style,
            [first, rest @ ..] => rest.apply(first.apply(style)),
        }
'''),
('style/src/lib.rs', '''            if original == new {
                None
            } else {
                Some(new)
            }
''', '''            Some(new).filter(|new| *new != original)
'''),
]),
dict(id='style-index-loop', edits=[
('style/src/lib.rs', '''        for restyle in self {
            style = restyle.apply(style);
        }
        style
''', '''        let mut done = 0;
        loop {
            if done == self.len() {
                return style;
            }
            style = style.with(&self[done]);
            done += 1;
        }
'''),
('style/src/lib.rs', '''impl Default for Color {
    #[inline]
    fn default() -> Self {
        Self::Default
    }
}
''', ''),
('style/src/lib.rs', '''#[allow(dead_code)]
#[derive(Copy, Clone, Debug, Eq, PartialEq)]
''', '''#[allow(dead_code)]
#[derive(Copy, Clone, Debug, Default, Eq, PartialEq)]
'''),
('style/src/lib.rs', '''    /// Default color
    Default,
''', '''    /// Default color
    #[default]
    Default,
'''),
]),
dict(id='formatter-derive', edits=[
('core/src/formatter.rs', '''        Formatter {
            write: &mut *self.write,
            format: self.format,
            style: self.style.with(restyle),
        }
    }

    #[doc(hidden)]
''', '''        let format = self.format;
        self.derive(format, restyle)
    }

    /// A formatter for the same stream with other flags and style.
    fn derive<'b>(&'b mut self, format: FormatterArgs<'b>, restyle: impl Restyle) -> Formatter<'b> {
        let style = restyle.apply(self.style);
        let mut derived = Formatter::new(self.write);
        derived.style = style;
        derived.format = format;
        derived
    }

    #[doc(hidden)]
'''),
('core/src/formatter.rs', '''        Formatter {
            write: &mut *self.write,
            format: *format,
            style: self.style.with(restyle),
        }
''', '''        self.derive(*format, restyle)
'''),
('core/src/formatter.rs', '''        self.write.write_str(s, self.style)?;
        Ok(())
''', '''        let Self { style, write, .. } = self;
        match write.write_str(s, *style) {
            Ok(()) => Ok(()),
            Err(error) => Err(error),
        }
'''),
('core/src/formatter.rs', '''        args.fmt(self)?;
        Ok(())
''', '''        (args.f)(self)
'''),
('core/src/formatter.rs', '''        self.with(style).write_str(s)
''', '''        let mut styled = self.with(style);
        Formatter::write_str(&mut styled, s)
'''),
]),
dict(id='io-closures', edits=[
('core/src/io.rs', '''        match self.inner.write_all(s.as_bytes(), style) {
            Ok(()) => Ok(()),
            Err(err) => {
                self.error = Some(err);
                Err(crate::Error)
            }
        }
''', '''        let Self { inner, error } = self;
        inner.write_all(s.as_bytes(), style).map_err(|err| {
            error.replace(err);
            crate::Error
        })
'''),
('core/src/io.rs', '''        let mut trap = ErrorTrap::new(self);

        crate::Write::write_fmt(&mut trap, args).map_err(|crate::Error| trap.error())
''', '''        let mut trap = ErrorTrap::new(self);
        if let Err(crate::Error) = crate::Formatter::new(&mut trap).write_fmt(args) {
            return Err(trap.error());
        }
        Ok(())
'''),
('core/src/io.rs', '''        while !buf.is_empty() {
            match self.write(buf, style) {
                Ok(0) => {
                    return Err(Error::new(
                        ErrorKind::WriteZero,
                        "failed to write whole buffer",
                    ));
                }
                Ok(n) => buf = &buf[n..],
                Err(ref e) if e.kind() == ErrorKind::Interrupted => {}
                Err(e) => return Err(e),
            }
        }
        Ok(())
''', '''        loop {
            if buf.is_empty() {
                break Ok(());
            }
            let written = match self.write(buf, style) {
                Err(e) => match e.kind() {
                    ErrorKind::Interrupted => continue,
                    _ => break Err(e),
                },
                Ok(written) => written,
            };
            if written == 0 {
                return Err(ErrorKind::WriteZero.into());
            }
            let (_, rest) = buf.split_at(written);
            buf = rest;
        }
'''),
]),
dict(id='io-counter', edits=[
('core/src/io.rs', '''    fn write_all(&mut self, mut buf: &[u8], style: Style) -> Result<()> {
        while !buf.is_empty() {
            match self.write(buf, style) {
                Ok(0) => {
                    return Err(Error::new(
                        ErrorKind::WriteZero,
                        "failed to write whole buffer",
                    ));
                }
                Ok(n) => buf = &buf[n..],
''', '''    fn write_all(&mut self, buf: &[u8], style: Style) -> Result<()> {
        let mut done = 0;
        while done < buf.len() {
            match self.write(&buf[done..], style) {
                Ok(0) => {
                    return Err(Error::new(
                        ErrorKind::WriteZero,
                        "failed to write whole buffer",
                    ));
                }
                Ok(n) => done += n,
'''),
]),
dict(id='string-zip', edits=[
('core/src/string.rs', '''        let mut styles = self.styles.iter().peekable();
        while let Some(&(start, style)) = styles.next() {
            let end = styles
                .peek()
                .map(|&&(end, _)| end)
                .unwrap_or_else(|| self.string.len());
            f.with(style).write_str(&self.string[start..end])?;
        }
        Ok(())
''', '''        let ends = self
            .styles
            .iter()
            .skip(1)
            .map(|&(start, _)| start)
            .chain(core::iter::once(self.string.len()));
        for (&(start, style), end) in self.styles.iter().zip(ends) {
            f.with(style).write_str(&self.string[start..end])?;
        }
        Ok(())
'''),
]),
dict(id='string-index', edits=[
('core/src/string.rs', '''        let mut styles = self.styles.iter().peekable();
        while let Some(&(start, style)) = styles.next() {
            let end = styles
                .peek()
                .map(|&&(end, _)| end)
                .unwrap_or_else(|| self.string.len());
            f.with(style).write_str(&self.string[start..end])?;
        }
        Ok(())
''', '''        for (i, &(start, style)) in self.styles.iter().enumerate() {
            let rest = &self.string[start..];
            let text = match self.styles.get(i + 1) {
                Some(&(end, _)) => &rest[..end - start],
                None => rest,
            };
            f.with(style).write_str(text)?;
        }
        Ok(())
'''),
('core/src/string.rs', '''        if Some(style) != self.styles.last().map(|&(_, style)| style) {
            self.styles.push((self.string.len(), style));
        }
        self.string.push_str(s);
        Ok(())
''', '''        let start = self.string.len();
        self.string += s;
        match self.styles.last() {
            Some(&(_, last)) if last == style => {}
            _ => self.styles.push((start, style)),
        }
        Ok(())
'''),
]),
dict(id='string-try-for-each', edits=[
('core/src/string.rs', '''        let mut styles = self.styles.iter().peekable();
        while let Some(&(start, style)) = styles.next() {
            let end = styles
                .peek()
                .map(|&&(end, _)| end)
                .unwrap_or_else(|| self.string.len());
            f.with(style).write_str(&self.string[start..end])?;
        }
        Ok(())
''', '''        let mut end = self.string.len();
        let mut runs = alloc::vec::Vec::with_capacity(self.styles.len());
        for &(start, style) in self.styles.iter().rev() {
            runs.push((&self.string[start..end], style));
            end = start;
        }
        runs.into_iter()
            .rev()
            .try_for_each(|(text, style)| f.with(style).write_str(text))
'''),
]),
dict(id='ansi-optional-current', edits=[
('ansi/src/ansi.rs', '''    inner: T,
    current: Style,
}
''', '''    inner: T,
    current: Option<Style>,
}
'''),
('ansi/src/ansi.rs', '''            inner,
            current: Style::default(),
''', '''            inner,
            current: None,
'''),
('ansi/src/ansi.rs', '''        if self.current != Style::default() {
            self.inner.write_str("\\x1b[0m")?;
        }
        Ok(self.inner)
''', '''        if self.current.is_some() {
            self.inner.write_str("\\x1b[0m")?;
        }
        Ok(self.inner)
'''),
('ansi/src/ansi.rs', '''        if self.current != style && style == Style::default() {
            self.inner.write_str("\\x1b[0m")?;
        } else {
            let original = self.current.intensity;
            let diff = style.diff_from(self.current);
''', '''        let current = self.current.unwrap_or_default();
        if current != style && style == Style::default() {
            self.inner.write_str("\\x1b[0m")?;
        } else {
            let original = current.intensity;
            let diff = style.diff_from(current);
'''),
('ansi/src/ansi.rs', '''        self.current = style;

        write!''', '''        self.current = if style == Style::default() { None } else { Some(style) };

        write!'''),
]),
dict(id='ansi-numbers', edits=[
('ansi/src/ansi.rs', '''                diff.foreground.map(util::foreground),
                diff.background.map(util::background),
                diff.intensity.map(|new| util::intensity(original, new)),
            ];
            let mut segments = segments.iter().filter_map(|&s| s);
            if let Some(segment) = segments.next() {
                self.inner.write_str("\\x1b[")?;
                self.inner.write_str(segment)?;
                for segment in segments {
                    self.inner.write_str(";")?;
                    self.inner.write_str(segment)?;
                }
                self.inner.write_str("m")?;
            }
''', '''                diff.foreground.map(util::foreground),
                diff.background.map(util::background),
                diff.intensity.map(|new| util::intensity(original, new)),
            ];
            let count = segments.iter().filter(|s| s.is_some()).count();
            let mut n = 0;
            for segment in segments.iter().copied().flatten() {
                n += 1;
                write!(
                    self.inner,
                    "{}{segment}{}",
                    if n == 1 { "\\x1b[" } else { "" },
                    if n == count { 'm' } else { ';' }
                )?;
            }
'''),
('ansi/src/ansi.rs', '''        write!(self.inner, "{s}")?;
        Ok(())
''', '''        self.inner.write_str(s)?;
        Ok(())
'''),
]),
dict(id='html-open-flag', edits=[
('html/src/html.rs', '''    inner: T,
    current: Style,
}
''', '''    inner: T,
    current: Style,
    open: bool,
}
'''),
('html/src/html.rs', '''            inner,
            current: Style::default(),
''', '''            inner,
            current: Style::default(),
            open: false,
'''),
('html/src/html.rs', '''        if self.current != Style::default() {
            self.inner.write_str("</span>")?;
        }
        Ok(self.inner)
''', '''        if self.open {
            self.inner.write_str("</span>")?;
        }
        Ok(self.inner)
'''),
('html/src/html.rs', '''            if self.current != Style::default() {
                self.inner.write_str("</span>")?;
            }
        } else''', '''            if self.open {
                self.inner.write_str("</span>")?;
                self.open = false;
            }
        } else'''),
('html/src/html.rs', '''                if self.current != Style::default() {
                    self.inner.write_str("</span>")?;
                }
''', '''                if self.open {
                    self.inner.write_str("</span>")?;
                    self.open = false;
                }
'''),
('html/src/html.rs', '''                self.inner.write_str(">")?;
            }
''', '''                self.inner.write_str(">")?;
                self.open = true;
            }
'''),
]),
dict(id='format-fns', edits=[
('ansi/src/format.rs', '''    let mut ansi = Ansi::new(String::new());
    ansi.write_fmt(args)
        .expect("a formatting trait implementation returned an error");
    ansi.finish().expect("String cannot fail")
''', '''    let mut output = String::with_capacity(32);
    let mut ansi = Ansi::new(&mut output);
    if ansi.write_fmt(args).is_err() {
        panic!("a formatting trait implementation returned an error");
    }
    ansi.finish().expect("String cannot fail");
    output
'''),
('html/src/format.rs', '''    let mut html = Html::new(String::new());
    html.write_fmt(args)
        .expect("a formatting trait implementation returned an error");
    html.finish().expect("String cannot fail")
''', '''    fn render(args: Arguments<'_>) -> Result<String, core::fmt::Error> {
        let mut html = Html::<String>::default();
        html.write_fmt(args)?;
        html.finish()
    }
    render(args).expect("a formatting trait implementation returned an error")
'''),
('core/src/format.rs', '''    let mut output = String::new();
    output
        .write_fmt(args)
        .expect("a formatting trait implementation returned an error");
    output
''', '''    let mut output = String::default();
    match crate::Formatter::new(&mut output).write_fmt(args) {
        Ok(()) => output,
        Err(error) => panic!("a formatting trait implementation returned an error: {error:?}"),
    }
'''),
('ansi/src/to_string.rs', '''        format!("{:s}", self)
''', '''        format!("{text:s}", text = &self)
'''),
]),
dict(id='write-defaults', edits=[
('core/src/write.rs', '''        self.write_str(c.encode_utf8(&mut [0; 4]), style)
''', '''        let mut buffer = [0; 4];
        let text: &str = c.encode_utf8(&mut buffer);
        self.write_str(text, style)
'''),
('core/src/write.rs', '''        Formatter::new(&mut self).write_fmt(args)
''', '''        let mut formatter = Formatter::new(&mut self);
        crate::Display::fmt(&args, &mut formatter)
'''),
('core/src/write.rs', '''        (**self).write_char(c, style)
''', '''        W::write_char(self, c, style)
'''),
('core/src/display.rs', '''        (**self).fmt(f)
''', '''        T::fmt(self, f)
'''),
('core/src/write.rs', '''        $crate::write!($dst, "\\n")
''', '''        $crate::writeln!($dst, "")
'''),
('src/lib.rs', '''pub fn html<T: core::fmt::Write>(inner: T) -> Html<T> {
    Html::new(inner)
''', '''pub fn html<T>(inner: T) -> Html<T>
where
    T: core::fmt::Write,
{
    let html = Html::new(inner);
    html
'''),
]),
dict(id='plain-merge', edits=[
('plain/src/io.rs', '''    fn write_all(&mut self, s: &[u8], _style: Style) -> Result<()> {
        self.inner.write_all(s)
''', '''    fn write_all(&mut self, s: &[u8], _: Style) -> Result<()> {
        let Self { inner } = self;
        std::io::Write::write_all(inner, s)?;
        Ok(())
'''),
('plain/src/io.rs', '''        self.inner.write(s)
''', '''        match self.inner.write(s) {
            Ok(n) => Ok(n),
            Err(e) => Err(e),
        }
'''),
]),
dict(id='ansi-borrowed-text', edits=[
('ansi/src/format.rs', '''    let mut ansi = Ansi::new(String::new());
    ansi.write_fmt(args)
        .expect("a formatting trait implementation returned an error");
    ansi.finish().expect("String cannot fail")
''', '''    let mut text = String::with_capacity(16);
    let mut writer = Ansi::new(&mut text);
    match writer.write_fmt(args) {
        Ok(()) => {}
        Err(e) => panic!("a formatting trait implementation returned an error: {e:?}"),
    }
    let _ = writer.finish().expect("String cannot fail");
    text
'''),
('ansi/src/to_string.rs', '''        format!("{:s}", self)
''', '''        let value = self;
        crate::format(stylish_core::format_args!("{value:s}"))
'''),
]),
dict(id='html-borrowed-text', edits=[
('html/src/format.rs', '''    let mut html = Html::new(String::new());
    html.write_fmt(args)
        .expect("a formatting trait implementation returned an error");
    html.finish().expect("String cannot fail")
''', '''    let mut text = String::with_capacity(16);
    let mut writer = Html::new(&mut text);
    match writer.write_fmt(args) {
        Ok(()) => {}
        Err(e) => panic!("a formatting trait implementation returned an error: {e:?}"),
    }
    let _ = writer.finish().expect("String cannot fail");
    text
'''),
('html/src/to_string.rs', '''        format!("{:s}", self)
''', '''        let value = self;
        crate::format(stylish_core::format_args!("{value:s}"))
'''),
]),
]
