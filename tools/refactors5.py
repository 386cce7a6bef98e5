"""a fifth corpus of behaviour-preserving edits, in other idioms (see refrun.py)"""
R = lambda f: open('/repo/' + f).read()


def body(f, start, end, new):
    """replaces the text of file f from `start` up to (not including) `end`"""
    t = R(f)
    i = t.index(start)
    j = t.index(end, i)
    return (f, t[i:j], new)


WRITE_ALL = '''        while !buf.is_empty() {
            match self.write(buf, style) {
                Ok(0) => {
                    return Err(Error::new(
                        ErrorKind::WriteZero,
                        "failed to write whole buffer",
                    ));
                }
                Ok(n) => buf = &buf[n..],
                Err(ref e) if e.kind() == ErrorKind::Interrupted => {}
                Err(e) => return Err(e),
            }
        }
        Ok(())
'''
STRDISP = ('core/src/string.rs', '''        let mut styles = self.styles.iter().peekable();''', '''        Ok(())
    }
}
''')
EDITS = [
dict(id='io-all-loop', edits=[('core/src/io.rs', WRITE_ALL, '''        loop {
            if buf.is_empty() {
                break Ok(());
            }
            let written = match self.write(buf, style) {
                Ok(written) => written,
                Err(err) if matches!(err.kind(), ErrorKind::Interrupted) => continue,
                Err(err) => break Err(err),
            };
            if written == 0 {
                break Err(ErrorKind::WriteZero.into());
            }
            let (_, rest) = buf.split_at(written);
            buf = rest;
        }
''')]),
dict(id='io-all-helper', edits=[('core/src/io.rs', WRITE_ALL, '''        fn step<W: Write + ?Sized>(writer: &mut W, buf: &[u8], style: Style) -> Result<usize> {
            match writer.write(buf, style) {
                Ok(0) => Err(Error::new(
                    ErrorKind::WriteZero,
                    "failed to write whole buffer",
                )),
                Err(err) if err.kind() == ErrorKind::Interrupted => Ok(0),
                other => other,
            }
        }

        while let [_, ..] = buf {
            let done = step(self, buf, style)?;
            buf = buf.get(done..).expect("more was written than there is");
        }
        Ok(())
''')]),
dict(id='io-all-offset-for', edits=[('core/src/io.rs', WRITE_ALL, '''        let total = buf.len();
        let mut offset = 0;
        while offset != total {
            offset += match self.write(&buf[offset..total], style) {
                Ok(0) => return Err(Error::from(ErrorKind::WriteZero)),
                Ok(n) => n,
                Err(err) => {
                    if err.kind() != ErrorKind::Interrupted {
                        return Err(err);
                    }
                    0
                }
            };
        }
        let _ = &mut buf;
        Ok(())
''')]),
dict(id='string-tail-pattern', edits=[body(*STRDISP, '''        let mut rest = self.styles.as_slice();
        while let [(start, style), tail @ ..] = rest {
            let end = match tail {
                [(end, _), ..] => *end,
                [] => self.string.len(),
            };
            f.with(*style).write_str(&self.string[*start..end])?;
            rest = tail;
        }
''')]),
dict(id='string-split-text', edits=[body(*STRDISP, '''        let mut text = self.string.as_str();
        let mut at = 0;
        for (i, &(_, style)) in self.styles.iter().enumerate() {
            let next = match self.styles.get(i + 1) {
                Some(&(next, _)) => next,
                None => at + text.len(),
            };
            let (piece, rest) = text.split_at(next - at);
            Formatter::write_str(&mut f.with(style), piece)?;
            text = rest;
            at = next;
        }
''')]),
dict(id='string-split-last', edits=[body(*STRDISP, '''        for pair in self.styles.windows(2) {
            let (start, style) = pair[0];
            f.with(style).write_str(&self.string[start..pair[1].0])?;
        }
        if let Some(&(start, style)) = self.styles.last() {
            f.with(style).write_str(&self.string[start..])?;
        }
''')]),
dict(id='string-write-match', edits=[('core/src/string.rs', '''        if Some(style) != self.styles.last().map(|&(_, style)| style) {
            self.styles.push((self.string.len(), style));
        }
        self.string.push_str(s);
        Ok(())
''', '''        let Self { string, styles } = self;
        match styles.last() {
            Some((_, last)) if *last == style => {}
            Some(_) | None => {
                let start = string.len();
                styles.extend(Some((start, style)));
            }
        }
        *string += s;
        Ok(())
''')]),
dict(id='string-char', edits=[('core/src/string.rs', '''        self.string.push_str(s);
        Ok(())
    }
''', '''        self.string.push_str(s);
        Ok(())
    }

    #[inline]
    fn write_char(&mut self, c: char, style: Style) -> Result {
        match self.styles.last() {
            Some(&(_, last)) if last == style => {}
            _ => self.styles.push((self.string.len(), style)),
        }
        self.string.push(c);
        Ok(())
    }
''')]),
dict(id='ansi-separator', edits=[
body('ansi/src/ansi.rs', '''            let mut segments = segments.iter()''', '''        self.current = style;
''', '''            let mut before = "\\x1b[";
            let mut after = "";
            for segment in IntoIterator::into_iter(segments).flatten() {
                self.inner.write_str(before)?;
                self.inner.write_str(segment)?;
                before = ";";
                after = "m";
            }
            if !after.is_empty() {
                self.inner.write_str(after)?;
            }
        }
'''),
body('ansi/src/io.rs', '''            let mut segments = segments.iter()''', '''        self.current = style;
''', '''            let mut separators = core::iter::once(&b"\\x1b["[..]).chain(core::iter::repeat(&b";"[..]));
            for segment in segments.iter().flatten() {
                if let Some(separator) = separators.next() {
                    self.inner.write_all(separator)?;
                }
                self.inner.write_all(segment.as_bytes())?;
            }
            if segments.iter().any(Option::is_some) {
                self.inner.write_all(b"m")?;
            }
        }
'''),
]),
dict(id='ansi-display', edits=[
body('ansi/src/ansi.rs', '''        if self.current != style && style''', '''        self.current = style;
''', '''        struct Change(Style, Style);

        impl fmt::Display for Change {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                let &Change(from, to) = self;
                if from == to {
                    return Ok(());
                }
                if to == Style::default() {
                    return f.write_str("\\x1b[0m");
                }
                let diff = to.diff_from(from);
                let mut separator = "";
                f.write_str("\\x1b[")?;
                if let Some(color) = diff.foreground {
                    f.write_str(util::foreground(color))?;
                    separator = ";";
                }
                if let Some(color) = diff.background {
                    f.write_str(separator)?;
                    f.write_str(util::background(color))?;
                    separator = ";";
                }
                if let Some(new) = diff.intensity {
                    f.write_str(separator)?;
                    f.write_str(util::intensity(from.intensity, new))?;
                }
                f.write_str("m")
            }
        }

        write!(self.inner, "{}", Change(self.current, style))?;
'''),
]),
dict(id='ansi-eight-cases', edits=[
body('ansi/src/io.rs', '''            let segments = [''', '''        self.current = style;
''', '''            let intensity = diff.intensity.map(|new| util::intensity(original, new));
            let planes = (
                diff.foreground.map(util::foreground),
                diff.background.map(util::background),
            );
            let segments: &[&str] = &match (planes, intensity) {
                ((None, None), None) => ["", "", ""],
                ((Some(a), None), None) | ((None, Some(a)), None) | ((None, None), Some(a)) => [a, "", ""],
                ((Some(a), Some(b)), None) | ((Some(a), None), Some(b)) | ((None, Some(a)), Some(b)) => [a, b, ""],
                ((Some(a), Some(b)), Some(c)) => [a, b, c],
            };
            for (i, segment) in segments.iter().take_while(|s| !s.is_empty()).enumerate() {
                self.inner.write_all(if i == 0 { b"\\x1b[" } else { b";" })?;
                self.inner.write_all(segment.as_bytes())?;
            }
            if segments[0] != "" {
                self.inner.write_all(b"m")?;
            }
        }
'''),
]),
dict(id='html-chain', edits=[
body('html/src/html.rs', '''            let segments = [''', '''        self.current = style;
''', '''            let mut segments = diff
                .foreground
                .map(util::foreground)
                .into_iter()
                .chain(diff.background.map(util::background))
                .chain(diff.intensity.map(util::intensity))
                .peekable();
            if segments.peek().is_some() && self.current != Style::default() {
                self.inner.write_str("</span>")?;
            }
            let mut lead = "<span style=";
            while let Some(segment) = segments.next() {
                self.inner.write_str(lead)?;
                self.inner.write_str(segment)?;
                lead = ";";
                if segments.peek().is_none() {
                    self.inner.write_char('>')?;
                }
            }
        }
'''),
]),
dict(id='html-display', edits=[
body('html/src/html.rs', '''        if style == Style::default() {''', '''        write!(self.inner, "{}", escape''', '''        struct Open(Style);

        impl fmt::Display for Open {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                let diff = self.0.diff_from(Style::default());
                f.write_str("<span style=")?;
                let mut rest = false;
                let mut declare = |declaration: Option<&str>| match declaration {
                    Some(declaration) if rest => write!(f, ";{declaration}"),
                    Some(declaration) => {
                        rest = true;
                        f.write_str(declaration)
                    }
                    None => Ok(()),
                };
                declare(diff.foreground.map(util::foreground))?;
                declare(diff.background.map(util::background))?;
                declare(diff.intensity.map(util::intensity))?;
                f.write_str(">")
            }
        }

        if style != self.current {
            if self.current != Style::default() {
                self.inner.write_str("</span>")?;
            }
            if style != Style::default() {
                write!(self.inner, "{}", Open(style))?;
            }
        }
        self.current = style;

'''),
]),
dict(id='html-replace', edits=[
body('html/src/html.rs', '''        if style == Style::default() {''', '''        write!(self.inner, "{}", escape''', '''        let plain = Style::default();
        let Html { inner, current } = self;
        if *current != style && *current != plain {
            inner.write_str("</span>")?;
        }
        if *current != style && style != plain {
            let diff = style.diff_from(plain);
            let mut segments = [
                diff.foreground.map(util::foreground),
                diff.background.map(util::background),
                diff.intensity.map(util::intensity),
            ]
            .into_iter()
            .flatten();
            inner.write_str("<span style=")?;
            inner.write_str(segments.next().unwrap_or_default())?;
            segments.try_for_each(|segment| {
                inner.write_str(";")?;
                inner.write_str(segment)
            })?;
            inner.write_str(">")?;
        }
        let _ = core::mem::replace(current, style);

'''),
]),
dict(id='formatter-common', edits=[
('core/src/formatter.rs', '''        Formatter {
            write: &mut *self.write,
            format: self.format,
            style: self.style.with(restyle),
        }
    }
''', '''        let args = self.format;
        self.with_args(&args, restyle)
    }
'''),
]),
dict(id='io-trap-result', edits=[
body('core/src/io.rs', '''struct ErrorTrap<W: Write> {''', '''/// A trait for objects which are byte-oriented sinks''', '''struct ErrorTrap<W: Write> {
    inner: W,
    result: Result<()>,
}

impl<W: Write> crate::Write for ErrorTrap<W> {
    fn write_str(&mut self, s: &str, style: Style) -> crate::Result {
        self.inner
            .write_all(s.as_bytes(), style)
            .map_err(|err| self.result = Err(err))
            .map_err(|()| crate::Error)
    }
}

'''),
('core/src/io.rs', '''        let mut trap = ErrorTrap::new(self);

        crate::Write::write_fmt(&mut trap, args).map_err(|crate::Error| trap.error())
''', '''        let mut trap = ErrorTrap {
            inner: self,
            result: Ok(()),
        };

        if crate::Write::write_fmt(&mut trap, args).is_ok() {
            return Ok(());
        }
        trap.result?;
        Err(Error::new(ErrorKind::Other, "formatter error"))
'''),
]),
dict(id='style-then', edits=[
('style/src/lib.rs', '''            if original == new {
                None
            } else {
                Some(new)
            }
''', '''            (original != new).then(move || new)
'''),
('style/src/lib.rs', '''        self.as_ref().map_or(style, |s| s.apply(style))
''', '''        if let Some(restyle) = self {
            return style.with(restyle);
        }
        style
'''),
('style/src/lib.rs', '''        for restyle in self {
            style = restyle.apply(style);
        }
        style
''', '''        let mut restyles = self.iter();
        while let Some(restyle) = restyles.next() {
            style = style.with(restyle);
        }
        style
'''),
('style/src/lib.rs', '''        (
            self.foreground.map(Foreground),
            self.background.map(Background),
            self.intensity,
        )
            .apply(style)
''', '''        Style {
            foreground: self.foreground.unwrap_or(style.foreground),
            background: self.background.unwrap_or(style.background),
            intensity: match self.intensity {
                Some(intensity) => intensity,
                None => style.intensity,
            },
        }
'''),
]),
dict(id='format-shared', edits=[
('ansi/src/format.rs', '''    let mut ansi = Ansi::new(String::new());
    ansi.write_fmt(args)
        .expect("a formatting trait implementation returned an error");
    ansi.finish().expect("String cannot fail")
''', '''    let mut text = String::with_capacity(64);
    let mut ansi = Ansi::new(&mut text);
    match ansi.write_fmt(args) {
        Ok(()) => {}
        Err(_) => panic!("a formatting trait implementation returned an error"),
    }
    let _: &mut String = ansi.finish().unwrap();
    text
'''),
('html/src/format.rs', '''    let mut html = Html::new(String::new());
    html.write_fmt(args)
        .expect("a formatting trait implementation returned an error");
    html.finish().expect("String cannot fail")
''', '''    fn render(args: Arguments<'_>) -> core::result::Result<String, core::fmt::Error> {
        let mut html = Html::new(String::new());
        html.write_fmt(args)?;
        html.finish()
    }

    render(args).expect("a formatting trait implementation returned an error")
'''),
]),
dict(id='macro-lookup', edits=[
('macros/src/lib.rs', '''    let named_args_names: HashMap<String, usize> = named_args_names
        .into_iter()
        .map(|name| name.to_string())
        .enumerate()
        .map(|(i, s)| (s, i))
        .collect();
    if named_args_names.len() != named_args_values.len() {
        panic!("duplicate named argument");
    }
''', '''    let mut names: HashMap<String, usize> = HashMap::with_capacity(named_args_values.len());
    for (i, name) in named_args_names.into_iter().enumerate() {
        if names.insert(name.to_string(), i).is_some() {
            panic!("duplicate named argument {name}");
        }
    }
    let named_args_names = names;
'''),
('macros/src/lib.rs', '''    let unused_positional_args =
        &HashSet::from_iter(0..num_positional_args) - &used_positional_args;
    let unused_named_args =
        &HashSet::from_iter(named_args_names.keys().cloned()) - &used_named_args;
    if !unused_positional_args.is_empty() || !unused_named_args.is_empty() {
        panic!("unused formatting arguments");
    }
''', '''    let all_positional = (0..num_positional_args).all(|i| used_positional_args.contains(&i));
    assert!(
        all_positional && named_args_names.len() == used_named_args.len(),
        "unused formatting arguments"
    );
'''),
]),
dict(id='macro-colour-order', edits=[
('macros/src/format.rs', '''        alt((
            value(Color::Black, tag("black")),
            value(Color::Red, tag("red")),
            value(Color::Green, tag("green")),
            value(Color::Yellow, tag("yellow")),
            value(Color::Blue, tag("blue")),
            value(Color::Magenta, tag("magenta")),
            value(Color::Cyan, tag("cyan")),
            value(Color::White, tag("white")),
            value(Color::Default, tag("default")),
        ))(input)
''', '''        map_res(nom::character::complete::alpha1, |name| match name {
            "default" => Ok(Color::Default),
            "black" => Ok(Color::Black),
            "white" => Ok(Color::White),
            "red" => Ok(Color::Red),
            "green" => Ok(Color::Green),
            "blue" => Ok(Color::Blue),
            "yellow" => Ok(Color::Yellow),
            "magenta" => Ok(Color::Magenta),
            "cyan" => Ok(Color::Cyan),
            other => Err(other.to_owned()),
        })(input)
'''),
('macros/src/format.rs', '''        let (input, format_spec) = opt(preceded(tag(":"), FormatSpec::parse))(input)?;
        Ok((
            input,
            Self {
                arg,
                format_spec: format_spec.unwrap_or_default(),
            },
        ))
''', '''        match input.strip_prefix(':') {
            None => Ok((
                input,
                Self {
                    arg,
                    format_spec: FormatSpec::default(),
                },
            )),
            Some(input) => map(FormatSpec::parse, move |format_spec| Self { arg, format_spec })(input),
        }
'''),
]),
dict(id='macro-reverse-diff', edits=[
('macros/src/format.rs', '''                let mut diff = StyleDiff::default();
                for attribute in attributes.unwrap_or_default() {
                    match attribute {
                        Attribute::Foreground(color) => diff.foreground = Some(color),
                        Attribute::Background(color) => diff.background = Some(color),
                        Attribute::Intensity(intensity) => diff.intensity = Some(intensity),
                    }
                }
                diff
''', '''                let attributes = attributes.unwrap_or_default();
                attributes
                    .into_iter()
                    .rev()
                    .fold(StyleDiff::default(), |mut diff, attribute| {
                        // the first one seen from the end is the one that counts
                        match attribute {
                            Attribute::Foreground(color) => {
                                diff.foreground.get_or_insert(color);
                            }
                            Attribute::Background(color) => {
                                diff.background.get_or_insert(color);
                            }
                            Attribute::Intensity(intensity) => {
                                diff.intensity.get_or_insert(intensity);
                            }
                        }
                        diff
                    })
'''),
]),
dict(id='plain-fields', edits=[
('plain/src/io.rs', '''        self.inner.write_all(s)
''', '''        let Self { inner } = self;
        T::write_all(inner, s)
'''),
('plain/src/io.rs', '''        self.inner.write(s)
''', '''        let count = self.inner.write(s)?;
        Ok(count)
'''),
('plain/src/io.rs', '''        self.inner.flush()
''', '''        match self.inner.flush() {
            Ok(()) => Ok(()),
            Err(error) => Err(error),
        }
'''),
]),
]
