EDITS = [
dict(id='style-idioms', edits=[
('style/src/lib.rs','''        fn diff<T: PartialEq>(original: T, new: T) -> Option<T> {
            if original == new {
                None
            } else {
                Some(new)
            }
        }

        StyleDiff {
            foreground: diff(original.foreground, self.foreground),
            background: diff(original.background, self.background),
            intensity: diff(original.intensity, self.intensity),
        }
''','''        let mut diff = StyleDiff::default();
        if self == original {
            return diff;
        }
        if self.foreground != original.foreground {
            diff.foreground = Some(self.foreground);
        }
        diff.background = (self.background != original.background).then(|| self.background);
        diff.intensity = match (self.intensity, original.intensity) {
            (new, old) if new == old => None,
            (new, _) => Some(new),
        };
        diff
'''),
('style/src/lib.rs','''        for restyle in self {
            style = restyle.apply(style);
        }
        style
''','''        let mut rest = self;
        while let [first, tail @ ..] = rest {
            style = first.apply(style);
            rest = tail;
        }
        style
'''),
('style/src/lib.rs','''        self.as_ref().map_or(style, |s| s.apply(style))
''','''        if let Some(restyle) = self {
            restyle.apply(style)
        } else {
            style
        }
'''),
('style/src/lib.rs','''        (
            self.foreground.map(Foreground),
            self.background.map(Background),
            self.intensity,
        )
            .apply(style)
''','''        Style {
            foreground: self.foreground.unwrap_or(style.foreground),
            background: match self.background {
                Some(background) => background,
                None => style.background,
            },
            intensity: self.intensity.unwrap_or(style.intensity),
        }
'''),
('style/src/lib.rs','''        style.with(&self.0).with(&self.1).with(&self.2)
''','''        let (first, second, third) = self;
        third.apply(second.apply(first.apply(style)))
'''),
('style/src/lib.rs','''        let &Background(background) = self;
        Style {
            background,
            ..style
        }
''','''        let mut style = style;
        style.background = self.0;
        style
'''),
]),
dict(id='slice-fold', edits=[
('style/src/lib.rs','''    fn apply(&self, mut style: Style) -> Style {
        for restyle in self {
            style = restyle.apply(style);
        }
        style
''','''    fn apply(&self, style: Style) -> Style {
        self.iter().fold(style, |style, restyle| restyle.apply(style))
'''),
]),
dict(id='ansi-helpers', edits=[
('ansi/src/ansi.rs','''        if self.current != style && style == Style::default() {
            self.inner.write_str("\\x1b[0m")?;
        } else {
            let original = self.current.intensity;
            let diff = style.diff_from(self.current);
            let segments = [
                diff.foreground.map(util::foreground),
                diff.background.map(util::background),
                diff.intensity.map(|new| util::intensity(original, new)),
            ];
            let mut segments = segments.iter().filter_map(|&s| s);
            if let Some(segment) = segments.next() {
                self.inner.write_str("\\x1b[")?;
                self.inner.write_str(segment)?;
                for segment in segments {
                    self.inner.write_str(";")?;
                    self.inner.write_str(segment)?;
                }
                self.inner.write_str("m")?;
            }
        }
        self.current = style;

        write!(self.inner, "{s}")?;
        Ok(())
''','''        self.set_style(style)?;
        self.inner.write_str(s)
'''),
('ansi/src/ansi.rs','''    pub fn finish(mut self) -> Result<T, fmt::Error> {
        if self.current != Style::default() {
            self.inner.write_str("\\x1b[0m")?;
        }
        Ok(self.inner)
    }
''','''    pub fn finish(mut self) -> Result<T, fmt::Error> {
        self.set_style(Style::default())?;
        let Self { inner, .. } = self;
        Ok(inner)
    }

    /// Send whatever is needed to switch to a style.
    fn set_style(&mut self, style: Style) -> fmt::Result {
        if self.current == style {
            return Ok(());
        }
        if style == Style::default() {
            self.inner.write_str("\\x1b[0m")?;
        } else {
            self.change(style)?;
        }
        self.current = style;
        Ok(())
    }

    fn change(&mut self, style: Style) -> fmt::Result {
        let diff = style.diff_from(self.current);
        let mut prefix = "\\x1b[";
        if let Some(color) = diff.foreground {
            self.inner.write_str(prefix)?;
            self.inner.write_str(util::foreground(color))?;
            prefix = ";";
        }
        if let Some(color) = diff.background {
            self.inner.write_str(prefix)?;
            self.inner.write_str(util::background(color))?;
            prefix = ";";
        }
        if let Some(new) = diff.intensity {
            self.inner.write_str(prefix)?;
            self.inner.write_str(util::intensity(self.current.intensity, new))?;
        }
        self.inner.write_str("m")
    }
'''),
]),
dict(id='ansi-io-loop', edits=[
('ansi/src/io.rs','''            let mut segments = segments.iter().filter_map(|&s| s);
            if let Some(segment) = segments.next() {
                self.inner.write_all(b"\\x1b[")?;
                self.inner.write_all(segment.as_bytes())?;
                for segment in segments {
                    self.inner.write_all(b";")?;
                    self.inner.write_all(segment.as_bytes())?;
                }
                self.inner.write_all(b"m")?;
            }
        }
        self.current = style;

        self.inner.write(s)
''','''            let mut open = false;
            for segment in segments {
                let segment = match segment {
                    Some(segment) => segment,
                    None => continue,
                };
                write!(self.inner, "{}{}", if open { ";" } else { "\\x1b[" }, segment)?;
                open = true;
            }
            if open {
                self.inner.write_all(b"m")?;
            }
        }
        self.current = style;

        let written = self.inner.write(s)?;
        Ok(written)
'''),
('ansi/src/io.rs','''        if self.current != Style::default() {
            self.inner.write_all(b"\\x1b[0m")?;
        }
        Ok(self.inner)
''','''        match self.current == Style::default() {
            true => Ok(self.inner),
            false => self.inner.write_all(b"\\x1b[0m").map(|()| self.inner),
        }
'''),
]),
dict(id='ansi-io-buffer', edits=[
('ansi/src/io.rs','''            let mut segments = segments.iter().filter_map(|&s| s);
            if let Some(segment) = segments.next() {
                self.inner.write_all(b"\\x1b[")?;
                self.inner.write_all(segment.as_bytes())?;
                for segment in segments {
                    self.inner.write_all(b";")?;
                    self.inner.write_all(segment.as_bytes())?;
                }
                self.inner.write_all(b"m")?;
            }
''','''            let mut escape = std::string::String::new();
            for segment in segments.iter().flatten() {
                escape.push_str(if escape.is_empty() { "\\x1b[" } else { ";" });
                escape.push_str(segment);
            }
            if !escape.is_empty() {
                escape.push('m');
                self.inner.write_all(escape.as_bytes())?;
            }
'''),
]),
dict(id='ansi-io-vec', edits=[
('ansi/src/io.rs','''            let segments = [
                diff.foreground.map(util::foreground),
                diff.background.map(util::background),
                diff.intensity.map(|new| util::intensity(original, new)),
            ];
            let mut segments = segments.iter().filter_map(|&s| s);
            if let Some(segment) = segments.next() {
                self.inner.write_all(b"\\x1b[")?;
                self.inner.write_all(segment.as_bytes())?;
                for segment in segments {
                    self.inner.write_all(b";")?;
                    self.inner.write_all(segment.as_bytes())?;
                }
                self.inner.write_all(b"m")?;
            }
''','''            let mut codes: std::vec::Vec<&str> = std::vec::Vec::new();
            codes.extend(diff.foreground.map(util::foreground));
            codes.extend(diff.background.map(util::background));
            codes.extend(diff.intensity.map(|new| util::intensity(original, new)));
            if !codes.is_empty() {
                self.inner
                    .write_all(std::format!("\\x1b[{}m", codes.join(";")).as_bytes())?;
            }
'''),
]),
dict(id='ansi-table', edits=[
('ansi/src/util.rs','''pub(crate) fn background(color: Color) -> &'static str {
    match color {
        Color::Black => "40",
        Color::Red => "41",
        Color::Green => "42",
        Color::Yellow => "43",
        Color::Blue => "44",
        Color::Magenta => "45",
        Color::Cyan => "46",
        Color::White => "47",
        Color::Default => "49",
''','''const BACKGROUNDS: [&str; 8] = ["40", "41", "42", "43", "44", "45", "46", "47"];

pub(crate) fn background(color: Color) -> &'static str {
    match color {
        Color::Black => BACKGROUNDS[0],
        Color::Red => BACKGROUNDS[1],
        Color::Green => BACKGROUNDS[2],
        Color::Yellow => BACKGROUNDS[3],
        Color::Blue => BACKGROUNDS[4],
        Color::Magenta => BACKGROUNDS[5],
        Color::Cyan => BACKGROUNDS[6],
        Color::White => BACKGROUNDS[7],
        Color::Default => "49",
'''),
]),
dict(id='html-helpers', edits=[
('html/src/html.rs','''        if style == Style::default() {
            if self.current != Style::default() {
                self.inner.write_str("</span>")?;
            }
        } else if style != self.current {
            let diff = style.diff_from(Style::default());
            let segments = [
                diff.foreground.map(util::foreground),
                diff.background.map(util::background),
                diff.intensity.map(util::intensity),
            ];
            let mut segments = segments.iter().filter_map(|&s| s);
            if let Some(segment) = segments.next() {
                if self.current != Style::default() {
                    self.inner.write_str("</span>")?;
                }
                self.inner.write_str("<span style=")?;
                self.inner.write_str(segment)?;
                for segment in segments {
                    self.inner.write_str(";")?;
                    self.inner.write_str(segment)?;
                }
                self.inner.write_str(">")?;
            }
        }
        self.current = style;

        write!(self.inner, "{}", escape(s, AskamaHtml))?;

        Ok(())
''','''        if style != self.current {
            self.close()?;
            self.open(style)?;
            self.current = style;
        }
        self.inner.write_fmt(format_args!("{}", escape(s, AskamaHtml)))
'''),
('html/src/html.rs','''        if self.current != Style::default() {
            self.inner.write_str("</span>")?;
        }
        Ok(self.inner)
    }
''','''        self.close()?;
        Ok(self.inner)
    }

    fn close(&mut self) -> fmt::Result {
        if self.current == Style::default() {
            return Ok(());
        }
        self.inner.write_str("</span>")
    }

    fn open(&mut self, style: Style) -> fmt::Result {
        let diff = style.diff_from(Style::default());
        let mut separator = "<span style=";
        for attribute in [
            diff.foreground.map(util::foreground),
            diff.background.map(util::background),
            diff.intensity.map(util::intensity),
        ]
        .into_iter()
        .flatten()
        {
            self.inner.write_str(separator)?;
            self.inner.write_str(attribute)?;
            separator = ";";
        }
        if separator == ";" {
            self.inner.write_str(">")?;
        }
        Ok(())
    }
'''),
]),
dict(id='html-one-write', edits=[
('html/src/html.rs','''            let segments = [
                diff.foreground.map(util::foreground),
                diff.background.map(util::background),
                diff.intensity.map(util::intensity),
            ];
            let mut segments = segments.iter().filter_map(|&s| s);
            if let Some(segment) = segments.next() {
                if self.current != Style::default() {
                    self.inner.write_str("</span>")?;
                }
                self.inner.write_str("<span style=")?;
                self.inner.write_str(segment)?;
                for segment in segments {
                    self.inner.write_str(";")?;
                    self.inner.write_str(segment)?;
                }
                self.inner.write_str(">")?;
            }
''','''            let end = if self.current == Style::default() {
                ""
            } else {
                "</span>"
            };
            let foreground = diff.foreground.map_or("", util::foreground);
            let background = diff.background.map_or("", util::background);
            let intensity = diff.intensity.map_or("", util::intensity);
            let first = if foreground.is_empty() || background.is_empty() { "" } else { ";" };
            let second = if intensity.is_empty() || (foreground.is_empty() && background.is_empty()) { "" } else { ";" };
            write!(
                self.inner,
                "{end}<span style={foreground}{first}{background}{second}{intensity}>"
            )?;
'''),
]),
dict(id='html-rename', edits=[
('html/src/html.rs','''    inner: T,
    current: Style,
}
''','''    current: Style,
    out: T,
}
'''),
('html/src/html.rs','''        Self {
            inner,
            current: Style::default(),
        }
''','''        Html {
            current: Default::default(),
            out: inner,
        }
'''),
('html/src/html.rs','''        if self.current != Style::default() {
            self.inner.write_str("</span>")?;
        }
        Ok(self.inner)
''','''        if self.current != Style::default() {
            self.out.write_str("</span>")?;
        }
        Ok(self.out)
'''),
('html/src/html.rs','''        if style == Style::default() {
            if self.current != Style::default() {
                self.inner.write_str("</span>")?;
            }
        } else if''','''        let plain = Style::default();
        if style == plain {
            if self.current != plain {
                self.out.write_str("</span>")?;
            }
        } else if'''),
('html/src/html.rs','''                if self.current != Style::default() {
                    self.inner.write_str("</span>")?;
                }
                self.inner.write_str("<span style=")?;
                self.inner.write_str(segment)?;
                for segment in segments {
                    self.inner.write_str(";")?;
                    self.inner.write_str(segment)?;
                }
                self.inner.write_str(">")?;
''','''                if self.current != plain {
                    self.out.write_str("</span>")?;
                }
                self.out.write_str("<span style=")?;
                self.out.write_str(segment)?;
                segments.try_for_each(|segment| {
                    self.out.write_str(";")?;
                    self.out.write_str(segment)
                })?;
                self.out.write_char('>')?;
'''),
('html/src/html.rs','''        write!(self.inner, "{}", escape(s, AskamaHtml))?;

        Ok(())
''','''        match write!(self.out, "{}", escape(s, AskamaHtml)) {
            Ok(()) => Ok(()),
            Err(fmt::Error) => Err(fmt::Error),
        }
'''),
]),
dict(id='string-loops', edits=[
('core/src/string.rs','''        if Some(style) != self.styles.last().map(|&(_, style)| style) {
            self.styles.push((self.string.len(), style));
        }
        self.string.push_str(s);
        Ok(())
''','''        match self.styles.last() {
            Some(&(_, last)) if last == style => {}
            _ => {
                let start = self.string.len();
                self.styles.push((start, style));
            }
        }
        self.string += s;
        Ok(())
'''),
('core/src/string.rs','''        let mut styles = self.styles.iter().peekable();
        while let Some(&(start, style)) = styles.next() {
            let end = styles
                .peek()
                .map(|&&(end, _)| end)
                .unwrap_or_else(|| self.string.len());
            f.with(style).write_str(&self.string[start..end])?;
        }
        Ok(())
''','''        for (i, &(start, style)) in self.styles.iter().enumerate() {
            let end = match self.styles.get(i + 1) {
                Some(next) => next.0,
                None => self.string.len(),
            };
            let text = &self.string[start..end];
            f.with(style).write_str(text)?;
        }
        Ok(())
'''),
]),
dict(id='string-skip-empty', edits=[
('core/src/string.rs','''        if Some(style) != self.styles.last().map(|&(_, style)| style) {
''','''        if s.is_empty() {
            return Ok(());
        }
        if self.styles.last().map_or(true, |&(_, last)| last != style) {
'''),
]),
dict(id='io-rewrite', edits=[
('core/src/io.rs','''        match self.inner.write_all(s.as_bytes(), style) {
            Ok(()) => Ok(()),
            Err(err) => {
                self.error = Some(err);
                Err(crate::Error)
            }
        }
''','''        self.inner.write_all(s.as_bytes(), style).map_err(|err| {
            self.error = Some(err);
            crate::Error
        })
'''),
('core/src/io.rs','''        while !buf.is_empty() {
            match self.write(buf, style) {
                Ok(0) => {
                    return Err(Error::new(
                        ErrorKind::WriteZero,
                        "failed to write whole buffer",
                    ));
                }
                Ok(n) => buf = &buf[n..],
                Err(ref e) if e.kind() == ErrorKind::Interrupted => {}
                Err(e) => return Err(e),
            }
        }
        Ok(())
''','''        loop {
            if buf.len() == 0 {
                return Ok(());
            }
            let n = match self.write(buf, style) {
                Ok(n) => n,
                Err(e) if e.kind() == ErrorKind::Interrupted => continue,
                Err(e) => return Err(e),
            };
            if n == 0 {
                break;
            }
            buf = buf.split_at(n).1;
        }
        Err(Error::from(ErrorKind::WriteZero))
'''),
('core/src/io.rs','''        crate::Write::write_fmt(&mut trap, args).map_err(|crate::Error| trap.error())
''','''        match crate::Write::write_fmt(&mut trap, args) {
            Ok(()) => Ok(()),
            Err(crate::Error) => Err(trap.error()),
        }
'''),
('core/src/io.rs','''        self.error
            .take()
            .unwrap_or_else(|| Error::new(ErrorKind::Other, "formatter error"))
''','''        match core::mem::take(&mut self.error) {
            Some(error) => error,
            None => Error::new(ErrorKind::Other, "formatter error"),
        }
'''),
]),
dict(id='formatter-shape', edits=[
('core/src/formatter.rs','''        Formatter {
            write: &mut *self.write,
            format: self.format,
            style: self.style.with(restyle),
        }
''','''        let format = self.format;
        let style = restyle.apply(self.style);
        Formatter {
            style,
            format,
            write: self.write,
        }
'''),
('core/src/formatter.rs','''        self.write.write_str(s, self.style)?;
        Ok(())
''','''        let Formatter { style, write, .. } = self;
        write.write_str(s, *style)
'''),
('core/src/formatter.rs','''        args.fmt(self)?;
        Ok(())
''','''        Display::fmt(&args, self)
'''),
('core/src/formatter.rs','''        self.with(style).write_str(s)
''','''        let mut inner = self.with(style);
        inner.write_str(s)?;
        Ok(())
'''),
]),
dict(id='write-shape', edits=[
('core/src/write.rs','''        self.write_str(c.encode_utf8(&mut [0; 4]), style)
''','''        let mut buffer = [0u8; 4];
        let text: &str = c.encode_utf8(&mut buffer);
        self.write_str(text, style)?;
        Ok(())
'''),
('core/src/write.rs','''        Formatter::new(&mut self).write_fmt(args)
''','''        let mut formatter = Formatter::new(&mut self);
        args.fmt_into(&mut formatter)
'''),
('core/src/arguments.rs','''impl Display for StdFmtOther<'_> {''','''impl Arguments<'_> {
    pub(crate) fn fmt_into(&self, f: &mut Formatter<'_>) -> Result {
        let format = self.f;
        format(f)
    }
}

impl Display for StdFmtOther<'_> {'''),
('core/src/format.rs',None,None)][:3]),
]
