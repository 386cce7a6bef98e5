# behaviour-preserving edits of the macro crate, std_compat, string, plain
M = 'macros/src/lib.rs'
F = 'macros/src/format.rs'
T = 'macros/src/to_tokens.rs'
EDITS = [
dict(id='macro-bindings', edits=[
(M, '''                        used_positional_args.insert(i);
                        quote!(__stylish_positional_args.#index)
                    }
                    Some(FormatArgRef::Positional(i)) => {
                        let index = Index::from(i);
''', '''                        used_positional_args.insert(i);
                        let _ = index;
                        positional(i)
                    }
                    Some(FormatArgRef::Positional(i)) => {
'''),
(M, '''                        used_positional_args.insert(i);
                        quote!(__stylish_positional_args.#index)
                    }
                    Some(FormatArgRef::Named(name))''', '''                        used_positional_args.insert(i);
                        positional(i)
                    }
                    Some(FormatArgRef::Named(name))'''),
(M, '''                            let index = Index::from(i);
                            used_named_args.insert(name.to_owned());
                            quote!(__stylish_named_args.#index)
''', '''                            used_named_args.insert(name.to_owned());
                            named(i)
'''),
(M, '''    let positional_args = quote! { (#(&#positional_args,)*) };
''', '''    let positional_args = quote! { (#(&#positional_args,)*) };
    let positional = |i: usize| Ident::new(&format!("__stylish_p{i}"), Span::mixed_site());
    let named = |i: usize| Ident::new(&format!("__stylish_n{i}"), Span::mixed_site());
    let positional_pats: Vec<_> = (0..num_positional_args).map(positional).collect();
    let positional = |i: usize| positional(i).into_token_stream();
'''),
(M, '''    let named_args_values = named_args_values.into_iter();
''', '''    let named_pats: Vec<_> = (0..named_args_values.len()).map(named).collect();
    let named = |i: usize| named(i).into_token_stream();
    let named_args_values = named_args_values.into_iter();
'''),
(M, '''                (__stylish_positional_args, __stylish_named_args, __stylish_implicit_named_args) => {
''', '''                ((#(#positional_pats,)*), (#(#named_pats,)*), __stylish_implicit_named_args) => {
'''),
]),
dict(id='macro-merge-ok', edits=[
(M, '''    let statements: Vec<_> = format
        .pieces
        .into_iter()
        .map(''', '''    enum Merged<'a> {
        Text(String),
        Arg(FormatArg<'a>),
    }
    let mut merged: Vec<Merged<'_>> = Vec::new();
    for piece in format.pieces {
        match (piece, merged.last_mut()) {
            (Piece::Lit(lit), Some(Merged::Text(text))) => text.push_str(lit),
            (Piece::Lit(lit), _) => merged.push(Merged::Text(lit.to_owned())),
            (Piece::Arg(arg), _) => merged.push(Merged::Arg(arg)),
        }
    }
    let statements: Vec<_> = merged
        .into_iter()
        .map('''),
(M, '''            Piece::Lit(lit) => {
                let lit = LitStr::new(&lit.replace("{{", "{"), span);
''', '''            Merged::Text(lit) => {
                let lit = LitStr::new(&lit, span);
'''),
(M, '''            Piece::Arg(FormatArg {
                arg,
                format_spec''', '''            Merged::Arg(FormatArg {
                arg,
                format_spec'''),
]),
dict(id='macro-errors', edits=[
(M, '''                    if onto_named {
                        panic!("positional arg after named")
                    }
''', '''                    if onto_named {
                        return Err(syn::Error::new(Span::call_site(), "positional arguments must come first"));
                    }
'''),
(M, '''    if named_args_names.len() != named_args_values.len() {
        panic!("duplicate named argument");
    }
''', '''    if named_args_names.len() < named_args_values.len() {
        return syn::Error::new(span, "the same name is used twice").into_compile_error();
    }
'''),
(M, ''') -> impl ToTokens {
''', ''') -> proc_macro2::TokenStream {
'''),
(M, '''    if !unused_positional_args.is_empty() || !unused_named_args.is_empty() {
        panic!("unused formatting arguments");
    }
''', '''    if unused_positional_args.len() + unused_named_args.len() != 0 {
        return syn::Error::new(span, "arguments are left over").into_compile_error();
    }
'''),
(M, '''    let (leftover, format) = Format::parse(&format).unwrap();
    assert!(leftover.is_empty());
''', '''    let format = match Format::parse(&format) {
        Ok(("", format)) => format,
        Ok((rest, _)) => {
            let msg = format!("could not make sense of `{rest}`");
            return syn::Error::new(span, msg).into_compile_error();
        }
        Err(error) => return syn::Error::new(span, error.to_string()).into_compile_error(),
    };
'''),
]),
dict(id='macro-hand-style', edits=[
(F, '''        map(
            opt(terminated(
                separated_list1(tag(","), Attribute::parse),
                opt(tag(",")),
            )),
            |attributes| {
                let mut diff = StyleDiff::default();
                for attribute in attributes.unwrap_or_default() {
                    match attribute {
                        Attribute::Foreground(color) => diff.foreground = Some(color),
                        Attribute::Background(color) => diff.background = Some(color),
                        Attribute::Intensity(intensity) => diff.intensity = Some(intensity),
                    }
                }
                diff
            },
        )(input)
''', '''        let mut diff = StyleDiff::default();
        let mut input = input;
        while !input.starts_with(')') {
            let (rest, attribute) = cut(Attribute::parse)(input)?;
            match attribute {
                Attribute::Foreground(color) => {
                    diff.foreground.replace(color);
                }
                Attribute::Background(color) => {
                    diff.background.replace(color);
                }
                Attribute::Intensity(intensity) => {
                    diff.intensity.replace(intensity);
                }
            }
            match rest.strip_prefix(',') {
                Some(rest) => input = rest,
                None => {
                    input = rest;
                    break;
                }
            }
        }
        Ok((input, diff))
'''),
(F, '''    multi::{many0, many1, separated_list1},
    sequence::{delimited, pair, preceded, terminated},''', '''    multi::{many0, many1},
    sequence::{delimited, pair, preceded, terminated},'''),
(F, '''        alt((
            value(Color::Black, tag("black")),
            value(Color::Red, tag("red")),
            value(Color::Green, tag("green")),
            value(Color::Yellow, tag("yellow")),
            value(Color::Blue, tag("blue")),
            value(Color::Magenta, tag("magenta")),
            value(Color::Cyan, tag("cyan")),
            value(Color::White, tag("white")),
            value(Color::Default, tag("default")),
        ))(input)
''', '''        const NAMES: &[(&str, Color)] = &[
            ("default", Color::Default),
            ("black", Color::Black),
            ("blue", Color::Blue),
            ("cyan", Color::Cyan),
            ("green", Color::Green),
            ("magenta", Color::Magenta),
            ("red", Color::Red),
            ("white", Color::White),
            ("yellow", Color::Yellow),
        ];
        for &(name, color) in NAMES {
            if let Some(rest) = input.strip_prefix(name) {
                return Ok((rest, color));
            }
        }
        Err(nom::Err::Error(nom::error::Error::new(
            input,
            nom::error::ErrorKind::Tag,
        )))
'''),
]),
dict(id='macro-hand-spec', edits=[
(F, '''        let (input, align) = opt(alt((
            pair(anychar, Align::parse),
            map(Align::parse, |align| (' ', align)),
        )))(input)?;
        let align = align.map(|(fill, align)| {
            if fill != ' ' {
                todo!()
            }
            align
        });
        let (input, sign) = opt(Sign::parse)(input)?;
        let (input, alternate) = opt(value(true, tag("#")))(input)?;
        let (input, zero) = opt(value(true, tag("0")))(input)?;
''', '''        fn align_of(c: Option<char>) -> Option<Align> {
            Some(match c? {
                '<' => Align::Left,
                '^' => Align::Center,
                '>' => Align::Right,
                _ => return None,
            })
        }
        let mut chars = input.chars();
        let (first, second) = (chars.next(), chars.next());
        let (input, align) = if let Some(align) = align_of(second) {
            assert!(first == Some(' '), "fill is not supported");
            (chars.as_str(), Some(align))
        } else if let Some(align) = align_of(first) {
            (&input[1..], Some(align))
        } else {
            (input, None)
        };
        let (input, sign) = match input.as_bytes() {
            [b'+', ..] => (&input[1..], Some(Sign::Plus)),
            [b'-', ..] => (&input[1..], Some(Sign::Minus)),
            _ => (input, None),
        };
        let flag = |input: &'a str, c: char| match input.strip_prefix(c) {
            Some(rest) => (rest, Some(true)),
            None => (input, None),
        };
        let (input, alternate) = flag(input, '#');
        let (input, zero) = flag(input, '0');
'''),
(F, '''impl<'a> Parse<'a> for Align {
    fn parse(input: &'a str) -> IResult<&'a str, Self> {
        alt((
            value(Self::Left, tag("<")),
            value(Self::Center, tag("^")),
            value(Self::Right, tag(">")),
        ))(input)
    }
}

''', ''),
(F, '''impl<'a> Parse<'a> for Sign {
    fn parse(input: &'a str) -> IResult<&'a str, Self> {
        alt((value(Self::Plus, tag("+")), value(Self::Minus, tag("-"))))(input)
    }
}

''', ''),
(F, '''    character::complete::{anychar, char, digit1, none_of, satisfy},
''', '''    character::complete::{char, digit1, none_of, satisfy},
'''),
]),
dict(id='macro-nl-piece', edits=[
(M, '''    let format = LitStr::new(&(input.format.value() + "\\n"), input.format.span());
    format_args_impl(ArgsInput { format, ..input })
''', '''    let mut text = input.format.value();
    text.push('\\n');
    let format = LitStr::new(&text, input.format.span());
    let ArgsInput { krate, positional_args, named_args, .. } = input;
    format_args_impl(ArgsInput { krate, format, positional_args, named_args })
'''),
]),
dict(id='macro-emission', edits=[
(M, '''                quote!(#export::Formatter::write_str(__stylish_formatter, #lit)?)
''', '''                quote! {
                    match __stylish_out.write_str(#lit) {
                        #export::fmt::Result::Ok(()) => {}
                        #export::fmt::Result::Err(__stylish_error) => return #export::fmt::Result::Err(__stylish_error),
                    }
                }
'''),
(M, '''                    #export::Display::fmt(
                        &#arg,
                        &mut #export::Formatter::with_args(
                            __stylish_formatter,
                            #formatter_args,
                            #style
                        ),
                    )?
''', '''                    {
                        let __stylish_value = &#arg;
                        let __stylish_args: #export::FormatterArgs<'_> = *#formatter_args;
                        let __stylish_style: #export::StyleDiff = #style;
                        let mut __stylish_sub = __stylish_out.with_args(&__stylish_args, &__stylish_style);
                        let __stylish_done: #export::fmt::Result = #export::Display::fmt(__stylish_value, &mut __stylish_sub);
                        __stylish_done?;
                    }
'''),
(M, '''                    move |__stylish_formatter: &mut #export::Formatter| -> #export::fmt::Result {
                        #(#statements;)*
''', '''                    move |__stylish_out: &mut #export::Formatter<'_>| -> #export::fmt::Result {
                        #(#statements)*
'''),
(M, '''    let num_positional_args = positional_args.len();
''', '''    let num_positional_args: usize = positional_args.len();
'''),
(T, '''        let StyleDiff {
            foreground,
            background,
            intensity,
            ..
        } = self.as_ref();
''', '''        let diff = *self.as_ref();
        if diff.foreground.is_none() && diff.background.is_none() && diff.intensity.is_none() {
            quote!(<#export::StyleDiff as #export::Default>::default()).to_tokens(tokens);
            return;
        }
        let (foreground, background, intensity) = (&diff.foreground, &diff.background, &diff.intensity);
'''),
]),
dict(id='macro-skip-used', edits=[
(M, '''    let mut used_positional_args = HashSet::new();
''', '''    let mut used_positional_args = vec![false; num_positional_args];
'''),
(M, '''                        let index = Index::from(i);
                        used_positional_args.insert(i);
                        quote!(__stylish_positional_args.#index)
                    }
                    Some(FormatArgRef::Positional(i)) => {
                        let index = Index::from(i);
                        if i >= num_positional_args {
                            panic!("missing positional argument {i}");
                        }
                        used_positional_args.insert(i);
''', '''                        let index = Index::from(i);
                        used_positional_args[i] = true;
                        quote!(__stylish_positional_args.#index)
                    }
                    Some(FormatArgRef::Positional(i)) => {
                        let index = Index::from(i);
                        *used_positional_args.get_mut(i).unwrap_or_else(|| panic!("missing positional argument {i}")) = true;
'''),
(M, '''    let unused_positional_args =
        &HashSet::from_iter(0..num_positional_args) - &used_positional_args;
''', '''    let unused_positional_args = used_positional_args.contains(&false);
'''),
(M, '''    if !unused_positional_args.is_empty() || !unused''', '''    if unused_positional_args || !unused'''),
(M, '''                            let i = implicit_named_args_values.len();
                            implicit_named_args_values.push(ExprPath {
                                attrs: Vec::new(),
                                qself: None,
                                path: Ident::new_raw(
                                    name,
                                    Span::call_site().resolved_at(format_string.span()),
                                )
                                .into(),
                            });
                            let index = Index::from(i);
''', '''                            let i = match captured.iter().position(|n| *n == name) {
                                Some(i) => i,
                                None => {
                                    captured.push(name);
                                    implicit_named_args_values.push(ExprPath {
                                        attrs: Vec::new(),
                                        qself: None,
                                        path: Ident::new_raw(
                                            name,
                                            Span::call_site().resolved_at(format_string.span()),
                                        )
                                        .into(),
                                    });
                                    captured.len() - 1
                                }
                            };
                            let index = Index::from(i);
'''),
(M, '''    let mut used_named_args = HashSet::new();
''', '''    let mut used_named_args = HashSet::new();
    let mut captured: Vec<&str> = Vec::new();
'''),
]),
dict(id='stdcompat-match', edits=[
('core/src/arguments.rs', '''        let arg = &self.0;
        std_write!(f, Other, arg)
''', '''        let StdFmtOther(arg) = self;
        std_write!(f, Other, arg)
'''),
('core/src/arguments.rs', '''impl core::fmt::Debug for StdFmt<'_> {
    #[inline]
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> Result {
        (self.f)(f)
    }
}
''', '''impl core::fmt::Debug for StdFmt<'_> {
    #[inline]
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> Result {
        core::fmt::Display::fmt(self, f)
    }
}
'''),
('core/src/std_compat.rs', '''pub(crate) struct StdProxy<'a, 'b>(pub(crate) &'a mut crate::formatter::Formatter<'b>);
''', '''pub(crate) struct StdProxy<'a, 'b>(pub(crate) &'a mut crate::formatter::Formatter<'b>);

impl StdProxy<'_, '_> {
    fn emit(&mut self, text: &str) -> crate::Result {
        let StdProxy(out) = self;
        out.write_str(text)
    }
}
'''),
('core/src/std_compat.rs', '''        self.0.write_str(s)
''', '''        self.emit(s)
'''),
]),
dict(id='string-runs', edits=[
('core/src/string.rs', '''    string: alloc::string::String,
    styles: alloc::vec::Vec<(usize, Style)>,
''', '''    styles: alloc::vec::Vec<Mark>,
    string: alloc::string::String,
'''),
('core/src/string.rs', '''impl String {
''', '''#[derive(Debug, Clone, Copy)]
struct Mark {
    from: usize,
    style: Style,
}

impl String {
    fn style(&self) -> Option<Style> {
        self.styles.last().map(|mark| mark.style)
    }

'''),
('core/src/string.rs', '''        if Some(style) != self.styles.last().map(|&(_, style)| style) {
            self.styles.push((self.string.len(), style));
        }
''', '''        match self.style() {
            Some(current) if current == style => {}
            _ => {
                let from = self.string.len();
                self.styles.push(Mark { style, from });
            }
        }
'''),
('core/src/string.rs', '''        let mut styles = self.styles.iter().peekable();
        while let Some(&(start, style)) = styles.next() {
            let end = styles
                .peek()
                .map(|&&(end, _)| end)
                .unwrap_or_else(|| self.string.len());
            f.with(style).write_str(&self.string[start..end])?;
        }
        Ok(())
''', '''        for (i, mark) in self.styles.iter().enumerate() {
            let text = match self.styles.get(i + 1) {
                Some(next) => &self.string[mark.from..next.from],
                None => &self.string[mark.from..],
            };
            f.with(mark.style).write_str(text)?;
        }
        Ok(())
'''),
]),
dict(id='string-segments', edits=[
('core/src/string.rs', '''    string: alloc::string::String,
    styles: alloc::vec::Vec<(usize, Style)>,
''', '''    segments: alloc::vec::Vec<(Style, alloc::string::String)>,
'''),
('core/src/string.rs', '''        if Some(style) != self.styles.last().map(|&(_, style)| style) {
            self.styles.push((self.string.len(), style));
        }
        self.string.push_str(s);
        Ok(())
''', '''        if let Some((last, text)) = self.segments.last_mut() {
            if *last == style {
                text.push_str(s);
                return Ok(());
            }
        }
        self.segments.push((style, alloc::string::String::from(s)));
        Ok(())
'''),
('core/src/string.rs', '''        let mut styles = self.styles.iter().peekable();
        while let Some(&(start, style)) = styles.next() {
            let end = styles
                .peek()
                .map(|&&(end, _)| end)
                .unwrap_or_else(|| self.string.len());
            f.with(style).write_str(&self.string[start..end])?;
        }
        Ok(())
''', '''        self.segments
            .iter()
            .try_for_each(|(style, text)| f.with(*style).write_str(text))
'''),
]),
dict(id='io-trap', edits=[
('core/src/io.rs', '''struct ErrorTrap<W: Write> {
    inner: W,
    error: Option<Error>,
}

impl<W: Write> ErrorTrap<W> {
    fn new(inner: W) -> Self {
        Self { inner, error: None }
    }

    fn error(&mut self) -> Error {
        self.error
            .take()
            .unwrap_or_else(|| Error::new(ErrorKind::Other, "formatter error"))
    }
}

impl<W: Write> crate::Write for ErrorTrap<W> {
    fn write_str(&mut self, s: &str, style: Style) -> crate::Result {
        match self.inner.write_all(s.as_bytes(), style) {
            Ok(()) => Ok(()),
            Err(err) => {
                self.error = Some(err);
                Err(crate::Error)
            }
        }
    }
}
''', '''struct Adapter<'a, W: Write + ?Sized> {
    outcome: Result<()>,
    target: &'a mut W,
}

impl<W: Write + ?Sized> crate::Write for Adapter<'_, W> {
    fn write_str(&mut self, s: &str, style: Style) -> crate::Result {
        self.target.write_all(s.as_bytes(), style).map_err(|error| {
            self.outcome = Err(error);
            crate::Error
        })
    }
}
'''),
('core/src/io.rs', '''        let mut trap = ErrorTrap::new(self);

        crate::Write::write_fmt(&mut trap, args).map_err(|crate::Error| trap.error())
''', '''        let mut adapter = Adapter {
            outcome: Ok(()),
            target: self,
        };
        match crate::Write::write_fmt(&mut adapter, args) {
            Ok(()) => Ok(()),
            Err(_) => match adapter.outcome {
                Err(error) => Err(error),
                Ok(()) => Err(Error::new(ErrorKind::Other, "formatter error")),
            },
        }
'''),
]),
dict(id='plain-shape', edits=[
('plain/src/plain.rs', '''    fn write_str(&mut self, s: &str, _style: Style) -> Result {
        self.inner.write_str(s)
    }
''', '''    fn write_str(&mut self, s: &str, style: Style) -> Result {
        let _ = style;
        let Self { inner } = self;
        core::fmt::Write::write_str(inner, s)
    }
'''),
('plain/src/format.rs', '''    let mut output = Plain::new(String::new());
    output
        .write_fmt(args)
        .expect("a formatting trait implementation returned an error");
    output.into_inner()
''', '''    let mut text = String::new();
    let mut output = Plain::new(&mut text);
    if output.write_fmt(args).is_err() {
        panic!("a formatting trait implementation returned an error");
    }
    text
'''),
('plain/src/io.rs', '''        self.inner.write_all(s)
''', '''        let out = &mut self.inner;
        out.write_all(s)?;
        Ok(())
'''),
('plain/src/to_string.rs', '''        format!("{:s}", self)
''', '''        let this = &self;
        format!("{this:s}", this = this)
'''),
]),
]
