#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)

STYLE='style/src/lib.rs'
p('S01','A restyling changes exactly the attribute it names',
 "Applying a foreground colour, a background colour or an intensity to any style sets exactly that attribute to exactly the given value and leaves every other attribute as it was. Applying a complete style replaces every attribute, and applying the unit restyling or an absent option changes nothing.",
 ['inputs'],'every original style (all colours x colours x intensities) and every colour or intensity applied to it',
 'Doctests apply three values to the default style; a restyling that leaks into another attribute of an already styled value, or mis-handles one colour, is not sampled.',
 [STYLE],[('Restyle impls for Foreground, Background, Intensity, Style, (), Option',STYLE),('Style::with',STYLE)],['value returned by Style::with / Restyle::apply'])
p('S02','Composed restylings apply left to right and the last one wins',
 "A pair, a triple or a sequence of restylings has exactly the effect of applying each member once, in order, to the result of the previous one. A style difference sets exactly the attributes it contains, to the values it contains, and a restyling behind a reference, a box or a present option has the effect of the restyling itself.",
 ['inputs','programs'],'every length of sequence, every member restyling (including user-defined ones) and every starting style',
 'Order only shows when two members set the same attribute or a user restyling depends on its input; tests use one or two disjoint members.',
 [STYLE],[('Restyle impls for tuples, [T], &T, Box<T>, Option<T>, StyleDiff',STYLE)],['value returned by Restyle::apply'])
p('S03','The difference of two styles is exact and minimal',
 "For any two styles, the difference from the first to the second contains an attribute if and only if the two styles disagree on it, and then contains the second style's value. The default style is the default colours at normal intensity, and the default difference is empty.",
 ['inputs'],'all ordered pairs of styles (17*17*3 squared)',
 'The only direct test takes one pair differing in one attribute; about 750 000 ordered pairs exist.',
 [STYLE],[('Style::diff_from',STYLE),('Default impls of Color, Intensity, Style, StyleDiff',STYLE)],['value returned by Style::diff_from'])
p('S04','Style values are equal exactly when they agree in every attribute',
 "Two colours, two intensities, two styles, two style differences, two foregrounds or two backgrounds compare equal if and only if they agree in every attribute, and unequal otherwise; every colour and every intensity differs from every other, and an absent attribute of a difference differs from every present one.",
 ['inputs'],'all pairs of values of the six types',
 'Tests compare values they expect to be equal; an equality that is too coarse makes those tests weaker, not red.',
 [STYLE],[('PartialEq of Color, Intensity, Style, StyleDiff, Foreground, Background',STYLE)],['results of == and !='])

F='core/src/formatter.rs'
p('C01','A formatter delivers text once, unmodified, in its accumulated style',
 "Text written to a formatter reaches the underlying writer exactly once, byte for byte, together with the style obtained by applying every restyling in force, outermost first. Deriving a restyled formatter affects only what is written through the derived one: the parent keeps its own style and flags, and the derived formatter inherits the flags.",
 ['inputs','programs'],'every nesting of restylings and every sequence of writes through parent and derived formatters',
 'Tests nest at most two levels and never write through the parent after a derived formatter changed the style.',
 [F,'core/src/std_compat.rs'],[('Formatter::with, with_args, write_str, write_fmt; Write and core::fmt::Write for Formatter; StdProxy',F)],['calls reaching the wrapped stylish::Write'],
 [('Formatter.style','style in force',F),('Formatter.format','formatting flags in force',F)])
p('C02','An attributed string replays exactly what was written to it',
 "For every history of styled writes, the attributed string holds the concatenation of the texts in order, and displaying it hands every character to the output exactly once, in order, with the style it was written with. Every style boundary is the position at which text of a new style began, so no character takes the style of a neighbour.",
 ['histories','inputs'],'every sequence of styled writes (any texts, including empty and multi-byte, any styles) followed by any displays',
 'Tests write three or four fixed fragments; empty writes, repeated styles and style changes without text are histories they do not sample.',
 ['core/src/string.rs','core/src/format.rs','core/src/to_string.rs'],[('Write for String','core/src/string.rs'),('Display for String','core/src/string.rs')],['calls made by Display for String; contents after write_str'],
 [('String.string / String.styles','text and run-start table','core/src/string.rs')])
p('C03','Standard formatting flags reach the standard formatter unchanged',
 "When a value is formatted through one of the standard formatting traits, its implementation sees exactly the alignment, sign, alternate, zero-padding, width, precision and debug-hex flags in force, none added, dropped or exchanged, for every combination of flags. The output it produces carries the style in force.",
 ['inputs','configurations'],'all 192 flag combinations of ordinary traits and all 576 of the debug trait, with any width and precision',
 'The tests exercise each flag mostly on its own; the several hundred combinations are generated by one macro and a slip in one arm stays invisible.',
 ['core/src/std_compat.rs','core/src/arguments.rs',F],[('std_write! match arms','core/src/std_compat.rs'),('Display for StdFmtOther / StdFmtDebug','core/src/arguments.rs')],['core::fmt::Arguments handed to the proxy writer'])
p('C04','A failing writer or value stops output at once and is reported',
 "If writing to the output stream or formatting a value fails, the operation in progress returns that failure to its caller, and attempts no further output. No failure is swallowed, replaced by success or turned into a panic by the writers, the formatter, the attributed string or the code a formatting macro generates.",
 ['fault_sequences','inputs'],'a failure injected at any inner write of any write, format, flush or finish operation',
 'No test uses a failing writer except one or two that fail on the first write.',
 ['core/src','ansi/src','html/src','plain/src','macros/src/lib.rs'],[('`?` after every inner write','ansi/src/ansi.rs, ansi/src/io.rs, html/src/html.rs, core/src/formatter.rs, core/src/string.rs'),('`?` in generated statements','macros/src/lib.rs')],['returned Result and the inner writes made after the first failure'])
p('C05','Writing all of a buffer delivers it exactly, or reports why not',
 "Writing a whole buffer to an attributed I/O writer hands over its bytes in order, without gap or repetition, in the requested style, resuming after every short or interrupted write. It succeeds only when all bytes were accepted, reports a write-zero error when the writer accepts nothing, and otherwise returns the writer's own error.",
 ['fault_sequences','inputs'],'every sequence of short, zero, interrupted and failing results from the underlying writer, for every buffer',
 'Tests only use a Vec, which never writes short and never fails.',
 ['core/src/io.rs','plain/src/io.rs'],[('io::Write::write_all default method','core/src/io.rs'),('Plain::write_all','plain/src/io.rs')],['calls to write and the returned Result'])
p('C06','Formatted I/O reports the underlying error that stopped it',
 "When formatted output to an attributed I/O writer fails because the writer failed, the error returned is the very error the writer returned; when a formatted value itself reports failure although no write failed, a formatter error is returned. It returns success only if formatting succeeded.",
 ['fault_sequences'],'any failing write at any position of any formatted output, and any formatting implementation that fails by itself',
 'Tests never make an I/O writer fail in the middle of formatted output.',
 ['core/src/io.rs'],[('ErrorTrap','core/src/io.rs'),('io::Write::write_fmt default method','core/src/io.rs')],['Result of io::Write::write_fmt'],
 [('ErrorTrap.error','first I/O error','core/src/io.rs')])
p('C07','Indirections behave exactly as what they stand for',
 "A writer or value reached through a mutable or shared reference, an inherent convenience method, a short constructor alias or a conversion trait behaves exactly as when used directly: the same operation on the same target with the same text, style and result. Creating a writer starts it in the default style around the given stream, and flushing an adaptor flushes the wrapped stream.",
 ['inputs','programs'],'every delegating method, alias and conversion of every crate, for all arguments',
 'Several delegations (write through &mut, flush, write_char through a reference) are never called by a test.',
 ['core/src/write.rs','core/src/io.rs','core/src/display.rs','src/lib.rs','ansi/src','html/src','plain/src'],[('impl Write for &mut W','core/src/write.rs, core/src/io.rs'),('inherent write_fmt / new / aliases / to_*_string','ansi/src, html/src, plain/src, src/lib.rs')],['forwarded calls and returned values'])
p('C08','Derived writer operations agree with the primitive ones',
 "Writing a single character is exactly one write of that character's text in the requested style. Formatting arguments into any writer starts from the default style with no flags set, and runs the arguments exactly once against that same writer.",
 ['inputs','programs'],'all characters, styles, arguments and writers that rely on the provided methods',
 'Tests use a handful of characters and one writer per method.',
 ['core/src/write.rs',F,'core/src/arguments.rs'],[('Write::write_char, Write::write_fmt provided methods','core/src/write.rs'),('Formatter::new','core/src/formatter.rs'),('Display for Arguments','core/src/arguments.rs')],['calls reaching the writer'])

p('C09','Clones of writers and attributed strings are faithful and independent',
 "A clone of an ANSI or HTML writer, of a plain writer or of an attributed string is in the same state as the original: every field of the copy is that field of the original or its clone, so continuing with the clone writes exactly what continuing with the original would have written.",
 ['histories','inputs'],'every state a writer or attributed string can be in when it is cloned',
 'No test clones a writer in the middle of styled output.',
 ['ansi/src/ansi.rs','ansi/src/io.rs','html/src/html.rs','plain/src/plain.rs','plain/src/io.rs','core/src/string.rs'],[('Clone for Ansi, Html, Plain','ansi/src/ansi.rs, html/src/html.rs, plain/src/plain.rs'),('Clone for String',  'core/src/string.rs')],['fields of the copy'])
p('C10','Formatting needs no heap allocation of its own',
 "Building arguments with the argument macro, running them through a formatter, and writing text through the ANSI, HTML and plain text writers allocate nothing on the heap; only the destination and the arguments' own formatting code may. This holds whichever features are enabled.",
 ['programs','inputs'],'every macro invocation, argument, style and text, in the configuration with all features',
 'Tests compare output only; an allocation changes none of it.',
 ['core/src/lib.rs','core/src/arguments.rs',F,'core/src/std_compat.rs','macros/src/lib.rs','ansi/src/ansi.rs','html/src/html.rs','plain/src/plain.rs'],[('format_args!: "avoids heap allocations"','core/src/lib.rs'),('Display for Arguments, StdFmtOther, StdFmtDebug','core/src/arguments.rs'),('std_write!','core/src/std_compat.rs')],['calls into the allocator'])

A=['ansi/src/ansi.rs','ansi/src/io.rs','ansi/src/util.rs']
p('A01','ANSI text is shown in exactly its style, whatever was shown before',
 "After every history of writes, a terminal interpreting the ANSI output shows each piece of text with exactly the requested foreground, background and intensity, and no attribute of an earlier piece leaks into a later one. Both the text and the byte-oriented ANSI writer satisfy this.",
 ['histories','inputs'],'every pair of previously and newly requested style (hence, by induction, every history of writes) and every text',
 'The tests walk about ten transitions between styles; there are about 750 000.',
 A,[('Ansi::write_str / io::Ansi::write: SGR difference emission',A[0]+', '+A[1]),('SGR code tables',A[2])],['bytes handed to the wrapped stream, interpreted as SGR state'],
 [('Ansi.current','style the terminal is in','ansi/src/ansi.rs, ansi/src/io.rs')])
p('A02','Finishing an ANSI writer leaves the terminal in the default style',
 "Finishing an ANSI writer resets the terminal if and only if the last style written is not the default one, and then returns the wrapped stream; if the reset cannot be written, that error is returned. Rendering to an ANSI string always finishes the output in this way.",
 ['histories','inputs','fault_sequences'],'every style the writer can be in when finished, and every failure of the last write',
 'Tests finish after a few fixed styles and never with a failing stream.',
 A+['ansi/src/format.rs'],[('Ansi::finish, io::Ansi::finish',A[0]+', '+A[1]),('ansi::format','ansi/src/format.rs')],['last bytes handed to the wrapped stream; returned value'])
p('A03','ANSI writers pass the text itself through verbatim and in one piece',
 "Besides well-formed escape sequences, the ANSI writers send exactly the given text, once, after all escapes for it; the text writer sends nothing at all for empty text, and neither sends an escape when the style is unchanged. The byte writer makes at most one attempt to write the text per call and returns the count or error of exactly that attempt.",
 ['inputs','fault_sequences'],'every text or byte buffer, style transition and result of the wrapped stream',
 'Tests use valid short strings on a Vec or String that always accepts everything.',
 A,[('Ansi::write_str, io::Ansi::write',A[0]+', '+A[1])],['calls to the wrapped stream and returned value'])
p('A04','An ANSI writer never believes in a style it did not finish sending',
 "If sending a style change fails part way, the failure is returned without sending any of the text and the writer still regards the previous style as current, so the change is sent in full by the next write. Escape sequences are sent to byte streams with writes that complete them rather than with writes that may stop short.",
 ['fault_sequences'],'a failure at any inner write of a style change, followed by any further operation; short writes at any point',
 'No test makes a stream fail or write short in the middle of an escape sequence.',
 A,[('self.current assigned after the escape writes',A[0]+', '+A[1]),('write_all for escapes',A[1])],['inner writes, and the tracked style after a failure'])

H=['html/src/html.rs','html/src/util.rs']
p('H01','No text reaches HTML output unescaped',
 "Every piece of text written to an HTML writer, in whatever style and after whatever history, reaches the output stream exactly once, in order, and only through the HTML escaper; the only unescaped output is the writer's own constant markup. Nothing is output for empty text.",
 ['inputs','histories'],'every text, style and history of writes',
 'Tests escape one or two strings in one style; injection needs only one path that bypasses the escaper.',
 H,[('escape(s, Html) in Html::write_str',H[0])],['everything handed to the wrapped stream'])
p('H02','HTML spans are always balanced and never nested',
 "After every history of successful writes followed by finishing the writer, opening and closing tags in the output alternate and match, with text of a non-default style inside a span and text of the default style outside any span. Rendering to an HTML string always finishes the output in this way.",
 ['histories','inputs'],'every history of writes over all styles and texts, then finish',
 'Tests cover a handful of style sequences; a missing close tag needs a particular transition.',
 H+['html/src/format.rs'],[('Html::write_str span open/close logic, Html::finish',H[0]),('html::format','html/src/format.rs')],['markup handed to the wrapped stream'],
 [('Html.current','style of the open span, default when none is open',H[0])])
p('H03','HTML spans state exactly the style of their text',
 "The style attribute enclosing a text states exactly the non-default attributes of its style, each once: the foreground as text colour, the background as background colour, and the intensity as font weight, as valid CSS that needs no quoting. Each named colour has its own name, each bright colour a value of its own of the same hue, and foreground and background use the same colour values.",
 ['inputs','histories'],'all 867 styles after any history',
 'Tests look at about six styles; one wrong table row or a stale attribute after a transition goes unnoticed.',
 H,[('diff from the default style in Html::write_str',H[0]),('CSS tables',H[1])],['style attribute handed to the wrapped stream'])
p('P01','Plain writers pass text through and discard only the style',
 "For every style, the plain writers make exactly one corresponding call on the wrapped stream with exactly the given text or bytes and return its result, and nothing else is ever written to the stream. Taking the stream back out returns the wrapped stream itself.",
 ['inputs','fault_sequences'],'every text, style and result of the wrapped stream',
 'Tests write a few strings to a String or Vec.',
 ['plain/src/plain.rs','plain/src/io.rs','plain/src/format.rs'],[('Plain::write_str','plain/src/plain.rs'),('io::Plain::write, write_all, flush','plain/src/io.rs')],['calls to the wrapped stream'])

M=['macros/src/format.rs','macros/src/to_tokens.rs','macros/src/lib.rs']
p('M01','Style attributes in a format string mean what they say',
 "Each colour or intensity keyword in a format string's attribute list selects exactly the colour, plane or intensity it names, and requesting a default colour or normal intensity really requests it, even inside text styled otherwise. A list of attributes yields exactly the listed ones, a later one overriding an earlier one of the same kind, and an empty list or a trailing comma is accepted as documented.",
 ['programs','inputs'],'every attribute list in every format string',
 'Tests use a few keywords, always at top level where asking for a default is invisible.',
 M[:2],[('Parse for Color, Intensity, Box<dyn Restyle>, StyleDiff',M[0]),('ToTokens for Scoped<StyleDiff>, Scoped<Color>, Scoped<Intensity>',M[1])],['style argument in the macro expansion'])
p('M02','Formatting flags in a format string mean what they say',
 "In every format string, alignment, sign, alternate, zero-padding, width and precision flags are recognised in their documented order and each is passed on as itself with its own value; an absent flag is passed on as absent. Unsupported flags are rejected at compile time, never ignored.",
 ['programs','inputs'],'every combination of flags in every format string',
 'Tests sample single flags and a few combinations.',
 M[:2],[('Parse for Align, Sign, Count, FormatSpec',M[0]),('ToTokens for Scoped<FormatterArgs> and its parts',M[1])],['FormatterArgs in the macro expansion'])
p('M03','Trait selectors in a format string select the named trait',
 "Every trait selector selects its own formatting trait, no selector selects the display trait, and the style-aware selector formats through the style-aware trait directly. The two debug-hex selectors select the debug trait with the corresponding case and nothing else sets debug-hex.",
 ['programs','inputs'],'every trait selector combined with any flags and attributes',
 'Tests cover most selectors once, without flags or attributes, so a selector that is shadowed by another or loses its hex case can survive.',
 M[:2],[('selector alternatives in FormatSpec::parse',M[0]),('ToTokens for FormatTrait and Scoped<(FormatTrait, TokenStream)>',M[1])],['trait called in the macro expansion'])
p('M04','Each placeholder formats the argument it denotes',
 "An unnumbered placeholder takes the next positional argument, a numbered one the argument at that position, a named one the argument of that name or, if there is none, the variable of that name in scope. A missing or unused argument is rejected at compile time. Every argument is evaluated exactly once, in the order written and before anything is output, and so is the destination.",
 ['programs','inputs'],'every mix of placeholders and arguments',
 'Tests use a few mixes with two or three arguments.',
 ['macros/src/lib.rs','macros/src/format.rs'],[('format_args_impl','macros/src/lib.rs'),('Parse for FormatArgRef, FormatArg','macros/src/format.rs')],['argument expressions in the macro expansion; panics of the macro'])
p('M05','Literal text of a format string is reproduced exactly and in order',
 "The text of a format string between placeholders is written exactly as given, in order with the placeholders, doubled braces standing for single ones; an unbalanced brace or malformed placeholder is rejected at compile time. The newline variant adds exactly one newline at the end and nothing else.",
 ['programs','inputs'],'every format string',
 'Tests contain only a few literals and one brace escape.',
 ['macros/src/lib.rs','macros/src/format.rs','core/src/write.rs'],[('Piece::parse_lit, Format::parse','macros/src/format.rs'),('literal statements in format_args_impl, format_args_nl','macros/src/lib.rs'),('writeln!','core/src/write.rs')],['write_str literals in the macro expansion'])
p('M06','Macro expansions depend only on the crate they name',
 "A formatting macro works in every scope of user code: it uses no prelude name, no import and no user-visible identifier other than the ones in its arguments, so user items, macros or variables of any name (names beginning with __stylish, which are reserved, and the destination's own write_fmt method aside) can neither break nor change it. Everything else in the expansion is reached only through the crate the macro came from.",
 ['programs'],'every user scope (shadowed prelude names, no prelude, arbitrary local names) in which a macro is used',
 'All tests use the macros in ordinary modules with the standard prelude.',
 ['macros/src/lib.rs','macros/src/to_tokens.rs','core/src/lib.rs','core/src/write.rs'],[('quote! fragments rooted at the export module','macros/src/to_tokens.rs, macros/src/lib.rs'),('export module','core/src/lib.rs')],['identifiers in the expansion'])
p('M07','The same invocation always expands to the same code',
 "The expansion of a formatting macro is a function of the tokens it is given: it depends on no environment variable, file, clock or counter, nor on the random order in which hashed collections are traversed, so builds are reproducible and invocations do not influence each other.",
 ['programs','histories'],'every invocation, and every sequence of invocations in one compilation',
 'A test sees one expansion of each invocation.',
 M,[('format_args_impl: HashMap and HashSet of arguments','macros/src/lib.rs'),('ToTokens','macros/src/to_tokens.rs')],['effects of the macro crate; hash-ordered iteration'])
p('E01','Styled writers give no access to the wrapped stream before finishing',
 "The stream wrapped by an ANSI or HTML writer can be reached by safe user code only by finishing the writer, which consumes it; only the stream's own Clone and Debug ever see it otherwise. A formatter comes only from the library or from another formatter for the same destination, and its style and flags cannot be set in place. Hence the style bookkeeping cannot be bypassed, and a finished writer cannot be written to.",
 ['programs'],'every program using the public API',
 'A test can show that something works, not that no program can do it.',
 ['ansi/src','html/src',F],[('private fields; finish(self)','ansi/src/ansi.rs, ansi/src/io.rs, html/src/html.rs'),('private fields of Formatter',F)],['public API surface; programs that must not compile'])
p('E02','Output depends on nothing but what is given',
 "What the runtime crates write depends only on the styles, texts, flags and arguments given, on the writer's own history and on what the destination answers. They keep no global or thread-local state and consult neither environment, clock, terminal, file system nor addresses, so equal calls on equal writers give equal output in any thread, process or order.",
 ['programs','schedules'],'every program and every interleaving of independent writers',
 'Tests run in one environment; hidden state shows only when some other writer, thread or process behaves differently.',
 ['core/src','style/src','ansi/src','html/src','plain/src','src/lib.rs'],[('all functions of the runtime crates','*/src'),('macro expansions','macros/src/lib.rs')],['uses of statics, thread locals, environment and foreign functions'])
p('E03','Styles and writers move freely between threads',
 "Colours, intensities, styles and style differences are plain copyable values that can be sent to and shared by any threads, and so can attributed strings be sent and shared. A writer can be sent, shared or cloned and lives as long as the stream it wraps allows. The writing, formatting and restyling traits can all be used as trait objects.",
 ['programs'],'every stream type and every program',
 'A test can show one instantiation; the traits must exist for every stream.',
 ['style/src/lib.rs','core/src/string.rs','core/src/write.rs','core/src/io.rs','ansi/src','html/src','plain/src'],[('fields of Style, StyleDiff, String','style/src/lib.rs, core/src/string.rs'),('fields of Ansi, Html, Plain','ansi/src, html/src, plain/src')],['trait implementations the compiler derives'])
p('W01','Every feature combination builds, and without std needs no std',
 "Every combination of the documented features compiles, and each feature provides the items documented for it. Without the std feature the runtime crates do not depend on the standard library, and without alloc not on the allocator.",
 ['configurations'],'all subsets of the features of the main crate and of every member crate',
 'The test suite runs one configuration only.',
 ['Cargo.toml','core/src/lib.rs','ansi/src/lib.rs','html/src/lib.rs','plain/src/lib.rs','style/src/lib.rs','src/lib.rs'],[('cfg(feature) gates','*/src/lib.rs'),('feature tables','*/Cargo.toml')],['type checking of each configuration; crates reached from each configuration'])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for d in P: f.write(json.dumps(d,ensure_ascii=False)+'\n')
import sys
try:
    import jsonschema
    s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for d in P: jsonschema.validate(d,s)
except ImportError: pass
print(len(P))
