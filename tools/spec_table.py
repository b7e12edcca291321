# One entry per property; see mkspec.py. Read with exec().
BUILT = {'C01','C02','C03','C04','C05','C06','C07','C08','C09','C10','C11','C12','C13','C14','C15','C16','C17','C18','C19','C20','C21','C22','C23','C24','C25'}
HOOKS = dict(guard="hongdown_verif", enable="RUSTFLAGS='--cfg hongdown_verif' with --features wasm (harness build only)", source_commits=['6cec1d1'])
NOTES = "Runtime monitoring: the real library and the real binary are driven with generated documents, options, file trees and faults; independent oracles judge what they did."
SER = "src/serializer/"
ALLSER = [SER + f for f in ("mod.rs", "document.rs", "inline.rs", "link.rs", "list.rs", "block.rs", "code.rs", "table.rs", "wrap.rs", "escape.rs", "punctuation.rs", "heading.rs")]
LIB = "hongdown::format / format_with_warnings results"
CLI = "exit status, stdout, stderr, file contents and mtimes of the hongdown binary"

prop("C01", "Formatting never changes what a document means",
 "Parsing the formatted text yields the same document as parsing the input: the same tree of blocks and inlines with the same text, link targets and titles, code, raw HTML, table cells and alignments, task states, alert kinds and footnotes. Only the presentation the user asked for may differ: line breaks inside paragraphs, typographic punctuation, list and fence markers, list numbering, default code language, and the position of reference and footnote definitions.",
 ["inputs", "configurations"], "All generated Markdown documents (nested lists, quotes, alerts, tables, description lists, footnotes, references, code, HTML, front matter, entities, escapes, wide characters, random line breaking) under all generated valid options that differ in presentation only; the constructs listed as known findings are outside.",
 "The unit tests compare a few hundred fixed strings; no test re-parses an output, and meaning depends on the combination of constructs, nesting, wrapping position and options.",
 ["src/lib.rs"] + ALLSER, [("AST serialisation", "src/serializer/mod.rs serialize_node"), ("escape preservation", "src/serializer/inline.rs"), ("wrapping", "src/serializer/wrap.rs")], [LIB],
 "runtime monitor: re-parse oracle over generated documents", "Held on the executions explored; trusts the comrak parser to read both sides.")

prop("C02", "Formatting is idempotent",
 "Formatting text that the formatter itself produced, with the same options, returns it byte for byte.",
 ["inputs", "configurations"], "All generated documents and options of C01, plus sentence case, punctuation and directives.",
 "Idempotence quantifies over every input and option set; tests check it on a handful of examples.",
 ["src/lib.rs"] + ALLSER, [("canonical output", "src/serializer/")], [LIB], "runtime monitor: format(format(x)) == format(x)", "Held on the executions explored.")

prop("C03", "Any text formats: no crash, no hang, clean output",
 "For every UTF-8 input and every valid option set, formatting returns normally in time bounded by the input size. Its output contains no carriage return, no other control character that the input did not contain, and ends with exactly one newline unless the end of the document is under a disabling directive, in unclosed raw HTML, or holds no text.",
 ["inputs", "configurations"], "Arbitrary generated UTF-8 strings: grammar documents, byte-level mutations and splices of them, pathological nesting and repetition, random Unicode, control characters, CRLF; every valid option set.",
 "Tests sample well-formed documents only; the claim is about all inputs.",
 ["src/lib.rs"] + ALLSER, [("slicing of source by position", "src/serializer/state.rs extract_source")], [LIB, "panics caught by the harness", "CPU time"],
 "fuzzing with overflow checks and debug assertions on, panic and resource monitors", "Held on the executions explored; time bound is a CPU-time growth bound.")

prop("C04", "Code, raw HTML and front matter survive byte for byte",
 "The content of code blocks (without an external formatter), code spans, inline HTML, HTML blocks, autolinks and the front matter appears unchanged in the formatted document, whatever formatting surrounds it. In particular no punctuation, wrapping, escaping or case conversion is applied inside them.",
 ["inputs", "configurations"], "Generated documents whose literal contents carry unique tokens mixed with every character the formatter rewrites elsewhere, at top level and inside lists, quotes, tables, headings, footnotes and description lists.",
 "Tests have a few fixed code samples; the guarantee is for every content in every context with every option.",
 [SER + "code.rs", SER + "inline.rs", SER + "escape.rs", SER + "document.rs"], [("fence choice", "src/serializer/code.rs"), ("span preservation", "src/serializer/inline.rs")], [LIB],
 "runtime monitor: literal ledger (content in = content out) by token", "Held on the executions explored.")

prop("C05", "Disabling directives protect exactly their region",
 "Source under a disable, disable-next-line, disable-next-section or disable-file directive appears in the output byte for byte. Everything outside such regions is still formatted, and the region ends exactly where documented: at enable, after one block, at the next heading of level one or two, or never.",
 ["inputs", "configurations"], "Generated documents with directives placed between blocks in all orders, regions full of badly formatted blocks, repeated and interleaved directives, CRLF and trailing blanks excluded.",
 "Tests hold one or two fixed regions each; interaction of directives, sections, definitions and block kinds is unbounded.",
 [SER + "document.rs", SER + "state.rs"], [("skip modes", "src/serializer/document.rs serialize_document")], [LIB],
 "runtime monitor: region model against output segments", "Held on the executions explored.")

prop("C06", "Punctuation conversion changes exactly what the options say",
 "Turning a punctuation option on replaces only the characters it names (straight double quotes, single quotes, apostrophes, three dots, the dash patterns), only in prose, and never in code, HTML, URLs or labels; turning all off leaves every character of the prose as it was. Curly quotes come in matching pairs where an open-close pair was written, and an apostrophe inside a word is never turned into an opening quote.",
 ["inputs", "configurations"], "Generated prose over quotes, apostrophes, dots, dashes and words in every inline context; every combination of the six options with dash patterns.",
 "Six interacting options and unbounded text; tests fix single sentences under few combinations.",
 [SER + "punctuation.rs", SER + "inline.rs"], [("transform", "src/serializer/punctuation.rs")], [LIB],
 "runtime monitor: character-alignment oracle between options on and off", "Held on the executions explored.")

prop("C07", "Reference definitions: none lost, none invented, in the right place",
 "Every link and image keeps its destination and title, and every label used in the output has exactly one definition there. Definitions are gathered at the end of the section that uses them, before the next heading of level two or three or at the end of the document, after footnotes, with numeric labels in ascending order when there are at least two and otherwise in order of first use.",
 ["inputs", "configurations"], "Generated multi-section documents with full, collapsed, shortcut, inline and autolinks, images, badges, titles, shared and numeric labels, definitions anywhere.",
 "Placement and conservation are properties of whole documents; tests fix small examples.",
 [SER + "mod.rs", SER + "link.rs", SER + "state.rs", SER + "document.rs"], [("pending references", "src/serializer/state.rs add_reference"), ("flush", "src/serializer/mod.rs flush_references")], [LIB],
 "runtime monitor: conservation ledger over definitions and uses", "Held on the executions explored.")

prop("C08", "Footnotes: each definition kept once, at the end of its section",
 "Every referenced footnote has exactly one definition in the output, with the same content, and references keep their names and order. Definitions are placed at the end of the section holding the first reference, before reference link definitions, numerically ordered when there are at least two numeric names.",
 ["inputs", "configurations"], "Generated multi-section documents with footnotes of one or several blocks, shared, numeric and named, defined anywhere, containing links and code.",
 "Conservation over whole documents; tests fix small examples.",
 [SER + "mod.rs", SER + "state.rs", SER + "document.rs"], [("pending footnotes", "src/serializer/mod.rs flush_footnotes_before")], [LIB],
 "runtime monitor: conservation ledger over footnotes", "Held on the executions explored.")

prop("C09", "Lines are wrapped to the configured display width",
 "No prose line of a paragraph, list item, quote or footnote is wider than the configured width in terminal columns (wide characters count two; the marker before the first line of an item is not counted) unless it is a single unbreakable unit after its indentation. Short original lines are kept, and from the first line that is too long on a paragraph is filled greedily: a unit with the blank behind it only moves to the next line when it would not have fitted.",
 ["inputs", "configurations"], "Generated prose with ASCII, CJK, combining and emoji text, code spans and links, in every container, at every width from 8 to 200.",
 "Tests use width 80 and mostly ASCII; the claim is over all widths, scripts and nestings.",
 [SER + "wrap.rs", SER + "document.rs", SER + "mod.rs"], [("greedy fill", "src/serializer/wrap.rs")], [LIB],
 "runtime monitor: width and greedy-fill oracle per output line", "Held on the executions explored; display width by the unicode-width crate.")

prop("C10", "Headings take the configured form",
 "Level one and two headings are underlined or prefixed exactly as configured (prefixed where the text itself would start another block), with an underline as wide as the heading text in display columns; deeper levels are always prefixed, without closing marks. Heading level and text are preserved, and two blank lines precede a level-two heading after content other than a heading and one blank line any other block.",
 ["inputs", "configurations"], "Generated headings of all levels and source styles with inline markup and wide characters, all setext settings.",
 "Tests fix a few ASCII headings.",
 [SER + "document.rs", SER + "heading.rs"], [("heading", "src/serializer/document.rs serialize_heading")], [LIB],
 "runtime monitor: independent layout model of headings and block spacing", "Held on the executions explored.")

prop("C11", "Lists take the configured markers, numbers and indentation",
 "Every bullet uses the configured marker with the configured spaces before and after it, every ordered item is numbered consecutively with the delimiter configured for its nesting parity, and every nested item is indented by the configured width per level. Item count, order, nesting, task state and tightness are those of the input.",
 ["inputs", "configurations"], "Generated lists of up to four levels, mixed kinds, tasks, many items, several paragraphs, code and quotes in items; option combinations whose markers Markdown itself can nest.",
 "Option combinations times nesting shapes; tests fix a few.",
 [SER + "list.rs"], [("list item", "src/serializer/list.rs serialize_list_item")], [LIB],
 "runtime monitor: independent layout model of lists", "Held on the executions explored.")

prop("C12", "Tables are aligned and keep every cell",
 "Each table is written as a grid whose pipes stand in the same display column on every row, each column as wide as its widest cell, with the delimiter row carrying the alignment of each column. Every cell keeps its row, column and content, including escaped pipes and wide characters.",
 ["inputs", "configurations"], "Generated tables with any alignment, ragged rows, escaped pipes, code spans, links, CJK, combining marks and emoji.",
 "Tests fix a few tables; alignment depends on the width of every cell.",
 [SER + "table.rs", SER + "escape.rs"], [("table", "src/serializer/table.rs")], [LIB],
 "runtime monitor: column-geometry oracle", "Held on the executions explored; display width by the unicode-width crate.")

prop("C13", "Code fences: configured style, always longer than their content",
 "Every code block is fenced with the configured character (tildes where the info string holds backticks), at least the configured length and more than any fence line it contains, with the info string kept and spaced as configured. Blocks without a language take the default language, and blocks with one never do.",
 ["inputs", "configurations"], "Generated fenced and indented code in every container with contents full of fence runs; all fence options.",
 "Tests fix a few contents; fence safety is over all contents.",
 [SER + "code.rs"], [("three fence writers", "src/serializer/code.rs")], [LIB],
 "runtime monitor: fence oracle over generated code", "Held on the executions explored.")

prop("C14", "Sentence case changes letter case only, and only where allowed",
 "With sentence case on, a heading differs from its original only in the case of letters: the first word is capitalised, other words are lowered unless they are proper nouns, acronyms, code or quoted. Configured and in-document proper nouns keep their spelling, common nouns lose theirs, and with the option off headings are untouched.",
 ["inputs", "configurations"], "Generated headings over built-in, configured and in-document nouns, acronyms, code spans, quotes, links, several scripts, and all noun lists.",
 "Noun lists times headings; tests fix examples.",
 [SER + "heading.rs", SER + "document.rs"], [("sentence case", "src/serializer/heading.rs")], [LIB],
 "runtime monitor: case-folding equality and reference rules", "Held on the executions explored.")

prop("C15", "Sections format independently of what surrounds them",
 "The formatting of a self-contained section does not depend on the sections before or after it: formatting a concatenation of such sections equals concatenating their formatted texts. Moving a block further down the file never changes how it is written.",
 ["inputs", "configurations"], "Generated sections without shared labels or notes, joined in any order and number.",
 "Tests format one snippet at a time; leakage of state or line offsets shows only in longer documents.",
 [SER + "state.rs", SER + "document.rs", SER + "mod.rs"], [("serializer state", "src/serializer/state.rs"), ("source slicing by line and column", "src/serializer/state.rs extract_source")], [LIB],
 "runtime monitor: metamorphic concatenation oracle", "Held on the executions explored.")

prop("C16", "Equivalent spellings format to the same text",
 "Documents that differ only in spellings the style normalises (heading style, bullet and number markers, item indentation, fence style, table padding, thematic break style, quote marker spacing, blank lines between blocks, trailing blanks) format to identical text. So do documents of any content that differ in their line endings (LF, CR LF, CR, or a mixture) only.",
 ["inputs", "configurations"], "Pairs of generated spellings of one generated document under generated options.",
 "Tests fix single pairs.",
 ALLSER, [("AST based output", "src/serializer/")], [LIB],
 "runtime monitor: metamorphic respelling oracle", "Held on the executions explored.")

prop("C17", "Formatting is a pure function of text and options",
 "The same text and options give the same output in every call, thread and process, in any order and concurrently with others. Asking for warnings never changes the output.",
 ["inputs", "schedules", "configurations"], "Generated documents formatted repeatedly, concurrently on many threads in shuffled order, and in separate processes.",
 "Tests run each input once in one process.",
 ["src/lib.rs", SER + "heading.rs", SER + "state.rs"], [("no shared mutable state", "src/lib.rs format")], [LIB],
 "runtime monitor: concurrent histories against a sequential reference; thread sanitizer build", "Held on the interleavings produced.")

prop("C18", "Warnings are accurate",
 "An undefined-reference warning is reported for a bracketed reference exactly when the document defines no such label and it is not escaped, a footnote, an alert marker, an abbreviation or inside a disabled region; its line is the line holding the reference. Inconsistent table rows are reported with the line of the row, and well-formed documents produce no warning.",
 ["inputs", "configurations"], "Generated documents with planted defined and undefined references and ragged tables at known lines, in and out of disabled regions.",
 "Tests fix single warnings; accuracy is over positions and contexts.",
 [SER + "document.rs", SER + "table.rs", SER + "state.rs"], [("reference check", "src/serializer/document.rs"), ("table check", "src/serializer/table.rs")], [LIB],
 "runtime monitor: planted-defect ledger", "Held on the executions explored.")

prop("C19", "External formatters get the exact code and can never damage it",
 "A configured formatter is run for exactly the code blocks of its language that do not opt out, receives the exact code on standard input, and on success its standard output replaces the code. On any failure (missing program, non-zero exit, timeout, invalid output) the original code stays, a warning names the failure, the rest of the document is formatted as usual, and formatting ends within the timeout.",
 ["inputs", "fault_sequences", "configurations"], "Generated code blocks of sizes from 0 to megabytes, run through helper programs that echo, transform, fail, stall, close streams early, flood output or emit invalid text, with small timeouts.",
 "The existing formatter tests use a few bytes of code and well-behaved programs; one of them is a known race.",
 [SER + "formatter.rs", SER + "code.rs"], [("run_formatter", "src/serializer/formatter.rs")], [LIB, "log written by the helper program"],
 "runtime monitor: recorded helper log against an invocation model, fault injection", "Held on the faults injected; timeout verdicts use a generous wall-clock margin.", level="fault_enumeration")

prop("C20", "Every command-line mode agrees with the formatter and only --write writes",
 "Standard output, --write, --diff, --check and --stdin all reflect one and the same formatted text, which is what the library returns for the effective configuration. Check, diff and print modes modify nothing; write mode rewrites exactly the files whose formatted text differs, leaves every other file untouched, and afterwards a check succeeds.",
 ["inputs", "histories", "configurations"], "Generated trees of files run through sequences of invocations in every mode.",
 "The command-line tests run a few invocations on one or two files.",
 ["src/main.rs"], [("process_file", "src/main.rs")], [CLI, "write-open events logged by an interposed library"],
 "runtime monitor: file-system ledger and open/write event log against the library", "Held on the histories explored.")

prop("C21", "One bad file never spoils the others, and the exit code tells",
 "When some files cannot be read or written, every other file is still processed exactly as if the bad ones were absent, each failure is reported by name, and the exit status is non-zero; it is zero when nothing failed and, in check mode, nothing needed formatting. A file whose processing failed is never reported as formatted.",
 ["fault_sequences", "inputs", "schedules"], "Generated trees with missing, unreadable, non-UTF-8, directory-like and write-failing files in any position, directories that cannot be listed, in every mode, with delays injected into reads.",
 "Tests cover one missing file at most.",
 ["src/main.rs"], [("per-file error handling", "src/main.rs"), ("parallel iteration", "src/main.rs")], [CLI],
 "fault injection through an interposed library, file ledger oracle", "Held on the faults injected.", level="fault_enumeration")

prop("C22", "Configuration layers apply in the documented order",
 "The effective settings are those of the nearest project file over the user files over the system file, section by section, and no_inherit cuts off everything below it. An explicit --config file replaces the cascade, and command-line flags win over all files.",
 ["configurations"], "Generated combinations of up to four configuration files at the system, home, XDG and project places, with and without no_inherit, project files at several directory heights.",
 "Two-layer merges are tested by hand; the precedence order is over all combinations.",
 ["src/config.rs", "src/main.rs"], [("load_cascading", "src/config.rs"), ("merge", "src/config.rs")], [CLI],
 "runtime monitor: independent cascade model against observed output", "Held on the combinations explored.")

prop("C23", "Invalid settings are rejected, valid ones accepted",
 "A configuration file is accepted exactly when every value lies in its documented range; an invalid one is reported naming the problem, and no setting from it takes effect. The typed option constructors accept and reject exactly the same values (blanks at the ends of a thematic break style are not judged).",
 ["configurations", "inputs"], "Generated TOML documents with values in, at and outside every documented bound, wrong types and conflicting dash patterns.",
 "Tests try a few values per setting.",
 ["src/config.rs", SER + "punctuation.rs"], [("validated types", "src/config.rs"), ("validate_dash_settings", "src/serializer/punctuation.rs")], ["hongdown::config parsing results", CLI],
 "runtime monitor: reference validator over generated configurations", "Held on the values explored.")

prop("C24", "Every setting has the effect it names, by file, flag or JavaScript",
 "A setting given in a configuration file, as an in-memory option or through the JavaScript options object leads to the same formatted text, and a setting left out has its documented default. Unset and out-of-range JavaScript values fall back to the default (an invalid dash pattern turns that conversion off).",
 ["configurations", "inputs"], "Generated settings rendered as TOML, as typed options and as JavaScript option objects, applied to documents that exercise every setting.",
 "Tests check individual conversions.",
 ["src/config.rs", "src/main.rs", "src/wasm.rs"], [("option conversion", "src/main.rs, src/wasm.rs")], [CLI, LIB, "converted JavaScript options"],
 "runtime monitor: three-way differential execution", "Held on the settings explored; the JavaScript boundary itself (wasm-bindgen) is not executed.", hook="expose the JavaScript option conversion under cfg(hongdown_verif)")

prop("C25", "Exactly the right files are processed",
 "With paths given, exactly those files and the Markdown files below given directories are processed; without, exactly the files matched by include and not by exclude, minus version-control-ignored ones when git-aware. Every selected file is processed once, in a stable order.",
 ["inputs", "configurations"], "Generated directory trees with nested, hidden, ignored, oddly named and symlinked files, and generated include, exclude and ignore patterns.",
 "Tests use small fixed trees.",
 ["src/config.rs", "src/main.rs"], [("collect_files", "src/config.rs"), ("directory expansion", "src/main.rs")], [CLI],
 "runtime monitor: independent file-selection model against observed reads", "Held on the trees explored.")
