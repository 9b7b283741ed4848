T = "The suite checks a fixed set of hand-written snippets per handler; "

prop("P03", "All text of the document survives, once, in order and in its container",
     "For every document of ordinary LaTeX text and environments, the JSON output contains each word, symbol, formula, link and block of the source exactly once, in source order, inside the element that contains it in the source. Nothing is lost, repeated, moved across element borders or invented.",
     ["inputs"], "every well-formed document built from the supported text, list, table, float, theorem, quote and layout constructs, at any nesting",
     T + "loss or duplication shows only for particular neighbours and nestings of constructs, which a few samples cannot cover.",
     ["parser/tex_parser.py", "structure/builder.py", "structure/token_factory.py", "parser/handlers/environment.py"],
     [("main dispatch loop", "parser/tex_parser.py"), ("text merging and tree building", "structure/builder.py")],
     ["JSON tokens of string conversion", "JSON tokens of file conversion"],
     "Reference-model monitor: documents of unique words are written together with their expected structure; an oracle compares content, order and container of every observed token",
     "exploration of seeded generated documents, all three conversion routes")

prop("P04", "Heading tree, heading numbers and text-under-heading follow LaTeX",
     "Headings form the tree given by their levels, with every later piece of text under the nearest preceding heading. Numbered headings carry the numbers LaTeX's counters give (deeper counters restart, letters after the appendix, parts counted on their own), and starred ones carry none and change no counter.",
     ["inputs"], "every sequence of part, chapter, section, subsection, subsubsection, paragraph headings (starred or not, with or without short titles), an appendix switch and text between them",
     T + "the counter and stack state depends on the whole history of headings before it.",
     ["structure/builder.py", "parser/handlers/content_command.py"],
     [("section numbering and stacks", "structure/builder.py"), ("heading patterns", "parser/handlers/content_command.py")],
     ["section and paragraph tokens: level, numbering, title, nesting"],
     "Reference-model monitor: an independent counter-and-tree model replays every generated heading history and is compared with the observed tree",
     "exploration; histories of up to 90 headings, beyond 26 appendix letters",
     state=[("section counters", "current number per level", PKG + "structure/builder.py")])

prop("P05", "Equations, figures, tables, algorithms and theorems are numbered like LaTeX",
     "Every numbered display equation, figure, table and algorithm gets the next number of its own document-wide sequence in source order, and every numbered theorem-like environment gets section-number.counter with a counter that restarts at each numbered top-level section. Starred and unnumbered ones get no number and advance nothing.",
     ["inputs"], "every interleaving and nesting of numbered and unnumbered elements, across sections, lists, quotes, layout groups and the appendix",
     T + "numbers depend on the whole document history and on where in the tree an element sits.",
     ["structure/builder.py", "parser/handlers/equation.py", "parser/handlers/environment.py"],
     [("counters", "structure/builder.py"), ("numbered flag", "parser/handlers/environment.py"), ("numbered flag of equations", "parser/handlers/equation.py")],
     ["numbering field of equation, figure, table, algorithm, math_env tokens"],
     "Reference-model monitor: an independent counter model numbers the generated elements; compared with every observed number",
     "exploration; documents with up to 60 counted elements")

prop("P06", "Every label ends up exactly once on the element LaTeX attaches it to",
     "Each \\label of the source appears exactly once in the output, on the heading, equation, float, caption, theorem, list item or group it belongs to, and on nothing else. No label is lost, invented or moved to a neighbour.",
     ["inputs"], "every placement of labels on headings, equations (also one per row), captions, floats, subfigures, theorems, items and groups, at any nesting",
     T + "attachment uses parser state (the current environment, the previous token) that only particular neighbourhoods disturb.",
     ["parser/tex_parser.py", "parser/handlers/equation.py", "parser/handlers/item.py"],
     [("label attachment", "parser/tex_parser.py"), ("labels inside formulas", "parser/handlers/equation.py")],
     ["labels field of all tokens"],
     "Reference-model monitor: labels with unique keys; every observed (owner, label) pair is compared with the generated ones",
     "exploration; documents with up to dozens of labels",
     state=[("current environment", "owner of the next label", PKG + "parser/tex_parser.py")])

prop("P07", "References, citations, links and footnotes keep keys, notes, targets and place",
     "Every reference, citation, hyperlink, url and footnote of the source appears exactly once in the output, at its place in the text, with exactly its keys in order, its notes or link text and its target. Characters that are special elsewhere in LaTeX do not change a url or a key.",
     ["inputs"], "all reference and citation commands with any number of keys and notes, urls with special characters, links and footnotes with formatted content, in text, captions, items, cells, titles and inside style groups",
     T + "keys and targets pass through comment removal, macro expansion and several handlers whose interplay depends on the surroundings.",
     ["parser/handlers/content_command.py", "parser/tex_parser.py", "structure/tokens/ref_and_cite.py"],
     [("link commands", "parser/handlers/content_command.py")],
     ["ref, citation, url and footnote tokens and the word before each"],
     "Reference-model monitor: unique keys and urls; the observed link events (kind, keys, title, place) are compared in order",
     "exploration")

prop("P08", "Tables keep every row, cell and span",
     "A table comes out with the rows and cells of the source in order, each cell with exactly its content and its row and column span, and empty cells stay in place. Separators inside formulas, nested tables, braces or escapes do not split cells.",
     ["inputs"], "tabular, tabular*, tabularx and longtable environments of any size with rules, spans, empty cells, styled and mathematical content, nested tables and escaped separators",
     T + "cell borders depend on nesting and escaping inside neighbouring cells.",
     ["parser/handlers/tabular.py", "parser/flatten.py", "structure/tokens/tabular.py"],
     [("row and cell splitting", "parser/handlers/tabular.py"), ("flattening with references", "parser/flatten.py")],
     ["tabular tokens: rows, cells, spans"],
     "Reference-model monitor: generated grids with unique cell contents; every observed cell is compared with the grid",
     "exploration; up to 25 rows and 24 columns")

prop("P09", "Formulas keep their LaTeX source, kind and place",
     "Every inline and display formula appears exactly once, at its place, as inline or block, with its LaTeX source unchanged except for white space, comments, moved labels and expanded user macros. Aligned environments are marked as aligned.",
     ["inputs"], "inline ($, \\(\\)) and display ($$, \\[\\], equation, align, gather, multline, eqnarray, flalign, alignat, dmath, with and without star) formulas with nested environments, text with dollars, braces and escapes",
     T + "formulas are protected by placeholders and delimiter matching that only many or nested formulas exercise.",
     ["parser/handlers/equation.py", "parser/tex_preprocessor.py"],
     [("equation patterns", "parser/handlers/equation.py"), ("math protection", "parser/tex_preprocessor.py")],
     ["equation tokens and the word before each"],
     "Reference-model monitor: generated formulas compared one by one with the observed equation tokens",
     "exploration; documents with up to 60 formulas")

prop("P11", "Code, verbatim text and diagrams are reproduced character for character",
     "The content of verbatim, listing, diagram and inline verb constructs is reproduced exactly (surrounding white space aside), whatever it looks like: percent signs, commands, definitions, environment borders and unbalanced delimiters in it are neither executed nor removed. It never affects the text around it.",
     ["inputs"], "any number of code blocks and inline code pieces with hostile content (comments, macro definitions, \\begin/\\end, \\documentclass, math delimiters, quotes), inside lists, quotes, theorems or the document body",
     T + "each special character must be inert in every later stage (comments, definitions, white space, quotes, environments, expansion).",
     ["parser/handlers/code_block.py", "parser/tex_preprocessor.py", "utils/tex_utils.py", "parser/packages/tikz_pgf.py"],
     [("code patterns", "parser/handlers/code_block.py"), ("verbatim protection", "parser/tex_preprocessor.py"), ("comment removal", "utils/tex_utils.py")],
     ["code, diagram and algorithmic tokens; all words around them"],
     "Reference-model monitor: hostile code with unique words; exact comparison of code tokens and of the words around them",
     "exploration; up to 36 blocks per document")

prop("P12", "Each word carries exactly the styles in force where it stands",
     "Every word of the output carries the set of styles of the font, size and colour commands whose scope it is in, and no other. Scopes end where their group ends, also across lists, cells, captions, titles and footnotes.",
     ["inputs"], "all nestings of modern style commands, legacy declarations, sizes and colours around any inline content",
     T + "scope handling depends on nesting and on what follows the group.",
     ["parser/handlers/text_formatting.py", "parser/handlers/legacy_formatting.py", "structure/builder.py"],
     [("style commands", "parser/handlers/text_formatting.py"), ("legacy declarations", "parser/handlers/legacy_formatting.py"), ("merging by style", "structure/builder.py")],
     ["styles of text tokens"],
     "Reference-model monitor: unique words with known style sets; compared word by word",
     "exploration; nesting up to five deep")

prop("P25", "Lists keep their items, item labels, nesting and depth",
     "Every list comes out with its kind, its nesting depth and its items in order, each item with exactly its optional label, its \\label and its content including nested lists and blocks. Text after a nested list stays in its item.",
     ["inputs"], "itemize, enumerate and description lists with any items, nested in each other and in quotes, theorems and layout groups",
     T + "item borders are found by scanning past nested environments, which only particular nestings exercise.",
     ["parser/handlers/item.py", "parser/handlers/environment.py", "structure/builder.py"],
     [("item splitting", "parser/handlers/item.py"), ("depth", "structure/builder.py")],
     ["list and item tokens"],
     "Reference-model monitor: generated list trees compared with the observed ones",
     "exploration; nesting up to seven deep")

prop("P01", "Conversion always ends, without crash, on any text",
     "Converting any string ends in bounded time with a list of tokens: no exception, no endless loop, no run-away memory, however malformed, unbalanced, repetitive or random the text is. This holds for the plain and the preprocessing route and for building the JSON.",
     ["inputs"], "every Unicode string: token soup of LaTeX commands, damaged documents (deleted, duplicated, swapped, truncated pieces), unbalanced delimiters, recursive definitions, deep nesting, random bytes",
     T + "a crash or hang needs a particular malformed combination, of which there are infinitely many.",
     ["parser/tex_parser.py", "parser/tex_preprocessor.py", "structure/builder.py", "utils/tex_utils.py"],
     [("dispatch loop", "parser/tex_parser.py"), ("macro expansion limits", "parser/handlers/new_definition.py"), ("builder", "structure/builder.py")],
     ["return, exception, CPU time and memory of parse and build"],
     "Watchdog and exception monitor: hostile fuzzing workload; CPU-time alarm, memory limit and exception hook observe every conversion",
     "exploration of seeded hostile inputs; hang limit 8 CPU seconds, confirmed by a repeat")

prop("P02", "Every output obeys the documented JSON token format",
     "For every input, the JSON output is a list of tokens that follow the documented schema: known types, required fields, allowed values (levels, display, numbering formats, styles), proper nesting, no internal object, handler name or placeholder of the implementation, no empty style list. It survives a JSON round trip unchanged.",
     ["inputs"], "every input text, well-formed or damaged, on both routes",
     T + "an internal token, placeholder or malformed field escapes only for particular combinations of constructs.",
     ["structure/token_factory.py", "structure/builder.py", "structure/tokens/base.py", "structure/tokens/types.py"],
     [("typed tokens", "structure/token_factory.py"), ("tree building", "structure/builder.py")],
     ["model_dump of all output tokens"],
     "Online schema monitor over every node of every output produced by well-formed, damaged and hostile workloads",
     "exploration; an independent schema checker written from the documentation")

prop("P10", "Comments never change the result",
     "Adding LaTeX comments to a document does not change its conversion, except possibly the kind of white space between words: comments at line ends, whole comment lines, comment environments and commented code of any content (braces, environments, definitions, verb, document borders) leave no trace. Escaped percent signs are text, and percent signs in code are code.",
     ["inputs"], "every document and every set of comments placed at its line ends or as lines of their own, with any comment content",
     T + "comment removal interacts with escapes, verbatim parts, definitions and both conversion routes.",
     ["utils/tex_utils.py", "parser/tex_parser.py", "parser/tex_preprocessor.py"],
     [("comment removal", "utils/tex_utils.py"), ("comment handling", "parser/tex_parser.py")],
     ["JSON tokens of the document with and without comments"],
     "Metamorphic trace comparison: the token trees of a document and of its commented form must be equal",
     "exploration; up to dozens of comments per document")

prop("P13", "User macros mean exactly their expansion",
     "A document that defines and uses macros converts to the same result as the document with every call replaced by the macro's body with its arguments filled in. This holds for every way of defining them, in text and formulas, for nested calls, optional arguments, delimited parameters and names that begin like other commands.",
     ["inputs"], "newcommand, renewcommand, providecommand, DeclareRobustCommand, def, gdef, DeclarePairedDelimiter with 0-9 parameters, defaults, delimited parameters, bodies with calls of other macros and any inline content, calls with braced arguments inside any construct",
     T + "expansion depends on names that are prefixes of each other, on nesting of calls and on the surrounding construct.",
     ["parser/handlers/new_definition.py", "parser/handlers/command_manager.py", "parser/tex_preprocessor.py", "parser/tex_parser.py"] ,
     [("definitions", "parser/handlers/new_definition.py"), ("expansion", "parser/tex_preprocessor.py")],
     ["JSON tokens of the macro form and of the inlined form"],
     "Metamorphic trace comparison: macro form against inlined form, formulas compared as token trees",
     "exploration; up to 30 macros and hundreds of calls per document")

prop("P18", "A document spread over files converts like the document in one piece",
     "Replacing parts of a document by \\input or \\include of files that hold these parts, at any depth and in subfolders, with or without the .tex ending, gives the same token tree as the document in one piece: content, order, numbers, labels, styles and definitions. A file included twice counts twice. Files that include themselves or each other end, with the rest of the document intact.",
     ["inputs", "histories"], "every split of a document into a tree of included files, and every inclusion graph including cyclic ones",
     T + "numbering, definitions and list or section nesting carry over file borders, which depends on where the splits are.",
     ["parser/tex_parser.py", "parser/tex_preprocessor.py", "tex_reader.py"],
     [("inclusion", "parser/tex_parser.py"), ("file reading", "utils/tex_utils.py")],
     ["JSON tokens of the split and of the joined document"],
     "Metamorphic trace comparison: split form against the reference model and the joined form; cyclic graphs under a watchdog",
     "exploration; up to dozens of files, twelve levels deep", state=[("parsed files", "stack of files being read", PKG + "parser/tex_parser.py")])

prop("P19", "A project converts the same from its file, folder or archive",
     "Converting the main file, the folder that holds it, or a zip, tar, tar.gz or gz archive of it gives the same JSON: tokens and colour map. Relative inclusions, bibliographies, classes and packages are found alike on every route.",
     ["inputs"], "every project and every packing of it (archive kinds, compression, wrapping folder, member order)",
     T + "path resolution differs per route and depends on layout and member order.",
     ["tex_reader.py", "tex_file_extractor.py"],
     [("routes", "tex_reader.py"), ("extraction", "tex_file_extractor.py")],
     ["JSON text of each route"],
     "Metamorphic comparison of the JSON of all routes on generated projects",
     "exploration; projects with up to dozens of files")

prop("P20", "Unpacking an archive changes and reads nothing outside its own folder",
     "Whatever an archive contains, processing it writes, deletes, links or changes permissions only inside the temporary directory made for it, and nothing outside of it becomes part of the output through the archive: absolute paths, parent paths, symbolic and hard links, devices and name tricks included. Harmless members of the same archive still convert.",
     ["inputs"], "every archive: member names, types, links and their order",
     T + "an escape needs a specific hostile member combination.",
     ["tex_file_extractor.py", "tex_reader.py"],
     [("member filter", "tex_file_extractor.py"), ("extraction", "tex_file_extractor.py")],
     ["audit events of file operations", "snapshots of the surrounding folders", "output text"],
     "Containment monitor: audit hook on all file events plus before/after snapshots and canary texts outside, with hostile archives confined to a scratch folder",
     "exploration; two cooperating hostile members included")

prop("P21", "Temporary folders live exactly as long as documented",
     "Processing an archive leaves no temporary directory or file behind when it fails, at whatever point, or when cleanup was asked for; otherwise its directory exists and is complete until cleanup of the result, which removes it and may be called again. No file handle stays open. The input archive is not changed. Failures surface as the documented error type.",
     ["histories", "fault points"], "every archive (valid, damaged, empty, no main file) and every fault at any call made on the way",
     T + "clean-up after failures depends on the point of failure.",
     ["tex_reader.py", "tex_file_extractor.py"],
     [("clean-up", "tex_reader.py"), ("temporary directory", "tex_file_extractor.py")],
     ["entries of the temporary folder", "raised exceptions", "open files"],
     "Resource monitor: recorded temporary directories over injected faults at extraction, reading, parsing and building",
     "exploration; ten kinds of faults, before or after the call", state=[("temp_dir", "folder an archive is unpacked to", PKG + "tex_file_extractor.py")])

prop("P22", "Bibliography entries come out once, in order, with key, label and text",
     "Every entry of the bibliography, written as thebibliography items, .bbl or .bib file or biblist, appears exactly once in order in the bibliography token with its citation key, its label, its format and its text or fields: field names in lower case, values complete with nested braces and special characters. Comments and non-entries do not count as entries.",
     ["inputs"], "all bibliographies in the supported forms with any entry types, keys, fields, values, layouts and number of files",
     T + "entry and field borders depend on nested braces, quotes and separators inside values.",
     ["parser/bib/bib_parser.py", "parser/bib/bibtex_parser.py", "parser/bib/bibitem_parser.py", "parser/bib/bibdiv_parser.py", "structure/builder.py"],
     [("entry parsing", "parser/bib/bibtex_parser.py"), ("bibliography token", "parser/tex_parser.py")],
     ["bibliography tokens"],
     "Reference-model monitor: generated entries compared with the observed ones",
     "exploration; up to dozens of entries")

prop("P27", "Local packages and classes act on the document as their declarations say",
     "Packages and classes found beside the document, however they load each other (also in circles, also missing ones, also by \\input), act as if their declarations stood in the preamble: theorem-like environments, float names, colours, switches and paired delimiters are known to the document; the commands they define are known and produce nothing, with their arguments consumed, unless the document itself defines them, in which case the document's definition counts. Nothing else of a package reaches the output or changes it.",
     ["inputs"], "every distribution of definitions over classes, packages and packages loaded by them",
     T + "effects depend on the loading structure and on the mix of declarations.",
     ["parser/sty_parser.py", "parser/tex_preprocessor.py", "parser/handlers/command_manager.py"],
     [("package parsing", "parser/sty_parser.py"), ("registration", "parser/handlers/command_manager.py")],
     ["JSON tokens with packages and with the same declarations in the preamble"],
     "Metamorphic trace comparison of package form and preamble form, plus direct oracles for each declaration",
     "exploration; up to three levels of packages")

prop("P32", "The main file of a project is chosen by its content, not by chance",
     "The converted file of a folder or archive is one that holds \\documentclass or \\begin{document} outside comments; among several, one in the folder itself comes before those in subfolders, and then the first by name. The order in which the file system lists files has no influence. If there is none, processing fails with the documented error.",
     ["inputs", "environment"], "every folder layout and every order of directory listings",
     T + "directory order is chosen by the file system, which a test cannot vary.",
     ["tex_file_extractor.py", "tex_reader.py"],
     [("main file search", "tex_file_extractor.py")],
     ["main_tex_path and converted text"],
     "Reference-model monitor over generated folder layouts with directory listings in injected random orders",
     "exploration; layouts of up to a dozen files")

prop("P17", "Conditionals stand for their taken branch; the other branch leaves no trace",
     "Every conditional (\\iftrue, \\iffalse, switches declared by \\newif or not, \\ifx, \\ifnum, \\ifdim, \\ifdefined, \\ifthenelse, \\ifbool, \\IfFileExists, nested in each other) stands for exactly one branch: the first, or for \\iffalse the one after \\else, or for \\ifbool the one its switch says. The text of that branch is converted as if it stood there alone; what the other branch holds, also definitions, labels, numbered elements, inclusions and unbalanced material, has no effect. \\newif and the setting of a switch leave nothing behind.",
     ["inputs"], "all placements and nestings of conditionals around any content",
     T + "the branches to match depend on nesting and on what the branches contain.",
     ["parser/handlers/if_else_statements.py", "parser/tex_preprocessor.py", "parser/tex_parser.py", "parser/packages/etoolbox.py"],
     [("branch extraction", "parser/handlers/if_else_statements.py"), ("branch selection", "parser/tex_parser.py")],
     ["JSON tokens"],
     "Reference-model monitor: generated conditionals with a taken branch of known meaning and a dropped branch of traceable content",
     "exploration; nesting up to six")

prop("P14", "Each macro use has the meaning of the last definition before it",
     "Through any history of definitions, redefinitions and copies (\\newcommand, \\renewcommand, \\providecommand, \\DeclareRobustCommand, \\def, \\gdef, \\long\\def, \\edef, \\xdef, \\let), each use of a macro in text or formulas stands for what the most recent effective definition before it says: \\providecommand never replaces, \\let and \\edef fix the meaning of their moment, macros called inside a body are looked up at the time of use. Similar names do not disturb each other.",
     ["histories"], "every sequence of definitions, redefinitions, copies and uses at the top level of a document, in both parsing modes and by file",
     T + "the meaning of a use depends on the whole history of definitions before it.",
     ["parser/handlers/new_definition.py", "parser/handlers/command_manager.py", "parser/tex_preprocessor.py", "parser/tex_parser.py"],
     [("definition registry", "parser/handlers/command_manager.py"), ("preamble expansion", "parser/tex_preprocessor.py")],
     ["words of the JSON tokens in order"],
     "Online reference interpreter of TeX's definition rules replays each generated history and is compared with the observed words of every use",
     "exploration; histories of up to 24 operations on up to 8 names",
     state=[("commands", "current definition of each macro", PKG + "parser/handlers/command_manager.py")])

prop("P15", "A conversion does not depend on conversions before it or beside it",
     "The result for an input is the same whether it is the first conversion of a process, or its reader has converted, failed on, or been stopped in the middle of any other inputs before, or other readers work at the same time in other threads. Definitions, colours, numbers, theorem kinds, front matter and files of one document never show in another, and results handed out earlier do not change.",
     ["histories", "schedules"], "every sequence of conversions, failures and interruptions on a reader (for a parser used directly: with clear() between documents), and every interleaving of readers in threads",
     T + "left-over state shows only for particular pairs of documents and particular points of failure.",
     ["tex_reader.py", "parser/tex_parser.py", "structure/builder.py", "parser/tex_preprocessor.py", "parser/handlers/base.py"],
     [("clear before each document", "tex_reader.py"), ("clear of all handlers", "parser/tex_parser.py")],
     ["JSON of each conversion against that of a freshly forked process that never converted anything"],
     "History monitor: differential traces of reused, interrupted and concurrent readers against pristine processes, with faults injected at parser calls",
     "exploration; histories of up to 14 steps, up to 5 threads at small switch intervals",
     state=[("parser state", "definitions, colours, environments of the current document", PKG + "parser/tex_parser.py")])

prop("P16", "Conversion is a pure function of the input files",
     "The same input gives byte-identical JSON in every process, whatever its hash seed, locale, time zone, environment variables, working directory, path form, umask or optimisation level. A conversion changes no input file, writes nothing outside its temporary folder and the output file asked for, starts no process, opens no connection, and leaves the state of its process as it was: working directory, environment, recursion limit, signal handlers, open files, threads, warning and logging set-up, random state.",
     ["inputs", "environment"], "every input and every process environment",
     T + "they run in one environment and look at results, not at side effects; a dependence on hash order shows only for some seeds.",
     ["tex_reader.py", "parser/tex_parser.py", "parser/tex_preprocessor.py", "structure/builder.py"],
     [("entry points", "tex_reader.py"), ("parser", "parser/tex_parser.py")],
     ["bytes of the JSON from differing processes", "audit events of the interpreter", "process state and folder snapshots before and after"],
     "Differential monitor over varied processes plus an audit-hook and state-snapshot monitor for side effects",
     "exploration; three environments per input, file names in ASCII")

prop("P31", "Layout and bookkeeping commands leave no trace in the output",
     "Commands that only say how a page looks or that keep books for LaTeX itself (spacing, page and line breaks, lengths and their assignment, counters, page styles, rules, penalties, hyphenation, table-of-contents entries, option settings) vanish together with their arguments, wherever they stand: between words, in styled text, headings, captions, list items, table cells, theorems, notes and between blocks. The document converts as if they were not there, and the words and elements beside them are neither lost, joined nor renumbered.",
     ["inputs"], "every layout command of a given list at every place of every document",
     T + "how far a command's argument reaches depends on the spelling and on what follows it.",
     ["parser/handlers/formatting.py", "parser/handlers/content_command.py", "parser/patterns.py", "parser/handlers/command_processor.py"],
     [("ignored commands", "parser/handlers/formatting.py"), ("patterns", "parser/patterns.py")],
     ["JSON tokens"],
     "Reference-model monitor over generated documents with layout commands injected at every kind of place",
     "exploration; about 150 spellings of layout commands")

prop("P36", "Every way into the converter gives the same result for the same document",
     "A document converts to the same JSON as a string, as a file, as a folder, and as an archive (zip, tar, tar.gz, tgz, a single gzipped file), through process and through the method made for that form, with text or Path arguments, absolute or relative paths, with and without cleanup, and through to_json as well as save_to_json. Parsing with and without preprocessing agree on documents that define no macros. This also holds for malformed documents.",
     ["inputs", "environment"], "every document and every entry point with every form of its argument",
     T + "the entry points read, unpack and preprocess on different code paths.",
     ["tex_reader.py", "tex_file_extractor.py", "parser/tex_parser.py", "parser/tex_preprocessor.py", "utils/encoding.py"],
     [("entry points", "tex_reader.py"), ("unpacking", "tex_file_extractor.py")],
     ["JSON of each entry point for the same content"],
     "Differential monitor: the JSON traces of all entry points are compared with each other",
     "exploration; generated, stateful, fuzzed and multi-file documents")

prop("P30", "Commands and environments the converter does not know are kept as they are",
     "A command the converter has no meaning for, and the document does not define, yields one command token with exactly its name (a star included) and, if a brace argument follows, that argument's source; it stands at its place between the words around it, inside any structure and style, and the text after it is converted as usual. An unknown environment yields one environment token with its name, label and converted content. Inside formulas unknown commands stay verbatim. That a name starts like, ends like or contains the name of a known command or environment makes no difference.",
     ["inputs"], "every unknown name at every place of every document",
     T + "whether a name collides with the pattern of a known command depends on the name.",
     ["parser/tex_parser.py", "parser/patterns.py", "parser/handlers/environment.py", "parser/handlers/content_command.py"],
     [("unknown commands", "parser/tex_parser.py"), ("generic environments", "parser/handlers/environment.py")],
     ["command and environment tokens and their surroundings"],
     "Reference-model monitor over generated documents with unknown names made from known ones",
     "exploration; names made from about 400 known ones")

prop("P23", "Accents, letters and symbols print as their characters",
     "Every accent command over a letter (braced or not, nested, over \\i, \\j or another letter command), every letter or sign command the converter knows, and every escaped special character of text prints as the one Unicode character LaTeX would print (and \\romannumeral as its numeral), joined to the letters beside it exactly as in the source; characters typed directly as Unicode stay as they are. This holds in every spelling and at every place text can stand, with nothing lost, doubled or attached to the wrong letter.",
     ["inputs"], "every spelling of every accent and letter command at every place of every document",
     T + "whether an accent meets its letter depends on spelling, neighbours and the container's own handling of braces and backslashes.",
     ["parser/handlers/diacritics.py", "latex_maps/latex_unicode_converter.py", "parser/tex_parser.py", "parser/handlers/tabular.py"],
     [("accents", "parser/handlers/diacritics.py"), ("letters and symbols", "latex_maps/latex_unicode_converter.py")],
     ["text of the JSON tokens"],
     "Reference-model monitor: an independent table of accents and letters writes the source and the expected text; compared word by word with the observed tokens",
     "exploration; the accents, letters and signs of rv/chars.py")

prop("P26", "Environments and theorem kinds defined by the document act as defined",
     "An environment defined by \\newenvironment or \\renewenvironment comes out as one element with its name that holds exactly the text of its begin part, its body and its end part, with the arguments (optional ones with their default) filled in, also nested in itself, in other elements or in other user environments, and after redefinition with the latest meaning. A theorem kind declared by \\newtheorem comes out under its printed title, numbered in the common theorem sequence when that title is a numbered kind and the declaration is not starred, with its note, label and content.",
     ["inputs", "histories"], "every set of environment and theorem definitions and every sequence and nesting of their uses",
     T + "what an environment produces depends on its arguments, its body and the definitions before.",
     ["parser/handlers/environment.py", "parser/handlers/new_definition.py", "parser/tex_parser.py", "parser/handlers/command_manager.py"],
     [("user environments", "parser/handlers/environment.py"), ("newtheorem", "parser/handlers/new_definition.py")],
     ["environment and math_env tokens with content, name, number, title, labels"],
     "Reference-model monitor: generated definitions and uses with their expansion written down beside them; every observed token is compared",
     "exploration; up to 9 definitions per document, three arguments",
     state=[("environments", "current definition of each environment", PKG + "parser/handlers/environment.py")])

prop("P29", "Front matter keeps every title, author, affiliation, abstract and keyword",
     "Title, authors, affiliations, addresses, e-mails, keywords and abstract each yield one token in source order, wherever they are written: in the preamble, in the document or without a document environment. Authors are separated exactly at \\and, each with its own text, thanks notes and formatting; abstracts and titles hold exactly their content; keywords keep their source text; optional short forms, dates and \\maketitle leave nothing behind.",
     ["inputs"], "every order, place and content of the front matter commands",
     T + "the commands are found in preamble and body by different code and hold formatted content of any kind.",
     ["parser/handlers/author.py", "parser/handlers/content_command.py", "parser/handlers/environment.py", "parser/tex_preprocessor.py"],
     [("author commands", "parser/handlers/author.py"), ("title, abstract, keywords", "parser/handlers/content_command.py")],
     ["title, author, affiliation, address, email, keywords, abstract tokens"],
     "Reference-model monitor over generated documents with front matter",
     "exploration; up to five authors per command")

prop("P24", "What a document says does not depend on how its files are written down",
     "The same document yields the same output whether its files are UTF-8 with or without byte-order mark, with LF, CRLF, CR or mixed line ends, in any mixture over main file, included files, bibliography files and local packages; files with Western European text in Latin-1 or Windows-1252 yield that text. Bytes that are valid in no encoding never make the conversion fail and cost no ordinary word around them.",
     ["inputs"], "every document, every non-ASCII content and every mixture of encodings and line ends over its files (no NUL bytes)",
     T + "encoding detection is statistical, so that what it decides depends on all the bytes of each file.",
     ["utils/encoding.py", "parser/tex_parser.py", "parser/tex_preprocessor.py", "parser/bib/bib_parser.py", "parser/sty_parser.py"],
     [("encoding detection", "utils/encoding.py"), ("reading of files", "parser/tex_parser.py")],
     ["JSON tokens of projects on disk"],
     "Reference-model monitor over projects whose files are written in random encodings and line ends, and a survival monitor over files with stray bytes",
     "exploration; words of 12 scripts, 10 bytes sequences of noise per file")

prop("P28", "The colour map and the saved JSON say exactly what document and to_json say",
     "The colour map of a result holds exactly the colours the document declares by \\definecolor outside comments and verbatim text, each with its model and the value of the last declaration, from the preamble, the body and included files, and declarations leave nothing in the text. save_to_json writes exactly the text to_json returns, as UTF-8, to exactly the given path (a string or Path), creating missing folders and replacing an older file completely.",
     ["inputs", "histories"], "every document with colour declarations and uses, every result and output path",
     T + "colours are collected by the preprocessor, packages and parser together, in an order that only mixed documents reveal.",
     ["tex_reader.py", "parser/handlers/content_command.py", "parser/tex_preprocessor.py", "parser/tex_parser.py"],
     [("result to JSON", "tex_reader.py"), ("colour declarations", "parser/tex_parser.py")],
     ["color_map of the JSON", "bytes of the saved file"],
     "Reference-model monitor: generated colour histories with the expected map; byte comparison of the saved file",
     "exploration; up to about 10 declarations per document")

prop("P33", "A missing or unreadable file costs nothing but itself",
     "An \\input, \\include, package, class or bibliography file that is missing, a folder, or a dangling or circular link changes nothing else of the output: everything else is converted as if the command that asked for the file were not there, for file, folder and archive targets. A target that does not exist raises FileNotFoundError from every processing method and creates nothing.",
     ["inputs", "faults"], "every document and every set of missing or unreadable files it refers to",
     T + "each kind of file is looked up by different code and the suite holds hardly a missing one.",
     ["parser/tex_parser.py", "parser/tex_preprocessor.py", "parser/bib/bib_parser.py", "parser/sty_parser.py", "tex_reader.py"],
     [("inclusion", "parser/tex_parser.py"), ("packages", "parser/sty_parser.py"), ("targets", "tex_reader.py")],
     ["JSON tokens of projects with missing files", "exceptions"],
     "Fault injection over generated projects, judged by the reference model of the rest of the document",
     "exploration; up to about 20 missing files per project")

prop("P34", "Boxes and commands that only arrange text are transparent",
     "The content of a box command (mbox, fbox, hbox, vbox, hbox to, makebox, framebox, parbox, pbox, raisebox, colorbox, fcolorbox, scalebox, resizebox, rotatebox, adjustbox) comes out exactly as if it stood there alone, text, formulas, references, styles, tables, lists and figures alike; lengths, colours, angles and other arguments leave no trace. \\usebox prints what was saved in that box last. \\num prints its number, rounded when it asks for it, \\romannumeral the numeral, \\frac and \\nicefrac in text both parts around a slash, \\texorpdfstring its second argument, \\citetext its text. Nothing is joined to or split from the words around.",
     ["inputs", "histories"], "every nesting of boxes with any content and arguments, and every sequence of saved boxes",
     T + "a box holds any content, stands at any place and has arguments that must not be taken for content.",
     ["parser/packages/boxes.py", "parser/tex_parser.py", "parser/handlers/tabular.py", "parser/packages/"],
     [("boxes and saved boxes", "parser/packages/boxes.py"), ("tokens joined to text", "parser/tex_parser.py")],
     ["JSON tokens of documents with boxes"],
     "Reference-model monitor: generated documents with boxes around generated content, whose expected output is that content",
     "exploration; boxes nested up to the generator's depth",
     state=[("saved boxes", "content of each saved box", PKG + "parser/packages/boxes.py")])

prop("P35", "Pictures and floats made of parts keep every picture, caption and part",
     "Every \\includegraphics (starred too), overpic and \\includepdf comes out once with exactly its file name and the page or pages it selects; every tikzpicture, picture or pgfpicture as a diagram with its name and source; every subfigure and subtable as an unnumbered part with its own caption, label and content; every \\subfloat with its caption and content; \\captionof as a caption of its kind with its label. wrapfigure counts as a figure. Sizes, placements, widths, short captions, \\graphicspath and libraries leave nothing behind.",
     ["inputs"], "every float made of pictures, diagrams, tables, captions and parts, with any options",
     T + "options stand in any number and order, so that one of them is easily taken for content.",
     ["parser/handlers/content_command.py", "parser/handlers/environment.py", "parser/handlers/text_formatting.py", "parser/packages/overpic.py", "parser/packages/tikz_pgf.py"],
     [("pictures and captions", "parser/handlers/content_command.py"), ("floats and parts", "parser/handlers/environment.py"), ("diagrams", "parser/packages/tikz_pgf.py")],
     ["JSON tokens of documents with floats"],
     "Reference-model monitor: generated documents with composed floats and the expected tree beside them",
     "exploration; up to four parts per float")
