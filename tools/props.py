prop('C01', 'No input makes the compiler touch memory it must not, or die abnormally',
     'For every set of input files and every combination of command line options, quickbook ends by itself with status 0 or a small positive error status and never with a signal, a failed assertion, an uncaught exception, or any invalid memory access, use of an uninitialised value or undefined behaviour. This covers malformed, truncated, binary and adversarially nested input (up to 200 levels of brackets), all language versions and all output formats.',
     ['inputs', 'configurations'],
     'for every byte sequence in any of the input files, every language version 1.0 to 1.7 and every command line',
     'The tests feed about 170 hand-written documents, nearly all well-formed, to an uninstrumented build; out-of-range iterators and stale references only show on odd input and only under instrumentation.',
     ['src/quickbook.cpp', 'src/grammar.cpp', 'src/main_grammar.cpp', 'src/actions.cpp', 'src/values.cpp', 'src/code_snippet.cpp', 'src/post_process.cpp', 'src/xml_parse.cpp', 'src/files.cpp', 'src/glob.cpp', 'src/utils.cpp'],
     [('total handling of every parse failure', 'src/quickbook.cpp parse_file, src/main_grammar.cpp'),
      ('bounds of the hand-written scanners', 'src/simple_parse.hpp, src/xml_parse.cpp, src/glob.cpp, src/native_text.cpp'),
      ('reference counted values and intrusive strings', 'src/values.cpp, src/files.cpp')],
     'ASan+UBSan build, pattern-initialised locals, libstdc++ assertions; mutation and generation workload over all inputs and options',
     'Sanitizers decide every run; reach is the workload (corpus mutation, generated documents, option matrix, faults in the value containers). Uninitialised reads are seen through pattern initialisation and a valgrind sample in the thorough tier.')

prop('C02', 'Work stays bounded and self-reference is diagnosed',
     'Compiling a document ends. Repeating an element of the language, within itself or one after the other, makes the work, the bytes moved and the memory used grow in proportion to the number of repetitions, or, where ids clash, errors are reported or brackets and marks are left open, with a low power of it (the square, or the cube for open brackets nested up to 200 deep). Templates and files that refer to themselves, directly or through others, are reported as an error with exit status 1 instead of running forever or exhausting memory or stack, while repeated and deep but finite use of templates and includes keeps working.',
     ['inputs', 'programs'],
     'for every document size and every graph of template calls and file includes, cyclic or not',
     'The tests contain two small recursive templates and no large documents, so neither the growth of work nor the other ways of forming cycles are exercised.',
     ['src/actions.cpp', 'src/main_grammar.cpp', 'src/template_stack.cpp', 'src/state.cpp', 'src/quickbook.cpp', 'src/files.cpp'],
     [('template depth limit', 'src/actions.cpp call_template, src/state.hpp template_depth'),
      ('limit on nested files', 'src/actions.cpp load_quickbook'),
      ('linear scanning of comments, code and template bodies', 'src/main_grammar.cpp, src/block_element_grammar.cpp')],
     'monitor that counts the edges of the control flow passed, bytes moved and memory used, at doubled input sizes and in generated call/include graphs whose outcome and expansions a reachability oracle predicts',
     'Growth is judged from counted work (deterministic, independent of the machine) at doubled sizes, cycles and numbers of expansions by exact reachability on generated graphs.')

prop('C03', 'Every successful run writes a well-formed document',
     'Whenever quickbook exits with status 0 for input made of characters XML can represent and without raw escapes or raw attribute text, the BoostBook file it writes is well-formed XML in UTF-8, with every special character of text, titles, attributes, link targets, file names and document information escaped. The same holds for the HTML files: their tags are balanced and their text and attributes are escaped.',
     ['inputs', 'configurations'],
     'for every document, including text full of XML special characters placed in any construct, every version and every layout option',
     'The tests compare fixed documents with fixed output; special characters appear in few constructs and never in combination.',
     ['src/actions.cpp', 'src/markups.cpp', 'src/utils.cpp', 'src/doc_info_actions.cpp', 'src/syntax_highlight.cpp', 'src/html_printer.cpp', 'src/bb2html.cpp', 'src/state.cpp'],
     [('encoding of text', 'src/utils.cpp print_char/print_string'), ('attribute and URI encoding', 'src/actions.cpp, src/utils.cpp'),
      ('balanced markup of phrases and blocks', 'src/markups.cpp, src/actions.cpp')],
     'online monitor: strict XML parser and tag-balance checker over the files written by hostile generated and mutated documents',
     'The oracle is an independent XML parser (expat) and an independent HTML tag balance checker; reach is the workload.')

prop('C04', 'Text comes out as it was written',
     'Every character of plain text, in every construct that holds text, appears in the output exactly once, in order and with only its XML representation changed: markup-like characters, entities, escapes (a backslash, raw escapes, unicode escapes) and non-ASCII characters are neither dropped, duplicated nor reinterpreted. Only runs of white space may be laid out differently.',
     ['inputs'],
     'for every text made of any characters in any nesting of constructs and in every language version',
     'The tests hold a few fixed sentences; whether some combination of characters and context loses text cannot be settled by samples.',
     ['src/main_grammar.cpp', 'src/actions.cpp', 'src/utils.cpp', 'src/collector.cpp', 'src/post_process.cpp'],
     [('plain character actions', 'src/actions.cpp plain_char_action/raw_char_action'), ('escapes', 'src/main_grammar.cpp escape'), ('capture of nested output', 'src/collector.cpp, src/values_parse.hpp')],
     'runtime differential monitor: output text of generated documents against the text a reference generator intended',
     'Reference text is produced together with the document, independent of the code; layouts and versions vary.')

prop('C05', 'Code listings keep every character and colour tokens correctly',
     'The content of a code block, inline code or preformatted block is reproduced character by character (apart from the removed common indentation of blocks), whatever the source mode. In C++ and Python modes comments, strings, character literals, numbers, preprocessor lines, keywords, operators and identifiers are marked as exactly that class, teletype code is left unmarked, and quickbook escapes inside code (double back-ticks) are processed as quickbook.',
     ['inputs'],
     'for every code text in every source mode, nesting of comments, strings and escapes, indentation and tab layout',
     'The tests show about ten listings; tokenisation depends on every adjacent pair of tokens and on line structure.',
     ['src/syntax_highlight.cpp', 'src/actions.cpp', 'src/block_element_grammar.cpp', 'src/utils.cpp', 'src/main_grammar.cpp'],
     [('highlighters', 'src/syntax_highlight.cpp'), ('unindenting', 'src/native_text.cpp / src/files.cpp mapped_file_builder'), ('source mode tracking', 'src/state.hpp current_source_mode')],
     'runtime differential monitor: listings against reference tokenisers and an exact character comparison',
     'Reference tokenisers are written from the language rules and documentation, not from the code; the text comparison is exact.')

prop('C06', 'Ids are valid, unique and predictable, and references find them',
     'In every generated BoostBook document ids are unique and made only of characters valid in an id, and every id the author gave explicitly is kept unchanged. Ids generated from titles follow the documented rules of the language version in force (parent ids joined by dots, shortened titles), a clash is resolved by numbering only the less explicit one, and the result does not depend on unrelated content.',
     ['inputs', 'histories'],
     'for every sequence of sections, headings, anchors, tables and included documents with equal, similar, long or clashing titles and ids in each version',
     'Clashes depend on the whole set of ids in a document; the tests fix a handful of them.',
     ['src/id_generation.cpp', 'src/document_state.cpp', 'src/id_xml.cpp', 'src/actions.cpp', 'src/utils.cpp'],
     [('placeholders replaced after the whole document is known', 'src/document_state.cpp, src/id_xml.cpp'), ('resolution of duplicates', 'src/id_generation.cpp'), ('explicit id rank', 'src/document_state.hpp id_category')],
     'online monitor of uniqueness and form of ids over generated documents plus a reference model of id assignment',
     'Uniqueness and preservation are checked on every run, exact ids against a reference model written from the documentation and observed behaviour.')

prop('C07', 'Sections nest as marked, and mismatched marks are reported',
     'Section marks produce exactly the nesting they describe, across included files and templates, and a heading gets the level given or the level of its section. A closing mark without an open section, or with an id that is not that of the innermost open section, is an error reported at its own line with exit status 1; sections still open at the end are warned about (an error in strict mode), and templates must leave sections as they found them.',
     ['inputs', 'programs'],
     'for every sequence of section and heading marks spread over files and templates',
     'Section structure is a stack over the whole input; the tests have three failing sequences.',
     ['src/actions.cpp', 'src/document_state.cpp', 'src/state.cpp', 'src/doc_info_actions.cpp'],
     [('section stack', 'src/document_state.cpp'), ('closing', 'src/actions.cpp end_section_action'), ('balance of templates', 'src/actions.cpp call_template / parse_template')],
     'runtime trace monitor: reference stack machine over generated section marks, judged against diagnostics, exit status and output tree',
     'The reference is a plain stack; outcome, location and tree are all compared.')

prop('C08', 'Block structure follows the text',
     'Paragraphs, bulleted and numbered lists with any indentation and nesting, tables, variable lists, admonitions, block quotes, preformatted blocks and the other block elements produce the document tree their markup describes, with cells, rows, terms and items in order and none lost, merged or added. Block boundaries are where blank lines, indentation and closing brackets put them.',
     ['inputs'],
     'for every sequence and nesting of blocks, every indentation and spacing, in each language version',
     'List and block structure is decided by indentation of neighbouring lines, an open-ended set of combinations.',
     ['src/main_grammar.cpp', 'src/block_element_grammar.cpp', 'src/actions.cpp', 'src/markups.cpp'],
     [('indent handling', 'src/main_grammar.cpp list and indent processing'), ('list stack', 'src/state.hpp, src/actions.cpp'), ('element grammar', 'src/block_element_grammar.cpp')],
     'runtime differential monitor: output tree of generated documents against the tree the generator meant',
     'Documents and expected trees are generated together; comparison is of the whole tree.')

prop('C09', 'Templates expand to what their definition and arguments say',
     'A template call produces its body with each parameter replaced by the matching argument, for every way of splitting arguments, with nested and indirect calls, symbolic names and templates given as arguments. Names are resolved in the scope the language version in force prescribes, a later definition or a parameter hides an outer one only within its own scope, and a wrong number of arguments is an error with exit status 1 at the call, while a bracketed name that no template has is not taken for a call.',
     ['inputs', 'programs'],
     'for every set of template definitions, every call graph and every scope they are used in',
     'Scoping and argument splitting are programs in a small language; the tests run a few dozen fixed ones.',
     ['src/template_stack.cpp', 'src/actions.cpp', 'src/main_grammar.cpp', 'src/state.cpp', 'src/state_save.hpp'],
     [('scope chain', 'src/template_stack.cpp'), ('argument collection', 'src/actions.cpp break_arguments/get_arguments'), ('state saved around calls', 'src/state_save.hpp')],
     'runtime differential monitor: generated template programs against a reference expander',
     'The reference interpreter implements the documented scoping rules; output, exit status and error are compared.')

prop('C10', 'Macros and conditions have exactly their scope and value',
     'A macro is replaced by its current definition wherever text is parsed, the longest defined name wins, and a definition is visible from its place to the end of its scope (the file or the template call that contains it) and nowhere else; those from the command line are visible everywhere. Up to version 1.5 the first definition of a name wins, from 1.6 the latest. A conditional phrase appears exactly if its macro is defined at that point, and what is not shown has no effect on the rest of the document.',
     ['inputs', 'histories', 'configurations'],
     'for every sequence of definitions, redefinitions, uses, scopes and files',
     'The visible set of names depends on the whole history of the document; tests sample few histories.',
     ['src/actions.cpp', 'src/state.cpp', 'src/state_save.hpp', 'src/main_grammar.cpp', 'src/phrase_element_grammar.cpp'],
     [('symbol table of macros', 'src/symbols.hpp'), ('copy and restore around scopes', 'src/state_save.hpp'), ('conditional skipping', 'src/main_grammar.cpp skip_block / conditional_phrase')],
     'runtime trace monitor: reference environment replaying generated histories of definitions and uses',
     'The reference is a small environment model; each use is a numbered probe in the output.')

prop('C11', 'Included and imported files are found and isolated as documented',
     'Include and import load exactly the files their path or glob pattern names: a path is looked up relative to the including file and then in the directories of the include path in order, and is an error when it is nowhere; a pattern loads every matching file of all those directories, in sorted order. What an included file defines, and the source mode or version it sets, does not leak into the file that includes it except as documented, while imports bring in exactly the definitions (or the chosen snippets).',
     ['inputs', 'configurations'],
     'for every layout of files and directories, include path, pattern and nesting of includes and imports',
     'The tests use one fixed directory tree.',
     ['src/include_paths.cpp', 'src/path.cpp', 'src/glob.cpp', 'src/actions.cpp', 'src/state.cpp', 'src/state_save.hpp'],
     [('search', 'src/include_paths.cpp'), ('glob matching', 'src/glob.cpp'), ('state saved per file', 'src/actions.cpp load_quickbook')],
     'runtime differential monitor: generated file trees with probes in every file, against a reference resolver; glob function against a reference matcher',
     'Each file states who it is, so the output shows which files were loaded, in which order and with which definitions visible.')

prop('C12', 'Reported dependencies are exactly the files consulted',
     'The dependency list contains every file whose content was used to produce the output, and the list of checked locations marks every path that was looked for, found or not, including all positions of the include path and of glob patterns. Nothing else is listed, names that need quoting are escaped the same way every time, and apart from the way the names of the input and of the include path are written the list does not depend on how the program was invoked.',
     ['inputs', 'configurations'],
     'for every tree of includes, imports, images and patterns and every include path',
     'The tests compare four fixed runs; a missed dependency is only visible against what the process really opened.',
     ['src/dependency_tracker.cpp', 'src/include_paths.cpp', 'src/actions.cpp', 'src/quickbook.cpp', 'src/glob.cpp'],
     [('recording at every lookup', 'src/state.hpp dependencies, src/include_paths.cpp'), ('writing', 'src/dependency_tracker.cpp')],
     'system call trace monitor: files opened and looked at by the process (recorded by a preloaded library) compared with the reported lists, and with a reference resolver',
     'The recorded calls and the resolver are the oracle; generated trees provide the reach.')

prop('C13', 'Failure is always reported and success never claimed falsely',
     'Exit status 0 means the whole output was written: any error in the input, and any failure to read an input or write an output, gives a diagnostic and a non-zero status. Errors in a document never produce an output file; the option to expect errors exchanges success and failure of the status, nothing else. Images whose size cannot be read are not an error.',
     ['inputs', 'fault_sequences', 'configurations'],
     'for every kind of input error and every point at which reading or writing can fail',
     'The tests run twenty fixed failing documents and no failing system.',
     ['src/quickbook.cpp', 'src/files.cpp', 'src/stream.cpp', 'src/html_printer.cpp', 'src/bb2html.cpp', 'src/post_process.cpp'],
     [('error count', 'src/state.hpp error_count'), ('checks of streams after writing', 'src/quickbook.cpp, src/bb2html.cpp'), ('load errors', 'src/files.cpp')],
     'fault injection at system call boundary (failing opens, reads, writes, full device, permissions) with a monitor of exit status, diagnostics and files',
     'Every write and open of a run is failed in turn through a preloaded shim; the oracle is that status 0 implies identical output.', level='fault_enumeration')

prop('C14', 'Diagnostics name the place of the mistake',
     'Each diagnostic carries the file and the line of the construct at fault, also when the construct is inside an included or imported file, a template body or its arguments, a table cell, a list, indented code or a snippet from a source file, and whatever the line endings. Correct documents draw no diagnostics.',
     ['inputs'],
     'for every kind of mistake at every place of every document',
     'The tests for failing documents do not look at the messages at all.',
     ['src/files.cpp', 'src/iterator.hpp', 'src/actions.cpp', 'src/stream.cpp', 'src/code_snippet.cpp', 'src/template_stack.hpp'],
     [('position maps', 'src/files.cpp mapped_file'), ('position of iterators', 'src/iterator.hpp'), ('reporting', 'src/stream.cpp outerr')],
     'runtime monitor: mistakes planted at known places of generated documents, reported places compared with them',
     'The place of the planted mistake is known by construction.')

prop('C15', 'The output depends on the input only',
     'The same input files and options always give the same output bytes, diagnostics and status: whatever the working directory, memory layout, environment, earlier output files, kind of line endings (LF, CRLF, CR) and presence of a byte order mark. Adding comments, or blank lines between blocks, changes nothing but line numbers.',
     ['inputs', 'configurations', 'histories'],
     'for every document and every pair of equivalent invocations',
     'The tests run every document once, in one environment.',
     ['src/files.cpp', 'src/quickbook.cpp', 'src/path.cpp', 'src/native_text.cpp', 'src/dependency_tracker.cpp', 'src/state.cpp'],
     [('normalisation of input', 'src/files.cpp load / normalize'), ('abstract paths', 'src/path.cpp'), ('ordered containers', 'src/dependency_tracker.cpp, src/document_state.cpp')],
     'metamorphic runtime monitor: pairs of equivalent runs under perturbed environment compared byte by byte',
     'The oracle is equality of two real runs; reach is the corpus and generated documents.')

prop('C16', 'Pretty printing changes the layout only',
     'The laid-out BoostBook has the same tree, attributes and text as the output without layout, apart from white space in places where it does not count; white space is neither introduced between words that had none nor removed between words that had some, and code and preformatted text stay unchanged. White space at the ends of lines of code and around raw escapes does not count. This holds for every line width and indentation.',
     ['inputs', 'configurations'],
     'for every output tree, line width and indentation',
     'The tests fix one width and indentation and their documents are small.',
     ['src/post_process.cpp', 'src/quickbook.cpp'],
     [('pretty printer', 'src/post_process.cpp pretty_printer, tidy_compiler'), ('preformatted elements', 'src/post_process.cpp')],
     'metamorphic runtime monitor: laid-out output against the plain output of the same input, compared by an independent XML parser',
     'The oracle is the unformatted output of the same run; the comparison is exact modulo the documented white space.')

prop('C17', 'HTML output presents the same document, and its links resolve',
     'For every document accepted, each HTML page is well formed and contains the text of the BoostBook output of the same input in reading order (what belongs to a part itself before the parts in it), with emphasis, notes, lists, tables, code, quotations, footnotes, images, headings, tables of contents and document information presented as such; the titles of variable lists and the alternative text of images are the exceptions. It is one file, or one file per part with sections leading a part kept on its page; parts never overwrite each other. Every link to a place in the document leads to a file that was written and an id that exists in it (on the place itself), every footnote mark and its note lead to each other, every written file is reachable from the first, relative links of the source are relative to the output directory, absolute URLs are unchanged, and --boost-root-path, --css-path, --graphics-path, --pretty-print, --output-file and --output-dir have their stated effect from every page (URLs given to them end in a slash where a directory is meant).',
     ['inputs', 'configurations'],
     'for every document, division into files and path option',
     'The tests compare one unchunked page for each document; chunked output is not tested.',
     ['src/bb2html.cpp', 'src/boostbook_chunker.cpp', 'src/html_printer.cpp', 'src/path.cpp', 'src/quickbook.cpp', 'src/xml_parse.cpp', 'src/tree.cpp'],
     [('node handlers', 'src/bb2html.cpp'), ('chunks', 'src/boostbook_chunker.cpp'), ('link resolution', 'src/bb2html.cpp get_link_from_path')],
     'runtime monitor: link checker and text comparison over all files written for generated documents, against the BoostBook of the same input',
     'The BoostBook output of the same input is the reference for the text; links are resolved on the real files.')

prop('C18', 'Code snippets and callouts are extracted exactly',
     'A snippet imported from a C++ or Python source file is exactly the code between its marks, without the marks, ignored parts and common indentation, with embedded quickbook processed, wherever snippets nest or repeat. Each callout is numbered in order and linked both ways with its place in the code, and malformed marks are reported rather than changing other snippets.',
     ['inputs'],
     'for every arrangement of snippet marks, ignored parts, pass-through text and callouts in a source file',
     'The tests import five fixed source files.',
     ['src/code_snippet.cpp', 'src/actions.cpp', 'src/files.cpp', 'src/template_stack.cpp'],
     [('snippet parser', 'src/code_snippet.cpp'), ('callouts', 'src/actions.cpp callout handling'), ('unindent', 'src/files.cpp unindent_and_add')],
     'runtime differential monitor: generated annotated source files against a reference extractor',
     'Source files and the expected snippets are generated together.')

prop('C19', 'Document information is carried over completely',
     'Every attribute of the document information block (type, title, id, version, authors, copyright, purpose, category, license, source mode, language, last revision and so on) appears in the output as the element or attribute it stands for, once, escaped and in any order of writing, for the main file and included documents. Unknown or repeated attributes draw the documented diagnostics, and text after the block is unaffected by it.',
     ['inputs'],
     'for every combination, order and content of document attributes in every document type and version',
     'The tests have about a dozen fixed headers.',
     ['src/doc_info_grammar.cpp', 'src/doc_info_actions.cpp', 'src/quickbook.cpp', 'src/state.cpp'],
     [('attribute grammar', 'src/doc_info_grammar.cpp'), ('output of the header', 'src/doc_info_actions.cpp pre/post')],
     'runtime differential monitor: generated headers against a reference header writer',
     'Header and expected elements are generated together.')

prop('C20', 'Links and images point where the author wrote',
     'The target of every link, reference and image in the output, once decoded, equals what the author wrote (with only the escaping the language version defines), together with its text and all its attributes in order. Characters that URIs do not allow are percent-encoded, those they allow are left alone, and relative paths of included files and SVG sizes follow the documented rules.',
     ['inputs'],
     'for every target string, attribute list and construct that holds a target',
     'The tests hold a few dozen targets with few special characters.',
     ['src/actions.cpp', 'src/utils.cpp', 'src/phrase_element_grammar.cpp', 'src/state.cpp', 'src/path.cpp', 'src/xml_parse.cpp'],
     [('URI escaping', 'src/utils.cpp escape_uri'), ('images', 'src/actions.cpp image_action'), ('paths relative to the output', 'src/path.cpp, src/actions.cpp')],
     'runtime differential monitor: generated targets decoded from the output and compared with what was written',
     'Decoding is by an independent XML parser and URI decoder.')

prop('C21', 'Each file is read under its own language version',
     'Every construct is accepted, and means, what the language version declared by its own file (or given with the include) says, whatever the versions of the files around it, and the including file continues under its own version afterwards. Unknown versions are errors, and constructs of later versions are not recognised in earlier ones. (Documents before 1.6 ignore the information blocks, with their versions, of the files they include, but not a [quickbook] tag on its own; an information block without a version means 1.1.) Templates are read under the version of the file that made them, wherever they are called.',
     ['inputs', 'configurations'],
     'for every assignment of versions to the files of a document and every versioned construct',
     'The tests mix versions in two fixed trees.',
     ['src/quickbook.cpp', 'src/doc_info_actions.cpp', 'src/parsers.hpp', 'src/state.cpp', 'src/files.cpp', 'src/state_save.hpp'],
     [('version per file', 'src/files.hpp file::version, src/doc_info_actions.cpp pre'), ('version ranges in grammars', 'src/quickbook.hpp quickbook_range')],
     'runtime differential monitor: probes for versioned constructs in generated file trees against a table of versions',
     'The table of probes is confirmed per version on single files and then required in every combination.')

prop('C22', 'Values keep their content through every copy, slice and build',
     'The containers that carry parse results between grammar and actions keep every element, tag and position, in order, under any sequence of adding, copying, moving, saving, restoring, sorting and reading, and copies are independent of each other. The same holds for strings with position maps (every character leads to its place in the original file, through copies of parts and removed indentation), for the tree used to produce HTML, for output collectors, and for the tables of macros, which find the longest symbol and whose copies are independent; and file name patterns match as their definition says.',
     ['histories'],
     'for every sequence of operations on the containers',
     'The unit tests call each operation once or twice in a fixed order.',
     ['src/values.cpp', 'src/values.hpp', 'src/values_parse.hpp', 'src/files.cpp', 'src/tree.cpp', 'src/collector.cpp', 'src/glob.cpp', 'src/symbols.hpp'],
     [('reference counted nodes', 'src/values.cpp'), ('mapped files', 'src/files.cpp mapped_file_builder'), ('tree links', 'src/tree.cpp')],
     'model-based runtime monitor: random operation histories on the real containers under ASan/UBSan, compared after every step with a plain model',
     'Models are plain vectors, strings and maps; every few operations are followed by a full comparison.')

prop('C23', 'Phrase markup becomes the element it stands for',
     'Every phrase element (emphasis, code, quotes, links, roles, footnotes, anchors and the rest) and the simple markup of single characters around words produce exactly the element they describe with exactly the content written, nested as written, and markup characters that do not form markup stay text. Markup never reaches beyond the block, cell, item or bracket that contains it.',
     ['inputs'],
     'for every nesting and adjacency of phrase markup and text in every version',
     'What is markup depends on neighbouring characters on both sides; the tests sample about fifty cases.',
     ['src/main_grammar.cpp', 'src/phrase_element_grammar.cpp', 'src/actions.cpp', 'src/markups.cpp', 'src/symbols.hpp'],
     [('simple markup rules', 'src/main_grammar.cpp simple_markup'), ('phrase elements', 'src/phrase_element_grammar.cpp, src/markups.cpp')],
     'runtime differential monitor: generated phrases against the tree meant and against a reference recogniser of simple markup',
     'Reference recogniser is written from the documented rule and confirmed on the tree.')

prop('C24', 'The command line decides what is written, and each option does what it says',
     'quickbook writes exactly the files the command line asks for, at the places given or at the documented default place (beside the input, with the extension replaced by .xml or .html, or the directory html), and creates or changes nothing else: only the result when the document is correct, no result with --no-output or when only dependency lists are asked for, nothing at all for --help, --version or a command line in error, which is refused with a message and status 1. It says what it is generating. Each option does what it documents and nothing else, in any order, spelling and combination, and from any directory: macros are defined with their values (the first definition of a name counts), include paths are searched in order after the directory of the file, headers link to themselves in BoostBook unless told not to, strict mode turns unclosed sections and unknown brackets into errors, the message format is the one asked for, image sizes are read from the image location (by default the directory html beside the input), and __DATE__, __TIME__ and the last revision give the current time or the fixed one of debug mode.',
     ['configurations', 'inputs'],
     'for every combination, order and spelling of options, every input and output path and working directory, and every document',
     'The tests use about six options, each alone or in one fixed command line, and never look at what else is written.',
     ['src/quickbook.cpp', 'src/actions.cpp', 'src/state.cpp', 'src/doc_info_actions.cpp', 'src/native_text.cpp', 'src/path.cpp', 'src/bb2html.cpp'],
     [('options and defaults', 'src/quickbook.cpp main'), ('writing the result', 'src/quickbook.cpp parse_document, src/bb2html.cpp'),
      ('macros of the command line', 'src/quickbook.cpp set_macros'), ('time macros', 'src/actions.cpp do_macro_action, src/doc_info_actions.cpp')],
     'runtime monitor: random command lines over scratch trees, every file and directory compared before and after with a model of the command line, and marks in the document that show what each option did',
     'The model is written from the documentation of the options; every run compares the whole tree (contents, inode and time of each file), standard output, messages, status and the marks in the result.')
