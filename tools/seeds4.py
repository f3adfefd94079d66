SEEDS = [
 {'id': 'c20-nested-xmlbase', 'prop': 'C20', 'needs': 'an included document with an xmlbase of its own that holds an xinclude', 'breaks': 'the xinclude is written relative to the base of the including document, though the section has its own xml:base', 'edits': [('doc_info_actions.cpp', '                    state.xinclude_base = path.file_path;', '                    if (!nested_file) state.xinclude_base = path.file_path;')], 'demo': '\nmkdir -p sub/deep\nprintf \'[article T\\n[quickbook 1.7]\\n[id dd]\\n]\\n\\n[include sub/b.qbk]\\n\' > a.qbk\nprintf \'[article B\\n[quickbook 1.7]\\n[id b]\\n[xmlbase deep]\\n]\\n\\n[xinclude x.xml]\\n\' > sub/b.qbk\nqb a.qbk --output-file=a.xml || fail "rejected: $(cat log)"\ntr \'\\n\' \' \' < a.xml | grep -q \'include href="../x.xml"\' || fail "$(cat a.xml)"\n'},
 {'id': 'c20-xmlbase-after-include', 'prop': 'C20', 'needs': 'an xinclude after an included document that has an xmlbase', 'breaks': 'the base of the included document stays in force after it', 'edits': [('state.cpp', '        boost::core::invoke_swap(state.xinclude_base, xinclude_base);\n', '')], 'demo': '\nmkdir -p sub/deep\nprintf \'[article T\\n[quickbook 1.7]\\n[id dd]\\n]\\n\\n[include sub/b.qbk]\\n\\n[xinclude y.xml]\\n\' > a.qbk\nprintf \'[article B\\n[quickbook 1.7]\\n[id b]\\n[xmlbase deep]\\n]\\n\\n[xinclude x.xml]\\n\' > sub/b.qbk\nqb a.qbk --output-file=a.xml || fail "rejected: $(cat log)"\ntr \'\\n\' \' \' < a.xml | grep -q \'include href="y.xml"\' || fail "$(cat a.xml)"\n'},
 {'id': 'c09-name-prefix', 'prop': 'C09', 'needs': 'a bracket that starts with the name of a template followed by an underscore', 'breaks': 'the template is called for names that only start like it', 'edits': [('main_grammar.cpp', '                    |   state.templates.scope\n                            [state.values.entry(ph::arg1, ph::arg2, template_tags::identifier)]\n                    >>  cl::eps_p(hard_space)', '                    |   state.templates.scope\n                            [state.values.entry(ph::arg1, ph::arg2, template_tags::identifier)]\n                    >>  (cl::eps_p - cl::alnum_p)')], 'demo': '\nprintf \'[article T\\n[quickbook 1.7]\\n[id dd]\\n]\\n\\n[template foo[x] ((([x])))]\\n\\nA [foo_bar baz] b [foo c].\\n\' > a.qbk\nqb a.qbk --output-file=a.xml || fail "rejected: $(cat log)"\ntr \'\\n\' \' \' < a.xml | grep -q \'A *\\[foo_bar baz\\] b ((( *c))).\' || fail "$(cat a.xml)"\n'},
 {'id': 'c23-raw-in-markup', 'prop': 'C23', 'needs': 'raw text between two marks of simple markup', 'breaks': 'simple markup reaches over raw text, which is then shown with its quotes', 'edits': [('main_grammar.cpp', '            |   "\'\'\'"\n            |   \'`\'\n            |   phrase_end', "            |   '`'\n            |   phrase_end")], 'demo': '\nprintf "[article T\\n[quickbook 1.7]\\n[id dd]\\n]\\n\\nA *b \'\'\'<beginpage/>\'\'\' c* d.\\n" > a.qbk\nqb a.qbk --output-file=a.xml || fail "rejected: $(cat log)"\ngrep -q \'<beginpage/>\' a.xml || fail "$(cat a.xml)"\ngrep -q \'emphasis\' a.xml && fail "$(cat a.xml)" || true\n'},
 {'id': 'c24-image-location', 'prop': 'C24', 'needs': 'an SVG image in html beside the input, and an output file in another directory', 'breaks': 'the default image location is taken from the output instead of the input', 'edits': [('quickbook.cpp', 'quickbook::image_location = filein.parent_path() / "html";', 'quickbook::image_location =\n                    (options.output_path.empty() ? filein : options.output_path)\n                        .parent_path() /\n                    "html";')], 'demo': '\nmkdir -p d/html o\nprintf \'<?xml version="1.0"?>\\n<svg xmlns="http://www.w3.org/2000/svg" width="123" height="45"></svg>\\n\' > d/html/p.svg\nprintf \'[article T\\n[quickbook 1.7]\\n[id dd]\\n]\\n\\n[$p.svg]\\n\' > d/a.qbk\nqb d/a.qbk --output-file=o/a.xml || fail "rejected: $(cat log)"\ngrep -q \'contentwidth="123"\' o/a.xml || fail "$(cat o/a.xml)"\n'},
 {'id': 'c24-revision-local', 'prop': 'C24', 'needs': 'a time zone that is not UTC and a document without a last revision', 'breaks': 'the last revision is the local time instead of UTC', 'edits': [('doc_info_actions.cpp', '                current_gm_time);', '                current_time);')], 'demo': '\nprintf \'[article T\\n[quickbook 1.7]\\n[id dd]\\n]\\n\\ntext\\n\' > a.qbk\nexport TZ=AAA+11\nqb a.qbk --output-file=a.xml || fail "rejected: $(cat log)"\nh=$(grep -o \'last-revision="$Date: [0-9/]* [0-9]*\' a.xml | sed \'s/.*Date: //\')\nnow=$(date -u \'+%Y/%m/%d %H\'); before=$(date -u -d \'-1 minute\' \'+%Y/%m/%d %H\')\n[ "$h" = "$now" ] || [ "$h" = "$before" ] || fail "last revision $h, now $now"\n'},
 {'id': 'c24-html-name', 'prop': 'C24', 'needs': 'an input file with several dots in its name and HTML output in one file without an output file given', 'breaks': 'the default name loses more than the extension', 'edits': [('quickbook.cpp', 'path.replace_extension(".html");', 'path = path.parent_path() /\n                                   (path.stem().stem().native() + ".html");')], 'demo': '\nprintf \'[article T\\n[quickbook 1.7]\\n[id dd]\\n]\\n\\ntext\\n\' > a.b.qbk\nqb a.b.qbk --output-format=onehtml || fail "rejected: $(cat log)"\n[ -f a.b.html ] && [ ! -e a.html ] || fail "wrote $(ls)"\n'},
 {'id': 'c24-format-and-deps', 'prop': 'C24', 'needs': 'an output format given together with a list of dependencies, and no output file', 'breaks': 'asking for dependencies suppresses the output although its format is given', 'edits': [('quickbook.cpp', '        if (vm.count("output-format")) {\n            output_specified = true;', '        if (vm.count("output-format")) {\n            output_specified = vm.count("output-deps") == 0;')], 'demo': '\nprintf \'[article T\\n[quickbook 1.7]\\n[id dd]\\n]\\n\\ntext\\n\' > a.qbk\nqb a.qbk --output-format=boostbook --output-deps=d.txt || fail "rejected: $(cat log)"\n[ -f a.xml ] || fail "no output"\n'},
 {'id': 'c24-alternate-macro', 'prop': 'C24', 'needs': 'the same macro defined twice on the command line', 'breaks': 'the last definition counts instead of the first', 'edits': [('quickbook.cpp', '        QUICKBOOK_FOR (quickbook::string_view val, preset_defines) {', '        std::vector<std::string> defines(\n            preset_defines.rbegin(), preset_defines.rend());\n        QUICKBOOK_FOR (quickbook::string_view val, defines) {')], 'demo': '\nprintf \'[article T\\n[quickbook 1.7]\\n[id dd]\\n]\\n\\nIs __x__.\\n\' > a.qbk\nqb a.qbk -D__x__=one -D__x__=two --output-file=a.xml || fail "rejected: $(cat log)"\ntr \'\\n\' \' \' < a.xml | grep -q \'Is *one\' || fail "$(cat a.xml)"\n'}
]
