SEEDS = [
 dict(id='c06-clash-below', prop='C06',
  needs='two explicit or generated ids that clash below another id that itself has a parent (two dots or more), with long titles',
  breaks='the less explicit of two clashing ids loses the ids of its outer parents, or is renamed beyond its last part',
  edits=[('id_generation.cpp', "std::size_t child_start = resolved_id.rfind('.');", "std::size_t child_start = resolved_id.find('.');")],
  demo=r'''
cat > a.qbk <<'E'
[article T
[quickbook 1.7]
[id dd]
]

[section:one A]

[section:two B]

[heading Same and some more words]

x

[heading Same and some more words]

y

[endsect]

[endsect]
E
qb a.qbk --output-file=a.xml || fail "rejected: $(cat log)"
[ "$(grep -o 'id="dd[^"]*same[^"]*"' a.xml | tr '\n' ' ')" = 'id="dd.one.two.same_and_some_more_words" id="dd.one.two.same_and_some_more_words0" ' ] || fail "$(grep -o 'id="[^"]*"' a.xml)"
'''),
 dict(id='c09-old-in-new', prop='C09',
  needs='a template defined in a 1.4 file that is called from the body of a template of a 1.5 file while the latter has a parameter of a name the former uses',
  breaks='dynamic scoping of 1.4 templates: parameters of a statically scoped caller become visible',
  edits=[('template_stack.cpp', "            parent_1_4 = scopes.front().parent_1_4;\n            scopes.front().parent_scope = symbol", "            scopes.front().parent_scope = symbol")],
  demo=r'''
printf '[article O\n[quickbook 1.4]\n]\n\n[template t4[][inner]]\n' > old.qbk
printf '[article T\n[quickbook 1.6]\n[id dd]\n]\n\n[template inner[]outer]\n[import old.qbk]\n[template t5[inner][t4]]\n\nA [t5 fromparam] B\n' > a.qbk
qb a.qbk --output-file=a.xml || fail "rejected: $(cat log)"
tr '\n' ' ' < a.xml | grep -q 'A *outer *B' || fail "$(cat a.xml)"
'''),
 dict(id='c09-two-args', prop='C09',
  needs='a 1.5 or later template of three or more parameters called with two arguments separated by dots, the last of several words',
  breaks='arguments separated by .. are also divided at white space, so a wrong number of them is no error',
  edits=[('actions.cpp', "args.size() : args.size() == 1) {", "args.size() : args.size() && args.size() <= 2) {")],
  demo=r'''
printf '[article T\n[quickbook 1.7]\n[id dd]\n]\n\n[template t[a b c]<[a]><[b]><[c]>]\n\n[t one..two three]\n' > a.qbk
qb a.qbk --output-file=a.xml && fail "three parameters, two arguments accepted: $(cat a.xml)"
printf '[article T\n[quickbook 1.7]\n[id dd]\n]\n\n[template t[a b c]<[a]><[b]><[c]>]\n\n[t one..two..three]\n[t one two three]\n' > b.qbk
qb b.qbk --output-file=b.xml || fail "good call rejected"
'''),
 dict(id='c13-duplicate-parameter', prop='C13',
  needs='a call of a template that has two parameters of one name',
  breaks='the error for a duplicate symbol is printed, but the status is 0 and the output is written without the call',
  edits=[('actions.cpp', '<< "Duplicate Symbol Found" << std::endl;\n                    ++state.error_count;', '<< "Duplicate Symbol Found" << std::endl;')],
  demo=r'''
printf '[article T\n[quickbook 1.7]\n[id dd]\n]\n\n[template t[a a]<[a]>]\n\n[t one..two]\n' > a.qbk
qb a.qbk --output-file=a.xml && fail "error reported, but status 0: $(cat log)"
[ -e a.xml ] && fail "output written"
true
'''),
 dict(id='c10-template-macro', prop='C10',
  needs='a macro defined within a template body and used after the call',
  breaks='macros defined in a template stay defined after the call',
  edits=[('state.cpp', "if (scope & scope_macros) state.macro = macro;", "if (scope == scope_macros || scope == scope_all) state.macro = macro;")],
  demo=r'''
printf '[article T\n[quickbook 1.7]\n[id dd]\n]\n\n[template t[]\n[def __m__ inside]\n__m__\n]\n\n[t]\n\nA __m__ B\n' > a.qbk
qb a.qbk --output-file=a.xml || fail "rejected: $(cat log)"
tr '\n' ' ' < a.xml | grep -q 'A *__m__ *B' || fail "$(cat a.xml)"
'''),
 dict(id='c05-escaped-backslash', prop='C05',
  needs='a string literal that ends in an escaped backslash',
  breaks='only escaped quotes are taken as escapes: a string that ends in an escaped backslash runs on',
  edits=[('syntax_highlight.cpp', "string_char = ('\\\\' >> u8_codepoint_p) | (cl::anychar_p - '\\\\');\n\n                string_\n                    =   !cl::as_lower_d['l']",
          "string_char = cl::str_p(\"\\\\\\\"\") | \"\\\\'\" | cl::anychar_p;\n\n                string_\n                    =   !cl::as_lower_d['l']")],
  demo=r'''
cat > a.qbk <<'E'
[article T
[quickbook 1.7]
[id dd]
]

  f("a\\", "b"); g
E
qb a.qbk --output-file=a.xml || fail "rejected: $(cat log)"
grep -q 'string">&quot;a\\\\&quot;</phrase><phrase role="special">,' a.xml || fail "$(cat a.xml)"
'''),
]
