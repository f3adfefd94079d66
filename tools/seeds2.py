H7 = "[article T\n[quickbook 1.7]\n[id dd]\n]\n\n"
SEEDS = [
 dict(id='c11-glob-include-order', prop='C11',
  needs='a glob that matches files of the same path below two directories of the include path, named so that the first sorts after the second',
  breaks='matches of the same path are included in the order of the directory names, not of the include path',
  edits=[('include_paths.cpp', "include_path_offset < other.include_path_offset", "file_path < other.file_path")],
  demo=r'''
mkdir z y
printf 'from z\n' > z/p1.qbk; printf 'from y\n' > y/p1.qbk
printf '[article T\n[quickbook 1.7]\n[id dd]\n]\n\n[include p*.qbk]\n' > a.qbk
qb a.qbk -I z -I y --output-file=a.xml || fail "rejected: $(cat log)"
tr '\n' ' ' < a.xml | grep -q 'from z.*from y' || fail "$(cat a.xml)"
qb a.qbk -I y -I z --output-file=b.xml || fail "rejected: $(cat log)"
tr '\n' ' ' < b.xml | grep -q 'from y.*from z' || fail "$(cat b.xml)"
'''),
 dict(id='c11-glob-symlink', prop='C11',
  needs='a glob that matches a symbolic link to a file',
  breaks='files reached by symbolic links are not found by globs',
  edits=[('include_paths.cpp', "if (fs::is_regular_file(dir_i->status())) {\n                    quickbook_path r", "if (fs::is_regular_file(dir_i->symlink_status())) {\n                    quickbook_path r")],
  demo=r'''
mkdir other
printf 'linked text\n' > other/x.txt; ln -s other/x.txt p1.qbk; printf 'plain text\n' > p2.qbk
printf '[article T\n[quickbook 1.7]\n[id dd]\n]\n\n[include p*.qbk]\n' > a.qbk
qb a.qbk --output-file=a.xml || fail "rejected: $(cat log)"
tr '\n' ' ' < a.xml | grep -q 'linked text.*plain text' || fail "$(cat a.xml)"
'''),
 dict(id='c12-glob-again', prop='C12',
  needs='two globs, the first of which is searched for again after the second, in the list of checked locations',
  breaks='what the first glob matches is also listed as matched by the second',
  edits=[('dependency_tracker.cpp', "last_glob = r.first;", "if (r.second) last_glob = r.first;")],
  demo=r'''
printf 'one\n' > p1.qbk; printf 'two\n' > q1.qbk
printf '[article T\n[quickbook 1.7]\n[id dd]\n]\n\n[include p*.qbk]\n\n[include q*.qbk]\n\n[include p*.qbk]\n' > a.qbk
qb a.qbk --output-file=a.xml --output-deps=deps --output-deps-format=checked || fail "rejected: $(cat log)"
[ "$(tr '\n' ' ' < deps)" = "+ a.qbk g p*.qbk + p1.qbk g q*.qbk + q1.qbk " ] || fail "$(cat deps)"
'''),
 dict(id='c12-absolute', prop='C12',
  needs='a file included or imported by its absolute path',
  breaks='files found by absolute paths are missing from the dependencies',
  edits=[('include_paths.cpp', "if (state.dependencies.add_dependency(path)) {\n                    result.insert(quickbook_path(path, 0, path));", "if (fs::exists(path)) {\n                    result.insert(quickbook_path(path, 0, path));")],
  demo=r'''
printf 'one\n' > p1.qbk
printf '[article T\n[quickbook 1.6]\n[id dd]\n]\n\n[include %s/p1.qbk]\n' "$PWD" > a.qbk
qb a.qbk --output-file=a.xml --output-deps=deps || fail "rejected: $(cat log)"
grep -qx "$PWD/p1.qbk" deps || fail "$(cat deps)"
'''),
 dict(id='c06-explicit-normalised', prop='C06',
  needs='an explicit id of a heading, table or list that has two underscores in a row, starts or ends with one, or is longer than 32 characters',
  breaks='explicit ids are shortened like generated ones, so references to them find nothing',
  edits=[('document_state.cpp', "category.c < id_category::explicit_id) {", "category.c <= id_category::explicit_id) {")],
  demo=r'''
printf '[article T\n[quickbook 1.7]\n[id dd]\n]\n\n[section:one A]\n\n[heading:an_id__of_many_words_that_an_author_chose_for_it B]\n\nx [link dd.one.an_id__of_many_words_that_an_author_chose_for_it y]\n\n[endsect]\n' > a.qbk
qb a.qbk --output-file=a.xml || fail "rejected: $(cat log)"
grep -q ' id="dd.one.an_id__of_many_words_that_an_author_chose_for_it"' a.xml || fail "$(cat a.xml)"
'''),
 dict(id='c06-dots', prop='C06',
  needs='an anchor whose id has dots and is the same as the full id of a section',
  breaks='ids are compared among those of the wrong level, so two elements have the same id',
  edits=[('document_state.cpp', "              boost::range::count(id, '.') +\n              (parent_ ? parent_->num_dots + 1 : 0))", "              parent_ ? parent_->num_dots + 1 : boost::range::count(id, '.') != 0)")],
  demo=r'''
printf '[article T\n[quickbook 1.7]\n[id dd]\n]\n\n[section:one A]\n\n[section:two A]\n\n[#dd.one.two] text\n\n[endsect]\n\n[endsect]\n' > a.qbk
qb a.qbk --output-file=a.xml || fail "rejected: $(cat log)"
[ -z "$(grep -o ' id="[^"]*"' a.xml | sort | uniq -d)" ] || fail "$(grep -o ' id="[^"]*"' a.xml)"
'''),
 dict(id='c20-percent', prop='C20',
  needs='a link or path with a percent sign and one hexadecimal digit at its very end',
  breaks='a percent sign that is not the start of an escape is kept, reading past the text',
  edits=[('utils.cpp', "!(n + 2 < uri_param.size() &&", "!(n + 1 < uri_param.size() &&")],
  demo=r'''
printf '[article T\n[quickbook 1.7]\n[id dd]\n]\n\n[@http://example.com/100%%a text]\n' > a.qbk
qb a.qbk --output-file=a.xml || fail "rejected: $(cat log)"
grep -q 'url="http://example.com/100%25a"' a.xml || fail "$(cat a.xml)"
'''),
 dict(id='c17-toc-relative', prop='C17',
  needs='HTML in several pages, three levels of which are below each other',
  breaks='the table of contents of an outer page has links to inner ones that are relative to the page between them',
  edits=[('bb2html.cpp', "gen, link->second.path(), page->path_));", "gen, link->second.path(), x->path_));")],
  demo=r'''
printf '[book T\n[quickbook 1.7]\n[id dd]\n]\n\n[include p.qbk]\n' > a.qbk
printf '[part P\n[quickbook 1.7]\n[id pp]\n]\n\n[include c.qbk]\n' > p.qbk
printf '[chapter C\n[quickbook 1.7]\n[id cc]\n]\n\ntext\n' > c.qbk
qb a.qbk --output-format=html --output-dir=h || fail "rejected: $(cat log)"
cd h
find . -name '*.html' | while read f; do
  grep -o '<a href="[^"#]*' "$f" | sed 's/<a href="//' | while read l; do [ -z "$l" ] || [ -e "$(dirname "$f")/$l" ] || echo "$f: $l"; done
done > ../bad
[ -s ../bad ] && fail "links to nowhere: $(cat ../bad) $(find .)"
true
'''),
 dict(id='c18-python-hidden', prop='C18',
  needs='hidden lines of a Python file, whose closing mark is followed by blanks',
  breaks='what is between #<- and #-> is shown, with the marks, when there are blanks after the latter',
  edits=[('code_snippet.cpp', '"#->" >> *cl::blank_p >> (cl::eol_p | cl::end_p)', '"#->" >> (cl::eol_p | cl::end_p)')],
  demo=r'''
printf '#[one\nshown = 1\n#<-\nhidden = 2\n#->  \nalso = 3\n#]\n' > s.py
printf '[article T\n[quickbook 1.7]\n[id dd]\n]\n\n[import s.py]\n\n[one]\n' > a.qbk
qb a.qbk --output-file=a.xml || fail "rejected: $(cat log)"
grep -q hidden a.xml && fail "$(cat a.xml)"
grep -q also a.xml || fail "$(cat a.xml)"
'''),
 dict(id='c19-license-markup', prop='C19',
  needs='a document of version 1.3, 1.4 or 1.5 with markup in its license',
  breaks='markup in the license is written as it stands',
  edits=[('doc_info_actions.cpp', "doc_info_output(info.license, 103)", "doc_info_output(info.license, 106)")],
  demo=r'''
printf '[article T\n[quickbook 1.4]\n[id dd]\n[license Some *bold* words]\n]\n\ntext\n' > a.qbk
qb a.qbk --output-file=a.xml || fail "rejected: $(cat log)"
tr '\n' ' ' < a.xml | grep -q '<emphasis role="bold">bold</emphasis>' || fail "$(cat a.xml)"
'''),
 dict(id='c05-keyword-end', prop='C05',
  needs='a C++ identifier that is a keyword followed by an underscore',
  breaks='names that start with a keyword are coloured as keywords up to the underscore',
  edits=[('syntax_highlight.cpp', "=   keywords.cpp >> (cl::eps_p - (cl::alnum_p | '_'))", "=   keywords.cpp >> (cl::eps_p - cl::alnum_p)")],
  demo=r'''
printf '[article T\n[quickbook 1.7]\n[id dd]\n]\n\n  int int_x = new_one;\n' > a.qbk
qb a.qbk --output-file=a.xml || fail "rejected: $(cat log)"
grep -q '<phrase role="identifier">int_x</phrase>' a.xml || fail "$(cat a.xml)"
'''),
 dict(id='c10-hidden-anchor', prop='C10',
  needs='an anchor within a conditional phrase that is not shown',
  breaks='anchors of hidden text are written at the next text that is shown',
  edits=[('actions.cpp', "                state.push_output();\n                state.anchors.swap(anchors);", "                state.push_output();"),
         ('actions.cpp', "            state.pop_output();\n            state.anchors.swap(anchors);", "            state.pop_output();")],
  demo=r'''
printf '[article T\n[quickbook 1.7]\n[id dd]\n]\n\nA [? __undefined__ x [#hid]] B [#seen] C\n' > a.qbk
qb a.qbk --output-file=a.xml || fail "rejected: $(cat log)"
grep -q 'hid' a.xml && fail "$(cat a.xml)"
grep -q 'seen' a.xml || fail "$(cat a.xml)"
'''),
 dict(id='c20-svg-dots', prop='C20',
  needs='an image in SVG format whose name has another dot in it',
  breaks='the format and size of the image are left out',
  edits=[('actions.cpp', "pos = stem.rfind('.');\n        if (pos != std::string::npos) {\n            extension", "pos = stem.find('.');\n        if (pos != std::string::npos) {\n            extension")],
  demo=r'''
printf '<svg width="120" height="80"></svg>\n' > fig.v2.svg
printf '[article T\n[quickbook 1.7]\n[id dd]\n]\n\n[$fig.v2.svg]\n' > a.qbk
qb a.qbk --output-file=a.xml --image-location=. || fail "rejected: $(cat log)"
grep -q 'format="SVG"' a.xml && grep -q 'contentwidth="120"' a.xml || fail "$(cat a.xml)"
'''),
 dict(id='c15-explicit-list', prop='C15',
  needs='a document whose first list is written without [ordered_list] or [itemized_list], in a build or run where the memory used was not zero',
  breaks='whether the list is written by its marks depends on what was in memory',
  opt='-O0 -ftrivial-auto-var-init=pattern',
  edits=[('state.cpp', "        , callout_depth(0)\n", "")],
  demo=r'''
printf '[article T\n[quickbook 1.7]\n[id dd]\n]\n\n  int x; /*< about x >*/\n\ntext\n' > a.qbk
qb a.qbk --output-file=a.xml || fail "rejected: $(cat log)"
grep -q '<calloutlist>' a.xml || fail "$(cat a.xml)"
'''),
 dict(id='c02-depth-limit', prop='C02',
  needs='templates that call each other endlessly where each has an argument whose value calls the next',
  breaks='endless expansion through arguments is not diagnosed',
  edits=[('state.cpp', "        boost::core::invoke_swap(state.template_depth, template_depth);", "        if (scope & state_save::scope_output) boost::core::invoke_swap(state.template_depth, template_depth);")],
  demo=r'''
{ printf '[article T\n[quickbook 1.7]\n[id dd]\n]\n\n[template t[]word]\n\n'; for i in $(seq 1 150); do echo '[t]'; done; } > a.qbk
qb a.qbk --output-file=a.xml || fail "finite document rejected: $(tail -3 log)"
true
'''),
]
