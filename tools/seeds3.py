SEEDS = [
 dict(id='c08-tab-indent', prop='C08',
  needs='a list item indented by blanks followed by a tab, next to ones indented by blanks',
  breaks='a tab after blanks counts for four columns instead of going to the next multiple of four',
  edits=[('main_grammar.cpp', "length = length + 4 - (length % 4);", "length = length + 4;")],
  demo=r'''
printf '[article T\n[quickbook 1.7]\n[id dd]\n]\n\n* a\n  \t* b\n    * c\n* d\n' > a.qbk
qb a.qbk --output-file=a.xml || fail "rejected: $(cat log)"
[ "$(grep -c '<itemizedlist>' a.xml)" = 2 ] || fail "$(cat a.xml)"
tr '\n' ' ' < a.xml | grep -q 'b *</simpara> *</listitem> *<listitem> *<simpara> *c' || fail "$(cat a.xml)"
'''),
 dict(id='c08-stale-indent', prop='C08',
  needs='a paragraph that goes back to an outer list item, followed by a list nested in that',
  breaks='the new list is taken for more items of the outer list',
  edits=[('main_grammar.cpp', "                    list_stack.pop();\n                    list_indent = list_stack.top().indent;", "                    list_stack.pop();")],
  demo=r'''
printf '[article T\n[quickbook 1.7]\n[id dd]\n]\n\n* a\n   * b\n\n  para of a\n\n   * c\n' > a.qbk
qb a.qbk --output-file=a.xml || fail "rejected: $(cat log)"
[ "$(grep -c '<itemizedlist>' a.xml)" = 3 ] || fail "$(cat a.xml)"
'''),
 dict(id='c23-double-mark', prop='C23',
  needs='two marks of simple markup before a word, one after it',
  breaks='a mark that follows another of the same kind starts an element',
  edits=[('main_grammar.cpp', "                >>  ~cl::eps_p(cl::ch_p(boost::ref(local.mark)))\n                                                // first mark not be preceeded by", "                                                // first mark not be preceeded by")],
  demo=r'''
printf '[article T\n[quickbook 1.7]\n[id dd]\n]\n\nA **b* c __d_ e\n' > a.qbk
qb a.qbk --output-file=a.xml || fail "rejected: $(cat log)"
tr '\n' ' ' < a.xml | grep -q 'A \*\*b\* c __d_ e' || fail "$(cat a.xml)"
'''),
 dict(id='c22-sort-order', prop='C22',
  needs='a list of values with the same tags in several places that is sorted, such as attributes of a document given several times',
  breaks='sorting changes the order of values of the same tag',
  edits=[('values.cpp', "if ((*third)->tag_ <= (*first)->tag_) break;", "if ((*third)->tag_ < (*first)->tag_) break;")],
  demo=r'''
order() {
python3 - "$@" <<'E'
import sys, itertools, subprocess
qb = sys.argv[1]
import random
r = random.Random(5)
for k in range(60):
    items = []; want = {'c': [], 'a': [], 'b': []}
    for i in range(8):
        t = r.choice('caabb')
        n = 'n%d' % i
        want[t].append(n)
        items.append({'c': '[copyright 2001 %s]', 'a': '[authors [%s, x]]', 'b': '[biblioid isbn %s]'}[t] % n)
    open('a.qbk', 'w').write('[article T\n[quickbook 1.7]\n[id dd]\n' + '\n'.join(items) + '\n]\n\ntext\n')
    subprocess.check_call([qb, 'a.qbk', '--output-file=a.xml'], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    import re
    x = open('a.xml').read()
    got = {'c': re.findall(r'<holder>\s*(n\d)', x), 'a': re.findall(r'<surname>\s*(n\d)', x), 'b': re.findall(r'isbn[^>]*>\s*(n\d)', x)}
    if got != want:
        print('order', want, got); sys.exit(1)
E
}
order "$QB" || fail "attributes change their order"
'''),
 dict(id='c13-callout-error', prop='C13',
  needs='a mistake in the text of a callout that makes it unparseable',
  breaks='the mistake is reported, but the document is written and the status is 0',
  edits=[('actions.cpp', "                        << \"------------------end--------------------\"\n                        << std::endl;\n                    ++error_count;", "                        << \"------------------end--------------------\"\n                        << std::endl;")],
  demo=r'''
printf '[article T\n[quickbook 1.7]\n[id dd]\n]\n\n  int x; /*< [table [[a] > */\n\ntext\n' > a.qbk
qb a.qbk --output-file=a.xml && grep -q 'error' log && fail "errors, but status 0: $(cat log)"
grep -q error log || { printf '%s\n' "not an error"; cat log; exit 2; }
true
'''),
 dict(id='c13-attribute-of-year', prop='C13',
  needs='a copyright attribute whose range of years goes backwards',
  breaks='the error is printed, but the document is written without the years and the status is 0',
  edits=[('doc_info_actions.cpp', "                        ++state.error_count;\n\n                        // Years don't", "                        // Years don't")],
  demo=r'''
printf '[article T\n[quickbook 1.7]\n[id dd]\n[copyright 2010-2001 Me]\n]\n\ntext\n' > a.qbk
qb a.qbk --output-file=a.xml && fail "error, but status 0: $(cat log)"
true
'''),
 dict(id='c14-nested-snippet', prop='C14',
  needs='a mistake in the text of a snippet that is within another snippet, after some other text of it',
  breaks='the mistake is reported at another line of the source file',
  edits=[('files.cpp', "i->original_pos, i->our_pos - begin + size,", "i->original_pos, i->our_pos + size,")],
  demo=r'''
printf '//[outer\n/*`\none\n*/\nint a;\n//[inner\nint b;\n/*`\ntwo\n\n[include nothing-there.qbk]\n*/\nint c;\n//]\n//]\n' > s.cpp
printf '[article T\n[quickbook 1.7]\n[id dd]\n]\n\n[import s.cpp]\n\n[inner]\n' > a.qbk
qb a.qbk --output-file=a.xml && fail "accepted"
grep -q 's.cpp:11: error: Unable to find file' log || fail "$(cat log)"
'''),
 dict(id='c16-image-block', prop='C16',
  needs='an image within a word or directly before or after punctuation',
  breaks='pretty printing puts white space around images in text',
  edits=[('post_process.cpp', '"important",   "informaltable", "itemizedlist", "legalnotice",', '"important",   "informaltable", "inlinemediaobject", "itemizedlist", "legalnotice",')],
  demo=r'''
printf '[article T\n[quickbook 1.7]\n[id dd]\n]\n\nA word([$x.png])more\n' > a.qbk
qb a.qbk --output-file=a.xml || fail "rejected: $(cat log)"
tr '\n' ' ' < a.xml | grep -q 'word(<inlinemediaobject>.*</inlinemediaobject>)more' || fail "$(cat a.xml)"
'''),
 dict(id='c21-version-after-call', prop='C21',
  needs='a template of a file of another version, and text after its call that means something else in that version',
  breaks='what follows the call of a template from a file of another version is read under that version',
  edits=[('state.cpp', "        boost::core::invoke_swap(qbk_version_n, qbk_version);", "        if (scope & (scope_output | scope_macros) && template_depth == 0) boost::core::invoke_swap(qbk_version_n, qbk_version);")],
  demo=r'''
printf '[article O\n[quickbook 1.4]\n]\n\n[template told[]word]\n[template tin[x][x]]\n' > old.qbk
printf '[article T\n[quickbook 1.7]\n[id dd]\n]\n\n[import old.qbk]\n\n[template outer[]\n[told] and [* bold \\n] [link dd.x] \\u00e9\n]\n\n[outer]\n' > a.qbk
qb a.qbk --output-file=a.xml || fail "rejected: $(cat log)"
tr '\n' ' ' < a.xml | grep -q '&#xe9;' || fail "$(cat a.xml)"
'''),
 dict(id='c01-xml-error', prop='C01',
  needs='HTML output of a document whose raw BoostBook is not well-formed near the very end',
  breaks='the message about it is printed from beyond the end of the document',
  opt='-O0 -g0 -fsanitize=address',
  edits=[('bb2html.cpp', "if (line_end - e.pos > 80) {", "if (line_end - e.pos < 80) {")],
  demo=r"""
export ASAN_OPTIONS=detect_leaks=0
printf "[article T\n[quickbook 1.7]\n[id dd]\n]\n\ntext '''<a b='''\n" > a.qbk
qb a.qbk --output-format=onehtml --output-file=a.html --no-pretty-print
grep -q AddressSanitizer log && fail "$(grep -m1 AddressSanitizer log)"
printf "[article T\n[quickbook 1.7]\n[id dd]\n]\n\ntext '''</para></article>'''\n" > b.qbk
qb b.qbk --output-format=onehtml --output-file=b.html --no-pretty-print
grep -q AddressSanitizer log && fail "$(grep -m1 AddressSanitizer log)"
true
"""),
 dict(id='c02-include-depth', prop='C02',
  needs='a document that includes more than fifty files one after another',
  breaks='the depth of included files is not restored, so a document that includes many files one after another is taken for an endless one',
  edits=[('state.cpp', "        boost::core::invoke_swap(state.include_depth, include_depth);", "        if (scope & scope_output) boost::core::invoke_swap(state.include_depth, include_depth);")],
  demo=r'''
{ printf '[article T\n[quickbook 1.7]\n[id dd]\n]\n\n'; for i in $(seq 1 70); do echo "part $i" > p$i.qbk; printf '[include p%s.qbk]\n\n' $i; done; } > a.qbk
qb a.qbk --output-file=a.xml || fail "finite document rejected: $(tail -3 log)"
true
'''),
 dict(id='c07-outer-id', prop='C07',
  needs='an [endsect:id] that names the section around the one it closes, which has no id of its own',
  breaks='it is accepted',
  edits=[('document_state.cpp', "        return state->current_file->document->current_section->explicit_id;", "        section_info const* s =\n            state->current_file->document->current_section.get();\n        while (s->parent && s->explicit_id.empty())\n            s = s->parent.get();\n        return s->explicit_id;")],
  demo=r'''
printf '[article T\n[quickbook 1.7]\n[id dd]\n]\n\n[section:outer A]\n\n[section B]\n\ntext\n\n[endsect:outer]\n\n[endsect]\n' > a.qbk
qb a.qbk --output-file=a.xml && fail "accepted"
printf '[article T\n[quickbook 1.7]\n[id dd]\n]\n\n[section:outer A]\n\n[section B]\n\ntext\n\n[endsect]\n\n[endsect:outer]\n' > b.qbk
qb b.qbk --output-file=b.xml || fail "rejected: $(cat log)"
'''),
 dict(id='c20-hangul', prop='C20',
  needs='a link whose address has a character from U+8000 up written as \\uXXXX',
  breaks='the character is percent escaped as bytes that are no UTF-8',
  edits=[('utils.cpp', "else if (c < 0x10000) {", "else if (c < 0x8000) {")],
  demo=r'''
printf '[article T\n[quickbook 1.7]\n[id dd]\n]\n\n[@http://example.com/\\uAC00 text]\n' > a.qbk
qb a.qbk --output-file=a.xml || fail "rejected: $(cat log)"
grep -q 'url="http://example.com/%EA%B0%80"' a.xml || fail "$(cat a.xml)"
'''),
 dict(id='c04-unicode-seven', prop='C04',
  needs='a one-byte character written as an escape whose code has the digit 7 first, such as \\u007e',
  breaks='it is written as the letter of the low digits',
  edits=[('actions.cpp', "if (hex_digits.size() == 2 && *first > '0' && *first <= '7') {", "if (hex_digits.size() <= 2 && *first > '0' && *first <= '7') {")],
  demo=r'''
printf '[article T\n[quickbook 1.7]\n[id dd]\n]\n\nA\\u0009B \\u007eC\n' > a.qbk
printf '[article T\n[quickbook 1.7]\n[id dd]\n]\n\nA \\u0007e \n' > /dev/null
qb a.qbk --output-file=a.xml || fail "rejected: $(cat log)"
grep -q '~C' a.xml || fail "$(cat a.xml)"
'''),
 dict(id='c03-alt-text', prop='C03',
  needs='an image whose alternative text has an escaped markup character',
  breaks='the character is written into the output as it stands',
  edits=[('actions.cpp', "                if (*first == '\\\\' && ++first == last) break;\n                detail::print_char(*first, out);", "                if (*first == '\\\\') {\n                    if (++first == last) break;\n                    out << *first;\n                }\n                else {\n                    detail::print_char(*first, out);\n                }")],
  demo=r'''
printf '[article T\n[quickbook 1.6]\n[id dd]\n]\n\n[$x.png [alt a \\< b]] [$y.png [alt a \\& b]]\n' > a.qbk
qb a.qbk --output-file=a.xml || fail "rejected: $(cat log)"
python3 -c "import xml.parsers.expat as e; e.ParserCreate().ParseFile(open('a.xml','rb'))" || fail "$(cat a.xml)"
'''),
]
