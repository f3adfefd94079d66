"""Mistakes in documents: what to write, where it is allowed, and what is said about it.

(text, first version, last version, inline?, line of the diagnostic relative to the first line of the text, pattern)
The place `None' is where the input ends.
"""
# definitions the mistakes refer to
PRE = '''[template tone[x] [x]]
[template dup[a a] [a]]
[template none[] x]
[template blk[x]

[x]

]
'''
PRE_LINES = PRE.count('\n')

INLINE = [
    ('[link [zz y]]x', 106, 106, 0, 'Open bracket in link value'),
    ('[link [zz y]]x', 107, 107, 0, 'Unmatched template in attribute value'),
    ('[#]', 105, 106, 0, 'Empty attribute value'),
    ('[@]x', 105, 106, 0, 'Empty attribute value'),
    ('[@]x', 107, 107, 0, 'Syntax Error'),
    ('[#]', 107, 107, 0, 'Syntax Error'),
    ('[#a<b]', 107, 107, 0, 'Invalid id: a<b'),
    ('[link [/ x]]', 105, 106, 0, 'Empty attribute value'),
    ('[link [/ x]]', 107, 107, 0, 'Syntax Error'),
    ('[$a\\b.png]', 106, 107, 0, 'Invalid escape'),
    ('[tone]', 105, 107, 0, 'Invalid number of arguments'),
    ('[tone a..b]', 105, 107, 0, 'Invalid number of arguments'),
    ('[none a]', 105, 107, 0, 'Invalid number of arguments'),
    ('[`none a]', 105, 107, 0, 'Arguments for escaped template'),
    ('[dup a..b]', 105, 107, 0, 'Duplicate Symbol Found'),
    ('[funcref]', 105, 106, 0, 'Empty attribute value'),
    ('[funcref]', 107, 107, 0, 'Syntax Error'),
    ('[role ]', 107, 107, 0, 'Syntax Error'),
    ('[?]', 107, 107, 0, 'Syntax Error'),
    ('[$]', 107, 107, 0, 'Syntax Error'),
    ('[!nomode]', 107, 107, 0, 'Syntax Error'),
    ('[*[h1 x]]', 107, 107, 0, 'Element not allowed in this context'),
    ('[link [blk x] y]', 107, 107, 0, 'Only phrase templates'),
]
BLOCK = [
    ('[endsect]', 103, 107, 0, r'Mismatched \[endsect\]'),
    ('[section:s1 x]\n\ny\n\n[endsect:s2]', 107, 107, 4, "Endsect has incorrect id 's2', expected 's1'"),
    ('[section:a!b c]\n[endsect]', 107, 107, 0, 'Invalid id: a!b'),
    ('[heading:a,b x]', 107, 107, 0, 'Invalid id: a,b'),
    ('[include nofile.qbk]', 103, 107, 0, 'Unable to find file: nofile.qbk'),
    ('[include nodir/nofile.qbk]', 103, 107, 0, 'Unable to find file: nodir/nofile.qbk'),
    ('[include:i nofile.qbk]', 106, 107, 0, 'Unable to find file: nofile.qbk'),
    ('[import nofile.cpp]', 103, 107, 0, 'Unable to find file: nofile.cpp'),
    ('[include ]', 106, 106, 0, 'Empty path argument'),
    ('[include ]', 107, 107, 0, 'Syntax Error'),
    ('[xinclude *.xml]', 107, 107, 0, 'Glob used for xml path'),
    ('[include a\\b.qbk]', 106, 107, 0, 'Invalid escape'),
    ('* a\n# b', 103, 107, 1, 'Illegal change of list style'),
    ('* a\n* b\n  * c\n  # d', 103, 107, 3, 'Illegal change of list style'),
    ('[template twice[] x]\n\n[template twice[] y]', 105, 107, 2, 'Template Redefinition: twice'),
    ('[ordered_list [a] b]', 106, 107, 0, 'Syntax Error'),
    ('[template 1x b]', 105, 107, 0, 'Syntax Error'),
    ('[endsect x]', 105, 107, 0, 'Syntax Error'),
    ('[variablelist x [[a]]]', 107, 107, 0, 'Syntax Error'),
    ('[table x\n  [[a][b]]\n  oops\n]', 107, 107, 2, 'Syntax Error'),
    ('[xinclude a\\b]', 106, 107, 0, 'Invalid escape'),
    ('[template opens[]\n\n[section a]\n\n]\n\n[opens]', 107, 107, 6, 'Mismatched sections in template opens'),
    ('[template closes[]\n\n[endsect]\n\n]\n\n[section a]\n\n[closes]\n\n[endsect]', 107, 107, 2, r'Mismatched \[endsect\]'),
]
# Sections can't be written in the block elements of quickbook 1.7, which is said first for these
NESTED = 'admonition', 'block quote', 'nested admonition', 'cell of several paragraphs'
NOT_NESTED = {
    '[endsect x]': (0, 'Element not allowed in this context'),
    '[section:s1 x]\n\ny\n\n[endsect:s2]': (0, 'Element not allowed in this context'),
    '[template closes[]\n\n[endsect]\n\n]\n\n[section a]\n\n[closes]\n\n[endsect]': (6, 'Element not allowed in this context'),
}
# Left open: reported, but there is no one place (the end of what contains it)
OPEN = [
    ('[table x [[a][b]', 103, 107), ('[section a', 103, 107), ('[note a', 106, 107), ('[heading a', 106, 107), ('[*a', 106, 107), ("'''x", 106, 107),
    ('```\nx', 107, 107), ('[/ x', 106, 107), ('[pre x', 106, 107), ('[template x[] a', 105, 107), ('[include a', 106, 107), ('[#a', 106, 107), ('[blurb x', 105, 107),
    ('[variablelist x [[a][b]]', 105, 107), ('[def a b', 105, 107), ('[? x y', 106, 107),
]
# In files of their own: (file name, contents, how to use it, versions, file and line of the diagnostic, pattern)
FILES = [
    ('bad1.cpp', 'int a;\nint b;\n//]\nint c;\n', '[import bad1.cpp]', 106, 107, 3, 'Mismatched end snippet'),
    ('bad2.cpp', 'int a;\n//[open\nint b;\n', '[import bad2.cpp]', 106, 107, 2, "Unclosed snippet 'open'"),
    ('twice.cpp', '//[one\nint a;\n//]\n\nint b;\n\n//[one\nint c;\n//]\n', '[import twice.cpp]', 105, 107, 7, 'Template Redefinition: one'),
    ('badv.qbk', '[article x\n[quickbook 1.9]\n]\nx\n', '[include badv.qbk]', 106, 107, None, 'Unknown version: 1.9'),
    ('badd.qbk', '[article x\n[quickbook 1.7\n]\nx\n', '[include badd.qbk]', 106, 107, None, 'Syntax Error'),
    ('xb.qbk', '[article x\n[quickbook 1.7]\n[xmlbase nodir]\n]\nx\n', '[include xb.qbk]', 106, 107, 3, "isn't a directory"),
    ('co.cpp', 'int a;\n//[co\nint x; /*< [tone] >*/\n//]\n', '[import co.cpp]\n\n[co]', 105, 107, 3, 'Invalid number of arguments'),
    ('co2.cpp', '//[co2\nint x;\nint y; /*< a\nb [tone] >*/\n//]\n', '[import co2.cpp]\n\n[co2]', 105, 107, 4, 'Invalid number of arguments'),
    ('pass.cpp', 'int a;\n//[pass\nint x;\n/*`\ntext\n\n[tone]\n*/\nint y;\n//]\n', '[import pass.cpp]\n\n[pass]', 105, 107, 7, 'Invalid number of arguments'),
    ('pass2.cpp', 'int a;\n//[pass2\n//` text [tone] x\nint y;\n//]\n', '[import pass2.cpp]\n\n[pass2]', 105, 107, 3, 'Invalid number of arguments'),
    ('pass3.py', 'a\n#[pass3\n#` text [tone] x\nb\n#]\n', '[import pass3.py]\n\n[pass3]', 105, 107, 3, 'Invalid number of arguments'),
    ('esc.cpp', '//[esc\n  int x;\n\n  f(``[tone]``);\n//]\n', '[import esc.cpp]\n\n[esc]', 105, 107, 4, 'Invalid number of arguments'),
    ('esc2.cpp', '\n\n//[esc2\n\n    int x;\n\n  //<-\n  no\n  //->\n    f(``[tone]``);\n//]\n', '[import esc2.cpp]\n\n[esc2]', 105, 107, 10, 'Invalid number of arguments'),
    ('nest.cpp', '//[nouter\nint a;\n  //[ninner\n  int b;\n  //` text [tone] x\n  int c;\n  //]\nint d;\n//]\n', '[import nest.cpp]\n\n[ninner]', 105, 107, 5, 'Invalid number of arguments'),
    ('nest2.cpp', '//[nouter2\nint a;\n\n  //[ninner2\n  int b;\n  //]\nint c;\n/*`\n\n  [*text]\n\n  x [tone] x\n*/\nint d;\n//]\n', '[import nest2.cpp]\n\n[nouter2]', 105, 107, 12, 'Invalid number of arguments'),
    ('nest3.cpp', '//[nouter3\n  int a;\n  /*[ninner3*/ int b; /*]*/\n  //=  int c; \n  f(``[tone]``);\n//]\n', '[import nest3.cpp]\n\n[nouter3]', 105, 107, 5, 'Invalid number of arguments'),
    ('nest4.py', '#[nouter4\n  a\n  #<-\n  b\n  #->\n  #[ninner4\n  c(``[tone]``)\n  #]\n\n#]\n', '[import nest4.py]\n\n[ninner4]', 105, 107, 7, 'Invalid number of arguments'),
]
