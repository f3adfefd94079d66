"""Constructs to repeat, and how the work of a document may grow with the number of repetitions."""

# kind, before, repeated, after.  lin: in proportion; quad: with the square (ids that clash, things left open, many errors); exp: worse
UNITS = [
    ('lin', '', 'text words here ', ''),
    ('lin', '', 'text words here\n', ''),
    ('lin', '', 'text words here\n\n', ''),
    ('lin', '', 'x', ''),
    ('lin', '', 'word@N ', ''),
    ('lin', '', '[*bold] ', ''),
    ('lin', '', '*bold* ', ''),
    ('lin', '', '/it@N/ ', ''),
    ('lin', '', '*a', ''),
    ('quad', '', '_a ', ''),
    ('lin', '', '`code` ', ''),
    ('lin', '', '``code``\n', ''),
    ('lin', '', '    int x@N = 1;\n', ''),
    ('lin', '', '    int x@N = 1;\n\n', ''),
    ('lin', '', '* item\n', ''),
    ('lin', '', '# item\n', ''),
    ('lin', '', '* a\n  * b\n', ''),
    ('lin', '', '* a\n\n', ''),
    ('lin', '', '[note x]\n', ''),
    ('quad', '', '[h2 Title]\n', ''),
    ('quad', '', '[h2 Title@N]\n', ''),
    ('quad', '', '[h2:t@N Title]\n', ''),
    ('quad', '', '[heading Title@N [*b]]\n', ''),
    ('lin', '', '[section:s@N T]\nx\n[endsect]\n', ''),
    ('quad', '', '[section T]\nx\n[endsect]\n', ''),
    ('lin', '', '[section T@N]\nx\n[endsect]\n', ''),
    ('lin', '', '[#a@N] ', ''),
    ('quad', '', '[#a] ', ''),
    ('lin', '', '[#a@N]\n\n', ''),
    ('lin', '', '[link a@N b] ', ''),
    ('lin', '', '[@http://x y] ', ''),
    ('quad', '', '[footnote x] ', ''),
    ('quad', '', '[table T@N\n[[a][b]]\n[[c][d]]\n]\n', ''),
    ('quad', '', '[table T\n[[a][b]]\n]\n', ''),
    ('lin', '[table T\n', '[[a][b]]\n', ']\n'),
    ('lin', '[table T\n[', '[a]', ']]\n'),
    ('lin', '[table T\n[[', 'a ', ']]]\n'),
    ('lin', '[table T\n[[', 'a\n\n', ']]]\n'),
    ('lin', '[variablelist T\n', '[[a][b]]\n', ']\n'),
    ('lin', '[ordered_list ', '[a]', ']\n'),
    ('lin', '', '[template t@N[] x]\n', ''),
    ('lin', '', '[template t@N[a] x [a]]\n', ''),
    ('quad', '', '[template t[] x]\n', ''),
    ('lin', '[template t[] x]\n', '[t] ', ''),
    ('lin', '[template t[] x]\n', '[t]\n\n', ''),
    ('lin', '[template t[a] <[a]>]\n', '[t x] ', ''),
    ('lin', '[template t[a b] <[a][b]>]\n', '[t x..y] ', ''),
    ('lin', '[template t[a] <[a]>]\n', '[t [t x]] ', ''),
    ('lin', '[template t[a]\nx [a]\n\ny\n]\n', '[t x]\n\n', ''),
    ('lin', '', '[def m@N x]\n', ''),
    ('lin', '', '[def m x]\n', ''),
    ('lin', '[def m x]\n', 'm ', ''),
    ('lin', '', '[template t@N[] x][t@N] ', ''),
    ('lin', '', '[/ comment] ', ''),
    ('lin', '[/ ', 'comment ', ']\n'),
    ('lin', '[/ ', '[x] ', ']\n'),
    ('quad', '[/ ', '[/ ', 'x'),
    ('quad', '', '\\n ', ''),
    ('lin', '', '\\u00e9', ''),
    ('lin', '', "'''<x/>''' ", ''),
    ('lin', "''' ", '<x/> ', "'''"),
    ('lin', '`', 'code ', '`'),
    ('lin', '``\n', 'code ', '\n``'),
    ('lin', '', '``\ncode\n``\n', ''),
    ('lin', '', '[br] ', ''),
    ('lin', '', '----\n', ''),
    ('lin', '', '[$x.png] ', ''),
    ('lin', '', '"q" ', ''),
    ('lin', '', '["q] ', ''),
    ('lin', '', '[role r x] ', ''),
    ('lin', '', '[? m x] ', ''),
    ('lin', '', '[?m@N x] ', ''),
    ('lin', '', '[funcref x y] ', ''),
    ('lin', '', '[blurb x]\n', ''),
    ('lin', '', '[pre x\n]\n', ''),
    ('lin', '[pre ', 'x', ' ]\n'),
    ('lin', '', '[:x]\n\n', ''),
    ('lin', '', '[block x]\n', ''),
    ('lin', '', '[c++]\n', ''),
    ('lin', '', '[python]`def`\n', ''),
    ('lin', '', '[!python]`def`\n', ''),
    ('lin', '', '[xinclude x.xml]\n', ''),
    ('open', '', '[ ', ''),
    ('quad', '', ']', ''),
    ('lin', '', '[]', ''),
    ('lin', '', '[[a]]', ''),
    ('open', '', '[x@N ', ''),
    ('lin', '', '[unknown x] ', ''),
    ('exp', '', '[*a', '', (101, 107)),
    ('quad', '', '[*a\n\n', ''),
    ('exp', '', "['", '', (101, 107)),
    ('lin', '', "'''", ''),
    ('lin', '', '`', ''),
    ('lin', '', '``', ''),
    ('lin', '', '```', ''),
    ('lin', '', '*', ''),
    ('lin', '', '/', ''),
    ('lin', '', '_ ', ''),
    ('lin', '', '=', ''),
    ('lin', '', '*a*b', ''),
    ('lin', '', '*a *', ''),
    ('quad', '', '/* ', ''),
    ('lin', '', '/*< x >*/', ''),
    ('quad', '', '    /*< x >*/\n', ''),
    ('quad', '', '    x /*< x >*/ y\n', ''),
    ('lin', '', '    //< x\n', ''),
    ('lin', '', '    "str" \'c\' 0x12 // c\n', ''),
    ('lin', '', '    #define x y\n', ''),
    ('lin', '', '    /* x */\n', ''),
    ('lin', '    /* ', 'x', ' */\n'),
    ('lin', '    "', 'x', '"\n'),
    ('lin', '    ', 'x ', '\n'),
    ('lin', '', '\t', ''),
    ('lin', '', ' ', ''),
    ('lin', '', '\n', ''),
    ('lin', '', '\n\n', ''),
    ('lin', '', '\r\n', ''),
    ('lin', '', '-- ', ''),
    ('lin', '', '..', ''),
    ('lin', '', '& ', ''),
    ('lin', '', '<b> ', ''),
    ('lin', '', 'Ã© ', ''),
    ('lin', '', '\\', ''),
    ('quad', '', '[section x]\n', ''),
    ('quad', '', '[endsect]\n', ''),
    ('open', '', '[table\n', ''),
    ('exp', '', '[[', '', (101, 107)),
    ('quad', '', ']]', ''),
    ('open', '', '[@', '', (101, 104, 105, 107)),
    ('exp', '', '[@', '', (106,)),
    ('open', '', '[$', ''),
    ('open', '', '[#', ''),
    ('open', '', '[?', ''),
    ('exp', '', '[link ', '', (101, 107)),
    ('open', '', '[template ', ''),
    ('open', '', '[template t ', ''),
    ('open', '', '[def ', ''),
    ('open', '', '[def a ', ''),
    ('open', '', '[import x', ''),
    ('open', '', '[include x', ''),
    ('open', '', '[variablelist ', ''),
    ('open', '', '[heading ', ''),
    ('open', '', '[h1 ', ''),
    ('open', '', '[note ', ''),
    ('open', '', '[section ', ''),
    ('exp', '', '[footnote ', '', (101, 107)),
    ('open', '', '[role ', ''),
    ('exp', '', '["', '', (101, 107)),
    ('lin', '', '[`t] ', ''),
    ('quad', '', '[include none@N.qbk]\n', ''),
    ('open', '', '[heading x\n', ''),
    ('lin', '', '* a [note x]\n', ''),
    ('lin', '', '* a [*b]\n', ''),
    ('quad', '', '* [table T\n[[x]]\n]\n', ''),
    ('lin', '', '  * a\n', ''),
    ('lin', '', '[note\n* a\n* b\n]\n', ''),
    ('lin', '', '[note [note x]]\n', ''),
    ('lin', '[note ', 'a\n\n', ']'),
    ('lin', '[note ', '[*x] ', ']'),
    ('lin', '[*', 'a ', ']'),
    ('lin', '[*', '[/a] ', ']'),
    ('lin', '["', 'a ', ']'),
    ('lin', '[footnote ', 'a ', ']'),
    ('lin', '[template t[] ', 'x ', ']\n'),
    ('lin', '[template t[] ', '[x] ', ']\n'),
    ('lin', '[def m ', 'x ', ']\nm'),
    ('lin', '[h1 ', 'x ', ']\n'),
    ('lin', '[h1 ', '[*x] ', ']\n'),
    ('lin', '[section ', 'x ', ']\n[endsect]'),
    ('lin', '[@http://', 'x', ' y]'),
    ('lin', '[link ', 'x', ' y]'),
    ('lin', '[#', 'x', '] y'),
    ('lin', '[$', 'x', ']'),
    ('lin', '[role ', 'x', ' y]'),
    ('lin', '[template t[a] [a]]\n[t ', 'x ', ']'),
    ('lin', '[template t[a] [a]]\n[t ', '[x] ', ']'),
    ('lin', '[template t[a] [a]]\n[t ', 'x..', ']'),
    ('lin', '[? ', 'x', ' y]'),
    ('lin', '[include ', 'x', ']'),
    ('lin', '[xinclude ', 'x', ']'),
    ('lin', '[table ', 'x', ' \n[[a]]\n]'),
    ('lin', '[blurb ', 'x ', ']'),
    ('lin', '[pre ', '[x] ', ']'),
    ('lin', '[:', 'x\n\n', ']'),
    ('lin', '[block ', 'x ', ']'),
    ('lin', '[ordered_list [', 'x', ']]'),
    ('lin', '[variablelist T [[a][', 'x', ']]]'),
    ('lin', '[variablelist T [[', 'x', '][a]]]'),
    ('lin', '*', 'x', '*'),
    ('lin', '*', 'x ', '*'),
    ('lin', '"', 'x ', '"'),
    ('lin', '`', 'x ', '`'),
    ('quad', '', '[section:s@N T]\n[h1 x]\n', ''),
    ('lin', '', '[link s@N] [section:s@N T]\n[endsect]\n', ''),
    ('quad', '', '[heading:s T]\n', ''),
    ('quad', '', '[#s]\n', ''),
    ('quad', '', '[table:s T\n[[a]]\n]\n', ''),
]
