"""BoostBook written through raw escapes: elements in places and with attributes that quickbook itself never writes, and broken XML."""
TAGS = ['simpara', 'orderedlist', 'itemizedlist', 'listitem', 'blockquote', 'quote', 'code', 'classname', 'literal', 'subscript', 'section', 'anchor', 'title',
        'sidebar', 'sbr', 'bridgehead', 'ulink', 'link', 'phrase', 'para', 'emphasis', 'inlinemediaobject', 'imageobject', 'imagedata', 'textobject', 'variablelist',
        'varlistentry', 'term', 'table', 'informaltable', 'tgroup', 'thead', 'tbody', 'row', 'entry', 'calloutlist', 'callout', 'co', 'footnote', 'copyright', 'year',
        'holder', 'legalnotice', 'pubdate', 'authorgroup', 'author', 'firstname', 'surname', 'editor', 'collab', 'corpauthor', 'corpcredit', 'othercredit', 'article',
        'book', 'chapter', 'part', 'library', 'articleinfo', 'bookinfo', 'libraryinfo', 'info', 'xi:include', 'programlisting', 'screen', 'note', 'tip', 'warning',
        'caution', 'important', 'blurb', 'indexterm', 'primary', 'secondary', 'functionname', 'macroname', 'headername', 'replaceable', 'unknown', 'preface',
        'appendix', 'areaspec', 'area', 'programlistingco', 'mediaobject', 'titleabbrev', 'qandaset', 'sect1', 'refentry', 'abstract', 'legalnotice', 'itemizedlist']
ATTRS = ['id', 'linkend', 'linkends', 'arearefs', 'url', 'fileref', 'role', 'width', 'align', 'href', 'parse', 'xml:base', 'renderas', 'name', 'scale', 'frame', 'rows',
         'dirname', 'last-revision', 'lang', 'class', 'valign', 'format']
VALUES = ['a', 'dd', 'x1', '', '.', '/', 'a.b', '#x', 'nofile.xml', 'boost:x', 'x.png', '10', '-1', 'bold', 'alert', 'h3', 'header', 'text', '$0', '$1', '&lt;', '&', 'a b',
          'http://x/y', '../..', '?', 'co1', 'fn', 'a/b', '\u00e9']
PIECES = ['<', '>', '</', '/>', '="', '"', "'", '=', '&', '&lt;', '&#x', '&#65;', '&#x41;', '&unknown;', '<!--', '-->', '<![CDATA[', ']]>', '<?x', '?>', '<!DOCTYPE x', '<!',
          '[', ']', '<a', '<para', '</para>', '</article>', '<article>', ' id', ' id="x"', '\n', '\t', ' ', 'text', 'x' * 100, '<!---->', '<a/', '<a b', '<a b=', '<a b="', '\u00e9', '--', '</']


def tree(r, depth=0):
    t = r.choice(TAGS)
    a = ''.join(' %s="%s"' % (k, r.choice(VALUES)) for k in sorted(set(r.choice(ATTRS) for _ in range(r.choice([0, 0, 1, 1, 2, 4])))))
    if r.random() < .2:
        return '<%s%s/>' % (t, a)
    n = r.randint(0, 3) if depth < 5 else 0
    return '<%s%s>%s</%s>' % (t, a, ''.join(r.choice(['', 'x', ' y ', '\n']) + tree(r, depth + 1) for _ in range(n)) + r.choice(['', 'z']), t)


def broken(r):
    s = tree(r) if r.random() < .6 else ''
    for _ in range(r.randint(1, 4)):
        p = r.randint(0, len(s))
        x = r.random()
        if x < .6 or not s:
            s = s[:p] + ''.join(r.choice(PIECES) for _ in range(r.randint(1, 4))) + s[p:]
        elif x < .8:
            s = s[:p]
        else:
            s = s[:p] + s[min(len(s), p + r.randint(1, 9)):]
    return s


def document(r):
    v = r.choice([101, 105, 106, 107, 107])
    bad = r.random() < .35
    body = []
    for i in range(r.randint(1, 5)):
        x = (broken if bad and r.random() < .5 else tree)(r).replace("'''", '')
        body.append(r.choice(["'''%s'''", "text '''%s''' text", "[section S%d]\n\n'''%%s'''\n\n[endsect]" % i, "[table t\n[['''%s''']]\n[[b]]\n]", "* a '''%s''' b",
                              "[note '''%s''']", "[heading '''%s''']", "[@http://x '''%s''']", "   int x; ``'''%s'''`` y\n"]) % x)
    info = '' if r.random() < .8 else "[license '''%s''']\n" % broken(r).replace("'''", '').replace(']', '')
    return '[%s T\n[quickbook 1.%d]\n[id dd]\n%s]\n\n%s%s' % (r.choice(['article', 'book', 'chapter', 'library']), v - 100, info, '\n\n'.join(body), r.choice(['', '\n']))
