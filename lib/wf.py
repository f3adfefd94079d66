"""Independent checkers of the files quickbook writes: strict XML (expat) and balance/escaping of HTML."""
import re
import xml.parsers.expat

VOID = {'br', 'img', 'hr', 'meta', 'link', 'col', 'input', 'wbr', 'area', 'base', 'embed', 'source', 'track', 'param'}
NAME = r'[A-Za-z_:][-A-Za-z0-9_:.]*'
TOK = re.compile(r'''(?P<text>[^<&]+)
 |(?P<ent>&(?:[a-zA-Z][a-zA-Z0-9]*|\#[0-9]+|\#x[0-9a-fA-F]+);)
 |(?P<comment><!--.*?-->)
 |(?P<doctype><!DOCTYPE[^>]*>|<\?xml[^>]*\?>)
 |<(?P<open>%s)(?P<attrs>(?:\s+%s\s*=\s*(?:"[^"<]*"|'[^'<]*'))*)\s*(?P<slash>/?)>
 |</(?P<close>%s)\s*>
''' % (NAME, NAME, NAME), re.X | re.S)
ATTR = re.compile(r'''(%s)\s*=\s*("[^"<]*"|'[^'<]*')''' % NAME)
GOODREF = re.compile(r'&(?!(?:[a-zA-Z][a-zA-Z0-9]*|#[0-9]+|#x[0-9a-fA-F]+);)')


def xml_problem(data):
    """None when the bytes are a well-formed UTF-8 XML document."""
    try:
        data.decode('utf8')
    except UnicodeDecodeError as e:
        return 'not UTF-8: %s' % e
    m = re.match(rb'<\?xml[^>]*encoding="([^"]*)"', data)
    if m and m.group(1).lower() != b'utf-8':
        return 'declares encoding %r' % m.group(1)
    p = xml.parsers.expat.ParserCreate()
    stack = []
    seen = []
    p.UseForeignDTD(True)
    try:
        p.Parse(data, True)
    except xml.parsers.expat.ExpatError as e:
        line = data.split(b'\n')[e.lineno - 1][max(0, e.offset - 80):e.offset + 80] if e.lineno <= data.count(b'\n') + 1 else b''
        return '%s: %r' % (e, line)
    return None


def html_tokens(text):
    """Yields (kind, ...) tokens; raises ValueError with a description at the first thing that isn't a token."""
    i, n = 0, len(text)
    while i < n:
        m = TOK.match(text, i)
        if not m:
            raise ValueError('not a tag, text or entity: %r' % text[max(0, i - 60):i + 100])
        i = m.end()
        if m.group('text') is not None:
            yield ('text', m.group('text'))
        elif m.group('ent') is not None:
            yield ('ent', m.group('ent'))
        elif m.group('open'):
            at = {}
            for k, v in ATTR.findall(m.group('attrs') or ''):
                v = v[1:-1]
                if GOODREF.search(v):
                    raise ValueError('unescaped & in attribute %s=%r' % (k, v))
                if k in at:
                    raise ValueError('attribute %s given twice: %r' % (k, m.group(0)[:200]))
                at[k] = v
            yield ('open', m.group('open'), at, bool(m.group('slash')))
        elif m.group('close'):
            yield ('close', m.group('close'))
        elif m.group('comment'):
            yield ('comment', m.group('comment'))


def html_problem(data):
    try:
        text = data.decode('utf8')
    except UnicodeDecodeError as e:
        return 'not UTF-8: %s' % e
    stack = []
    n = 0
    try:
        for t in html_tokens(text):
            if t[0] == 'open':
                n += 1
                if not t[3] and t[1].lower() not in VOID:
                    stack.append(t[1])
            elif t[0] == 'close':
                if not stack or stack[-1] != t[1]:
                    return '</%s> closes %s' % (t[1], stack[-3:] or 'nothing')
                stack.pop()
    except ValueError as e:
        return str(e)
    if stack:
        return 'not closed: %s' % stack[-3:]
    if not n:
        return 'no tags'
    return None
