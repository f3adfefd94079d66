#!/usr/bin/env python3
"""C16: pretty printing changes the layout only.

Every document is compiled with --no-pretty-print and with one or more layouts; the two files are read by an
independent parser (expat, or html.parser) and compared: same elements, attributes and code, the same words, and white
space between words in the same places except next to the tags of block elements."""
import os, random, re, sys
from html.parser import HTMLParser
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vlib, qdoc, gold
CFG = {}

# Elements around whose tags white space doesn't count (block elements of DocBook and BoostBook).
BLOCKS = set('''author authorgroup blockquote bridgehead callout calloutlist caution copyright entry important informaltable
itemizedlist legalnotice listitem note orderedlist para row section simpara table tbody textobject tgroup thead tip
variablelist varlistentry warning xml xi:include book article library chapter part appendix preface qandadiv qandaset
reference set programlisting sidebar programlistingco'''.split())
for d in 'book article library chapter part appendix preface qandadiv qandaset reference set'.split():
    BLOCKS.add(d + 'info')
    BLOCKS.add(d + 'purpose')
HTML_BLOCKS = set('''div p blockquote address h1 h2 h3 h4 h5 h6 ul ol li dl dt dd table tr th td tbody thead form fieldset hr noscript
html body head pre title link meta'''.split())
VOID = set('area base br col embed hr img input link meta param source track wbr'.split())


class Events(object):
    """A list of ('<', name, attributes), ('>', name), ('t', text) and, for code, ('code', exact text of a listing)."""

    def __init__(self):
        self.ev = []

    def text(self, s):
        if self.ev and self.ev[-1][0] == 't':
            self.ev[-1] = ('t', self.ev[-1][1] + s)
        else:
            self.ev.append(('t', s))


def xml_events(data):
    import xml.parsers.expat
    E = Events()
    p = xml.parsers.expat.ParserCreate()
    p.buffer_text = True
    p.StartElementHandler = lambda n, a: E.ev.append(('<', n, tuple(sorted(a.items()))))
    p.EndElementHandler = lambda n: E.ev.append(('>', n))
    p.CharacterDataHandler = E.text
    # comments don't separate text, white space around them counts
    p.Parse(data, True)
    return E.ev, BLOCKS, 'programlisting'


class H(HTMLParser):
    def __init__(self):
        HTMLParser.__init__(self, convert_charrefs=False)
        self.E = Events()

    def handle_starttag(self, t, a):
        self.E.ev.append(('<', t, tuple(sorted((k, v or '') for k, v in a))))

    handle_startendtag = handle_starttag

    def handle_endtag(self, t):
        self.E.ev.append(('>', t))

    def handle_data(self, s):
        self.E.text(s)

    def handle_entityref(self, s):
        self.E.text('&%s;' % s)

    def handle_charref(self, s):
        self.E.text('&#%s;' % s)


def html_events(data):
    h = H()
    h.feed(data.decode('utf8'))
    h.close()
    return h.E.ev, HTML_BLOCKS, 'pre'


def norm(ev, blocks, code):
    out, depth = [], 0
    for i, e in enumerate(ev):
        if e[0] == '<':
            if e[1] == code:
                depth += 1
            out.append(('<', e[1], tuple((k, re.sub(r'\s', ' ', v)) for k, v in e[2])))
        elif e[0] == '>':
            if e[1] == code:
                depth -= 1
            out.append(e)
        else:
            t = e[1]
            if depth:
                # the layout may remove spaces at the ends of lines
                t = re.sub(r'[ \t]+(?=\n)', '', t.replace('\r', ''))
                if i + 1 < len(ev) and ev[i + 1] == ('>', code):
                    t = t.rstrip(' ')
                out.append(('code', t))
                continue
            t = re.sub(r'[ \t\r\n\f\v]+', ' ', t)
            before = ev[i - 1] if i else ('<', 'xml')
            after = ev[i + 1] if i + 1 < len(ev) else ('>', 'xml')
            if before[1] in blocks:
                t = t.lstrip(' ')
            if after[1] in blocks:
                t = t.rstrip(' ')
            if t:
                out.append(('t', t))
    return out


def different(a, b, fmt):
    f = xml_events if fmt == 'boostbook' else html_events
    try:
        a = norm(*f(a))
    except Exception as e:
        return None, 0
    try:
        b = norm(*f(b))
    except Exception as e:
        return 'the laid out file cannot be read (%s), the plain one can' % e, 0
    if a != b:
        for i in range(max(len(a), len(b))):
            x, y = a[i:i + 1], b[i:i + 1]
            if x != y:
                return 'event %d: without layout %.200r, with layout %.200r (after %.200r)' % (i, x, y, a[max(0, i - 3):i]), len(a)
    return None, len(a)


INLINE = dict((k, 1) for k in qdoc.INLINE)
INLINE.update(code=2, simple=2, emph=3, footnote=1.5, unicode=1, special=2)


def long_text(r, g):
    """Paragraphs with words of all lengths, so that line ends fall at every kind of place."""
    out = []
    for _ in range(r.randint(5, 60)):
        w = g.w() * r.choice([1, 1, 1, 2, 5, 12])
        k = r.random()
        if k < .3:
            w = r.choice(['*%s*', '[*%s]', '`%s`', "['%s]", '[@http://x/%s]', '[link a %s]', '[footnote %s]', '"%s"', '(%s)', '[#%s]', '[br] %s'
                          if g.v >= 106 else '%s', '<%s>', '&%s;', "'''<?x %s?>'''", "'''<!-- %s -->'''", "'''<x a=\"b   c\">%s</x>'''", '[* [`%s] [\'%s]]'
                          if False else '[*[\'%s]]', '[$%s.png]', '%s\\n' if False else '%s']) % w
        out.append(w + r.choice([' ', ' ', ' ', '\n', '', '   ']))
    return ''.join(out).strip()


def case(seed):
    r = random.Random('C16/%d/%d' % (CFG['seed'], seed))
    v = r.choice(qdoc.VERSIONS)
    g = qdoc.Gen(r, v, inline=INLINE, block=[b for b in qdoc.BLOCK if b != 'cblock'])
    src, _ = g.document(r.randint(1, 8), kind=r.choice(['article', 'article', 'book', 'library', 'chapter', 'part', 'appendix', 'preface', 'set', 'reference',
                                                        'qandaset', 'qandadiv']) if v >= 106 else 'article')
    if r.random() < .6:
        src += '\n'.join(['\n%s\n' % long_text(r, g) for _ in range(r.randint(1, 3))])
    if r.random() < .15:
        # code blocks within preformatted blocks
        src += '\n[pre %s' % g.w() + ''.join('%s``%s``%s' % (r.choice([' ', '\n', '']), r.choice(['int x; ', '\n  a\n\n    b\n', 'x\n y ']) + g.w(),
                                                            r.choice([' ', '\n  ', '  w  ', ''])) for _ in range(r.randint(1, 2))) + ']\n\nend\n'
    if r.random() < .4:
        src = src.replace('\n]\n\n', '\n[copyright 2001 2003 A %s]\n[authors [A, B] [%s, D]]\n[purpose p %s q]\n[license l %s]\n[lang en]\n]\n\n' % (
            g.w(), g.w(), g.w(), g.ws(8, 40)), 1)
    fmt = r.choice(['boostbook', 'boostbook', 'boostbook', 'onehtml'])
    d = vlib.fresh_dir()
    vlib.write_tree(d, {'a.qbk': src})
    n = 0
    outs = {}
    layouts = [['--no-pretty-print']]
    for _ in range(2 if fmt == 'boostbook' else 1):
        lw, ind = r.choice([0, 1, 5, 10, 17, 20, 33, 40, 60, 79, 80, 81, 100, 200, 1000, r.randint(1, 120)]), r.choice([0, 1, 2, 3, 4, 8, 13, 40])
        layouts.append([] if r.random() < .2 else ['--linewidth=%d' % lw] + (['--indent=%d' % ind] if r.random() < .7 else []))
    for i, l in enumerate(layouts):
        o = 'o%d.x' % i
        q = vlib.run_qb(CFG['exe'], ['a.qbk', '--debug', '--output-format=' + fmt, '--output-file=' + o] + l, d)
        if q.timeout:
            return src, fmt, layouts, 'timeout', 0, v
        if i == 0 and q.rc:
            return src, fmt, layouts, None, -1, v
        if q.rc:
            return src, fmt, layouts, ('status', 'exit %d with layout %r, 0 without: %s' % (q.rc, l, q.text[:300])), 0, v
        outs[i] = open(os.path.join(d, o), 'rb').read()
    for i in list(outs)[1:]:
        b, k = different(outs[0], outs[i], fmt)
        n += k
        if b:
            return src, fmt, layouts, ('layout', '%s, %s: %s' % (fmt, ' '.join(layouts[i]) or 'default layout', b)), n, v
    return src, fmt, layouts, None, n, v


def corpus(job):
    c, fmt, i = job
    r = random.Random('C16c/%d/%s/%s' % (CFG['seed'], c.name, i))
    d = vlib.fresh_dir()
    outs = []
    lw, ind = r.choice([1, 10, 20, 40, 60, 80, 100, 300]), r.choice([0, 1, 2, 3, 8])
    l = ['--linewidth=%d' % lw, '--indent=%d' % ind]
    if fmt != 'boostbook' or i == 0:
        l = []
    for k, x in enumerate((['--no-pretty-print'], l)):
        o = os.path.join(d, 'o%d.x' % k)
        args = [c.input] + [a for a in c.args if not a.startswith('--output-file')] + ['--debug', '--output-format=' + fmt, '--output-file=' + o] + x
        q = vlib.run_qb(CFG['exe'], args, c.dir, timeout=120)
        if q.timeout:
            return c, fmt, l, 'timeout', 0
        outs.append((q.rc, open(o, 'rb').read() if os.path.exists(o) else None))
    if outs[0][0] != outs[1][0]:
        return c, fmt, l, 'exit %d without layout, %d with' % (outs[0][0], outs[1][0]), 0
    if outs[0][1] is None or outs[1][1] is None:
        return c, fmt, l, None, 0
    b, n = different(outs[0][1], outs[1][1], fmt)
    return c, fmt, l, b, n


def run():
    C = vlib.Check('C16', 'a distinct document compared in a distinct layout')
    exe = vlib.build('fast')
    CFG.update(exe=exe, seed=C.seed)
    C.minimum = 100
    for src, fmt, layouts, b, n, v in vlib.pmap(case, range(C.n(1600, 30000))):
        if b == 'timeout':
            C.unsure('timeout')
            continue
        if n < 0:
            C.count('documents that were refused (not judged here)')
            continue
        C.observe(src + repr(layouts), n > 20, sample=src if len(src) < 700 else None)
        C.count('layouts compared (%s)' % fmt, len(layouts) - 1)
        C.count('tags and texts compared', n)
        C.count('quickbook 1.%d documents' % (v - 100))
        if b:
            C.bad(vlib.Bad(b[0], 'quickbook 1.%d: %s' % (v - 100, b[1]), {'a.qbk': src}, layouts))
    jobs = [(c, f, i) for c in gold.cases() if c.kind == 'quickbook-test' for f, i in
            [('boostbook', k) for k in range(C.n(2, 12))] + [('onehtml', 0)]]
    for c, fmt, l, b, n in vlib.pmap(corpus, jobs):
        rel = os.path.relpath(os.path.join(c.dir, c.input), vlib.REPO)
        if b == 'timeout':
            C.unsure('timeout ' + rel)
            continue
        C.observe('%s %s %s' % (rel, fmt, l), n > 5)
        C.count('documents of /repo/test compared (%s)' % fmt)
        C.count('tags and texts compared', n)
        if b:
            C.bad(vlib.Bad('corpus', '%s (%s %s): %s' % (rel, fmt, ' '.join(l), b), {}, l))
    return C.finish()


vlib.main(run)
