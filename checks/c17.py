#!/usr/bin/env python3
"""C17: HTML output.

Documents of several files are turned into BoostBook and into HTML, on one page or divided into pages.  The HTML is parsed with an
independent parser and compared with what a model makes of the BoostBook; every link is followed on the files that were written.
"""
import os, posixpath, random, re, sys
from html.parser import HTMLParser
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vlib, qdoc
CFG = {}
VOID = {'br', 'hr', 'img', 'link', 'meta', 'input'}
BLOCK = set('html head body div p h1 h2 h3 h4 h5 h6 ul ol li dl dt dd table thead tbody tr th td pre blockquote caption link hr'.split())
CHUNKS = 'book article library chapter part appendix preface qandadiv qandaset reference set section'.split()


# ------------------------------------------------------------------ reading HTML

class Reader(HTMLParser):
    def __init__(self):
        HTMLParser.__init__(self, convert_charrefs=True)
        self.root = ['', {}, []]
        self.stack = [self.root]
        self.problem = None

    def handle_starttag(self, tag, attrs):
        n = [tag, dict(attrs), []]
        if len(n[1]) != len(attrs):
            self.problem = self.problem or 'attribute twice: %s %s' % (tag, attrs)
        self.stack[-1][2].append(n)
        if tag not in VOID:
            self.stack.append(n)

    def handle_startendtag(self, tag, attrs):
        if tag not in VOID:
            self.problem = self.problem or '<%s/>' % tag
        self.stack[-1][2].append([tag, dict(attrs), []])

    def handle_endtag(self, tag):
        if self.stack[-1][0] != tag:
            self.problem = self.problem or '</%s> ends %s' % (tag, self.stack[-1][0])
            return
        self.stack.pop()

    def handle_data(self, s):
        self.stack[-1][2].append(s)

    def handle_decl(self, d):
        if d != 'DOCTYPE html':
            self.problem = self.problem or '<!%s>' % d

    def handle_comment(self, d):
        self.problem = self.problem or 'comment'
    handle_pi = unknown_decl = handle_comment


def read_html(text):
    r = Reader()
    r.feed(text)
    r.close()
    if len(r.stack) > 1:
        r.problem = r.problem or '%s is not closed' % r.stack[-1][0]
    return r.root[2], r.problem


# ------------------------------------------------------------------ links

def is_url(u):
    return bool(re.match(r'[^/?#]*:', u)) or u.startswith('/')


def follow(href, page, out):
    """Where a link of a page leads: a URL, or file#id.  page is relative to out, an absolute directory"""
    if is_url(href):
        return re.sub(r'(?<=[^:/])//', '/', href)
    path, frag = (href.split('#', 1) + [''])[:2]
    query = ''
    if '?' in path:
        path, query = path.split('?', 1)
        query = '?' + query
    f = posixpath.normpath(posixpath.join(out, posixpath.dirname(page), path)) if path else posixpath.join(out, page)
    return f + query + ('#' + frag if frag else '')


# ------------------------------------------------------------------ the model

class Chunk(object):
    def __init__(self, e, parent):
        self.e, self.parent = e, parent
        self.id = e.get('id')
        self.kids, self.title, self.info, self.own = [], None, None, []
        self.inline = False
        self.path = self.id.replace('.', '/') + '.html'
        if e.text:
            self.own.append(e.text)
        for c in e:
            if c.tag == 'title':
                self.title = c
            elif c.tag.endswith('info') and c.tag[:-4] in CHUNKS:
                self.info = c
            elif c.tag in CHUNKS:
                self.kids.append(Chunk(c, self))
            else:
                self.own.append(c)
            if c.tail:
                self.own.append(c.tail)

    def fold(self, path):
        self.inline, self.path = True, path
        for k in self.kids:
            k.fold(path)

    def divide(self):
        """Sections at the start of what contains them stay on its page"""
        n = 0
        while n < len(self.kids) and self.kids[n].e.tag == 'section':
            self.kids[n].fold(self.path)
            n += 1
        for k in self.kids[n:]:
            k.divide()

    def walk(self):
        yield self
        for k in self.kids:
            for x in k.walk():
                yield x


TAGS = {'simpara': 'div', 'orderedlist': 'ol', 'itemizedlist': 'ul', 'listitem': 'li', 'blockquote': 'blockquote', 'quote': 'q',
        'code': 'code', 'classname': 'code', 'literal': 'tt', 'subscript': 'sub', 'superscript': 'sup', 'section': 'div', 'anchor': 'span',
        'title': 'h3', 'calloutlist': 'div'}
CLASSES = {'programlisting': 'pre', 'warning': 'div', 'caution': 'div', 'important': 'div', 'note': 'div', 'tip': 'div', 'replaceable': 'em'}


class Model(object):
    """HTML pages of a BoostBook document: self.pages, path -> children of <body>"""

    def __init__(self, root, home, chunked, out, opts):
        self.root = Chunk(root, None)
        self.out, self.opts = out, opts
        self.root.path = home
        if chunked:
            taken = set()
            for c in self.root.walk():
                # different ids may stand for one path, or the first page's
                n, base = 2, os.path.splitext(c.path)[0]
                while c.path in taken:
                    c.path, n = '%s-%d.html' % (base, n), n + 1
                taken.add(c.path)
            self.root.divide()
        else:
            for k in self.root.kids:
                k.fold(home)
        self.where = {}        # id -> file#id
        for c in self.root.walk():
            self.where.setdefault(c.id, self.target(c.path, c.id if c.inline else ''))
            for part in [c.title, c.info] + c.own:
                if part is not None and not isinstance(part, str):
                    for e in part.iter():
                        if e.get('id') is not None:
                            self.where.setdefault(e.get('id'), self.target(c.path, e.get('id')))
        self.notes = 0
        self.pages = {}
        self.order = []
        self.page(self.root)

    def target(self, path, frag):
        return posixpath.normpath(posixpath.join(self.out, path)) + ('#' + frag if frag else '')

    def page(self, c):
        self.path = c.path
        self.footnotes = []
        self.order.append(c)
        x = self.navigation(c) + self.body(c)
        later = [k for k in c.kids if not k.inline]
        for k in c.kids:
            if k.inline:
                x.append(self.inlined(k))
        if self.footnotes:
            notes = [['br', {}, []], ['hr', {}, []]]
            for f, label in self.footnotes:
                notes.append(['div', {'id': 'FN', 'class': 'footnote'}, self.footnote(f, label)])
            x.append(['div', {'class': 'footnotes'}, notes])
        self.pages[c.path] = x
        for k in later:
            self.page(k)

    def inlined(self, c):
        return ['div', {'id': c.id}, self.body(c) + [self.inlined(k) for k in c.kids]]

    def picture(self, name, alt):
        if self.opts.get('graphics'):
            return ['img', {'src': self.opts['graphics'] + '/' + name, 'alt': alt}, []]
        return alt

    def navigation(self, c):
        pages = [k for k in self.root.walk() if not k.inline]
        n = pages.index(c)
        prev = pages[n - 1] if n else None
        nxt = next((k for k in c.kids if not k.inline), None)
        if nxt is None and c.parent:
            sib = c.parent.kids
            n = sib.index(c)
            nxt = sib[n + 1] if n + 1 < len(sib) else None
        x = []
        for who, key, name in [(prev, 'p', 'prev'), (c.parent, 'u', 'up'), (c.parent and self.root, 'h', 'home'), (nxt, 'n', 'next')]:
            if who:
                x += [' ', ['a', {'href': self.target(who.path, ''), 'accesskey': key}, [self.picture(name + '.png', name)]]]
        return [['div', {'class': 'spirit-nav'}, x[1:]]] if x else []

    def body(self, c):
        self.numbers, self.marks = {}, {}
        for part in [c.title, c.info] + c.own:
            if part is not None and not isinstance(part, str):
                for e in part.iter():
                    if e.tag == 'calloutlist':
                        for k, o in enumerate(e.iter('callout')):
                            self.numbers[o.get('id')] = k + 1
                    elif e.tag == 'co' and e.get('linkends'):
                        self.marks[e.get('linkends')] = e.get('id')
        x = []
        if c.title is not None:
            x.append(self.node(c.title)[0])
        if c.info is not None:
            x += self.info(c.info)
        if c.kids and c.e.tag != 'section':
            x.append(['div', {'class': 'toc'}, [['p', {}, [['b', {}, ['Table of contents']]]]] + self.toc(c, 1, True)])
        own = []
        for e in c.own:
            own += [e] if isinstance(e, str) else self.node(e)
        if c.e.tag == 'section':
            return x + [['div', {'id': c.id}, own]]
        return x + own

    def toc(self, c, depth, top=False):
        if not top and depth == 0 and all(k.e.tag == 'section' for k in c.kids):
            return []
        ul = []
        for k in c.kids:
            t = self.kids(k.title, True) if k.title is not None else [['i', {}, ['Untitled']]]
            li = [['a', {'href': self.where[k.id]}, t]]
            if k.kids:
                li += self.toc(k, depth - 1 if k.e.tag == 'section' and depth > 0 else depth)
            ul.append(['li', {}, li])
        return [['ul', {}, ul]]

    def info(self, e):
        def name(a):
            if a.find('personname') is not None:
                a = a.find('personname')
            return ' '.join(''.join(a.find(k).itertext()) for k in ('honorific', 'firstname', 'surname') if a.find(k) is not None)
        authors = [['h3', {'class': 'author'}, [name(a)]] for a in e.iter('author')]
        x = [['div', {'class': 'authorgroup'}, authors]] if authors else []
        for cp in e.iter('copyright'):
            t = ', '.join(''.join(y.itertext()) for y in cp.findall('year'))
            h = ', '.join(''.join(y.itertext()) for y in cp.findall('holder'))
            x.append(['p', {'class': 'copyright'}, [t + (' ' if t and h else '') + h]])
        for l in e.iter('legalnotice'):
            x.append(['div', {'class': 'legalnotice'}, self.kids(l)])
        return x

    def kids(self, e, toc=False):
        x = [e.text] if e.text else []
        for c in e:
            x += self.node(c, toc)
            if c.tail:
                x.append(c.tail)
        return x

    def footnote(self, f, label):
        mark = ['a', {'href': self.target(self.path, f.get('id')) if f.get('id') else 'FN'}, [['sup', {}, [label]]]]
        x = [f.text] if f.text else []
        todo = [mark, ' ']
        if f.text and f.text.strip():
            x = todo + x
            todo = None
        for c in f:
            n = self.node(c)
            if todo:
                if n:
                    n[0][2] = todo + n[0][2]
                else:
                    x = todo + x
                todo = None
            x += n
            if c.tail:
                x.append(c.tail)
        return x + (todo or [])

    def link(self, url):
        if url.startswith('boost:'):
            u = url[6:]
            u = u[1:] if u.startswith('/') else u
            return self.opts['boost'] + u
        if is_url(url):
            return url
        if url.startswith('#'):
            return self.target(self.path, url[1:])
        return follow(url, 'x', self.out)

    def node(self, e, toc=False):
        t = e.tag
        a = {} if toc or e.get('id') is None else {'id': e.get('id')}
        role = e.get('role') or ''
        kids = lambda: self.kids(e, toc)
        if t in TAGS:
            return [[TAGS[t], a, kids()]]
        if t in CLASSES:
            return [[CLASSES[t], dict(a, **{'class': t}), kids()]]
        if t == 'sidebar':
            return [['div', dict(a, **{'class': 'blurb' if role == 'blurb' else 'sidebar'}), kids()]]
        if t == 'sbr':
            return [['br', a, []]]
        if t == 'bridgehead':
            m = re.match(r'sect([1-6])$', e.get('renderas') or '')
            return [['h' + (m.group(1) if m else '3'), a, kids()]]
        if t == 'ulink':
            return [['a', dict(a, href=self.link(e.get('url'))), kids()]]
        if t == 'link':
            w = self.where.get(e.get('linkend'))
            return [['a', dict(a, href=w) if w else a, kids()]]
        if t in ('phrase', 'para'):
            return [['span' if t == 'phrase' else 'p', dict(a, **{'class': role}) if role else a, kids()]]
        if t == 'emphasis':
            if not role:
                return [['span', dict(a, **{'class': 'emphasis'}), [['em', {}, kids()]]]]
            if role in ('bold', 'strong'):
                return [['span', dict(a, **{'class': role}), [['strong', {}, kids()]]]]
            return [['span', dict(a, **{'class': role}), kids()]]
        if t == 'inlinemediaobject':
            return [['span', {'class': 'inlinemediaobject'},
                     [['img', dict(a, src=self.link(e.find('imageobject/imagedata').get('fileref')), alt='[]'), []]]]]
        if t == 'variablelist':
            # the title isn't shown
            x = []
            for v in e.findall('varlistentry'):
                for k, h in (('term', 'dt'), ('listitem', 'dd')):
                    y = v.find(k)
                    x.append([h, {'id': y.get('id')} if y.get('id') else {}, self.kids(y, toc)])
            return [['dl', a, x]]
        if t in ('table', 'informaltable'):
            x = []
            c = e.find('title')
            if c is not None:
                x.append(['caption', {'id': c.get('id')} if c.get('id') else {}, self.kids(c, toc)])
            for k, cell in (('thead', 'th'), ('tbody', 'td')):
                p = e.find('tgroup/' + k)
                if p is not None:
                    x.append([k, {}, [['tr', {}, [[cell, {}, self.kids(c, toc)] for c in row.findall('entry')]] for row in p.findall('row')]])
            return [['div', dict(a, **{'class': t}), [['table', {}, x]]]]
        if t == 'callout':
            n, to = self.numbers.get(e.get('id')), self.where.get(self.marks.get(e.get('id')))
            p = self.picture('callouts/%d.png' % n, '(%d)' % n)
            return [['div', a, [['a', {'href': to}, [p]], ' '] + kids()]]
        if t == 'co':
            n, to = self.numbers.get(e.get('linkends')), self.where.get(e.get('linkends'))
            return [['a', {'href': to}, [self.picture('callouts/%d.png' % n, '(%d)' % n)]]]
        if t == 'footnote':
            if toc:
                return []
            self.notes += 1
            label = '[%d]' % self.notes
            self.footnotes.append((e, label))
            return [['a', {'id': e.get('id') or 'FN', 'href': 'FN'}, [['sup', {'class': 'footnote'}, [label]]]]]
        return kids()


# ------------------------------------------------------------------ comparison

def tidy(n, pre=False):
    """White space around blocks does not count, runs of it elsewhere are one space"""
    tag, at, ch = n
    pre = pre or tag == 'pre'
    out = []
    for c in qdoc.merge([c for c in ch if c != '']):
        out.append(c if isinstance(c, str) else tidy(c, pre))
    if not pre:
        res = []
        blk = lambda x: not isinstance(x, str) and x[0] in BLOCK
        for k, c in enumerate(out):
            if isinstance(c, str):
                c = re.sub(r'[ \t\r\n]+', ' ', c)
                if (k == 0 and tag in BLOCK) or (k and blk(out[k - 1])):
                    c = c.lstrip(' ')
                if (k + 1 == len(out) and tag in BLOCK) or (k + 1 < len(out) and blk(out[k + 1])):
                    c = c.rstrip(' ')
                if not c:
                    continue
            res.append(c)
        out = res
    return [tag, at, out]


def actual(n, page, out):
    """An element of the output with its links followed"""
    if isinstance(n, str):
        return n
    at = dict(n[1])
    for k in ('href', 'src'):
        if k in at:
            at[k] = 'FN' if re.match(r'#footnote-\d+$', at[k]) else follow(at[k], page, out)
    if re.match(r'footnote-\d+$', at.get('id', '')):
        at['id'] = 'FN'
    return [n[0], at, [actual(c, page, out) for c in n[2]]]


def mark_notes(n):
    if not isinstance(n, str):
        if re.match(r'footnote-\d+$', n[1].get('id', '')):
            n[1]['id'] = 'FN'
        if re.search(r'#footnote-\d+$', n[1].get('href', '')):
            n[1]['href'] = 'FN'
        for c in n[2]:
            mark_notes(c)
    return n


def each(n):
    yield n
    for c in n[2]:
        if not isinstance(c, str):
            for x in each(c):
                yield x


def words(n):
    return n if isinstance(n, str) else ''.join(words(c) for c in n[2])


# ------------------------------------------------------------------ documents

def document(i, r, v):
    """Source files of a document, placeholder links in it"""
    inline = [k for k in qdoc.INLINE]
    g = qdoc.Gen(r, v, inline=inline, block=[b for b in qdoc.BLOCK if b not in ('cblock', 'section', 'soup')])
    g.links = ['zzlink%dzz' % k for k in range(40)]
    n = [0]

    def num():
        n[0] += 1
        return n[0]
    files = {}

    def sections(depth, lo=0):
        s = ''
        for _ in range(r.choice([lo, 1, 1, 2, 3]) if depth < 4 else 0):
            k = num()
            t = 'Title%d' % k
            x = r.random()
            if x < .1:
                t += ' [footnote note%d]' % k
            elif x < .2:
                t += " [*bold%d] `code`" % k
            elif x < .3 and v >= 106:
                t += ' [link zzlink%dzz text%d]' % (r.randint(0, 39), k)
            elif x < .36:
                t += ' [#%s] more' % r.choice(['footnote-%d' % r.randint(1, 5), 'in.title%d' % k])
            s += '[section%s %s]\n\n%s\n\n%s[endsect]\n\n' % (r.choice([':s%d' % k, ':s%d' % k, ':index%d' % k, '']), t, body(), sections(depth + 1))
        return s

    def extra():
        k = num()
        x = r.random()
        if x < .25:
            return '[#%s]anchored%d text' % (r.choice(['anc%d', 'anc%d', 'a.n.c%d', 'footnote-%d']) % k, k)
        if x < .6:
            return ' '.join('[link zzlink%dzz text%d]' % (r.randint(0, 39), k) for _ in range(r.randint(1, 4)))
        if x < .8:
            return ' '.join('[@%s url%d]' % (r.choice(['http://x.org/a%d', 'mailto:m%d@x.org', '/abs/%d.html', 'rel%d.html', '../up%d.html', 'd/e%d.html#f',
                                                       'dir/rel%d.html', '#frag%d', 'boost:/libs/x%d.html', 'boost:doc%d.html', 'https://h/%d?a=b&c=d',
                                                       './same%d.html', 'a.html?x=http://y/%d', 'http:%d']) % k, k) for _ in range(r.randint(1, 3)))
        if x < .88:
            return '[$%s]' % (r.choice(['img/p%d.png', 'http://x/p%d.png', '../p%d.jpg', '/p%d.gif']) % k)
        if snips and v >= 105:
            return '[%s]' % r.choice(snips)
        return 'Footnote[footnote in%d] and[footnote in%d again[footnote nested%d]].' % (k, k, k) if v >= 106 else 'x[footnote n%d]' % k
    snips = []
    src = ''
    if v >= 105 and r.random() < .4:
        s = ''
        for k in range(r.randint(1, 2)):
            k = num()
            snips.append('snip%d' % k)
            s += '//[snip%d\n' % k
            for _ in range(r.randint(1, 4)):
                s += 'int v%d; /*< callout%d %s >*/\n' % (num(), num(), r.choice(['', '[*bold]', '[link zzlink%dzz x]' % r.randint(0, 39)]))
                if r.random() < .4:
                    s += 'x = "<&>";\n'
            s += '//]\n'
        files['s.cpp'] = s

    def body(m=2):
        s = ''
        for _ in range(r.randint(0, m)):
            s += (g.blocks(1)[0] if r.random() < .6 else extra()) + '\n\nText between.\n\n'
        return s
    imp = '[import s.cpp]\n\n' if snips else ''
    ids = []

    def info():
        s = ''
        if r.random() < .3:
            s += '[authors %s]\n' % ', '.join('[Sur%d, First%d]' % (num(), num()) for _ in range(r.randint(1, 3)))
        for _ in range(r.choice([0, 0, 0, 1, 2])):
            s += '[copyright %s Holder%d]\n' % (' '.join(str(2000 + y) for y in sorted(r.sample(range(20), r.randint(1, 3)))), num())
        if r.random() < .2:
            s += '[license Legal%d text%s [@http://l.org/ here]%s]\n' % (num(), r.choice(['', ' [#legal%d]anchored' % num(), ' [#footnote-%d]anchored' % r.randint(1, 4)]) if v >= 106 else '',
                                                                              r.choice(['', '', ' [link zzlink%dzz linked]' % r.randint(0, 39)]))
        return s

    def part(kind, depth):
        k = num()
        i = r.choice(['p%d', 'p%d', 'dir.p%d', 'a.b.p%d', 'a.p%d', 'dir.sub.p%d', 'index.p%d', 'p_%d', 'P-%d', ''])
        i = i % k if i else r.choice([x for x in ['index', 'same.x', 'same/x', 'same.x-2', 'main/title', 'x%d' % k] if x not in ids and (v < 107 or '/' not in x)])
        ids.append(i)
        f = 'f%d.qbk' % k
        s = '[%s Part%d %s\n[quickbook 1.%d]\n[id %s]\n%s]\n\n%s%s' % (kind, k, r.choice(['', '', 'more', "with 'marks'"]), v - 100, i, info(), imp, body(3))
        kids = r.choice([0, 0, 1, 2]) if depth < 3 else 0
        first = r.random() < .6
        if first:
            s += sections(1)
        for _ in range(kids):
            s += '[include %s]\n\n' % part(r.choice(['chapter', 'article', 'appendix', 'part', 'preface']), depth + 1)
        if not first:
            s += sections(1)
        files[f] = s
        return f
    kind = r.choice(['book', 'book', 'article', 'library', 'chapter', 'part']) if i % 2 else r.choice(['article', 'library', 'book', 'chapter'])
    src = '[%s Main%d\n[quickbook 1.%d]\n[id main]\n%s%s]\n\n%s%s' % (kind, i, v - 100, '[dirname d]\n' if kind == 'library' else '', info(), imp, body(3))
    first = r.random() < .7
    if first:
        src += sections(0)
    if v >= 106:
        for _ in range(r.choice([0, 1, 2, 3])):
            src += '[include %s]\n\n' % part(r.choice(['chapter', 'chapter', 'part', 'article', 'appendix', 'preface']), 1)
    if not first:
        src += sections(0)
    files['main.qbk'] = src
    return files, g.used


def case(i):
    r = random.Random('c17 %s %s' % (CFG['seed'], i))
    v = [107, 107, 106, 107, 105, 106, 107, 104][i % 8]
    files, used = document(i, r, v)
    d = vlib.fresh_dir()
    w = os.path.join(d, 'w')
    os.makedirs(w)
    vlib.write_tree(w, files)
    o = lambda n: os.path.join(d, n)
    args = ['main.qbk']
    bad = lambda k, m: (v, files, used, [a.replace(d, '.') for a in args], (k, m))
    p = vlib.run_qb(CFG['exe'], ['main.qbk', '--no-pretty-print', '--no-self-linked-headers', '--output-file=' + o('o1.xml')], w)
    if p.timeout:
        return v, files, used, args, 'timeout'
    if p.rc:
        return bad('refused', 'status %s: %s' % (p.rc, p.text[-300:]))
    doc = qdoc.parse_xml(open(o('o1.xml'), 'rb').read())
    ids = [e.get('id') for e in doc.iter() if e.get('id') and e.tag not in ('legalnotice', 'co')]
    to = [r.choice(ids) for _ in range(40)]
    to[39] = 'nowhere'
    files = {k: re.sub(r'zzlink(\d+)zz', lambda m: to[int(m.group(1))], x) for k, x in files.items()}
    vlib.write_tree(w, files)
    p = vlib.run_qb(CFG['exe'], ['main.qbk', '--no-pretty-print', '--no-self-linked-headers', '--output-file=' + o('o2.xml')], w)
    if p.timeout:
        return v, files, used, args, 'timeout'
    if p.rc:
        return bad('refused', 'status %s: %s' % (p.rc, p.text[-300:]))
    doc = qdoc.parse_xml(open(o('o2.xml'), 'rb').read())
    ids = [e.get('id') for e in doc.iter() if e.get('id')]
    if len(set(ids)) != len(ids):
        # two places of one name: not what this is about
        return v, {}, {}, [], None
    # HTML
    chunked = r.random() < .65
    where = r.choice(['out', 'out', 'w', 'a/b', 'index'])
    os.makedirs(o(where) if not chunked else posixpath.dirname(o(where)), exist_ok=True)
    opts = {'boost': 'http://www.boost.org/doc/libs/release/'}
    args = ['main.qbk', '--output-format=' + ('html' if chunked else 'onehtml')]
    home = 'index.html' if chunked else r.choice(['o.html', 'index.html', 'page.htm'])
    rel = r.random() < .5
    spell = lambda p: os.path.relpath(p, w) if rel else p
    args.append('--output-dir=' + spell(o(where)) if chunked else '--output-file=' + spell(o(where + '/' + home)))
    out = o(where)
    pretty = r.random() < .3
    if not pretty:
        args.append('--no-pretty-print')

    def location(name):
        if r.random() < .3:
            u = r.choice(['http://x.org/%s', 'https://y/z/%s', 'file:///q/%s']) % name
            return u + '/' * ('.' not in name), u
        p = posixpath.join(d, r.choice(['res', 'w', where, where + '/res', 'out', 'elsewhere/deep', '../beside']), name)
        return spell(p), posixpath.normpath(p)
    if r.random() < .4:
        given, root = location('boostroot')
        args.append('--boost-root-path=' + given)
        opts.update(boost=root + '/', css=root + '/doc/src/boostbook.css', graphics=root + '/doc/src/images')
    if r.random() < .4:
        given, opts['css'] = location('style.css')
        args.append('--css-path=' + given)
    if r.random() < .4:
        given, opts['graphics'] = location('pics')
        args.append('--graphics-path=' + given)
    p = vlib.run_qb(CFG['exe'], args, w)
    if p.timeout:
        return v, files, used, args, 'timeout'
    if p.rc:
        return bad('refused', 'HTML: status %s: %s' % (p.rc, p.text[-300:]))
    model = Model(doc, home, chunked, out, opts)
    found = set()
    for base, dirs, fs in os.walk(out):
        found |= set(os.path.relpath(os.path.join(base, f), out) for f in fs if f.endswith(('.html', '.htm')))
    if found != set(model.pages):
        return bad('pages', 'wrote %s, expected %s' % (sorted(found), sorted(model.pages)))
    used['page'] = len(found)
    # the pages
    pages, seen = {}, {}
    for f in sorted(found):
        raw = open(os.path.join(out, f), 'rb').read().decode('utf8')
        if not raw.startswith('<!DOCTYPE html>\n'):
            return bad('page', '%s: starts with %r' % (f, raw[:40]))
        top, problem = read_html(raw)
        top = [n for n in top if not isinstance(n, str) or n.strip()]
        if problem or len(top) != 1 or top[0][0] != 'html':
            return bad('page', '%s: %s' % (f, problem or 'elements %s' % top))
        pages[f] = top[0]
        seen[f] = [n[1]['id'] for n in each(top[0]) if 'id' in n[1]]
    # links
    sections = set(c.id for c in model.root.walk())
    links = {}
    for f, n in pages.items():
        x = [k for k in set(seen[f]) if seen[f].count(k) > (2 if k in sections else 1)]
        if x:
            return bad('ids', '%s: id %s several times' % (f, x[0]))
        for e in each(n):
            for k in ('href', 'src'):
                if k in e[1]:
                    t = follow(e[1][k], f, out)
                    if k == 'href' and e[0] == 'a' and not is_url(e[1][k]):
                        links.setdefault(f, []).append((t, e))
    known = set(model.where.values()) | set(model.target(f, '') for f in found)
    outside = set(model.link(e.get('url')) for e in doc.iter('ulink'))
    for f in model.pages:
        model.path = f
        outside |= set(model.link(e.get('url')) for e in doc.iter('ulink'))
    marks = set(e.get('id') for e in doc.iter('co'))
    for f, ls in links.items():
        for t, e in ls:
            back = e[1]['href'][1:] in marks
            used['link followed'] = used.get('link followed', 0) + 1
            file, frag = (t.split('#', 1) + [''])[:2]
            file = os.path.relpath(file, out)
            if file in pages and (not frag or frag in seen[file]):
                continue
            if t in outside:
                continue
            if back and frag == e[1]['href'][1:]:
                used['callout marks without an id'] = 1
                continue
            return bad('link', '%s: %s (%s) leads to %s, which %s' % (f, words(e), e[1]['href'], t.replace(d, ''),
                                                                   'has no such id' if file in pages else 'was not written'))
    # footnotes: mark and note lead to each other
    for f, n in pages.items():
        marks = [e for e in each(n) if e[0] == 'a' and any(not isinstance(c, str) and c[0] == 'sup' for c in e[2])]
        notes = dict((e[1].get('id'), e) for e in each(n) if e[0] == 'div' and e[1].get('class') == 'footnote')
        fwd = [e for e in marks if 'id' in e[1]]
        back = dict((e[1]['href'], e) for e in marks if 'id' not in e[1])
        for e in fwd:
            used['footnote'] = used.get('footnote', 0) + 1
            note = notes.get(e[1]['href'][1:])
            b = back.get('#' + e[1]['id'])
            if note is None or b is None or words(b) != words(e) or not any(x is b for x in each(note)):
                return bad('footnote', '%s: footnote %s' % (f, words(e)))
        if len(notes) != len(fwd):
            return bad('footnote', '%s: %d marks, %d notes' % (f, len(fwd), len(notes)))
    # every page can be reached
    reached, todo = set(), [home]
    while todo:
        f = todo.pop()
        if f in reached:
            continue
        reached.add(f)
        for t, e in links.get(f, []):
            x = os.path.relpath(t.split('#')[0], out)
            if x in pages:
                todo.append(x)
    if reached != set(pages):
        return bad('reached', 'no way to %s' % sorted(set(pages) - reached))
    # the content
    for f, want in model.pages.items():
        exp = tidy(['body', {}, want])
        got = pages[f]
        kids = [c for c in got[2] if not isinstance(c, str) or c.strip()]
        if [k[0] for k in kids] != ['head', 'body']:
            return bad('page', '%s: %s' % (f, [k[0] for k in kids]))
        head = [c for c in actual(kids[0], f, out)[2] if not isinstance(c, str) or c.strip()]
        css = [['link', {'rel': 'stylesheet', 'type': 'text/css', 'href': opts['css']}, []]] if 'css' in opts else []
        if head != css:
            return bad('head', '%s: %s, expected %s' % (f, head, css))
        x = qdoc.diff(mark_notes(exp), mark_notes(tidy(actual(kids[1], f, out))))
        if x:
            return bad('content', '%s%s: %s' % (f, ' (pretty)' if pretty else '', str(x).replace(d, '')))
    used['chunked' if chunked else 'one page'] = 1
    used['nowhere'] = p.text.count('link not found')
    return v, files, used, args, None


def run():
    C = vlib.Check('C17', 'a distinct document written as HTML')
    CFG.update(exe=vlib.build('fast'), seed=C.seed)
    C.minimum = 100
    for v, files, used, args, b in vlib.pmap(case, range(C.n(1300, 40000))):
        if b == 'timeout':
            C.unsure('timeout')
            continue
        if not files:
            C.count('skipped')
            continue
        C.observe(repr(sorted(files.items())) + repr(args), True)
        C.count('quickbook 1.%d documents' % (v - 100))
        for k, x in used.items():
            C.count(k, x)
        if used.get('callout marks without an id'):
            C.bad(vlib.Bad('callout-mark-without-id', 'the number of a callout leads to the id of its mark in the code, which is not in the page', files, args))
        if b:
            C.bad(vlib.Bad(b[0], 'quickbook 1.%d: %s' % (v - 100, b[1]), files, args))
    return C.finish()


if __name__ == '__main__':
    vlib.main(run)
