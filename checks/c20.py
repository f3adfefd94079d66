#!/usr/bin/env python3
"""C20: links and images point where the author wrote.

Documents whose links, references, anchors, images and xincludes have hostile targets and attributes; the targets in the output are
read with an XML parser and compared with what was written (decoded by a separate percent decoder), in document order.
"""
import os, random, re, sys, posixpath
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vlib, qdoc
from qdoc import XI
CFG = {}

# characters partial escaping must not change: RFC 3986 unreserved and the delimiters links depend on
KEEP = set("-_.!~*'()?/:&=#+")
# allowed in URIs, but quickbook has always encoded some of them and they mean the same to almost everybody; encoded or not is accepted
EITHER = set(',;@$\\')
HEX = '0123456789abcdefABCDEF'


def unquote(s):
    """Percent decoding to bytes; a % without two hex digits is an error in an URI."""
    b, out, i = s.encode('utf-8'), bytearray(), 0
    while i < len(b):
        if b[i] == 37 and i + 2 < len(b) and chr(b[i + 1]) in HEX and chr(b[i + 2]) in HEX:
            out.append(int(b[i + 1:i + 3], 16))
            i += 3
        else:
            out.append(b[i])
            i += 1
    return bytes(out)


def uri_regex(t, keep=KEEP, percent=True):
    """A regular expression for the forms the target t may have in the output."""
    out, i = [], 0
    for i, c in enumerate(t):
        enc = ''.join('%%(?i:%02x)' % b for b in c.encode('utf-8'))
        if c == '%':
            ok = percent and i + 2 < len(t) and t[i + 1] in HEX and t[i + 2] in HEX
            out.append('%' if ok else enc)
        elif c.isascii() and c.isalnum() or c in keep:
            out.append(re.escape(c))
        elif c in EITHER:
            out.append('(?:%s|%s)' % (re.escape(c), enc))
        else:
            out.append(enc)
    return ''.join(out)


class Links(qdoc.Gen):
    def __init__(self, r, v, **k):
        super(Links, self).__init__(r, v, **k)
        self.urls, self.svgs, self.quiet = [], {}, True
        self.absent = set()
        self.attr = {}

    # ---- targets
    def spell(self, c, where):
        """How the character c is written in an attribute value from 1.6 on"""
        r = self.r
        if c == '\\':
            return '\\\\'
        if c in '[]' or c in "'" and where != 'free':
            return '\\' + c
        if not c.isascii() and r.random() < .3:
            self.use('unicode escape in a target')
            return '\\u%04x' % ord(c) if ord(c) < 65536 else '\\U%08X' % ord(c)
        if not c.isalnum() and c.isascii() and c != ' ' and r.random() < .12:
            self.use('escaped character in a target')
            return '\\' + c
        return c

    def target(self, kind, words=None):
        """(source, value)"""
        r = self.r
        parts = []
        chars = "-_.!~*'()?/:&=#%+" * 2 + ',;@${}|^"<>`'
        if kind == 'path':
            chars = "-_.!~*'()&=+,;@${}^\"<>`#%"
        if self.v >= 106:
            chars += '[]'
            if kind == 'url':
                chars += '\\'
        elif not self.nested_:
            chars += '\\' if kind == 'url' else ''
        if kind == 'ref':
            chars = '::::()<>&,*=~!+-^%|#"/.'
        for i in range(r.randint(1, 5)):
            if kind == 'ref':
                parts.append(self.w())
                parts.append(r.choice(['::', '::', r.choice(chars), 'operator<<', '<T&>', '(a,b)']))
            else:
                parts.append(self.w()[:r.choice([2, 4, 9])])
                parts.append(r.choice([r.choice(chars), r.choice(chars) + r.choice(chars), '%20', '%C3%a9', '%2', '%zz', '%25', '%' + r.choice(HEX) + r.choice(HEX), '%' + r.choice(HEX + 'gG/') + r.choice(HEX + 'gG:'), '?a=b&c=d', '/../', '/']))
            if r.random() < .1:
                parts.append(r.choice(qdoc.UNI).replace(' ', ''))
        t = ''.join(parts[:-1]) if r.random() < .7 else ''.join(parts)
        if kind == 'url':
            t = r.choice(['http://%s', 'https://h.org/%s', 'http://h/%s', 'mailto:%s@x.org', 'boost:%s', '%s', '../%s', '#%s', 'ftp://u:p@h/%s']) % t
        if kind == 'path':
            t = t.lstrip('/')
            t = re.sub(r'/+', '/', t)
        # what starts something else within values
        while "'''" in t or '[/' in t:
            t = t.replace("'''", "''").replace('[/', '[')
        if self.v < 106:
            src = t
        else:
            src = ''
            for j, c in enumerate(t):
                src += self.spell(c, 'free')
            if r.random() < .06:
                k = r.randrange(len(src))
                if src[k - 1] != '\\' and not re.search(r'\\[uU]?[0-9a-fA-F]*$', src[:k]):
                    src = src[:k] + '\\ ' + src[k:]
                    self.use('escaped space in a target')
        if self.v >= 107 and kind != 'path' and self.attr and r.random() < .2:
            n = r.choice(sorted(self.attr))
            s, e = self.attr[n](self)
            k = r.choice([0, len(src)])
            if not (k and src[-1] == '\\'):
                src, t = (s + src, e + t) if not k else (src + s, t + e)
                self.use('template in a target')
        return src, t

    nested_ = False

    def sep(self):
        return self.r.choice([' ', ' ', '  ', '\n' if not self.in_list and not getattr(self, 'one_line', False) else ' '])

    def i_url(self, d):
        s, t = self.target('url')
        e = ['ulink', {'url': ('uri', t)}, []]
        self.use('url')
        if self.r.random() < .3:
            self.urls.append(('ulink', 'url', t, True))
            return '[@%s]' % s, [['%url', {}, []]]
        self.urls.append(('ulink', 'url', t, False))
        x, y = self.inl(self.r.randint(1, 3), d + 1, ('text', 'special', 'emph', 'code', 'image'))
        return '[@%s%s%s]' % (s, self.sep(), x), [['ulink', {}, y]]

    def i_link(self, d):
        r = self.r
        i = ''.join(r.choice('abcXYZ019_.-') for _ in range(r.randint(1, 9)))
        s = i
        if self.v < 107 and r.random() < .4:
            s = i = i + r.choice(':/&"<>#%+=~*()') + self.w()
        elif self.v >= 106 and r.random() < .2:
            s = re.sub(r'([_.-])', lambda m: '\\' + m.group(1), i)
        self.use('link')
        if r.random() < .3:
            return '[link %s]' % s, [['link', {'linkend': i}, [i]]]
        x, y = self.inl(r.randint(1, 3), d + 1, ('text', 'special', 'emph', 'code', 'image'))
        return '[link %s%s%s]' % (s, self.sep(), x), [['link', {'linkend': i}, y]]

    def i_ref(self, d):
        k, name = self.r.choice(qdoc.REFS)
        s, t = self.target('ref')
        self.use(k)
        if self.r.random() < .4:
            return '[%s %s]' % (k, s), [[name, {'alt': t}, [t]]]
        x, y = self.inl(self.r.randint(1, 2), d + 1, ('text', 'emph', 'special'))
        return '[%s %s%s%s]' % (k, s, self.sep(), x), [[name, {'alt': t}, y]]

    def value(self, alt=False):
        """An image attribute's (source, value)"""
        r = self.r
        out, t = '', ''
        for _ in range(r.randint(1, 3)):
            c = r.choice([self.w, self.w, lambda: '%d%s' % (r.randint(1, 99), r.choice(['px', 'in', '%', '', 'em'])), lambda: r.choice('&<>"\'`*/_=#@;,')
                          + self.w(), lambda: r.choice(qdoc.UNI)])()
            if t:
                out += ' '
                t += ' '
            if self.v >= 106 and r.random() < .15:
                k = r.choice('[]\\')
                out += '\\' + k
                t += k
            for ch in c:
                out += self.spell(ch, 'free') if self.v >= 106 else ch
            t += c
        return out, t

    def i_image(self, d):
        r = self.r
        self.use('image')
        at, kids, src = {}, [], ''
        ext = r.choice(['png', 'jpg', 'gif', 'x.png', 'svg', 'svg', '', 'SVG', 'tar.gz'])
        s, t = self.target('path')
        if self.v >= 105 and r.random() < .2:
            w = self.w()
            sp = r.choice([' ', '  '])
            s, t = s + sp + w, t + sp + w
            self.use('space in an image path')
        elif self.v < 105 and r.random() < .2:
            w = self.w()
            s, t = s + ' ' + w, t + ' ' + w
        if '"' in t and ext == 'svg' or t.startswith('/'):
            ext = 'png'
        if ext:
            s, t = s + '.' + ext, t + '.' + ext
        at['fileref'] = t
        if self.v >= 105:
            names = ['width', 'height', 'scale', 'align', 'depth', 'format', 'contentwidth', 'contentdepth', 'role_', 'x1', 'alt', 'scalefit', '_a']
            if r.random() < .15 and r.random() < .5:
                names += names[:5]
            seen = {}
            for k in r.sample(names, r.choice([0, 1, 1, 2, 3, 5])):
                a, b = self.value(k == 'alt')
                if k in seen:
                    self.quiet = False
                    self.use('repeated image attribute')
                else:
                    seen[k] = b
                    self.use('image attribute')
                src += r.choice([' ', '', '\n' if not self.in_list and not getattr(self, 'one_line', False) else ' ']) + '[%s%s%s]' % (k, r.choice([' ', '  ']), a)
            at.update(seen)
        alt = at.pop('alt', None)
        if ext == 'svg':
            at = dict({'format': 'SVG'}, **at)
            w, h = self.svg(t)
            if w is not None:
                at.setdefault('contentwidth', w)
            if h is not None:
                at.setdefault('contentdepth', h)
        kids = [['imageobject', {}, [['imagedata', at, []]]]]
        if alt is not None:
            self.use('alt text')
            kids.append(['textobject', {}, [['phrase', {}, [alt]]]])
        elif self.v < 106:
            base = re.sub(r'.*/', '', t)
            kids.append(['textobject', {}, [['phrase', {}, [base.rsplit('.', 1)[0] if '.' in base else base]]]])
        return '[$%s%s%s]' % (r.choice(['', '', ' ']) if self.v >= 105 else '', s, src), [['inlinemediaobject', {}, kids]]

    def svg(self, t):
        r = self.r
        p = posixpath.normpath('html/' + t)
        if p in self.svgs and '..' not in t:
            return self.svgs[p][1:]
        if p in self.absent or r.random() < .25 or '..' in t or any(len(c.encode()) > 200 for c in p.split('/')) or \
                any(a.startswith(p + '/') or p.startswith(a + '/') for a in self.svgs):
            self.absent.add(p)
            return None, None
        self.use('svg file')
        dim = lambda: r.choice(['%d', '%dpx', '%dcm', '%d%%', '%d.5']) % r.randint(1, 900)
        w, h = [dim() if r.random() < .8 else None for _ in 'wh']
        at = [('xmlns', 'http://www.w3.org/2000/svg'), ('viewBox', '0 0 10 20'), ('version', '1.1'), ('id', 's1')]
        at += [('enable-background', 'new 0 0 8 8'), ('stroke-width', '3'), ('line-height', '7'), ('class', 'width height'), ('x', '1')]
        at = r.sample(at, r.randint(0, 4))
        if w is not None:
            at.insert(r.randint(0, len(at)), ('width', w))
        if h is not None:
            at.insert(r.randint(0, len(at)), ('height', h))
        q = lambda: r.choice('""""\'')
        body = ''
        for k, x in at:
            c = q()
            body += r.choice([' ', '\n  ', ' ']) + k + r.choice(['=', '=', '=', ' = ']) + c + x + c
        s = r.choice(['', '<?xml version="1.0" encoding="UTF-8" standalone="no"?>\n', '<?xml version="1.0"?>\n<!-- width="3" -->\n'])
        s += r.choice(['', '<!DOCTYPE svg PUBLIC "-//W3C//DTD SVG 1.1//EN" "http://www.w3.org/G/SVG/1.1/DTD/svg11.dtd">\n'])
        s += '<svg%s>\n<rect width="5" height="6"/>\n</svg>\n' % body
        if w is None:
            self.use('svg without a width')
        self.svgs[p] = (s, w, h)
        return w, h

    def b_image(self, d):
        s, e = self.i_image(d)
        return s, [['para', {}, e]]


def strip(n):
    """Expected/actual tree without urls, which are compared separately."""
    if isinstance(n, str):
        return n
    if n[0] == 'ulink':
        at = {k: v for k, v in n[1].items() if k != 'url'}
        if n[1].get('url', '') == (n[2][0] if len(n[2]) == 1 and isinstance(n[2][0], str) else None):
            return ['%url', at, []]
        return [n[0], at, [strip(c) for c in n[2]]]
    return [n[0], n[1], [strip(c) for c in n[2]]]


def urls(root):
    return [(e.get('url'), ''.join(e.itertext())) for e in root.iter('ulink')]


def case(i):
    r = random.Random('c20 %s %s' % (CFG['seed'], i))
    v = [105, 106, 107, 107, 106, 105, 104, 103, 102, 101][i % 10]
    inl = {'text': 1, 'url': 3, 'link': 1.5, 'ref': 1.5, 'image': 3, 'emph': 1, 'special': .3, 'footnote': .3, 'role': .3, 'code': .2, 'anchor': .5}
    blk = {'para': 5, 'list': .6, 'table': .4, 'admon': .5, 'blurb': .2, 'xlist': .3, 'quote': .2, 'varlist': .3, 'heading': .3}
    g = Links(r, v, inline=inl, block=blk)
    if v < 105:
        # no escapes in values
        g.nested_ = True
    defs = ''
    if v >= 107:
        defs = '[template base[] http://b.org/p]\n[template two[x y] [x]~[y]]\n[template deep[x] [two [x] [base]]]\n\n'
        g.attr = {'base': lambda g: ('[base]', 'http://b.org/p'),
                  'two': lambda g: (lambda a, b: (r.choice(['[two %s..%s]', '[two %s %s]']) % (a, b), a + '~' + b))(g.w(), g.w()),
                  'deep': lambda g: (lambda a: ('[deep %s]' % a, a + '~http://b.org/p'))(g.w())}
    body, exp = g.blocks(r.randint(3, 9))
    head = '[article T\n[quickbook 1.%d]\n[id dd]\n]\n\n' % (v - 100)
    d = vlib.fresh_dir()
    files = {'m.qbk': head + defs + body + '\n'}
    for p, x in g.svgs.items():
        files[p] = x[0]
    vlib.write_tree(d, files)
    args = ['m.qbk', '--output-file=o.xml', '--no-pretty-print']
    p = vlib.run_qb(CFG['exe'], args, d)
    g.used['urls'] = len(g.urls)
    bad = lambda m, k='link': (v, files, g.used, args, (k, m))
    if p.timeout:
        return v, files, g.used, args, 'timeout'
    if p.rc != 0:
        return bad('status %s: %s' % (p.rc, p.text[-300:]), 'refused')
    if g.quiet and 'warning' in re.sub('warning: in column:.*unexpected character', '', p.text):
        return bad('diagnostics: %s' % p.text[-300:], 'diagnostic')
    data = open(os.path.join(d, 'o.xml'), 'rb').read()
    root = qdoc.parse_xml(data)
    exp = ['article', {'id': 'dd'}, [['title', {}, ['T']]] + exp]
    got = urls(root)
    want = g.urls
    if len(got) != len(want):
        return bad('%d links with %d URLs written' % (len(got), len(want)))
    # in document order: the generator makes the outer link of nested ones first, as the parser does
    for (u, t), (_, _, w, alone) in zip(got, want):
        if not re.fullmatch(uri_regex(w), u):
            return bad('url %r for %r' % (u, w))
        if alone and t not in (u, w):
            return bad('text %r of the link to %r' % (t, u))
    act = qdoc.normal(strip(qdoc.from_et(root)))
    act[1] = {k: x for k, x in act[1].items() if k == 'id'}
    m = qdoc.diff(qdoc.normal(exp), act)
    if m:
        return bad(m, 'content')
    return v, files, g.used, args, None


# ------------------------------------------------------------------------------------------ xinclude

def paths(i):
    """Relative paths of xincludes, as seen from the output file or the given base."""
    r = random.Random('c20p %s %s' % (CFG['seed'], i))
    d = vlib.fresh_dir()
    v = r.choice([105, 106, 107, 107])
    dirs = ['', 'a', 'a/b', 'c', 'c/d e', 'out', 'out/x%20', 'ü'] + (["q'&", 'p#+'] if r.random() < .5 else [])
    main_dir, out_dir = r.choice(dirs), r.choice(dirs)
    name = lambda: r.choice(['x.xml', 'y z.xml', 'w&.xml', 'n#1.xml', '100%.xml', 'é.xml', '-.xml', 'v1.2.xml', 'a+b.xml', "it's.xml", 'b~.xml', 'c;d,e.xml', 'p%20q.xml'])
    want = []

    def spell(s):
        if v >= 107:
            return ''.join('\\ ' if False else c for c in s)
        return s

    def inc(cur):
        """An xinclude written in a file of directory cur"""
        for _ in range(50):
            t, n = r.choice(dirs), name()
            if v >= 107 and (' ' in t or ' ' in n):
                continue
            rel = posixpath.relpath(posixpath.join('/r', t, n), posixpath.join('/r', cur))
            if v >= 107 and ' ' in rel:
                continue
            if r.random() < .2:
                rel = './' + rel
            elif r.random() < .2 and cur:
                rel = '../' + posixpath.basename(cur) + '/' + rel
                if v >= 107 and ' ' in rel:
                    continue
            want.append(posixpath.normpath(posixpath.join('/r', t, n)))
            return '[xinclude %s]\n\n' % rel
        want.append('/r/' + (cur + '/' if cur else '') + 'x.xml')
        return '[xinclude x.xml]\n\n'
    files = {}
    sub_dir = r.choice(dirs)
    text = '[article T\n[quickbook 1.%d]\n[id dd]\n' % (v - 100)
    base = out_dir
    args = []
    xmlbase = None
    if r.random() < .4:
        base = r.choice(dirs)
        args.append('--xinclude-base=' + (os.path.join(d, base) if r.random() < .3 else (base or '.')))
    text_base = base
    if r.random() < .35:
        b = r.choice([x for x in dirs if v < 107 or ' ' not in x])
        rel = posixpath.relpath('/r/' + b, '/r/' + main_dir)
        if not (v >= 107 and ' ' in rel):
            xmlbase = b
            text += '[xmlbase %s]\n' % rel
            base = b
    text += ']\n\n'
    serial = [0]

    def content(cur, base, depth):
        res = ''
        for _ in range(r.randint(0, 3)):
            if depth < 3 and r.random() < .4:
                serial[0] += 1
                to, n = r.choice(dirs), 's%d.qbk' % serial[0]
                rel = posixpath.relpath(posixpath.join('/r', to, n), '/r/' + cur)
                if v >= 107 and ' ' in rel:
                    continue
                head, inner = '\n', base
                if v >= 106 and r.random() < .6:
                    head = '[%s Sub\n[quickbook 1.%d]\n[id %s]\n' % (r.choice(['appendix', 'article', 'chapter']), v - 100, n[:-4])
                    if v >= 106 and r.random() < .6:
                        t = r.choice(dirs)
                        x = posixpath.relpath('/r/' + t, '/r/' + to)
                        if not (v >= 107 and ' ' in x):
                            inner = t
                            head += '[xmlbase %s]\n' % x
                            nested[0] += 1
                    head += ']\n\n'
                res += '[include %s]\n\n' % rel
                x = content(to, inner, depth + 1)
                files[posixpath.join(to, n)] = head + (x or 'Text.\n')
            else:
                res += inc(cur)
                bases.append(inner_of(base))
        return res
    nested, bases = [0], []
    inner_of = lambda b: posixpath.normpath('/r/' + b)
    text += content(main_dir, base, 0)
    files[posixpath.join(main_dir, 'm.qbk')] = text
    for t in dirs:
        os.makedirs(os.path.join(d, t), exist_ok=True)
    vlib.write_tree(d, files)
    main = posixpath.join(main_dir, 'm.qbk')
    out = posixpath.join(out_dir, 'o.xml')
    if r.random() < .3:
        main = os.path.join(d, main)
    if r.random() < .3:
        out = os.path.join(d, out)
    cwd = d
    args = [main, '--output-file=' + out] + args
    p = vlib.run_qb(CFG['exe'], args, d)
    used = {'xincludes': len(want), 'xml:base': int(xmlbase is not None), '--xinclude-base': int('--xinclude-base' in ' '.join(args))}
    bad = lambda m: (v, files, used, [a.replace(d, '.') for a in args], ('xinclude', m.replace(d, '.')))
    if p.timeout:
        return v, files, used, args, 'timeout'
    if p.rc != 0 or 'warning' in p.text:
        return bad('status %s: %s' % (p.rc, p.text[-300:]))
    root = qdoc.parse_xml(open(os.path.join(d, out_dir, 'o.xml'), 'rb').read())
    got = [e.get('href') for e in root.iter(XI + 'include')]
    if len(got) != len(want):
        return bad('%d xincludes of %d written' % (len(got), len(want)))
    xb = root.get('{http://www.w3.org/XML/1998/namespace}base')
    if (xb is None) != (xmlbase is None):
        return bad('xml:base %r for %r' % (xb, xmlbase))
    where = '/r/' + text_base
    if xb is not None:
        x = unquote(xb).decode('utf-8')
        where = posixpath.normpath(posixpath.join(where, x))
        if where.rstrip('/') != posixpath.normpath('/r/' + xmlbase):
            return bad('xml:base %r leads to %r instead of %r' % (xb, where, xmlbase))
    # the base of each of them, through the elements it is in
    real = []

    def walk(e, where):
        x = e.get('{http://www.w3.org/XML/1998/namespace}base')
        if x is not None:
            where = posixpath.normpath(posixpath.join(where, unquote(x).decode('utf-8')))
        if e.tag == XI + 'include':
            real.append(where)
        for c in e:
            walk(c, where)
    walk(root, posixpath.normpath('/r/' + text_base))
    used['xml:base of an included document'] = nested[0]
    for u, w, b, where in zip(got, want, bases, real):
        if where != b:
            return bad('xinclude of %r is resolved from %r instead of %r' % (w, where, b))
        if re.search(r'[^-A-Za-z0-9_.!~*\'()/%:?\\]', u) or re.search('%(?![0-9a-fA-F]{2})', u):
            return bad('href %r not encoded' % u)
        x = posixpath.normpath(posixpath.join(where, unquote(u).decode('utf-8')))
        if x != w:
            return bad('xinclude of %r leads to %r (href %r, base %r)' % (w, x, u, where))
    return v, files, used, [a.replace(d, '.') for a in args], None


def run():
    C = vlib.Check('C20', 'a distinct document with the targets it holds, or tree of files with xincludes')
    CFG.update(exe=vlib.build('fast'), seed=C.seed)
    C.minimum = 100
    for fn, n in ((case, C.n(8000, 60000)), (paths, C.n(2500, 15000))):
        for v, files, used, args, b in vlib.pmap(fn, range(n)):
            if b == 'timeout':
                C.unsure('timeout')
                continue
            C.observe(repr(sorted(files.items())) + repr(args), True, None)
            C.count('quickbook 1.%d documents' % (v - 100))
            for k, x in used.items():
                C.count(k, x)
            if b:
                C.bad(vlib.Bad(b[0], 'quickbook 1.%d: %s' % (v - 100, b[1]), files, args))
    return C.finish()


vlib.main(run)
