#!/usr/bin/env python3
"""C19: document information.

Headers are generated together with what a reference header writer makes of them: for the main file, and for documents it includes.
"""
import os, random, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vlib, qdoc
CFG = {}
TYPES = ['article', 'book', 'library', 'chapter', 'part', 'appendix', 'preface', 'qandadiv', 'qandaset', 'reference', 'set']
MODES = {'c++': ('int', 'keyword'), 'python': ('def', 'keyword'), 'teletype': ('int', None)}


class Header(object):
    def __init__(self, r, v, main, macros, main_v=None, include_id=None):
        self.r, self.v, self.main, self.macros = r, v, main, macros
        self.n, self.used = 0, {}
        self.tag = r.choice('abcdefgh') + ('m' if main else 'i')
        self.include_id = include_id
        self.root = {}                 # attributes
        self.info = []                 # (tag, node) in order for each tag
        self.duplicates, self.invalid, self.unknown, self.before_unknown = set(), [], [], False
        self.assumed = False
        self.reversed = []
        self.g = qdoc.Gen(r, v, inline={'text': 4, 'emph': 1, 'special': 1, 'code': .5, 'url': .4, 'simple': .5, 'bslash': .5, 'escape': .3})
        self.src = self.make()

    def use(self, k):
        self.used[k] = self.used.get(k, 0) + 1

    def w(self):
        self.n += 1
        return '%s%sq%d' % (self.r.choice(['Aa', 'b', 'Zed', 'x', 'the']), self.tag, self.n)

    def text(self, stop='', empty=0, title=False):
        """(source, text): plain text without the characters of stop"""
        r = self.r
        if r.random() < empty:
            return '', ''
        s, t = self.w(), None
        t = s
        for _ in range(r.randint(0, 4)):
            x = r.random()
            if x < .4:
                a, b = ' ', ' '
            elif x < .5:
                a = b = r.choice(". : ; - ( ) ! ? ' * / _ = # ~ $ @ ^ % | { } `".split() + (['/', '=']))
            elif x < .55:
                a = b = r.choice(['\u00e9', '\u4e2d\u6587', '\u2013', '\U0001F600'])
            elif self.v >= 106:
                k = r.random()
                if k < .4:
                    a = b = r.choice(['&', '<', '>', '"', '&amp;', '<b>', "&#65;"])
                    self.use('special characters')
                elif k < .7:
                    b = r.choice('[]\\,*&<\'`')
                    a = '\\' + b
                    self.use('escaped characters')
                elif k < .85:
                    b = r.choice('\u00e9\u03a9\u2192<&A')
                    a = '\\u%04X' % ord(b)
                    self.use('unicode escape')
                elif self.macros:
                    m = r.choice(sorted(self.macros))
                    a, b = ' ' + m + '.', ' ' + self.macros[m] + '.'
                    self.use('macro')
                else:
                    a = b = ','
            else:
                if r.random() < .3:
                    a, b = '&amp;', '&'
                elif r.random() < .2 and self.macros:
                    # not expanded before 1.6
                    a = b = ' ' + r.choice(sorted(self.macros)) + '.'
                else:
                    a = b = '.'
            if any(c in stop for c in a.replace('\\' + b, '') or '') or "''" in (s + a)[-2:] + a:
                continue
            z = self.w()
            s, t = s + a + z, t + b + z
        return s, t

    def node(self, name, kids, at=None):
        return [name, at or {}, kids]

    def attribute(self, k):
        """The source of one attribute; its effect goes to root/info"""
        r = self.r
        sp = r.choice([' ', ' ', '  ', '\n ', ' [/ c]'])
        if k in ('id', 'dirname', 'last-revision', 'lang', 'version', 'category', 'license', 'purpose'):
            if k in self.single:
                self.duplicates.add(k)
        if k == 'id':
            i = r.choice(['%s', 'a.%s', 'b-%s', '%s_x', 'A.b.%s']) % self.w()
            self.single[k] = i
            return '[id%s%s]' % (sp, i)
        if k in ('dirname', 'last-revision', 'lang', 'version'):
            s, t = self.text()
            self.single[k] = t
            return '[%s%s%s]' % (k, sp, s)
        if k == 'category':
            s, t = self.text(empty=.1)
            if s:
                self.info.append([self.type + 'category', {'name': 'category:' + t}, []])
            self.cat = True
            self.duplicates.discard(k)
            return '[category%s%s]' % (sp, s)
        if k in ('license', 'purpose'):
            if self.v >= 103:
                s, e = self.g.inl(r.randint(1, 6))
                if self.macros and r.random() < .2:
                    m = r.choice(sorted(self.macros))
                    s, e = s + ' ' + m, e + [' ' + self.macros[m]]
                    self.use('macro')
            else:
                s = self.w() + ' ' + self.w() + r.choice(['.', '', '\n' + self.w()])
                e = [s]
            self.single[k] = e
            return '[%s%s%s]' % (k, sp, s)
        if k == 'authors':
            out = ''
            for _ in range(r.randint(1, 3)):
                a, b = self.text(stop=',')
                c, d = self.text(empty=.05)
                if r.random() < .2:
                    c, d = c + ', ' + 'PhD', d + ', PhD'
                out += '[%s%s,%s%s]%s' % (r.choice(['', ' ']), a, r.choice([' ', '', '\n']), c, r.choice(['', ' ', ', ', '\n', ',']))
                self.authors.append(['author', {}, [['firstname', {}, [d] if d else []], ['surname', {}, [b]]]])
                self.use('author')
            return '[authors%s%s]' % (sp, out)
        if k == 'copyright':
            parts = []
            for _ in range(r.randint(1, 3)):
                ys, yt = [], []
                for _ in range(r.randint(1, 4)):
                    y = r.randint(1950, 2030)
                    if r.random() < .25:
                        z = y + r.randint(0, 5)
                        if r.random() < .01:
                            z = y - r.randint(1, 3)
                            self.reversed.append('%d-%d' % (y, z))
                            self.use('reversed range of years')
                        ys.append('%d%s%d' % (y, r.choice(['-', ' - ', '- ']), z))
                        yt += range(y, z + 1)
                        self.use('range of years')
                    else:
                        ys.append(str(y))
                        yt.append(y)
                a, b = self.text(stop=',')
                if r.random() < .2:
                    c = self.w()
                    a, b = a + ', ' + c, b + ', ' + c
                s = ys[0]
                for y in ys[1:]:
                    s += r.choice([' ', ', ', ',']) + y
                parts.append(s + ' ' + a)
                self.info.append(['copyright', {}, [['year', {}, [str(y)]] for y in yt] + [['holder', {}, [b]]]])
                self.use('copyright')
            return '[copyright%s%s]' % (sp, r.choice([', ', ',', ',\n']).join(parts))
        if k == 'biblioid':
            s, t = self.text()
            c = r.choice(['uri', 'isbn', 'doi', 'other', 'x1'])
            self.info.append(['biblioid', {'class': c}, [t]])
            return '[biblioid%s%s %s]' % (sp, c, s)
        if k == 'source-mode':
            self.mode = r.choice(sorted(MODES))
            return '[source-mode%s%s]' % (sp, self.mode)
        if k == 'compatibility-mode':
            return '[compatibility-mode%s1.%d]' % (sp, r.randint(1, 7))
        if k == 'escaped':
            a, b = self.w(), self.w()
            self.escaped.append(['orgname', {'role': a}, [b]])
            self.use('escaped docbook')
            return "'''<orgname role=\"%s\">%s</orgname>'''" % (a, b)
        raise KeyError(k)

    def make(self):
        r = self.r
        self.single, self.authors, self.escaped = {}, [], []
        self.cat = False
        self.mode = 'c++'
        self.type = r.choice(TYPES if self.main else ['article', 'chapter', 'library', 'appendix', 'part', 'preface'])
        where = 'in'
        pre = ''
        if self.v == 101 and r.random() < .3 and self.main:
            where, self.assumed = 'none', True
            self.use('no version')
        elif r.random() < .2:
            where = 'before'
            pre = '[quickbook 1.%d]\n' % (self.v - 100)
            self.use('version before the document')
            if r.random() < .3:
                self.mode = r.choice(sorted(MODES))
                pre = '[source-mode %s]\n' % self.mode + pre if r.random() < .5 else pre + '[source-mode %s]\n' % self.mode
                self.use('source mode before the document')
        if r.random() < .3:
            pre = '[/ comment]\n' + pre
        title, self.title = self.text(stop='[]', empty=.04, title=True)
        names = ['id', 'dirname', 'last-revision', 'lang', 'version', 'category', 'license', 'purpose', 'authors', 'copyright', 'biblioid']
        ks = []
        for k in names:
            if r.random() < .35:
                ks += [k] * r.choice([1, 1, 1, 2] if k in ('category', 'authors', 'copyright', 'biblioid') or r.random() < .2 else [1])
        if r.random() < .25:
            ks += ['source-mode'] * r.choice([1, 1, 2])
        if r.random() < .1:
            ks.append('compatibility-mode')
        if self.v >= 107 and r.random() < .2:
            ks += ['escaped'] * r.randint(1, 2)
        r.shuffle(ks)
        if where == 'in':
            ks.insert(r.randint(0, min(1, len(ks))) if self.main else 0, 'quickbook')
            # what is before the version is read under the version so far
            if ks[0] != 'quickbook' and not (self.v >= 106 and False):
                ks.remove('quickbook')
                ks.insert(0, 'quickbook')
        if not title and ks and ks[0] == 'escaped':
            # would be the title
            ks = [k for k in ks if k != 'escaped']
        out = []
        for k in ks:
            self.use(k)
            out.append('[quickbook 1.%d]' % (self.v - 100) if k == 'quickbook' else self.attribute(k))
        if not self.assumed and r.random() < .03:
            k = r.choice(['name', 'author', 'Id', 'source_mode', 'x-y', 'titel', 'Quickbook', '_id'])
            self.unknown.append(k)
            out.insert(r.randint(1, len(out)) if where == 'in' else r.randint(0, len(out)), '[%s %s]' % (k, self.w()))
            self.use('unknown attribute')
        s = '[' + r.choice(['', '', ' ', '\n']) + self.type + r.choice([' ', ' ', '  ', '\n']) + title
        if title and r.random() < .2:
            s += '   '
        for o in out:
            if out[0] is o and o.startswith("'''"):
                s += '\n' + o
                continue
            s += r.choice(['\n', '\n', '\n    ', ' ', '\n\n', '\n[/ a comment]\n', '' if out[0] is not o else '\n']) + o
        s += r.choice(['\n', '', ' ', '\n\n']) + ']' + r.choice(['\n', '\n\n', '  \n\n', '\n'])
        if self.type != 'library':
            for k, x in (('purpose', 'purpose' in self.single and self.single['purpose'] != []), ('category', self.cat), ('dirname', 'dirname' in self.single)):
                if x:
                    self.invalid.append(k)
        return pre + s

    # ---- what is expected
    def expected(self):
        info = list(self.info)
        if self.authors:
            info.append(['authorgroup', {}, self.authors])
        if 'license' in self.single:
            info.append(['legalnotice', {}, [['para', {}, self.single['license']]]])
        if 'purpose' in self.single:
            info.append([self.type + 'purpose', {}, self.single['purpose']])
        info += self.escaped
        t = self.title
        if t and 'version' in self.single:
            t += ' ' + self.single['version']
        return info, t

    def check(self, e):
        """None or what is wrong with the element of the document."""
        sq = lambda s: re.sub(r'\s+', ' ', s or '').strip()
        if e.tag != self.type:
            return 'element %s for %s' % (e.tag, self.type)
        at = dict(e.attrib)
        got = at.pop('id', None)
        want = self.include_id or self.single.get('id')
        if want and got != want:
            return 'id %r for %r' % (got, want)
        if not got and self.title:
            return 'no id'
        rev = at.pop('last-revision', None)
        if 'last-revision' in self.single:
            if rev != self.single['last-revision']:
                return 'last-revision %r for %r' % (rev, self.single['last-revision'])
        elif not re.fullmatch(r'\$Date: \d{4}/\d\d/\d\d \d\d:\d\d:\d\d \$', rev or ''):
            return 'default last-revision %r' % rev
        w = {}
        if 'lang' in self.single:
            w['lang'] = self.single['lang']
        if self.type == 'library' and self.title:
            w['name'] = self.title
        if 'dirname' in self.single:
            w['dirname'] = self.single['dirname']
        elif self.type == 'library':
            x = at.pop('dirname', '')
            y = self.single.get('id') or self.include_id
            if not x or y and x != y:
                return 'default dirname %r for %r' % (x, y)
        if at != w:
            return 'attributes %r for %r' % (at, w)
        info, title = self.expected()
        infos = [c for c in e if c.tag == self.type + 'info']
        titles = [c for c in e if c.tag == 'title']
        if len(infos) != (1 if info else 0):
            return '%d info elements for %d items' % (len(infos), len(info))
        if len(titles) != (1 if title else 0):
            return '%d titles for %r' % (len(titles), title)
        if title and sq(''.join(titles[0].itertext())) != sq(title):
            return 'title %r for %r' % (''.join(titles[0].itertext()), title)
        kids = [qdoc.from_et(c) for c in infos[0]] if infos else []
        if infos and (infos[0].text or '').strip() + ''.join(c.tail or '' for c in infos[0]).strip():
            return 'loose text in the info element'
        for k in kids:
            if k[0] == 'legalnotice':
                if k[1].pop('id', '') != (got or '') + '.legal' and self.title:
                    return 'id of the legal notice'
            if k[0] in ('legalnotice', 'authorgroup', 'author', 'copyright'):
                k[2] = [c for c in k[2] if not isinstance(c, str) or c.strip()]
            for c in k[2]:
                if not isinstance(c, str):
                    if c[0] == 'author':
                        c[2] = [x for x in c[2] if not isinstance(x, str) or x.strip()]
        a = ['info', {}, sorted(kids, key=lambda k: k[0])]
        b = ['info', {}, sorted(info, key=lambda k: k[0])]

        def norm(n):
            n = qdoc.normal(n)

            def f(n):
                if isinstance(n, str):
                    return n
                return [n[0], {k: sq(v) for k, v in n[1].items()}, [f(c) for c in
                        (qdoc.collapse_inline(n[2]) if n[0] not in ('info', '%code') else n[2])]]
            return f(n)
        return qdoc.diff(norm(b), norm(a))


def probe(r, mode, n):
    """A paragraph that shows the source mode: (source, expected text, expected role)"""
    w = 'probe%d' % n
    kw, role = MODES[mode]
    k = r.choice(sorted({'int', 'def'}))
    return '%s `%s`' % (w, k), (w, k, role if k == kw else ('identifier' if mode != 'teletype' else None))


def case(i):
    r = random.Random('c19 %s %s' % (CFG['seed'], i))
    v = [107, 106, 107, 106, 105, 104, 103, 102, 101, 101][i % 10]
    macros = {}
    args = []
    if r.random() < .4:
        macros = {'__mac__': 'Value of mac', 'MM1': 'mm1 text'}
        args = ['-D__mac__=Value of mac', '-DMM1=mm1 text']
    h = Header(r, v, True, macros)
    files = {}
    body, probes = '', []
    used = h.used

    def add(mode):
        s, p = probe(r, mode, len(probes))
        probes.append(p)
        return s + '\n\n'
    body += add(h.mode)
    incs = []
    mode = h.mode
    for k in range(r.choice([0, 0, 1, 1, 2])):
        vi = r.choice([106, 107]) if v >= 106 else r.choice([101, 103, 104, 105])
        iid = r.choice([None, 'inc_%d' % k]) if v >= 106 else None
        hi = Header(r, vi, False, macros if v >= 106 else {}, v, iid)
        name = 'f%d.qbk' % k
        body += '[include%s %s]\n\n' % (':' + iid if iid else '', name)
        if v >= 106:
            incs.append(hi)
            files[name] = hi.src + add(hi.mode)
        else:
            # the document information of included files wasn't used
            hi = Header(r, vi, False, {}, v)
            if hi.unknown:
                hi = None
                files[name] = '\n' + add(mode)
            else:
                files[name] = hi.src + add(hi.mode if 'source-mode' in hi.src else mode)
                # and their source mode stays
                mode = hi.mode if 'source-mode' in hi.src else mode
        body += add(mode)
        used['included document'] = used.get('included document', 0) + 1
    files['m.qbk'] = h.src + body
    d = vlib.fresh_dir()
    vlib.write_tree(d, files)
    args = ['m.qbk', '--output-file=o.xml', '--no-pretty-print'] + args
    p = vlib.run_qb(CFG['exe'], args, d)
    bad = lambda k, m: (v, files, used, args, (k, m))
    if p.timeout:
        return v, files, used, args, 'timeout'
    text = p.text
    unknown = sum([x.unknown for x in [h] + incs], [])
    if unknown:
        got = re.findall(r"error: Unrecognized document attribute: '([^']*)'", text)
        if p.rc != 1 or not got or not set(got) <= set(unknown) or [x for x in h.unknown if x not in got]:
            return bad('unknown', 'unknown attributes %s: status %s, %s' % (unknown, p.rc, text[-300:]))
        if os.path.exists(os.path.join(d, 'o.xml')):
            return bad('unknown', 'output written in spite of the unknown attribute')
        return v, files, used, args, None
    rev = sum([x.reversed for x in [h] + incs], [])
    got = re.findall(r'm\.qbk:\d+: error: Invalid year range: (\S+)\.|f\d\.qbk:\d+: error: Invalid year range: (\S+)\.', text)
    got = [a or b for a, b in got]
    if got and (p.rc != 1 or not set(got) <= set(rev)) or h.reversed and sorted(got)[:0] + [x for x in h.reversed if x not in got]:
        return bad('years', 'years %s: %s' % (rev, text[-300:]))
    if rev and got:
        return v, files, used, args, None
    if p.rc:
        return bad('refused', 'status %s: %s' % (p.rc, text[-400:]))
    if v >= 106 or not re.search('include', body):
        dup = sorted(x for s in re.findall(r'warning: Duplicate attributes?:(.*)', text) for x in re.split(r',\s*', s.strip()))
        want = sorted(sum([sorted(x.duplicates) for x in [h] + incs], []))
        if dup != want:
            return bad('duplicates', 'duplicates %s reported for %s' % (dup, want))
    inv = sorted(re.findall(r"warning: Invalid attributes? for '(\S+) document info': (.*)", text) or
                 re.findall(r"warning: Invalid attributes? for '(\S+) document info': (.*)", text.replace(" document info'", " document info'")))
    want = sorted((x.type, ', '.join(x.invalid)) for x in [h] + incs if x.invalid)
    if sorted(inv) != want and sorted(re.findall(r"warning: Invalid attributes? for '(\S+)'? document info'?: (.*)", text)) != want:
        return bad('invalid', 'invalid attributes %s reported for %s: %s' % (inv, want, text[-300:]))
    if ('Version 1.1 is assumed' in text) != h.assumed:
        return bad('version', 'assumed version: %s' % text[-200:])
    root = qdoc.parse_xml(open(os.path.join(d, 'o.xml'), 'rb').read())
    m = h.check(root)
    if m:
        return bad('header', m)
    subs = [e for e in root if e.tag in TYPES]
    if len(subs) != len(incs):
        return bad('included', '%d of %d included documents' % (len(subs), len(incs)))
    for hi, e in zip(incs, subs):
        m = hi.check(e)
        if m:
            return bad('included header', 'included document: %s' % m)
    # the text after the header, and its source mode
    paras = [e for e in root.iter('para') if (e.text or '').strip().startswith('probe')]
    got = []
    for e in paras:
        c = e.find('code')
        ph = c.find('phrase') if c is not None else None
        got.append((e.text.strip(), ''.join(c.itertext()) if c is not None else None, ph.get('role') if ph is not None else None))
    order = []
    for s, wd in [('m', body)]:
        for x in re.finditer(r'probe(\d+)|\[include[^ ]* (\S+)\]', body):
            if x.group(1):
                order.append(int(x.group(1)))
            else:
                order += [int(n) for n in re.findall(r'probe(\d+) ', files[x.group(2)])]
    if got != [probes[n] for n in order]:
        return bad('text', 'text after the header: %r for %r' % (got, [probes[n] for n in order]))
    # nothing else
    for e, hh in [(root, h)] + list(zip(subs, incs)):
        for c in e:
            if c.tag not in ('para', 'title', hh.type + 'info') and c.tag not in TYPES:
                return bad('text', 'unexpected element %s' % c.tag)
        loose = (e.text or '') + ''.join(c.tail or '' for c in e)
        if loose.strip():
            return bad('text', 'loose text %r' % loose.strip())
    return v, files, used, args, None


def run():
    C = vlib.Check('C19', 'a distinct set of document headers')
    CFG.update(exe=vlib.build('fast'), seed=C.seed)
    C.minimum = 100
    for v, files, used, args, b in vlib.pmap(case, range(C.n(18000, 80000))):
        if b == 'timeout':
            C.unsure('timeout')
            continue
        C.observe(repr(sorted(files.items())), True, None)
        C.count('quickbook 1.%d documents' % (v - 100))
        for k, x in used.items():
            C.count(k, x)
        if b:
            C.bad(vlib.Bad(b[0], 'quickbook 1.%d: %s' % (v - 100, b[1]), files, args))
    return C.finish()


vlib.main(run)
