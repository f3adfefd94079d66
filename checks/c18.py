#!/usr/bin/env python3
"""C18: code snippets and callouts.

Annotated C++ and Python files are generated together with what each of their snippets is: runs of code, with the marks and
ignored parts taken out, and quickbook.  Documents call the snippets in several ways.
"""
import os, random, re, sys
import xml.etree.ElementTree as ET
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vlib, qdoc
CFG = {}


class Gen(object):
    """Fragments: ('code', source, text) ('qbk', source, blocks) ('call', source, id) ('snip', id, begin, fragments, end)"""
    def __init__(self, r, v, py, tag):
        self.r, self.v, self.py, self.tag = r, v, py, tag
        self.n, self.ids, self.snips, self.loose = 0, [], {}, []
        self.g = qdoc.Gen(r, v, inline={'text': 4, 'emph': 1, 'special': .5, 'code': .4, 'url': .3},
                          block={'para': 4, 'list': .6, 'admon': .3, 'xlist': .3 if v >= 106 else 0, 'table': .2, 'heading': .2})
        self.unit = r.choice(['  ', '    ', '\t'])
        self.used = {}

    def use(self, k):
        self.used[k] = self.used.get(k, 0) + 1

    def w(self):
        self.n += 1
        return '%s%dz' % (self.tag, self.n)

    def piece(self):
        """Code without a line end or comment: (source, text)"""
        r, w = self.r, self.w
        x = r.random()
        if x < .1:
            s = w()
            self.use('escape in code')
            return '``[*%s]``' % s, s
        if self.py:
            s = r.choice(['def %s(self):', '%s = 1', 'return %s[1:]', 'x = "%s"', "y = 'q %s'", 'if %s < 2: pass', '%s(a, *b)', 'for %s in range(5):',
                          '%s == - 1', '"""%s"""'])
        else:
            s = r.choice(['int %s;', 'f(%s, 1);', 'class %s {', '} // %s', '%s << "a < b";', 'x = \'c\' + %s;', 'a[%s] = {1, 2};', '%s & y && z;', '/* %s */',
                          'T<%s> x;', 'if (%s) return 0x1F;', '"// %s";'])
        s = s % w()
        return s, s

    def line(self, ind):
        """A line of code: fragments"""
        r = self.r
        x = r.random()
        if x < .06:
            return [('code', '\n', '\n')]
        i = ind + r.choice(['', '', self.unit])
        a, t = self.piece()
        if not self.py and x < .12:
            b, u = self.piece()
            how = r.choice(['/*<-*/%s/*->*/', '/*<- %s ->*/', '/*<-*/%s\n%s/*->*/'])
            self.use('part of a line ignored')
            return [('code', i + a + ' ' + (how % ((self.w(),) * how.count('%s'))) + ' ' + b + '\n', i + t + '  ' + u + '\n')]
        if self.py and x < .12:
            b, u = self.piece()
            how = r.choice(['"""<-"""%s"""->"""', '"""<- %s ->"""', '"""<-"""%s\n%s"""->"""', '"""<-\n%s\n->"""'])
            self.use('part of a line ignored')
            return [('code', i + a + ' ' + (how % ((self.w(),) * how.count('%s'))) + ' ' + b + '\n', i + t + '  ' + u + '\n')]
        if not self.py and x < .2 and self.callouts and '} // ' not in a:
            c = self.w()
            if r.random() < .5:
                self.use('callout')
                return [('code', i + a + ' /*< %s >*/' % c + '\n', i + t + ' \x01%s\x02' % c + '\n')]
            self.use('line callout')
            b, u = self.piece()
            return [('code', '%s/*<< %s >>*/\n%s%s\n' % (i, c, i, b), '%s\x01%s\x02\x03\n%s%s\n' % (i, c, i, u))]
        if self.py and x < .2 and self.callouts and '"""' not in a:
            c = self.w()
            self.use('callout')
            if r.random() < .5:
                return [('code', i + a + ' #< %s\n' % c, i + t + ' \x01%s\x02' % c + '\n')]
            b, u = self.piece()
            return [('code', '%s#<< %s\n%s%s\n' % (i, c, i, b), '%s\x01%s\x02\x04\n%s%s\n' % (i, c, i, u))]
        if not self.py and x < .28 and self.nest:
            # a snippet inside the line
            b, u = self.piece()
            n = self.id()
            self.use('snippet inside a line')
            f = ('snip', n, r.choice(['/*[%s*/', '/*[ %s */']) % n, [('code', b, u)], '/*]*/')
            self.snips[n] = f[3]
            return [('code', i + a + ' ', i + t + ' '), f, ('code', ' x;\n', ' x;\n')]
        if x < .34:
            self.use('code in a comment')
            b = self.w()
            how = r.choice(['#=%s\n', '#= %s + 1\n', '"""=%s"""\n', '"""= %s\n' + i + '%s\n' + i + '"""\n'] if self.py else
                           ['//=%s;\n', '//= int %s;\n', '/*=%s();*/\n', '/*=\n' + i + 'int %s()\n' + i + '{\n' + i + '}\n' + i + '*/\n'])
            how = how.replace('%s', b)
            text = re.sub(r'^(#=|//=|/\*=|"""=)|\*/$|"""$', '', how[:-1])
            return [('code', i + how, i + text + '\n'), ('code', i + a + '\n', i + t + '\n')]
        return [('code', i + a + '\n', i + t + '\n')]

    def id(self):
        n = '%s_%s%d' % (self.r.choice(['s', 'S_x', 't_', 'snippet']), self.tag, len(self.ids))
        self.ids.append(n)
        return n

    def quickbook(self, ind):
        r = self.r
        done = [i for i in self.ids if i in self.snips]
        if done and r.random() < .15:
            n = r.choice(done)
            self.use('snippet called in a snippet')
            return ('call', ind + ('#` [%s]\n' if self.py else '//` [%s]\n') % n, n)
        for _ in range(20):
            x = r.random()
            if x < .5:
                s, e = self.g.inl(r.randint(1, 4))
                e = [['para', {}, e]]
                if '\n' in s or '`' == s[:1]:
                    continue
                src = ind + ('#` %s\n' if self.py else r.choice(['//` %s\n', '//`%s\n', '/*` %s */\n', '/*`%s*/\n'])) % s
            else:
                s, e = self.g.blocks(r.randint(1, 3))
                s = '\n'.join(ind + l if l else '' for l in s.split('\n'))
                src = ind + ('"""`\n%s\n%s"""\n' if self.py else '/*`\n%s\n%s*/\n') % (s, ind)
            if '"""' in s or '*/' in s or '/*' in s or '//' in s and 'http' not in s or "'''" in s or re.match(r'\s*[*#]', s) and x < .5:
                continue
            if ind.startswith('\t') and '\n ' in s:
                continue
            self.use('quickbook in a comment')
            return ('qbk', src, e)
        return ('code', '', '')

    def body(self, ind, depth, n):
        r = self.r
        out = []
        plain = True                # the fragment before left its line end
        for _ in range(n):
            x = r.random()
            if x < .55:
                out += self.line(ind)
                plain = True
            elif x < .72:
                q = self.quickbook(ind)
                out.append(q)
                plain = q[0] == 'code'
                if not plain:
                    # what follows has to be code, not marks
                    out.append(self.solid(ind))
                    plain = True
            elif x < .82:
                b = '\n'.join(ind + self.w() for _ in range(r.randint(0, 3)))
                self.use('lines ignored')
                how = r.choice(['%s#<-\n%s\n%s#->\n', '%s#<- x\n%s\n%s#->  \n', '%s#<-  \n%s\n%s#->\t \n'] if self.py else
                               ['%s//<-\n%s\n%s//->\n', '%s//<- x\n%s\n%s//->  \n', '%s//<- \n%s\n%s//->\t\n']) % (ind, b, ind)
                if not plain or not out:
                    out.append(self.solid(ind))
                out.append(('code', how, ''))
                out.append(self.solid(ind))
            elif depth < 3 and self.nest:
                if not out or out[-1][0] != 'code':
                    out.append(self.solid(ind))
                out.append(self.snippet(ind + r.choice(['', self.unit]), depth + 1))
                out.append(self.solid(ind))
                self.use('nested snippet')
        out.append(self.solid(ind))
        return out

    def solid(self, ind):
        a, t = self.piece()
        return ('code', ind + a + '\n', ind + t + '\n')

    def snippet(self, ind, depth):
        r = self.r
        n = self.id()
        b = self.body(ind, depth, r.randint(0, 5))
        if r.random() < .2 and depth == 0:
            q = self.quickbook(ind)
            if q[0] == 'qbk':
                b = [q, self.solid(ind)] + b
        # a call of the snippet itself would never end
        self.snips[n] = b
        i = ind if r.random() < .8 else ''
        if self.py:
            return ('snip', n, i + r.choice(['#[%s\n', '#[ %s\n', '#[\t%s \n', '#[%s and more\n']) % n, b, i + r.choice(['#]\n', '#] x\n', '#]  \n']))
        k = r.random()
        if k < .7:
            return ('snip', n, i + r.choice(['//[%s\n', '//[ %s\n', '//[%s and more\n', '//[%s ]\n']) % n, b, i + r.choice(['//]\n', '//] x\n', '//]%s\n' % n]))
        self.use('snippet in block comment marks')
        return ('snip', n, i + r.choice(['/*[%s*/\n', '/*[ %s */\n', '/*[\t%s  */ \t\n', '/*[\n%s\n*/  \n']) % n, b, i + r.choice(['/*]*/\n', '/*]*/  \n', '/*]*/\t\n']))

    def file(self):
        r = self.r
        self.callouts = r.random() < .6
        self.nest = r.random() < .7
        out = [('code', r.choice(['', '\n']) + r.choice(['# head\n', 'x = 1\n'] if self.py else ['// head\n', '#include <x>\n']), '')]
        for _ in range(r.randint(1, 4)):
            out.append(self.snippet(r.choice(['', '', self.unit]), 0))
            x = r.random()
            if x < .3:
                q = self.quickbook('')
                if q[0] != 'call':
                    out.append(q)
                    self.loose.append(q)
            out += [('code', r.choice(['\n', '', 'int %s;\n' % self.w() if not self.py else '%s = 3\n' % self.w()]), '')]
            if x > .9 and self.v < 106:
                out.append(('code', ('#]\n' if self.py else '//]\n') + self.solid('')[1], ''))
                self.use('end mark without a beginning')
        return out


def source(frags):
    s = ''
    for f in frags:
        s += f[2] + source(f[3]) + f[4] if f[0] == 'snip' else f[1]
    return s


def flat(frags):
    for f in frags:
        if f[0] == 'snip':
            for x in flat(f[3]):
                yield x
        else:
            yield f


def dedent(src):
    """Text with callouts as \\1...\\2; the marks of callouts count as text for the indentation."""
    lines = src.split('\n')
    ind = [len(l) - len(l.lstrip(' \t')) for l in lines if l.strip()]
    k = min(ind) if ind else 0
    return '\n'.join(l[k:] if l.strip() else '' for l in lines)


def tidy(s):
    lines = [l.rstrip() for l in s.split('\n')]
    while lines and not lines[0]:
        lines.pop(0)
    while lines and not lines[-1]:
        lines.pop()
    return '\n'.join(lines)


class Recursive(Exception):
    pass


def expected(G, n, callouts, depth=0):
    """The blocks of snippet n; callouts is extended."""
    if depth > 8:
        raise Recursive
    res, run = [], ['']

    def flush():
        t = dedent(run[0])
        # a callout of its own takes the line end (and what follows) with it
        t = tidy(re.sub('\x03\\s*', '', t).replace('\x04\n', ''))
        run[0] = ''
        if t:
            def note(m):
                callouts.append(m.group(1))
                return '(callout %d)' % len(callouts)
            res.append(['%listing', {}, [re.sub('\x01(.*?)\x02', note, t)]])
    for f in flat(G.snips[n]):
        if f[0] == 'code':
            run[0] += f[2]
        else:
            flush()
            res.extend(f[2] if f[0] == 'qbk' else expected(G, f[2], callouts, depth + 1))
    flush()
    return res


def whole(G, n):
    c = []
    e = expected(G, n, c)
    if c:
        e = e + [['para', {}, ['callouts']]] + [['para', {}, ['%d: %s' % (i + 1, x)]] for i, x in enumerate(c)]
    return e


def simplify(data):
    """Callouts as text, listings as plain text.  -> (bytes, complaint)"""
    root = qdoc.parse_xml(data)
    seen, bad = {}, [None]
    order = []

    def walk(e):
        kids = list(e)
        for k, c in enumerate(kids):
            if c.tag == 'co':
                i = c.get('id')
                if i in seen:
                    bad[0] = 'two places of callouts have the id %r' % i
                seen[i] = c.get('linkends')
                order.append(i)
                c.tag = 'phrase'
                c.text = '(callout %d)' % len(order)
                c.attrib.clear()
            elif c.tag == 'calloutlist':
                p = ET.Element('para')
                p.text = 'callouts'
                new = [p]
                for j, x in enumerate(c):
                    a, i = x.get('arearefs'), x.get('id')
                    if j >= len(order) or order[j] != a:
                        bad[0] = 'callout %d refers to %r, the places are %r' % (j + 1, a, order)
                    elif seen.get(a) != i:
                        bad[0] = 'the place %r links to %r, not to the callout %r' % (a, seen.get(a), i)
                    p = ET.Element('para')
                    p.text = '%d: %s' % (j + 1, ' '.join(''.join(x.itertext()).split()))
                    new.append(p)
                if len(c) != len(order):
                    bad[0] = '%d places and %d callouts' % (len(order), len(c))
                del order[:]
                i = list(e).index(c)
                e.remove(c)
                for p in reversed(new):
                    e.insert(i, p)
            else:
                walk(c)
        for c in list(e):
            if c.tag == 'programlisting':
                t = tidy(''.join(c.itertext()))
                for x in list(c):
                    c.remove(x)
                c.text = t
                if not t:
                    e.remove(c)
    walk(root)
    if order:
        bad[0] = 'places of callouts without callouts: %r' % order
    return ET.tostring(root), bad[0]


def case(i):
    r = random.Random('C18/%d/%d' % (CFG['seed'], i))
    v = r.choice([105, 106, 107, 107])
    files, Gs = {}, []
    for k in range(r.choice([1, 1, 2])):
        py = r.random() < .35
        while True:
            G = Gen(r, v, py, 'ab'[k])
            fr = G.file()
            try:
                for n in G.snips:
                    whole(G, n)
                break
            except Recursive:
                pass
        G.name = '%s%d.%s' % ('f', k, r.choice(['py', 'jam']) if py else r.choice(['cpp', 'hpp', 'c', 'h']))
        files[G.name] = source(fr)
        Gs.append(G)
    src = '[article T\n[quickbook 1.%d]\n[id dd]\n]\n\n' % (v - 100)
    exp = ['article', {'id': 'dd'}, [['title', {}, ['T']]]]
    used = {}

    def add(s, e):
        nonlocal src
        src += s + '\n\n'
        exp[2].extend(e)
    for G in Gs:
        for k, x in G.used.items():
            used[k] = used.get(k, 0) + x
        if v >= 106 and r.random() < .2:
            add('[include %s]' % G.name, [b for q in G.loose for b in q[2]])
            used['file included'] = used.get('file included', 0) + 1
            continue
        add('[import %s]' % G.name, [])
        for n in r.sample(sorted(G.snips), min(len(G.snips), r.randint(1, 5))):
            how = r.random()
            if how < .7:
                add('[%s]' % n, whole(G, n))
            elif how < .85:
                add('[%s]\n\nbetween\n\n[%s]' % (n, n), whole(G, n) + [['para', {}, ['between']]] + whole(G, n))
            else:
                add('[template call_%s[]\n[%s]\n]\n\n[call_%s]' % (n, n, n), whole(G, n))
            used['calls'] = used.get('calls', 0) + 1
    nl = r.choice(['\n', '\n', '\n', '\r\n', '\r'])
    files['a.qbk'] = src
    d = vlib.fresh_dir()
    vlib.write_tree(d, {k: t.encode('utf8').replace(b'\n', nl.encode()) for k, t in files.items()})
    args = ['a.qbk', '--output-file=o.xml', '--no-pretty-print']
    q = vlib.run_qb(CFG['exe'], args, d)
    b = None
    if q.timeout:
        b = 'timeout'
    elif q.rc:
        b = 'refused', 'exit %d: %s' % (q.rc, q.text[:400])
    else:
        data, c = simplify(open(os.path.join(d, 'o.xml'), 'rb').read())
        df = qdoc.compare(exp, data, False)
        b = ('content', df) if df else ('callouts', c) if c else None
    return v, files, used, args, b


def run():
    C = vlib.Check('C18', 'a distinct set of annotated source files with the document that uses their snippets')
    CFG.update(exe=vlib.build('fast'), seed=C.seed)
    C.minimum = 100
    for v, files, used, args, b in vlib.pmap(case, range(C.n(14000, 90000))):
        if b == 'timeout':
            C.unsure('timeout')
            continue
        C.observe(repr(sorted(files.items())), True, None)
        C.count('quickbook 1.%d documents' % (v - 100))
        for k, x in used.items():
            C.count(k, x)
        if b:
            C.bad(vlib.Bad(b[0], 'quickbook 1.%d: %s' % (v - 100, b[1]), files, args))
    return C.finish()


vlib.main(run)
