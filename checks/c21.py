#!/usr/bin/env python3
"""C21: each file is read under its own language version.

A table says what about a hundred constructs mean in each version.  It is required of single documents, and then of every place of a
construct in trees of files with different versions, in templates made in one file and called in others, and after includes.
"""
import os, random, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vlib, qdoc
from versions import PROBES
CFG = {}
VERSIONS = [100, 101, 103, 104, 105, 106, 107]
TABLE = dict((n, (s, e)) for n, s, e in PROBES)


def expected(name, v, num):
    want = [r for f, r in TABLE[name][1] if f <= v][-1]
    return want.replace('@N', str(num))


def serial(e):
    t = e.tag.replace('{http://www.w3.org/2001/XInclude}', 'xi:')
    s = '<' + t
    for k, v in sorted(e.attrib.items()):
        k = k.replace('{http://www.w3.org/XML/1998/namespace}', 'xml:')
        if k.endswith('id'):
            if not re.search(r'x\d+y$', v):
                continue
            v = v.split('.')[-1]
        elif k == 'last-revision':
            continue
        elif k in ('arearefs', 'linkends'):
            v = ''
        elif k == 'linkend':
            v = v.split('.')[-1]
        s += ' %s="%s"' % (k, v)
    return s + '>' + (e.text or '') + ''.join(serial(c) + (c.tail or '') for c in e) + '</%s>' % t


def fold(s):
    s = re.sub(r'\s+', ' ', s)
    return re.sub(r' ?(</?(para|simpara|listitem|entry|row|tbody|thead|tgroup|table|informaltable|title|orderedlist|itemizedlist|bridgehead|blockquote|'
                  r'sidebar|anchor|callout|calloutlist|note)( [^<>]*)?>) ?', r'\1', s).strip()


def between(root):
    """number of a probe -> what was found between its marks, at each place"""
    res = {}
    for e in root.iter():
        start = None
        for k, c in enumerate(e):
            m = re.match(r'\s*m(\d+)([ab])\s*$', c.text or '') if c.tag == 'para' and not len(c) else None
            if m and m.group(2) == 'a':
                start = (m.group(1), k)
            elif m and start and start[0] == m.group(1):
                res.setdefault(int(m.group(1)), []).append(fold(''.join(serial(x) + (x.tail or '') for x in e[start[1] + 1:k])))
                start = None
    return res


def messages(text):
    out = []
    for l in text.split('\n'):
        m = re.match(r'(\S+?):(?:(\d+):)? (error|warning): (.*)', l)
        if m:
            out.append((m.group(1), int(m.group(2) or 0), m.group(3), m.group(4)))
    return out


def single(k):
    name, v = SINGLE[k]
    head = '[article T\n[quickbook %d.%d]\n]\n\nm7a\n\n' % (v // 100, v % 100)
    src = TABLE[name][0].replace('@N', '7').split('\n%%%% ')
    files = dict(f.split('\n', 1) for f in src[1:])
    files['m.qbk'] = head + src[0] + '\n\nm7b\n'
    d = vlib.fresh_dir()
    vlib.write_tree(d, files)
    args = ['m.qbk', '--no-pretty-print'] + ['--no-self-linked-headers'] * (not name.startswith('self-')) + ['--output-file=o.xml']
    p = vlib.run_qb(CFG['exe'], args, d)
    if p.timeout:
        return files, args, 'timeout'
    want = expected(name, v, 7)
    line = head.count('\n')
    msg = ['%s %s%s' % (l - line if f == 'm.qbk' else '%s:%d' % (f, l), 'warning: ' if k == 'warning' else '', t) for f, l, k, t in messages(p.text) if k == 'warning' or p.rc]
    if want.startswith('ERR '):
        got = 'status %s' % p.rc if p.rc != 1 else 'ERR ' + '\n'.join(m for m in msg if 'warning: ' not in m)
    elif p.rc:
        got = 'status %s: %s' % (p.rc, p.text)
    else:
        found = between(qdoc.parse_xml(open(os.path.join(d, 'o.xml'), 'rb').read()))
        got = (found.get(7) or ['not found'])[0] + (' || ' + '\n'.join(msg) if msg else '')
    return files, args, None if got == want else (name, 'quickbook %d.%d: %r: expected %r, found %r' % (v // 100, v % 100, TABLE[name][0].replace('@N', '7'), want, got))


SINGLE = [(n, v) for n, s, e in PROBES for v in VERSIONS]
# probes that mean the same in the body of a template
# not confined to their place
SINGLE_ONLY = set('''punct-escape template-escape-bracket id-invalid-section heading-id heading-id-markup heading-id-code heading-generic heading-twice section-gen
    section-markup-gen table-gen title-markup self-linked self-linked-h note-section table-title-brackets'''.split()) | set(n for n, s, e in PROBES if '\n%%%% ' in s)
IN_TEMPLATE = ('bracket-in-bold table-id table-title image-attr image-alt role olist ilist cond-not cond list-plain list-in-note list-in-cell callout inline-tick list-in-var '
               'source-para blurb-list cell-list h2-id').split()


class Tree(object):
    def __init__(self, r):
        self.r, self.n, self.files, self.want, self.used = r, 0, {}, {}, {}
        self.places = []         # (file, number, probe, version) of probes not in templates
        self.used_versions = {'m.qbk'}   # files whose version counts

    def num(self):
        self.n += 1
        return self.n

    def pick(self, v, names=None):
        while 1:
            name = self.r.choice(names or [p[0] for p in PROBES if p[0] not in SINGLE_ONLY])
            if not expected(name, v, 0).startswith('ERR'):
                return name

    def probe(self, f, v):
        n, name = self.num(), self.pick(v)
        self.want[n] = [expected(name, v, n).split(' || ')[0], 1, name, v]
        self.places.append((f, n, v))
        self.count(name, v)
        return 'm%da\n\n%s\n\nm%db\n\n' % (n, TABLE[name][0].replace('@N', str(n)), n)

    def count(self, name, v):
        self.used['%s in 1.%d' % (name, v - 100)] = self.used.get('%s in 1.%d' % (name, v - 100), 0) + 1

    def template(self, v, own):
        n, name = self.num(), self.pick(v, IN_TEMPLATE)
        self.want[n] = [expected(name, v, n).split(' || ')[0], 0, name, v]
        own.append((n, v, 'id' in name))
        self.used['template'] = self.used.get('template', 0) + 1
        return '[template zt%d[]\n\nm%da\n\n%s\n\nm%db\n]\n\n' % (n, n, TABLE[name][0].replace('@N', str(n)), n)

    def call(self, seen):
        ok = [x for x in seen if not (x[2] and self.want[x[0]][1])]
        if not ok:
            return ''
        n = self.r.choice(ok)[0]
        self.want[n][1] += 1
        return '[zt%d]\n\n' % n

    def file(self, depth, outer, v, f, seen):
        """A file included by one of version outer; v: its own, or None.  Returns templates that others see"""
        r = self.r
        own = list(seen)
        s = ''
        for _ in range(r.randint(1, 6)):
            x = r.random()
            if x < .45:
                s += self.probe(f, v)
            elif x < .55:
                s += self.template(v, own)
            elif x < .75:
                s += self.call(own)
            elif x < .9 and depth < 3:
                g = 'f%d.qbk' % self.num()
                head, w, counts = self.head(v)
                if counts:
                    self.used_versions.add(g)
                leak = self.file(depth + 1, v, w, g, own)
                self.files[g] = head + self.files[g]
                if v < 106:
                    own = leak
                s += '[include %s]\n\n' % g
                if r.random() < .7:
                    s += self.probe(f, v)
            elif x >= .9 and v >= 106:
                g = 'l%d.qbk' % self.num()
                w = r.choice(VERSIONS)
                self.files[g] = '[quickbook 1.%d]\n\n' % (w - 100) if r.random() < .6 else '[article L\n[quickbook 1.%d]\n]\n\n' % (w - 100)
                for _ in range(r.randint(1, 2)):
                    self.files[g] += self.template(w, own)
                s += '[import %s]\n\n%s' % (g, self.call(own))
        self.files[f] = s
        return own

    def head(self, outer):
        """Start of a file included by one of version outer, the version it is read under, and whether its version counts"""
        r = self.r
        v = r.choice(VERSIONS)
        q = '[quickbook 1.%d]\n' % (v - 100)
        x = r.random()
        compat = '[compatibility-mode 1.%d]\n' % r.choice([3, 4, 5, 6, 7]) if r.random() < .2 else ''
        if x < .3:
            return q + '\n', v, True
        if x < .45:
            return '', outer, False
        if x < .55:
            # no version: 1.1, if the block is used
            return '[article I%d\n]\n\n' % self.num(), 101 if outer >= 106 else outer, False
        return '[%s I%d\n%s%s]\n\n' % (r.choice(['article', 'chapter', 'appendix']), self.num(), q, compat), v if outer >= 106 else outer, outer >= 106


def case(i):
    r = random.Random('c21 %s %s' % (CFG['seed'], i))
    t = Tree(r)
    v = r.choice(VERSIONS + [105, 106, 107])
    t.file(0, v, v, 'm.qbk', [])
    t.files['m.qbk'] = '[article T\n[quickbook 1.%d]\n]\n\n' % (v - 100) + t.files['m.qbk']
    shared = {}
    if t.places and r.random() < .3:
        # a file without a version, included from files of several versions
        at = r.sample(t.places, min(len(t.places), r.randint(2, 5)))
        for _ in range(r.randint(1, 3)):
            names = [x for x in IN_TEMPLATE if 'id' not in x and not any(expected(x, w, 0).startswith('ERR') for _, _, w in at)]
            if names:
                n, name = t.num(), r.choice(names)
                t.files['sh.qbk'] = t.files.get('sh.qbk', '') + 'm%da\n\n%s\n\nm%db\n\n' % (n, TABLE[name][0].replace('@N', str(n)), n)
                shared[n] = name, sorted(expected(name, w, n).split(' || ')[0] for _, _, w in at)
        if shared:
            for f, n, w in at:
                mark = 'm%db\n' % n
                t.files[f] = t.files[f].replace(mark, mark + '\n[include sh.qbk]\n', 1)
            t.used['shared by files of %d versions' % len(set(w for _, _, w in at))] = 1
    fault = None
    k = r.random()
    if k < .25 and t.places:
        # a construct that is an error in the version of its file
        f, n, w = r.choice(t.places)
        bad = [x[0] for x in PROBES if x[0] not in SINGLE_ONLY and expected(x[0], w, 0).startswith('ERR')]
        if bad:
            name = r.choice(bad)
            mark = 'm%db\n' % n
            at = t.files[f].index(mark) + len(mark)
            line = t.files[f].count('\n', 0, at) + 1
            fault = [(f, line + int(x.split(' ', 1)[0]), x.split(' ', 1)[1]) for x in expected(name, w, 9999)[4:].split('\n')]
            t.files[f] = t.files[f][:at] + '\n' + TABLE[name][0].replace('@N', '9999') + '\n\n' + t.files[f][at:]
            t.count(name + ' (error)', w)
    elif k < .3:
        # a version that does not exist
        f = r.choice([f for f in sorted(t.files) if f != 'sh.qbk' and '[quickbook' in t.files[f].split('\n\n')[0]])
        x = r.choice(['1.8', '1.10', '2.0', '0.9', '1.71', '3.6'])
        t.files[f] = re.sub(r'\[quickbook 1\.\d\]', '[quickbook %s]' % x, t.files[f], count=1)
        if f in t.used_versions or f[0] == 'l':
            fault = [(f, 0, 'Unknown version: ' + x)]
            t.used['unknown version'] = 1
        else:
            t.used['unknown version ignored'] = 1
    d = vlib.fresh_dir()
    vlib.write_tree(d, t.files)
    args = ['m.qbk', '--no-pretty-print', '--no-self-linked-headers', '--output-file=o.xml']
    p = vlib.run_qb(CFG['exe'], args, d)
    if p.timeout:
        return t.files, t.used, args, 'timeout'
    bad = lambda k, m: (t.files, t.used, args, (k, m))
    errors = [(f, l, m) for f, l, k, m in messages(p.text) if k == 'error']
    if fault:
        if p.rc != 1 or (fault[0] not in errors if 'Unknown version' in fault[0][2] else errors != fault):
            return bad('errors', 'expected %s, found %s (status %s)' % (fault, errors, p.rc))
        return t.files, t.used, args, None
    if p.rc:
        return bad('refused', 'status %s: %s' % (p.rc, p.text[-400:]))
    found = between(qdoc.parse_xml(open(os.path.join(d, 'o.xml'), 'rb').read()))
    for n, (want, times, name, w) in sorted(t.want.items()):
        got = found.get(n, [])
        if len(got) != times:
            return bad('missing', '%s in 1.%d is there %d times, expected %d' % (name, w - 100, len(got), times))
        for g in got:
            if g != want:
                return bad(name, '%s read under quickbook 1.%d: expected %r, found %r' % (name, w - 100, want, g))
    for n, (name, want) in sorted(shared.items()):
        if sorted(found.get(n, [])) != want:
            return bad('shared', '%s in a file shared by several versions: expected %r, found %r' % (name, want, sorted(found.get(n, []))))
    return t.files, t.used, args, None


def run():
    C = vlib.Check('C21', 'a distinct tree of files with constructs read under its versions')
    CFG.update(exe=vlib.build('fast'), seed=C.seed)
    for files, args, b in vlib.pmap(single, range(len(SINGLE))):
        if b == 'timeout':
            C.unsure('timeout')
            continue
        C.observe(files['m.qbk'], True)
        C.count('constructs on their own')
        if b:
            C.bad(vlib.Bad(b[0], b[1], files, args))
    for files, used, args, b in vlib.pmap(case, range(C.n(18000, 90000))):
        if b == 'timeout':
            C.unsure('timeout')
            continue
        C.observe(repr(sorted(files.items())), True)
        C.count('files', len(files))
        for k, x in used.items():
            C.count(k, x)
        if b:
            C.bad(vlib.Bad(b[0], b[1], files, args))
    return C.finish()


if __name__ == '__main__':
    vlib.main(run)
