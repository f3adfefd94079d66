#!/usr/bin/env python3
"""C03: every successful run writes well-formed, escaped documents."""
import os, random, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vlib, qdoc, mutate, slots, soup, wf
CFG = {}
CHARS = ['&', '<', '>', '"', "'", '&amp;', '&#65;', '&x', '<b>', '</b>', '</para>', '<!--', '-->', '--', ']]>'[2:], '<?x', '?>', '%', '%zz', '%41', '\\', '\\[', '\\]', '+', '=', ';', '#',
         '@', '{', '}', '(', ')', '|', '~', '^', '$', '!', ',', ':', '/', 'a', 'b', 'Q', '7', ' ', 'é', '中', '\U0001F600', '\u2028', '_', '-', '*', '.']
FORMATS = [('boostbook', ['--output-file=o.xml']), ('boostbook', ['--output-file=o.xml', '--no-pretty-print']), ('boostbook', ['--output-file=o.xml', '--linewidth=30']),
           ('onehtml', ['--output-format=onehtml', '--output-file=o.html']), ('html', ['--output-format=html', '--output-dir=out'])]


def hostile(r, forbid):
    out = []
    for _ in range(r.randint(1, 6)):
        c = r.choice(CHARS)
        if forbid is None:
            # identifiers and macro names: no white space or brackets
            if re.search(r'[\s\[\]\\]', c):
                continue
        elif any(x in c for x in forbid):
            continue
        out.append(c)
    s = ''.join(out)
    return s or 'x'


def slot_doc(r):
    v = r.choice([101, 103, 104, 105, 106, 106, 107, 107, 107])
    body, used = [], []
    for _ in range(r.randint(1, 4)):
        name, tpl, forbid, first = r.choice([s for s in slots.SLOTS if s[3] <= v])
        h = hostile(r, forbid)
        body.append(tpl.replace('%s', h))
        used.append(name)
    head, hused = [], []
    for name, tpl, first in r.sample(slots.DOCINFO[1:], r.choice([0, 0, 1, 3])):
        # quickbook before 1.6 writes the attributes of the document as they are
        if first <= v and v >= 106:
            head.append(tpl.replace('%s', hostile(r, ',')))
            hused.append('docinfo ' + name)
    title = hostile(r, '') if v >= 106 and r.random() < .5 else 'T'
    src = '[%s x%s\n[quickbook 1.%d]\n%s]\n\n%s\n' % (r.choice(['article', 'library', 'book', 'chapter']) if not hused else 'library', title, v - 100,
                                                    ''.join(h + '\n' for h in head), '\n\n'.join(body))
    return src, used + hused, v


def raw(b):
    return b"'''" in b or b'xmlbase' in b or re.search(rb'\\[uU]', b)


NEST = ['[note\n\n%s\n\n]', '[note %s]', '[:\n%s\n]', '[table\n[[\n%s\n]]\n]', '[variablelist [[t][\n%s\n]]]', '[ordered_list [\n%s\n]]', '[blurb\n%s\n]', '* %s', '[pre %s]',
        '[? __y__ %s]', '[? __y__\n\n%s\n]', '[? !__y__ %s]', '[block\n%s\n]', '[footnote %s]', '[*%s]', '[heading %s]', '%s', '%s', '%s', '%s', '%s', '%s']


def sections(r):
    """Sections opened and closed within other blocks, in files and in templates."""
    files, defs, n = {}, [], [0]
    v = r.choice([101, 104, 105, 106, 106, 107, 107, 107])

    def content(depth, loose=.25):
        out, level = [], 0
        for _ in range(r.randint(1, 3)):
            k = r.random()
            if k < .3:
                out.append('text')
            elif k < .5:
                out.append('[section%s S]' % r.choice(['', '', ':s%d' % n[0]]))
                level += 1
            elif k < .62:
                out.append('[endsect]')
                level -= 1
            elif depth < 2:
                out.append(nest(depth + 1))
        if r.random() > loose:
            out += ['[endsect]'] * level
            if r.random() < .8:
                out = ['[section T]'] * -level + out
        return '\n\n'.join(out)

    def nest(depth):
        k, n[0] = r.random(), n[0] + 1
        i = n[0]
        if k > .8:
            # nothing of these is written
            files['f%d.qbk' % i] = (content(depth, .6) + '\n').encode()
            return r.choice(NEST) % ('[import f%d.qbk]' % i)
        c = content(depth)
        if k < .4:
            return r.choice(NEST) % c
        if k < .6:
            defs.append('[template t%d[]\n%s\n]' % (i, c))
            return r.choice(NEST) % ('[t%d]' % i)
        files['f%d.qbk' % i] = (r.choice(['', '', '[article A\n[quickbook 1.%d]\n]\n' % r.choice([5, 6, 7])]) + c + '\n').encode()
        return r.choice(NEST) % ('[include f%d.qbk]' % i)
    body = '\n\n'.join([content(0) for _ in range(r.randint(1, 3))])
    files['a.qbk'] = ('[article T\n[quickbook 1.%d]\n]\n\n[def __y__ y]\n\n%s\n\n%s\n\nend\n' % (v - 100, '\n\n'.join(defs), body)).encode()
    return files


def make(seed):
    r = random.Random('C03/%d/%d' % (CFG['seed'], seed))
    k = r.random()
    files, what, used, args = {}, None, [], []
    if seed % 3 == 2:
        files = soup.files(r)[1]
        what = 'soup'
    elif seed % 6 == 4:
        files = sections(r)
        what = 'sections'
    elif k < .55:
        src, used, v = slot_doc(r)
        what = 'slots'
        files['a.qbk'] = src.encode()
    elif k < .7:
        v = r.choice(qdoc.VERSIONS)
        g = qdoc.Gen(r, v, inline=[i for i in qdoc.INLINE], block=[b for b in qdoc.BLOCK if b != 'cblock'])
        src = g.document(r.randint(1, 7))[0]
        used = sorted(g.used)
        what = 'generated'
        files['a.qbk'] = src.encode()
    elif k < .78:
        # names of files, macros of the command line
        n1, n2 = ('i' + re.sub(r'[\s/\\*?\[\]]', '', hostile(r, '/.\\')) for _ in range(2))
        v = r.choice([106, 107])
        src = '[library x\n[quickbook 1.%d]\n]\n[include %s.qbk]\n\n[xinclude %s.xml]\n\n[import %s.cpp]\n\n[snip] `__FILENAME__` __FILENAME__ _cmd_\n' % (v - 100, esc(n1), esc(n2), esc(n1))
        h = hostile(r, '\n')
        files = {'a.qbk': src.encode(), n1 + '.qbk': ('p __FILENAME__ %s\n' % h).encode(),
                 n1 + '.cpp': ('//[snip\nint a; // %s\n/*` %s */\nx /*< %s >*/\n//]\n' % (h, h.replace('`', ''), h)).encode()}
        args = ['-D_cmd_=' + hostile(r, '\n[]')]
        used = ['file names', 'command line macro', 'snippet']
        what = 'files'
    else:
        b = mutate.mutate(r, r.choice(CFG['corpus']), CFG['corpus'])
        if r.random() < .5:
            b = b'[article x\n[quickbook 1.%d]\n]\n' % r.choice([1, 4, 5, 6, 7, 7]) + re.sub(rb'^\[(article|book|library|chapter)', rb'[/', b)
        b = bytes(c for c in b if 32 <= c < 127 or c in (9, 10))
        b = b.replace(b"'''", b"''").replace(b'xmlbase', b'dirname')
        b = re.sub(rb'\\([uU])', rb'\1', b)
        m = re.search(rb'\[quickbook\s+1\.([0-5])\]', b)
        if m or not re.search(rb'\[quickbook 1\.[67]', b):
            # attributes of old documents aren't escaped
            b = re.sub(rb'^\[(article|book|library|chapter)', rb'[/', b)
            b = b'[article x\n[quickbook 1.%d]\n]\n' % r.choice([1, 4, 5]) + b
            b = re.sub(rb'\[(version|lang|dirname|last-revision|category|biblioid|id|source-mode|copyright|authors|license|purpose)\b', rb'[^\1', b)
        files['a.qbk'] = b
        what = 'mutated'
    if what not in ('soup', 'sections') and mutate.nesting(files['a.qbk']) > 60:
        files['a.qbk'] = files['a.qbk'].replace(b'[[[[', b'[[')
    return files, what, used, args


SAFE = ['&', '<', '>', '"', '&amp;', '&lt;', '&#65;', '<b>', '</b>', '<!--', '-->', '&quot;', 'a', 'b', 'Z', '5']
HIDDEN = {'macro name', 'cond', 'role', 'section id', 'table id', 'svg'}


def placed(seed):
    """One place, one text: the text has to be found, decoded, in the output."""
    r = random.Random('C03p/%d/%d' % (CFG['seed'], seed))
    h = 'q' + ''.join(r.choice(SAFE) for _ in range(r.randint(1, 5))) + 'q'
    v = r.choice([101, 103, 104, 105, 106, 106, 107, 107])
    head, body, kind = '', 'text', 'article'
    if r.random() < .2 and v >= 106:
        name, tpl, first = r.choice([x for x in slots.DOCINFO[1:] if x[2] <= v])
        head = tpl.replace('%s', h) + '\n'
        name, kind = 'docinfo ' + name, 'library'
    else:
        name, tpl, forbid, first = r.choice([x for x in slots.SLOTS if x[3] <= v and x[0] not in HIDDEN and not (x[0] == 'anchor' and v >= 107)])
        body = tpl.replace('%s', h)
        if forbid and any(c in h for c in forbid):
            return None
    src = '[%s T\n[quickbook 1.%d]\n%s]\n\n%s\n' % (kind, v - 100, head, body)
    if "'''" in src:
        return None
    d = vlib.fresh_dir()
    vlib.write_tree(d, {'a.qbk': src})
    args = ['a.qbk', '--output-file=o.xml', '--no-pretty-print']
    q = vlib.run_qb(CFG['exe'], args, d, timeout=60)
    if q.timeout:
        return name, v, src, args, 'timeout'
    if q.rc:
        return name, v, src, args, None
    root = qdoc.parse_xml(open(os.path.join(d, 'o.xml'), 'rb').read())
    hay = [''.join(root.itertext())]
    for e in root.iter():
        hay += list(e.attrib.values()) + [qdoc.unquote(x) for x in e.attrib.values()]
    if not any(h in x for x in hay):
        return name, v, src, args, 'the text %r is not in the output:\n%s' % (h, open(os.path.join(d, 'o.xml')).read()[-900:])
    return name, v, src, args, ''


def esc(s):
    return re.sub(r'([\\\[\]])', r'\\\1', s)


def case(seed):
    files, what, used, xargs = make(seed)
    r = random.Random('C03f/%d/%d' % (CFG['seed'], seed))
    res = []
    for fmt, fargs in r.sample(FORMATS, 2 if what != 'mutated' else 1):
        d = vlib.fresh_dir()
        vlib.write_tree(d, files)
        args = ['a.qbk'] + xargs + fargs
        q = vlib.run_qb(CFG['exe'], args, d, timeout=20)
        if q.timeout:
            res.append((fmt, 'timeout', None, args, 0))
            continue
        p, key, nf = None, None, 0
        if q.rc == 0:
            outs = ['o.xml'] if fmt == 'boostbook' else ['o.html'] if fmt == 'onehtml' else \
                [os.path.relpath(os.path.join(a, f), d) for a, _, fs in os.walk(os.path.join(d, 'out')) for f in fs]
            if not outs:
                p, key = 'exit 0 but no output', 'no-output'
            for o in outs:
                op = os.path.join(d, o)
                if not os.path.isfile(op):
                    p, key = 'exit 0 but no file ' + o, 'no-output'
                    break
                data = open(op, 'rb').read()
                if fmt == 'boostbook':
                    p, key = wf.xml_problem(data), 'xml'
                elif o.endswith('.html'):
                    p, key = wf.html_problem(data), 'html'
                nf += 1
                if p:
                    p = '%s: %s' % (o, p)
                    break
        elif 'Post Processing Failed' in q.text or 'Mismatched tags' in q.text:
            # what the pretty printer can't make out isn't well formed
            p, key = 'the output could not be pretty printed: ' + q.text[-300:], 'pretty-print'
        res.append((fmt, key if p else None, p, args, nf))
    return what, files, used, res


def run():
    C = vlib.Check('C03', 'a distinct set of input files and format for which quickbook succeeded and whose output files were parsed')
    dbg = os.environ.get('DBG')
    CFG.update(exe=vlib.build('fast'), seed=C.seed, corpus=mutate.corpus()['qbk'])
    C.minimum = 500
    for what, files, used, res in vlib.pmap(case, range(C.n(10800, 180000))):
        for fmt, key, p, args, nf in res:
            if key == 'timeout':
                C.unsure('timeout')
                continue
            C.observe(repr((sorted(files.items()), args)), nf > 0, sample=repr(files) if what == 'slots' and nf else None)
            C.count('%s inputs %s' % (what, 'accepted' if nf else 'refused'))
            C.count('%s files parsed' % fmt, nf)
            if nf:
                for u in used:
                    C.count('place ' + u)
            if p and dbg: print(used, repr(p)[:200])
            if p:
                C.bad(vlib.Bad('%s-%s' % (key, what), p, files, args))
    for res in vlib.pmap(placed, range(C.n(2500, 30000))):
        if res is None:
            continue
        name, v, src, args, p = res
        if p == 'timeout':
            C.unsure('timeout')
            continue
        C.observe(src, p is not None)
        C.count('texts found at their place' if p == '' else 'texts refused')
        if p:
            C.bad(vlib.Bad('lost-in-' + name.replace(' ', '-'), 'quickbook 1.%d: %s' % (v - 100, p), {'a.qbk': src}, args))
    return C.finish()


vlib.main(run)
