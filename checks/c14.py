#!/usr/bin/env python3
"""C14: diagnostics name the place of the mistake.

A mistake is planted at a known place of a generated document; the first diagnostic has to be about it and to name its file
and line.  Documents without a mistake have to be silent.
"""
import os, random, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vlib, qdoc, mistakes
CFG = {}
MARK = 'QQMISTAKEQQ'


def contexts(r, g, v, inline):
    """-> (name, source with the mark)"""
    w, n = g.ws, g.n
    res = [('paragraph', lambda: '%s %s\n%s %s' % (w(), w(), MARK, w()) if inline else MARK),
           ('quote', lambda: ': %s' % MARK if False else '%s\n\n%s\n\n%s' % (w(), MARK, w()))]
    if inline:
        res += [
            ('bold', lambda: '%s [*%s %s] %s' % (w(), w(), MARK, w())),
            ('nested phrase', lambda: '%s [*%s ["%s\n [\'%s %s] %s] %s] %s' % (w(), w(), w(), w(), MARK, w(), w(), w())),
            ('list item', lambda: '* %s\n* %s\n  %s %s\n* %s' % (w(), w(), w(), MARK, w())),
            ('nested list item', lambda: '# %s\n  # %s\n  # %s %s\n# %s' % (w(), w(), w(), MARK, w())),
            ('table cell', lambda: '[table %s\n[[%s] [%s]]\n[[%s]\n [%s\n  %s]]\n]' % (w(), w(), w(), w(), w(), MARK)),
            ('footnote', lambda: '%s [footnote %s\n%s] %s' % (w(), w(), MARK, w())),
            ('variable list', lambda: '[variablelist %s\n[[%s] [%s]]\n[[%s] [%s %s]]\n]' % (w(), w(), w(), w(), w(), MARK)),
            ('heading', lambda: '[heading %s %s]' % (w(), MARK)),
            ('section title', lambda: '[section %s %s]\n\n%s\n\n[endsect]' % (w(), MARK, w())),
            ('table title', lambda: '[table %s %s\n[[%s]]\n[[%s]]]' % (w(), MARK, w(), w()) if v >= 106 else MARK),
            ('code escape', lambda: '%s\n\n   int %s;\n   f(``%s``);\n\n%s' % (w(), g.w(), MARK, w())),
            ('code escape after tabs', lambda: '\tint %s;\n\n\n\tint %s; ``%s`` // x' % (g.w(), g.w(), MARK)),
            ('delimited code', lambda: '```\nint %s;\n\n f(``%s``);\n```' % (g.w(), MARK)),
            ('macro value', lambda: '[def __m__ %s %s]\n\n%s __m__' % (w(), MARK, w())),
            ('template body', lambda: '[template body%d[x y] %s [x]\n%s [y]]\n\n%s\n\n%s [body%d a b]' % (n, w(), MARK, w(), w(), n) if v > 103 else MARK),
            ('block template body', lambda: '[template bbody%d[x]\n\n%s\n\n%s [x] %s\n\n]\n\n%s\n\n[bbody%d a]' % (n, w(), w(), MARK, w(), n)),
            ('template argument', lambda: '%s [id %s\n%s] %s' % (w(), w(), MARK, w())),
            ('second template argument', lambda: '%s [two %s..%s\n%s %s] %s' % (w(), w(), w(), MARK, w(), w())),
            ('argument of an argument', lambda: '%s [id [id %s\n[id %s %s]]] %s' % (w(), w(), w(), MARK, w())),
            ('conditional', lambda: '[def __c__]\n\n%s [?__c__ %s\n%s]' % (w(), w(), MARK)),
            ('link text', lambda: '%s [@http://a.b %s\n%s] %s' % (w(), w(), MARK, w())),
            ('old list', lambda: '[section %s]\n\n* %s %s\n\n[endsect]' % (w(), w(), MARK)),
        ]
    if inline or v >= 107:
        res += [
            ('section', lambda: '[section %s]\n\n%s\n\n[section %s]\n\n%s\n\n%s\n\n%s\n\n[endsect]\n\n[endsect]' % (w(), w(), w(), w(), MARK, w())
             if 'endsect' not in CFG['m'][0] or 'section:' in CFG['m'][0] else MARK),
            ('admonition', lambda: '[note %s\n\n%s\n\n%s]' % (w(), MARK, w())),
            ('block quote', lambda: '[:%s\n\n%s\n\n%s]' % (w(), MARK, w())),
            ('nested admonition', lambda: '[warning %s\n\n[:%s\n\n%s%s\n]\n]' % (w(), w(), w() + ' ' if inline else '', MARK)),
            ('cell of several paragraphs', lambda: '[table %s\n[[%s] [%s]]\n[[%s] [%s\n\n%s\n\n%s]]\n]' % (w(), w(), w(), w(), w(), MARK, w())),
            ('after comments', lambda: '[/ %s\n\n[/ %s ]\n%s]\n\n%s\n\n[/ %s]\n\n%s' % (w(), w(), w(), w(), w(), MARK)),
            ('after code', lambda: '\tint %s;\n\n\n\n\t\tint %s;\n\n\n%s\n\n%s' % (g.w(), g.w(), w(), MARK)),
            ('after a list', lambda: '* %s\n\n* %s\n  * %s\n\n%s\n\n%s' % (w(), w(), w(), w(), MARK)),
            ('body of a block template', lambda: '[template bb%d[x]\n\n%s\n\n%s\n\n%s [x]\n\n]\n\n%s\n\n[bb%d a]' % (n, w(), MARK, w(), w(), n)),
        ]
    return res


def plant(r):
    v = r.choice([103, 105, 106, 107, 107, 107, 107])
    g = qdoc.Gen(r, v, inline=qdoc.INLINE, block=[b for b in qdoc.BLOCK if b not in ('cblock', 'section')])
    inline = r.random() < .55 and v > 103
    m = r.choice([m for m in (mistakes.INLINE if inline else mistakes.BLOCK) if m[1] <= v <= m[2]])
    CFG['m'] = m
    name, c = r.choice(contexts(r, g, v, inline))
    if name in mistakes.NESTED and v >= 107 and m[0] in mistakes.NOT_NESTED:
        m = m[:3] + mistakes.NOT_NESTED[m[0]]
    pre = mistakes.PRE + '[template id[x] [x]]\n[template two[x y] [x] [y]]\n[template bid[x]\n[x]\n]\n' if v >= 105 else ''
    parts = [g.ws(), c(), g.ws()]    # (lists would be continued)
    for j in (0, 3):
        k = r.randint(0, 3)
        if k:
            parts.insert(j and len(parts), g.blocks(k)[0])
    head = '[article T\n[quickbook 1.%d]\n[id dd]\n]\n\n' % (v - 100) + pre + '\n' * r.randint(1, 4)
    files, where = {}, 'a.qbk'
    body = ''
    for i, p in enumerate(parts):
        body += ('\n' * r.randint(2, 4) if i else '') + p
    body += '\n'
    x = r.random()
    if x < .3:
        where = r.choice(['b.qbk', 'sub/b.qbk', 'lib/b.qbk'])
        files[where] = '\n' * r.randint(0, 3) + body
        if v >= 106 and r.random() < .5:
            files[where] = '[article B\n[quickbook 1.%d]\n]\n' % (v - 100) + pre + '\n' * r.randint(1, 3) + body
        files['a.qbk'] = head + '%s\n\n\n[include %s]\n\n%s\n' % (g.ws(), where.replace('lib/', ''), g.ws())
    elif x < .4 and v >= 106 and 'template body' in name:
        # templates of an imported file
        where = 'imp.qbk'
        d, call = body, ''
        calls = re.findall(r'\n\n([^\n]*\[b*body\d+ [ab ]+\])', body)
        files[where] = '[article I\n[quickbook 1.%d]\n]\n\n' % (v - 100) + pre + '\n\n' + body
        files['a.qbk'] = '[article T\n[quickbook 1.%d]\n[id dd]\n]\n\n[import imp.qbk]\n\n%s\n' % (v - 100, '\n\n'.join(calls))
    else:
        files['a.qbk'] = head + body
    line = files[where][:files[where].index(MARK)].count('\n') + 1 + m[3]
    files[where] = files[where].replace(MARK, m[0])
    return v, files, where, line, m, name


def diagnostics(text, ms=False):
    """[(file, line or None, kind, message)]"""
    res = []
    for l in text.split('\n'):
        m = re.match(r'(?:(.*?)(?:\((\d+)\))?: )?(error|warning): (.*)$' if ms else r'(?:(.*?)(?::(\d+))?: )?(error|warning): (.*)$', l)
        if m:
            res.append((m.group(1), int(m.group(2)) if m.group(2) else None, m.group(3), m.group(4)))
        elif l.startswith('Error: ') and 'Error count' not in l:
            res.append((None, None, 'error', l[7:]))
    return res


def case(i):
    r = random.Random('C14/%d/%d' % (CFG['seed'], i))
    v, files, where, line, m, name = plant(r)
    how = r.choice(['LF', 'LF', 'CRLF', 'CR', 'BOM'])
    f2 = {k: t.encode('utf8') for k, t in files.items()}
    if how == 'BOM':
        f2 = {k: b'\xef\xbb\xbf' + b for k, b in f2.items()}
    elif how != 'LF':
        f2 = {k: b.replace(b'\n', {'CRLF': b'\r\n', 'CR': b'\r'}[how]) for k, b in f2.items()}
    d = vlib.fresh_dir()
    vlib.write_tree(d, f2)
    ms = r.random() < .1
    q = vlib.run_qb(CFG['exe'], ['a.qbk', '-I', 'lib', '--output-file=o.xml'] + ms * ['--ms-errors'], d)
    b = None
    if q.timeout:
        return v, files, name, m, how, 'timeout'
    ds = [x for x in diagnostics(q.text, ms) if not (x[2] == 'warning' and 'Redefinition' not in x[3])]
    if q.rc != 1:
        b = 'accepted', 'exit %d: %r' % (q.rc, q.text[:200])
    elif not ds:
        b = 'silent', 'no diagnostic: %r' % q.text[:300]
    else:
        f, l, k, msg = ds[0]
        if not re.search(m[4], msg):
            b = 'message', 'the first diagnostic says %r (%s:%s), expected %r' % (msg, f, l, m[4])
        elif f is None or os.path.normpath(f) != where:
            b = 'file', '%r is reported in %s, but is in %s' % (msg, f, where)
        elif l != line:
            b = 'line', '%r is reported in line %s, but is in line %d' % (msg, l, line)
    if b:
        b = b[0], '%s in %s (%s): %s' % (repr(m[0]), name, how, b[1])
    return v, files, name, m, how, b


def source(i):
    """Mistakes in files of their own."""
    r = random.Random('C14s/%d/%d' % (CFG['seed'], i))
    n, text, use, v0, v1, line, pat = mistakes.FILES[i % len(mistakes.FILES)]
    v = r.choice([x for x in (105, 106, 107) if v0 <= x <= v1])
    k = r.randint(0, 6)
    if n.endswith('.qbk'):
        text = '\n' * k + text
    else:
        c = '#' if n.endswith('.py') else '//'
        text = ''.join(r.choice(['\n', '%s x\n' % c, 'int q%d;\n' % j, '   \n', '\t\n', '%s[other%d\ny%d\n%s]\n' % (c, j, j, c)]) for j in range(k)) + text
        at = text.rindex(mistakes.FILES[i % len(mistakes.FILES)][1])
        k = text[:at].count('\n')
        if r.random() < .3 and n not in ('bad2.cpp',):
            text += '\n%s[last\nz\n%s]\n' % (c, c)
    main = '[article T\n[quickbook 1.%d]\n[id dd]\n]\n\n%s\n%s%s\n\nend\n' % (v - 100, mistakes.PRE, '\n' * r.randint(1, 5), use)
    how = r.choice(['LF', 'LF', 'CRLF', 'CR'])
    files = {'a.qbk': main, n: text}
    f2 = {x: t.encode('utf8').replace(b'\n', {'LF': b'\n', 'CRLF': b'\r\n', 'CR': b'\r'}[how]) for x, t in files.items()}
    d = vlib.fresh_dir()
    vlib.write_tree(d, f2)
    q = vlib.run_qb(CFG['exe'], ['a.qbk', '--output-file=o.xml'], d)
    b = None
    if q.timeout:
        return v, files, n, how, 'timeout'
    ds = diagnostics(q.text)
    want = None if line is None else line + k
    if q.rc != 1:
        b = 'accepted', 'exit %d: %r' % (q.rc, q.text[:200])
    elif not ds or not re.search(pat, ds[0][3]):
        b = 'message', 'expected %r first, found %r' % (pat, q.text[:200])
    elif ds[0][0] != n:
        b = 'file', '%r is reported in %s, but is in %s' % (ds[0][3], ds[0][0], n)
    elif want is not None and ds[0][1] != want:
        b = 'line', '%r is reported in line %s, but is in line %d' % (ds[0][3], ds[0][1], want)
    elif ds[0][1] is not None and not 1 <= ds[0][1] <= text.count('\n') + 1:
        b = 'line', '%r is reported in line %s of %d' % (ds[0][3], ds[0][1], text.count('\n'))
    return v, files, n, how, b


def correct(i):
    r = random.Random('C14v/%d/%d' % (CFG['seed'], i))
    v = r.choice(qdoc.VERSIONS)
    g = qdoc.Gen(r, v, inline=[x for x in qdoc.INLINE if x != 'br'], block=[b for b in qdoc.BLOCK if b != 'cblock'])
    src, _ = g.document(r.randint(2, 10))
    d = vlib.fresh_dir()
    vlib.write_tree(d, {'a.qbk': src})
    q = vlib.run_qb(CFG['exe'], ['a.qbk', '--output-file=o.xml'], d)
    if q.timeout:
        return v, src, 'timeout'
    rest = [l for l in q.text.split('\n') if l and l != 'Generating output file: o.xml' and 'unexpected character' not in l]
    return v, src, ('noise', 'exit %d, messages for a correct document: %r' % (q.rc, rest[:4])) if rest or q.rc else None


def run():
    C = vlib.Check('C14', 'a distinct document with one planted mistake')
    CFG.update(exe=vlib.build('fast'), seed=C.seed)
    C.minimum = 100
    for v, files, name, m, how, b in vlib.pmap(case, range(C.n(10000, 80000))):
        if b == 'timeout':
            C.unsure('timeout')
            continue
        C.observe(repr((sorted(files.items()), how)), True, None)
        C.count('mistakes in %s' % name)
        C.count('quickbook 1.%d' % (v - 100))
        if b:
            C.bad(vlib.Bad(b[0], 'quickbook 1.%d: %s' % (v - 100, b[1]), files, []))
    for v, files, n, how, b in vlib.pmap(source, range(C.n(1500, 8000))):
        if b == 'timeout':
            C.unsure('timeout')
            continue
        C.observe(repr((sorted(files.items()), how)), True, None)
        C.count('mistakes in other files')
        if b:
            C.bad(vlib.Bad(b[0], 'quickbook 1.%d (%s), %s: %s' % (v - 100, how, n, b[1]), files, []))
    for v, src, b in vlib.pmap(correct, range(C.n(1800, 10000))):
        if b == 'timeout':
            C.unsure('timeout')
            continue
        C.observe(src, True, None)
        C.count('correct documents')
        if b:
            C.bad(vlib.Bad(b[0], 'quickbook 1.%d: %s' % (v - 100, b[1]), {'a.qbk': src}, []))
    return C.finish()


if __name__ == '__main__':
    vlib.main(run)
