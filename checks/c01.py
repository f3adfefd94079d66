#!/usr/bin/env python3
"""C01: no input makes quickbook touch memory it doesn't own, invoke undefined behaviour, or end abnormally."""
import os, random, re, shutil, sys
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vlib, qdoc, gold, mutate, soup, rawxml

CFG = {}
REPORT = re.compile(r'AddressSanitizer|runtime error:|UndefinedBehaviorSanitizer|Assertion .* failed|terminate called|LeakSanitizer')
OPTIONS = [[], ['--output-format=onehtml'], ['--output-format=html'], ['--strict'], ['--no-pretty-print'], ['--linewidth=20', '--indent=0'],
           ['-Dfoo=bar', '-D__x__=[*y]', '-D_e_'], ['--no-self-linked-headers'], ['--debug'], ['--indent=8', '--linewidth=1'],
           ['--output-format=onehtml', '--graphics-path=img', '--css-path=x.css'], ['--output-format=html', '--no-pretty-print'],
           ['--expect-errors'], ['--xinclude-base=.'], ['--output-deps=deps.txt'], ['--output-format=boostbook', '-I', 'sub'],
           ['--output-checked-locations=loc.txt', '--output-deps=d.txt'], ['--image-location=img', '--output-format=onehtml'],
           ['--boost-root-path=/x', '--output-format=onehtml']]

CALLER = b'''[article t
[quickbook 1.%d]
]
[import s.%s]
[import s.%s]
[include s.%s]
[foo] [a] [b] [snippet] [`foo] [foo x..y] [class_] [bar]
'''


def signature(text):
    """A stable name of what was reported: the kind of error and the function it happened in."""
    m = re.search(r'SUMMARY: \w+: (\S+) \S+?([^/\s]+?):\d+(?::\d+)? in (.*)', text)
    if m:
        return re.sub(r'[^A-Za-z0-9_:]+', '-', '%s-%s' % (m.group(1), m.group(3)))[:80]
    m = re.search(r'/([^/\s]+):\d+:\d+: runtime error: (.{0,40})', text)
    if m:
        return re.sub(r'[^A-Za-z0-9_:]+', '-', 'ub-%s-%s' % m.groups())[:80]
    m = re.search(r'Assertion .(.{0,50})', text)
    if m:
        return 'assert-' + re.sub(r'[^A-Za-z0-9_:]+', '-', m.group(1))
    m = re.search(r'SUMMARY: (.{0,60})', text)
    return re.sub(r'[^A-Za-z0-9_:]+', '-', m.group(1)) if m else 'abnormal-end'


ATTRIBUTES = ['[purpose %s]', '[license %s]', '[copyright 2001 %s]', '[authors [A, %s]]', '[id %s]', '[category %s]', '[biblioid isbn %s]', '[version %s]',
              '[last-revision %s]', '[source-mode %s]', '[xmlbase %s]', '[lang %s]', '[dirname %s]', '%s', '[compatibility-mode %s]']
PIECES = ['[h1 x]', '[heading x]', '[section x]', '[endsect]', '[footnote x]', '[table [[a]]]', '[table t [[a][b]]]', '[include b.qbk]', '[import b.qbk]',
          '[xinclude b.xml]', '[template t[] x]', '[template tt[a] x [a]]', '[t]', '[tt x]', '[def m2 x]', 'm2', '__DATE__', '__FILENAME__', '`code`', '``code``',
          "[`code]", "'''<x/>'''", '\\n', '[br]', '\\u00e9', '[#anchor]', '[link a b]', '[@x y]', '[$x.png]', '[$x.svg [alt y]]', '[$x.png [width 1]]',
          '\n\n  code\n\n', '\n* a\n  * b\n', '[note x]', '[variablelist [[a][b]]]', '[ordered_list [a]]', '[pre x]', '[blurb x]', '[:x]', '[role r x]',
          '[classref x]', '[c++]', '[!python]', '[*x]', '*x*', '[/ x]', '[index a]', '[macro a b]', '[block x]', '[phrase x]', '----', '[/', ']', '[', 'x', ' ', '&']


def markup(r, v):
    s = ''.join(r.choice(PIECES) + r.choice(['', '', ' ']) for _ in range(r.randint(1, 4)))
    w = r.random()
    if w < .5:
        s = r.choice(['[? __DATE__ %s]', '[*%s]', '[@x %s]', '[footnote %s]', '[? __DATE__ \n\n%s\n\n]', '[template q[] %s][q]', '[def q %s]', '[note %s]']) % s
    return s


def commented(r, ext):
    """A source file with quickbook in its comments."""
    out = []
    for _ in range(r.randint(1, 6)):
        ind = r.choice(['', '', '    ', '  ', '\t', ' \t', '        '])
        lines = [' '.join(r.choice(PIECES + ['[', '[foo', '[*a', '[section a', "'''", '`', '``', '[/']) for _ in range(r.randint(0, 3))) for _ in range(r.randint(1, 5))]
        if r.random() < .5:
            lines.append(r.choice(['[', '[foo x', '[table', '[section', '[*', '[endsect]', '[$', '[template q[] x', ']', '[link', 'word', '']))
        text = ('\n' + r.choice([ind, ind, ind + ' ', '', ind + '  '])).join('\n'.join(lines).split('\n'))
        n = r.choice(['foo', 'a', 'b', 'bar'])
        if ext == 'py':
            out.append(r.choice(['%s"""`%s%s"""', '%s#[%s\n%s\n#]', "%s#=%s%s"]) % (ind, r.choice(['', '\n' + ind]) if r.random() < .7 else n, text))
        else:
            out.append(r.choice(['%s/*`%s%s%s*/', '%s//[' + n + '\n%s/*`%s%s*/\n//]', '%s/*[' + n + ']%s%s%s/*]*/', '%s//` %s%s%s', '%s//=%s%s%s', '%s/*=%s%s%s=*/', '%s/*<%s%s%s>*/'])
                       % (ind, r.choice(['', '', '\n' + ind, ' ']), text, r.choice(['', '\n', '\n' + ind])))
        if r.random() < .3:
            out.insert(0, '%s[%s' % ('#' if ext == 'py' else '//', n))
            out.append('%s]' % ('#' if ext == 'py' else '//'))
    return r.choice(['\n', '\n', '\n\n', '\r\n']).join(out) + r.choice(['', '\n'])


def make_case(seed):
    r = random.Random('C01/%d/%d' % (CFG['seed'], seed))
    K = CFG['corpus']
    files, kind = {}, r.random()
    if seed % 4 == 3:
        # everything the language has, nested in everything
        files = soup.files(r)[1]
        return files, ['a.qbk'] + r.choice(OPTIONS), 'soup'
    elif seed % 8 == 2:
        # XML written by the author, well formed or not, into HTML
        files['a.qbk'] = rawxml.document(r).encode('utf8')
        return files, ['a.qbk'] + r.choice([['--output-format=onehtml'], ['--output-format=html'], ['--output-format=onehtml', '--no-pretty-print'],
                                            ['--output-format=html', '--no-pretty-print'], [], ['--output-format=onehtml', '--graphics-path=img', '--boost-root-path=../..']]), 'raw XML'
    elif seed % 16 == 6:
        # quickbook in the comments of source files, at all indentations and ending anywhere
        ext = r.choice(['cpp', 'cpp', 'cpp', 'py'])
        files['s.' + ext] = commented(r, ext).encode('utf8')
        files['a.qbk'] = CALLER % (r.choice([3, 5, 6, 7, 7]), ext.encode(), ext.encode(), ext.encode())
        return files, ['a.qbk'] + r.choice(OPTIONS), 'comments'
    elif kind < .12:
        v = r.choice(qdoc.VERSIONS)
        g = qdoc.Gen(r, v, inline=qdoc.INLINE, block=[b for b in qdoc.BLOCK if b != 'cblock'])
        src = g.document(r.randint(1, 8))[0].encode()
        if r.random() < .6:
            src = mutate.mutate(r, src, K['qbk'])
        files['a.qbk'], what = src, 'generated'
    elif kind < .27:
        ext = r.choice(['cpp', 'py', 'cpp'])
        files['s.' + ext] = mutate.mutate(r, r.choice(K[ext]), K[ext] + K['qbk'])
        files['a.qbk'] = CALLER % (r.choice([3, 5, 6, 7, 7]), ext.encode(), ext.encode(), ext.encode())
        what = 'snippets'
    elif kind < .33:
        files['a.qbk'] = b''.join(r.choice(mutate.TOKENS) + (r.choice([b'', b' ', b'a', b'\n'])) for _ in range(r.randint(1, 60)))
        if r.random() < .8:
            files['a.qbk'] = b'[article x\n[quickbook 1.%d]\n]\n' % r.randint(1, 7) + files['a.qbk']
        what = 'tokens'
    elif kind < .36:
        n = r.randint(5, 120)
        o, c = r.choice([(b'[*', b']'), (b'[', b']'), (b"[']", b']'), (b'[note ', b']'), (b'[section a]\n', b'[endsect]\n'), (b'[t ', b']'), (b'* a\n', b''),
                         (b'[table x [[a][', b']]]'), (b'[:', b']'), (b'(', b')'), (b'[/', b']'), (b'[? _e_ ', b']'), (b'[footnote ', b']')])
        closed = r.random() < .9 or o not in (b'[section a]\n', b'* a\n')
        files['a.qbk'] = b'[article x\n[quickbook 1.%d]\n]\n[template t[x] [x]]\n' % r.randint(1, 7) + o * n + b'x' + (c * n if closed else b'')
        what = 'nested'
    elif kind < .42:
        # several files with different versions that use each other
        names = ['a.qbk', 'b.qbk', 'c.qbk', 's.cpp']
        for n in names[:3]:
            b = mutate.mutate(r, r.choice(K['qbk'])[:5000], K['qbk'])
            t = b'\n[%s %s]\n' % (r.choice([b'include', b'import', b'include:x', b'xinclude']), r.choice(names).encode())
            p = r.randrange(len(b) + 1) if r.random() < .5 else len(b)
            files[n] = b[:p] + t + b[p:]
        files['s.cpp'] = r.choice(K['cpp'])
        what = 'files'
    elif kind < .5:
        # markup in places that are parsed outside of a document
        v = r.choice(qdoc.VERSIONS)
        head, n = [], r.randint(1, 3)
        for _ in range(n):
            head.append(r.choice(ATTRIBUTES) % markup(r, v))
        files['a.qbk'] = ('[%s %s\n[quickbook 1.%d]\n%s\n]\n\n[t] m1 [tt a]\n\n[m2]\n' % (
            r.choice(['article', 'book', 'library']), r.choice(['T', 'T', markup(r, v)]), v - 100, '\n'.join(head))).encode()
        files['b.qbk'] = b'[article B\n]\n\ntext [t] m1\n'
        args = ['a.qbk'] + r.choice(OPTIONS[:6])
        for _ in range(r.randint(0, 2)):
            args.append('-D%s' % r.choice(['m1', 'm2', 'a-b', '__x__']) + r.choice(['=', '= ', ' ', ' = ']) + markup(r, v))
        return files, args, 'outside'
    else:
        files['a.qbk'] = mutate.mutate(r, r.choice(K['qbk']), K['qbk'])
        what = 'mutated'
        if r.random() < .5:
            # give it a chance to get past its document information
            files['a.qbk'] = b'[article x\n[quickbook 1.%d]\n]\n' % r.randint(1, 7) + re.sub(rb'^\[(article|book|library|chapter)', rb'[/', files['a.qbk'])
    args = ['a.qbk'] + r.choice(OPTIONS)
    if mutate.nesting(files['a.qbk']) > 200:
        files['a.qbk'] = files['a.qbk'].replace(b'[[[[', b'[[')
    return files, args, what


def case(seed):
    files, args, what = make_case(seed)
    d = vlib.fresh_dir()
    vlib.write_tree(d, files)
    if '--output-format=html' in args:
        args = args + ['--output-dir=out']
    else:
        args = args + ['--output-file=out.x']
    q = vlib.run_qb(CFG['exe'], args, d, timeout=20, san=True)
    if not q.timeout and (q.abnormal or REPORT.search(q.text)):
        return seed, what, files, args, signature(q.text), 'exit %d: %s' % (q.rc, trim(q.text)), q.rc
    return seed, what, files, args, 'timeout' if q.timeout else None, None, q.rc


def trim(text):
    m = REPORT.search(text)
    a = max(0, m.start() - 100) if m else max(0, len(text) - 1200)
    return text[a:a + 1800]


def dense(v, r):
    """One document that uses everything, for memcheck."""
    g = qdoc.Gen(r, v, inline=qdoc.INLINE, block=[b for b in qdoc.BLOCK if b != 'cblock'])
    src, _ = g.document(14)
    src = src.replace(']\n\n', ']\n[authors [A, B] [C, D]]\n[copyright 2001-2003 2005 X, 2007 Y]\n[license L [@http://x.org y]]\n[purpose P]\n[version 1]\n[category c]\n]\n\n', 1) \
        if False else src
    return src + '''
[def __m__ macro *text*]
[template tt[a b] [a] and [b]]
[template bb
para

* list
]

[tt one..two] [tt [*x]..`y`] __m__ [bb]

[? __m__ yes][? __nope__ no]

[import s.cpp]
[import s.py]
[snip] [call] [pysnip]

[section:deep Deep]
[heading X] [#anch] text [link anch]
[endsect]
'''


CPP = '''//[snip
int main() { return 0x1F + 'c' + "str"[0]; } // comment
#define X 1
/*<< called out >>*/ foo(); /*< here >*/
//]
//[call
/*` text [*bold] */
class x : public y { /*<-*/ hidden /*->*/ };
//=shown();
//]
'''
PY = '''#[pysnip
def f(x):
    """doc"""
    #`some [*text]
    return 'a' + "b" # comment
#]
'''


def memcheck(job):
    i, v, fmt = job
    r = random.Random('C01m/%d/%d' % (CFG['seed'], i))
    d = vlib.fresh_dir()
    src = dense(v, r).encode()
    if i % 2:
        src = mutate.mutate(r, src, CFG['corpus']['qbk'], n=3)
    files = {'a.qbk': src, 's.cpp': CPP, 's.py': PY}
    vlib.write_tree(d, files)
    args = ['a.qbk', '--output-format=' + fmt] + (['--output-dir=out'] if fmt == 'html' else ['--output-file=o.x'])
    q = vlib.run_qb(CFG['plain'], args, d, timeout=300,
                    prefix=['valgrind', '-q', '--error-exitcode=97', '--leak-check=no', '--undef-value-errors=yes', '--num-callers=8'])
    key = msg = None
    if q.timeout:
        key = 'timeout'
    elif q.rc not in (0, 1):
        fn = re.search(r'(?:at|by) 0x[0-9A-F]+: (quickbook::[A-Za-z_:]+)', q.text)
        key = 'memcheck-' + (fn.group(1) if fn else 'error')
        msg = 'valgrind, exit %d: %s' % (q.rc, q.text[:1800])
    return files, args, key, msg, q.rc


def run():
    C = vlib.Check('C01', 'a distinct input (set of files and options) that got past reading its document information or was diagnosed')
    with ThreadPoolExecutor(2) as ex:
        f1 = ex.submit(vlib.build, 'san')
        f2 = ex.submit(vlib.build, 'fast')
        CFG.update(exe=f1.result(), plain=f2.result())
    CFG.update(seed=C.seed, corpus=mutate.corpus())
    C.minimum = 200
    # 1. the documents of the repository, in both formats
    for res in gold.run(CFG['exe'], ('boostbook', 'onehtml'), san=True):
        rel = os.path.relpath(os.path.join(res.case.dir, res.case.input), vlib.REPO)
        if res.timeout:
            C.unsure('timeout ' + rel)
            continue
        C.observe('repo:%s:%s' % (rel, res.fmt))
        C.count('documents of /repo/test under ASan+UBSan')
        if res.abnormal or REPORT.search(res.text):
            C.bad(vlib.Bad(signature(res.text), '%s (%s): exit %d: %s' % (rel, res.fmt, res.rc, trim(res.text)),
                           {'a.qbk': open(os.path.join(res.case.dir, res.case.input), 'rb').read()}, res.case.args))
        elif res.fmt == 'boostbook' and res.gold is not None and res.out is not None:
            # uninitialised memory is filled with patterns in this build: output must not depend on it
            if [l.rstrip() for l in res.gold.splitlines()] != [l.rstrip() for l in res.out.splitlines()]:
                C.count('documents whose output differs from the recorded one (not judged here)')
    # 2. hostile inputs
    for seed, what, files, args, key, msg, rc in vlib.pmap(case, range(C.n(4800, 160000))):
        if key == 'timeout':
            C.unsure('timeout on case %d (%s)' % (seed, what))
            continue
        C.observe(repr((sorted(files.items()), args)), True, sample=None)
        C.count('hostile inputs: ' + what)
        C.count('ended with exit %d' % rc)
        if key:
            C.bad(vlib.Bad(key, msg, files, args))
    # 3. uninitialised values
    jobs = [(i, v, fmt) for i, (v, fmt) in enumerate([(v, f) for v in (101, 104, 106, 107) for f in ('boostbook', 'onehtml')] * C.n(2, 12))]
    jobs += [(len(jobs), 107, 'html')]
    for files, args, key, msg, rc in vlib.pmap(memcheck, jobs, chunk=1):
        if key == 'timeout':
            C.unsure('memcheck timeout')
            continue
        C.observe(repr((sorted(files.items()), args)))
        C.count('documents under memcheck')
        if key:
            C.bad(vlib.Bad(key, msg, files, args))
    return C.finish()


if __name__ == '__main__':
    vlib.main(run)
