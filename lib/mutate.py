"""Hostile inputs: mutations of the documents of /repo and of generated documents."""
import os, re
import vlib

TOKENS = ['[', ']', '[[', ']]', '[/', '[*', "['", '["', '[_', '[^', '[-', '[~', '[:', '[@', '[#', '[$', '[?', '[?!', '[`', "'''", '`', '``', '```',
          '````', '*', '_', '/', '=', '\\', '\\n', '\\ ', '\\u00e9', '\\uD800', '\\U0001F600', '\\u', '\\[', '..', '\n', '\n\n', '\r\n', '\r', '\t',
          ' ', '    ', '\n    ', '\n* ', '\n# ', '\n  * ', '\n\t', '----', '\n----\n', '[section a]', '[section:b c]', '[endsect]', '[endsect:b]',
          '[h1 x]', '[heading:z y]', '[table', '[table x [[a][b]] [[c][d]]]', '[[a][b]]', '[variablelist x [[a][b]]]', '[note x]', '[pre x]', '[blurb x]',
          '[def foo bar]', '[def _x_ [*y]]', '[template t[a b] [a][b]]', '[template t [x]]', '[t a..b]', '[t [t a..b]..c]', '[include a.qbk]',
          '[import a.cpp]', '[xinclude x.xml]', '[ordered_list [a][b]]', '[itemized_list [a [b]]]', '[footnote x]', '[role r x]', '[link a b]', '[funcref a]',
          '[c++]', '[python]', '[teletype]', '[!c++]', '[!teletype]', '[br]', '[block x]', '[quickbook 1.7]', '[quickbook 1.5]', '[quickbook 1.1]', '[id x]',
          '[source-mode python]', '[authors [a, b]]', '[copyright 2001-2003 2005 x]', '[version 1', '[lang de]', '[license x]', '[purpose x]', '[category x]',
          '[last-revision $x$]', '[dirname x]', '[biblioid isbn x]', '[compatibility-mode 1.5]', '[compatibility-mode 1.7]', '__FILENAME__', '__DATE__',
          '__TIME__', '$1', '//', '//[a', '//]', '//`', '//`x', '//=', '//<-', '//->', '/*<x>*/', '/*<< x >>*/', '/*[a]*/', '/*<-*/', '/*->*/', '#[a', '#]', '#=',
          '#`x', '"""', '"', "'", '/*', '*/', '#define x', '0x1F', '1.5e3', '\x00', '\x01', '\xff', '\xfe\xff', '\xef\xbb\xbf', '\xc3', '\xe2\x82', '&', '<', '>', '&lt;',
          ':', ';', '(', ')', '{', '}', ',', '.', '%', '%41', '@', '!', '?', '-', '+', '<b>', '</para>', '<!--', '-->', '<programlisting>', '[', ']', '[ ', ' ]']
TOKENS = [t.encode('latin1') for t in TOKENS]


def corpus(root=None):
    """{extension: [bytes]} of documents and sources found in the tree."""
    res = {'qbk': [], 'cpp': [], 'py': []}
    for base in (root or [os.path.join(vlib.REPO, x) for x in ('test', 'doc', 'examples', 'src')]):
        for d, dirs, fs in sorted(os.walk(base)):
            dirs.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                if f.endswith(('.quickbook', '.qbk')):
                    k = 'qbk'
                elif f.endswith(('.cpp', '.hpp', '.c', '.h')):
                    k = 'cpp'
                elif f.endswith('.py'):
                    k = 'py'
                else:
                    continue
                b = open(p, 'rb').read()
                if k != 'qbk' and '/src/' in p:
                    b = b[:6000]
                if 0 < len(b) < 60000:
                    res[k].append(b)
    return res


def piece(r, b):
    """A random region of b, preferring line or bracket boundaries."""
    if not b:
        return 0, 0
    if r.random() < .5:
        cuts = [m.start() for m in re.finditer(rb'[\n\[\]]', b)] or [0, len(b)]
        a, z = r.choice(cuts), r.choice(cuts)
    else:
        a = r.randrange(len(b) + 1)
        z = a + int(r.expovariate(.05)) if r.random() < .8 else r.randrange(len(b) + 1)
    if a > z:
        a, z = z, a
    return a, min(z, len(b))


def mutate(r, b, pool, n=None, deep=True):
    for _ in range(n or r.choice([1, 1, 2, 3, 5, 8])):
        k = r.random()
        a, z = piece(r, b)
        if k < .3:
            t = r.choice(TOKENS)
            if deep and r.random() < .04:
                t = t * r.randint(2, 12)
            b = b[:a] + t + b[a:]
        elif k < .5:
            b = b[:a] + b[z:]
        elif k < .62:
            b = b[:z] + b[a:z][:3000] + b[z:]
        elif k < .72:
            c = r.choice(pool)
            a2, z2 = piece(r, c)
            b = b[:a] + c[a2:z2][:4000] + b[a:]
        elif k < .8:
            b = b[:a]
        elif k < .9 and b:
            i = r.randrange(len(b))
            b = b[:i] + bytes([r.choice([r.randrange(256), r.randrange(32, 127), 10, 91, 93])]) + b[i + 1:]
        elif k < .95:
            b = re.sub(rb'\[quickbook 1\.\d\]', b'[quickbook 1.%d]' % r.randint(0, 8), b, count=1)
        else:
            t = r.choice(TOKENS)
            b = b[:a] + t + b[z:]
        b = b[:40000]
    return b


def nesting(b):
    """Deepest bracket nesting a parser could see."""
    d = m = 0
    for c in b:
        if c == 91:
            d += 1
            m = max(m, d)
        elif c == 93:
            d = max(0, d - 1)
    return m
