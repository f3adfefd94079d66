#!/usr/bin/env python3
"""C05: code listings keep every character, and tokens get their class."""
import os, random, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vlib, qdoc, gold
CFG = {}
CPP_KEYWORDS = '''alignas alignof and_eq and asm auto bitand bitor bool break case catch char char16_t char32_t class compl const const_cast constexpr continue
decltype default delete do double dynamic_cast else enum explicit export extern false float for friend goto if inline int long mutable namespace new noexcept
not_eq not nullptr operator or_eq or private protected public register reinterpret_cast return short signed sizeof static static_assert static_cast struct
switch template this thread_local throw true try typedef typeid typename union unsigned using virtual void volatile wchar_t while xor_eq xor'''.split()
PY_KEYWORDS = '''and del for is raise assert elif from lambda return break else global not try class except if or while continue exec import pass yield def
finally in print as None'''.split()
IDENTS = ['x', 'foo', '_a', 'classy', 'int_', 'Int', 'forx', 'x1', 'returns', 'newt', 'iffy', 'i', 'ints', 'do_it', 'None_', 'asx', 'isx', '__init__', 'A', 'ptr2', 'orx', 'e10']
DONTCARE = object()


class Code(object):
    """Source text of code with the class of every character, and its text in quickbook."""

    def __init__(self):
        self.src, self.chars = [], []

    def add(self, s, role, src=None):
        self.src.append(s if src is None else src)
        self.chars += [(c, role) for c in s]


def escape(r):
    """Quickbook within code."""
    w = 'q%dz' % r.randrange(1000)
    k = r.randrange(5)
    if k == 0:
        return '``[*%s]``' % w, [(c, 'emphasis') for c in w]
    if k == 1:
        return "``['%s] y``" % w, [(c, 'emphasis') for c in w] + [(c, None) for c in ' y']
    if k == 2:
        return '``%s``' % w, [(c, None) for c in w]
    if k == 3:
        return '``[@http://e/ %s]``' % w, [(c, 'ulink') for c in w]
    return '``[^%s]``' % w, [(c, 'literal') for c in w]


TEXT = ['a', 'b ', 'word', ' ', '  ', '//', '/*', '#', "'", '"', '<', '&', '>', '[', ']', '[*x]', '*', '_', '/', '=', '\\', 'é', '中', '1', '0x', '::', '`', '@', '$', '$1', 'class', ';', '{', '%',
        '&amp;', '&#65;', '__x__', '[[', ']]', '(', '..', '--', '----', '\u2028', '?', '~']


def text(r, forbid, n=5):
    s = ''
    for _ in range(r.randint(0, n)):
        t = r.choice(TEXT)
        if not any(re.search(f, s + t) for f in forbid):
            s += t
    return s


def cpp_line(r, c, ticks, esc):
    """One line of C++.  ticks: back-ticks allowed; esc: quickbook escapes allowed."""
    T = [] if ticks else ['`']
    T2 = ['``'] + T
    if r.random() < .12:
        c.add(r.choice(['#define', '#include', '# if', '#endif', '#pragma']), 'preprocessor')
        c.add(' ', None)
    prev = 'space'
    for _ in range(r.randint(0, 8)):
        k = r.choice(['kw', 'id', 'id', 'sp', 'sp', 'sp', 'num', 'str', 'chr', 'cmt', 'space', 'space', 'esc' if esc else 'id', 'odd'])
        # what may not stand together without white space
        word = ('kw', 'id', 'num')
        if (k in word and prev in word) or (k in ('str', 'chr') and prev in word) or (k == 'num' and prev == 'sp') or (k == 'sp' and prev == 'num') \
                or (prev == 'esc' and k == 'esc'):
            c.add(r.choice([' ', '  ', '\t']) if False else ' ', None)
        if k == 'kw':
            c.add(r.choice(CPP_KEYWORDS), 'keyword')
        elif k == 'id':
            c.add(r.choice(IDENTS), 'identifier')
        elif k == 'num':
            c.add(r.choice(['0', '10', '42ul', '0x1F', '0XabcL', '017', '08', '1.5', '1.5e3', '2.0f', '1e10', '3.', '0xFFFFFFFF', '0xFFFFFFFFFFFFFFFFul', '12345678901234567890', '1.5e-3', '7L']), 'number')
        elif k == 'sp':
            if c.src and c.src[-1].endswith('/'):
                c.add(' ', None)
            s = r.choice(['(', ')', '{', '}', ';', '::', '->', '<', '>', '<<', '&&', '&', '*', '+', '-', '=', '==', '!', '~', '^', '%', '|', '||', '[', ']', ',', '.', '?', ':', '/', '\\', '()', '{};', '...', '[]', '#'])
            if s == '#' and (prev == 'space'):
                s = ';'
            if s == '\\' :
                s = '+'
            if c.src and c.src[-1][-1:] == '/' and s[0] in '/*':
                s = '('
            c.add(s, 'special')
        elif k == 'str':
            c.add('"' + text(r, ['"', r'\\'] + T2) + r.choice(['', '\\"', '\\\\', '\\n', "'", '\\"x']) + '"', 'string')
        elif k == 'chr':
            c.add("'" + r.choice(['a', '\\n', "\\'", '"', '\\\\', '/', '#', '<', '0', 'é', ' ', '[', ']']) + "'", 'char')
        elif k == 'cmt':
            if c.src and c.src[-1].endswith('/'):
                c.add(' ', None)
            c.add('/*', 'comment')
            t = text(r, [r'\*/', r'/$', '<', r'\*$'] + T2)
            if t.startswith(('/', '<')):
                t = ' ' + t
            if t.endswith('*'):
                t += ' '
            c.add(t, 'comment')
            if esc and r.random() < .3:
                s, ch = escape(r)
                c.src.append(' ' + s + ' ')
                c.chars += [(' ', 'comment')] + [(x, 'comment/' + y if y else 'comment') for x, y in ch] + [(' ', 'comment')]
            c.add('*/', 'comment')
        elif k == 'space':
            c.add(r.choice([' ', '  ', ' ', '   ']), None)
        elif k == 'esc':
            s, ch = escape(r)
            if c.src and c.src[-1].endswith('`'):
                continue
            c.src.append(s)
            c.chars += ch
        elif k == 'odd':
            c.add(r.choice(['@', '$', '\u00e9', '\u4e2d']), DONTCARE)
            prev = 'sp'
            continue
        prev = k
    if r.random() < .15:
        if c.src and re.search(r'[/]$', c.src[-1]):
            c.add(' ', None)
        c.add('//', 'comment')
        c.add(text(r, T2, 8), 'comment')
        if esc and r.random() < .3:
            s, ch = escape(r)
            c.src.append(' ' + s)
            c.chars += [(' ', 'comment')] + [(x, 'comment/' + y if y else 'comment') for x, y in ch]


def py_line(r, c, ticks, esc):
    T2 = ['``'] if ticks else ['`']
    prev = 'space'
    for _ in range(r.randint(0, 8)):
        k = r.choice(['kw', 'id', 'id', 'sp', 'sp', 'sp', 'num', 'str', 'str', 'long', 'space', 'space', 'esc' if esc else 'id', 'odd'])
        word = ('kw', 'id', 'num')
        if (k in word and prev in word) or (k in ('str', 'long') and prev in word + ('str', 'long')) or (k == 'num' and prev == 'sp') or (k == 'sp' and prev == 'num') \
                or (prev == 'esc' and k == 'esc'):
            c.add(' ', None)
        if k == 'kw':
            c.add(r.choice(PY_KEYWORDS), 'keyword')
        elif k == 'id':
            c.add(r.choice(IDENTS), 'identifier')
        elif k == 'num':
            c.add(r.choice(['0', '10', '42l', '0x1F', '0XabcL', '017', '08', '1.5', '1.5e3', '2.0j', '1e10', '3.', '0xFFFFFFFFFFFFFFFF', '1.5e-3']), 'number')
        elif k == 'sp':
            c.add(r.choice(['(', ')', '{', '}', ';', '<', '>', '<<', '&', '*', '**', '+', '-', '=', '==', '!', '~', '^', '%', '|', '[', ']', ',', '.', ':', '/', '()', '//', '\\']), 'special')
        elif k == 'str':
            q = r.choice('"\'')
            t = text(r, [q, r'\\'] + T2) + r.choice(['', '\\' + q, '\\\\', '\\n', '#'])
            if not t:
                t = 'a'
            c.add(q + t + q, 'string')
        elif k == 'long':
            q = r.choice(['"""', "'''"])
            c.add(q + text(r, [q[0], r'\\'] + T2) + r.choice(['', ' ' + q[0] + 'x', 'y']) + q, 'string')
        elif k == 'space':
            c.add(r.choice([' ', '  ', ' ', '   ']), None)
        elif k == 'esc':
            s, ch = escape(r)
            if c.src and c.src[-1].endswith('`'):
                continue
            c.src.append(s)
            c.chars += ch
        elif k == 'odd':
            c.add(r.choice(['@', '$', '?', 'é']), DONTCARE)
            prev = 'sp'
            continue
        prev = k
    if r.random() < .15:
        c.add('#', 'comment')
        t = text(r, T2, 8)
        c.add(' ' + t if t.startswith('<') else t, 'comment')


def tele_line(r, c, ticks, esc):
    c.add(text(r, ['``'] if ticks else ['`'], 10), None)
    if esc and r.random() < .2:
        s, ch = escape(r)
        c.src.append(' ' + s)
        c.chars += [(' ', None)] + ch


LINES = {'c++': cpp_line, 'python': py_line, 'teletype': tele_line}


def columns(s):
    n = 0
    for ch in s:
        n = n + 1 if ch == ' ' else n - n % 4 + 4
    return n


def make_block(r, v, mode):
    """A block of code: (lines as written (without markup), expected characters)."""
    esc = r.random() < .3
    lines = []
    for i in range(r.randint(1, 6)):
        c = Code()
        if r.random() < .12 and i:
            lines.append(None)
            continue
        LINES[mode](r, c, False, esc)
        s = ''.join(c.src)
        if not s.strip() or s[0] in ' \t[' or s != s.rstrip():
            c.src.insert(0, 'x')
            c.chars.insert(0, ('x', DONTCARE))
            if mode == 'c++' and len(c.src) > 1 and c.src[1][:1] == '#':
                c.src[0] = 'x '
                c.chars.insert(1, (' ', None))
                # no longer the first thing on its line
                c.chars = [(a, DONTCARE) for a, b in c.chars]
            if s != s.rstrip() or not s.strip():
                c.src.append(';')
                c.chars.append((';', DONTCARE))
            # the second character may join the first
            if len(c.chars) > 1 and (c.chars[1][0].isalnum() or c.chars[1][0] in '_"\''):
                c.chars = [(a, DONTCARE) for a, b in c.chars]
        lines.append(c)
    while lines and lines[-1] is None:
        lines.pop()
    if not any(lines):
        c = Code()
        c.add('x', DONTCARE)
        lines = [c]
    return lines


def indent_lines(r, lines):
    """Indents for the lines, and what is left after removing the common one."""
    style = r.choice(['spaces', 'spaces', 'tabs', 'mixed'])
    unit = r.choice([2, 3, 4, 8])
    base = {'spaces': ' ' * unit, 'tabs': '\t', 'mixed': r.choice(['  ', '\t', '    '])}[style]
    ind = []
    for i, l in enumerate(lines):
        if l is None:
            ind.append('')
            continue
        if style == 'spaces':
            ind.append(base + ' ' * r.choice([0, 0, 0, 1, 2, 4]))
        elif style == 'tabs':
            ind.append(base + '\t' * r.choice([0, 0, 1]) + ' ' * r.choice([0, 0, 2]))
        else:
            ind.append(r.choice(['\t', '    ', '  \t', ' \t', '\t  ', '     ', '\t\t', '        ']))
    real = [x for l, x in zip(lines, ind) if l is not None]
    shortest = min(len(x) for x in real)
    if len(set(x[:shortest] for x in real)) == 1:
        out = [x[shortest:] for x in ind]
    else:
        m = min(columns(x) for x in real)
        out = [' ' * (columns(x) - m) if l is not None else '' for l, x in zip(lines, ind)]
    return ind, out


def chars_of(e):
    """[(character, class)] of a code element; class is the path of roles and elements."""
    out = []

    def walk(n, path):
        for c in n.text or '':
            out.append((c, path))
        for k in n:
            p = k.get('role') if k.tag == 'phrase' else k.tag
            walk(k, (path + '/' + p) if path else p)
            for c in k.tail or '':
                out.append((c, path))
    walk(e, None)
    return out


def compare(exp, act, reflow):
    if reflow == 'inline':
        # white space may be laid out differently
        e = [(a, b) for a, b in exp if not a.isspace()]
        c = [(a, b) for a, b in act if not a.isspace()]
    else:
        e, c = list(exp), list(act)
        if reflow:
            while e and e[-1][0].isspace():
                e.pop()
            while c and c[-1][0].isspace():
                c.pop()
    et, at = ''.join(a for a, _ in e), ''.join(a for a, _ in c)
    if et != at:
        i = 0
        while i < min(len(et), len(at)) and et[i] == at[i]:
            i += 1
        return 'text', 'code %r became %r (from %d)' % (et[:400], at[:400], i)
    for i, ((a, b), (x, y)) in enumerate(zip(e, c)):
        if b is DONTCARE or a.isspace() and y in (None, b):
            continue
        if b != y:
            return 'class', 'in %r, character %d %r has class %s, expected %s' % (et[:300], i, a, y, b)
    return None


def listing(seed):
    r = random.Random('C05/%d/%d' % (CFG['seed'], seed))
    v = r.choice([101, 103, 105, 106, 106, 107, 107])
    mode = r.choice(['c++', 'c++', 'python', 'teletype' if v >= 105 else 'c++'])
    body, exp, used = [], [], {}
    if mode != 'c++' or r.random() < .3:
        body.append('[%s]' % mode)
    for i in range(r.randint(1, 4)):
        k = r.random()
        if k < .25:
            c = Code()
            LINES[mode](r, c, False, False)
            s = ''.join(c.src)
            if not s.strip() or s.startswith((' ', '\t')) or s.endswith((' ', '`')) or re.match(r'[-*#]', s):
                continue
            body.append('w%d `%s` w' % (i, s))
            exp.append(('code', c.chars, 'inline'))
            kind = 'inline code'
        elif k < .75 or v < 106:
            lines = make_block(r, v, mode)
            ind, out = indent_lines(r, lines)
            body.append('p%d' % i)
            body.append('\n'.join((a + ''.join(l.src)) if l else '' for a, l in zip(ind, lines)))
            ch = []
            for o, l in zip(out, lines):
                ch += [(x, None) for x in o] + (l.chars if l else []) + [('\n', None)]
            exp.append(('programlisting', ch, 'block'))
            kind = 'indented block'
        else:
            lines = make_block(r, v, mode)
            ticks = '```'
            if any('``' in ''.join(l.src) for l in lines if l) and False:
                continue
            if not all((''.join(l.src)).strip('`') for l in lines if l):
                continue
            if any('```' in ''.join(l.src) for l in lines if l) or (lines[-1] and ''.join(lines[-1].src).endswith('`')):
                continue
            body.append(ticks + '\n' + '\n'.join(''.join(l.src) if l else '' for l in lines) + '\n' + ticks)
            ch = []
            for l in lines:
                ch += (l.chars if l else []) + [('\n', None)]
            exp.append(('programlisting', ch, 'block'))
            kind = 'block in ticks'
        used['%s %s' % (mode, kind)] = used.get('%s %s' % (mode, kind), 0) + 1
    src = '[article T\n[quickbook 1.%d]\n]\n\n%s\n\nend\n' % (v - 100, '\n\n'.join(body))
    args = ['a.qbk', '--output-file=o.xml'] + r.choice([['--no-pretty-print'], ['--no-pretty-print'], [], ['--linewidth=30']])
    d = vlib.fresh_dir()
    vlib.write_tree(d, {'a.qbk': src})
    q = vlib.run_qb(CFG['exe'], args, d, timeout=120)
    if q.timeout:
        return v, src, args, used, ('timeout', '')
    if q.rc:
        return v, src, args, used, ('refused', 'exit %d: %s' % (q.rc, q.text[:500]))
    root = qdoc.parse_xml(open(os.path.join(d, 'o.xml'), 'rb').read())
    act = [e for e in root.iter() if e.tag in ('code', 'programlisting')]
    if [e.tag for e in act] != [x[0] for x in exp]:
        return v, src, args, used, ('structure', 'code elements %r, expected %r' % ([e.tag for e in act], [x[0] for x in exp]))
    plain = '--no-pretty-print' in args
    for e, (tag, ch, kind) in zip(act, exp):
        b = compare(ch, chars_of(e), 'inline' if kind == 'inline' and not plain else True)
        if b:
            return v, src, args, used, b
    return v, src, args, used, None


PROBE = 'class None'
WANT = {'c++': [('class', 'keyword'), ('None', 'identifier')], 'python': [('class', 'keyword'), ('None', 'keyword')], 'teletype': []}


def modes(seed):
    """Which source mode is in force where."""
    r = random.Random('C05m/%d/%d' % (CFG['seed'], seed))
    v = 107 if r.random() < .7 else r.choice([103, 105, 106])
    M = ['c++', 'python'] + (['teletype'] if v >= 105 else [])
    start = r.choice([None] + M)
    head = '[source-mode %s]\n' % start if start else ''
    body, exp = [], []
    clock = [1]
    base = [start or 'c++', 0]
    stack = []                      # (mode, order) of the open sections

    def tick():
        clock[0] += 1
        return clock[0]

    def cur(extra=None):
        # the latest choice that is in force wins
        c = list(base)
        if stack and stack[-1][1] > c[1]:
            c = list(stack[-1])
        if extra and extra[1] > c[1]:
            c = list(extra)
        return c
    nxt = None

    def code(extra=None):
        exp.append(cur(extra)[0])
        return '`%s`' % PROBE
    for i in range(r.randint(2, 10)):
        k = r.random()
        tag = None
        pre = ''
        if v >= 107 and r.random() < .35:
            tag = r.choice(M)
            pre = '[!%s]\n' % tag
        if k < .2:
            m = r.choice(M)
            body.append('[%s]' % m)
            base[:] = [m, tick()]
        elif k < .4:
            ex = (tag, tick()) if tag else None
            body.append(pre + 'w %s and %s' % (code(ex), code(ex)))
        elif k < .5:
            m = r.choice(M)
            a = code()
            base[:] = [m, tick()]
            b = code()
            body.append('w %s [%s] %s' % (a, m, b))
        elif k < .6 and v >= 107:
            m = r.choice(M)
            exp.append(m)
            body.append('[!%s]`%s` and %s' % (m, PROBE, code()))
        elif k < .7:
            ex = (tag, tick()) if tag else None
            if body and body[-1].lstrip('[!teltypcpython+]\n').startswith('*'):
                body.append('between')
            body.append(pre + '* %s\n* %s' % (code(ex), code(ex)))
        elif k < .78:
            ex = (tag, tick()) if tag else None
            body.append(pre + '[table t\n[[%s][%s]]\n[[b][%s]]\n]' % (code(ex), code(ex), code(ex)))
        elif k < .88:
            ex = (tag, tick()) if tag else None
            c = cur(ex)
            body.append(pre + '[section s%d]' % i)
            stack.append(c if ex or stack or True else None)
        elif stack:
            body.append('[endsect]')
            stack.pop()
        else:
            body.append('between')
            body.append('  ' + PROBE)
            exp.append(cur()[0])
    body += ['[endsect]'] * len(stack)
    src = '[article T\n[quickbook 1.%d]\n%s]\n\n%s\n' % (v - 100, head, '\n\n'.join(body))
    args = ['a.qbk', '--output-file=o.xml', '--no-pretty-print']
    d = vlib.fresh_dir()
    vlib.write_tree(d, {'a.qbk': src})
    q = vlib.run_qb(CFG['exe'], args, d, timeout=120)
    used = {'mode in force': len(exp)}
    if q.timeout:
        return v, src, args, used, ('timeout', '')
    if q.rc:
        return v, src, args, used, ('refused', 'exit %d: %s' % (q.rc, q.text[:500]))
    root = qdoc.parse_xml(open(os.path.join(d, 'o.xml'), 'rb').read())
    act = [[(qdoc.flat(p), p.get('role')) for p in e.iter('phrase')] for e in root.iter() if e.tag in ('code', 'programlisting')]
    if len(act) != len(exp):
        return v, src, args, used, ('structure', '%d pieces of code, expected %d' % (len(act), len(exp)))
    for i, (a, m) in enumerate(zip(act, exp)):
        if a != WANT[m]:
            return v, src, args, used, ('mode', 'code %d is marked as %r, expected source mode %s' % (i, a, m))
    return v, src, args, used, None


def projection(data):
    root = qdoc.parse_xml(data)
    return [(e.tag, [(c, p) for c, p in chars_of(e) if not c.isspace()]) for e in root.iter() if e.tag in ('code', 'programlisting')]


def run():
    C = vlib.Check('C05', 'a distinct document with code whose characters and classes were compared with the reference')
    exe = vlib.build('fast')
    CFG.update(exe=exe, seed=C.seed)
    C.minimum = 500
    for fn, n in ((listing, C.n(12000, 80000)), (modes, C.n(2500, 12000))):
        for v, src, args, used, b in vlib.pmap(fn, range(n)):
            if b and b[0] == 'timeout':
                C.unsure('timeout')
                continue
            C.observe(src, bool(used), sample=src if len(src) < 500 else None)
            for k, x in used.items():
                C.count(k, x)
            if b:
                C.bad(vlib.Bad(b[0], 'quickbook 1.%d: %s' % (v - 100, b[1]), {'a.qbk': src}, args))
    gold.project(C, exe, projection)
    return C.finish()


vlib.main(run)
