#!/usr/bin/env python3
"""C10: macros and conditional phrases."""
import os, random, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vlib, qdoc, gold
CFG = {}
NAMES = ['m1', 'm12', '__x__', '__x__y__', '$m', '->', '->>', 'mé']
CONTEXTS = ['para', 'para', 'para', 'list', 'note', 'table', 'heading', 'quote', 'varlist', 'pre']


class Skip(Exception):
    pass


class Prog(object):
    def __init__(self, r, v):
        self.r, self.v, self.n = r, v, 0
        self.files, self.src, self.used = {}, {}, {}
        self.phrase_t, self.block_t = [], []

    def use(self, k):
        self.used[k] = self.used.get(k, 0) + 1

    def w(self, p='w'):
        self.n += 1
        return '%s%dz' % (p, self.n)

    # ------------------------------------------------------------- generation
    def txt(self):
        r = self.r
        out = []
        for _ in range(r.randint(1, 4)):
            s = r.choice(NAMES + ['__FILENAME__']) if r.random() < .7 else self.w()
            s = r.choice(['', '', '', '', '(', 'k', '9', ',']) + s + r.choice(['', '', '', '', ')', 'k', '9', '_k', ',', '.'])
            out.append(s)
        return ('txt', r.choice([' ', ' ', ' ', '']).join(out))

    def items(self, n, depth=0, direct=False):
        r = self.r
        out = [('txt', self.w())]
        for _ in range(n):
            x = r.random()
            if x < .45 or depth > 3:
                out.append(self.txt())
            elif x < .55:
                out.append(('em', r.choice("*'^-"), self.items(r.randint(1, 2), depth + 1)))
            elif x < .72:
                out.append(('cond', self.v >= 107 and r.random() < .4, r.choice(NAMES + ['__FILENAME__', 'never']),
                            self.items(r.randint(1, 3), depth + 1, direct)))
            elif x < .78 and direct and depth > 0:
                out.append(('idef', r.choice(NAMES), self.items(r.randint(0, 1), depth + 2)))
            elif x < .84 and self.phrase_t:
                out.append(('tcall', r.choice(self.phrase_t), self.items(r.randint(0, 2), depth + 2)))
            elif x < .88:
                out.append(('code', [r.choice(NAMES + ['w1']) if r.random() < .7 else self.w() for _ in range(r.randint(1, 3))]))
            elif x < .92:
                out.append(('simple', r.choice('*/='), r.choice(NAMES[:-1]), r.choice(['', '', ' ' + self.w()])))
            elif x < .94:
                out.append(('raw', r.choice(NAMES)))
            elif x < .97 and depth < 2:
                out.append(('anc', 'anc%d' % self.next()))
            else:
                out.append(('link', self.items(r.randint(1, 2), depth + 1)))
        return out

    def next(self):
        self.n += 1
        return self.n

    def blocks(self, n, level, in_template=False):
        r = self.r
        out = []
        for _ in range(n):
            x = r.random()
            if x < .33:
                out.append(('def', r.choice(NAMES), self.items(r.randint(0, 2), 2) if r.random() < .9 else []))
            elif x < .73 or level > 3:
                ctx = r.choice(CONTEXTS)
                out.append(('use', ctx, self.items(r.randint(1, 4), 0, direct=(ctx == 'para'))))
            elif x < .78 and not in_template:
                out.append(('section', self.items(1, 2), self.blocks(r.randint(1, 4), level + 1)))
            elif x < .86 and not in_template:
                k = 'include' if self.v < 106 or r.random() < .6 else 'import'
                f = 'f%d.qbk' % self.next()
                pt, bt = list(self.phrase_t), list(self.block_t)
                self.files[f] = None
                self.files[f] = self.blocks(r.randint(1, 5), level + 1)
                if self.v >= 106 and k == 'include':
                    self.phrase_t, self.block_t = pt, bt       # they belong to that file
                out.append((k, f))
                if k == 'include' and r.random() < .3 and self.v >= 106:
                    out.append((k, f))
            elif x < .91 and not in_template:
                t = 'tp%d' % self.next()
                out.append(('tdef', 'phrase', t, self.items(r.randint(1, 3), 2)))
                self.phrase_t.append(t)
            elif x < .95 and not in_template:
                t = 'tb%d' % self.next()
                out.append(('tdef', 'block', t, self.blocks(r.randint(1, 3), level + 2, True)))
                self.block_t.append(t)
            elif self.block_t:
                out.append(('bcall', r.choice(self.block_t)))
        return out

    # ------------------------------------------------------------- source
    def s_items(self, items):
        return ' '.join(self.s_item(i) for i in items)

    def s_item(self, i):
        k = i[0]
        if k == 'txt':
            return i[1]
        if k == 'em':
            return '[%s%s]' % (i[1], self.s_items(i[2]))
        if k == 'cond':
            return '[?%s %s %s]' % ('!' if i[1] else '', i[2], self.s_items(i[3]))
        if k == 'idef':
            return '[def %s%s]' % (i[1], ' ' + self.s_items(i[2]) if i[2] else '')
        if k == 'tcall':
            return '[%s %s]' % (i[1], self.s_items(i[2]))
        if k == 'code':
            return '`%s`' % ' '.join(i[1])
        if k == 'simple':
            return i[1] + i[2] + i[3] + i[1]
        if k == 'raw':
            return "'''%s'''" % i[1].replace('>', '&gt;')
        if k == 'anc':
            return '[#%s]' % i[1]
        return '[link tgt %s]' % self.s_items(i[1])

    def s_blocks(self, blocks):
        out = []
        for b in blocks:
            k = b[0]
            if k == 'def':
                out.append('[def %s%s]' % (b[1], ' ' + self.s_items(b[2]) if b[2] else ''))
            elif k == 'use':
                s = self.s_items(b[2])
                out.append({'para': '%s', 'list': '* %s', 'note': '[note %s]', 'table': '[table\n[[%s][b]]\n]', 'heading': '[h3 %s]',
                            'quote': '[:%s]', 'varlist': '[variablelist\n[[%s][b]]\n]', 'pre': '[pre %s]'}[b[1]] % s)
            elif k == 'section':
                out.append('[section %s]\n\n%s\n\n[endsect]' % (self.s_items(b[1]), self.s_blocks(b[2])))
            elif k in ('include', 'import'):
                out.append('[%s %s]' % (k, b[1]))
            elif k == 'tdef':
                if b[1] == 'phrase':
                    out.append('[template %s[a] %s [a]]' % (b[2], self.s_items(b[3])))
                else:
                    out.append('[template %s[]\n%s\n]' % (b[2], self.s_blocks(b[3])))
            else:
                out.append('[%s]' % b[1])
        return '\n\n'.join(out)

    # ------------------------------------------------------------- meaning
    def run(self, main, defines):
        self.env, self.tpl, self.out, self.anchors, self.steps = {}, {}, [], [], 0
        self.file = 'a.qbk'
        self.importing = False
        self.shown = True
        for n, its in defines:
            self.define(n, self.capture(its) if its else '')
        self.e_blocks(main)

    def value(self, n):
        return self.file if n == '__FILENAME__' else self.env[n]

    def known(self):
        return list(self.env) + ['__FILENAME__']

    def define(self, n, val):
        if n in self.env and self.v < 106:
            return
        self.use('redefinition' if n in self.env else 'definition')
        self.env[n] = val

    def capture(self, items):
        save, self.out = self.out, []
        self.e_items(items)
        res, self.out = ''.join(self.out), save
        return res

    def expand(self, s):
        i, res = 0, ''
        ks = self.known()
        while i < len(s):
            m = max((k for k in ks if s.startswith(k, i)), key=len, default=None)
            if m and not re.match(r'[A-Za-z_]', s[i + len(m):i + len(m) + 1]):
                res += self.value(m)
                i += len(m)
                self.use('macro expanded')
            else:
                res += s[i]
                i += 1
        return res

    def e_items(self, items):
        for i in items:
            self.steps += 1
            if self.steps > 3000 or sum(map(len, self.out)) > 20000:
                raise Skip
            k = i[0]
            if k == 'txt':
                self.out.append(self.expand(i[1]))
            elif k in ('em',):
                self.e_items(i[2])
            elif k == 'link':
                self.e_items(i[1])
            elif k == 'cond':
                if ((i[2] in self.env or i[2] == '__FILENAME__') != i[1]):
                    self.use('conditional shown')
                    self.e_items(i[3])
                else:
                    self.use('conditional hidden')
            elif k == 'idef':
                self.define(i[1], self.capture(i[2]) if i[2] else '')
            elif k == 'tcall':
                if i[1] not in self.tpl:
                    raise Skip
                env = dict(self.env)
                self.e_items(self.tpl[i[1]])
                self.e_items(i[2])
                self.env = env
                self.use('template call')
            elif k == 'code':
                for t in i[1]:
                    if t in self.env:
                        if any(x != t and x.startswith(t) for x in self.env):
                            pass
                        self.out.append(self.env[t])
                        self.use('macro expanded in code')
                    elif any(p in t for p in self.env):
                        raise Skip
                    else:
                        self.out.append(t)
            elif k == 'simple':
                ks = [n for n in self.env if i[2].startswith(n)]
                if not i[3] and i[2] in self.env:
                    self.out.append(self.env[i[2]])
                    self.use('macro expanded in simple markup')
                elif ks and not i[3] and max(ks, key=len) != i[2]:
                    raise Skip
                else:
                    self.out.append(i[2] + i[3])
            elif k == 'raw':
                self.out.append(i[1])
            elif k == 'anc':
                self.anchors.append(i[1])

    def e_blocks(self, blocks):
        for b in blocks:
            k = b[0]
            if k == 'def':
                n = len(self.anchors)
                self.define(b[1], self.capture(b[2]) if b[2] else '')
                if len(self.anchors) != n:
                    raise Skip
            elif k == 'use':
                self.e_items(b[2])
                if b[1] in ('table', 'varlist'):
                    self.out.append('b')
            elif k == 'section':
                self.e_items(b[1])
                self.e_blocks(b[2])
            elif k == 'include':
                if self.importing:
                    continue
                env, tpl, f = dict(self.env), dict(self.tpl), self.file
                self.file = b[1]
                self.e_blocks(self.files[b[1]])
                self.env, self.file = env, f
                if self.v >= 106:
                    self.tpl = tpl
                self.use('include')
            elif k == 'import':
                f, imp, out, anc = self.file, self.importing, self.out, self.anchors
                self.file, self.importing, self.out, self.anchors = b[1], True, [], []
                self.e_blocks(self.files[b[1]])
                self.file, self.importing, self.out, self.anchors = f, imp, out, anc
                self.use('import')
            elif k == 'tdef':
                if b[2] in self.tpl:
                    raise Skip        # the file is read twice
                self.tpl[b[2]] = b[3]
            else:
                if b[1] not in self.tpl:
                    raise Skip
                env = dict(self.env)
                self.e_blocks(self.tpl[b[1]])
                self.env = env
                self.use('block template call')


def squash(s):
    return re.sub(r'\s+', '', s)


def out_text(data):
    res, anc = [], []

    def walk(e):
        if e.tag == 'title' and not res:
            return
        if (e.get('id') or '').startswith('anc'):
            anc.append(e.get('id'))
        res.append(e.text or '')
        for c in e:
            walk(c)
            res.append(c.tail or '')
    root = qdoc.parse_xml(data)
    root.remove(root.find('title'))
    walk(root)
    return squash(''.join(res)), anc


def program(seed):
    r = random.Random('C10/%d/%d' % (CFG['seed'], seed))
    v = r.choice([101, 103, 105, 105, 106, 106, 107, 107])
    while True:
        P = Prog(r, v)
        main = P.blocks(r.randint(3, 14), 0)
        defines = []
        for name in r.sample(NAMES, r.choice([0, 0, 0, 1, 2])):
            its = [i for i in P.items(r.randint(0, 2), 4) if i[0] == 'txt']
            if its and r.random() < .3:
                its = [('em', r.choice("*'^-"), its)]
            defines.append((name, its if r.random() < .8 else []))
        try:
            P.run(main, defines)
            if P.v < 106 and any(f in str(P.src) for f in ()):
                raise Skip
        except Skip:
            continue
        break
    files = {f: '[quickbook 1.%d]\n\n%s\n' % (v - 100, P.s_blocks(b)) if v >= 106 else P.s_blocks(b) + '\n' for f, b in P.files.items()}
    if v < 106:
        # the version of a file without its own header is that of the file that includes it
        files = {f: '\n' + t for f, t in files.items()}
    files['a.qbk'] = '[article T\n[quickbook 1.%d]\n[id dd]\n]\n\n%s\n' % (v - 100, P.s_blocks(main))
    d = vlib.fresh_dir()
    vlib.write_tree(d, files)
    args = ['a.qbk', '--output-file=o.xml', '--no-pretty-print']
    for n, its in defines:
        args.append('-D%s' % n + ('' if not its else r.choice(['=', ' = ', '= ']) + P.s_items(its)))
        P.use('definition on the command line')
    q = vlib.run_qb(CFG['exe'], args, d)
    if q.timeout:
        q = vlib.run_qb(CFG['exe'], args, d, timeout=240)
    b = None
    if q.timeout:
        b = 'timeout'
    elif q.rc:
        b = 'refused', 'a valid document is refused (exit %d): %s' % (q.rc, q.text[:500])
    else:
        want = squash(''.join(P.out))
        have, anc = out_text(open(os.path.join(d, 'o.xml'), 'rb').read())
        if want != have:
            i = len(os.path.commonprefix([want, have]))
            b = 'value', 'at character %d of the text: expected %r, found %r' % (i, want[max(0, i - 40):i + 60], have[max(0, i - 40):i + 60])
        elif len(set(P.anchors)) == len(P.anchors) and sorted(anc) != sorted(P.anchors):
            b = 'anchors', 'anchors %r, expected %r' % (sorted(anc), sorted(P.anchors))
    return v, files, P.used, args, b


# ---------------------------------------------------------------------------------------------
# A hidden conditional phrase full of things must leave no trace.

HIDDEN = ['[footnote f%d]', '[h2 head%d]', '[heading:hid%d head]', '[include nofile%d.qbk]', '[import nofile%d.qbk]', '[def mac%d val]', '[def seen val%d]',
          '[template tpl[] text%d]', '[#dup] anchor%d', '[#dup%d]', '[note text%d]', '[table:ti%d [[a][b]]]', '[tt arg%d]', '[tt a..b..c%d]',
          '[bb a%d]', '[loop]x%d', "'''<raw>%d</raw>'''", '[@http://x%d y]', '[$img%d.png]', '[xinclude x%d.xml]', '[role r%d x]', '`code%d`',
          '[pre p%d]', '[blurb b%d]', '[ordered_list [a%d]]', '[variablelist [[a][b%d]]]', '[? seen [def more%d x]]', '\\u00e9%d',
          '[classref c%d]', '[c++]%d', '[teletype]%d', '[!teletype]%d']


def hidden(seed):
    r = random.Random('C10h/%d/%d' % (CFG['seed'], seed))
    v = r.choice([105, 106, 107])
    # brackets that aren't recognised may end the enclosing element early in old versions
    stuff = [s for s in HIDDEN if not (v < 106 and re.search(r'role|ordered_list|\[br|heading:|\[!|c\+\+|teletype|import|\[\?|bb|tpl|loop|variablelist|table', s)) and
             not (v < 107 and s.startswith('[!'))]
    n = [0]

    def some():
        out = []
        for _ in range(r.randint(1, 5)):
            n[0] += 1
            out.append(r.choice(stuff).replace('%d', str(n[0])))
        return ' '.join(out)
    pre = '[template tt[x] t [x] t]\n\n[template bb[x]\n\nb [x]\n\n]\n\n[template loop[] [loop] [loop]]\n\n[def yes]\n\n'
    body = []
    for _ in range(r.randint(2, 8)):
        n[0] += 1
        k = 'text%d' % n[0]
        hid = some()
        if r.random() < .3:
            hid = '[? yes %s] %s' % (some(), hid)
        neg = v >= 107 and r.random() < .3
        cond = '[?%s %s %s]' % ('!' if neg else '', 'yes' if neg else 'absent', hid)
        body.append((r.choice(['K C x', 'KC', 'CK', '[heading:kK KC]' if v >= 106 else 'K C', '* K C', '[note K C]', '[#aK] C K', '[footnote K C]',
                               '[section:sK K C]\n\n[endsect]', 'p\n\n  int K; ``C`` //', '[table T\n[[K C][b]]\n]']).replace('K', k), cond))
    tail = '\n\n[footnote z] seen mac1 mac2 mac3 [heading head] [#dup] [tpl] ``x``\n\n  int code;\n\n[section head]\n\n[endsect]\n'
    head = '[article T\n[quickbook 1.%d]\n[id dd]\n[last-revision x]\n]\n\n' % (v - 100)
    outs = []
    d = vlib.fresh_dir()
    files = {}
    for name, put in (('with', True), ('without', False)):
        src = head + pre + '\n\n'.join(b.replace('C', c if put else '[? absent ]') for b, c in body) + tail
        files[name + '.qbk'] = src
        os.makedirs(os.path.join(d, name))
        vlib.write_tree(d, {name + '/a.qbk': src})
        q = vlib.run_qb(CFG['exe'], ['a.qbk', '--output-file=o.xml', '--no-pretty-print'], os.path.join(d, name))
        if q.timeout:
            return v, files, {}, [], 'timeout'
        o = os.path.join(d, name, 'o.xml')
        outs.append((q.rc, re.sub(r':\d+:', ':', q.text), open(o).read() if os.path.exists(o) else None))
    b = None
    if outs[0] != outs[1]:
        i = [x == y for x, y in zip(*outs)].index(False)
        x, y = str(outs[0][i]), str(outs[1][i])
        j = len(os.path.commonprefix([x, y]))
        b = 'hidden', 'a hidden conditional phrase changes the %s: with it %r, without %r' % (
            ['exit status', 'messages', 'output'][i], x[max(0, j - 60):j + 100], y[max(0, j - 60):j + 100])
    return v, files, {'hidden constructs': n[0]}, ['a.qbk'], b


def run():
    C = vlib.Check('C10', 'a distinct set of files in which macros are defined and used')
    exe = vlib.build('fast')
    CFG.update(exe=exe, seed=C.seed)
    C.minimum = 100
    for fn, n in ((program, C.n(14000, 60000)), (hidden, C.n(2400, 8000))):
        for v, files, used, args, b in vlib.pmap(fn, range(n)):
            if b == 'timeout':
                C.unsure('timeout')
                continue
            C.observe(repr(sorted(files.items())), bool(used), sample=files if len(repr(files)) < 700 else None)
            C.count('quickbook 1.%d documents' % (v - 100))
            for k, x in used.items():
                C.count(k, x)
            if b:
                C.bad(vlib.Bad(b[0], 'quickbook 1.%d: %s' % (v - 100, b[1]), files, args))
    gold.project(C, exe, qdoc.text_projection, want=r'macro|cond|command')
    return C.finish()


vlib.main(run)
