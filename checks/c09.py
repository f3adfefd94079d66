#!/usr/bin/env python3
"""C09: templates."""
import os, random, re, sys
from urllib.parse import unquote
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vlib, qdoc, gold
CFG = {}
NAMES = ['t', 'tx', 'ty', 'u', 'ux', 'p', 'q', '%', '+', 't_x', 'note_q', 'h1_']
PARAMS = ['p', 'q', 't', 'u', 'r']
BLOCKS = ['bt', 'btx', 'bu']
ATTRS = ['at', 'atx']


HERE = [0, 'a.qbk']     # version and name of the file being generated


class TooBig(Exception):
    pass


class T(object):
    """A template symbol: a definition, or an argument under the name of its parameter."""
    def __init__(self, name, params, body, kind):
        self.name, self.params, self.body, self.kind, self.lex, self.src = name, params, body, kind, None, None
        self.v, self.file = HERE

    def bind(self, scope):
        t = T(self.name, self.params, self.body, self.kind)
        t.lex, t.src = scope, self.src
        t.v, t.file = self.v, self.file
        return t


class Scope(object):
    def __init__(self, parent):
        self.parent, self.names, self.p14 = parent, {}, None

    def find(self, n):
        s = self
        while s is not None:
            if n in s.names:
                return s.names[n]
            s = s.parent


def odd_code(items):
    for x in items:
        if x.k == 'code' and re.search(r'[ \[\]]', x.a):
            return True
        if x.k == 'em' and odd_code(x.a) or x.k == 'call' and any(odd_code(a) for a in x.b):
            return True


class Item(object):
    __slots__ = ('k', 'a', 'b', 'line', 'src', 'style', 'v', 'file')

    def __init__(self, k, a=None, b=None):
        self.k, self.a, self.b, self.line, self.src, self.style = k, a, b, None, None, None
        self.v, self.file = HERE


class Prog(object):
    def __init__(self, r, v):
        self.r, self.v, self.n = r, v, 0
        self.text, self.line = [], 1
        self.used = {}
        self.known = set()
        self.in_text = False

    def use(self, k):
        self.used[k] = self.used.get(k, 0) + 1

    def other(self, v, n, file):
        """The definitions of an imported file of another version."""
        old, self.v = self.v, v
        HERE[:] = v, file
        text, line, self.text, self.line = self.text, self.line, [], 1
        self.put('[article I\n[quickbook 1.%d]\n]\n\n' % (v - 100))
        defs = []
        for _ in range(n):
            t = self.definition(0)
            defs.append(('def', t))
            self.known.add(t.name)
        self.emit_blocks(defs)
        res = ''.join(self.text)
        self.text, self.line, self.v = text, line, old
        HERE[:] = old, 'a.qbk'
        return res, defs

    def put(self, s):
        self.text.append(s)
        self.line += s.count('\n')

    # ------------------------------------------------------------------ random programs
    def word(self):
        self.n += 1
        return Item('word', 'w%dz' % self.n)

    def name(self, pool):
        r = self.r
        k = [n for n in pool if n in self.known]
        return r.choice(k) if k and r.random() < .9 else r.choice(pool)

    def items(self, n, depth, params=(), simple=False):
        r = self.r
        out = []
        for i in range(n):
            x = r.random()
            if x < .4 or depth > 3:
                if x < .04 and (self.v >= 106 or self.v == 105 and self.in_text):
                    out.append(Item('lit', *r.choice([('\\[', '['), ('\\]', ']'), ('\\.', '.'), ('\\\\', '\\')])))
                elif x < .1 and not simple:
                    self.n += 1
                    s = 'w%dz' % self.n
                    if self.v >= 106:
                        s = r.choice(['%s', '%s..x', '%s]', '[%s', 'a b %s']) % s
                    out.append(Item('code', s))
                else:
                    out.append(self.word())
            elif x < .6 and params:
                out.append(Item('call', r.choice(params), []))
            elif x < .66 and not simple:
                out.append(Item('em', self.items(r.randint(1, 3), depth + 1, params, simple)))
            elif x < .69 and not simple:
                out.append(Item('esc', self.name([n for n in NAMES if n[0].isalpha()])))
            else:
                nm = r.choice(params) if params and r.random() < .2 else self.name(NAMES)
                out.append(Item('call', nm, [] if simple else self.args(depth, params)))
        return out

    def args(self, depth, params):
        r = self.r
        old = self.v < 105
        return [self.items(r.choice([1, 1, 2, 3]), depth + 1, params, simple=old) for _ in range(r.choice([0, 0, 1, 1, 2, 2, 3]))]

    def attr(self, depth, params=()):
        r = self.r
        out = []
        for _ in range(r.randint(1, 2)):
            if r.random() < .5 or depth > 2:
                out.append(Item('call', r.choice(params), []) if params and r.random() < .6 else self.word())
            else:
                out.append(Item('call', r.choice(ATTRS), [self.attr(depth + 1, params) for _ in range(r.randint(0, 2))]))
        return out

    def definition(self, level):
        r = self.r
        x = r.random()
        if self.v >= 107 and x < .15 and level == 0:
            params = r.sample(['p', 'q'], r.randint(0, 2))
            t = T(r.choice(ATTRS), params, self.attr(1, params), 'phrase')
        elif x < .65 or level > 1:
            params = [r.choice(PARAMS) for _ in range(r.choice([0, 1, 1, 2, 2, 3]))]
            if r.random() < .93:
                params = sorted(set(params), key=params.index)
            t = T(r.choice(NAMES), params, self.items(r.randint(1, 4), 1, params), 'phrase')
        else:
            params = r.sample(PARAMS, r.choice([0, 1, 2]))
            t = T(r.choice(BLOCKS), params, None, 'block')
            t.body = self.body(level + 1, params)
        return t

    def body(self, level, params=()):
        """A list of blocks: ('def', T) | ('para', items) | ('bcall', item)"""
        r = self.r
        out = []
        for _ in range(r.randint(3, 12) if level == 0 else r.randint(1, 3)):
            x = r.random()
            if x < (.45 if level == 0 else .3):
                t = self.definition(level)
                out.append(('def', t))
                if level == 0:
                    self.known.add(t.name)
            elif x < .6:
                if self.v < 105:
                    a = [self.items(r.randint(1, 2), 2, params, simple=True) for _ in range(r.choice([0, 1, 2]))]
                else:
                    a = self.args(2, params)
                out.append(('bcall', Item('call', self.name(BLOCKS), a)))
            elif x < .68 and self.v >= 107:
                out.append(('url', self.attr(0)))
            else:
                self.in_text = level == 0      # not within a template: there a backslash before a bracket has no meaning in 1.5
                out.append(('para', [self.word()] + self.items(r.randint(1, 4), 0, params)))
                self.in_text = False
        return out

    # ------------------------------------------------------------------ source text
    def emit_items(self, items, newlines=True):
        r = self.r
        for i, it in enumerate(items):
            if i:
                self.put('\n' if newlines and r.random() < .08 and it.k == 'word' else ' ')
            self.emit(it)

    def emit(self, it):
        r = self.r
        it.line = self.line
        if it.k == 'word':
            self.put(it.a)
        elif it.k == 'lit':
            self.put(it.a)
        elif it.k == 'code':
            self.put('`%s`' % it.a)
        elif it.k == 'em':
            self.put('[*')
            self.emit_items(it.a, self.v >= 105)
            self.put(']')
        elif it.k == 'esc':
            self.put('[`%s]' % it.a)
        else:
            self.put('[' + it.a)
            start = len(self.text)
            if it.b:
                # The single argument of a call is divided at its white space when that is needed.
                ws = len(it.b) > 1 and all(len(a) == 1 and a[0].k != 'code' for a in it.b[:-1]) and r.random() < .5
                it.style = 'ws' if ws else '..'
                if not (not it.a[0].isalpha() and r.random() < .5 and it.b[0][0].k == 'word'):
                    self.put(r.choice([' ', ' ', '  ']))
                for i, a in enumerate(it.b):
                    if i:
                        self.put(' ' if ws else r.choice([' .. ', '..', '.. ']) if self.v >= 105 else '..')
                    self.emit_items(a, self.v >= 105)
            it.src = ''.join(self.text[start:])
            self.put(']')

    def emit_blocks(self, blocks):
        for k, x in blocks:
            if k == 'para':
                self.emit_items(x)
            elif k == 'bcall':
                self.emit(x)
            elif k == 'url':
                self.put('[@http://h/')
                start = len(self.text)
                for it in x:
                    self.emit(it)
                self.put(' link]')
            else:
                x.line = self.line
                self.put('[template %s[%s]' % (x.name, ' '.join(x.params)))
                start = len(self.text)
                if x.kind == 'block':
                    self.put('\n')
                    self.emit_blocks(x.body)
                else:
                    self.put(self.r.choice(['', ' ']))
                    if x.name in ATTRS:
                        for it in x.body:
                            self.emit(it)
                    else:
                        self.emit_items(x.body)
                x.src = ''.join(self.text[start:])
                self.put(']')
            self.put('\n\n')

    # ------------------------------------------------------------------ what it means
    def divide(self, it, want, v):
        args = list(it.b)
        if it.style == 'ws' or len(args) == 1:
            flat = [x for a in args for x in a]
            args = [flat]
            if it.style != 'ws':
                args = [list(it.b[0])]
        if v < 105 or len(args) == 1:
            while args and len(args) < want and len(args[-1]) > 1:
                last = args.pop()
                # code with a space is divided there as well
                args += [last[:1], last[1:]]
        return args

    def run(self, blocks):
        self.out, self.errors, self.steps, self.bracket = [], [], 0, None
        self.p14 = root = Scope(None)
        self.eval_blocks(blocks, root, 0)

    def eval_blocks(self, blocks, scope, depth):
        for k, x in blocks:
            if k == 'file':
                if not self.errors:       # files are not read any more after an error
                    self.eval_blocks(x, scope, depth)
            elif k == 'para':
                self.eval_items(x, scope, depth)
            elif k == 'bcall':
                self.call(x, scope, depth)
            elif k == 'url':
                self.out.append('{http://h/')
                self.bracket = 'attr'
                self.eval_items(x, scope, depth)
                self.bracket = None
                self.out.append('}link')
            elif x.name in scope.names:
                self.errors.append(('redefinition', x.file, x.line))
            else:
                scope.names[x.name] = x.bind(scope)

    def eval_items(self, items, scope, depth):
        for it in items:
            if it.k == 'word' or it.k == 'code':
                self.out.append(it.a)
            elif it.k == 'lit':
                self.out.append(it.b)
            elif it.k == 'em':
                b, self.bracket = self.bracket, self.bracket or 'phrase'
                self.eval_items(it.a, scope, depth)
                self.bracket = b
            elif it.k == 'esc':
                t = scope.find(it.a)
                if t is None:
                    raise TooBig      # an unmatched back-tick
                self.out.append(t.src if t.src is not None else None)
                self.use('escaped call')
                if t.src is None or '`' in t.src or '\\' in t.src:
                    raise TooBig
            else:
                self.call(it, scope, depth)

    def call(self, it, scope, depth):
        self.steps += 1
        if self.steps > 300 or depth > 60:
            raise TooBig
        t = scope.find(it.a)
        if t is None:
            self.use('unknown name')
            if self.bracket:
                raise TooBig          # its bracket would close the enclosing one
            if it.b and any(x.k == 'code' for a in it.b for x in a):
                raise TooBig
            self.out.append('[' + it.a)
            for i, a in enumerate(it.b):
                if i and it.style != 'ws':
                    self.out.append('..')
                self.eval_items(a, scope, depth)
            self.out.append(']')
            return
        if len(t.params) > 1 and any(odd_code(a) for a in it.b):
            raise TooBig              # divided within the code
        args = self.divide(it, len(t.params), it.v)
        bracket = self.bracket
        if bracket != 'attr':         # names have to be known everywhere in an attribute
            self.bracket = None
        try:
            self.expand(it, t, args, scope, depth)
        finally:
            self.bracket = bracket

    def expand(self, it, t, args, scope, depth):
        if len(args) != len(t.params):
            self.errors.append(('arguments', it.file, it.line))
            return
        self.use('call with %d arguments' % len(args))
        # From version 1.5 on a template sees the scope of its definition, before that the scope of the call.  That is
        # the innermost template of such a version that is being expanded.
        dynamic = self.p14
        s = Scope(t.lex if t.v >= 105 else dynamic)
        if t.v < 105:
            self.p14 = s
        try:
            self.expand_in(s, it, t, args, scope, depth)
        finally:
            self.p14 = dynamic

    def expand_in(self, s, it, t, args, scope, depth):
        for p, a in zip(t.params, args):
            if p in s.names:
                self.errors.append(('duplicate', it.file, it.line))
                return
            b = T(p, [], a, 'phrase')
            b.lex = scope
            b.v, b.file = it.v, it.file
            b.src = None
            s.names[p] = b
        if t.kind == 'block':
            self.use('block template')
            self.eval_blocks(t.body, s, depth + 1)
        else:
            self.eval_items(t.body, s, depth + 1)


MESSAGES = {'arguments': 'Invalid number of arguments', 'duplicate': 'Duplicate Symbol', 'redefinition': 'Template Redefinition'}


def squash(s):
    return re.sub(r'\s+', '', s)


def out_text(data):
    res = []

    def walk(e):
        if e.tag == 'title':
            return
        if e.tag == 'ulink':
            res.append('{%s}' % unquote(e.get('url')))
        res.append(e.text or '')
        for c in e:
            walk(c)
            res.append(c.tail or '')
    walk(qdoc.parse_xml(data))
    return squash(''.join(res))


def program(seed):
    r = random.Random('C09/%d/%d' % (CFG['seed'], seed))
    v = r.choice([101, 103, 104, 104, 105, 105, 106, 106, 107, 107])
    while True:
        P = Prog(r, v)
        HERE[:] = v, 'a.qbk'
        files, defs = {}, []
        for j in range(r.choice([0, 0, 1, 2]) if v >= 106 else 0):
            n = 'i%d.qbk' % j
            files[n], x = P.other(r.choice([101, 103, 104, 104, 105, 106, 107]), r.randint(1, 5), n)
            defs.append(('file', x))
            P.use('imported file')
        P.put('[article T\n[quickbook 1.%d]\n[id dd]\n]\n\n' % (v - 100))
        P.put(''.join('[import %s]\n\n' % n for n in sorted(files)))
        blocks = P.body(0)
        P.emit_blocks(blocks)
        blocks = defs + blocks
        try:
            P.run(blocks)
        except TooBig:
            continue
        if P.errors and r.random() < .6:
            continue
        break
    files['a.qbk'] = ''.join(P.text)
    src = files['a.qbk'] if len(files) == 1 else ''.join('== %s\n%s' % x for x in sorted(files.items()))
    d = vlib.fresh_dir()
    vlib.write_tree(d, files)
    args = ['a.qbk', '--output-file=o.xml', '--no-pretty-print']
    q = vlib.run_qb(CFG['exe'], args, d)
    if q.timeout:
        q = vlib.run_qb(CFG['exe'], args, d, timeout=240)
    b = 'timeout' if q.timeout else judge(P, q, d)
    return v, src, P.used, args, b, len(P.errors)


def judge(P, q, d):
    got = []
    for m in re.finditer(r'^(\w+\.qbk):(\d+): (?:error|warning): (.*)$', q.text, re.M):
        k = [k for k in MESSAGES if MESSAGES[k] in m.group(3)]
        got.append((k[0] if k else m.group(3), m.group(1), int(m.group(2))))
    if sorted(got) != sorted(P.errors):
        return 'errors', 'errors expected %r, reported %r\n%s' % (sorted(P.errors), sorted(got), q.text[:600])
    if (q.rc != 0) != bool(P.errors):
        return 'exit', 'exit %d with %d errors\n%s' % (q.rc, len(P.errors), q.text[:400])
    if q.rc:
        return None
    want = squash(''.join(P.out))
    have = out_text(open(os.path.join(d, 'o.xml'), 'rb').read())
    if want != have:
        i = len(os.path.commonprefix([want, have]))
        return 'expansion', 'at character %d of the text: expected %r, found %r' % (i, want[max(0, i - 30):i + 60], have[max(0, i - 30):i + 60])
    return None


# ---------------------------------------------------------------------------------------------
# A block of a document and the same block as a template whose parameters stand for some of its words.

def inlined(seed):
    r = random.Random('C09b/%d/%d' % (CFG['seed'], seed))
    v = r.choice([106, 107])
    g = qdoc.Gen(r, v, inline={'text': 3, 'emph': 2, 'special': 1, 'footnote': .3, 'ref': .3, 'role': .5, 'simple': .7, 'odd': .5, 'url': .3,
                               'code': .5},
                 block={'para': 2, 'xlist': 1, 'admon': 1, 'quote': 1, 'blurb': 1, 'heading': .5, 'section': .5, 'table': 1,
                        'varlist': .5, 'list': .7 if v >= 107 else 0})
    while True:
        body, exp = g.blocks(r.randint(1, 4))
        if not re.search(r'\[\s*`\w', body):      # looks like an escaped template call: doc/1_6.qbk
            break
    words = [w for w in re.findall(r'(?<![\w`/\\:.])q[a-z]+\d+z(?=[\s\]])', body)]
    ok = []
    for w in words:
        # only words of running text
        i = body.index(w)
        before = body[:i]
        if before.count('`') % 2 or re.search(r'\[(?:@|#|link|role|\w+ref|table|variablelist|section|h\d|heading|\$)[^\[\]]*$', before):
            continue
        if re.search(r'\[[a-z_]+:\S*$', before) or body.count(w) != 1:
            continue
        if re.search(r'[*/_=](\S[^\n\[\]]*)?$', before.split('\n\n')[-1][-200:]) and not re.search(r'\[[*/_=]$', before):
            continue                 # brackets end simple markup
        ok.append(w)
    r.shuffle(ok)
    ok = ok[:r.randint(0, 4)]
    names = ['prm', 'arg', 'x', 'yy'][:len(ok)]
    tb = body
    for w, n in zip(ok, names):
        tb = re.sub(r'\b%s\b' % w, '[%s]' % n, tb)
    how = r.choice(['..', 'nested', 'twice', 'ws'])
    call = '[blk%s]' % ('' if not ok else ' ' + (' ' if how == 'ws' else '..').join(ok))
    defs = '[template blk[%s]\n%s\n]\n\n' % (' '.join(names), tb)
    head = '[article T\n[quickbook 1.%d]\n[id dd]\n]\n\n' % (v - 100)
    pre = ['article', {'id': 'dd'}, [['title', {}, ['T']]]]
    if how == 'nested':
        # handed on through another template with other parameter names
        defs += '[template outer[%s]\n[blk%s]\n]\n\n' % (' '.join('z' + n for n in reversed(names)),
                                                         '' if not ok else ' ' + '..'.join('[z%s]' % n for n in names))
        call = '[outer%s]' % ('' if not ok else ' ' + '..'.join(reversed(ok)))
    src = head + defs + call + '\n'
    pre[2] += exp
    if how == 'twice' and not g.used.get('footnote') and not re.search(r'\[(section|table|h\d|heading)', body):
        src += '\nbetween\n\n' + call + '\n'
        pre[2] += [['para', {}, ['between']]] + exp
    d = vlib.fresh_dir()
    vlib.write_tree(d, {'a.qbk': src})
    args = ['a.qbk', '--output-file=o.xml', '--no-pretty-print']
    q = vlib.run_qb(CFG['exe'], args, d)
    b = None
    if q.timeout:
        b = 'timeout'
    elif q.rc:
        b = 'block-refused', 'a valid template is refused: ' + q.text[:500]
    else:
        df = qdoc.compare(pre, open(os.path.join(d, 'o.xml'), 'rb').read(), False)
        if df:
            b = 'block-template', df
    return v, src, {'parameters in a block template': len(ok), 'block template ' + how: 1}, args, b, 0


def run():
    C = vlib.Check('C09', 'a distinct document that defines and calls templates')
    exe = vlib.build('fast')
    CFG.update(exe=exe, seed=C.seed)
    C.minimum = 100
    for fn, n in ((program, C.n(16000, 90000)), (inlined, C.n(1500, 12000))):
        for v, src, used, args, b, err in vlib.pmap(fn, range(n)):
            if b == 'timeout':
                C.unsure('timeout')
                continue
            C.observe(src, bool(used), sample=src if len(src) < 600 else None)
            C.count('programs with errors' if err else 'programs without errors')
            C.count('quickbook 1.%d documents' % (v - 100))
            for k, x in used.items():
                C.count(k, x)
            if b:
                C.bad(vlib.Bad(b[0], 'quickbook 1.%d: %s' % (v - 100, b[1]), {'a.qbk': src}, args))
    gold.project(C, exe, qdoc.text_projection, want=r'template')
    return C.finish()


vlib.main(run)
