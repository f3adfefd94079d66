#!/usr/bin/env python3
"""C11: which files include and import load, and what they leave behind.

Trees of files are generated in which every file says who it is and shows the definitions, source mode and file name it sees.  A reference
resolver and a model of the scopes say what the output has to be.
"""
import os, random, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vlib, qdoc
CFG = {'root': '/ROOTDIR'}
MACROS = ['MAC_A', 'MAC_B', 'mac3']
TEMPLATES = ['tem_a', 'tem_b', 'tem3']
SNIPPETS = ['snip_a', 'snip_b']
MODES = {'c++': ('int', 'keyword'), 'python': ('def', 'keyword'), 'teletype': ('int', None)}
NAMES = ['a.qbk', 'b.qbk', 'ab.qbk', 'abc.qbk', 'a1.qbk', 'B.qbk', 'c.quickbook', 'x y.qbk', '.h.qbk', 'a.b.qbk', 's.cpp', 's.py', 'a.hpp']
STRANGE = ['o\td', 'b\\s', 'b\\\\n', 'q\x7f', 'n\nl', '\u00e9', 'c\x10', 'm\x01\x0f\x1f', '\\', 'e\\t']
CHARS = set(chr(c) for c in range(32, 127))
ODD = ['a[1].qbk', 'a*b.qbk', 'q?.qbk', '-.qbk', '^a.qbk']


def parts(p):
    """Elements of a path, as boost::filesystem sees them"""
    return ['/'] * p.startswith('/') + [x for x in p.split('/') if x]


def join(a, b):
    return b if not a else a + b if a.endswith('/') else a + '/' + b


def parent(p):
    return p.rsplit('/', 1)[0] if '/' in p else ''


# ------------------------------------------------------------------ patterns

def is_glob(pat):
    return re.search(r'(?:^|[^\\])(?:\\.)*[\[?*]', pat) is not None


def unescape(pat):
    return re.sub(r'\\(.)', r'\1', pat)


def pattern_re(pat):
    out, i = '', 0
    while i < len(pat):
        c = pat[i]
        if c == '\\':
            out, i = out + re.escape(pat[i + 1]), i + 2
        elif c == '*':
            out, i = out + '.*', i + 1
        elif c == '?':
            out, i = out + '.', i + 1
        elif c == '[':
            i += 1
            neg = pat[i] == '^'
            i += neg
            items = []
            while pat[i] != ']':
                if pat[i] == '\\':
                    i += 1
                a, i = pat[i], i + 1
                if pat[i] == '-' and pat[i + 1] != ']':
                    i += 1
                    if pat[i] == '\\':
                        i += 1
                    items.append((a, pat[i]))
                    i += 1
                else:
                    items.append((a, a))
            i += 1
            s = ''.join('\\x%02x-\\x%02x' % (ord(a), ord(b)) if a <= b else '' for a, b in items)
            out += '[' + ('^' if neg else '') + s + ']' if s else '.' if neg else r'(?!)'
        else:
            out, i = out + re.escape(c), i + 1
    return re.compile(out + r'\Z', re.S)


class Tree(object):
    """Files under one root.  Physical paths are relative to it, '' is the root itself."""

    def __init__(self, cwd, include):
        self.files = {}        # path -> content
        self.dirs = set([''])
        self.cwd = cwd         # relative to the root
        self.include = include  # as given on the command line, relative to cwd

    def add(self, path):
        d = parent(path)
        while d:
            self.dirs.add(d)
            d = parent(d)

    def phys(self, path):
        """Path as the program sees it (relative to cwd) -> physical path, None when it leads out or through something missing"""
        cur = parts(self.cwd)
        if (path + '/').startswith('/R/'):
            cur, path = [], path[3:]
        for x in path.split('/'):
            if x in ('', '.'):
                continue
            if '/'.join(cur) not in self.dirs:
                return None
            if x == '..':
                if not cur:
                    raise IndexError('above the root')
                cur.pop()
            else:
                cur.append(x)
        return '/'.join(cur)

    def isfile(self, path):
        p = self.phys(path)
        return p is not None and p in self.files

    def isdir(self, path):
        p = self.phys(path)
        return p is not None and p in self.dirs

    def listdir(self, path):
        p = self.phys(path)
        pre = p + '/' if p else ''
        return sorted(set(x[len(pre):].split('/')[0] for x in list(self.files) + list(self.dirs) if x.startswith(pre) and x != p and x[len(pre):]))

    def glob(self, loc, pat, rec=None, name=None):
        """Paths below loc matching pat: list of paths relative to loc, as written."""
        cs = pat.split('/')

        def walk(rel, i):
            j = i
            while j < len(cs) and not is_glob(cs[j]):
                j += 1
            if j == len(cs):
                r = rel
                for c in cs[i:]:
                    r = join(r, unescape(c))
                f = join(loc, r)
                return [r] if self.isfile(f) or self.isdir(f) else []
            r = rel
            for c in cs[i:j]:
                r = join(r, unescape(c))
            base = join(loc, r) if r else loc
            if not self.isdir(base or '.'):
                return []
            m, res = pattern_re(cs[j]), []
            for n in self.listdir(base or '.'):
                if not m.match(n):
                    continue
                x = join(r, n)
                if j + 1 == len(cs):
                    if self.isfile(join(loc, x)):
                        res.append(x)
                elif self.isdir(join(loc, x)):
                    res += walk(x, j + 1)
            return res
        found = walk('', 0)
        if rec:
            rec.patterns.setdefault(name, set()).update(join(loc, x) for x in found)
        return found

    def search(self, path, abstract, value, glob, rec=None):
        """Where a file at path finds value: list of (path, abstract) in order, None when not found.  abstract is the name of the file and
        which directory of the include path it was found in (0: none).  rec is told what was looked for."""
        def isfile(p):
            x = self.phys(p)
            x = x is not None and (x in self.files or x in self.dirs)
            if rec:
                rec.looked[p] = x
            return x
        here, habs = parent(path), parent(abstract[0])
        off = abstract[1]
        if glob:
            res = set()
            for x in self.glob(here, value, rec, join(here, value)):
                res.add((tuple(parts(join(habs, x))), off, tuple(parts(join(here, x))), join(here, x), (join(habs, x), off)))
            for n, d in enumerate(self.include):
                for x in self.glob(d, value, rec, join(d, value)):
                    res.add((tuple(parts(x)), n + 1, tuple(parts(join(d, x))), join(d, x), (x, n + 1)))
            out, seen = [], set()
            for a in sorted(res):
                if a[:3] not in seen:
                    seen.add(a[:3])
                    out.append(a[3:])
            return out
        if value.startswith('/'):
            return [(value, (value, 0))] if isfile(value) else None
        if isfile(join(here, value)):
            return [(join(here, value), (join(habs, value), off))]
        for d in self.include:
            if isfile(join(d, value)):
                return [(join(d, value), (value, self.include.index(d) + 1))]
        return None


# ------------------------------------------------------------------ contents

class Expected(Exception):
    pass


class Sim(object):
    def __init__(self, tree, v, statements):
        self.t, self.v, self.st = tree, v, statements
        self.macro = {}
        self.templates = [{}]
        self.mode = 'c++'
        self.imported = False
        self.out = []
        self.loads = self.calls = 0
        self.images = None     # where images are
        self.used = {}
        self.looked = {}       # path -> found
        self.patterns = {}     # pattern -> matches

    def use(self, k):
        self.used[k] = self.used.get(k, 0) + 1

    def lookup(self, n):
        for s in reversed(self.templates):
            if n in s:
                return s[n]
        return None

    def template(self, n, val, where):
        if n in self.templates[-1]:
            raise Expected(where[0], where[1], 'Template Redefinition: ' + n)
        self.templates[-1][n] = val

    def probe(self, n, abstract):
        """What a probe shows: its paragraph, and what the names of snippets come to"""
        w = ['probe%d' % n]
        for m in MACROS:
            w.append(self.macro.get(m, m))
        for t in TEMPLATES:
            x = self.lookup(t)
            w.append('[%s]' % t if x is None else x)
        w += [abstract[0], 'int', 'def']
        roles = []
        for k in ('int', 'def'):
            kw, role = MODES[self.mode]
            roles.append(role if k == kw else None if self.mode == 'teletype' else 'identifier')
        res = [(' '.join(w), roles)]
        for t in SNIPPETS:
            x = self.lookup(t)
            res.append(('[%s]' % t, []) if x is None else (x, 'code'))
        self.out += res

    def run(self, path, abstract):
        ph = self.t.phys(path)
        self.loads += 1
        if self.loads > 150:
            raise OverflowError
        self.statements(self.st[ph], ph, path, abstract)

    def statements(self, st, ph, path, abstract):
        for line, s in st:
            k = s[0]
            if k == 'probe':
                if not self.imported:
                    self.probe(s[1], abstract)
                    self.use('probe')
            elif k == 'def':
                if self.v >= 106 or s[1] not in self.macro:
                    self.macro[s[1]] = s[2]
            elif k == 'template':
                self.template(s[1], s[2], (ph, line))
            elif k == 'mode':
                self.mode = s[1]
            elif k == 'info':
                if self.v >= 106:
                    self.mode = 'c++'
            elif k == 'image':
                self.image(s[1])
            elif k == 'ctemplate':
                self.template(s[1], s[2], (ph, line))
            elif k == 'call':
                x = self.lookup(s[1])
                if x is not None:
                    self.use('template that looks for files')
                    self.calls += 1
                    if self.calls > 200:
                        raise OverflowError
                    self.templates.append({})
                    self.statements([(None, y) for y in x], ph, path, abstract)
                    self.templates.pop()
            elif k in ('include', 'import'):
                found = self.t.search(path, abstract, s[1], s[2], self)
                if found is None:
                    raise Expected(ph, line, 'Unable to find file: ' + s[1])
                if s[2]:
                    self.use('pattern')
                    self.use('files found by patterns', )
                    self.used['files found by patterns'] += len(found) - 1
                for p, a in found:
                    if not self.t.isfile(p):
                        # a directory
                        raise Expected(ph, line, 'Loading file')
                    if self.imported and k == 'include' and self.v >= 106:
                        self.use('include in imported file')
                        break
                    self.load(k, p, a, (ph, line))

    def load(self, k, p, a, where):
        ph = self.t.phys(p)
        self.use(k + (' of source file' if not ph.endswith(('.qbk', '.quickbook')) else ''))
        if not ph.endswith(('.qbk', '.quickbook')):
            self.loads += 1
            snippets, comments = self.st[ph]
            if k == 'import':
                for n, x in snippets:
                    self.template(n, x, (ph, None))
            else:
                self.templates.append({})
                for n, x in snippets:
                    self.template(n, x, (ph, None))
                for n in comments:
                    self.probe(n, self.abstract)
                self.templates.pop()
            return
        saved = (dict(self.macro), self.imported, self.mode, self.abstract)
        if k == 'include' and self.v >= 106:
            self.templates.append({})
        self.imported = k == 'import'
        self.abstract = a
        self.run(p, a)
        if k == 'include':
            self.macro = saved[0]
            if self.v >= 106:
                self.templates.pop()
        self.imported, self.abstract = saved[1], saved[3]
        if self.v >= 106:
            self.mode = saved[2]

    def image(self, ref):
        p = ref if ref.startswith('/') else join(self.images, ref)
        if ref.endswith('.svg'):
            try:
                x = self.t.phys(p)
            except IndexError:
                x = None
            self.looked[p] = x is not None and (x in self.t.files or x in self.t.dirs)
            self.use('svg image')

    def main(self, path):
        self.looked[path] = True
        if self.images is None:
            self.images = join(parent(path), 'html')
        self.abstract = (path.rsplit('/', 1)[-1], 0)
        self.run(path, self.abstract)
        return self.out


def probe_src(n):
    return 'probe%d %s %s __FILENAME__ `int` `def`\n\n%s' % (n, ' '.join(MACROS), ' '.join('[%s]' % t for t in TEMPLATES),
                                                          '\n\n'.join('[%s]' % t for t in SNIPPETS))


def write_path(r, v, value, glob):
    """Source of a path"""
    if v >= 107:
        if not glob:
            value = re.sub(r'([\[\]*?\\])', r'\\\1', value)
        return re.sub(r'([\[\]\\])', r'\\\1', value).replace(' ', '\\u0020')
    return value


def spell(r, t, frm, to):
    """A path leading from directory frm to file to"""
    a, b = parts(frm), parts(to)
    while a and b[:-1] and a[0] == b[0] and r.random() < .95:
        a, b = a[1:], b[1:]
    x = ['..'] * len(a) + b
    if r.random() < .1:
        x.insert(0, '.')
    if r.random() < .1:
        ds = sorted(d for d in t.dirs if d and '/' not in d) if not frm else []
        if ds:
            x = [r.choice(ds), '..'] + x
    return '/'.join(x)


def make_pattern(r, v, names):
    n = r.choice(names)
    out = ''
    i = 0
    while i < len(n):
        x = r.random()
        c = n[i]
        if x < .15:
            if out.endswith('*'):
                out = out[:-1]
            out += '*'
            i += r.randint(0, 3)
        elif x < .25:
            out += '?'
            i += 1
        elif x < .37 and c != '/':
            k = r.random()
            if k < .4:
                a, b = sorted([c, r.choice('abczABZ019')])
                s = '%s-%s' % (esc(a), esc(b))
            elif k < .7:
                s = ''.join(esc(y) for y in sorted({c, r.choice('abcz.1'), r.choice('ABc0')}))
            elif k < .8:
                s = '^' + esc(r.choice('xyzq'))
            elif k < .9:
                s = esc(c) + r.choice(['x-z', '0-9']) + '-'
            else:
                s = '^' + esc(c)
            out += '[' + s + ']'
            i += 1
        else:
            out += esc(c) if c in '[]*?\\' else ('\\' + c if r.random() < .03 and c not in '/\\' else c)
            i += 1
    if r.random() < .15 and not out.endswith('*'):
        out += '*'
    return out


def esc(c):
    return '\\' + c if c in '[]*?^-\\' else c


def generate(r, v, extra=False):
    """A tree of files: (tree, statements, main file as given, sources).  With extra: images, and templates that look for files."""

    dirs = ['', 'd', 'd/e', 'f', 'f/d', 'inc1', 'inc1/d', 'inc2', 'inc2/f', 'd/e/d']
    r.shuffle(dirs)
    dirs = sorted(dirs[:r.randint(2, 7)] + [''] + (r.sample(STRANGE, 1) if extra and r.random() < .3 else []))
    cwd = r.choice([''] * 4 + dirs)
    up = '/'.join(['..'] * len(parts(cwd)))
    include, inc_dirs = [], []
    for d in r.sample(dirs, min(len(dirs), r.randint(0, 3))) + (['nowhere'] if r.random() < .1 else []):
        x = join(up, d) if up else d
        k = r.random()
        if not x:
            x = '.'
        elif k < .1:
            x += '/'
        elif k < .2:
            x = './' + x
        elif k < .3:
            x = '/R/' + d if d else '.'
        include.append(x)
        inc_dirs.append(d)
    t = Tree(cwd, include)
    names = NAMES + (ODD if v >= 107 else [])
    if v < 106:
        names = [n for n in names if not n.endswith('.hpp')]
    order = []
    for _ in range(r.randint(2, 11)):
        d = r.choice(dirs)
        n = r.choice(names[:r.choice([3, 6, len(names)])])
        f = join(d, n) if d else n
        if f not in t.files:
            t.files[f] = None
            t.add(f)
            order.append(f)
    for d in dirs:
        if d:
            t.add(d + '/x')
    md = r.choice(dirs) if r.random() < .4 else ''
    main = join(md, 'main.qbk') if md else 'main.qbk'
    t.files[main] = None
    t.add(main)
    order.insert(0, main)
    if extra:
        for x in r.sample(['a.svg', 'd/b.svg', '../c.svg', '../d/e/f.svg', 'h.svg', 'html/h.svg'], r.randint(0, 4)):
            x = os.path.normpath(join(join(md, 'html'), x))
            if not x.startswith('../'):
                t.files[x] = '<svg width="%d"/>' % len(t.files)
                t.add(x)
    counter = [0]
    st, src = {}, {}
    texts, templates = {}, []
    images = ['a.svg', 'd/b.svg', '../c.svg', 'n.png', '../d/e/f.svg', '../../g.svg', 'html/h.svg']

    def num():
        counter[0] += 1
        return counter[0]
    def source(it):
        k = it[0]
        if k == 'probe':
            return probe_src(it[1])
        if k == 'def':
            return '[def %s %s]' % (it[1], it[2])
        if k == 'template':
            return '[template %s[] %s]' % (it[1], it[2])
        if k == 'mode':
            return '[%s]' % it[1]
        if k == 'image':
            return '[$%s]' % it[1]
        if k == 'call':
            return '[%s]' % it[1]
        if k == 'ctemplate':
            return '[template %s[]\n\n%s\n\n]' % (it[1], '\n\n'.join(source(x) for x in it[2]))
        value = it[1]
        p = write_path(r, v, value.replace('/R/', CFG['root'] + '/') if value.startswith('/R/') else value, it[2])
        return '[%s%s %s]' % (k, ':id%d' % num() if k == 'include' and r.random() < .1 else '', p)

    # later files first: a file only refers to later ones
    for rank in range(len(order) - 1, -1, -1):
        f = order[rank]
        isq = f.endswith(('.qbk', '.quickbook'))
        if not isq:
            sn, cm, s = [], [], ''
            py = f.endswith('.py')
            for n in SNIPPETS:
                if r.random() < .6:
                    w = 'text%d' % num()
                    sn.append((n, w))
            for n, w in sn:
                s += ('#[%s\n' if py else '//[%s\n') % n + ('  code_%s\n' % w) + ('#]\n' if py else '//]\n')
            if r.random() < .6:
                k = num()
                cm.append(k)
                s += (('"""`\n%s\n"""\n' if py else '/*`\n%s\n*/\n')) % probe_src(k)
            st[f] = ([(n, 'code_' + w) for n, w in sn], cm)
            t.files[f] = src[f] = s
            continue
        head = ''
        items = []
        if f == main or (r.random() < .15 and v >= 106):
            head = '[article T%d\n[quickbook 1.%d]\n]\n\n' % (num(), v - 100)
            items.append(('info',))
        outer = None
        for _ in range(r.randint(1, 7) + 2 * extra):
            k = r.random()
            if outer is not None and len(items) > r.randint(0, 2):
                n = r.choice('ABCDE') + r.choice('abcdefghi')
                if n not in templates:
                    templates.append(n)
                    outer.append(('ctemplate', n, items))
                items, outer = outer, None
            if extra and outer is None and v >= 106 and r.random() < .2:
                outer, items = items, []
            if extra and r.random() < .2:
                items.append(('image', r.choice(images)))
            elif extra and outer is None and templates and r.random() < .2:
                items.append(('call', r.choice(templates)))
            elif outer is None and k < .25:
                items.append(('probe', num()))
            elif outer is not None and k < .55:
                pass
            elif k < .37:
                items.append(('def', r.choice(MACROS), 'value%d' % num()))
            elif k < .47:
                n = r.choice(TEMPLATES)
                if (n + f if v >= 106 else n) not in texts:
                    items.append(('template', n, 'body%d' % num()))
                    texts[n + f] = texts[n] = 1
            elif k < .55:
                items.append(('mode', r.choice(sorted(MODES) if v >= 105 else ['c++', 'python'])))
            else:
                kind = 'include' if r.random() < .7 else 'import'
                for _ in range(8):
                    glob = v >= 107 and r.random() < .35
                    later = order[rank + 1:]
                    fd = parent(f)
                    if glob:
                        if not later:
                            break
                        if r.random() < .5:
                            rel = [spell(r, t, fd, x) for x in later]
                        else:
                            bases = [fd] + inc_dirs
                            rel = []
                            for x in later:
                                for b in bases:
                                    if x.startswith(b + '/') or not b:
                                        rel.append(x[len(b) + 1:] if b else x)
                        if not rel:
                            continue
                        value = make_pattern(r, v, rel)
                        if not is_glob(value):
                            continue
                    elif r.random() < .06:
                        value = r.choice(['gone.qbk', 'd/a.qbk', 'e/b.qbk', 'a.qbk', 'nowhere/a.qbk', '../a.qbk', 'zz/../a.qbk'])
                    else:
                        if not later:
                            break
                        x = r.choice(later)
                        k2 = r.random()
                        b = r.choice(inc_dirs) if inc_dirs and k2 < .5 else fd
                        if (b and x.startswith(b + '/')) or not b:
                            value = x[len(b) + 1:] if b else x
                        else:
                            value = spell(r, t, b, x)
                        if k2 > .97:
                            value = '/R/' + x
                    if not set(value) <= CHARS or extra and '\\' in value:
                        continue
                    try:
                        found = t.search(join(cwd and '/'.join(['..'] * len(parts(cwd))) or '', f), (f, 0), value, glob)
                    except IndexError:
                        continue
                    if found is None:
                        # an error: rarely
                        if r.random() < .8:
                            continue
                        items.append((kind, value, glob))
                        break
                    ps = [t.phys(p) for p, a in found]
                    if any(p in t.dirs or p not in later for p in ps):
                        continue
                    if v < 106 and any((kind == 'import') == p.endswith(('.qbk', '.quickbook')) for p in ps):
                        continue
                    if v < 106 and re.search(r'[\[\]]', value):
                        continue
                    items.append((kind, value, glob))
                    break
        if outer is not None:
            items = outer
        if extra:
            for n in r.sample(templates, min(len(templates), r.choice([0, 1, 3]))):
                items.append(('call', n))
        items.append(('probe', num()))
        lines, s = head.count('\n') + 1, head
        st[f] = []
        for it in items:
            st[f].append((lines, it))
            if it[0] == 'info':
                continue
            s += source(it) + r.choice(['\n\n', '\n\n', '\n\n\n'])
            lines = s.count('\n') + 1
        t.files[f] = src[f] = s
    mpath = join(up, main) if up else main
    if r.random() < .1:
        mpath = './' + mpath
    return t, st, mpath, src


def case(i):
    r = random.Random('c11 %s %s' % (CFG['seed'], i))
    v = [107, 107, 106, 107, 106, 105, 104, 107, 103, 101][i % 10]
    t, st, mpath, src = generate(r, v)
    cwd, include = t.cwd, t.include
    sim = Sim(t, v, st)
    d = vlib.fresh_dir()
    root = os.path.join(d, 'R')
    want, err = None, None
    try:
        want = sim.main(mpath)
    except OverflowError:
        return v, {}, {}, [], None
    except Expected as e:
        err = e.args
    files = {'R/' + k: x.replace(CFG['root'], root) for k, x in src.items()}
    for k in t.dirs:
        os.makedirs(os.path.join(root, k), exist_ok=True)
    vlib.write_tree(d, files)
    linked = vlib.link_some(random.Random('links %s %s' % (CFG['seed'], i)), d, files, os.path.join(d, 'L')) if i % 4 == 1 else 0
    args = [mpath, '--output-file=' + os.path.join(d, 'o.xml'), '--no-pretty-print']
    for x in include:
        x = x.replace('/R/', root + '/')
        args += [['-I', x], ['-I' + x], ['--include-path=' + x], ['--include-path', x]][r.randint(0, 3)]
    if r.random() < .3:
        args = args[1:] + args[:1]
    p = vlib.run_qb(CFG['exe'], args, os.path.join(root, cwd) if cwd else root)
    args = [a.replace(d, '.') for a in args] + ['(in R/%s)' % cwd]
    used = sim.used
    used['include path directory'] = len(include)
    used['symbolic link'] = linked
    bad = lambda k, m: (v, files, used, args, (k, m))
    if p.timeout:
        return v, files, used, args, 'timeout'
    text = p.text.replace(root, '/R')
    if err:
        f, line, msg = err
        used['error'] = 1
        if p.rc != 1:
            return bad('error', '%s: status %s, expected an error: %s' % (f, p.rc, msg))
        first = [x for x in text.split('\n') if 'error:' in x or 'warning: Template Redefinition' in x][:1]
        ok = first and msg in first[0] and (line is None or re.search(r'%s:%d: ' % (re.escape(f.rsplit('/', 1)[-1]), line), first[0]))
        if not ok:
            return bad('error', 'expected at %s:%s %s: %s' % (f, line, msg, text[-400:]))
        return v, files, used, args, None
    if p.rc:
        return bad('refused', 'status %s: %s' % (p.rc, text[-500:]))
    got = observe(qdoc.parse_xml(open(os.path.join(d, 'o.xml'), 'rb').read().replace(root.encode(), b'/R')))
    if got != want:
        n = next((k for k in range(min(len(got), len(want))) if got[k] != want[k]), min(len(got), len(want)))
        return bad('content', 'paragraph %d: %r, expected %r' % (n, got[n] if n < len(got) else 'nothing', want[n] if n < len(want) else 'nothing'))
    return v, files, used, args, None


def observe(root):
    """What the probes in a document show."""
    sq = lambda e: re.sub(r'\s+', ' ', ''.join(e.itertext())).strip()
    res = []
    for e in root.iter():
        if e.tag == 'para' and sq(e) and e.find('programlisting') is None:
            res.append((sq(e), [(c.find('phrase').get('role') if c.find('phrase') is not None else None) for c in e.iter('code')]))
        elif e.tag == 'programlisting':
            res.append((sq(e), 'code'))
    return res


# ------------------------------------------------------------------ patterns on their own

INVALID = ['a**', '**', '[', '[a', 'a]', '[]', '[]a]', '[a[b]', 'a/[b/c]', '[[a]]', '*\\', 'a\\', '[a\\', '[\\\\]', '*\\\\a', '*\\/a', '?[', ']*']


def pattern_case(i):
    r = random.Random('c11p %s %s' % (CFG['seed'], i))
    alpha = r.choice(['ab', 'abc', 'aAbB1-', 'ab^-', 'ab[]', 'a*?b', 'xyz0123', 'ab]^-', '.ab', 'mnopq'])
    names = set()
    for _ in range(r.randint(4, 30)):
        names.add(''.join(r.choice(alpha) for _ in range(r.choice([1, 1, 2, 2, 3, 3, 4, 5, 7]))))
    names -= {'.', '..', 'main'}
    dirs = sorted(names)[:r.choice([0, 0, 1, 2])]
    files = {}
    t = Tree('', [])
    for n in sorted(names):
        if n in dirs:
            t.add(n + '/x')
            for k in r.sample(sorted(names), min(len(names), 5)):
                f = n + '/' + k + '.qbk'
                files[f] = None
        else:
            files[n + '.qbk'] = None
    if not files:
        files['a.qbk'] = None
    for k, f in enumerate(sorted(files)):
        t.files[f] = files[f] = 'file%d\n' % k
        t.add(f)
    bad_pat = None
    pats = []
    stems = sorted(files)
    for _ in range(r.randint(5, 40)):
        n = r.choice(stems)
        if '\u00e9' in n:
            n = n.replace('\u00e9', '*').replace('**', '*')
            p = n if '*' in n and not re.search(r'[\[\]?^\\]', n) and '**' not in n else None
        else:
            p = pattern_for(r, n, alpha.replace('\u00e9', ''))
        if p and is_glob(p) and '**' not in re.sub(r'\\.|\[[^\]]*\]', 'x', p):
            # main.qbk itself isn't to be found
            if '/' in p or not pattern_re(p).match('main.qbk'):
                pats.append(p)
    if r.random() < .15:
        bad_pat = r.choice(INVALID)
        pats.insert(r.randint(0, len(pats)), bad_pat)
    src, want = '[article T\n[quickbook 1.7]\n]\n\n', []
    line = None
    for k, p in enumerate(pats):
        if p is bad_pat:
            line = src.count('\n') + 3
        src += 'pattern%d\n\n[include %s]\n\n' % (k, write_path(r, 107, p, True))
        want.append('pattern%d' % k)
        if p is bad_pat:
            continue
        for x in sorted(t.glob('', p), key=lambda x: tuple(y.encode() for y in parts(x))):
            if x in files:
                want.append(files[x].strip())
            else:
                return 107, {}, {}, [], None
    d = vlib.fresh_dir()
    files = dict(files)
    files['main.qbk'] = src
    vlib.write_tree(d, files)
    args = ['main.qbk', '--output-file=o.xml', '--no-pretty-print']
    p = vlib.run_qb(CFG['exe'], args, d)
    used = {'pattern': len(pats)}
    bad = lambda k, m: (107, files, used, args, (k, m))
    if p.timeout:
        return 107, files, used, args, 'timeout'
    if bad_pat:
        used['invalid pattern'] = 1
        errs = [x for x in p.text.split('\n') if 'error:' in x]
        if p.rc != 1 or len(errs) != 1 or not re.search(r'main\.qbk:%d: error: Invalid path \(.*\): ' % line, errs[0]) or not errs[0].endswith(': ' + bad_pat):
            return bad('invalid pattern', 'pattern %s, line %d: status %s, %s' % (bad_pat, line, p.rc, p.text[-300:]))
        return 107, files, used, args, None
    if p.rc:
        return bad('refused', 'status %s: %s' % (p.rc, p.text[-400:]))
    e = qdoc.parse_xml(open(os.path.join(d, 'o.xml'), 'rb').read())
    got = [(x.text or '').strip() for x in e.iter('para')]
    if got != want:
        last = None
        for n in range(max(len(got), len(want))):
            a, b = got[n:n + 1], want[n:n + 1]
            if b and b[0].startswith('pattern'):
                last = b[0]
            if a != b:
                return bad('pattern', 'after %s: %s: found %s, expected %s' % (last, pats[int(last[7:])], got[n:n + 5], want[n:n + 5]))
    used['files found by patterns'] = len(want) - len(pats)
    return 107, files, used, args, None


def pattern_for(r, n, alpha):
    """A pattern that may match n"""
    out = ''
    i = 0
    while i < len(n):
        c = n[i]
        x = r.random()
        if c == '/':
            out += c
        elif x < .2:
            if not out.endswith('*') or out.endswith('\\*'):
                out += '*'
            k = r.randint(0, 3)
            while k and i < len(n) and n[i] != '/':
                i, k = i + 1, k - 1
            continue
        elif x < .35:
            out += '?'
        elif x < .6:
            k = r.random()
            o = [r.choice(alpha) for _ in range(r.randint(0, 3))] + ([c] if r.random() < .8 else [])
            o = o or ['q']
            r.shuffle(o)
            s = ''
            for y in o:
                if r.random() < .3:
                    a, b = y, r.choice(alpha)
                    if r.random() < .9:
                        a, b = sorted([a, b])
                    s += esc(a) + '-' + esc(b)
                else:
                    s += esc(y)
            if r.random() < .1:
                s += '-'
            out += '[' + ('^' if r.random() < .25 else '') + s + ']'
        else:
            out += esc(c) if c in '[]*?' else c
        i += 1
    return out


def run():
    C = vlib.Check('C11', 'a distinct tree of files')
    CFG.update(exe=vlib.build('fast'), seed=C.seed)
    C.minimum = 100
    for v, files, used, args, b in vlib.pmap(case, range(C.n(5000, 80000))):
        if b == 'timeout':
            C.unsure('timeout')
            continue
        if not files:
            continue
        C.observe(repr(sorted(files.items())), True, {'files': sorted(files), 'arguments': args})
        C.count('quickbook 1.%d trees' % (v - 100))
        for k, x in used.items():
            C.count(k, x)
        if b:
            C.bad(vlib.Bad(b[0], 'quickbook 1.%d: %s' % (v - 100, b[1]), files, args))
    for v, files, used, args, b in vlib.pmap(pattern_case, range(C.n(2500, 60000))):
        if b == 'timeout':
            C.unsure('timeout')
            continue
        if not files:
            continue
        C.observe(repr(sorted(files.items())), True, {'files': sorted(files), 'arguments': args})
        C.count('pattern trees')
        for k, x in used.items():
            C.count(k, x)
        if b:
            C.bad(vlib.Bad(b[0], b[1], files, args))
    return C.finish()


if __name__ == '__main__':
    vlib.main(run)
