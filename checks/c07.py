#!/usr/bin/env python3
"""C07: sections and headings."""
import os, random, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vlib, qdoc, gold, model
CFG = {}


class Doc(object):
    """Random sequence of section marks over several files and templates, with the reference stack machine."""

    def __init__(self, r, v, p_bad):
        self.r, self.v, self.n, self.p_bad = r, v, 0, p_bad
        self.files = {}
        self.errors = set()            # (file, line)
        self.root = ['article', {'id': 'dd'}, [['title', {}, ['T']]]]
        self.stack = [(self.root, None)]
        self.limit = 1                 # sections below this can't be closed here (templates)
        self.templates = []
        self.used = {}

    def w(self):
        self.n += 1
        return 'w%d' % self.n

    def use(self, k):
        self.used[k] = self.used.get(k, 0) + 1

    def line(self, out, s):
        out.append(s)
        out.append('')
        return len(out) - 1            # 1-based number of the line s

    def op(self, out, name, depth):
        r = self.r
        k = r.random()
        cur = self.stack[-1]
        if k < .3 and len(self.stack) < 9:
            w = self.w()
            sid = ('s' + w) if r.random() < .5 else None
            self.line(out, '[section%s %s]' % (':' + sid if sid else '', w))
            n = ['section', {}, [['title', {}, [w]]]]
            if sid and self.v >= 103:
                pass
            cur[0][2].append(n)
            self.stack.append((n, sid))
            self.use('section')
        elif k < .55:
            bad = r.random() < self.p_bad
            if len(self.stack) <= self.limit:
                if not bad:
                    return
                ln = self.line(out, '[endsect]')
                self.errors.add((name, ln))
                self.use('endsect without section')
                return
            sid = cur[1]
            eid = None
            if r.random() < .4:
                if bad:
                    eid = r.choice(['other' + self.w(), self.stack[-2][1] or 'x' + self.w()])
                elif sid:
                    eid = sid
            ln = self.line(out, '[endsect%s]' % (':' + eid if eid else ''))
            if eid and eid != sid:
                self.errors.add((name, ln))
                self.use('endsect with the wrong id')
            self.stack.pop()
            self.use('endsect')
        elif k < .75:
            w = self.w()
            if r.random() < .6:
                tag, n = 'heading', min(len(self.stack) + 1, 6)
                self.use('generic heading')
            else:
                n = r.randint(1, 6)
                tag = 'h%d' % n
            self.line(out, '[%s %s]' % (tag, w))
            cur[0][2].append(['bridgehead', {'renderas': 'sect%d' % n}, [w]])
        elif k < .85 or depth > 3:
            w = self.w()
            self.line(out, w)
            cur[0][2].append(['para', {}, [w]])
        else:
            self.n += 1
            f = 'inc%d.qbk' % self.n
            self.line(out, '[include %s]' % f)
            if self.errors:
                # Files named after the first error are not processed any more.
                self.files[f] = '[endsect]\n\n[section q]\n'
                return
            self.file(f, depth + 1)
            self.use('include')

    def file(self, name, depth, head=None):
        out = list(head or [])
        self.files[name] = None
        for _ in range(self.r.randint(2, 14 if depth == 0 else 6)):
            self.op(out, name, depth)
        self.files[name] = '\n'.join(out) + '\n'


def sections(seed):
    r = random.Random('C07/%d/%d' % (CFG['seed'], seed))
    v = r.choice([101, 103, 104, 105, 106, 106, 107, 107])
    D = Doc(r, v, r.choice([0, 0, .3, .6]))
    D.file('a.qbk', 0, ['[article T', '[quickbook 1.%d]' % (v - 100), '[id dd]', ']', ''])
    missing = len(D.stack) > 1
    strict = r.random() < .2
    d = vlib.fresh_dir()
    vlib.write_tree(d, D.files)
    args = ['a.qbk', '--output-file=o.xml', '--no-pretty-print'] + (['--strict'] if strict else [])
    q = vlib.run_qb(CFG['exe'], args, d)
    if q.timeout:
        q = vlib.run_qb(CFG['exe'], args, d, timeout=240)
    b = None
    if q.timeout:
        b = 'timeout'
    else:
        b = judge(D, q, d, missing, strict)
    return v, D.files, D.used, args, b, bool(D.errors)


def judge(D, q, d, missing, strict):
    got = set()
    for m in re.finditer(r'^(\S+?\.qbk):(\d+): error: (.*)$', q.text, re.M):
        got.add((m.group(1), int(m.group(2))))
    lost = D.errors - got
    if lost:
        return 'unreported', 'no error is reported for the section mark at %s:%d' % sorted(lost)[0] + '\n' + q.text[:400]
    extra = got - D.errors
    if extra:
        return 'spurious', 'an error is reported for the correct section mark at %s:%d' % sorted(extra)[0] + '\n' + q.text[:400]
    want = 1 if (D.errors or (missing and strict)) else 0
    if q.rc != want:
        return 'exit', 'exit %d, expected %d\n%s' % (q.rc, want, q.text[:400])
    if missing and 'issing [endsect]' not in q.text:
        return 'missing', 'nothing is said about sections left open at the end of the document: ' + q.text[:300]
    if not missing and 'issing [endsect]' in q.text:
        return 'spurious', 'all sections are closed: ' + q.text[:300]
    if want == 0:
        df = qdoc.compare(D.root, open(os.path.join(d, 'o.xml'), 'rb').read())
        if df:
            return 'structure', df
    return None


def tpl_case(seed):
    """Sections in templates have to be balanced."""
    r = random.Random('C07t/%d/%d' % (CFG['seed'], seed))
    v = r.choice([105, 106, 107])
    marks, depth, low = [], 0, 0
    n = [0]
    node = ['x', {}, []]
    st = [node]
    good = True
    seq = [r.random() < .5 for _ in range(r.randint(0, 5))]
    if r.random() < .5:
        # make it balanced
        bal, dd = [], 0
        for x in seq:
            if x:
                dd += 1
                bal.append(x)
            elif dd:
                dd -= 1
                bal.append(x)
        seq = bal + [False] * dd
    for x in seq:
        n[0] += 1
        if x:
            marks.append('[section u%d]' % n[0])
            e = ['section', {}, [['title', {}, ['u%d' % n[0]]]]]
            st[-1][2].append(e)
            st.append(e)
        else:
            marks.append('[endsect]')
            if len(st) == 1:
                good = False
            else:
                st.pop()
        if r.random() < .4:
            marks.append('[heading z%d]' % n[0])
            st[-1][2].append(['bridgehead', {'renderas': 'sect%d' % min(6, len(st) + 2)}, ['z%d' % n[0]]])
    if len(st) != 1:
        good = False
    src = '[article T\n[quickbook 1.%d]\n[id dd]\n]\n\n[template t[]\n%s\n]\n\n[section out]\n\nbefore\n\n[t]\n\nafter\n\n[endsect]\n' % (
        v - 100, '\n\n'.join(marks) if marks else 'p')
    exp = ['article', {'id': 'dd'}, [['title', {}, ['T']], ['section', {}, [['title', {}, ['out']], ['para', {}, ['before']]] +
                                                            (node[2] if marks else [['para', {}, ['p']]]) + [['para', {}, ['after']]]]]]
    d = vlib.fresh_dir()
    vlib.write_tree(d, {'a.qbk': src})
    args = ['a.qbk', '--output-file=o.xml', '--no-pretty-print']
    q = vlib.run_qb(CFG['exe'], args, d)
    b = None
    if q.timeout:
        b = 'timeout'
    elif (q.rc == 0) != good:
        b = ('template', 'template with %s sections: exit %d\n%s' % ('balanced' if good else 'unbalanced', q.rc, q.text[:400]))
    elif good:
        df = qdoc.compare(exp, open(os.path.join(d, 'o.xml'), 'rb').read())
        if df:
            b = ('template', df)
    return v, {'a.qbk': src}, {'sections in a template': 1}, args, b, not good


def documents(seed):
    """Documents with sections of their own, included anywhere: in sections, from templates, from each other."""
    r = random.Random('C07d/%d/%d' % (CFG['seed'], seed))
    v = r.choice([106, 107])
    files, n, used, wrong = {}, [0], {'included document': 0, 'document included from a template': 0}, [None]
    templates = []
    left = [0]

    def content(depth, parent, inner):
        """(text, nodes) of one document"""
        lines, top, st = [], parent, [parent]
        for _ in range(r.randint(1, 6)):
            n[0] += 1
            x = r.random()
            if x < .3:
                lines.append('[section w%d]' % n[0])
                e = ['section', {}, [['title', {}, ['w%d' % n[0]]]]]
                st[-1][2].append(e)
                st.append(e)
            elif x < .5 and len(st) > 1:
                lines.append('[endsect]')
                st.pop()
            elif x < .6:
                lines.append('[heading z%d]' % n[0])
                st[-1][2].append(['bridgehead', {'renderas': 'sect%d' % min(6, len(st) + 1)}, ['z%d' % n[0]]])
            elif x < .85 and depth < 3 and n[0] < 40:
                k = n[0]
                used['included document'] += 1
                tag = r.choice(['article', 'chapter', 'appendix'])
                e = [tag, {}, [['title', {}, ['d%d' % k]]]]
                st[-1][2].append(e)
                text = content(depth + 1, e, True)
                files['s%d.qbk' % k] = '[%s d%d\n[quickbook 1.%d]\n]\n\n%s\n' % (tag, k, v - 100, text)
                if r.random() < .5:
                    used['document included from a template'] += 1
                    before = r.random() < .3
                    templates.append('[template t%d[]\n%s[include s%d.qbk]\n]' % (k, 'y%d\n\n' % k if before else '', k))
                    if before:
                        st[-1][2].insert(-1, ['para', {}, ['y%d' % k]])
                    lines.append('[t%d]' % k)
                else:
                    lines.append('[include s%d.qbk]' % k)
            else:
                lines.append('p%d' % n[0])
                st[-1][2].append(['para', {}, ['p%d' % n[0]]])
        x = r.random()
        if x < .06:
            left[0] += len(st) > 1         # left open: a warning
        else:
            lines += ['[endsect]'] * (len(st) - 1)
            if x < .12:
                wrong[0] = True
                lines += ['[endsect]'] + (['[section again]'] if r.random() < .3 else [])
        return '\n\n'.join(lines)
    root = ['article', {'id': 'dd'}, [['title', {}, ['T']]]]
    text = content(0, root, False)
    files['a.qbk'] = '[article T\n[quickbook 1.%d]\n[id dd]\n]\n\n%s\n\n%s\n' % (v - 100, '\n\n'.join(templates), text)
    d = vlib.fresh_dir()
    vlib.write_tree(d, files)
    args = ['a.qbk', '--output-file=o.xml', '--no-pretty-print']
    q = vlib.run_qb(CFG['exe'], args, d)
    b = None
    if q.timeout:
        b = 'timeout'
    elif (q.rc == 0) != (not wrong[0]):
        b = ('documents', 'exit %d, but the sections of the documents %s\n%s' % (q.rc, 'do not match' if wrong[0] else 'match', q.text[:400]))
    elif not wrong[0]:
        if q.text.count('Missing [endsect]') != left[0]:
            b = ('documents', '%d warnings about sections left open, expected %d\n%s' % (q.text.count('Missing [endsect]'), left[0], q.text[:400]))
        df = qdoc.compare(root, re.sub(rb'\slast-revision="[^"]*"', b'', open(os.path.join(d, 'o.xml'), 'rb').read()))
        if df:
            b = ('documents', df)
    return v, files, used, args, b, bool(wrong[0])


def projection(data):
    """Skeleton: sections, titles, bridgeheads with their depth."""
    res = []

    def walk(e, d):
        for c in e:
            if c.tag in ('section', 'chapter', 'article', 'part', 'appendix'):
                res.append((d, c.tag))
            elif c.tag in ('title', 'bridgehead'):
                res.append((d, c.tag, c.get('renderas'), qdoc.ws(qdoc.flat(c)).strip()))
            walk(c, d + 1)
    root = qdoc.parse_xml(data)
    res.append((0, root.tag))
    walk(root, 1)
    return res


def run():
    C = vlib.Check('C07', 'a distinct set of files with section marks or headings')
    exe = vlib.build('fast')
    CFG.update(exe=exe, seed=C.seed)
    C.minimum = 100
    for fn, n in ((sections, C.n(7000, 40000)), (tpl_case, C.n(1000, 4000)), (documents, C.n(3000, 15000))):
        for v, files, used, args, b, err in vlib.pmap(fn, range(n)):
            if b == 'timeout':
                C.unsure('timeout')
                continue
            C.observe(repr(sorted(files.items())), bool(used), sample=files if len(repr(files)) < 700 else None)
            C.count('documents with section errors' if err else 'documents without section errors')
            for k, x in used.items():
                C.count('construct ' + k, x)
            if b:
                C.bad(vlib.Bad(b[0], 'quickbook 1.%d: %s' % (v - 100, b[1]), files, args))
    model.run(C, exe, C.n(1500, 8000), inline={'text': 3, 'emph': 1, 'code': 1, 'special': 1},
              block={'section': 4, 'heading': 3, 'para': 2, 'list': .5}, relevant=['section', 'heading'], salt='doc-')
    gold.project(C, exe, projection)
    return C.finish()


vlib.main(run)
