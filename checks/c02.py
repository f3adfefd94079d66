#!/usr/bin/env python3
"""C02: work stays bounded, and self-reference is diagnosed.

Work is what harness/work.cpp counts in the running program: edges of its control flow, and bytes moved.  Documents of n, 2n, .. 8n
repetitions show how it grows; programs of templates and files that call each other show that what is finite is done, and that what
isn't is an error.
"""
import os, random, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vlib, qdoc, soup
from growth import UNITS
CFG = {}
LIMIT = 10 ** 9


def work(files, args, limit=LIMIT):
    d = vlib.fresh_dir()
    vlib.write_tree(d, files)
    p = vlib.run_qb(CFG['exe'], ['a.qbk'] + list(args), d, timeout=120, env={'QB_WORK': d + '/work.txt', 'QB_WORK_LIMIT': str(limit)})
    try:
        w = [int(x) for x in open(d + '/work.txt').read().split()]
    except (OSError, ValueError):
        w = None
    return p, w, d


OUT = {'b': ['--output-file=o.xml'], 'p': ['--output-file=o.xml', '--no-pretty-print'], 'h': ['--output-format=onehtml', '--output-file=o.html']}
# What doubling a document may multiply its work by.  lin: proportional; quad: at most with its square; open: with its cube
ALLOWED = {'lin': 2.4, 'quad': 4.6, 'open': 9}


def grow(job):
    k, v, fmt = job
    kind, pre, unit, suf = UNITS[k][:4]
    # (what stays open is nested: no deeper than 200 levels)
    n0 = max(2, (3000 if kind == 'lin' else 1500) // len(unit)) if kind in ('lin', 'quad') else 25 if kind == 'open' else 20
    head = '[article T\n[quickbook 1.%d]\n]\n\n' % (v - 100) + pre
    name = repr(UNITS[k][1:4])
    seen, prev, base = [], None, None
    for m in (0, 1, 2, 4, 8):
        src = head + ''.join(unit.replace('@N', str(i)) for i in range(n0 * m)) + suf + '\n'
        files = {'a.qbk': src, 'x.xml': '<x/>', 'f.qbk': 'text\n', 'x.png': ''}
        p, w, d = work(files, OUT[fmt], LIMIT if kind != 'exp' else LIMIT // 4)
        if p.timeout:
            # (nothing counted: it hangs where no edges are)
            return job, files, OUT[fmt], ('hang', 'did not end: %s of quickbook 1.%d, %d times' % (name, v - 100, n0 * m)), seen
        if w is None or p.rc not in (0, 1, 77):
            return job, files, OUT[fmt], ('ended', 'status %s: %s of quickbook 1.%d, %d times: %s' % (p.rc, name, v - 100, n0 * m, p.text[-300:])), seen
        if m == 0:
            base = w
        if p.rc == 77:
            if kind == 'quad' and m == 8:
                break
            return job, files, OUT[fmt], ('exponential' if kind != 'exp' else 'unclosed-nested-phrase-elements',
                                          'more than %d edges for %d bytes: %s of quickbook 1.%d, %d times' % (LIMIT if kind != 'exp' else LIMIT // 4, len(src), name, v - 100, n0 * m)), seen
        seen.append(w)
        if prev and m > 2 and kind != 'exp':
            for q, what, least in ((0, 'edges', 10 ** 6), (1, 'bytes moved', 4 * 10 ** 6 if kind == 'lin' else 3 * 10 ** 7), (2, 'kB of memory', 60000)):
                a, b = (prev[q] - base[q], w[q] - base[q]) if q < 2 else (prev[q], w[q])
                if b > least and b > a * ALLOWED[kind]:
                    return job, files, OUT[fmt], ('growth', '%s: from %d to %d when %d became %d repetitions of %s in quickbook 1.%d (%s)' % (
                        what, a, b, n0 * m // 2, n0 * m, name, v - 100, fmt)), seen
        prev = w
    return job, None, None, None, seen


def random_growth(i):
    """A piece of anything, repeated"""
    r = random.Random('c02s %s %s' % (CFG['seed'], i))
    v, files = soup.files(r)
    body = files['a.qbk'].split(']\n\n', 1)[1]
    fmt = r.choice('bph')
    prev, seen = None, []
    body = re.sub(r'\[(template|def|import)', r'[*', body) if r.random() < .5 else body
    body = re.sub(r'\[include', '[*', body)
    bare = re.sub(r'\\\[', '', body)
    if bare.count('[') != bare.count(']'):
        return i, None, None, None, seen
    for m in (4, 8, 16):
        files['a.qbk'] = '[article T\n[quickbook 1.%d]\n]\n\n' % (v - 100) + (body + '\n\n') * m
        p, w, d = work(files, OUT[fmt])
        if p.timeout or w is None or p.rc not in (0, 1, 77):
            return i, files, OUT[fmt], ('ended', 'status %s: %s' % (p.rc, p.text[-300:])), seen
        if p.rc == 77:
            return i, files, OUT[fmt], ('exponential', 'more than %d edges for %d bytes' % (LIMIT, len(files['a.qbk']))), seen
        seen.append(w)
        if prev and w[0] > 10 ** 6 and w[0] > prev[0] * ALLOWED['quad']:
            return i, files, OUT[fmt], ('growth', 'edges: from %d to %d from %d to %d repetitions' % (prev[0], w[0], m // 2, m)), seen
        prev = w
    return i, None, None, None, seen


FORMS = [  # how one template calls another; X is the call; from version; not in phrases
    ('[X]', 100, 0), ('[*[X]]', 100, 0), ('[wrap [X]]', 105, 0), ('[@http://x [X]]', 100, 0), ('[? __DATE__ [X]]', 106, 0), ('[wrap2 a..[X]]', 105, 0),
    ('[^a [X]]', 100, 0), ('["[X]]', 100, 0), ('[footnote [X]]', 106, 0), ('[role r [X]]', 106, 0),
    ('\n\n[note [X]]\n\n', 100, 1), ('\n\n[table T\n[[[X]]]\n]\n\n', 100, 1), ('\n\n* [X]\n\n', 100, 2), ('\n\n[ordered_list [[X]]]\n\n', 106, 1),
    ('\n\n[variablelist T\n[[a][[X]]]\n]\n\n', 100, 1), ('\n\n[blurb [X]]\n\n', 100, 1), ('\n\n[pre [X]]\n\n', 106, 1),
]
# calls that are not made
NOT = [('[? nomac [X]]', 106), ('`[X]`', 100), ("'''<!-- [X] -->'''", 100), ('[/ [X]]', 100), ('\\[X\\]', 100)]


def graph(i):
    r = random.Random('c02g %s %s' % (CFG['seed'], i))
    v = r.choice([101, 104, 105, 106, 106, 107, 107])
    n = r.choice([1, 2, 3, 4, 5, 6, 8, 12])
    shape = r.choice(['random', 'random', 'random', 'chain', 'files', 'files', 'mixed'] + ['doubling'])
    if shape == 'chain':
        n = r.choice([10, 20, 40, 60, 85]) if v >= 106 else r.choice([10, 20, 30])
    if shape == 'doubling':
        n = r.randint(3, 11)
    if shape == 'random' and r.random() < .2:
        shape, n = 'wide', r.choice([30, 55, 80, 120])
    calls = dict((k, []) for k in range(n))
    for k in range(n):
        if shape == 'wide':
            # many one after another, two levels deep at most
            if k < 2:
                calls[k] = [r.randint(2, n - 1) for _ in range(r.choice([5, n, n]))] + ([1] if k == 0 else [])
        elif shape in ('chain',):
            if k + 1 < n:
                calls[k].append(k + 1)
        elif shape == 'doubling':
            if k + 1 < n:
                calls[k] += [k + 1, k + 1]
        else:
            for _ in range(r.choice([0, 1, 1, 2, 3])):
                if k + 1 < n:
                    calls[k].append(r.randint(k + 1, n - 1))
    cyc = False
    if r.random() < .45:
        a = r.randrange(n)
        b = r.randint(0, a)
        calls[a].insert(r.randint(0, len(calls[a])), b)
    roots = sorted(r.sample(range(n), r.randint(1, min(n, 3)))) if r.random() < .5 else [0]
    # the cycle counts if it can be reached
    reach, todo = set(), list(roots)
    while todo:
        k = todo.pop()
        if k not in reach:
            reach.add(k)
            todo += calls[k]

    def on_cycle(k):
        s, t = set(), list(calls[k])
        while t:
            x = t.pop()
            if x == k:
                return True
            if x not in s:
                s.add(x)
                t += calls[x]
        return False
    cyc = any(on_cycle(k) for k in reach)
    is_file = [shape == 'files' or ((shape == 'mixed' and r.random() < .4 or shape == 'wide' and r.random() < .8) and v >= 106) for k in range(n)]
    count = [0] * n
    if not cyc:
        order = []
        for k in roots:
            count[k] += 1
        # (a call goes to a higher number, or nothing reachable is on a cycle)
        state = {}

        def visit(k):
            if k in state:
                return
            state[k] = 1
            for c in calls[k]:
                visit(c)
            order.append(k)
        for k in roots:
            visit(k)
        for k in reversed(order):
            for c in calls[k]:
                count[c] += count[k]
        if sum(count) > 4000:
            return graph_skip(i)
    deep = {}

    def depth(k):
        if k not in deep:
            deep[k] = 1 + max([depth(c) for c in calls[k]] or [0])
        return deep[k]
    if not cyc and any(is_file) and max(depth(k) for k in roots) > 40:
        return graph_skip(i)
    files = {'x.png': ''}
    defs = '[template wrap[x] <[x]>]\n[template wrap2[x y] [y]]\n'
    uses = set()
    for k in range(n):
        block = [is_file[c] for c in calls[k]]
        plain = shape in ('chain', 'doubling')
        body = 'q%dq ' % k
        for c in calls[k]:
            x = '[include f%d.qbk]' % c if is_file[c] else '[t%d]' % c
            if is_file[c]:
                body += '\n\n%s\n\n' % x
                continue
            # elements of blocks only where the caller is one
            ok = [f for f in FORMS if f[1] <= v and (f[2] == 0 or (is_file[k] and f[2] <= 2))]
            f = r.choice(ok if not plain else FORMS[:1])[0]
            uses.add(f.strip())
            body += f.replace('[X]', x) + ' '
        if r.random() < .4 and not plain:
            f, first = r.choice(NOT)
            if first <= v:
                c = r.randint(0, k)
                body += f.replace('[X]', '[t%d]' % c).replace('\\[X\\]', '\\[t%d\\]' % c) + ' '
                uses.add('not called: ' + f)
        body = re.sub(r'(?m)^ +', '', body)
        if is_file[k]:
            files['f%d.qbk' % k] = body.lstrip() + '\n'
        else:
            wantblock = '\n\n' in body
            defs += '[template t%d[]%s%s%s]\n' % (k, '\n\n' if wantblock else ' ', body.strip(), '\n' if wantblock else '')
    doc = ''
    for k in roots:
        x = '[include f%d.qbk]' % k if is_file[k] else '[t%d]' % k
        doc += '\n%s\n\n' % x
    src = '[article T\n[quickbook 1.%d]\n]\n\n' % (v - 100) + defs + '\n' + doc
    files['a.qbk'] = src
    p, w, d = work(files, OUT['p'], 4 * 10 ** 8)
    info = (shape, n, cyc, uses, w[0] if w else 0)
    bad = lambda k, m: (i, files, OUT['p'], (k, 'quickbook 1.%d: %s' % (v - 100, m)), info)
    if p.timeout or w is None or p.rc not in (0, 1):
        return bad('endless' if p.rc == 77 or p.timeout else 'ended', 'status %s, %s: %s' % (p.rc, 'self-reference' if cyc else 'no self-reference', p.text[-300:]))
    if w[2] > 400000:
        return bad('memory', '%d kB of memory' % w[2])
    if cyc:
        if p.rc != 1 or 'Infinite loop detected' not in p.text:
            return bad('not-reported', 'files or templates refer to themselves: status %s: %s' % (p.rc, p.text[-300:]))
        return i, None, None, None, info
    if p.rc:
        return bad('refused', 'nothing refers to itself: status %s: %s' % (p.rc, p.text[-400:]))
    t = open(os.path.join(d, 'o.xml')).read()
    got = [len(re.findall(r'\bq%dq\b' % k, t)) for k in range(n)]
    if got != count:
        return bad('expansion', 'number of expansions: expected %s, found %s' % (count, got))
    return i, None, None, None, info


def graph_skip(i):
    return i, None, None, None, None


def run():
    C = vlib.Check('C02', 'a distinct document at several sizes, or a distinct program of templates and files, whose work was counted')
    CFG.update(seed=C.seed)
    CFG['exe'] = os.environ.get('QB_PREBUILT_WORK') or vlib.build('work', extra_src=[os.path.join(vlib.VERIF, 'harness', 'work.cpp')])
    jobs = []
    r = random.Random('c02 %s' % C.seed)
    for k in range(len(UNITS)):
        vs = [v for v in (101, 104, 105, 106, 107)] if C.thorough else r.sample([101, 105, 106, 107], 2)
        for v in vs:
            if len(UNITS[k]) > 4 and v not in UNITS[k][4]:
                continue
            for f in ('bph' if C.thorough else r.choice('bbph')):
                jobs.append((k, v, f))
        if UNITS[k][0] == 'exp' and not C.thorough:
            jobs.append((k, UNITS[k][4][-1], 'b'))
    for job, files, args, b, seen in vlib.pmap(grow, jobs):
        C.observe('%s %s' % (job, C.thorough), len(seen) > 2)
        C.count('growth of repeated constructs')
        C.count('million edges counted', sum(w[0] for w in seen) // 10 ** 6)
        if b:
            C.bad(vlib.Bad(b[0], b[1], files, ['a.qbk'] + args))
    for i, files, args, b, seen in vlib.pmap(random_growth, range(C.n(400, 20000))):
        C.observe('random %d' % i, len(seen) > 1)
        C.count('growth of repeated pieces of anything')
        if b:
            C.bad(vlib.Bad('anything-' + b[0], b[1], files, ['a.qbk'] + args))
    for i, files, args, b, info in vlib.pmap(graph, range(C.n(3000, 100000))):
        if not info:
            continue
        C.observe('graph %s %d' % (C.seed, i), True)
        C.count('programs that refer to themselves' if info[2] else 'programs that do not')
        C.count('programs: ' + info[0])
        for u in info[3]:
            C.count('call ' + u)
        if b:
            C.bad(vlib.Bad(b[0], b[1], files, ['a.qbk'] + args))
    return C.finish()


if __name__ == '__main__':
    vlib.main(run)
