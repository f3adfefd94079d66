#!/usr/bin/env python3
"""C13: failure is always reported and success never claimed falsely.

faults   a run of each scenario is recorded through a preloaded shim (every open, read, write, close, stat, mkdir and
         directory read below the scratch directory), then repeated with each of these calls failing in turn
errors   documents with a mistake, and command lines that cannot work
"""
import errno, os, random, re, subprocess, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vlib, qdoc, slots
import mistakes as known
CFG = {}

KINDS = {
    'open': [('EACCES', 'once'), ('EMFILE', 'once'), ('EIO', 'on')],
    'read': [('EIO', 'once'), ('EIO', 'short'), ('EIO', 'intr')],
    'write': [('ENOSPC', 'once'), ('ENOSPC', 'on'), ('EIO', 'once'), ('EIO', 'short'), ('EIO', 'intr')],
    'close': [('EIO', 'once'), ('ENOSPC', 'on')],
    'stat': [('EACCES', 'once'), ('EIO', 'once')],
    'mkdir': [('EACCES', 'once'), ('ENOSPC', 'on')],
    'readdir': [('EIO', 'once')],
    'opendir': [('EMFILE', 'once')],
}


def scenario(i):
    r = random.Random('C13/%d/%d' % (CFG['seed'], i))
    v = r.choice([105, 106, 107, 107, 107])
    g = qdoc.Gen(r, v, block=[b for b in qdoc.BLOCK if b not in ('cblock', 'section', 'heading')])
    big = r.random() < .2

    def body(n):
        return g.blocks(n)[0] if not big else '\n\n'.join(g.ws(200, 700) for _ in range(r.randint(2, 5)))
    files = {}
    fmt = r.choice(['boostbook', 'boostbook', 'onehtml', 'html', 'html'])
    src = '[%s T%s\n[quickbook 1.%d]\n[id dd]\n]\n\n' % ('book' if fmt == 'html' else 'article', i, v - 100)
    if fmt == 'html':
        for k in range(r.randint(1, 4)):
            # each chapter is a page
            files['ch%d.qbk' % k] = '[chapter C%d\n[quickbook 1.%d]\n[id %sch%d]\n]\n\n%s\n' % (k, v - 100, r.choice(['', 'dir.']), k, body(1))
            src += '[include ch%d.qbk]\n\n' % k
    for k in range(r.randint(0, 4)):
        src += '[section:s%d S]\n\n%s\n\n' % (k, body(2))
        if r.random() < .5:
            src += '[section:n%d N]\n\n%s\n\n[endsect]\n\n' % (k, body(1))
        src += '[endsect]\n\n'
        x = r.random()
        if x < .3:
            files['b%d.qbk' % k] = '[article B\n[quickbook 1.%d]\n[id b%d]\n]\n\n%s\n' % (v - 100, k, body(1)) if v > 105 else body(1) + '\n'
            src += '[include b%d.qbk]\n\n' % k
        elif x < .5:
            files['inc/c%d.qbk' % k] = body(1) + '\n'
            files['inc/d%d.qbk' % k] = body(1) + '\n'
            src += '[include inc/%s%d.qbk]\n\n' % ('*' if v > 105 else 'c', k)
        elif x < .7:
            files['s%d.cpp' % k] = '//[snip%d\nint x%d;\n//]\n' % (k, k)
            src += '[import s%d.cpp]\n\n[snip%d]\n\n' % (k, k)
        elif x < .8 and v >= 106:
            files['lib/e%d.qbk' % k] = body(1) + '\n'
            src += '[include e%d.qbk]\n\n' % k
    src += '[$x.svg] \n\n' + body(1) + '\n'
    files['a.qbk'] = src
    files['html/x.svg'] = '<svg width="10" height="20"></svg>'
    args = ['a.qbk', '--debug', '--output-format=' + fmt, '-I', 'lib']
    args.append('--output-dir=' + r.choice(['out', 'out']) if fmt == 'html' else '--output-file=' + r.choice(['o.x', 'od/o.x']))
    if 'od/' in args[-1]:
        files['od/keep'] = ''
    if r.random() < .4:
        args.append('--output-deps=deps.txt')
    if r.random() < .4:
        args.append('--output-checked-locations=loc.txt')
    if r.random() < .4:
        args.append('--no-pretty-print')
    return files, args, fmt, v


def produced(d, files):
    res = {}
    for p, ds, fs in os.walk(d):
        for f in fs:
            rel = os.path.relpath(os.path.join(p, f), d)
            if rel not in files and not rel.startswith('.log'):
                res[rel] = open(os.path.join(p, f), 'rb').read()
    return res


def start(files):
    d = vlib.fresh_dir()
    vlib.write_tree(d, files)
    return d


def says_error(text):
    return bool(re.search(r'(?i)error|exception|not found|failed|denied|unable|cannot|no such|filesystem|iostream|basic_filebuf|unrecogni|unknown|missing|'
                          r'required|invalid|given|not a directory', re.sub(r'(?m)^Generating output.*$|^Unsupported tag.*$', '', text)))


def faults(i):
    files, args, fmt, v = scenario(i)
    d = start(files)
    log = os.path.join(vlib.worker_dir(), 'log')
    if os.path.exists(log):
        os.unlink(log)
    env = {'LD_PRELOAD': CFG['shim'], 'QBF_PREFIX': d + '/', 'QBF_LOG': log}
    q = vlib.run_qb(CFG['exe'], args, d, env=env)
    res = dict(files=files, args=args, v=v, fmt=fmt, runs=[], bad=[], unsure=None)
    if q.timeout:
        res['unsure'] = 'timeout'
        return res
    if q.rc:
        res['unsure'] = 'refused'
        return res
    good, quiet = produced(d, files), q.text
    calls = [l.split(' ', 1) for l in open(log).read().splitlines()]
    wanted = ['a.qbk'] + [a.split('=')[1] for a in args if a.startswith('--output-') and '-format' not in a and '-dir' not in a]
    for w in wanted[1:]:
        if w not in good:
            res['bad'].append(('missing', 'exit 0, but %s was not written' % w, None))
    if fmt == 'html' and 'out/index.html' not in good:
        res['bad'].append(('missing', 'exit 0, but no out/index.html', None))
    nth = {}
    jobs = []
    for op, path in calls:
        k = nth.get(op, 0)
        nth[op] = k + 1
        rel = os.path.relpath(path, d)
        for e, mode in KINDS.get(op, []):
            jobs.append((op, k, e, mode, rel))
    r = random.Random(i)
    if len(jobs) > CFG['limit']:
        jobs = r.sample(jobs, CFG['limit'])
    for op, k, e, mode, rel in jobs:
        d = start(files)
        env = {'LD_PRELOAD': CFG['shim'], 'QBF_PREFIX': d + '/', 'QBF_OP': op, 'QBF_N': str(k), 'QBF_ERRNO': str(getattr(errno, e)), 'QBF_MODE': mode}
        q = vlib.run_qb(CFG['exe'], args, d, env=env)
        what = '%s of %s (call %d) %s' % (op, rel, k, {'once': 'fails with ' + e, 'on': 'and all later ones fail with ' + e,
                                                        'short': 'transfers one byte only', 'intr': 'is interrupted'}[mode])
        res['runs'].append((op, mode, e, rel, q.rc))
        if q.timeout:
            res['unsure'] = 'timeout: ' + what
            continue
        if rel.endswith('.svg') and op in ('open', 'read', 'close'):
            # the size of an image is taken from it when it can be read
            continue
        if q.abnormal and (q.rc < 0 or q.rc > 90):
            res['bad'].append(('died', '%s: exit %d: %s' % (what, q.rc, q.text[-300:]), what))
        elif q.rc == 0:
            now = produced(d, files)
            if now != good:
                x = [f for f in sorted(set(good) | set(now)) if good.get(f) != now.get(f)]
                res['bad'].append(('false-success', '%s: exit 0, but %s is %s (messages: %r)' % (
                    what, x[0], 'missing' if x[0] not in now else 'different: %d bytes, %d without the fault' % (len(now[x[0]]), len(good.get(x[0], b''))),
                    q.text[:200]), what))
            elif op in ('write', 'close') and mode in ('once', 'on') and rel not in files:
                res['bad'].append(('ignored', '%s: exit 0' % what, what))
        elif not says_error(q.text):
            res['bad'].append(('silent', '%s: exit %d without a message: %r' % (what, q.rc, q.text[:300]), what))
        elif mode in ('short', 'intr'):
            # a transfer that makes progress, or can be repeated, is not a failure
            res['bad'].append(('given-up', '%s: exit %d: %s' % (what, q.rc, q.text[:300]), what))
    return res


# ---------------------------------------------------------------------------------------------
MISTAKES = [('[endsect]', 103), ('[include nofile.qbk]', 103), ('[import nofile.cpp]', 103), ('[table x [[a][b]', 103), ('[section a', 103),
            ('`unfinished', 107) if False else ('[t a..b..c]', 105), ('[loop]', 105), ('[xinclude]', 106), ('[h1 x', 105),
            ('[template t2[] a', 105), ('[endsect:nope]', 107), ('[section:a b]\n[endsect:c]', 107),
            ('[@x', 107), ('[include no*.qbk', 107), ('```\nunfinished', 107), ('[note a', 105), ('[heading', 107), ('[include:a b nofile.qbk]', 106),
            ('[template t[x] twice [x]][template t[x] twice]', 105)]


# Mistakes in the information block: (lines of it, versions)
INFO = [('[quickbook 1.9]', 101, 107), ('[quickbook 2.0]', 101, 107), ('[quickbook 0.9]', 101, 107), ('[copyright 2010-2001 Me]', 101, 107), ('[xmlbase nodir]', 107, 107), ('[copyright 2001, 2003-1999 Me, 2000 You]', 101, 107),
        ('[copyright', 101, 107), ('[nothing x]', 101, 107), ('[authors [a b]]', 101, 107), ('[version', 101, 107), ('[xmlbase a\\\\b]', 107, 107),
        ('[license a [h1 x]]', 106, 107), ('[license [include x]]', 106, 107), ('[source-mode nomode]', 101, 107), ('[last-revision', 101, 107)]
# Files and what is wrong with their use
USES = [({'sn.cpp': '//[sn\nint x;\n//]\n'}, '[import sn.cpp]\n\n[sn a]', 105), ({'sn.cpp': '//[sn\nint x;\n//]\n'}, '[template sn[] a]\n\n[import sn.cpp]', 105),
        ({'x.qbk': 'a\n\n[endsect]\n\nb\n'}, '[include x.qbk]', 106), ({'x.qbk': 'a [t a..b..c]\n'}, '[include x.qbk]', 106),
        ({'x.qbk': 'a\n\n[include x.qbk]\n'}, '[include x.qbk]', 103), ({'x.qbk': 'a\n\n[include y.qbk]\n', 'y.qbk': '[include nofile]\n'}, '[include x.qbk]', 103),
        ({'x.qbk': '[article X\n[quickbook 1.6]\n]\n\n[section a\n'}, '[include x.qbk]', 106), ({'x.qbk': 'x [$a\\\\b.png] y\n'}, '[include x.qbk]', 106),
        ({'x.qbk': '[template x[] [endsect]]\n'}, '[import x.qbk]\n\n[section a]\n\n[x]\n\n[endsect]', 107), ({'x.qbk': '[template x[]\n\n[section a]\n\n]\n'}, '[import x.qbk]\n\n[x]', 107),
        ({'x.qbk': '[template x[a] [a]]\n[template x[a] [a]]\n'}, '[import x.qbk]', 106), ({'s.py': '#[a\nx\n'}, '[import s.py]', 106), ({'s.py': 'x\n#]\n'}, '[import s.py]', 106),
        ({'s.cpp': '//[a\nx /*< [t a..b..c] >*/\n//]\n'}, '[import s.cpp]\n\n[a]', 105), ({'s.cpp': '//[a\n//` [t a..b..c]\n//]\n'}, '[import s.cpp]\n\n[a]', 105),
        ({'s.cpp': '//[a\nx(``[t a..b..c]``);\n//]\n'}, '[import s.cpp]\n\n[a]', 105), ({'s.cpp': '//` [t a..b..c]\n'}, '[include s.cpp]', 105),
        ({}, '[template q[] [section a]\n]\n\n[q]', 107), ({}, '[def x [t a..b..c]]\n\nx', 105), ({}, '[*[h1 x]]', 107),
        ({}, '[table x\n[[a][b]]\n[[[t a..b..c]][d]]\n]', 105), ({}, '[variablelist x\n[[a][[t a..b..c]]]\n]', 105), ({}, '[footnote [t a..b..c]] x', 105), ({}, '[def x]\n\n[?x [t a..b..c]]', 105),
        ({}, '[section [t a..b..c]]\n\n[endsect]', 105), ({}, '[$[t a..b..c]]', 107), ({}, '[template q[x] [x]]\n\n[q [t a..b..c]]', 105),
        ({}, '[include a\\[b]', 107), ({}, '[include a\\\\]', 107), ({}, '[import a\\[b]', 107), ({}, '[template e[] ]\n\n[include [e]]', 107), ({}, '[xinclude *.x]', 107),
        ({'d/x.qbk': 'y\n'}, '[include d\\x.qbk]', 106), ({'d/x.cpp': 'int y;\n'}, '[import d\\x.cpp]', 106), ({'d/x.xml': '<y/>\n'}, '[xinclude d\\x.xml]', 106), ({}, '[xinclude [/ x]]', 106)]


def uses(i):
    """Mistakes in the information block and in the use of other files."""
    r = random.Random('C13u/%d/%d' % (CFG['seed'], i))
    n = i % (len(INFO) + len(USES) + 3)
    v = r.choice([103, 105, 106, 107, 107])
    files, line, args, pre = {}, None, [], ''
    if n < len(INFO):
        line, v0, v1 = INFO[n]
        v = max(v0, min(v, v1))
        what = line
        body = 'text\n'
    elif n < len(INFO) + len(USES):
        more, what, v0 = USES[n - len(INFO)]
        v = max(v, v0)
        files.update(more)
        body = 'text\n\n%s\n\ntext\n' % what
        pre = '[template t[x] [x]]\n\n' if v > 103 else ''
    else:
        what = ['no block', 'strict', 'empty'][n - len(INFO) - len(USES)]
        body = {'no block': 'text\n', 'strict': '[section a]\n\ntext\n', 'empty': ''}[what]
        args = ['--strict'] * (what == 'strict')
    head = '[article T\n' + ('[quickbook 1.%d]\n' % (v - 100) if not (line or '').startswith('[quickbook') else '') + '[id dd]\n' + (line + '\n' if line else '') + ']\n\n'
    if what in ('no block', 'empty'):
        head = pre = ''
    elif r.random() < .3 and v >= 106 and what != 'strict' and not what.startswith('[license'):
        files['in.qbk'] = head + pre + body
        head, pre, body = '[article M\n[quickbook 1.%d]\n[id mm]\n]\n\n' % (v - 100), '', 'a\n\n[include in.qbk]\n'
    files['a.qbk'] = head + pre + body
    fmt = r.choice(['boostbook', 'boostbook', 'onehtml', 'html'])
    out = 'out' if fmt == 'html' else 'o.x'
    expect = r.random() < .3
    args = ['a.qbk', '--output-format=' + fmt, '--output-%s=%s' % ('dir' if fmt == 'html' else 'file', out)] + args
    d = start(files)
    q = vlib.run_qb(CFG['exe'], args + ['--expect-errors'] * expect, d)
    b = None
    if q.timeout:
        return v, files, args, what, 'timeout'
    now = produced(d, {k: 0 for k in files})
    if q.rc != (0 if expect else 1):
        b = 'status', 'mistake %r%s: exit %d: %r' % (what, ', --expect-errors' if expect else '', q.rc, q.text[:300])
    elif not re.search('(?i)error', q.text.replace('--expect-errors', '')):
        b = 'unreported', 'no error is reported for %r: %r' % (what, q.text[:300])
    elif now:
        b = 'output', 'mistake %r, but there is output: %r' % (what, sorted(now))
    return v, files, args, what, b


def mistakes(i):
    r = random.Random('C13e/%d/%d' % (CFG['seed'], i))
    v = r.choice([103, 105, 106, 107, 107])
    g = qdoc.Gen(r, v, block=[b for b in qdoc.BLOCK if b not in ('cblock', 'section')])
    pre = known.PRE + '[template t[x] [x]]\n\n[template loop[] [loop]]\n\n' if v >= 105 else ''
    head = '[article T\n[quickbook 1.%d]\n[id dd]\n]\n\n' % (v - 100) + pre
    parts = [g.blocks(1)[0] for _ in range(r.randint(1, 6))]
    more = {}
    x = r.random()
    if x < .25:
        m = r.choice([m for m, mv in MISTAKES if v >= mv])
    elif x < .5 and v >= 105:
        t, inl = g.ws(), r.choice([k for k in known.INLINE if k[1] <= v <= k[2]])[0]
        m = r.choice(['%s %s', '* %s\n* x\n  %s\n', '[table %s\n[[x]]\n[[%s]]\n]', '%s [*x %s]', '%s\n\n   int x;\n   f(``%s``);\n', '[section %s]\n\n%s\n\n[endsect]',
                      '%s [footnote %s]', '[note %s\n\n%s\n]']) % (t, inl)
    elif x < .75 or v < 106:
        m = r.choice([k for k in known.BLOCK if k[1] <= v <= k[2]])[0]
    elif x < .85:
        m = r.choice([k for k in known.OPEN if k[1] <= v <= k[2]])[0]
    else:
        n, text, m, _, _, _, _ = r.choice([k for k in known.FILES if k[3] <= v <= k[4]])
        more = {n: text}
    # what follows an unclosed element may close it, what precedes it may be a list that it continues
    end = m.count('[') != m.count(']') or m in [k[0] for k in known.OPEN] + [k[0] for k in MISTAKES]
    at = len(parts) if end else r.randint(0, len(parts))
    parts[at:at] = [g.ws(), m] + [g.ws()] * (not end)
    files = dict(more)
    files['a.qbk'] = head + '\n\n'.join(parts) + '\n'
    where = 'the file'
    if r.random() < .3 and '\n' not in m and not more:
        # inside an included file
        files['b.qbk'] = files['a.qbk'] if v >= 106 else '\n' + '\n\n'.join(parts) + '\n'
        files['a.qbk'] = head + 'x\n\n[include b.qbk]\n\ny\n'
        where = 'an included file'
    fmt = r.choice(['boostbook', 'boostbook', 'onehtml', 'html'])
    out = 'out' if fmt == 'html' else 'o.x'
    args = ['a.qbk', '--debug', '--output-format=' + fmt, '--output-%s=%s' % ('dir' if fmt == 'html' else 'file', out)]
    expect = r.random() < .3
    old = r.random() < .4
    valid = r.random() < .25
    if valid:
        files = {'a.qbk': head + '\n\n'.join(p for p in parts if p != m) + '\n'}
    if old and fmt != 'html':
        files['o.x'] = 'old'
    d = start(files)
    q = vlib.run_qb(CFG['exe'], args + (['--expect-errors'] if expect else []), d)
    b = None
    if q.timeout:
        return v, files, args, m, valid, expect, 'timeout'
    now = produced(d, {k: 0 for k in files if k != 'o.x'})
    errors = re.search(r'(?i)error', q.text.replace('--expect-errors', '').replace('No errors detected', ''))
    if valid:
        if errors and not expect and q.rc == 0:
            b = 'status', 'messages speak of an error, exit 0: %r' % q.text[:300]
        elif errors:
            return v, files, args, m, valid, expect, None
        elif q.rc != (1 if expect else 0):
            b = 'status', 'no mistake%s, exit %d: %r' % (', --expect-errors' if expect else '', q.rc, q.text[:300])
        elif out not in now and 'out/index.html' not in now:
            b = 'no-output', 'exit %d but no output' % q.rc
    else:
        if not errors:
            b = 'unreported', 'no error is reported for %r in %s: exit %d %r' % (m, where, q.rc, q.text[:300])
        elif q.rc != (0 if expect else 1):
            b = 'status', 'mistake %r in %s%s: exit %d: %r' % (m, where, ', --expect-errors' if expect else '', q.rc, q.text[:300])
        elif {k: x for k, x in now.items()} != ({'o.x': b'old'} if old and fmt != 'html' else {}):
            b = 'output', 'mistake %r in %s, but there is output: %r' % (m, where, sorted(now))
    return v, files, args, m, valid, expect, b


GOODDOC = '[article T\n[quickbook 1.7]\n[id dd]\n]\n\n[section:s1 A]\n\ntext\n\n[endsect]\n\n[section:s2 B]\n\ntext\n\n[endsect]\n\n[section:s3 C]\n\ntext\n\n[endsect]\n'
# (arguments, what happens must be a failure)
COMMANDS = [
    ['nofile.qbk', '--output-file=o.x'], ['a.qbk', '--output-file=nodir/o.x'], ['a.qbk', '--output-format=nope', '--output-file=o.x'],
    ['a.qbk', '--output-file=adir'], ['a.qbk', '--output-file=afile/o.x'], ['a.qbk', '--output-format=html', '--output-dir=nodir/x'],
    ['a.qbk', '--output-format=html', '--output-dir=afile'], ['a.qbk', '--output-format=html', '--output-file=o.x'],
    ['a.qbk', '--output-dir=out'], ['a.qbk', '--output-file=o.x', '--no-such-option'], ['a.qbk', '--output-file=o.x', '--indent=x'],
    ['a.qbk', '--output-file=o.x', '--output-deps=nodir/deps'], ['a.qbk', '--output-file=o.x', '--output-checked-locations=nodir/loc'],
    ['a.qbk', '--output-file=o.x', '--output-deps=adir'], ['a.qbk', '--output-file=o.x', '--xinclude-base=nodir'],
    ['a.qbk', '--output-file=o.x', '--output-deps-format=nope', '--output-deps=d'], [], ['adir', '--output-file=o.x'],
    ['a.qbk', '--output-file=/dev/full'], ['a.qbk', '--output-format=onehtml', '--output-file=/dev/full'],
    ['a.qbk', '--output-file=o.x', '--output-deps=/dev/full'], ['a.qbk', '--output-file=o.x', '--output-checked-locations=/dev/full'],
    ['book.qbk', '--output-format=html', '--output-dir=blocked'],
    ['bad.qbk', '--output-file=o.x'], ['incdir.qbk', '--output-file=o.x'], ['a.qbk', '--output-file=o.x', '-D='], ['empty.qbk', '--output-file=o.x'],
    ['a.qbk', 'b.qbk', '--output-file=o.x'], ['many.qbk', '--output-format=html', '--output-dir=many'],
]


def many(n):
    return '[book T\n[quickbook 1.7]\n[id dd]\n]\n\n' + ''.join('[include:c%d ch.qbk]\n\n' % i for i in range(n))


def command(i):
    args = COMMANDS[i % len(COMMANDS)]
    files = {'a.qbk': GOODDOC, 'afile': 'x', 'adir/keep': 'x', 'blocked/c2.html/keep': 'x', 'blocked/c2/x.html/keep': 'x',
             'book.qbk': many(4), 'ch.qbk': '[chapter x\n[quickbook 1.7]\n]\n\ntext\n',
             'bad.qbk': GOODDOC.replace('text', '[note'), 'incdir.qbk': GOODDOC.replace('text', '[include adir]'), 'empty.qbk': '', 'many.qbk': many(256)}
    if 'many.qbk' in args:
        # 256 pages that cannot be written
        for k in range(256):
            files['many/c%d.html/keep' % k] = 'x'
    d = start(files)
    q = vlib.run_qb(CFG['exe'], args, d)
    b = None
    if q.timeout:
        return args, 'timeout'
    if q.rc == 0:
        b = 'command', 'exit 0 for %s: %r' % (' '.join(args), q.text[-300:])
    elif q.rc < 0 or q.rc > 90:
        b = 'died', 'exit %d for %s: %r' % (q.rc, ' '.join(args), q.text[-300:])
    elif 'many.qbk' in args and q.text.count('rror') < 256:
        raise vlib.HarnessError('many.qbk was meant to fail for 256 pages: %r' % q.text[-300:])
    elif not says_error(q.text):
        b = 'silent', 'exit %d without a message for %s: %r' % (q.rc, ' '.join(args), q.text[-300:])
    return args, b


def run():
    C = vlib.Check('C13', 'a distinct run with an injected fault, a mistake in its input or an impossible command line', level='fault_enumeration')
    exe = vlib.build('fast')
    shim = vlib.shim()
    CFG.update(exe=exe, shim=shim, seed=C.seed, limit=C.n(70, 2000))
    C.minimum = 100
    refused = 0
    for res in vlib.pmap(faults, range(C.n(36, 400)), chunk=1):
        if res['unsure'] == 'refused':
            refused += 1
            continue
        if res['unsure']:
            C.unsure(res['unsure'])
        C.count('scenarios (%s)' % res['fmt'])
        for op, mode, e, rel, rc in res['runs']:
            C.observe(repr((sorted(res['files'].items()), res['args'], op, mode, e, rel)), True, None)
            C.count('%s %s: exit %s' % (op, {'once': 'fails', 'on': 'keeps failing', 'short': 'is short', 'intr': 'is interrupted'}[mode], '0' if rc == 0 else 'nonzero'))
        for key, msg, what in res['bad']:
            C.bad(vlib.Bad(key, 'quickbook 1.%d, %s: %s' % (res['v'] - 100, res['fmt'], msg), res['files'], res['args'] + [what]))
    C.count('scenarios refused (not judged here)', refused)
    for v, files, args, m, valid, expect, b in vlib.pmap(mistakes, range(C.n(800, 12000))):
        if b == 'timeout':
            C.unsure('timeout')
            continue
        C.observe(repr((sorted(files.items()), args, expect)), True, files['a.qbk'] if len(files['a.qbk']) < 500 else None)
        C.count('documents %s%s' % ('without a mistake' if valid else 'with a mistake', ', --expect-errors' if expect else ''))
        if b:
            C.bad(vlib.Bad(b[0], 'quickbook 1.%d: %s' % (v - 100, b[1]), files, args))
    for v, files, args, what, b in vlib.pmap(uses, range(C.n(500, 6000))):
        if b == 'timeout':
            C.unsure('timeout')
            continue
        C.observe(repr((sorted(files.items()), args)), True, None)
        C.count('mistakes in information blocks and other files')
        if b:
            C.bad(vlib.Bad(b[0], 'quickbook 1.%d: %s' % (v - 100, b[1]), files, args))
    for args, b in vlib.pmap(command, range(len(COMMANDS)), chunk=1):
        C.observe('command ' + repr(args))
        C.count('impossible command lines')
        if b == 'timeout':
            C.unsure('timeout')
        elif b:
            C.bad(vlib.Bad(b[0], b[1], {}, args))
    return C.finish()


if __name__ == '__main__':
    vlib.main(run)
