"""C24: what is written, where, and what each command line option does to it."""
import os, re, shutil, subprocess, sys, time, random, html
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import vlib

CFG = {}
NAMES = ['a.qbk', 'a.b.qbk', 'noext', 'a b.qbk', 'x.y.z', 'caf\u00e9.qbk', 'q&a.quickbook', 'A.QBK', 'a-b_c.txt', 'two..qbk', "it's.qbk"]
OLD = 1000000000 * 10 ** 9


def stem(name):
    return name[:name.rindex('.')] if '.' in name else name


def snapshot(root):
    res = {}
    for b, ds, fs in os.walk(root):
        for n in fs:
            p = os.path.join(b, n)
            s = os.lstat(p)
            res[os.path.relpath(p, root)] = (s.st_mtime_ns, s.st_ino, open(p, 'rb').read())
        for n in ds:
            res[os.path.relpath(os.path.join(b, n), root) + '/'] = None
    return res


def settle(root):
    for b, ds, fs in os.walk(root):
        for n in fs:
            os.utime(os.path.join(b, n), ns=(OLD, OLD))


def launch(args, cwd, tz):
    e = dict(vlib.BASE_ENV)
    if tz:
        e['TZ'] = tz
    e['TMPDIR'] = CFG['tmp']
    p = subprocess.Popen([CFG['exe']] + args, cwd=cwd, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True)
    try:
        o, x = p.communicate(timeout=20)
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        return None
    return p.returncode, o.decode('utf8', 'replace'), x.decode('utf8', 'replace')


class Doc(object):
    """A document whose text shows what the options did."""

    def __init__(self, r):
        self.r = r
        self.v = r.choice([103, 104, 105, 106, 106, 107, 107])
        self.mistake = r.random() < .12
        self.unclosed = r.random() < .15
        self.unknown = r.random() < .12 and self.v >= 106
        self.macros = ['__m%d__' % i for i in range(3)] + ['m_x', 'DEF']
        self.date = r.random() < .6
        self.revision = r.random() < .3
        self.image = r.random() < .5
        self.include = r.random() < .6

    def text(self):
        r, v = self.r, self.v
        l = ['[article Title', '[quickbook 1.%d]' % (v - 100), '[id doc]']
        if self.revision:
            l.append('[last-revision $Date: 2001/02/03 04:05:06 $]')
        l += [']', '']
        body = []
        if self.date:
            body.append('DATE( __DATE__ ) TIME( __TIME__ )')
        for k, m in enumerate(self.macros):
            body.append('MACRO( %s )' % m)
            body.append('COND( [?%s yes%d] )' % (m, k))
        body.append('plain text here')
        if self.image:
            body.append('[$pic.svg]')
        r.shuffle(body)
        for b in body:
            l += [b, '']
        secs = r.sample(['alpha', 'beta', 'gamma', 'delta'], r.randint(1, 3))
        self.sections = secs
        self.headings = []
        for i, s in enumerate(secs):
            l += ['[section:%s Sec %s]' % (s, s), '', 'Some text in %s.' % s, '']
            if r.random() < .5:
                self.headings.append('hd%d' % i)
                l += ['[h%d:%s Head %s]' % (r.randint(3, 5), 'hd%d' % i, s) if v >= 106 else '[h%d Head %s]' % (r.randint(3, 5), s), '']
            if not (self.unclosed and i == len(secs) - 1):
                l += ['[endsect]', '']
        if self.include:
            l += ['[include part.qbk]', '']
        if self.unknown:
            l += ['A bracket [unknown thing] here.', '']
        if self.mistake:
            l += [r.choice(['[endsect][endsect][endsect][endsect]\n\n[endsect]\n\n[endsect]', '[include missing.qbk]', '[import missing.cpp]']), '']
            if l[-2].startswith('[endsect]'):
                l[-2] = '[endsect]\n\n[endsect]\n\n[endsect]\n\n[endsect]'
        return '\n'.join(l)


def words(s):
    return re.sub(r'\s+', ' ', html.unescape(re.sub(r'<[^>]*>', ' ', s)))


def case(i):
    r = random.Random('c24/%s/%d' % (CFG['seed'], i))
    root = os.path.join(vlib.scratch(), 'c24-%d' % i)
    shutil.rmtree(root, ignore_errors=True)
    try:
        return one(r, root)
    finally:
        shutil.rmtree(root, ignore_errors=True)


def svg(w):
    return '<?xml version="1.0"?>\n<svg xmlns="http://www.w3.org/2000/svg" width="%d" height="7"><rect/></svg>\n' % w


def one(r, root):
    d = Doc(r)
    name = r.choice(NAMES)
    sub = r.choice(['', '', 'docs', 'do cs/deep.d'])
    cwd = r.choice(['', '', '', 'wd', sub])
    files = {os.path.join(sub, name): d.text()}
    # includes: where they are found
    incs = r.sample(['inc1', 'inc2', 'inc3/in'], r.randint(0, 3))
    places = [p for p in [sub, 'inc1', 'inc2', 'inc3/in'] if r.random() < .5]
    if d.include:
        for p in places:
            files[os.path.join(p, 'part.qbk')] = 'FROM( %s )\n' % (p.replace('/', '-').replace(' ', '-').replace('.', '-') or 'top')
    # images: where their size is read
    locs = [p for p in [os.path.join(sub, 'html'), 'pics', 'other/pics'] if r.random() < .6]
    if d.image:
        for k, p in enumerate([os.path.join(sub, 'html'), 'pics', 'other/pics']):
            if p in locs:
                files[os.path.join(p, 'pic.svg')] = svg(101 + k)
    # files already there
    for p in ['wd/keep.txt', 'out/old.html', 'sub/keep.xml', os.path.join(sub, stem(name) + '.xml'), os.path.join(sub, stem(name) + '.html')]:
        if r.random() < .4 and p not in files or p.endswith('keep.txt'):
            files[p] = 'old content of ' + p
    vlib.write_tree(root, files)
    for p in ['wd', 'sub', 'inc1', 'inc2', 'inc3/in', 'pics', 'other/pics', sub]:
        os.makedirs(os.path.join(root, p), exist_ok=True)
    base = os.path.join(root, cwd)

    def spell(p):            # a path, from the directory of the run
        if r.random() < .2:
            return os.path.join(root, p)
        q = os.path.relpath(os.path.join(root, p), base)
        return './' + q if r.random() < .15 else q
    options, errors, used = [], [], {}

    def use(n, value=None):
        used['--' + n] = 1
        if value is None:
            options.append(['--' + n])
        else:
            options.append(['--%s=%s' % (n, value)] if r.random() < .6 or value.startswith('-') or not value else ['--' + n, value])
    style, fmt = 'file', 'boostbook'
    given = False
    f = r.choice([None, None, None, 'boostbook', 'html', 'html', 'onehtml', 'onehtml', 'bad'] if r.random() < .5 else [None, 'html', 'onehtml', 'boostbook'])
    if f:
        given = True
        word = r.choice(['HTML', 'xml', 'pdf', 'html5', 'docbook']) if f == 'bad' else f
        use('output-format', word)
        if f == 'bad':
            errors.append('Unknown output format: ' + word)
        elif f == 'html':
            style, fmt = 'chunked', 'html'
        elif f == 'onehtml':
            fmt = 'html'
    out = None
    inpath = spell(os.path.join(sub, name))
    # the places written to
    k = r.random()
    explicit = False
    if k < .35:
        t = r.choice(['o.xml', 'sub/o', 'sub/a.b.html', 'o ut.xml', 'sub/keep.xml']) if r.random() < .85 else 'nodir/o.xml'
        p = spell(t)
        use('output-file', p)
        explicit = True
        if style == 'chunked':
            errors.append('output-file give')
        else:
            out = p, t
            if t.startswith('nodir'):
                errors.append('parent directory not found')
    elif k < .5 or (style == 'chunked' and k < .8):
        t = r.choice(['outd', 'sub/outd', 'sub', 'out d', 'out']) if r.random() < .85 else 'nodir/x'
        p = spell(t)
        use('output-dir', p)
        explicit = True
        if style == 'file':
            errors.append('output-dir give')
        else:
            out = p, t
            if t.startswith('nodir'):
                errors.append('parent directory not found')
    alt = []
    if r.random() < .3:
        t = r.choice(['deps.txt', 'sub/deps'])
        use('output-deps', spell(t))
        alt.append(t)
        if r.random() < .3:
            word = r.choice(['escaped', 'checked', 'escaped,checked', 'bad', 'escaped bad'])
            use('output-deps-format', word)
            if 'bad' in word:
                errors.append('Unknown dependency format flag')
    if r.random() < .15:
        t = r.choice(['locs.txt', 'sub/locs'])
        use('output-checked-locations', spell(t))
        alt.append(t)
    noout = r.random() < .2
    if noout:
        use('no-output')
    if not explicit:
        if noout or (not given and alt):
            style = 'none'
        elif style == 'chunked':
            p = os.path.join(os.path.dirname(inpath), 'html')
            out = p, os.path.join(sub, 'html')
        else:
            ext = '.html' if fmt == 'html' else '.xml'
            out = os.path.join(os.path.dirname(inpath), stem(name) + ext), os.path.join(sub, stem(name) + ext)
    missing = r.random() < .05
    if missing:
        inpath = spell(os.path.join(sub, 'missing-' + name))
        errors.append('file not found')
    # options that change the content
    pretty, linked, strict = True, fmt == 'boostbook', False
    if r.random() < .3:
        use('no-pretty-print')
    elif r.random() < .3:
        use('linewidth', str(r.choice([40, 80, 200])))
    if r.random() < .3:
        use('no-self-linked-headers')
        linked = False
    if r.random() < .3:
        use('strict')
        strict = True
    ms = r.random() < .3
    if ms:
        use('ms-errors')
    debug = r.random() < .4
    if debug:
        use('debug')
    expect = r.random() < .15
    if expect:
        use('expect-errors')
    location = None
    if r.random() < .5:
        t = r.choice(['pics', 'other/pics', 'nowhere'])
        use('image-location', spell(t))
        location = t
    defines = []
    for _ in range(r.randint(0, 4) if r.random() < .7 else 0):
        m = r.choice(d.macros)
        val = r.choice([None, '', 'v%d' % r.randint(0, 99), 'two words', '[*bold]', "a'b", '5%', 'x=y'])
        defines.append((m, val))
        s = m if val is None else m + '=' + val
        o = r.choice([['-D' + s], ['-D', s], ['--define=' + s], ['--define', s]])
        defines[-1] += (o,)
        used['--define'] = 1
    baddef = None
    if r.random() < .06:
        baddef = r.choice(['=x', 'a]b', 'x=[*y', 'a b'])
        if baddef == 'x=[*y':
            baddef = '=x'
        defines.insert(r.randint(0, len(defines)), (None, None, ['-D', baddef]))
        used['--define with an error'] = 1
    ordered = [x[2] for x in defines]
    for p in incs:
        q = spell(p)
        ordered.append(r.choice([['-I' + q], ['-I', q], ['--include-path=' + q], ['--include-path', q]]))
        used['--include-path'] = 1
    options.append([inpath] if r.random() < .7 else ['--input-file=' + inpath] if r.random() < .5 else ['--input-file', inpath])
    # any order, but repeated options keep theirs
    r.shuffle(options)
    slots = sorted(r.randint(0, len(options)) for _ in ordered)
    dl = [x for x in ordered if 'D' in x[0][:2] or x[0].startswith('--define')]
    il = [x for x in ordered if x not in dl]
    mixed = []
    while dl or il:
        mixed.append((dl if dl and (not il or r.random() < .5) else il).pop(0))
    for s, o in reversed(list(zip(slots, mixed))):
        options.insert(s, o)
    # the whole command line is refused
    refused = r.random() < .06
    info = r.random() < .04
    if refused:
        kind = r.choice(['unknown', 'twice', 'value', 'two inputs', 'none', 'flag'])
        used['refused: ' + kind] = 1
        if kind == 'unknown':
            options.insert(r.randint(0, len(options)), [r.choice(['--no-such-option', '--colour=x', '-x'])])
        elif kind == 'twice':
            options += [['--image-location=pics']] * 2
        elif kind == 'value':
            options.insert(r.randint(0, len(options)), [r.choice(['--indent=x', '--indent=1x'])])
        elif kind == 'two inputs':
            options.append([inpath])
        elif kind == 'none':
            options = [o for o in options if o[0] != inpath and not o[0].startswith('--input-file')]
        else:
            options.append(['--output-format'])
    elif info:
        w = r.choice(['--help', '--version'])
        used[w] = 1
        options.insert(r.randint(0, len(options)), [w])
    args = sum(options, [])
    if refused and kind == 'flag' and args[-1] != '--output-format':
        args.append('--output-format')
    tz = r.choice(['', 'UTC', 'AAA+11', 'BBB-13', 'CCC-5:30'])
    settle(root)
    before = snapshot(root)
    t0 = time.time()
    res = launch(args, base, tz)
    t1 = time.time()
    if res is None:
        return files, used, args, 'timeout'
    rc, so, se = res
    after = snapshot(root)
    changed = sorted(p for p in set(before) | set(after) if before.get(p, 0) != after.get(p, 0))
    shown = [a.replace(root, '/R') for a in args] + ['(in /R/%s, TZ=%s)' % (cwd, tz)]
    bad = lambda k, m: (files, used, shown, (k, m.replace(root, '/R') + ' -- ' + ' '.join(shown)))
    tail = repr((so + se)[-300:])
    if refused:
        if rc != 1 or not se.strip():
            return bad('refused', 'a wrong command line (%s): status %s, %s' % (kind, rc, tail))
        if changed:
            return bad('written', 'a wrong command line (%s), but written: %s' % (kind, changed))
        return files, used, shown, None
    if info:
        if rc != 0 or not so.strip() or se:
            return bad('info', '%s: status %s, %s' % (w, rc, tail))
        if changed:
            return bad('written', '%s, but written: %s' % (w, changed))
        if w == '--version' and not re.search(r'^Quickbook Version \d+\.\d+', so):
            return bad('info', '--version prints %s' % tail)
        if w == '--help':
            for o in ['help', 'version', 'no-pretty-print', 'strict', 'indent', 'linewidth', 'output-file', 'no-output', 'output-deps', 'ms-errors', 'include-path', 'define', 'image-location']:
                if '--' + o not in so:
                    return bad('info', '--help does not mention --' + o)
        return files, used, shown, None
    # what the document contains
    macros = {}
    for m, val, _ in defines:
        if m and m not in macros:
            macros[m] = val or ''
    wrong = bool(errors)          # seen before anything is done
    failed, compiled = wrong, not wrong
    silent = True
    if compiled:
        if baddef is not None:
            errors.append("Error parsing command line definition: '%s'" % baddef)
            failed, compiled = True, False
    included = None
    if compiled:
        if d.include:
            for p in [sub] + incs:
                if p in places:
                    included = (p.replace('/', '-').replace(' ', '-').replace('.', '-') or 'top')
                    break
            else:
                failed = True
        if d.mistake:
            failed = True
        if strict and (d.unclosed or d.unknown):
            failed = True
        silent = not (failed or d.unclosed)
    # the status
    want = (0 if failed else 1) if expect else (1 if failed else 0)
    if (rc != want) if want == 0 else not 0 < rc < 128:
        return bad('status', 'status %s, expected %s: %s' % (rc, want, tail))
    for e in errors:
        if e not in se:
            return bad('message', 'no message %r: %s' % (e, tail))
    # what is written on the terminal
    if wrong or style == 'none':
        line = ''
    else:
        line = 'Generating output %s: %s\n' % ('path' if style == 'chunked' else 'file', out[0])
    so = so.replace('Unsupported tag: article\n', '')
    if so != line:
        return bad('terminal', 'printed %r, expected %r' % (so, line))
    if compiled and silent and not expect and se:
        return bad('terminal', 'a correct document, but printed %r' % se[-300:])
    if not silent and compiled:
        pat = r'^%s(\(\d+\))?: (error|warning): ' if ms else r'^%s(:\d+)?: (error|warning): '
        if not re.search(pat % re.escape(inpath), se, re.M):
            return bad('ms-errors', 'no message in the %s format: %s' % ('Visual Studio' if ms else 'default', tail))
        if re.search((r'^%s:\d+: ' if ms else r'^%s\(\d+\): ') % re.escape(inpath), se, re.M):
            return bad('ms-errors', 'a message in the other format: %s' % tail)
    # the files
    exp = set()
    if not wrong:
        exp |= set(alt)
    norm = [os.path.normpath(p) for p in changed]
    dirs = [p for p in changed if p.endswith('/')]
    wrote = set(p for p in changed if not p.endswith('/'))
    exp = set(map(os.path.normpath, exp))
    if not failed and style == 'file':
        exp.add(os.path.normpath(out[1]))
    pages = []
    if not failed and style == 'chunked':
        top = os.path.normpath(out[1])
        pages = sorted(p for p in wrote if p.startswith(top + '/') and p not in exp)
        if top + '/index.html' not in pages or any(not p.endswith('.html') for p in pages):
            return bad('written', 'the pages written are %s' % pages)
        exp |= set(pages)
        if any(not (p[:-1] == top or p.startswith(top + '/')) for p in dirs):
            return bad('written', 'directories made: %s' % dirs)
    elif dirs:
        return bad('written', 'directories made: %s' % dirs)
    if wrote != exp:
        return bad('written', 'not written: %s, written though not asked for: %s' % (sorted(exp - wrote), sorted(wrote - exp)))
    if any(p in before and p not in after for p in changed):
        return bad('written', 'removed: %s' % [p for p in changed if p not in after])
    used['files written: %s' % (style if not failed else 'none, failed')] = 1
    if failed or style == 'none':
        return files, used, shown, None
    # the content
    data = '\n'.join(after[p][2].decode('utf8') for p in (pages or [os.path.normpath(out[1])]))
    text = words(data)
    for k, m in enumerate(d.macros):
        val = macros.get(m)
        shown_ = m if val is None else {'[*bold]': 'bold'}.get(val, val)
        got = [x.strip() for x in re.findall(r'MACRO\((.*?)\)', text)]
        if shown_ not in got:
            return bad('define', 'macro %s shows as one of %s, expected %r' % (m, got, shown_))
        if val == '[*bold]' and not re.search(r'<(emphasis role="bold"|b|strong|span class="bold")[^>]*>\s*(<[^>]*>\s*)*bold', data):
            return bad('define', 'the markup in the value of %s is not there' % m)
        if ('yes%d' % k in text) != (val is not None):
            return bad('define', 'conditional on %s, which is %sdefined' % (m, '' if val is not None else 'not '))
    if d.date:
        g = re.search(r'DATE\( (\S+) \) TIME\( (.*?) \)', text)
        now = []
        for t in range(int(t0) - 1, int(t1) + 2):
            now.append('2000-Dec-20 12:00:00 PM' if debug else time.strftime('%Y-%b-%d %I:%M:%S %p', local(t, tz)))
        if not g or ' '.join(g.groups()) not in now:
            return bad('date', '__DATE__ and __TIME__ give %s, expected %s' % (g and ' '.join(g.groups()), now[0]))
    if fmt == 'boostbook':
        g = re.search(r'last-revision="([^"]*)"', data)
        if d.revision:
            now = ['$Date: 2001/02/03 04:05:06 $']
        elif debug:
            now = ['DEBUG MODE Date: 2000/12/20 12:00:00 $']
        else:
            now = [time.strftime('$Date: %Y/%m/%d %H:%M:%S $', time.gmtime(t)) for t in range(int(t0) - 1, int(t1) + 2)]
        if not g or g.group(1) not in now:
            return bad('date', 'last revision %s, expected %s' % (g and g.group(1), now[0]))
        for s in d.sections:
            g = re.search(r'<section id="doc\.%s">\s*<title>(.*?)</title>' % s, data, re.S)
            if not g:
                return bad('headers', 'no section ' + s)
            x = re.sub(r'\s+', ' ', g.group(1)).strip()
            w = '<link linkend="doc.%s">Sec %s</link>' % (s, s) if linked else 'Sec ' + s
            if x != w:
                return bad('headers', 'title of section %s: %s, expected %s' % (s, x, w))
        heads = re.findall(r'<bridgehead[^>]*>(.*?)</bridgehead>', data, re.S)
        if any(bool(re.search(r'<link\s', h)) != linked for h in heads):
            return bad('headers', 'headings %s, expected %s' % (heads, 'links' if linked else 'no links'))
        if len(heads) < len(d.headings):
            return bad('headers', 'headings lost')
        if d.image:
            w = os.path.normpath(location if location is not None else os.path.join(sub, 'html'))
            all_ = [os.path.normpath(os.path.join(sub, 'html')), 'pics', 'other/pics']
            size = None
            if os.path.join(w, 'pic.svg') in map(os.path.normpath, files):
                size = str(101 + all_.index(w))
            g = re.search(r'<imagedata\s([^>]*)fileref="[^"]*pic.svg"([^>]*)>', data)
            x = re.search(r'contentwidth="(\d+)', ''.join(a or '' for a in g.groups())) if g else None
            if (x.group(1) if x else None) != size:
                return bad('image-location', 'size of the image %s, expected %s' % (x and x.group(1), size))
    elif any(re.search(r'<a\s', h) for h in re.findall(r'<h[1-6][^>]*>(.*?)</h[1-6]>', data, re.S)):
        return bad('headers', 'headings with links in HTML')
    if d.include and 'FROM( %s )' % included not in text:
        return bad('include-path', 'included %s, expected %s' % (re.findall(r'FROM\((.*?)\)', text), included))
    return files, used, shown, None


def local(t, tz):
    m = re.match(r'[A-Z]{3}([+-])(\d+)(?::(\d+))?$', tz)
    if not m:
        return time.gmtime(t)
    off = (int(m.group(2)) * 3600 + int(m.group(3) or 0) * 60) * (-1 if m.group(1) == '+' else 1)
    return time.gmtime(t + off)


def run():
    C = vlib.Check('C24', 'a distinct command line over a distinct tree of files')
    tmp = os.path.join(vlib.scratch(), 'tmp')
    os.makedirs(tmp, exist_ok=True)
    CFG.update(exe=vlib.build('fast'), seed=C.seed, tmp=tmp)
    C.minimum = 100
    for files, used, args, b in vlib.pmap(case, range(C.n(10000, 150000))):
        if b == 'timeout':
            C.unsure('timeout')
            continue
        C.observe(repr(sorted(files.items())) + repr(args), True, {'files': sorted(files), 'arguments': args})
        for k, x in used.items():
            C.count(k, x)
        if b:
            C.bad(vlib.Bad(b[0], b[1], files, args))
    if os.listdir(tmp):
        C.bad(vlib.Bad('written', 'files left in TMPDIR: %s' % os.listdir(tmp)[:5], {}, []))
    return C.finish()


if __name__ == '__main__':
    vlib.main(run)
