"""The documents of /repo/test with their recorded output, as further observations.

The recorded files are read from the tree under test at run time; each check compares only the projection of the
output its property is about, so that a difference elsewhere (layout, another feature) isn't its business.
"""
import os, re
import vlib

CONSTS_RE = re.compile(r'path-constant (\S+) : (\S+) ;')


class Case(object):
    __slots__ = ('name', 'dir', 'kind', 'input', 'args', 'gold', 'gold_html', 'fixed_output')

    def __init__(self, **kw):
        for k, v in kw.items():
            setattr(self, k, v)


def cases(root=None):
    root = root or os.path.join(vlib.REPO, 'test')
    res = []
    for d, dirs, fs in sorted(os.walk(root)):
        dirs.sort()
        if 'Jamfile.v2' not in fs:
            continue
        txt = re.sub(r'#.*', '', open(os.path.join(d, 'Jamfile.v2')).read())
        consts = dict(CONSTS_RE.findall(txt))
        for m in re.finditer(r'\[ (quickbook-(?:test|error-test|fail-test)) ([^\]]*(?:\[\][^\]]*)?)\]', txt):
            kind = m.group(1)
            parts = [p.strip() for p in re.split(r'\s:(?=\s)', ' ' + m.group(2))]
            name = parts[0]
            inp = parts[1] if len(parts) > 1 and parts[1] else name + '.quickbook'
            if not inp.endswith('.quickbook'):
                inp += '.quickbook'
            if kind == 'quickbook-test':
                ref = parts[2] if len(parts) > 2 and parts[2] else inp[:-10] + '.gold'
                req = parts[3] if len(parts) > 3 else ''
            else:
                ref, req = None, parts[2] if len(parts) > 2 else ''
            args = ['-D' + a for a in re.findall(r'<quickbook-test-define>(\S+)', req)]
            args += ['-I' + a for a in re.findall(r'<quickbook-test-include>(\S+)', req)]
            args += ['--xinclude-base=' + consts[a] for a in re.findall(r'<quickbook-xinclude-base>\$\((\S+)\)', req)]
            args += re.findall(r'<testing.arg>(\S+)', req)
            if '[]' in m.group(2):
                continue
            res.append(Case(name=name, dir=d, kind=kind, input=inp, args=args,
                            gold=os.path.join(d, ref) if ref else None,
                            gold_html=os.path.join(d, inp[:-10] + '.gold-html') if ref else None,
                            fixed_output=any('output-file' in a for a in args)))
    return res


class Result(object):
    __slots__ = ('case', 'fmt', 'rc', 'text', 'out', 'gold', 'abnormal', 'timeout')


_cfg = {}


def _run(job):
    c, fmt = job
    d = vlib.fresh_dir()
    ext = '.xml' if fmt == 'boostbook' else '.html'
    o = os.path.join(d, c.name + ext)
    args = [c.input] + c.args + ['--debug']
    if c.kind == 'quickbook-error-test':
        args.append('--expect-errors')
    args = [a for a in args if not a.startswith('--output-file')] + ['--output-file=' + o]
    if fmt != 'boostbook':
        args.append('--output-format=onehtml')
    q = vlib.run_qb(_cfg['exe'], args + _cfg.get('extra', []), c.dir, timeout=120, san=_cfg.get('san', False))
    if q.timeout:
        q = vlib.run_qb(_cfg['exe'], args + _cfg.get('extra', []), c.dir, timeout=240, san=_cfg.get('san', False))
    r = Result()
    r.case, r.fmt, r.rc, r.text, r.abnormal, r.timeout = c, fmt, q.rc, q.text, q.abnormal, q.timeout
    r.out = open(o, 'rb').read() if os.path.exists(o) else None
    g = c.gold if fmt == 'boostbook' else c.gold_html
    r.gold = open(g, 'rb').read() if g and os.path.exists(g) else None
    return r


def run(exe, formats=('boostbook',), want=None, extra=(), san=False):
    """Run the corpus; yields Result."""
    _cfg.update(exe=exe, extra=list(extra), san=san)
    jobs = []
    for c in cases():
        if want and not re.search(want, os.path.relpath(os.path.join(c.dir, c.name), vlib.REPO)):
            continue
        for f in formats:
            jobs.append((c, f))
    return vlib.pmap(_run, jobs)


def project(C, exe, fn, want=None, formats=('boostbook',), what='recorded document'):
    """Compare fn(output) with fn(recorded output) over the corpus.  fn raises SkipCase or returns something comparable."""
    for r in run(exe, formats, want):
        rel = os.path.relpath(os.path.join(r.case.dir, r.case.input), vlib.REPO)
        if r.timeout:
            C.unsure('timeout on %s' % rel)
            continue
        if r.case.kind != 'quickbook-test' or r.gold is None or r.out is None:
            continue
        try:
            g = fn(r.gold)
        except Exception:
            C.count('recorded outputs that cannot be projected')
            continue
        C.observe('gold:%s:%s' % (rel, r.fmt), nontrivial=bool(g))
        C.count('documents of /repo/test compared')
        try:
            a = fn(r.out)
        except Exception as e:
            C.bad(vlib.Bad('gold', '%s (%s): output cannot be read: %r' % (rel, r.fmt, e), {'out': r.out}, r.case.args))
            continue
        if a != g:
            C.bad(vlib.Bad('gold', '%s (%s): %s' % (rel, r.fmt, first_difference(g, a)),
                           {'out': r.out, 'recorded': r.gold}, r.case.args))


def first_difference(g, a):
    if isinstance(g, (list, tuple)) and isinstance(a, (list, tuple)):
        for i in range(max(len(g), len(a))):
            x = g[i] if i < len(g) else '(nothing)'
            y = a[i] if i < len(a) else '(nothing)'
            if x != y:
                return 'item %d: expected %.300r, found %.300r' % (i, x, y)
    return 'expected %.300r, found %.300r' % (g, a)
