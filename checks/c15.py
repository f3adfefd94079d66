#!/usr/bin/env python3
"""C15: the output depends on the input only.

Each input (documents of /repo/test, generated trees, mutations of both: correct or not) is run once as it stands and then
in equivalent ways; files written, exit status and messages have to be the same.
"""
import os, random, re, shutil, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vlib, qdoc, gold, mutate
CFG = {}
TEXT = ('.qbk', '.quickbook', '.cpp', '.py', '.hpp', '.h', '.c')
BOM = b'\xef\xbb\xbf'


def newlines(r, b, how):
    """The same lines with other line ends."""
    if how == 'CRLF':
        return b.replace(b'\n', b'\r\n')
    if how == 'CR':
        return b.replace(b'\n', b'\r')
    out, last = [], None
    for part in re.split(b'(\n)', b):
        if part == b'\n':
            # an empty line that ends in LF after a line that ends in CR would be one line end
            last = r.choice([b'\n', b'\r\n', b'\r'] if last != b'\r' else [b'\r\n', b'\r'])
            out.append(last)
        else:
            if part:
                last = None
            out.append(part)
    return b''.join(out)


def tree_of(c):
    res = {}
    for d, ds, fs in os.walk(c.dir):
        if d != c.dir and 'Jamfile.v2' in fs:
            ds[:] = []
            continue
        for f in fs:
            if f.endswith(('.gold', '.gold-html')) or (f.endswith('.quickbook') and d != c.dir and f.startswith('x')):
                continue
            p = os.path.join(d, f)
            if os.path.getsize(p) < 200000:
                res[os.path.relpath(p, c.dir)] = open(p, 'rb').read()
    return res


def generated(r):
    v = r.choice(qdoc.VERSIONS)
    g = qdoc.Gen(r, v, inline=[i for i in qdoc.INLINE], block=[b for b in qdoc.BLOCK if b != 'cblock'])
    if r.random() < .5:
        g.macros['mac'] = ['mm']
    parts = [g.blocks(1)[0] for _ in range(r.randint(2, 8))]
    files = {}
    head = '[article T %s\n[quickbook 1.%d]\n[id dd]\n]\n\n' % (g.w(), v - 100)
    if 'mac' in g.macros:
        head += '[def mac mm]\n\n'
    for k in range(r.randint(0, 3)):
        x = r.random()
        if x < .3:
            n = 'sub%d/b%d.qbk' % (k, k)
            files[n] = '%s __FILENAME__\n\n[include c%d.qbk]\n' % (g.blocks(1)[0], k)
            files['sub%d/c%d.qbk' % (k, k)] = '%s\n' % g.blocks(1)[0]
            parts.insert(r.randint(0, len(parts)), '[include %s]' % n)
        elif x < .5 and v >= 106:
            for f in r.sample(['a', 'B', 'c1', 'c10', 'c2', 'z', 'Z', 'm-n', 'm_n'], r.randint(2, 6)):
                files['g%d/%s.qbk' % (k, f)] = '%s\n' % g.ws()
            parts.insert(r.randint(0, len(parts)), '[include g%d/*.qbk]' % k)
        elif x < .7:
            files['src/s%d.cpp' % k] = '/* x */\n//[s%d\nint a;   // y\n\n\t\tfoo("%s"); /*<b %s>*/\n//<-\nno\n//->\n//]\n' % (k, g.w(), g.w())
            parts.insert(r.randint(0, len(parts)), '[import src/s%d.cpp]\n\n[s%d]' % (k, k))
        elif x < .85:
            files['lib/l%d.qbk' % k] = '%s __FILENAME__\n' % g.ws()
            parts.insert(r.randint(0, len(parts)), '[include l%d.qbk]' % k)
    files = {k: x.encode('utf8') for k, x in files.items()}
    if r.random() < .3:
        parts.append('__FILENAME__ [$img.png] [@x.html y]')
    return v, head, parts, files


def snapshot(d, before):
    res = {}
    for p, ds, fs in os.walk(d):
        for f in fs:
            rel = os.path.relpath(os.path.join(p, f), d)
            if rel not in before:
                res[rel] = open(os.path.join(p, f), 'rb').read()
    return res


def invoke(exe, r, files, main, args, how, spell='plain', env=None, stale=None, order=None, incs=('lib',), out=None):
    """Run one way; -> (exit, messages, {output: bytes})."""
    top = vlib.fresh_dir()
    src, res = os.path.join(top, 'src dir'), os.path.join(top, 'result')
    os.makedirs(src), os.makedirs(res)
    names = sorted(files)
    if order is not None:
        order.shuffle(names)
    for k in names:
        vlib.write_tree(src, {k: files[k]})
        if order is not None:
            t = order.randint(10 ** 9, 2 * 10 ** 9)
            os.utime(os.path.join(src, k), (t, t))
    if stale:
        vlib.write_tree(res, stale)
    cwd = src
    pre = ''
    if spell == 'other':
        cwd = os.path.join(top, 'a', 'b')
        os.makedirs(cwd)
        pre = '../../src dir/'
    elif spell == 'absolute':
        cwd = os.path.join(top, 'elsewhere')
        os.makedirs(cwd)
        pre = src + '/'
    elif spell == 'dot':
        pre = './'
    a = [pre + main]
    for i in incs:
        a += ['-I', pre + i]
    a += [x.replace('@OUT@', res) for x in args + out]
    q = vlib.run_qb(exe, a, cwd, env=env, timeout=30)
    text = q.text
    # the spelling of paths in messages follows the command line
    if spell == 'other':
        text = text.replace('../../src dir/', '')
    text = text.replace(src + '/', '').replace(top, '').replace('./', '')
    msg = sorted(l for l in text.split('\n'))
    outs = snapshot(res, {})
    for k in ('deps', 'locs'):
        if k in outs and how:
            outs.pop(k)
        elif k in outs:
            # paths are written as they were found
            t = outs[k].decode('utf8', 'replace')
            norm = []
            for l in t.splitlines():
                m = re.match(r'([+g-] )?(.*)$', l)
                norm.append((m.group(1) or '') + os.path.relpath(os.path.normpath(os.path.join(cwd, m.group(2))), top))
            outs[k] = '\n'.join(sorted(norm)).encode()
    return q, msg, outs


ENVS = [{'MALLOC_PERTURB_': '165'}, {'MALLOC_PERTURB_': '255', 'PAD': 'x' * 5000}, {'LC_ALL': 'C', 'LANG': 'de_DE', 'TZ': 'Asia/Tokyo'},
        {'HOME': '/tmp', 'TMPDIR': '/', 'LANG': '', 'LC_ALL': ''}, {'BOOST_ROOT': '/x', 'PAD': 'y' * 70000, 'MALLOC_ARENA_MAX': '1'}]


def case(i):
    r = random.Random('C15/%d/%d' % (CFG['seed'], i))
    kind = r.choice(['corpus', 'corpus', 'generated', 'generated', 'generated', 'mutated', 'mutated'])
    args, incs, v, parts = ['--debug'], ['lib'], None, None
    if kind == 'generated':
        v, head, parts, files = generated(r)
        main = 'a.qbk'
        files[main] = (head + '\n\n'.join(parts) + '\n').encode('utf8')
        name = 'generated'
    else:
        c = r.choice(CFG['cases'])
        files, main, name = tree_of(c), c.input, os.path.relpath(c.dir, vlib.REPO) + '/' + c.input
        args += [a for a in c.args if not a.startswith(('--output-file', '-I', '--xinclude-base', '--output-deps', '--output-checked'))]
        incs += [a[2:] for a in c.args if a.startswith('-I')]
        if kind == 'mutated':
            b = mutate.mutate(r, files[main], CFG['pool'])
            files[main] = b.replace(b'\r', b'')
        files = {k: (b.replace(b'\r', b'') if k.endswith(TEXT) else b) for k, b in files.items()}
        if any(files[k].startswith((b'\xef\xbb\xbf', b'\xff', b'\xfe', b'\0')) for k in files if k.endswith(TEXT)):
            kind += '-nobom'
    fmt = r.choice(['boostbook', 'boostbook', 'onehtml', 'html'])
    out = ['--output-format=' + fmt, '--output-%s=@OUT@/%s' % (('dir', 'h') if fmt == 'html' else ('file', 'o.x'))]
    if r.random() < .5:
        out += ['--output-deps=@OUT@/deps', '--output-checked-locations=@OUT@/locs']
    if r.random() < .2:
        args.append('--no-pretty-print')
    if r.random() < .2:
        args.append('--strict')
    exe = CFG['exe']
    base, msg, outs = invoke(exe, r, files, main, args, kind.startswith('mutated'), incs=incs, out=out)
    if base.timeout:
        return kind, name, fmt, files, args, [], 'timeout', None
    done, bad = [], None
    ways = ['again', 'env', 'env', 'order', 'stale', 'newlines', 'newlines', 'bom', 'other', 'absolute', 'pattern', 'comments', 'combined']
    for w in r.sample(ways, CFG['ways']):
        f2, e2, kw = dict(files), exe, {}
        if w in ('env', 'combined'):
            kw['env'] = r.choice(ENVS)
        if w in ('order', 'combined'):
            kw['order'] = r
        if w in ('stale', 'combined'):
            kw['stale'] = {k: b'stale ' * 3000 for k in outs} if outs else {'o.x': 'old'} if fmt != 'html' else None
        if w in ('newlines', 'combined'):
            how = r.choice(['CRLF', 'CR', 'mixed'])
            f2 = {k: (newlines(r, b, how) if k.endswith(TEXT) and not (w == 'combined' and r.random() < .5) else b) for k, b in f2.items()}
            w += ' ' + how
        if (w == 'bom' or w.startswith('combined')) and 'nobom' not in kind:
            f2 = {k: (BOM + b if k.endswith(TEXT) and b else b) for k, b in f2.items()}
        if w in ('other', 'absolute'):
            if w == 'absolute' and kind != 'generated':
                continue
            kw['spell'] = w
        if w == 'pattern':
            e2 = CFG['pat']
        if w == 'comments':
            if not parts or base.rc:
                continue
            s = ''
            for p, n in zip(parts, parts[1:] + ['x']):
                s += p
                if p.startswith('[import') or (n[:1] in ' \t' and p.split('\n')[-1][:1] in ' \t'):
                    # indented code goes on over blank lines
                    s += '\n\n'
                    continue
                s += r.choice(['\n\n', '\n\n\n', '\n\n\n\n\n', '\n\n   \n\n', '\n\n[/ a comment ]\n\n', '\n\n[/ a\n\n[nested] * x\n]\n\n\n', '\n\n\t\n\n'])
            f2[main] = (head + s + '\n').encode('utf8')
        q, m2, o2 = invoke(e2, r, f2, main, args, kind.startswith('mutated'), incs=incs, out=out, **kw)
        if q.timeout:
            return kind, name, fmt, files, args, done, 'timeout', None
        if kw.get('stale') and (base.rc or not outs):
            # nothing is said about what is left of earlier output after an error
            o2 = outs
        done.append(w)
        b = None
        if q.rc != base.rc:
            b = 'status', 'exit %d instead of %d: %r' % (q.rc, base.rc, q.text[:300])
        elif o2 != outs:
            k = [k for k in sorted(set(outs) | set(o2)) if outs.get(k) != o2.get(k)][0]
            x, y = outs.get(k), o2.get(k)
            if x is None or y is None:
                b = 'files', '%s is %s' % (k, 'missing' if y is None else 'additional')
            else:
                j = next((j for j in range(min(len(x), len(y))) if x[j] != y[j]), min(len(x), len(y)))
                b = 'output', '%s differs: %r instead of %r' % (k, y[max(0, j - 40):j + 60], x[max(0, j - 40):j + 60])
        elif m2 != msg and w != 'comments':
            b = 'messages', 'messages differ: %r instead of %r' % (sorted(set(m2) - set(msg))[:3], sorted(set(msg) - set(m2))[:3])
        if b:
            bad = (w, b, f2)
            break
    return kind, name, fmt, files, args + out, done, None, bad, base.rc


def run():
    C = vlib.Check('C15', 'a distinct pair of equivalent runs of one input')
    exe = vlib.build('fast')
    pat = vlib.build('pat')
    CFG.update(exe=exe, pat=pat, seed=C.seed, cases=[c for c in gold.cases() if c.kind != 'quickbook-error-test'], pool=mutate.corpus()['qbk'], ways=5)
    C.minimum = 100
    for res in vlib.pmap(case, range(C.n(450, 12000))):
        kind, name, fmt, files, args, done, unsure, bad = res[:8]
        for w in done:
            C.observe(repr((sorted(files.items()), args, w)), True, None)
            C.count('equivalent runs: ' + w)
        C.count('inputs: %s' % kind.replace('-nobom', ''))
        if unsure:
            C.unsure(unsure)
            continue
        C.count('inputs that are %s' % ('accepted' if res[8] == 0 else 'refused'))
        if bad:
            C.bad(vlib.Bad(bad[1][0], '%s (%s, %s), run again (%s): %s' % (kind, name, fmt, bad[0], bad[1][1]),
                           dict([('base/' + k, b) for k, b in files.items()] + [('other/' + k, b) for k, b in bad[2].items()]), args))
    return C.finish()


vlib.main(run)
