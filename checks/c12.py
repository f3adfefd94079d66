#!/usr/bin/env python3
"""C12: dependency lists.

The calls a run makes on the files of a generated tree are recorded (harness/iofault.c) and held against the lists it writes: what was
opened is in the list, what was looked for is in the list of checked locations, and nothing else is.  A reference resolver predicts both
lists, and different invocations and formats have to say the same.
"""
import os, random, re, subprocess, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
import c11
from c11 import join, parts, parent
CFG = {}


def norm(p):
    """Path without . and doubled slashes"""
    x = [y for y in parts(p) if y != '.']
    return '/'.join(x).replace('//', '/') if not p.startswith('/') else '/' + '/'.join(x[1:])


def decode(s):
    """Undo the escapes of a list"""
    simple = {'a': 7, 'b': 8, 't': 9, 'n': 10, 'v': 11, 'f': 12, 'r': 13, '\\': 92}
    return re.sub(r'\\([0-7]{3}|.)', lambda m: chr(simple[m.group(1)] if len(m.group(1)) == 1 else int(m.group(1), 8)), s)


def well_escaped(s):
    return not re.search(r'[\x00-\x0f\x7f]', s) and not re.sub(r'\\(?:\\|[abtnvfr]|0[01][0-7]|177)', '', s).count('\\') \
        and not re.search(r'(?<!\\)(?:\\\\)*\\(?:007|010|011|012|013|014|015)', s)


def read_checked(lines):
    """Lines of a list of checked locations -> ({path: found}, {pattern: matches})"""
    paths, patterns, cur = {}, {}, None
    for l in lines:
        if l[:2] == 'g ':
            cur = patterns.setdefault(l[2:], set())
        elif l[:2] in ('+ ', '- '):
            if cur is not None:
                if l[0] == '-' or l[2:] in cur:
                    raise ValueError(l)
                cur.add(l[2:])
            else:
                if l[2:] in paths:
                    raise ValueError(l)
                paths[l[2:]] = l[0] == '+'
        else:
            raise ValueError(l)
    return paths, patterns


def readlist(path):
    t = open(path, 'rb').read().decode('utf8')
    if t and not t.endswith('\n'):
        raise ValueError('last line: ' + t[-60:])
    return t.split('\n')[:-1]


def case(i):
    r = random.Random('c12 %s %s' % (CFG['seed'], i))
    v = [107, 107, 106, 107, 106, 105, 104, 107, 103, 107][i % 10]
    t, st, mpath, src = c11.generate(r, v, True)
    cwd, include = t.cwd, t.include
    sim = c11.Sim(t, v, st)
    if r.random() < .2:
        x = r.choice(['html', 'd', 'nowhere', '.'])
        sim.images = join('/'.join(['..'] * len(parts(cwd))), x)
    files = {'R/' + k: x for k, x in t.files.items()}
    d = vlib.fresh_dir()
    root = os.path.join(d, 'R')
    location = sim.images
    failed = False
    try:
        sim.main(mpath)
    except (OverflowError, IndexError):
        return v, {}, {}, [], None
    except c11.Expected:
        failed = True
    files = {k: x.replace('/ROOTDIR', root) for k, x in files.items()}
    for k in t.dirs:
        os.makedirs(os.path.join(root, k), exist_ok=True)
    vlib.write_tree(d, files)
    linked = vlib.link_some(random.Random('links %s %s' % (CFG['seed'], i)), d, files, os.path.join(d, 'L')) if i % 4 == 1 else 0
    inc = [x.replace('/R/', root + '/') for x in include]
    base = os.path.join(root, cwd) if cwd else root
    o = lambda n: os.path.join(d, n)
    spell = lambda x: r.choice([['-I', x], ['-I' + x], ['--include-path=' + x], ['--include-path', x]])
    used = sim.used
    used['include path directory'] = len(include)
    used['symbolic link'] = linked
    # 1: as generated, traced
    args = [mpath] + sum([spell(x) for x in inc], []) + ([] if location is None else ['--image-location=' + location])
    one = args + ['--output-deps=' + o('d1'), '--output-deps-format=escaped', '--output-checked-locations=' + o('c1')] + \
        ([] if r.random() < .5 else ['--output-file=' + o('o1.xml')])
    bad = lambda k, m: (v, files, used, [a.replace(d, '.') for a in one] + ['(in R/%s)' % cwd], (k, m.replace(root, '/R')))
    p = vlib.run_qb(CFG['exe'], one, base, env={'LD_PRELOAD': CFG['shim'], 'QBF_PREFIX': root, 'QBF_LOG': o('log')})
    if p.timeout:
        return v, files, used, one, 'timeout'
    used['run'] = 1
    if p.rc != (1 if failed else 0):
        return bad('status', 'status %s, expected %s: %s' % (p.rc, int(failed), p.text[-300:]))
    log = [l.replace('\x1e', '\n').split(' ', 1) for l in open(o('log'), 'rb').read().decode('utf8').split('\n')[:-1]]
    used['call on files'] = len(log)
    try:
        deps1 = readlist(o('d1'))
        checked1 = readlist(o('c1'))
    except (ValueError, OSError) as e:
        return bad('lists', 'unreadable list: %s' % e)
    x = [l for l in deps1 if not well_escaped(l)]
    if x:
        return bad('escapes', 'badly escaped: %r' % x[:3])
    deps = [decode(l) for l in deps1]
    if len(set(deps)) != len(deps):
        return bad('lists', 'listed twice: %s' % deps)
    # 2: the formats
    two = args + ['--output-deps=' + o('d2')]
    p = vlib.run_qb(CFG['exe'], two, base)
    three = args + ['--output-deps=' + o('c3'), '--output-deps-format=' + r.choice(['checked,escaped', 'escaped checked', ',escaped,,checked,', 'checked,escaped,checked'])]
    p3 = vlib.run_qb(CFG['exe'], three, base)
    if p.timeout or p3.timeout:
        return v, files, used, two, 'timeout'
    try:
        raw = open(o('d2'), 'rb').read()
        checked3 = readlist(o('c3'))
        x = [l for l in checked3 if not well_escaped(l)]
        if x:
            return bad('escapes', 'badly escaped: %r' % x[:3])
        checked = [decode(l) for l in checked3]
        if raw != ''.join(x + '\n' for x in sorted(deps, key=lambda x: x.encode())).encode() and \
                sorted(raw.decode('utf8').split('\n')[:-1]) != sorted('\n'.join(deps).split('\n')):
            return bad('formats', 'plain list %r, escaped list %r' % (raw.decode('utf8'), deps))
        if sorted('\n'.join(checked).split('\n')) != sorted(checked1):
            return bad('formats', 'checked locations %r, escaped %r' % (checked1, checked))
        paths, patterns = read_checked(checked)
    except (ValueError, OSError, KeyError) as e:
        return bad('lists', 'unreadable list: %r' % e)
    # the two lists agree
    want = set(p for p, f in paths.items() if f).union(*patterns.values())
    if want != set(deps):
        return bad('lists agree', 'dependencies %s, found locations %s' % (sorted(deps), sorted(want)))
    # the trace
    full = lambda p: norm(p if p.startswith('/') else base + '/' + p)
    deps_f = set(map(full, deps))
    loc_f = dict((full(p), f) for p, f in paths.items())
    pat_f = set(full(p) for p in patterns)
    opened, stated = set(), set()
    for op, p in log:
        f = norm(p)
        if op == 'open' and not os.path.isdir(p):
            opened.add(f)
        elif op == 'stat':
            stated.add(f)
    if opened - deps_f:
        return bad('opened', 'read but not listed: %s' % ' '.join(sorted(opened - deps_f)))
    used['opened file'] = len(opened)
    bases = [p[:re.search(r'[^/]*[\[?*]', p[len(root):]).start() + len(root)] for p in pat_f]
    for f in sorted(stated):
        used['location looked at'] = used.get('location looked at', 0) + 1
        if f in loc_f or f in deps_f or os.path.isdir(f) or any((f + '/').startswith(b) for b in bases):
            continue
        return bad('looked for', '%s was looked at but is not among the checked locations' % f)
    for f, found in loc_f.items():
        if found != os.path.exists(f):
            return bad('found', '%s is listed as %s' % (f, 'found' if found else 'missing'))
        if f not in stated and f not in opened:
            return bad('looked for', '%s is among the checked locations but was not looked at' % f)
    for f in deps_f:
        if not os.path.exists(f):
            return bad('found', '%s is listed but does not exist' % f)
    # the model
    if not failed:
        res = lambda p: norm(p.replace('/R/', root + '/') if p.startswith('/R/') else p)
        a = dict((norm(p), f) for p, f in paths.items())
        b = dict((res(p), f) for p, f in sim.looked.items())
        if a != b:
            x = sorted(k for k in set(a) | set(b) if a.get(k) != b.get(k))[0]
            return bad('model', 'checked location %s: %s, expected %s' % (x, a.get(x, 'not listed'), b.get(x, 'not listed')))
        a = dict((norm(p), set(map(norm, m))) for p, m in patterns.items())
        b = {}
        for p, m in sim.patterns.items():
            b.setdefault(res(p), set()).update(map(res, m))
        if a != b:
            x = sorted(k for k in set(a) | set(b) if a.get(k) != b.get(k))[0]
            return bad('model', 'pattern %s: %s, expected %s' % (x, sorted(a[x]) if x in a else 'not listed', sorted(b[x]) if x in b else 'not listed'))
    # 4: invoked differently
    other = r.choice(sorted(t.dirs))
    obase = os.path.join(root, other) if other else root
    same = lambda p: p if p.startswith('/') else os.path.relpath(os.path.join(base, p), obase) if r.random() < .5 else os.path.join(base, p)
    main4, inc4 = same(mpath), [same(x) for x in inc]
    four = [[main4]] + [['--output-deps=' + o('c4')], ['--output-deps-format=checked,escaped']] + \
        ([['--output-format=onehtml', '--output-file=' + o('o4.html')]] if r.random() < .3 else
         [['--output-dir=' + o('o4'), '--output-format=html']] if r.random() < .3 else []) + \
        ([['--image-location=' + same(location)]] if location is not None else []) + \
        ([['--no-pretty-print']] if r.random() < .5 else []) + ([['--no-output']] if r.random() < .3 else [])
    r.shuffle(four)
    four = sum(four, []) + sum([spell(x) for x in inc4], [])
    p = vlib.run_qb(CFG['exe'], four, obase)
    if p.timeout:
        return v, files, used, four, 'timeout'
    try:
        x4, g4 = read_checked([decode(l) for l in readlist(o('c4'))])
    except (ValueError, OSError, KeyError) as e:
        return bad('lists', 'unreadable list: %r (%s in R/%s)' % (e, ' '.join(four), other))
    res = lambda b, p: os.path.normpath(os.path.join(b, p))
    a = (sorted((res(base, p), f) for p, f in paths.items()), sorted((res(base, p), sorted(set(res(base, x) for x in m))) for p, m in patterns.items()))
    b = (sorted((res(obase, p), f) for p, f in x4.items()), sorted((res(obase, p), sorted(set(res(obase, x) for x in m))) for p, m in g4.items()))
    if set(map(repr, a[0])) != set(map(repr, b[0])) or set(map(repr, a[1])) != set(map(repr, b[1])):
        x = [sorted(set(map(repr, x)) ^ set(map(repr, y))) for x, y in zip(a, b)]
        return bad('invocation', 'invoked as %s in R/%s: differs in %s' % (' '.join(four), other, x))
    for k in sorted(set(k for k in map(str, paths)) | set(patterns)):
        if re.search(r'[\x00-\x1f\\\x7f]', k):
            used['path with characters to escape'] = used.get('path with characters to escape', 0) + 1
    used['checked location'] = len(paths)
    used['pattern location'] = len(patterns)
    used['dependency'] = len(deps)
    return v, files, used, one, None


def run():
    C = vlib.Check('C12', 'a distinct tree of files')
    CFG.update(exe=vlib.build('fast'), seed=C.seed, shim=vlib.shim())
    C.minimum = 100
    for v, files, used, args, b in vlib.pmap(case, range(C.n(3500, 60000))):
        if b == 'timeout':
            C.unsure('timeout')
            continue
        if not files:
            continue
        C.observe(repr(sorted(files.items())) + repr(args), True, {'files': sorted(files), 'arguments': args})
        C.count('quickbook 1.%d trees' % (v - 100))
        for k, x in used.items():
            C.count(k, x)
        if b:
            C.bad(vlib.Bad(b[0], 'quickbook 1.%d: %s' % (v - 100, b[1]), files, args))
    return C.finish()


if __name__ == '__main__':
    vlib.main(run)
