"""Shared machinery of the quickbook runtime monitors.

build(kind)        compile /repo's working tree into a scratch directory
Check              collects observations, verdicts and evidence of one property
run_qb / pmap      drive the real executable, many cases in parallel
"""
import atexit, collections, hashlib, json, multiprocessing, os, random, re, shutil, signal, subprocess, sys, tempfile, time, traceback
import xml.etree.ElementTree as ET

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('QB_REPO', '/repo')
SHIM = os.path.join(VERIF, 'harness', 'shim')
SHIM_H = os.path.join(SHIM, 'boost', 'core', 'invoke_swap.hpp')
NCPU = max(2, min(16, os.cpu_count() or 4))
DEFS = ['-DQUICKBOOK_NO_DATES', '-DBOOST_FILESYSTEM_NO_DEPRECATED']
LIBS = ['-lboost_program_options', '-lboost_filesystem', '-lboost_system']

KINDS = {
    'fast': ('g++', ['-std=c++11', '-O0']),
    # pat: the same with every automatic variable filled with a pattern first
    'pat': ('g++', ['-std=c++11', '-O0', '-ftrivial-auto-var-init=pattern']),
    # plain: assertions of the code and of the standard library on
    'plain': ('g++', ['-std=c++11', '-O1', '-D_GLIBCXX_ASSERTIONS']),
    'san': ('g++', ['-std=c++11', '-O1', '-g1', '-fno-omit-frame-pointer', '-D_GLIBCXX_ASSERTIONS',
                    '-ftrivial-auto-var-init=pattern',
                    '-fsanitize=address,undefined', '-fno-sanitize-recover=all']),
    'csan': ('clang++', ['-std=c++11', '-O1', '-g1', '-fno-omit-frame-pointer',
                         '-fsanitize=address,undefined', '-fno-sanitize-recover=all']),
    # edges of the control flow are counted (harness/work.cpp)
    'work': ('clang++', ['-std=c++11', '-O1', '-fno-builtin-memcpy', '-fsanitize-coverage=trace-pc-guard']),
    'valgrind': ('g++', ['-std=c++11', '-O1', '-g1', '-fno-omit-frame-pointer']),
}


class HarnessError(Exception):
    pass


_scratch = None


def scratch():
    """A private scratch directory, removed when the check ends."""
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix='qbv-')
        os.chmod(_scratch, 0o755)
        pid = os.getpid()

        def clean():
            if os.getpid() == pid:
                shutil.rmtree(_scratch, ignore_errors=True)
        atexit.register(clean)
        for s in (signal.SIGTERM, signal.SIGINT):
            signal.signal(s, lambda *a: sys.exit(3))
    return _scratch


def sources():
    jam = open(os.path.join(REPO, 'src', 'Jamfile.v2')).read()
    names = re.findall(r'^\s+([A-Za-z0-9_]+\.cpp)', jam, re.M)
    if len(names) < 5:
        raise HarnessError('no sources found in src/Jamfile.v2')
    return names


def _sh(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return r.returncode, r.stdout.decode('utf8', 'replace')


def compile_flags(kind):
    cxx, fl = KINDS[kind]
    return cxx, fl + DEFS + ['-w', '-I', SHIM, '-include', SHIM_H]


def build(kind='plain', exe=True, only=None, extra_flags=(), extra_src=(), defines_main=None, name='quickbook',
          no_main=False):
    """Compile the units of /repo's working tree (all of src/Jamfile.v2, or `only`) plus extra_src
    (harness files of /verif), link, and return the path of the executable."""
    pre = os.environ.get('QB_PREBUILT_' + kind.upper())
    if pre and not extra_src and not only:
        return pre
    out = os.path.join(scratch(), 'build-%s-%s' % (kind, name))
    os.makedirs(out, exist_ok=True)
    cxx, flags = compile_flags(kind)
    flags = flags + list(extra_flags) + ['-I', os.path.join(REPO, 'src')]
    srcs = [os.path.join(REPO, 'src', s) for s in (only if only is not None else sources())]
    jobs = []
    # The slowest units first, for a short critical path.
    slow = ['syntax_highlight.cpp', 'main_grammar.cpp', 'doc_info_grammar.cpp', 'block_element_grammar.cpp',
            'phrase_element_grammar.cpp', 'code_snippet.cpp', 'post_process.cpp', 'quickbook.cpp', 'bb2html.cpp',
            'actions.cpp', 'utils.cpp']
    srcs.sort(key=lambda p: slow.index(os.path.basename(p)) if os.path.basename(p) in slow else 99)
    for s in list(srcs) + list(extra_src):
        o = os.path.join(out, os.path.basename(s)[:-4] + '.o')
        f = list(flags)
        if no_main and os.path.basename(s) == 'quickbook.cpp':
            f.append('-Dmain=quickbook_main')
        jobs.append(([cxx] + f + ['-c', s, '-o', o], o))
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(NCPU) as ex:
        res = list(ex.map(lambda j: _sh(j[0]), jobs))
    for (rc, txt), (cmd, o) in zip(res, jobs):
        if rc:
            raise HarnessError('compile failed: %s\n%s' % (' '.join(cmd), txt[-3000:]))
    exe_path = os.path.join(out, name)
    rc, txt = _sh([cxx] + [f for f in flags if f.startswith('-f') or f.startswith('-O')] +
                  ['-o', exe_path] + [o for _, o in jobs] + LIBS)
    if rc:
        raise HarnessError('link failed\n' + txt[-3000:])
    return exe_path


# ---------------------------------------------------------------------------------------------
# Running the executable

SAN_ENV = {
    'ASAN_OPTIONS': 'abort_on_error=0:exitcode=99:detect_leaks=0:allocator_may_return_null=0:detect_stack_use_after_return=0:'
                    'detect_invalid_pointer_pairs=0:strict_string_checks=1:max_malloc_fill_size=65536:malloc_fill_byte=190:malloc_context_size=12:max_allocation_size_mb=2048',
    'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=1:exitcode=98',
}
BASE_ENV = {'PATH': '/usr/bin:/bin', 'LC_ALL': 'C.UTF-8', 'HOME': '/nonexistent'}


class Run(object):
    __slots__ = ('rc', 'out', 'timeout', 'wall')

    def __init__(self, rc, out, timeout, wall):
        self.rc, self.out, self.timeout, self.wall = rc, out, timeout, wall

    @property
    def text(self):
        return self.out.decode('utf8', 'replace')

    @property
    def abnormal(self):
        """Ended by a signal, a sanitizer, an assertion: anything that is not a documented exit status."""
        return (not self.timeout) and self.rc not in (0, 1)


_timeouts = 0


def run_qb(exe, args, cwd, timeout=60, env=None, san=False, stdin=None, preexec=None, prefix=()):
    e = dict(BASE_ENV)
    if san:
        e.update(SAN_ENV)
    if env:
        e.update(env)
    global _timeouts
    if _timeouts >= 3:
        timeout = min(timeout, 6)      # something is badly slow: don't spend the whole time on it
    t = time.time()
    p = subprocess.Popen(list(prefix) + [exe] + list(args), cwd=cwd, env=e, stdin=subprocess.DEVNULL,
                         stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True, preexec_fn=preexec)
    try:
        o, _ = p.communicate(timeout=timeout)
        return Run(p.returncode, o, False, time.time() - t)
    except subprocess.TimeoutExpired:
        _timeouts += 1
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        o, _ = p.communicate()
        return Run(-9, o, True, time.time() - t)


def shim():
    """The library that records or fails system calls (harness/iofault.c)"""
    so = os.path.join(scratch(), 'iofault.so')
    rc, out = _sh(['gcc', '-shared', '-fPIC', '-O1', '-w', '-o', so, os.path.join(VERIF, 'harness', 'iofault.c'), '-ldl'])
    if rc:
        raise HarnessError('shim: ' + out)
    return so


def write_tree(root, files):
    """files: {relative path: bytes or str}"""
    for rel, data in files.items():
        p = os.path.join(root, rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'wb') as f:
            f.write(data.encode('utf8') if isinstance(data, str) else data)


def link_some(r, root, files, store):
    """Replace some of the files by symbolic links to the same content elsewhere (store, a directory that is made)."""
    os.makedirs(store, exist_ok=True)
    n = 0
    for rel in sorted(files):
        if r.random() < .4:
            p = os.path.join(root, rel)
            to = os.path.join(store, 'content%d' % n)
            os.rename(p, to)
            os.symlink(to if r.random() < .5 else os.path.relpath(to, os.path.dirname(p)), p)
            n += 1
    return n


_worker_dir = None


def worker_dir():
    """A directory private to this worker process, emptied before each case."""
    global _worker_dir
    if _worker_dir is None or _worker_dir[0] != os.getpid():
        d = os.path.join(scratch(), 'w%d' % os.getpid())
        os.makedirs(d, exist_ok=True)
        _worker_dir = (os.getpid(), d, 0)
    return _worker_dir[1]


def fresh_dir():
    d = worker_dir()
    c = os.path.join(d, 'c')
    shutil.rmtree(c, ignore_errors=True)
    os.makedirs(c)
    return c


def _call(a):
    fn, x = a
    try:
        return ('ok', fn(x))
    except (ET.ParseError, FileNotFoundError, UnicodeDecodeError) as e:
        # The run's output can't be read: something seen, not a failure of the harness.
        d = os.path.join(worker_dir(), 'c')
        if isinstance(e, FileNotFoundError) and d not in str(e.filename):
            return ('err', traceback.format_exc())
        files = {}
        for top, _, names in os.walk(d):
            for n in names:
                f = os.path.join(top, n)
                if os.path.isfile(f) and os.path.getsize(f) < 200000:
                    files[os.path.relpath(f, d)] = open(f, 'rb').read()
        return ('ill', ('%s: %s' % (type(e).__name__, str(e).replace(d + '/', '')), files))
    except Exception:
        return ('err', traceback.format_exc())


def pmap(fn, items, chunk=None):
    """Parallel map over worker processes; results in order.  A failure of the harness itself raises."""
    items = list(items)
    scratch()
    if not items:
        return
    if chunk is None:
        chunk = max(1, min(16, len(items) // (NCPU * 4)))
    ctx = multiprocessing.get_context('fork')
    with ctx.Pool(NCPU, initializer=_worker_init) as pool:
        for st, v in pool.imap(_call, [(fn, x) for x in items], chunk):
            if st == 'err':
                pool.terminate()
                raise HarnessError('worker failed:\n' + v)
            if st == 'ill':
                if CURRENT is None:
                    raise HarnessError(v[0])
                CURRENT.evaluations += 1
                CURRENT.bad(Bad('output that cannot be read', v[0], v[1]))
                continue
            yield v


def _worker_init():
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    signal.signal(signal.SIGTERM, signal.SIG_DFL)


# ---------------------------------------------------------------------------------------------
# Verdicts

class Bad(object):
    """One violation: a stable key, a message and the files that replay it."""

    def __init__(self, key, msg, files=None, args=None):
        self.key, self.msg, self.files, self.args = key, msg, files or {}, args


def load_known():
    res = []
    p = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', line)
            if m:
                res.append((m.group(1), m.group(2), m.group(3).strip()))
    return res


CURRENT = None


class Check(object):
    def __init__(self, prop, rule, level='exploration'):
        scratch()
        global CURRENT
        CURRENT = self
        self.prop, self.rule, self.level = prop, rule, level
        self.t0 = time.time()
        self.seed = int(os.environ.get('VERIF_SEED', '1') or '1')
        tier = os.environ.get('VERIF_TIER', 'quick')
        for a in sys.argv[1:]:
            if a in ('quick', 'thorough'):
                tier = a
        self.tier = tier if tier in ('quick', 'thorough') else 'quick'
        self.thorough = self.tier == 'thorough'
        self.evaluations = 0
        self.distinct = set()
        self.samples = []
        self.counts = collections.Counter()
        self.violations = []
        self.inconclusive = []
        self.known = [k for k in load_known() if k[0] == prop]
        self.known_hit = collections.OrderedDict()
        self.assumptions = []
        self.minimum = 1
        self.rng = random.Random(self.seed * 1000003 + int(prop[1:]) * 7919)

    def n(self, quick, thorough=None):
        scale = float(os.environ.get('QB_SCALE', '1'))
        return int((quick if not self.thorough else (thorough or quick * 10)) * scale)

    def observe(self, case, nontrivial=True, sample=None):
        """One execution observed; `case` (bytes/str) identifies it."""
        self.evaluations += 1
        if nontrivial:
            if isinstance(case, str):
                case = case.encode('utf8', 'surrogateescape')
            self.distinct.add(hashlib.sha1(case).digest()[:10])
        if sample is None and nontrivial and len(self.samples) < 2:
            sample = case.decode('utf8', 'replace')[:800]
        if sample is not None and len(self.samples) < 6:
            self.samples.append(sample if len(str(sample)) < 1500 else str(sample)[:1500] + '...')

    def count(self, name, k=1):
        self.counts[name] += k

    def bad(self, b):
        for prop, key, desc in self.known:
            if key == b.key:
                self.known_hit.setdefault(key, desc)
                self.counts['known finding observed'] += 1
                return
        self.violations.append(b)

    def unsure(self, what):
        self.inconclusive.append(what)

    def _replay(self, i, b):
        d = os.path.join(VERIF, 'replays', self.prop, '%s-%d-%d' % (self.tier, self.seed, i))
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        try:
            write_tree(os.path.join(d, 'case'), b.files)
            with open(os.path.join(d, 'README'), 'w') as f:
                f.write('property %s\nkey %s\n%s\n' % (self.prop, b.key, b.msg))
                f.write('args: %s\n' % json.dumps(b.args))
        except Exception as e:
            print('note: replay not fully written: %s' % e)
        return d

    def finish(self):
        out = []
        seen = collections.OrderedDict()
        for b in self.violations:
            seen.setdefault(b.key, []).append(b)
        nprint = 0
        for i, (key, bs) in enumerate(seen.items()):
            if nprint >= 8:
                break
            b = min(bs, key=lambda x: sum(len(v) for v in x.files.values()) if x.files else 0)
            d = self._replay(i, b)
            out.append('violation [%s] x%d: %s' % (key, len(bs), b.msg[:1500]))
            out.append('VIOLATION property=%s replay=%s' % (self.prop, d))
            nprint += 1
        for key, desc in self.known_hit.items():
            out.append('KNOWN-FINDING: property=%s %s' % (self.prop, desc))
        cov = {'evaluations': self.evaluations, 'distinct_nontrivial': len(self.distinct), 'rule': self.rule,
               'samples': self.samples or ['(none)'], 'observed': dict(sorted(self.counts.items())),
               'inconclusive': len(self.inconclusive)}
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': self.level, 'coverage': cov,
              'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 2),
              'violations': len(self.violations)}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, ensure_ascii=True, default=str)
            f.write('\n')
        for l in out:
            print(l)
        print('%s %s seed=%d: %d evaluations, %d distinct non-trivial, %d violations, %d inconclusive, %.1fs' % (
            self.prop, self.tier, self.seed, self.evaluations, len(self.distinct), len(self.violations),
            len(self.inconclusive), time.time() - self.t0))
        for w in self.inconclusive[:5]:
            print('inconclusive: %s' % (w,))
        sys.stdout.flush()
        if self.violations:
            return 1
        if self.evaluations < self.minimum:
            print('error: the check observed too little (%d < %d)' % (self.evaluations, self.minimum))
            return 2
        return 0


def main(fn):
    try:
        rc = fn()
    except HarnessError as e:
        print('error: %s' % e)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
