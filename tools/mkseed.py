#!/usr/bin/env python3
"""mkseed.py SPECFILE [ID...]: write /verif/seeded/ID from the specifications in SPECFILE (a Python list SEEDS) and confirm each.

A specification: dict(id, prop, needs, breaks, edits=[(file in src, old, new)...], demo=shell text that uses $QB in an empty directory).
Confirming: patch applies, the official build and tests pass with it, the demonstration passes without and fails with it.
"""
import json, os, shutil, subprocess, sys, tempfile
V = '/verif'
OUT = os.environ.get('SEED_OUT', V + '/seeded')
DEMO = '''#!/bin/bash
# Runs in the repository, after its build; exit 0: the property holds here.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
dir=$(mktemp -d /tmp/demo-XXXXXX) || exit 2
trap 'cd /; rm -rf "$dir"' EXIT
mkdir "$dir/o" "$dir/w"
cd "$dir/o"
grep -oE '^[[:space:]]+[A-Za-z0-9_]+\\.cpp' "$repo/src/Jamfile.v2" | tr -d ' ' | xargs -P 8 -I{} g++ -std=c++11 %(opt)s -w \\
    -DQUICKBOOK_NO_DATES -DBOOST_FILESYSTEM_NO_DEPRECATED -I "$here" -include "$here/boost/core/invoke_swap.hpp" -I "$repo/src" -c "$repo/src/{}" || { echo "does not compile"; exit 2; }
QB=$dir/o/quickbook
g++ %(opt)s -o "$QB" *.o -lboost_program_options -lboost_filesystem -lboost_system || { echo "does not link"; exit 2; }
cd "$dir/w"
fail() { echo "WRONG: $*"; exit 1; }
qb() { timeout 60 "$QB" "$@" >log 2>&1; }
%(demo)s
exit 0
'''


def sh(*a, **k):
    return subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, errors='replace', **k)


def make(s, repo):
    d = os.path.join(OUT, s['id'])
    sh('git', 'checkout', '-q', '--', '.', cwd=repo)
    for f, old, new in s['edits']:
        p = os.path.join(repo, 'src', f)
        t = open(p).read()
        n = t[:t.find(old)].count('\n') + 1
        own = [x for x in sh('git', 'blame', '-s', '-L%d,+%d' % (n, old.count('\n') + 1), 'src/' + f, cwd=repo).stdout.splitlines() if not x.startswith('^')]
        if own:
            print('note: own lines', own)
        if t.count(old) != 1:
            return '%d matches of %r in %s' % (t.count(old), old[:60], f)
        open(p, 'w').write(t.replace(old, new))
    diff = sh('git', 'diff', cwd=repo).stdout
    os.makedirs(d, exist_ok=True)
    shutil.copytree(os.path.join(V, 'harness', 'shim', 'boost'), os.path.join(d, 'boost'), dirs_exist_ok=True)
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo.sh', 'w').write(DEMO % {'opt': s.get('opt', '-O0'), 'demo': s['demo'].strip('\n')})
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    for n, t in s.get('files', {}).items():
        open(os.path.join(d, n), 'w').write(t)
    x = sh('bash', d + '/demo.sh', cwd=repo)
    if x.returncode == 0:
        return 'the demonstration passes with the patch\n' + x.stdout[-600:]
    if 'WRONG' not in x.stdout:
        return 'the demonstration fails otherwise: %s' % x.stdout[-1500:]
    sh('git', 'checkout', '-q', '--', '.', cwd=repo)
    y = sh('bash', d + '/demo.sh', cwd=repo)
    if y.returncode:
        return 'the demonstration fails without the patch: ' + y.stdout[-1500:]
    if 'SEED_OUT' in os.environ:
        return None
    # the official build works on /repo
    R = '/repo'
    if sh('git', 'status', '--porcelain', cwd=R).stdout.strip():
        return '/repo is not clean'
    try:
        a = sh('git', 'apply', d + '/patch.diff', cwd=R)
        if a.returncode:
            return a.stdout
        b = sh('bash', '/opt/vp/build.sh')
        o = tempfile.mktemp(dir='/tmp/sd')
        sh('bash', '/opt/vp/test.sh', o)
        res = json.load(open(o))
        os.unlink(o)
        if b.returncode or len(res['passed']) < 5:
            return 'official build or tests fail: %r' % res
    finally:
        sh('git', 'checkout', '-q', '--', '.', cwd=R)
    return None


if __name__ == '__main__':
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    repo = tempfile.mkdtemp(prefix='sr', dir='/tmp/sd') + '/repo'
    sh('git', 'clone', '-q', '/repo', repo)
    try:
        for s in ns['SEEDS']:
            if sys.argv[2:] and s['id'] not in sys.argv[2:]:
                continue
            e = make(s, repo)
            print(s['id'], 'OK' if not e else 'FAILED: ' + e, flush=True)
            if e:
                shutil.rmtree(os.path.join(OUT, s['id']), ignore_errors=True)
    finally:
        shutil.rmtree(os.path.dirname(repo))
        if 'SEED_OUT' not in os.environ:
            sh('bash', '/opt/vp/build.sh')
