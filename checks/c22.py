#!/usr/bin/env python3
"""C22: values, mapped files, trees, collectors, symbol tables and globs keep their content through any history.

harness/containers.cpp runs random histories on the real classes, built with ASan and UBSan, next to plain models; everything is compared
after the steps.  This script divides the histories among processes and collects what they counted.
"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vlib
CFG = {}
PARTS = [('values', 16000), ('mapped', 16000), ('tree', 12000), ('collector', 8000), ('symbols', 8000), ('parse', 16000), ('glob', 8000)]
HARNESS = os.path.join(vlib.VERIF, 'harness', 'containers.cpp')


def block(x):
    part, first, count = x
    d = vlib.fresh_dir()
    p = vlib.run_qb(CFG['exe'], [part, str(first), str(count), str(CFG['seed'])], d, san=True, timeout=300,
                    env={'ASAN_OPTIONS': vlib.SAN_ENV['ASAN_OPTIONS'].replace('detect_leaks=0', 'detect_leaks=1')})
    return x, p.timeout, p.rc, p.text


def run():
    C = vlib.Check('C22', 'a distinct history of operations on a container')
    core = ['values.cpp', 'files.cpp', 'tree.cpp', 'collector.cpp', 'glob.cpp']
    names = vlib.sources()
    try:
        exe = vlib.build('san', only=[s for s in names if s in core], extra_src=[HARNESS], name='containers')
    except vlib.HarnessError:
        exe = vlib.build('san', only=names, extra_src=[HARNESS], no_main=True, name='containers')
    CFG.update(exe=exe, seed=C.seed)
    jobs = []
    for part, n in PARTS:
        n = C.n(n, n * 20)
        size = max(1, min(n, 500))
        jobs += [(part, k, min(size, n - k)) for k in range(0, n, size)]
    sample = ''
    for (part, first, count), timeout, rc, text in vlib.pmap(block, jobs):
        if timeout:
            C.unsure('timeout')
            continue
        for l in text.split('\n'):
            if l.startswith('COUNT '):
                n, what = l[6:].split(' ', 1)
                C.count(what, int(n))
            elif l.startswith('DISTINCT '):
                for k in range(int(l[9:])):
                    C.observe('%s %d %d %s' % (part, first, k, sample if k == 0 else ''), True)
            elif l.startswith('SAMPLE '):
                sample = l[7:]
        if rc or 'DONE' not in text:
            C.bad(vlib.Bad(part, 'containers %s %d %d %s: status %s\n%s' % (part, first, count, CFG['seed'], rc, text[-6000:]),
                           {'history.txt': text, 'command': 'harness/containers.cpp: %s %d %d %d\n' % (part, first, count, CFG['seed'])}, []))
    return C.finish()


if __name__ == '__main__':
    vlib.main(run)
