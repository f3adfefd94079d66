"""Random documents against the tree they mean (lib/qdoc.py), run through the real executable."""
import os, random, re
import vlib, qdoc

CFG = {}
LAYOUTS = [['--no-pretty-print'], ['--no-pretty-print'], [], ['--linewidth=40'], ['--indent=0'], ['--linewidth=20', '--indent=8']]


def case(seed):
    r = random.Random('%s/%d' % (CFG['salt'], seed))
    v = r.choice(CFG['versions'])
    mk = CFG.get('make')
    if mk:
        src, exp, used, files, xargs = mk(r, v)
    else:
        g = qdoc.Gen(r, v, inline=CFG['inline'], block=CFG['block'], **CFG.get('gen', {}))
        if CFG.get('setup'):
            CFG['setup'](g)
        src, exp = g.document(r.randint(1, CFG.get('size', 8)), head=g.head if hasattr(g, 'head') else None)
        used, files, xargs = g.used, {}, []
    d = vlib.fresh_dir()
    files = dict(files)
    files['a.qbk'] = src
    vlib.write_tree(d, files)
    args = ['a.qbk', '--output-file=o.xml'] + xargs + r.choice(LAYOUTS)
    q = vlib.run_qb(CFG['exe'], args, d)
    if q.timeout:
        q = vlib.run_qb(CFG['exe'], args, d, timeout=240)
    res = dict(seed=seed, v=v, used=used, files=files, args=args, key=None, msg=None, unsure=None, src=src)
    if q.timeout:
        res['unsure'] = 'timeout'
        return res
    if q.rc != 0:
        res['key'], res['msg'] = 'rejected', 'a valid document is refused (exit %d): %s' % (q.rc, q.text[:600])
        return res
    try:
        data = open(os.path.join(d, 'o.xml'), 'rb').read()
        df = CFG.get('compare', qdoc.compare)(exp, data, '--no-pretty-print' not in args)
    except qdoc.ET.ParseError as e:
        res['key'], res['msg'] = 'unreadable', 'output is not well-formed: %s' % e
        return res
    except OSError as e:
        res['key'], res['msg'] = 'no-output', 'exit 0 but no output: %s' % e
        return res
    if df:
        res['key'], res['msg'] = 'differs', df
    return res


def run(C, exe, n, inline=None, block=None, versions=qdoc.VERSIONS, relevant=None, salt='', **kw):
    """Drive n random documents; report differences to the check C."""
    CFG.clear()
    CFG.update(exe=exe, inline=inline, block=block, versions=versions, salt='%s%s/%d' % (C.prop, salt, C.seed), **kw)
    for res in vlib.pmap(case, range(n)):
        if res['unsure']:
            C.unsure(res['unsure'])
            continue
        nontriv = not relevant or any(k in res['used'] for k in relevant)
        C.observe(res['src'], nontriv, sample=res['src'] if nontriv and len(res['src']) < 900 else None)
        C.count('quickbook 1.%d documents' % (res['v'] - 100))
        for k, c in res['used'].items():
            C.count('construct ' + k, c)
        if res['key']:
            C.bad(vlib.Bad('%s%s' % (salt, res['key']), 'quickbook 1.%d: %s' % (res['v'] - 100, res['msg']), res['files'], res['args']))
