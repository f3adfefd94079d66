#!/usr/bin/env python3
"""C08: block structure."""
import os, random, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vlib, qdoc, gold, model, lists

BLOCKS = [b for b in qdoc.BLOCK if b != 'cblock']
CFG = {}


def strict(exp, data, reflow):
    """The tree described, and nothing outside lists written as if it was an item of a list."""
    d = qdoc.compare(exp, data, reflow)
    if d:
        return d
    for e in qdoc.parse_xml(data).iter():
        for c in e:
            if c.tag == 'simpara' and e.tag != 'listitem':
                return 'a %s is made of a list item\'s paragraphs: %s' % (e.tag, qdoc.ws(qdoc.flat(c))[:200])
    return None


def indentation(i):
    """Lists, paragraphs and code at any columns, made of blanks and tabs."""
    r = random.Random('C08i/%d/%d' % (CFG['seed'], i))
    v = r.choice([101, 103, 105, 106, 107, 107, 107, 107])
    lines = lists.generate(r, v)
    nested = v >= 107 and r.random() < .5
    body = '\n'.join(lines)
    if nested:
        pre, post = r.choice([('[note\n', '\n]'), ('[:\n', '\n]'), ('[table\n[[\n', '\n]]\n]'), ('[ordered_list [\n', '\n]]')])
        body = pre + '\n' * r.randint(0, 2) + body + post
    src = '[article T\n[quickbook 1.%d]\n[id dd]\n]\n\n%s\n' % (v - 100, body)
    d = vlib.fresh_dir()
    vlib.write_tree(d, {'a.qbk': src})
    m = lists.Model(v, lines, nested)
    q = vlib.run_qb(CFG['exe'], ['a.qbk', '--output-file=o.xml'], d)
    if q.timeout:
        return v, src, m, 'timeout'
    errors = len([l for l in q.text.split('\n') if ' error: ' in l])
    if errors != m.errors or (q.rc != 0) != (m.errors > 0):
        return v, src, m, ('indentation errors', '%d errors expected, exit %d: %r' % (m.errors, q.rc, q.text[:300]))
    if m.errors:
        return v, src, m, None
    root = qdoc.parse_xml(open(d + '/o.xml', 'rb').read())
    if nested:
        root = next(e for e in root.iter() if e.tag in ('note', 'blockquote', 'entry', 'listitem'))
    a = lists.actual(root)
    if a != m.root:
        return v, src, m, ('indentation', 'expected %r, found %r' % (m.root, a))
    return v, src, m, None


def run():
    C = vlib.Check('C08', 'a distinct generated document with a list, table or block element')
    exe = vlib.build('fast')
    C.minimum = 100
    model.run(C, exe, C.n(4500, 20000), inline={'text': 4, 'special': 1, 'emph': 1, 'simple': 1, 'code': 1, 'link': .5, 'comment': .5},
              compare=strict, block=BLOCKS, relevant=[b for b in BLOCKS if b not in ('para', 'code', 'hr')])
    CFG.update(exe=exe, seed=C.seed)
    for v, src, m, b in vlib.pmap(indentation, range(C.n(18000, 100000))):
        if b == 'timeout':
            C.unsure('timeout')
            continue
        C.observe(src, True, None)
        C.count('documents of blocks at different columns')
        C.count('changes of list style or paragraphs in lists that are errors', m.errors)
        if b:
            C.bad(vlib.Bad(b[0], 'quickbook 1.%d: %s' % (v - 100, b[1]), {'a.qbk': src}, ['a.qbk', '--output-file=o.xml']))
    return C.finish()


if __name__ == '__main__':
    vlib.main(run)
