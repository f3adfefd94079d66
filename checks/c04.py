#!/usr/bin/env python3
"""C04: the text of the document reaches the output unchanged, once, in order."""
import os, random, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vlib, qdoc, gold, model

BLOCKS = {b: 1 for b in qdoc.BLOCK if b != 'cblock'}
BLOCKS.update(para=4, soup=3, section=.7)
INLINE = {'text': 3, 'special': 4, 'emph': 2, 'simple': 1, 'code': 1.5, 'link': .5, 'url': .4, 'ref': .4, 'footnote': .7,
          'image': .2, 'anchor': .4, 'escape': .6, 'bslash': 2, 'comment': 1, 'unicode': 2.5, 'role': .5, 'br': .5,
          'uniescape': 1.5, 'odd': 2}


def big(r, v):
    """Long words, long lines, long documents: text that crosses the printer's buffers and line limits."""
    g = qdoc.Gen(r, v)
    src, exp = [], []
    for _ in range(r.randint(1, 30)):
        words = []
        for _ in range(r.randint(1, 120)):
            w = g.w()
            k = r.random()
            if k < .05:
                w = w * r.randint(2, 60)
            elif k < .15:
                w += r.choice(qdoc.UNI)
            elif k < .25:
                w += r.choice(['<', '>', '&', '"', '&lt;', '&amp;', '</para>', '<!--', '-->', '<?x?>', '&#x41;'])
            words.append(w)
        p = ' '.join(words)
        exp.append(['para', {}, [p]])
        s = ''
        for i, w in enumerate(words):
            s += ('' if i == 0 else '\n' if r.random() < .1 else ' ') + w
        src.append(s)
    t = g.ws(1, 3)
    return '[article %s\n[quickbook 1.%d]\n[id dd]\n]\n\n%s\n' % (t, v - 100, '\n\n'.join(src)), \
        ['article', {}, [['title', {}, [t]]] + exp], {'long text': 1}, {}, []


def run():
    C = vlib.Check('C04', 'a distinct generated document whose text holds special characters, escapes, Unicode or code')
    exe = vlib.build('fast')
    C.minimum = 100
    model.run(C, exe, C.n(6000, 30000), inline=INLINE, block=BLOCKS, compare=qdoc.compare_text,
              relevant=['special', 'unicode', 'uniescape', 'bslash', 'code', 'escape', 'soup', 'pre', 'odd'])
    model.run(C, exe, C.n(500, 3000), make=big, compare=qdoc.compare_text, salt='long-')
    gold.project(C, exe, lambda x: qdoc.text_projection(x))
    return C.finish()


vlib.main(run)
