#!/usr/bin/env python3
"""C23: inline markup."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vlib, qdoc, gold, model

INLINE = dict.fromkeys(('text', 'special', 'emph', 'simple', 'code', 'link', 'ref', 'footnote', 'anchor', 'escape', 'bslash',
                        'comment', 'role', 'br', 'unicode', 'odd'), 1)
INLINE.update(emph=5, simple=3, footnote=2, role=2, text=2)
ELEMENTS = {'emphasis', 'literal', 'quote', 'replaceable', 'footnote', 'phrase', 'code', 'sbr', 'link', 'ulink', 'functionname',
            'classname', 'methodname', 'enumname', 'macroname', 'headername', 'conceptname', 'globalname', 'anchor'}


def projection(data):
    """Inline elements of a document with their text, in order."""
    res = []
    for e in qdoc.parse_xml(data).iter():
        if e.tag in ELEMENTS and not (e.tag == 'phrase' and (e.get('role') is None or e.get('role') in qdoc.TOKEN_ROLES)):
            res.append((e.tag, e.get('role'), qdoc.ws(qdoc.flat(e)).strip()))
    return res


def run():
    C = vlib.Check('C23', 'a distinct generated document with phrase elements or simple markup')
    exe = vlib.build('fast')
    C.minimum = 100
    model.run(C, exe, C.n(6000, 25000), inline=INLINE, block={'para': 5, 'list': 1, 'table': 1, 'varlist': .5, 'admon': .5, 'heading': .5, 'section': .3},
              relevant=['emph', 'simple', 'role', 'footnote', 'br', 'link', 'ref', 'anchor'])
    model.run(C, exe, C.n(2400, 10000), inline=INLINE, block={'soup': 8, 'para': 1}, relevant=['soup'], salt='simple-')
    gold.project(C, exe, projection)
    return C.finish()


vlib.main(run)
