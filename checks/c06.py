#!/usr/bin/env python3
"""C06: ids are unique, predictable, and what quickbook links to exists."""
import os, random, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vlib, qdoc, gold
ET = qdoc.ET
CFG = {}

POOL = ['Intro', 'Class vector', 'a b', 'A-B', 'a  b', 'Item1', 'Item 1', 'item2', '9', 'operator<<', 'The quick brown fox jumps over the lazy dog',
        'The quick brown fox jumps over the lazy cat', 'x' * 31, 'x' * 32, 'x' * 33, 'x' * 40 + '1', 'a' * 30 + '12', '-under-', '...', 'h', 'h0', 't',
        'f', 'doc', 'Intro0', 'intro_', 'A1', 'a1', 'Notes', 'See also', 'See also:', '(empty)', '++', '10', '1234567890123456789012345678901234567890']
EXPL = ['one', 'two', 'intro', 'a_b', 'Item1', 'h0', 'x-y', 'A.B', 'one.two', 'k' * 40, 'see_also', 'notes', 't0', 'id7', 'T']
IDCHARS = re.compile(r'^[A-Za-z0-9_.\-]+$')

# Which of several elements that want the same id gets it: doc/*.qbk -- explicit before generated, sections before headings
# before other generated ids.
RANK = {'table-gen': 2, 'heading-gen': 3, 'section-gen': 4, 'doc-gen': 5, 'id': 6, 'doc': 7, 'section-id': 7, 'anchor': 8}


def make_identifier(t, old=False):
    if old:
        t = t.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;')
    return ''.join(c.lower() if c.isascii() and c.isalnum() else '_' for c in t.encode('utf8').decode('latin1'))


def normalize(t, size=32):
    t = re.sub('_+', '_', t.lstrip('_')).rstrip('_') if t.strip('_') else '_'
    return t[:size]


def generate(r, v):
    """-> files, [(kind, wanted part or None, parent index)] in document order"""
    items, files = [], {}
    n = [0]
    cur = [v]

    def word():
        n[0] += 1
        return 'w%d' % n[0]

    def title():
        return r.choice(POOL[:r.choice([4, 12, len(POOL)])])

    def ex():
        return r.choice([e for e in EXPL[:r.choice([3, 8, len(EXPL)])] if cur[0] >= 107 or re.match(r'^\w+$', e)])

    def path(i):
        k, part, par = items[i]
        if k.endswith(('-gen', '-num')):
            part = normalize(make_identifier(part))
        return part if par is None else path(par) + '.' + part

    def block(out, parent, depth, level):
        for _ in range(r.randint(1, 5)):
            k = r.random()
            if k < .3 and depth < 4:
                t = title()
                i = len(items)
                if r.random() < .3:
                    e = ex()
                    items.append(('section-id', e, parent))
                    out.append('[section:%s %s]' % (e, t))
                else:
                    items.append(('section-gen', t, parent))
                    out.append('[section %s]' % t)
                block(out, i, depth + 1, level + 1)
                out.append('[endsect]')
            elif k < .55:
                t = title()
                tag = r.choice(['heading', 'h1', 'h2', 'h3', 'h6'])
                old = tag != 'heading'
                if r.random() < .3 and v >= 106:
                    e = ex()
                    items.append(('id', e, parent))
                    out.append('[%s:%s %s]' % (tag, e, t))
                else:
                    items.append(('heading-gen' if not old else 'heading-num', t, parent))
                    out.append('[%s %s]' % (tag, t))
            elif k < .7:
                cells = '\n[[%s][%s]]\n[[%s][%s]]]' % (word(), word(), word(), word())
                q = r.random()
                if q < .3 and v >= 105:
                    e = ex()
                    items.append(('id', e, parent))
                    out.append('[table:%s %s%s' % (e, title() if r.random() < .7 else '', cells))
                elif q < .8:
                    t = title()
                    items.append(('table-gen', t, parent))
                    out.append('[table %s%s' % (t, cells))
                else:
                    out.append('[table%s' % cells)
            elif k < .85:
                a = r.choice(EXPL + ['dd.intro', 'dd.one', 'dd.h0', 'dd.Notes', 'dd.notes'])
                if r.random() < .4:
                    a = path(r.choice([j for j in range(len(items)) if items[j][0] != 'ghost']))    # what something else could ask for, at any depth
                items.append(('anchor', a, None))
                out.append('%s [#%s]%s %s' % (word(), a, word(), word()))
            elif k < .93 and v >= 106 and depth < 4:
                include(out, parent, depth)
            else:
                out.append('%s [footnote %s %s]' % (word(), word(), word()))

    def include(out, parent, depth):
        # a document with its own information block gets ids of its own, a plain file continues its parent unless an id is given
        name = 'f%d.qbk' % len(files)
        files[name] = ''
        inc = r.choice([None, r.choice([e for e in EXPL[:r.choice([3, 8, len(EXPL)])] if re.match(r'^\w+$', e)])])
        body = []
        i = len(items)
        if r.random() < .6:
            own = r.choice([None, r.choice(EXPL[:2]), 'own%d' % i])
            t = title()
            vi = r.choice([v, v, 106, 107])
            if inc or own:
                items.append(('doc', inc or own, None))
            else:
                items.append(('doc-gen', t, None))
            head = '[article %s\n[quickbook 1.%d]\n%s]\n\n' % (t, vi - 100, '[id %s]\n' % own if own else '')
            keep, cur[0] = cur[0], vi
            block(body, i, depth + 1, 1)
            cur[0] = keep
        else:
            head = ''
            if inc:
                inc = 'gh%d' % i
                items.append(('ghost', inc, None))
                block(body, i, depth + 1, 1)
            else:
                block(body, parent, depth + 1, 1)
        files[name] = head + '\n\n'.join(body) + '\n'
        out.append('[include%s %s]' % (':' + inc if inc else '', name))
    items.append(('doc', 'dd', None))
    top = []
    block(top, 0, 0, 1)
    files['a.qbk'] = '[article Title of it\n[quickbook 1.%d]\n[id dd]\n]\n\n%s\n' % (v - 100, '\n\n'.join(top))
    return files, items


def observed(root):
    """Ids of the constructs in document order: same kinds as generate()."""
    res = []

    def walk(e):
        for c in e:
            if c.tag == 'article':
                res.append(('doc', c.get('id'), c))
            elif c.tag == 'section':
                res.append(('section', c.get('id'), c))
            elif c.tag == 'bridgehead':
                ph = [x for x in c if x.tag == 'phrase' and x.get('id')]
                res.append(('heading', ph[0].get('id') if ph else c.get('id'), c))
                continue
            elif c.tag in ('table', 'informaltable'):
                if c.tag == 'table' or c.get('id'):
                    res.append(('table', c.get('id'), c))
            elif c.tag == 'anchor':
                res.append(('anchor', c.get('id'), c))
            walk(c)
    res.append(('doc', root.get('id'), root))
    walk(root)
    return res


FAMILY = {'section-id': 'section', 'section-gen': 'section', 'heading-gen': 'heading', 'heading-num': 'heading', 'table-gen': 'table',
          'anchor': 'anchor', 'doc': 'doc', 'doc-gen': 'doc', 'id': None}


def judge(v, items, data):
    root = ET.fromstring(data)
    m = re.search(rb'(?:id|linkend|linkends|arearefs)="\$[^"]*"', data)
    if m:
        return 'placeholder', 'an id was left unresolved: %r' % m.group(0)[:200]
    ids = [e.get('id') for e in root.iter() if e.get('id') is not None]
    seen = set()
    for i in ids:
        if i in seen:
            return 'duplicate', 'id %r is used twice' % i
        seen.add(i)
        if not IDCHARS.match(i):
            return 'characters', 'id %r has characters that ids cannot have' % i
    for e in root.iter():
        if e.tag == 'link' and e.get('linkend') not in seen:
            return 'dangling', 'a link that quickbook made goes to %r, which is no id of the document' % e.get('linkend')
    obs = observed(root)
    shown = [k for k, part, par in items if k != 'ghost']
    if len(obs) != len(shown):
        return 'count', '%d elements with an id expected, %d found' % (len(shown), len(obs))
    it = iter(obs)
    obs = [next(it) if k != 'ghost' else ('ghost', None, None) for k, part, par in items]
    for (k, part, par), (ok, oid, e) in zip(items, obs):
        if k == 'ghost':
            continue
        if FAMILY[k] and FAMILY[k] != ok:
            return 'order', 'expected %s, found %s' % (k, ok)
        if not oid:
            return 'missing', '%s %r has no id' % (k, part)
        if ok in ('section', 'heading') and v >= 103:
            t = e.find('title') if ok == 'section' else e
            l = t.find('link')
            if l is not None and l.get('linkend') != oid and l.get('linkend') != e.get('id'):
                return 'selflink', 'the title of %r links to %r' % (oid, l.get('linkend'))
    # what each element asks for
    want = []
    for (k, part, par), (ok, oid, e) in zip(items, obs):
        rank = RANK.get(k, RANK['heading-gen'] if k == 'heading-num' else 0)
        gen = k in ('doc-gen', 'section-gen', 'heading-gen', 'heading-num', 'table-gen')
        p = make_identifier(part, v < 106 and k.startswith('heading')) if gen else part
        if v >= 106:
            if gen:
                p = normalize(p)
            full = p if par is None else '%s.%s' % (obs[par][1] if items[par][0] != 'ghost' else items[par][1], p)
        elif v == 105 and par is not None:
            chain = [p]
            q = par
            while q is not None and items[q][0] != 'doc':
                kk, pp, q2 = items[q]
                chain.append(make_identifier(pp) if kk == 'section-gen' else pp)
                q = q2
            full = '.'.join(['dd'] + chain[::-1])
        elif par is None:
            full = p
        else:
            full = None
        want.append((full, rank, oid, k, par))
    best = {}
    for i, (full, rank, oid, k, par) in enumerate(want):
        if full is not None and (full not in best or want[best[full]][1] < rank):
            best[full] = i
    for i, (full, rank, oid, k, par) in enumerate(want):
        if full is None or k == 'ghost':
            continue
        if best[full] == i:
            if oid != full:
                return 'notkept', '%s should have the id %r and has %r' % (k, full, oid)
        elif v >= 106:
            stem = full.rsplit('.', 1)
            base, got = stem[-1], oid.rsplit('.', 1)
            if len(stem) != len(got) or stem[:-1] != got[:-1]:
                return 'renamed', '%s wants %r, which is taken, and has %r' % (k, full, oid)
            g = re.sub(r'\d+$', '', got[-1])
            if g == got[-1] or not (normalize(base) + '_').startswith(g) or len(got[-1]) > 32:
                return 'renamed', '%s wants %r, which is taken, and has %r' % (k, full, oid)
    return None


def case(seed):
    r = random.Random('C06/%d/%d' % (CFG['seed'], seed))
    v = r.choice([101, 102, 103, 104, 105, 106, 106, 107, 107, 107])
    files, items = generate(r, v)
    d = vlib.fresh_dir()
    vlib.write_tree(d, files)
    args = ['a.qbk', '--output-file=o.xml'] + r.choice([[], ['--no-pretty-print']])
    q = vlib.run_qb(CFG['exe'], args, d)
    if q.timeout:
        q = vlib.run_qb(CFG['exe'], args, d, timeout=240)
    if q.timeout:
        return v, files, items, 'timeout', None, args
    if q.rc != 0:
        return v, files, items, None, ('rejected', q.text[:500]), args
    try:
        return v, files, items, None, judge(v, items, open(d + '/o.xml', 'rb').read()), args
    except ET.ParseError as e:
        return v, files, items, None, ('unreadable', str(e)), args


def ids_projection(data):
    root = ET.fromstring(data)
    return [(e.tag, k, e.get(k)) for e in root.iter() for k in ('id', 'linkend', 'linkends', 'arearefs') if e.get(k)]


def run():
    C = vlib.Check('C06', 'a distinct generated document in which elements compete for the same id')
    exe = vlib.build('fast')
    C.minimum = 100
    CFG.update(exe=exe, seed=C.seed)
    for v, files, items, unsure, b, args in vlib.pmap(case, range(C.n(9000, 40000))):
        if unsure:
            C.unsure(unsure)
            continue
        wants = [(par, part) for k, part, par in items]
        src = files['a.qbk']
        C.observe(repr(sorted(files.items())), len(set(wants)) < len(wants), sample=src if len(src) < 700 else None)
        C.count('included files', len(files) - 1)
        C.count('ids judged', len(items))
        C.count('quickbook 1.%d documents' % (v - 100))
        if b:
            C.bad(vlib.Bad(b[0], 'quickbook 1.%d: %s' % (v - 100, b[1]), files, args))
    gold.project(C, exe, ids_projection)
    return C.finish()


vlib.main(run)
