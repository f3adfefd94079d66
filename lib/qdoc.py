"""Random quickbook documents together with the BoostBook tree they mean.

A generated construct is a pair (source text, expected nodes).  A node is a string or
[name, {attributes}, [children]]; code is ['%code', {}, [exact text]] / ['%listing', {}, [exact text]].
The expected trees follow doc/*.qbk, not the implementation.  `normal` brings the expected and the real tree
to a form in which layout (white space between blocks, para against simpara, generated ids) doesn't count.
"""
import random, re
from urllib.parse import unquote
import xml.etree.ElementTree as ET

XI = '{http://www.w3.org/2001/XInclude}'

CONTAINERS = {'listitem', 'entry', 'note', 'tip', 'warning', 'caution', 'important', 'blockquote', 'sidebar',
              'footnote'}
STRUCT = CONTAINERS | {'article', 'book', 'chapter', 'library', 'part', 'section', 'itemizedlist', 'orderedlist',
                       'table', 'informaltable', 'tgroup', 'thead', 'tbody', 'row', 'variablelist', 'varlistentry',
                       'qandaset', 'reference', 'appendix', 'preface', 'set', 'calloutlist', 'callout', 'qandadiv'}
BLOCKS = STRUCT | {'para', 'simpara', 'programlisting', 'bridgehead', '%listing', 'title', '%hr', XI + 'include'}


# ------------------------------------------------------------------------------------------ real tree -> nodes

def flat(e):
    return ''.join(e.itertext())


def from_et(e):
    if e.tag == 'code' and all(c.tag == 'phrase' for c in e.iter() if c is not e):
        return ['%code', {}, [flat(e)]]
    if e.tag == 'programlisting' and all(c.tag == 'phrase' for c in e.iter() if c is not e):
        return ['%listing', {}, [flat(e)]]
    ch = []
    if e.text:
        ch.append(e.text)
    for c in e:
        ch.append(from_et(c))
        if c.tail:
            ch.append(c.tail)
    return [e.tag, dict(e.attrib), ch]


def ws(s):
    return re.sub(r'[ \t\r\n]+', ' ', s)


def merge(ch):
    out = []
    for c in ch:
        if isinstance(c, str):
            if out and isinstance(out[-1], str):
                out[-1] += c
            else:
                out.append(c)
        else:
            out.append(c)
    return out


def collapse_inline(ch, strip=True):
    """White space normal form of inline content (recursively)."""
    out = []
    for c in merge(ch):
        if isinstance(c, str):
            out.append(ws(c))
        else:
            out.append(c)
    for i, c in enumerate(out):         # a line break starts a new line
        if i and isinstance(c, str) and not isinstance(out[i - 1], str) and out[i - 1][0] == 'sbr':
            out[i] = c.lstrip(' ')
    if strip:
        if out and isinstance(out[0], str):
            out[0] = out[0].lstrip(' ')
        if out and isinstance(out[-1], str):
            out[-1] = out[-1].rstrip(' ')
    return [c for c in out if c != '']


def is_block(c):
    return not isinstance(c, str) and c[0] in BLOCKS


def blockify(ch):
    """Children of a container: a sequence of blocks, loose inline content made a para."""
    out, run = [], []

    def flush():
        if any(not isinstance(c, str) or c.strip(' \t\r\n') for c in run):
            out.append(['para', {}, collapse_inline(list(run))])
        del run[:]
    for c in ch:
        if not isinstance(c, str) and c[0] in ('para', 'simpara'):
            flush()
            if not c[2]:
                out.append(['%hr', {}, []])
                continue
            # lists end up within the simpara of their item
            for g in blockify(c[2]):
                out.append(g)
        elif is_block(c):
            flush()
            out.append(c)
        else:
            run.append(c)
    flush()
    return out


def normal(n):
    if isinstance(n, str):
        return n
    name, at, ch = n
    if name == 'ulink' and 'url' in at:
        at = dict(at, url=unquote(at['url']))
        if len(ch) == 1 and isinstance(ch[0], str) and unquote(ch[0].strip()) == at['url']:
            ch = [at['url']]
    if name in ('%code', '%listing', 'programlisting'):
        return [name, {k: v for k, v in at.items()}, [normal(c) for c in merge(ch)]]
    ch = [normal(c) for c in ch]
    if name in ('bridgehead', 'title'):
        ch = [c for c in ch if isinstance(c, str) or not (c[0] == 'phrase' and 'id' in c[1] and not c[2])]
        ch = [c for c in ch if isinstance(c, str) or c[0] != 'anchor' or name == 'title']
        el = [c for c in ch if not isinstance(c, str) or c.strip()]
        if len(el) == 1 and not isinstance(el[0], str) and el[0][0] == 'link' and el[0][1].get('%self', True):
            ch = el[0][2]
        ch = collapse_inline(ch)
    elif name in STRUCT:
        ch = blockify(ch)
    else:
        ch = collapse_inline(ch, strip=name in ('para', 'simpara', 'term', 'link', 'ulink'))
        if name in ('para', 'simpara'):
            name = 'para'
    return [name, at, ch]


def show(n):
    if isinstance(n, str):
        return repr(n)
    return '<%s%s>' % (n[0], ''.join(' %s=%r' % kv for kv in sorted(n[1].items())))


GENERATED = {'id'}


def diff(exp, act, path=''):
    """First difference between normalised trees, or None.  Attributes in GENERATED count only where expected."""
    if isinstance(exp, str) or isinstance(act, str):
        if exp != act:
            return '%s: expected %s, found %s' % (path, show(exp)[:300], show(act)[:300])
        return None
    if exp[0] != act[0]:
        return '%s: expected %s, found %s' % (path, show(exp)[:300], show(act)[:300])
    ea = {k: v for k, v in exp[1].items() if v is not None}
    aa = {k: v for k, v in act[1].items() if (k in ea or k not in GENERATED) and k not in exp[1].get('%ignore', ())
          and (k not in exp[1] or exp[1][k] is not None)}
    ea.pop('%ignore', None)
    if ea != aa:
        return '%s/%s: expected attributes %r, found %r' % (path, exp[0], ea, aa)
    p = '%s/%s' % (path, exp[0])
    for i in range(max(len(exp[2]), len(act[2]))):
        if i >= len(exp[2]):
            return '%s[%d]: unexpected %s' % (p, i, show(act[2][i])[:300])
        if i >= len(act[2]):
            return '%s[%d]: missing %s' % (p, i, show(exp[2][i])[:300])
        d = diff(exp[2][i], act[2][i], '%s[%d]' % (p, i))
        if d:
            return d
    return None


def text_runs(n, out=None):
    """The text of a normalised tree, one item per block, code exact; markup doesn't count."""
    if out is None:
        out = ['']
    if isinstance(n, str):
        out[-1] += n
        return out
    blk = n[0] in BLOCKS or n[0] in ('term', 'sbr')
    if blk:
        out.append('')
    for c in n[2]:
        text_runs(c, out)
    if blk:
        out.append('')
    return out


def compare_text(exp, xml_bytes, reflow=True):
    act = normal(from_et(parse_xml(xml_bytes)))
    e = normal(exp)
    if reflow:
        e, act = reflow_code(e), reflow_code(act)

    def runs(t):
        return [x for x in (ws(y).strip() if reflow else y.strip(' \n') for y in text_runs(t)) if x]
    a, b = runs(e), runs(act)
    for i in range(max(len(a), len(b))):
        x = a[i] if i < len(a) else None
        y = b[i] if i < len(b) else None
        if x != y:
            return 'text of block %d: expected %.400r, found %.400r' % (i, x, y)
    return None


def text_projection(xml_bytes):
    act = normal(from_et(parse_xml(xml_bytes)))
    return [x for x in (ws(y).strip() for y in text_runs(reflow_code(act))) if x]


def parse_xml(data):
    """Real output (bytes) -> ElementTree root; raises ET.ParseError when it isn't well-formed."""
    return ET.fromstring(data)


def reflow_code(n):
    """Inline code may be broken over lines by the pretty printer: compare it modulo amount of white space."""
    if isinstance(n, str):
        return n
    if n[0] == '%code':
        return [n[0], n[1], [ws(''.join(n[2])).strip()]]
    return [n[0], n[1], [reflow_code(c) for c in n[2]]]


def compare(exp, xml_bytes, reflow=True):
    """None when the output means the expected tree."""
    root = parse_xml(xml_bytes)
    act = normal(from_et(root))
    act[1] = {k: v for k, v in act[1].items() if k == 'id'}
    e = normal(exp)
    if reflow:
        e, act = reflow_code(e), reflow_code(act)
    return diff(e, act)


# ------------------------------------------------------------------------------------------ generation

REFS = [('funcref', 'functionname'), ('classref', 'classname'), ('memberref', 'methodname'), ('enumref', 'enumname'),
        ('macroref', 'macroname'), ('headerref', 'headername'), ('conceptref', 'conceptname'),
        ('globalref', 'globalname')]
EMPH = [('*', 'emphasis', {'role': 'bold'}), ("'", 'emphasis', {}), ('_', 'emphasis', {'role': 'underline'}),
        ('^', 'literal', {}), ('-', 'emphasis', {'role': 'strikethrough'}), ('"', 'quote', {}),
        ('~', 'replaceable', {})]
SIMPLE = [('*', 'emphasis', {'role': 'bold'}), ('/', 'emphasis', {}), ('_', 'emphasis', {'role': 'underline'}),
          ('=', 'literal', {})]
ADMON = ['note', 'tip', 'warning', 'caution', 'important']
TOKEN_ROLES = {'identifier', 'keyword', 'special', 'number', 'string', 'char', 'comment', 'preprocessor'}
VERSIONS = [101, 102, 103, 104, 105, 106, 107]
UNI = ['é', 'ß', '中文', 'Ω', '→', '“q”', '\U0001F600', 'naïve']
KEYWORDS = ['int', 'return', 'class', 'const', 'void', 'template', 'if', 'while']

def is_graph(c):
    return '!' <= c <= '~'


def is_punct(c):
    return is_graph(c) and not c.isalnum()


def simple_markup(s, atoms={}):
    """What a paragraph of text without escapes and macros means: doc/phrase.qbk, Simple formatting.
    atoms: characters that stand for a bracket, code or raw text: {character: what it becomes}; simple markup never reaches over them"""
    out, i, n = [], 0, len(s)
    is_graph = lambda c: c in atoms or '!' <= c <= '~'
    is_punct = lambda c: is_graph(c) and not c.isalnum()
    names = {m: (nm, at) for m, nm, at in SIMPLE}

    def ends(j, m):
        return (is_graph(s[j - 1]) and s[j] == m and s[j - 1] != m and
                (j + 1 == n or (s[j + 1] != m and (s[j + 1].isspace() or is_punct(s[j + 1])))))
    while i < n:
        c = s[i]
        if c in names and i + 1 < n and is_graph(s[i + 1]) and s[i + 1] != c and \
                (i == 0 or (s[i - 1] != c and (s[i - 1].isspace() or is_punct(s[i - 1])))):
            j = i + 1
            while j < n and s[j] not in atoms and not (j > i + 1 and ends(j, c)):
                j += 1
            if j < n and s[j] not in atoms:
                nm, at = names[c]
                out.append([nm, dict(at), [s[i + 1:j]]])
                i = j + 1
                continue
        out += atoms.get(c, [c])
        i += 1
    return out


INLINE = ('text', 'special', 'emph', 'simple', 'code', 'link', 'url', 'ref', 'footnote', 'image', 'anchor', 'escape',
          'bslash', 'comment', 'unicode', 'role', 'br', 'macro', 'template', 'cond', 'uniescape', 'odd')
BLOCK = ('para', 'list', 'xlist', 'table', 'varlist', 'admon', 'quote', 'blurb', 'pre', 'code', 'heading', 'section',
         'hr', 'cblock', 'soup')


class Gen(object):
    def __init__(self, rng, version=107, inline=None, block=None, doc_id='dd', uni=True):
        self.r, self.v, self.n = rng, version, 0
        self.inline = dict.fromkeys(inline or ('text', 'special', 'emph', 'simple', 'code'), 1)
        if isinstance(inline, dict):
            self.inline = inline
        self.block = dict.fromkeys(block or ('para',), 1)
        if isinstance(block, dict):
            self.block = block
        self.uni = uni
        self.used = {}
        self.doc_id = doc_id
        self.macros = {}       # name -> expected nodes
        self.templates = {}    # name -> (params, fn)
        self.sections = []     # ids of enclosing sections
        self.links = []
        self.level = 0
        self.words = []
        self.in_list = 0
        self.in_foot = 0

    # -- words
    def w(self):
        self.n += 1
        s = 'q' + ''.join(self.r.choice('abcdefghkmtuvw') for _ in range(self.r.randint(1, 3))) + '%dz' % self.n
        self.words.append(s)
        return s

    def ws(self, lo=1, hi=4):
        return ' '.join(self.w() for _ in range(self.r.randint(lo, hi)))

    def use(self, k):
        self.used[k] = self.used.get(k, 0) + 1

    def pick(self, weights, allowed):
        ks = [k for k in weights if k in allowed]
        return self.r.choices(ks, [weights[k] for k in ks])[0]

    # -- inline
    def inl(self, n=None, depth=0, allow=None, first_word=True):
        """A run of inline constructs separated by white space; starts with a word unless first_word is false."""
        r = self.r
        n = n or r.randint(1, 5)
        src, exp = [], []
        al = set(INLINE if allow is None else allow)
        if self.v < 106:
            al -= {'role', 'br'}
        if self.v < 105:
            al -= {'uniescape'}
        if depth >= 3:
            al &= {'text', 'special', 'bslash', 'code'}
        if not self.macros:
            al.discard('macro')
        if not self.templates:
            al.discard('template')
        if self.in_foot:
            al.discard('footnote')
        if not (al & set(self.inline)):
            al.add('text')
        wts = dict(self.inline)
        wts.setdefault('text', 1)
        for i in range(n):
            k = 'text' if (i == 0 and first_word) else self.pick(wts, al)
            s, e = getattr(self, 'i_' + k)(depth)
            self.use(k)
            if i:
                sep = '\n' if (s[:1].isalpha() and r.random() < .1 and not self.in_list and depth == 0
                               and not getattr(self, 'one_line', False)) else ' '
                src.append(sep)
                exp.append(' ')
            src.append(s)
            exp += e
        return ''.join(src), exp

    def i_text(self, d):
        s = self.ws()
        if self.r.random() < .15:
            s += self.r.choice(['.', ',', ';', ':', '!', '?'])
        return s, [s]

    def i_special(self, d):
        s = self.r.choice(['&', '<', '>', '"', "'", 'a<b', 'x&y;', '&amp;', '<b>', 'p>q', "it's", '100%', '$5',
                           '(paren)', '{brace}', 'a-b', '&#65;', '--', '~', '@', '^', '|', '+', ']]>'.replace(']', '')])
        return s, [s]

    def i_odd(self, d):
        """Characters that start markup elsewhere, in places where they are just text."""
        a, b = self.w(), self.w()
        s = self.r.choice(['%s*%s', '%s/%s', '%s_%s', '%s=%s', '%s-%s', '%s@%s', '%s#%s', '%s$%s', '%s..%s', '%s::%s', '%s__%s',
                           '%s//%s', '%s**%s', '%s * %s', '%s = %s', '%s / %s', '%s\'s %s', '%s"%s', '%s # %s', '%s ---- %s',
                           '%s\t%s', '%s  %s', '%s&%s', '%s&&%s', '%s<%s', '%s<%s>', '%s>%s', '%s!%s', '%s?%s', '%s~%s', '%s^%s', '%s%%%s',
                           '%s|%s', '%s{%s}', '%s(%s)', '%s\u00a0%s' if self.v < 100 else '%s;%s', '%s,%s', '%s+%s']) % (a, b)
        if '\t' in s or '  ' in s:
            return s, [ws(s)]
        return s, [s]

    def i_unicode(self, d):
        s = self.r.choice(UNI)
        return s, [s]

    def i_uniescape(self, d):
        r = self.r
        if r.random() < .5:
            c = r.choice([0xe9, 0x3b1, 0x4e2d, 0x2192, 0x41, 0x26, 0x3c])
            return '\\u%04X' % c, [chr(c)]
        c = r.choice([0xe9, 0x1F600, 0x10348])
        return '\\U%08x' % c, [chr(c)]

    def i_bslash(self, d):
        c = self.r.choice(list('[]*/_=`\\\'"#&<>~!@$%^-+|{}().,;:?'))
        a, b = self.w(), self.w()
        return '%s\\%s%s' % (a, c, b), [a + c + b]

    def i_escape(self, d):
        a, b = self.w(), self.ws()
        if self.r.random() < .5:
            return "'''<emphasis role=\"%s\">%s</emphasis>'''" % (a, b), [['emphasis', {'role': a}, [b]]]
        return "'''%s &amp; *%s*'''" % (a, b), ['%s & *%s*' % (a, b)]

    def i_comment(self, d):
        a, b = self.w(), self.w()
        self.words = self.words[:-2]
        c = self.r.choice(['[/ %s]', '[/ %s [x %s] ]', '[/%s [*bold] `x`]']) % ((a, b) if False else a) \
            if False else self.r.choice(['[/ %s]' % a, '[/ %s [x %s] y]' % (a, b), '[/%s [*bold] ]' % a])
        w = self.w()
        return c + w, [w]

    def i_emph(self, d):
        m, name, at = self.r.choice(EMPH)
        s, e = self.inl(self.r.randint(1, 3), d + 1)
        return '[%s%s]' % (m, s), [[name, dict(at), e]]

    def i_simple(self, d):
        m, name, at = self.r.choice(SIMPLE)
        ws_ = [self.w() for _ in range(self.r.randint(1, 3))]
        if len(ws_) > 1 and self.r.random() < .3:
            ws_[1:1] = [self.r.choice(['&', '<', '-', '+', '"'])]
        t = ' '.join(ws_)
        pre, post = self.r.choice([('', ''), ('(', ')'), ('', '.'), ('', ',')])
        return '%s%s%s%s%s' % (pre, m, t, m, post), ([pre] if pre else []) + [[name, dict(at), [t]]] + \
            ([post] if post else [])

    def i_code(self, d):
        t = self.codeline(inline=True)
        return '`%s`' % t, [['%code', {}, [t]]]

    def i_link(self, d):
        i = self.r.choice(self.links) if self.links else 'target' + self.w()
        if self.r.random() < .3:
            return '[link %s]' % i, [['link', {'linkend': i}, [i]]]
        s, e = self.inl(self.r.randint(1, 3), d + 1, ('text', 'special', 'emph', 'code'))
        return '[link %s %s]' % (i, s), [['link', {'linkend': i}, e]]

    def i_url(self, d):
        u = self.r.choice(['http://%s.org/', 'https://%s.com/a/b?x=1&y=2', 'ftp://%s/f.txt', 'http://h/%s#frag',
                           'mailto:%s@x.org', '%s/rel.html', 'http://e.org/%%20%s', 'http://e.org/%s;p=1']) % self.w()
        self.words.pop()
        if self.r.random() < .3:
            return '[@%s]' % u, [['ulink', {'url': u}, [u]]]
        s, e = self.inl(self.r.randint(1, 3), d + 1, ('text', 'special', 'emph', 'code'))
        return '[@%s %s]' % (u, s), [['ulink', {'url': u}, e]]

    def i_ref(self, d):
        k, name = self.r.choice(REFS)
        t = '::'.join(self.w() for _ in range(self.r.randint(1, 3)))
        if k == 'headerref':
            t = t.replace('::', '/') + '.hpp'
        if self.r.random() < .4:
            return '[%s %s]' % (k, t), [[name, {'alt': t}, [t]]]
        s, e = self.inl(self.r.randint(1, 2), d + 1, ('text', 'emph'))
        return '[%s %s %s]' % (k, t, s), [[name, {'alt': t}, e]]

    def i_footnote(self, d):
        self.in_foot += 1
        s, e = self.inl(self.r.randint(1, 3), d + 1)
        self.in_foot -= 1
        return '[footnote %s]' % s, [['footnote', {}, [['para', {}, e]]]]

    def i_image(self, d):
        f = self.r.choice(['%s.png', 'images/%s.jpg', 'a/b/%s.gif']) % self.w()
        self.words.pop()
        at, s, kids = {'fileref': f}, '', []
        alt = None
        if self.v >= 105:
            for k in self.r.sample(['width', 'height', 'scale', 'align', 'depth'], self.r.randint(0, 2)):
                v = {'width': '10in', 'height': '20px', 'scale': '50', 'align': 'center', 'depth': '3'}[k]
                s += ' [%s %s]' % (k, v)
                at[k] = v
            if self.r.random() < .3:
                alt = self.ws(1, 2)
                s += ' [alt %s]' % alt
            if alt is None:
                alt = None
        kids = [['imageobject', {}, [['imagedata', at, []]]]]
        if alt is not None:
            kids.append(['textobject', {}, [['phrase', {}, [alt]]]])
        elif self.v < 106:
            base = re.sub(r'.*/', '', f)
            kids.append(['textobject', {}, [['phrase', {}, [base.rsplit('.', 1)[0]]]]])
        return '[$%s%s]' % (f, s), [['inlinemediaobject', {}, kids]]

    def i_anchor(self, d):
        i = 'anc' + self.w()
        self.words.pop()
        w = self.w()
        return '[#%s]%s' % (i, w), [['anchor', {'id': i}, []], w]

    def i_role(self, d):
        k = self.r.choice(['red', 'blue', 'myrole', 'a_b'])
        s, e = self.inl(self.r.randint(1, 2), d + 1)
        return '[role %s %s]' % (k, s), [['phrase', {'role': k}, e]]

    def i_br(self, d):
        w = self.w()
        return '[br]%s' % w, [['sbr', {}, []], w]

    def i_macro(self, d):
        k = self.r.choice(sorted(self.macros))
        return k, list(self.macros[k])

    def i_template(self, d):
        k = self.r.choice(sorted(self.templates))
        return self.templates[k](self, d)

    def i_cond(self, d):
        s, e = self.inl(self.r.randint(1, 2), d + 1, ('text', 'emph', 'special'))
        if self.macros and self.r.random() < .5:
            k = self.r.choice(sorted(self.macros))
            return '[? %s %s]' % (k, s), e
        w = self.w()
        if self.v >= 107 and self.r.random() < .5:
            return '[?! undef_%s %s]' % (w, s), e
        for x in re.findall(r'q[a-z]+\d+z', s):
            if x in self.words:
                self.words.remove(x)
        return '[? undef_%s %s]%s' % (w, s, w), [w]

    # -- code
    def codeline(self, inline=False):
        r = self.r
        toks = []
        for _ in range(r.randint(1, 5)):
            toks.append(r.choice([self.w, self.w, lambda: r.choice(KEYWORDS), lambda: '%d' % r.randint(0, 999),
                                  lambda: '"%s"' % self.w(), lambda: r.choice(['+', '<', '>', '&&', '==', '::', '->', '(', ')',
                                                                           '{', '}', ';', '#', '%', '!', '?', '@', '$']),
                                  lambda: "'c'"])())
        s = ' '.join(toks)
        if not inline and r.random() < .2:
            s += ' // ' + self.w()
        return s

    # -- blocks
    def blocks(self, n, depth=0, allow=None):
        src, exp = [], []
        al = set(BLOCK if allow is None else allow)
        if self.v < 106:
            al -= {'xlist', 'cblock'}
        prev = None
        wts = dict(self.block)
        wts.setdefault('para', .5)
        for i in range(n):
            a = set(al)
            if prev == 'list':
                a.discard('list')      # adjacent wiki lists would be one list
                a.discard('code')      # would be indented content of the item
            if prev == 'code':
                a.discard('code')
            if depth >= 3:
                a -= {'section', 'table', 'varlist', 'list', 'xlist'}
            k = self.pick(wts, a)
            s, e = getattr(self, 'b_' + k)(depth)
            self.use(k)
            src.append(s)
            exp += e
            prev = k
        return '\n\n'.join(src), exp

    def b_para(self, d):
        r = self.r
        if r.random() < .3:
            # start with markup instead of a word
            al = {'emph', 'simple', 'code', 'link', 'url', 'ref', 'image', 'bslash', 'special', 'escape', 'role'} & set(self.inline)
            if self.v < 106:
                al.discard('role')
            if al:
                k = self.pick(self.inline, sorted(al))
                s, e = getattr(self, 'i_' + k)(0)
                self.use(k)
                if not s.startswith('*') and not s.startswith('#') and not (s.startswith('--') or s.startswith("'''")):
                    s2, e2 = self.inl(r.randint(1, 5))
                    return s + ' ' + s2, [['para', {}, e + [' '] + e2]]
                self.words = [w for w in self.words if w not in s]
        s, e = self.inl(r.randint(1, 7))
        return s, [['para', {}, e]]

    def b_soup(self, d):
        r = self.r
        while True:
            out = []
            for _ in range(r.randint(3, 18)):
                out.append(r.choice([self.w, self.w, lambda: r.choice('*/_=') , lambda: r.choice('*/_='), lambda: r.choice('*/_='),
                                     lambda: ' ', lambda: ' ', lambda: ' ', lambda: ' ',
                                     lambda: r.choice(',.;:!?()-+<>&"%@^|{}~$'), lambda: r.choice(['**', '//', '__', '==', '--'])])())
            source, atoms = {}, {}
            for _ in range(r.choice([0, 0, 1, 2, 3])):
                a, w = chr(0xe000 + len(atoms)), self.w()
                source[a], atoms[a] = r.choice([('[^%s]' % w, [['literal', {}, [w]]]), ('[*%s]' % w, [['emphasis', {'role': 'bold'}, [w]]]),
                                                ('`%s`' % w, [['%code', {}, [w]]]), ("'''%s'''" % w, [w])])
                out.insert(r.randint(0, len(out)), a)
            s = self.w() + r.choice(['', ' ', ' ', ' ']) + ''.join(out)
            s = re.sub(r' +', ' ', s).rstrip()
            self.used['soup with brackets, code or raw text'] = self.used.get('soup with brackets, code or raw text', 0) + bool(atoms)
            return ''.join(source.get(c, c) for c in s), [['para', {}, simple_markup(s, atoms)]]

    def b_hr(self, d):
        return '----', [['%hr', {}, []]]

    def b_list(self, d):
        self.in_list += 1
        s, e = self._list(0, self.r.randint(1, 3))
        self.in_list -= 1
        return s, [e]

    def _list(self, indent, maxd):
        r = self.r
        mark = r.choice('*#')
        lines, items = [], []
        for _ in range(r.randint(1, 4)):
            s, e = self.inl(r.randint(1, 4), 1)
            lines.append(' ' * indent + mark + ' ' + s)
            it = ['listitem', {}, [['para', {}, e]]]
            if self.v >= 107 and r.random() < .15:
                s, e = self.inl(r.randint(1, 3), 1)
                lines.append('\n' + ' ' * (indent + 2) + s + '\n')
                it[2].append(['para', {}, e])
            if maxd > 1 and r.random() < .35:
                s, e = self._list(indent + r.choice([2, 4]), maxd - 1)
                lines.append(s)
                it[2].append(e)
            items.append(it)
        return '\n'.join(lines), ['itemizedlist' if mark == '*' else 'orderedlist', {}, items]

    def _cell(self, d, nested=True):
        r = self.r
        if nested and r.random() < .2 and d < 3:
            s, e = self.blocks(r.randint(1, 3), d + 1, ('para', 'xlist', 'admon', 'quote') if self.v >= 106
                               else ('para', 'admon', 'quote'))
            return '[\n%s\n]' % s, e
        s, e = self.inl(r.randint(1, 4), 1)
        return '[%s]' % s, [['para', {}, e]]

    def b_xlist(self, d):
        k, name = self.r.choice([('ordered_list', 'orderedlist'), ('itemized_list', 'itemizedlist')])
        src, items = [], []
        for _ in range(self.r.randint(1, 4)):
            s, e = self._cell(d)
            src.append(s)
            items.append(['listitem', {}, e])
        return '[%s %s]' % (k, '\n'.join(src)), [[name, {}, items]]

    def b_table(self, d):
        r = self.r
        cols = r.randint(1, 4)
        nrows = r.choice([1, 2, 2, 3, 4])
        rows, src = [], []
        for i in range(nrows):
            cs, ces = [], []
            for _ in range(cols):
                s, e = self._cell(d)
                cs.append(s)
                ces.append(['entry', {}, e])
            src.append('[%s]' % r.choice(['', ' ', '\n']).join(cs))
            rows.append(['row', {}, ces])
        title, tid = None, None
        head = ''
        if r.random() < .6:
            title = self.ws(1, 3)
            head = ' ' + title + '\n'
            tid = re.sub('[^a-z0-9]', '_', title.lower())
        else:
            head = '\n' if self.v < 106 else ' '
        if self.v >= 105 and r.random() < .3:
            tid = 'tab' + self.w()
            self.words.pop()
            head = ':' + tid + head
        kids = []
        if title:
            kids.append(['title', {}, [title]])
        tg = []
        if nrows > 1:
            tg.append(['thead', {}, rows[:1]])
            tg.append(['tbody', {}, rows[1:]])
        else:
            tg.append(['tbody', {}, rows])
        kids.append(['tgroup', {'cols': str(cols)}, tg])
        return '[table%s%s]' % (head, '\n'.join(src)), [['table' if title else 'informaltable', {'frame': 'all'}, kids]]

    def b_varlist(self, d):
        r = self.r
        src, ents = [], []
        for _ in range(r.randint(1, 3)):
            t, te = self.inl(r.randint(1, 2), 1, ('text', 'special', 'emph', 'code'))
            s, e = self._cell(d)
            src.append('[[%s]%s]' % (t, s))
            ents.append(['varlistentry', {}, [['term', {}, te], ['listitem', {}, e]]])
        title = self.ws(1, 3)
        return '[variablelist %s\n%s]' % (title, '\n'.join(src)), \
            [['variablelist', {}, ([['title', {}, [title]]] if title else []) + ents]]

    def _inner(self, d):
        r = self.r
        if r.random() < .3 and d < 3:
            return self.blocks(r.randint(1, 3), d + 1, ('para', 'xlist', 'table') if self.v >= 106 else ('para',))
        s, e = self.inl(r.randint(1, 5), 1)
        return s, [['para', {}, e]]

    def b_admon(self, d):
        k = self.r.choice(ADMON)
        s, e = self._inner(d)
        return '[%s %s]' % (k, s), [[k, {}, e]]

    def b_quote(self, d):
        s, e = self._inner(d)
        return '[:%s]' % s, [['blockquote', {}, e]]

    def b_blurb(self, d):
        s, e = self._inner(d)
        return '[blurb %s]' % s, [['sidebar', {'role': 'blurb'}, e]]

    def b_cblock(self, d):
        s, e = self.inl(self.r.randint(1, 4), 1)
        return '[block %s]' % s, e and [['para', {}, e]] and [e_ for e_ in []] or [['%loose', {}, e]]

    def b_pre(self, d):
        r = self.r
        lines = [self.ws(1, 3) for _ in range(r.randint(1, 4))]
        t = '\n'.join(r.choice(['', '  ', '    ']) + l.replace(' ', '   ') for l in lines)
        if self.v < 106:
            t = t.lstrip(' ')
        return '[pre\n%s\n]' % t, [['%listing', {}, [t + '\n']]]

    def b_code(self, d):
        r = self.r
        lines = [r.choice(['', '', '  ', '    ']) + self.codeline() for _ in range(r.randint(1, 4))]
        lines[0] = lines[0].lstrip()
        if len(lines) > 2 and r.random() < .4:
            lines.insert(r.randint(1, len(lines) - 1), '')
        ind = r.choice(['  ', '    '])
        src = '\n'.join(ind + l if l else '' for l in lines)
        if not self.depth_ok_for_indent(d):
            src = '```\n' + '\n'.join(lines) + '\n```'
            return src, [['%listing', {}, ['\n'.join(lines)]]]
        return src, [['%listing', {}, ['\n'.join(lines) + '\n']]]

    def depth_ok_for_indent(self, d):
        return d == 0

    def b_heading(self, d):
        r = self.r
        s, e = self.inl(r.randint(1, 3), 2, ('text', 'special', 'emph', 'code'))
        if r.random() < .5:
            n = r.randint(1, 6)
            tag = 'h%d' % n
        else:
            n = min(self.level + 2, 6)
            tag = 'heading'
        return '[%s %s]' % (tag, s), [['bridgehead', {'renderas': 'sect%d' % n}, e]]

    def b_section(self, d):
        r = self.r
        sid = 'sec' + self.w()
        self.words.pop()
        s, e = self.inl(r.randint(1, 3), 2, ('text', 'special', 'emph', 'code'))
        self.level += 1
        body, be = self.blocks(r.randint(0, 4), d + 1 if d else 0)
        self.level -= 1
        explicit = r.random() < .6
        full = [['section', {}, [['title', {}, e]] + be]]
        end = '[endsect%s]' % (':' + sid if explicit and self.v >= 107 and r.random() < .5 else '')
        return '[section%s %s]\n\n%s\n\n%s' % (':' + sid if explicit else '', s, body, end), full

    # -- documents
    def document(self, n=6, head=None, kind='article'):
        title = self.ws(1, 3)
        body, e = self.blocks(n)
        if self.inline.get('anchor') and self.r.random() < .1:
            # nothing follows: it belongs to the end of the document
            a = 'anc' + self.w()
            self.words.pop()
            body = body.rstrip('\n') + '\n\n[#%s]' % a
            e = e + [['anchor', {'id': a}, []]]
            self.used['anchor'] = self.used.get('anchor', 0) + 1
        src = '[%s %s\n[quickbook 1.%d]\n[id %s]\n]\n\n%s%s\n' % (kind, title, self.v - 100, self.doc_id, head or '', body)
        return src, [kind, {'id': self.doc_id}, [['title', {}, [title]]] + e]
