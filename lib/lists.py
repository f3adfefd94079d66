"""Paragraphs, lists and indented code of arbitrary indentation: lines, and the tree they mean.

The rules (doc/block.qbk): columns count, a tab goes to the next multiple of four; a mark further right than that of the last item
starts a list within the item, one further left goes back to the list it is aligned with; text further right than the text
of an item is code in it; from 1.7 a paragraph belongs to the innermost item whose text it is aligned with.
"""


def column(s):
    n = 0
    for c in s:
        n = n + 4 - n % 4 if c == '\t' else n + 1
    return n


def blanks(r, n):
    """White space that ends in column n"""
    s = ''
    while column(s) < n:
        c = column(s)
        s += r.choice([' ', '\t'] if c + 4 - c % 4 <= n else ' ') if r.random() < .3 else ' '
    return s


def generate(r, v):
    """-> source lines"""
    lines, cols, text = [], [0], [2]
    n = 0
    for _ in range(r.randint(2, 12)):
        x = r.random()
        if lines and (lines[-1] or len(lines) < 2) and r.random() < (.35 if v < 107 else .5):
            lines += [''] * r.choice([1, 1, 2])
        n += 1
        near = r.choice(cols + text) + r.choice([0, 0, 0, 0, 1, 2, 4, -1])
        if x < .6:
            c = max(0, r.choice([r.choice(cols), near, r.choice(text)]) if len(lines) > 0 else 0)
            if r.random() < .3:
                c = 0
            lead = blanks(r, c)
            gap = r.choice([' ', ' ', ' ', '  ', '   ', '\t', ' \t', ''])
            mark = r.choice('*#') if r.random() < .1 else '*' if r.random() < .8 else '#'
            if gap == '' and mark == '*':
                gap = ' '
            lines.append(lead + mark + gap + 'w%d' % n)
            cols.append(c)
            text.append(column(lead + mark + gap))
        else:
            c = max(0, near) if r.random() < .7 else 0
            lines.append(blanks(r, c) + 'w%d v%d' % (n, n))
        if len(cols) > 4:
            del cols[1], text[1]
    return lines


def strip(l):
    return l[:len(l) - len(l.lstrip(' \t'))], l.lstrip(' \t')


class Model(object):
    def __init__(self, v, lines, nested=False):
        self.v, self.errors, self.nested = v, 0, nested
        self.root = []
        self.out = [self.root]      # where blocks go
        self.stack = []             # (mark, column of mark, column of text)
        self.last = 0               # column of the last item's mark
        i = 0
        while i < len(lines):
            if not lines[i]:
                i += 1
                continue
            i = self.block(lines, i)

    def top(self):
        return self.stack[-1] if self.stack else (None, 0, 0)

    def open_list(self, mark, c, t):
        self.stack.append((mark, c, t))
        l = ('itemizedlist' if mark == '*' else 'orderedlist', [])
        self.out[-1].append(l)
        self.out.append(l[1])

    def close_item(self):
        self.out.pop()

    def close_list(self):
        self.close_item()
        self.out.pop()
        return self.stack.pop()

    def open_item(self):
        l = []
        self.out[-1].append(l)
        self.out.append(l)

    def block(self, lines, i):
        lead, rest = strip(lines[i])
        if rest[0] in '*#':
            after = rest[1:].lstrip(' \t')
            full = lead + rest[:len(rest) - len(after)]
            c, t = column(lead), column(full)
            if not self.stack and c > 0 and not self.nested:
                return self.code(lines, i)
            if not self.stack or c > self.last:
                self.open_list(rest[0], c, t)
            else:
                if c < self.last:
                    while self.stack and c < self.top()[1]:
                        self.close_list()
                if self.stack:
                    self.close_item()
                else:
                    self.open_list(rest[0], c, t)
            self.last = c
            if rest[0] != self.top()[0]:
                self.errors += 1
            self.open_item()
            words = after.split()
            i += 1
            while i < len(lines) and lines[i] and strip(lines[i])[1][0] not in '*#':
                words += lines[i].split()
                i += 1
            self.out[-1].append(('para', words))
            return i
        c = column(lead)
        if self.v >= 106:
            if c > self.top()[2] and (self.stack or not self.nested):
                self.errors += self.v == 106 and bool(self.stack)    # nothing but items in lists yet
                return self.code(lines, i)
            while self.stack and c < self.top()[1]:
                self.close_list()
                self.last = self.top()[1]
            if self.stack and c == self.top()[1]:
                outer = self.stack[-2] if len(self.stack) > 1 else (None, 0, 0)
                if c <= outer[2]:
                    self.close_list()
                    self.last = self.top()[1]
            if self.v == 106 and self.stack:
                self.errors += 1
        else:
            while self.stack:
                self.close_list()
            if c:
                return self.code(lines, i)
        words = []
        while i < len(lines) and lines[i] and not (words and self.stack and strip(lines[i])[1][0] in '*#'):
            words += lines[i].split()
            i += 1
        self.out[-1].append(('para', words))
        return i

    def code(self, lines, i):
        words = []
        while i < len(lines):
            j = i
            while j < len(lines) and not lines[j]:
                j += 1
            if j == len(lines) or column(strip(lines[j])[0]) <= self.top()[2]:
                break
            words += lines[j].split()
            i = j + 1
        self.out[-1].append(('code', words))
        return i


def actual(e):
    """The tree of the output"""
    res = []
    for c in e:
        if c.tag in ('para', 'simpara'):
            # (lists can be within a paragraph)
            words = (c.text or '').split()
            inner = []
            for x in c:
                inner.append(x)
            if words:
                res.append(('para', words))
            if inner:
                res += actual(c)
            for x in c:
                if (x.tail or '').strip():
                    res.append(('tail', x.tail.split()))
        elif c.tag in ('itemizedlist', 'orderedlist'):
            res.append((c.tag, [actual(x) for x in c]))
        elif c.tag == 'programlisting':
            res.append(('code', ''.join(c.itertext()).split()))
        elif c.tag not in ('title', 'articleinfo', 'info'):
            res.append((c.tag, []))
    return res
