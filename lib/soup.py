"""Documents put together from pieces of markup with little regard to what may be inside what: most are refused, those that are accepted
combine elements in ways that no grammar of documents foresees."""
import re

OPEN = ['[note ', '[note\n', '[:', '[blurb\n', '[warning ', '[*', '["', '[footnote ', '[table T\n[[', '[table\n[[a][', '[variablelist V\n[[x][',
        '[ordered_list [', '[itemized_list\n[', '[h2 ', '[heading:h%d ', '[template t%d[] ', '[template t%d[]\n', '[template b%d[x]\n',
        '[?__mac__ ', '[? no ', '[role r ', '[@http://x ', '[link s%d ', '[block ', '[pre\n', '[:\n', '[def mac%d ', '[!c++]', '[role a ',
        "[' ", '[^', '[-', '[_', '[h3:h%d ', '[table:t%d T\n[[', '[#a%d]\n[note ']
SECTION = ['[section:s%d T%d]\n', '[section T%d]\n', '[section T%d [^x] \'\'\'<a\nb="c"/>\'\'\' ]\n', '[section [include i%d.qbk]]\n']
CLOSE = [']', '\n]', ']]', ']]\n]', '\n[endsect]\n', '[endsect]', '\n\n[endsect]\n\n', ']\n\n']
OTHER = ['text ', '\n\n', '\n', '* item\n', '# item\n', '  * sub\n', '\n    code\n', '----\n', '`code`', '``code``', '\n``\ncode\n``\n', '[t%d]',
         '[b%d arg]', '[b%d [t%d]]', 'mac%d', '[include i%d.qbk]', '\n[include i%d.qbk]\n', '[#anc%d]', '[/ comment ]', '[br]', '[xinclude x.xml]',
         '/it/ ', '*bo* ', '[$x.png]', '[snip]', '\n\n[heading H%d]\n\n', '[def mac%d x]\n', '[import i%d.qbk]\n', '  text\n', '[teletype]',
         '[!teletype]', '\\n', '\\[', "'''<x/>'''", '"quote" ', '_un_ ', '[funcref x]', '[@http://y]', '[link s%d]', '\n  * a\n  * b\n\n', '\n    * c\n',
         '[import c.cpp]\n', '[c%d]', '&', '<b>', ' -- ']
CPP = '//[c0\nint a; // [*x]\n//]\n/*[c1*/ f(); /*]*/\n//[c2 /*`\n* item\n*/\n//]\n//[c3\n/*` text [note x]\n   y\n\n*/ g(); /*< c >*/\n//]\n'


def closing(o):
    if o.startswith('[section'):
        return '\n[endsect]\n'
    if o.startswith('[#'):
        return ']'
    if o.startswith('[!'):
        return ''
    return ']]]' if 'table' in o or 'variable' in o else ']]' if 'list' in o else ']'


def text(r, wild):
    out, depth = [], []
    for _ in range(r.randint(3, 30)):
        x = r.random()
        if x < .3:
            if r.random() < .15 and (wild or not [o for o in depth if not o.startswith('[section')]):
                t = '\n' + r.choice(SECTION)
            else:
                t = r.choice(OPEN)
            depth.append(t.lstrip())
        elif x < .6 and depth:
            t = closing(depth.pop())
            if r.random() < wild:
                t = r.choice(CLOSE)
        elif r.random() < wild / 4:
            t = r.choice(CLOSE)
        else:
            t = r.choice(OTHER)
        out.append(re.sub('%d', lambda m: str(r.randint(0, 3)), t))
    if r.random() >= wild / 2:
        out += [closing(o) for o in reversed(depth)]
    return ''.join(out)


def files(r):
    wild = r.choice([0, 0, 0, .05, .15])
    v = r.choice([101, 104, 105, 106, 107, 107, 107])
    fs = {'a.qbk': '[article T\n[quickbook 1.%d]\n]\n\n%s\n' % (v - 100, text(r, wild)), 'x.xml': '<x/>', 'c.cpp': CPP}
    for k in range(4):
        h = ''
        if r.random() < .4:
            h = '[article I%d\n[quickbook 1.%d]\n]\n\n' % (k, r.choice([1, 5, 6, 7]))
        elif r.random() < .4:
            h = '[quickbook 1.%d]\n' % r.choice([1, 5, 6, 7])
        fs['i%d.qbk' % k] = h + text(r, wild) + '\n'
    return v, fs
