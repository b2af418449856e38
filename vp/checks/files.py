"""Generators of files with TOC markers."""
from .common import G, M, simple

MARKERS = ['<!--TOC-->'] * 6 + ['[](TOC)', '<!-- toc -->', '[TOC]', 'TOC', '%%toc%%', '<!--TOC-->x', '[[_TOC_]]', '.*', '<!--é-->', '+++',
                                 '[TOC...', 'Contents:', '== toc ==', '(toc)', '*[TOC]*', 'x', 'ToC', '<!--' + 'toc ' * 80 + '-->', 'Straße', '\\toc', '$toc', '^a|b$', '{toc}']


def marker_of(rng):
    return rng.choice(MARKERS)


def toc_like(rng):
    """Lines of some list that md-toc could have written."""
    n = G.size(rng, 1, 60, 3)
    style = rng.choice(['-', '+', '*', '.', ')'])
    start = 1 if rng.random() < 0.8 else rng.choice((2, 9, 10, 99, 100, 1000, 12345, 999999, 12345678, rng.randrange(10**8)))
    out = []
    ind = 0
    for i in range(n):
        b = style if style in '-+*' else '%d%s' % (start + i, style)
        t = simple(rng)
        body = '[%s](#%s)' % (t, M.slugify(t, 'github')) if rng.random() < 0.8 else t
        out.append(' ' * ind + b + ' ' + body)
        ind = rng.choice((0, 2, 4, ind, ind)) if i else rng.choice((0, 2))
    if rng.random() < 0.1:
        out[0] = ' ' * rng.randint(1, 3) + out[0]
    return out


PROSE = ['some prose', 'a line', '# a heading', '## another', '> quote', '| a | b |', '-no list', '1.no', '1234', '**bold** text', '-', '*',
         '    code', '\tcode', '$ md_toc', '<div>', '---', '- - -']
# Indented code that looks like a list.
CODE = ['\t- code', '    - code', '\t1. code', '     - [a](#a)', '\u00a0- x', '\u2003* x', ' \t- x']


def clear(region):
    """Is it beyond doubt what this region is?  blank lines only; one blank line, a list
    and one blank line; or text whose second line is no list entry."""
    if ''.join(region).strip(' \t') == '':
        return True
    rest = [x for x in region if x.strip()]
    if not rest:
        return False
    if M.LISTY.match(rest[0]):
        return len(region) >= 3 and region[0] == '' and region[1] == rest[0] and region[-1] == ''
    return not M.region_is_toc(region)


def region(rng):
    p = rng.random()
    if p < 0.12:
        r = []
    elif p < 0.3:
        r = [rng.choice(['', '', ' ', '\t', '  ']) for _ in range(rng.randint(1, 4))]
    elif p < 0.65:
        r = [''] + toc_like(rng) + ['']
    elif p < 0.85:
        r = [''] + [rng.choice(PROSE[:10] if rng.random() < 0.8 else CODE)] + [rng.choice(PROSE + ['- a', '']) for _ in range(rng.randint(0, 4))] + ['']
    else:
        r = [rng.choice(PROSE[:10])] + [rng.choice(PROSE[:8] + ['']) for _ in range(rng.randint(0, 3))]
    return r if clear(r) else ['text'] + [''] * (len(r) - 1)


def around(rng, parser='github', n=None):
    out = []
    for _ in range(n if n is not None else G.size(rng, 0, 40, 3)):
        p = rng.random()
        if p < 0.35:
            out.append('#' * rng.randint(1, 3) + ' ' + simple(rng))
        elif p < 0.55:
            out.append('')
        elif p < 0.7:
            out.append(rng.choice(PROSE))
        elif p < 0.8:
            out.append(G.prose_line(rng))
        elif p < 0.85:
            out.append(rng.choice(['```', '~~~']))
        else:
            out.append(rng.choice(['- item', '1. item', '  - [a](#a)', 'x\x0by', 'a\x0cb', '\x85', 'u\u2028v', 'trail  ', '\t', '日本 é', '\ufeff']))
    return [G.clean(x) for x in out]


def near_marker(rng, m):
    if rng.random() < 0.5:
        return rng.choice([m.rstrip('.:!?)]}>-*=+%_$'), m.lstrip('.:!?([{<-*=+%_$^\\#'), m.strip(m[-1]), m.strip(m[0]), m[1:], m[:-1], m.upper(), m.lower(), m.swapcase(), m.title(),
                           m + m[-1], m[0] + m, m + '.', '.' + m, m.replace(' ', ''), m.replace(' ', '  '), m[::-1], '\\' + m, m.casefold(), '\ufeff' + m, m[:len(m) // 2], '\u200b' + m]).strip() or 'text'
    return rng.choice(['x ' + m, m + ' x', m + m, '`' + m + '`', m[:-1], '> ' + m, '- ' + m, m.lower() + '.', '<!-- x' + m + '-->'])


def marker_line(rng, m):
    return rng.choice([m] * 8 + [' ' + m, m + ' ', '\t' + m, m + '\t', '   ' + m + '  ', '    ' + m])


def file_lines(rng, m, parser='github'):
    """Lines of a file with 0 to 5 markers."""
    k = rng.choice((0, 1, 1, 1, 2, 2, 2, 2, 3, 3, 4, 5)) if rng.random() < 0.95 else rng.randint(6, 40)
    few = k > 5 and rng.random() < 0.7
    out = around(rng, parser)
    for i in range(k):
        out.append(marker_line(rng, m))
        if i < k - 1:
            out += region(rng) if not few or i >= k - 3 else [rng.choice(PROSE[:10])]
    out += around(rng, parser)
    if rng.random() < 0.15:
        out.insert(rng.randrange(len(out) + 1), near_marker(rng, m))
    # What an inserted near-marker did to a region must be clear as well.
    pos = [i for i, x in enumerate(out) if x.strip() == m.strip()]
    for a, b in zip(pos, pos[1:]):
        if not clear(out[a + 1:b]):
            return [x for x in out if m not in x] + [m]
    return out
