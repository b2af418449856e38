"""Helpers shared by the checks."""
import re

from .. import gens as G
from .. import model as M
from .. import target as T
from ..core import Check, Part, Reject, Violation, ctx  # noqa: F401

EOLS = ('\n', '\r\n', '\r')


def show(v, n=700):
    s = repr(v)
    return s if len(s) <= n else s[:n // 2] + ' ... ' + s[-n // 2:]


def same(got, want, what):
    if got != want:
        raise Violation('%s: got %s, expected %s' % (what, show(got), show(want)))


def text_of(case):
    """The document of a case: lines joined by one ending or by a list of endings."""
    lines = case['lines']
    eol = case.get('eol', '\n')
    if isinstance(eol, str):
        return G.join(lines, eol, case.get('final', True))
    out = []
    for i, x in enumerate(lines):
        out.append(x)
        if i < len(lines) - 1 or case.get('final', True):
            out.append(eol[i % len(eol)] if eol else '\n')
    s = ''.join(out)
    return s


def lines_ok(lines):
    """Used while shrinking: a list of strings without line endings."""
    return (isinstance(lines, list)
            and all(isinstance(x, str) and '\n' not in x and '\r' not in x for x in lines))


def build_text(text, name='doc.md', **opts):
    return T.build(ctx().write(text, name), **opts)


ENTRY = re.compile(r'( *)([-+*]|[0-9]+[.)]) (.*)\Z', re.S)


def toc_lines(toc, newline='\n'):
    """Lines of a TOC; a violation if the last one does not end."""
    if toc == '':
        return []
    if not toc.endswith(newline):
        raise Violation('the TOC does not end with the newline string: %s' % show(toc))
    return toc[:-len(newline)].split(newline)


def parse_entry(line, no_links=False):
    """(indent, bullet, label, anchor)."""
    m = ENTRY.match(line)
    if not m:
        raise Violation('not a list entry: %s' % show(line))
    ind, bullet, rest = len(m.group(1)), m.group(2), m.group(3)
    if no_links:
        return ind, bullet, rest, None
    i = rest.rfind('](#')
    if not (rest.startswith('[') and rest.endswith(')') and i > 0):
        raise Violation('not a link: %s' % show(line))
    return ind, bullet, rest[1:i], rest[i + 3:-1]


def parse_toc(toc, newline='\n', no_links=False):
    return [parse_entry(x, no_links) for x in toc_lines(toc, newline)]


def mixtext(rng):
    """Any kind of heading text for which the model is defined."""
    p = rng.random()
    if p < 0.32:
        t = G.plain(rng)
    elif p < 0.4:
        t = G.idioms(rng)
        if re.search(r'\?\?>|\]\]\]>', t) or t.count('<') > 1 and M.HTML.search(M.strip_html(t, 'cmark')):
            t = t.replace('<', '')
    elif p < 0.6:
        t = G.no_html(G.emph(rng))
    elif p < 0.75:
        t = G.brackets(rng)
    elif p < 0.85:
        t = htmltext(rng)
    elif p < 0.97:
        t = G.soup(rng).replace('<', '')
    else:
        t = 'long ' + 'x' * (G.mined_int(rng, 900, 1100) or rng.randint(985, 1005))
    t = G.clean(t)
    return t.replace('`', '') if M.code_span_trap(t) else t


def htmltext(rng):
    """Plain text with well-formed inline HTML in between."""
    out = []
    for _ in range(rng.randint(1, 4)):
        out.append(G.plain(rng, 3))
        if G.chance(rng, 0.8):
            out.append(G.html_piece(rng))
    return ''.join(out)


def simple(rng):
    """Never empty, no markup, no blanks at the ends."""
    return ' '.join(G.word(rng) for _ in range(rng.randint(1, 3)))


def eol_choice(rng, n):
    p = rng.random()
    if p < 0.55:
        return '\n'
    if p < 0.7:
        return '\r\n'
    if p < 0.8:
        return '\r'
    return [rng.choice(EOLS) for _ in range(max(1, min(n, 12)))]


def fix_mixed(case):
    """In a mixed document a CR followed by an LF of an empty line is one ending: the
    lines are then those that the text has, not those of the case."""
    return M.split_lines(text_of(case))


def far(rng, lo=300, hi=9000):
    """How much may come before the part of a document that matters."""
    return G.mined_int(rng, lo, hi) or rng.choice((300, 600, 1100, 2100, 4200, 5200))


def padding(rng, parser, level, n=None):
    """Lines that leave the state of a reader as it was: every fence in them is closed,
    and all headings have the given level."""
    n = n or far(rng)
    kind = rng.randrange(7)
    h = '#' * level + ' '
    if kind == 0:
        out = [h + 'same'] * n
    elif kind == 1:
        out = [h + 'h %d' % i for i in range(n)]
    elif kind == 2:
        out = ['text %d' % i for i in range(n)]
    elif kind == 3:
        out = [''] * n
    elif kind == 4:
        # The inside of the blocks is a paragraph to redcarpet, which knows no fences.
        out = [rng.choice(['```', '~~~', '````', '```']) for _ in range(n // 3)]
        out = [y for x in out for y in (x, 'code', x)]
    elif kind == 5:
        out = [h + 'h %d' % (i // 10) if i % 10 == 0 else rng.choice(['', 'text', '- a', '> b', '#x', '    # c']) for i in range(n)]
    else:
        out = ['x' * rng.choice((0, 10, 70, 200)) + 'y' for _ in range(n)]
    return out


def deep(gen, key='lines', top=110000):
    """The cases of ``gen``, but their document comes after tens of thousands of lines."""
    def g(rng):
        c = gen(rng)
        n = G.mined_int(rng, 9000, top) or min(top, rng.choice((10005, 10005, 16400, 32800, 65600, 65600, 100010)))
        c[key] = [rng.choice(('', 'x'))] * n + c[key]
        return c
    return g


def after_padding(gen, key='lines', parser=None):
    """The cases of ``gen``, but their document comes after hundreds or thousands of lines."""
    def g(rng):
        c = gen(rng)
        p = parser or c.get('parser') or c.get('opts', {}).get('parser') or 'github'
        heads = M.headings(c[key], p)
        c[key] = padding(rng, p, heads[0][1] if heads else 1) + c[key]
        return c
    return g
