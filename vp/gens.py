"""Seeded generators of texts, lines, documents and options."""
import unicodedata

from . import model as M
from . import target as T

LOWER = 'abcdefghijklmnopqrstuvwxyz'
ALNUM = LOWER + LOWER.upper() + '0123456789'
WORDS = ['foo', 'bar', 'Foo', 'BAR', 'a', 'B', 'x1', '42', 'the', 'Introduction', 'FAQ', 'setup',
         'C', 'v2', 'été', 'Straße', 'Ünïcode', 'привет', 'МИР', '日本語', 'ΣΑΣ', 'İstanbul', 'ŉ',
         'ﬁne', 'ǅ', 'Ⅻ', '²', '½', '٣', 'नमस्ते', 'e\u0301', '\U0001d400x', 'ªº']
UPUNCT = '«»—–…“”‘’·¿¡、。！？「」§¶†‰′※'
USYM = '€£©®°±×÷→∀∑≠☃✓😀👍🏽'
USPACE = '\u00a0\u2003\u2009\u202f\u3000\u1680'
ODD = '\x0b\x0c\x1c\x1d\x1e\x1f\x85\u2028\u2029\ufeff\u200b\u200d\u00ad\x7f\x01\x1b\u0300\u0345\ufffd'
APUNCT = '!"#$%&\'()*+,-./:;<=>?@[\\]^_`{|}~'


def chance(rng, p):
    return rng.random() < p


def mined_int(rng, lo, hi):
    """An integer near a literal of the source, or None."""
    pool = T.INTS
    if T.NEW_INTS and chance(rng, 0.7):
        pool = T.NEW_INTS
    for _ in range(6):
        if not pool:
            return None
        n = rng.choice(pool) + rng.choice((-1, 0, 0, 1, 1, 2))
        if lo <= n <= hi:
            return n
    return None


def size(rng, lo, hi, typical):
    """A size in [lo, hi], usually around typical, sometimes near a source literal or large."""
    p = rng.random()
    if p < (0.3 if T.NEW_INTS else 0.12):
        n = mined_int(rng, lo, hi)
        if n is not None:
            return n
    if p > 0.97:
        return rng.randint(lo, hi)
    n = lo + int(rng.expovariate(1.0 / max(1, typical)))
    return min(n, hi)


WIDTHS = sorted({k + d for k in [1 << i for i in range(5, 17)] + [50, 80, 100, 200, 500, 1000, 2000, 3000, 5000, 10000, 20000, 50000] for d in (-1, 0, 1)} | {66000})


def widths(hi, lo=0):
    """Lengths around the powers of two and the round numbers, and around the new literals of the source."""
    near = {n + d for n in T.NEW_INTS if isinstance(n, int) for d in (-1, 0, 1, 2)}
    return sorted(n for n in set(WIDTHS) | near if lo <= n <= hi)


def mined_str(rng):
    if T.NEW_STRS and chance(rng, 0.7):
        return rng.choice(T.NEW_STRS)
    return rng.choice(T.STRS) if T.STRS else ''


def any_char(rng):
    """Any assigned or unassigned code point except surrogates and line endings."""
    while True:
        p = rng.random()
        if p < 0.35:
            c = rng.randint(0x20, 0x7e)
        elif p < 0.55:
            c = rng.randint(0x80, 0x24f)
        elif p < 0.85:
            c = rng.randint(0x250, 0xffff)
        else:
            c = rng.randint(0x10000, 0x10ffff)
        if 0xd800 <= c <= 0xdfff or c in (10, 13):
            continue
        return chr(c)


def word(rng):
    p = rng.random()
    if p < 0.35:
        return rng.choice(WORDS)
    if p < 0.8:
        return ''.join(rng.choice(ALNUM) for _ in range(rng.randint(1, 7)))
    w = ''.join(any_char(rng) for _ in range(rng.randint(1, 4)))
    return ''.join(c for c in w if c.isalnum()) or 'w'


def clean(s):
    return s.replace('\n', '').replace('\r', '')


# What authors write in headings and what other tools give a meaning to.
IDIOMS = ['&amp;', '&nbsp;', '&#35;', '&copy;', '&lt;b&gt;', ':smile:', ':+1:', '[^1]', '[^note]', '{#custom-id}', '{.unnumbered}', '{: .no_toc }', '{-}', '@user', '#123', 'GH-1',
          'http://a.b/c?d=e&f#g', 'https://www.example.org', 'www.a.b', 'a@b.c', '~~x~~', '==x==', '++x++', '^2^', '~2~', '$x^2$', '$$y$$', 'C++', 'C#', '.NET', 'v1.2.3', '1.', '1)', '100%',
          "don't", 'it\u2019s', '(c)', '(tm)', '--', '---', '...', '+1', 'a/b', 'a_b_c', 'Table of Contents', 'Contents', 'TOC', '[TOC]', '[[_TOC_]]', '[x]', '[ ]', '[link](#x)', '[a](b "c")',
          '![i](j.png)', '[ref][1]', '[wiki|page]', '[[wiki]]', '`code`', '``a`b``', '<!-- omit in toc -->', '<!-- omit from toc -->', '<!-- no toc -->', '<!-- {#id} -->', '<br>', '<br/>',
          '<a name="x"></a>', '<a id="y">', '<kbd>', '</kbd>', '<sup>2</sup>', '<!---->', '{{ x }}', '{% y %}', '%20', '%', '\\n', '\\#', '\\*', '|', '||', ':', '::', 'TODO:', 'No.', '"q"', '\u201cq\u201d',
          '\u00a0', '\u200b', '\ufe0f', '\u2764\ufe0f', '\U0001f468\u200d\U0001f469', '\U0001f1ee\U0001f1f9', 'e\u0301', '\u0130', '\u1e9e', '\ufb01', '\u01c5', '\u2160', '1\u20e3', '#', '##', 'CAPS', 'snake_case', 'kebab-case',
          '--option', '-o', '/path/to', 'C:\\dir', '~/x', '$HOME', 'f(x)', 'a[0]', 'a->b', 'a => b', 'x = y', 'x<y', 'a & b', 'a && b', '1/2', '1,000', '2024-01-02', '12:30', '\u20ac5', 'R&D', "'"]
IDIOM_LINES = ['===', '---', '***', '___', '<!--', '-->', '<div>', '</div>', '<pre>', '</pre>', '<details>', '</details>', '<script>', '</script>', '<style>', '</style>', '| a | b |', '|---|---|',
               '---\ttitle: x', '[a]: #b', 'title: x', '+++', '...', '$$', ':::', '::: note', '!!! note', '[TOC]', '[[_TOC_]]', '{:toc}', '* TOC', '<!-- toc -->', '<!-- tocstop -->', '<!-- TOC -->', '<!--TOC-->',
               '<!-- START doctoc -->', '<!-- END doctoc -->', '<!-- omit in toc -->', '<!-- prettier-ignore -->', '<!-- markdownlint-disable -->', '{% raw %}', '{% endraw %}', '{% comment %}', '\\begin{x}',
               '\\end{x}', '=begin', '=end', '"""', "'''", '%%', '//', '/*', '*/', '[//]: # (x)', '[comment]: <> (x)', '> x', '>', '- x', '  - x', '1. x', '    x', '\tx', '\\', 'x  ', 'x\\', '[^1]: note',
               ': definition', '<!DOCTYPE html>', '<?php', '?>', '<![CDATA[', ']]>', '__END__', '\x0c', '\x1a', '\ufeff', '.. toctree::', '#+TITLE: x', '#region', '#endregion', '#if x', '%include']


def idioms(rng):
    out = []
    for _ in range(rng.randint(1, 4)):
        p = rng.random()
        out.append(word(rng) if p < 0.35 else rng.choice(IDIOMS) if p < 0.85 else clean(mined_str(rng)))
    return rng.choice([' ', ' ', ' ', '']).join(out)


def plain(rng, maxwords=8, forbid='*_`<>\\[]&'):
    """Text with no Markdown markup: words, blanks and punctuation outside ``forbid``."""
    out = []
    n = 1 + size(rng, 0, maxwords * 3, maxwords // 3)
    for i in range(n):
        if i:
            p = rng.random()
            if p < 0.6:
                out.append(' ')
            elif p < 0.7:
                out.append(' ' * rng.randint(2, 4))
            elif p < 0.8:
                out.append(rng.choice('-_') * rng.randint(1, 3))
            elif p < 0.9:
                out.append(''.join(rng.choice(APUNCT) for _ in range(rng.randint(1, 2))))
            elif p < 0.96:
                out.append(rng.choice(UPUNCT + USYM + USPACE))
            else:
                out.append(rng.choice(ODD + '\t\x00'))
        p = rng.random()
        if p < 0.9:
            out.append(word(rng))
        elif p < 0.96:
            out.append(any_char(rng))
        else:
            out.append(mined_str(rng))
    if chance(rng, 0.15):
        out.append(rng.choice('.!?:;,-'))
    if chance(rng, 0.04):
        out = [('%s' % ''.join(out)) * rng.randint(2, 30)]
    s = clean(''.join(out))
    # Intraword underscores are no markup; others are taken out.
    res = []
    for i, c in enumerate(s):
        if c == '_':
            if (0 < i < len(s) - 1 and (s[i - 1].isalnum() or s[i - 1] == '_')
                    and (s[i + 1].isalnum() or s[i + 1] == '_')):
                res.append(c)
            continue
        if c in forbid:
            continue
        res.append(c)
    t = ''.join(res)
    # An underscore may have become a delimiter when its neighbour was dropped.
    if M.emphasis(t):
        t = t.replace('_', '')
    return t


EMPH = ['*', '*', '**', '_', '_', '__', '***', '___', '****', 'a', 'b', 'foo', 'Bar', ' ', ' ', ' ',
        '.', ',', '!', '(', ')', '-', '"', "'", '1', '0']
EMPH_EXTRA = ['\\', '\\*', '\\_', '`', '`', '``', '```', '<http://a_b*c>', '<mailto:x_*y>', '<a_b@c.d>',
              '<x+y.z:*_*>', 'é', '«', '»', '—', '\u00a0', '\u3000', 'ß', '&amp;', '\t', '\u0100', '\x85',
              '\u2028', '¿', '·', '#', ':', '/', '~', '\u00bf', '\u00b7', '€', '😀', '\x0c', '\x0b', '\u0301',
              '&#42;', '&lowbar;', '$', '+', '=', '|', '^']


def emph(rng, n=None):
    """Emphasis-rich text without links or HTML."""
    n = n or 1 + size(rng, 0, 60, 7)
    pool = list(EMPH)
    for _ in range(rng.randint(0, 6)):
        pool.append(rng.choice(EMPH_EXTRA))
    if chance(rng, 0.3):
        pool.append(any_char(rng))
    if chance(rng, 0.2):
        pool.append(clean(mined_str(rng)))
    if chance(rng, 0.3):
        # swarm: few distinct pieces
        pool = [rng.choice(pool) for _ in range(3)] + [rng.choice('*_') * rng.randint(1, 4), 'a', ' ']
    s = ''.join(rng.choice(pool) for _ in range(n))
    return s


def no_html(s):
    """Drop every '<' that could start raw HTML, keep autolinks."""
    out = []
    i = 0
    while i < len(s):
        if s[i] == '<':
            m = M.AUTOLINK.match(s, i)
            if m:
                out.append(m.group())
                i = m.end()
                continue
            i += 1
            continue
        out.append(s[i])
        i += 1
    return ''.join(out)


BRACK = ['[', ']', '[', ']', '(', ')', '\\', '\\\\', '\\[', '\\]', '](', '](x)', '[a]', '![', 'a', 'b', 'foo', ' ',
         '#', '-', '.', '!', '"', '{', '}', '|', ':', '[a](b)', '[x][y]', '[^1]', '[ ]', '[x]']


def brackets(rng):
    n = 1 + size(rng, 0, 40, 5)
    return ''.join(rng.choice(BRACK) for _ in range(n))


SOUP = list(APUNCT) + ['**', '__', '``', '```', '~~~', '<!--', '-->', '<b>', '</b>', '<a href="', '">', '&amp;',
                       '&#x', '&#', ';', '](', ')', '[', ']', '\\', 'http://', '<http://x>', '<?', '?>', '<![CDATA[',
                       ']]>', '<!X ', 'a', 'b', 'foo', ' ', '  ', '\t', '٣', '²', '\u0100', '\xff', '\u0080', '\x00',
                       '\ufeff', '\u2028', '\x0b', '\x0c', 'x', 'X', '0', '9', '&nbsp;', '"', "'", '(', '!', '![',
                       ': ', '[a]: b', '|', '$', '{#id}', '@', '<a@b.c>', '&ThisIsNotDefined;', '\U0001f600']


def soup(rng, n=None):
    n = n or 1 + size(rng, 0, 200, 8)
    pool = SOUP
    if chance(rng, 0.4):
        pool = [rng.choice(SOUP) for _ in range(rng.randint(2, 6))]
    out = []
    for _ in range(n):
        p = rng.random()
        if p < 0.9:
            out.append(rng.choice(pool))
        elif p < 0.96:
            out.append(any_char(rng))
        else:
            out.append(mined_str(rng))
    return clean(''.join(out))


HTML_NAMES = ['b', 'i', 'em', 'span', 'a', 'br', 'img', 'h1', 'x-y', 'B', 'Kbd', 'sub', 'code', 'p', 'titlex', 'styled']


def html_piece(rng, names=None):
    """(source, kind) of one well-formed inline HTML construct."""
    ws = lambda lo=0: ''.join(rng.choice('   \t') for _ in range(max(lo, rng.choice((0, 0, 1, 2)))))  # noqa: E731
    inner = lambda bad: ''.join(c for c in soup(rng, rng.randint(0, 4)) if c not in bad)  # noqa: E731
    p = rng.random()
    name = rng.choice(names or HTML_NAMES)
    if p < 0.45:
        s = '<' + name
        for _ in range(rng.choice((0, 0, 1, 1, 2, 3, 6))):
            s += ws(1) or ' '
            s += rng.choice(['a', 'href', 'x:y', '_z', 'data-k', 'B.1', ':q'])
            q = rng.random()
            if q < 0.25:
                pass
            elif q < 0.5:
                s += ws() + '=' + ws() + '"' + inner('"<>\x00\n') + '"'
            elif q < 0.75:
                s += ws() + '=' + ws() + "'" + inner("'<>\x00\n") + "'"
            else:
                v = ''.join(c for c in word(rng) if c not in ' "\'=<>`')
                s += ws() + '=' + ws() + (v or 'v')
        if chance(rng, 0.25):
            s += (ws() or '') + '/'
            # an unquoted value would swallow the slash: put a blank before it
            if not s.endswith(' /'):
                s = s[:-1] + ' /'
        else:
            s += ws()
        return s + '>'
    if p < 0.7:
        return '</' + name + ws() + '>'
    if p < 0.85:
        body = inner('<>\x00\n').replace('--', '').strip('-')
        if chance(rng, 0.3):
            body = body + ' > ' + word(rng)
        if body.startswith('>'):
            body = ' ' + body
        while '--' in body:
            body = body.replace('--', '-')
        return '<!--' + body.strip('-') + '-->'
    if p < 0.93:
        body = inner('<>?\x00\n')
        return '<?' + body + '?>'
    if p < 0.965:
        return '<![CDATA[' + inner('<\x00\n').replace(']]>', '') + rng.choice(['', '', ']', '>', ' ]> ', '<b>']) + ']]>'
    return '<!' + rng.choice(['DOCTYPE', 'X', 'ELEMENT']) + ' ' + (inner('<>\x00\n[]') or 'y').strip() + 'z>'


# ------------------------------------------------------------------ lines

def heading_line(rng, text, level=None, parser='github'):
    """A heading for every CommonMark-family parser whose text is ``text`` (already trimmed)."""
    level = level or rng.choice((1, 1, 1, 2, 2, 2, 3, 3, 4, 5, 6))
    lead = '' if parser == 'redcarpet' else ' ' * rng.choice((0, 0, 0, 0, 1, 2, 3))
    s = lead + '#' * level + ' ' * rng.choice((1, 1, 1, 2, 5)) + text
    if chance(rng, 0.12):
        s += ' ' * rng.choice((1, 1, 3)) + '#' * rng.choice((1, level, 2, 7, 12))
        if parser != 'redcarpet':
            s += ' ' * rng.choice((0, 0, 2))
    elif chance(rng, 0.08):
        s += ' ' * rng.randint(1, 4)
    return s


NEAR = ['#', '##', '#foo', '#5 bolt', '#hashtag', '\\# foo', '\\## foo', '    # foo', '\t# foo', ' \t# foo',
        '####### foo', '######## x', '> # quoted', '- # item', '1. # item', '#\tfoo', '# ', '#  ', '# #', '## ##',
        '# # #', '## ## ##', '# foo#', '# foo #', '# foo \\#', '# foo #\\##', '### foo \\###', '# foo # bar',
        '######', '#######', ' #', '  ##', '   ###', '    ####', '#\x0bfoo', '#\x0cfoo', '#\u00a0foo', '#\u3000foo',
        '\u00a0# foo', '\ufeff# foo', '\x0c# foo', '\x0b# foo', '# foo\t#', '# foo\t', '#\t#', '#\t\tfoo', '# \tfoo',
        'foo # bar', 'foo', 'Foo\\', '===', '---', '***', '* * *', '| # | a |', '<h1>foo</h1>', '<!-- # foo -->',
        '[#foo]: # bar', '#!shebang', '#!/bin/sh', '##include', '\u2003# x', '# foo ###  ', '# ###', '###  ###',
        '#  foo  ##', '# a ## b ##', '＃ foo', '#\u200b foo']
FENCY = ['```', '~~~', '````', '~~~~', '`````', '~~~~~~', ' ```', '  ~~~', '   ```', '    ```', '\t```', '``', '~~',
         '```py', '~~~ py', '``` a`b', '~~~ a`b', '~~~ a~b', '```\t', '```  ', '~~~ \t', '``` x', '```x```', '~~~x~~~',
         '`` ` ``', '```~~~', '~~~```', ' ````', '   ~~~~', '    ~~~', '``` ~', '```` ```', '>```', '- ```', '\\```',
         '`\\``', '```\u00a0', '```\x0b', '``````````', '~~~ ```', '``` ``']


def near_line(rng):
    p = rng.random()
    if p < 0.7:
        return rng.choice(NEAR)
    n = rng.randint(1, 12)
    return ''.join(rng.choice('##  \t a\\') for _ in range(n))


def fence_line(rng):
    p = rng.random()
    if p < 0.75:
        return rng.choice(FENCY)
    c = rng.choice('`~')
    s = ' ' * rng.choice((0, 0, 0, 1, 3, 4)) + c * rng.choice((2, 3, 3, 4, 5, 8, 20))
    if chance(rng, 0.3):
        s += rng.choice([' ', '\t', ' x', c, '`', '~', 'info', ' \t '])
    return s


def prose_line(rng):
    p = rng.random()
    if p < 0.3:
        return ''
    if p < 0.6:
        return plain(rng)
    if p < 0.7:
        return ' ' * rng.randint(1, 8) + plain(rng)
    if p < 0.8:
        return rng.choice(['- ', '* ', '1. ', '> ', '    ', '\t']) + plain(rng)
    if p < 0.9:
        return soup(rng)
    return rng.choice(IDIOM_LINES) if p < 0.98 else clean(mined_str(rng))


def document(rng, text=plain, levels='any', parser='github', fences=True, near=True, maxlines=400, typical=8):
    """List of lines.  ``levels``: 'any' or 'coherent'."""
    n = size(rng, 0, maxlines, typical)
    w = {'head': rng.choice((1, 3, 6)), 'prose': rng.choice((0, 1, 2, 4)),
         'near': rng.choice((0, 0, 1, 3)) if near else 0,
         'fence': rng.choice((0, 0, 1, 2)) if fences else 0}
    kinds = [k for k, v in w.items() for _ in range(v)]
    out = []
    pool = [text(rng) for _ in range(rng.randint(1, 4))] if chance(rng, 0.4) else None
    level = rng.choice((1, 1, 1, 2, 3))
    first = None
    for _ in range(n):
        k = rng.choice(kinds)
        if k == 'head':
            if levels == 'coherent':
                if first is None:
                    first = level
                else:
                    level = max(first, min(6, level + rng.choice((1, 1, 0, 0, 0, -1, -1, -2, -3, -5))))
            else:
                level = None
            t = rng.choice(pool) if pool and chance(rng, 0.8) else text(rng)
            out.append(heading_line(rng, t, level, parser))
        elif k == 'prose':
            out.append(prose_line(rng))
        elif k == 'near':
            out.append(near_line(rng))
        else:
            out.append(fence_line(rng))
    return [clean(x) for x in out]


def join(lines, eol='\n', final=True):
    if not lines:
        return ''
    return eol.join(lines) + (eol if final else '')


def parser_of(rng, family=False):
    return rng.choice(M.FAMILY if family else M.ALL)


def options(rng, parser=None, family=False):
    """Keyword arguments for build_toc (all valid)."""
    parser = parser or parser_of(rng, family)
    o = {'parser': parser}
    p = rng.random()
    if p < 0.4:
        o['ordered'] = True
        o['list_marker'] = rng.choice(['.', ')', '-', '+', '*'] if parser != 'redcarpet' else ['.', '-', '*'])
    elif p < 0.7:
        o['list_marker'] = rng.choice('-+*')
    if chance(rng, 0.2):
        o['constant_ordered_list'] = True
        if parser == 'redcarpet' and o.get('list_marker') == ')':
            o['list_marker'] = '.'
    if chance(rng, 0.25):
        o['no_links'] = True
    if chance(rng, 0.2):
        o['no_indentation'] = True
    if chance(rng, 0.25):
        o['no_list_coherence'] = True
    if chance(rng, 0.8):
        o['keep_header_levels'] = rng.choice((1, 2, 3, 4, 5, 6, 6, 6, 6))
    if chance(rng, 0.2):
        o['newline_string'] = rng.choice(('\n', '\r', '\r\n'))
    return o


def assigned(c):
    return unicodedata.category(c) not in ('Cn', 'Cs')


# ------------------------------------------------------------------ every character

def chars(tier, size=64):
    """Lists of code points: in the quick tier every one below U+3400, every one whose
    category is rare and every one where the category changes; otherwise all of them."""
    import sys
    import unicodedata
    block, last = [], None
    for i in range(sys.maxunicode + 1):
        if 0xd800 <= i < 0xe000:
            continue
        cat = unicodedata.category(chr(i))
        if tier != 'quick' or i < 0x3400 or cat != last or cat not in ('Lo', 'Cn', 'Co', 'Mn', 'So', 'Lu', 'Ll'):
            block.append(i)
            if len(block) == size:
                yield block
                block = []
        last = cat
    if block:
        yield block


def charlist(case):
    """The characters of such a case, or None when shrinking spoiled it."""
    cs = case['chars']
    if not isinstance(cs, list) or not all(isinstance(c, int) and 0 <= c < 0x110000 and not 0xd800 <= c < 0xe000 for c in cs):
        return None
    return [chr(c) for c in cs]
