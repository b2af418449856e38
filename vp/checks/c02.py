"""C02: a line is an ATX heading exactly when the dialect's rules say so."""
import itertools

from .common import (Check, G, M, Part, Reject, Violation, build_text, ctx, mixtext, same, T)


def expected(line, keep, parser, no_links):
    """What get_atx_heading must say about one line: ('ok', (level, text, visible)) or error."""
    h = M.atx(line, parser)
    if h is None:
        return ('ok', (None, None, False))
    level, text = h
    if not no_links:
        try:
            text = M.label_checked(text, parser)
        except M.Err as e:
            return ('exc', str(e))
    return ('ok', (level, text, level <= keep))


def norm(structs):
    out = []
    for s in structs:
        out.append((s['header_type'], s['header_text_trimmed'], bool(s['visible'])))
    return out


def ask(text, keep, parser, no_links):
    r = T.call(T.api.get_atx_heading, text, keep, parser, no_links)
    return r if r[0] == 'exc' else ('ok', norm(r[1]))


def run_line(case):
    line, keep, parser = case['line'], case['keep'], case['parser']
    if '\n' in line or '\r' in line or not 1 <= keep:
        raise Reject()
    level = False
    for no_links in (False, True):
        want = expected(line, keep, parser, no_links)
        got = ask(line, keep, parser, no_links)
        same(got, want if want[0] == 'exc' else ('ok', [want[1]]),
             '%s, no_links=%s, line %r' % (parser, no_links, line))
        level = level or want[0] == 'exc' or want[1][0] is not None
    return level or '#' in line


SHAPES = ['# %sa', '#%s', '#%sa', '# a%s', '# a %s', '# a%s#', '# a %s#', '# a #%s', '# a # %s', '%s# a', ' %s# a', '##%s##', '# a%s ##', '## %s #']


def run_chars(case):
    """Every character in all the places that matter, several lines per call."""
    cs, parser = G.charlist(case), case['parser']
    if cs is None:
        raise Reject()
    for shape in case.get('shapes', SHAPES):
        if not isinstance(shape, str) or shape.count('%') != 1 or '%s' not in shape:
            raise Reject()
        lines = [shape % c for c in cs if c not in '\n\r']
        if not lines:
            continue
        for no_links in (False, True):
            want = [expected(x, 6, parser, no_links) for x in lines]
            if any(w[0] == 'exc' for w in want):
                for x, w in zip(lines, want):
                    same(ask(x, 6, parser, no_links), w if w[0] == 'exc' else ('ok', [w[1]]), '%s, no_links=%s, line %r' % (parser, no_links, x))
                continue
            got = ask('\n'.join(lines), 6, parser, no_links)
            if got[0] == 'exc' or len(got[1]) != len(lines):
                raise Violation('%s, no_links=%s, lines %r: %r' % (parser, no_links, lines, got))
            for x, g, w in zip(lines, got[1], want):
                same(g, w[1], '%s, no_links=%s, line %r' % (parser, no_links, x))
    return True


def enum_chars(tier):
    for cs in G.chars(tier):
        for p in ('github', 'cmark') if tier == 'quick' else M.FAMILY:
            yield {'chars': cs, 'parser': p}


def run_file(case):
    """The same question put to the whole tool: a document of one line."""
    line, parser = case['line'], case['parser']
    if '\n' in line or '\r' in line:
        raise Reject()
    h = M.atx(line, parser)
    fence = parser != 'redcarpet' and M.fence_open(line, parser)
    got = build_text(line + case['end'], parser=parser, no_links=True, keep_header_levels=6)
    want = '' if h is None or fence else '- ' + h[1] + '\n'
    same(got, ('ok', want), '%s, document of the line %r' % (parser, line))
    head = T.api.get_md_header(line, {}, 6, parser, True)
    if h is None:
        same(head, [None], 'get_md_header')
    else:
        same([(x['header_type'], x['text_original'], bool(x['visible'])) for x in head],
             [(h[0], h[1], True)], 'get_md_header')
    return h is not None


def run_several(case):
    """Several lines at once give the results of each alone."""
    lines, eols, parser, keep = case['lines'], case['eols'], case['parser'], case['keep']
    if any('\n' in x or '\r' in x for x in lines) or not all(
            e in ('\n', '\r', '\r\n') for e in eols) or not keep >= 1:
        raise Reject()
    text = ''
    for i, x in enumerate(lines):
        text += x + (eols[i % len(eols)] if eols and (i < len(lines) - 1 or case['final']) else
                     ('\n' if i < len(lines) - 1 else ''))
    if text == '':
        raise Reject()
    # Leading and trailing line endings do not count.
    real = M.split_lines(text)
    while real and real[0] == '':
        real.pop(0)
    while real and real[-1] == '':
        real.pop()
    real = real or ['']
    for no_links in (True, False):
        parts = []
        want = None
        for x in real:
            e = expected(x, keep, parser, no_links)
            if e[0] == 'exc':
                want = e
                break
            parts.append(e[1])
        want = want or ('ok', parts)
        same(ask(text, keep, parser, no_links), want, '%s, no_links=%s, text %r' % (parser, no_links, text))
        if want[0] == 'ok':
            alone = []
            for x in real:
                r = ask(x, keep, parser, no_links)
                alone += r[1] if r[0] == 'ok' else [r]
            same(parts, alone, 'lines one by one')
    return len([p for p in parts if p[0]]) >= 2


PARSERS = M.FAMILY

WIDE = ['# %s', '# a%s', '#%sa', '%s# a', '# a %s', '# a %s b', '# a %s#', '## b%s ##', '%s', '# \\%s', ' # a#%s ', '   ######%s']


def run_wide(case):
    """Lines of up to tens of thousands of characters."""
    shape, unit, n = case['shape'], case['unit'], case['n']
    if shape.count('%') != 1 or '%s' not in shape or n < 0 or n * len(unit) > 200000:
        raise Reject()
    return run_line({'line': shape % (unit * n), 'keep': case['keep'], 'parser': case['parser']})


def enum_wide(tier):
    k = 0
    for n in G.widths(70000):
        for shape in WIDE:
            for unit in ['a', ' ', '#', '\t', '\u00e9', 'b ', '[', '\\', ' #', '\U0001f600']:
                k += 1
                for p in (PARSERS[k % 5],) if tier == 'quick' else PARSERS:
                    yield {'shape': shape, 'unit': unit, 'n': n, 'keep': 1 + k % 7, 'parser': p}


def enum_lines(tier):
    top = 6 if tier == 'quick' else 8
    k = 0
    for n in range(0, top + 1):
        for combo in itertools.product('# \ta\\', repeat=n):
            line = ''.join(combo)
            if '#' not in line:
                continue
            k += 1
            if n <= 5:
                for p in PARSERS:
                    yield {'line': line, 'keep': 3, 'parser': p}
            else:
                yield {'line': line, 'keep': 1 + k % 6, 'parser': PARSERS[k % 5]}


def enum_shapes(tier):
    """Indentation x hashes x separator x text x closing sequence, completely."""
    k = 0
    for ind in ['', ' ', '  ', '   ', '    ', '     ', '\t', ' \t', '\x0b', '\u00a0', '\\']:
        for h in range(1, 9):
            for sep in ['', ' ', '  ', '\t', ' \t', '\t ', '\x0b', '\x0c', '\u00a0', '\u2003', '\x1f', '\x85', '      ']:
                for t in ['', 'a', 'a b', '#', 'a#', 'a\\', '\\', '[a]', '\u00a0', '\x0b', 'a ## b', '\ta\t']:
                    for c in ['', ' ', ' #', '#', ' ##########', ' # ', ' #\t', '\t#', ' \\#', ' #\\#', ' # #', '  ', '\t']:
                        k += 1
                        yield {'line': ind + '#' * h + sep + t + c, 'keep': 1 + k % 7,
                               'parser': PARSERS[(k // 3) % 5]}


def some_line(rng):
    p = rng.random()
    if p < 0.35:
        return G.clean(G.heading_line(rng, mixtext(rng)))
    if p < 0.6:
        return G.near_line(rng)
    if p < 0.7:
        return G.clean('#' * rng.randint(1, 7) + G.soup(rng))
    if p < 0.8:
        return ' ' * rng.randint(0, 5) + '#' * rng.randint(0, 7) + G.any_char(rng) + rng.choice(['', 'foo', ' #'])
    if p < 0.9:
        s = list(G.heading_line(rng, mixtext(rng)))
        for _ in range(rng.randint(1, 3)):
            s.insert(rng.randrange(len(s) + 1), rng.choice(['#', ' ', '\t', '\\', G.any_char(rng), '\u00a0', '\x0b', '\x0c']))
        return G.clean(''.join(s))
    n = G.size(rng, 0, 1100, 12)
    return ' ' * rng.randint(0, 3) + '#' * rng.randint(1, 6) + rng.choice([' ', '\t']) * max(1, n) + rng.choice(
        ['', 'a', 'a' * n, '[' * n, 'a ' * n]) + rng.choice(['', ' ', ' #']) + '#' * rng.choice((0, 0, n))


def gen_line(rng):
    return {'line': some_line(rng), 'keep': rng.choice((1, 2, 3, 4, 5, 6, 7, 100)), 'parser': G.parser_of(rng, True)}


def gen_file(rng):
    return {'line': some_line(rng), 'parser': G.parser_of(rng, True), 'end': rng.choice(['', '\n', '\r', '\r\n', '\n\n'])}


def gen_several(rng):
    n = G.size(rng, 1, 120, 4)
    return {'lines': [some_line(rng) if rng.random() < 0.7 else rng.choice(['', 'a', '# a', '###### b'])
                      for _ in range(n)],
            'eols': [rng.choice(['\n', '\n', '\r', '\r\n']) for _ in range(rng.randint(1, 4))],
            'final': rng.random() < 0.5, 'keep': rng.choice((1, 2, 3, 6, 7)), 'parser': G.parser_of(rng, True)}


CHECK = Check('C02', 'lines around the ATX heading rule; non-trivial: the line is a heading or contains a #; for '
              'several lines: at least two of them are headings', [
                  Part('lines', run_line, enum=enum_lines,
                       rule='every line of up to 6 (thorough: 8) characters over # space tab a backslash that has a #'),
                  Part('shapes', run_line, enum=enum_shapes, rule='indentation x hashes x separator x text x closing sequence'),
                  Part('chars', run_chars, enum=enum_chars, rule='every (quick: every rare or low) code point, 64 per case, in 14 places of a line'),
                  Part('wide', run_wide, enum=enum_wide, rule='lines of up to 66000 characters: 12 shapes around one repeated character, lengths around powers of two and round numbers'),
                  Part('random', run_line, gen_line, quick=260000, rule='random headings, near misses and mutated headings'),
                  Part('file', run_file, gen_file, quick=50000, rule='documents of one line through build_toc and get_md_header'),
                  Part('several', run_several, gen_several, quick=50000, rule='several lines in one call'),
              ], ['the model of the ATX rule (cross-checked with markdown-it-py in C01)'])
