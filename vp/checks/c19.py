"""C19: any input ends in a TOC, a documented error or the binary-file notice."""
from .common import (Check, G, M, Part, Reject, Violation, ctx, lines_ok, mixtext, same, show, simple, text_of, T)


def outcome(text, o):
    """The documented outcome: None or the name of the error."""
    lines = M.split_lines(text)[o.get('skip_lines', 0):]
    first = prev = 0
    for _, level, raw in M.headings(lines, o['parser']):
        if not o.get('no_links'):
            try:
                M.label_checked(raw, o['parser'])
            except M.Err as e:
                return str(e)
        if level > o.get('keep_header_levels', 3):
            continue
        first = first or level
        if (level < first or prev and level > prev + 1) and not o.get('no_indentation') and not o.get('no_list_coherence'):
            return 'TocDoesNotRenderAsCoherentList'
        prev = level
    return None


def run_doc(case):
    o = case['opts']
    if not lines_ok(case['lines']) or not o.get('keep_header_levels', 1) or o.get('skip_lines', 0) < 0:
        raise Reject()
    text = text_of(case)
    p = ctx().write(text)
    want = outcome(text, o)
    got = T.build(p, **o)
    if want is None:
        if got[0] != 'ok' or not isinstance(got[1], str):
            raise Violation('%r, %r: got %r, expected a TOC' % (text[:300], o, got))
        if got[1] and not got[1].endswith(o.get('newline_string', '\n')):
            raise Violation('not a TOC: %s' % show(got[1]))
    else:
        same(got, ('exc', want), '%r, %r' % (text[:300], o))
    # Without links and without the coherence check there is always a TOC.
    got = T.build(p, **dict(o, no_links=True, no_list_coherence=True))
    if got[0] != 'ok':
        raise Violation('%r without links and coherence: %r' % (text[:300], got))
    return want is not None or got[1] != ''


def run_funcs(case):
    """The functions on single texts: they return, and return what they say they return."""
    t, p = case['text'], case['parser']
    if '\n' in t or '\r' in t:
        raise Reject()
    results = []
    if p != 'redcarpet':
        e = T.api.remove_emphasis(t, p)
        results.append(e)
        if len(e) > len(t):
            raise Violation('remove_emphasis made %r longer: %r' % (t, e))
        h = T.api.remove_html_tags(t, p)
        results.append(h)
        if len(h) > len(t):
            raise Violation('remove_html_tags made %r longer: %r' % (t, h))
    results.append(T.api.build_anchor_link(t, {}, p))
    if any(not isinstance(x, str) for x in results):
        raise Violation('not a string: %r' % (results,))
    for no_links in (True, False):
        line = '#' * case['level'] + ' ' + t
        r = T.call(T.api.get_md_header, line, {}, 6, p, no_links)
        h = M.atx(line, p)
        want = None
        if h and not no_links:
            try:
                M.label_checked(h[1], p)
            except M.Err as e:
                want = str(e)
        if want:
            same(r, ('exc', want), 'get_md_header(%r)' % line)
        elif r[0] != 'ok' or len(r[1]) != 1 or (r[1][0] is None) != (h is None):
            raise Violation('get_md_header(%r): %r' % (line, r))
    return any(c in '*_`<[&\\' for c in t)


def run_long(case):
    """Long repetitive texts: no stack overflow, no blow-up."""
    t = (case['a'] * case['n'] + case['b'] * case['m'] + case['z'])[:case['cut']]
    return run_funcs({'text': t, 'parser': case['parser'], 'level': 1})


BAD = [b'\xff', b'\x80', b'\xc0\xaf', b'\xed\xa0\x80', b'\xf4\x90\x80\x80', b'\xc3', b'\xe2\x82', b'\xf0\x9f\x98', b'\xfe\xff', b'\xff\xfe', b'\xf8\x88\x80\x80\x80',
       b'\xe0\x80\x80', b'\x89PNG\r\n\x1a\n', b'\xbf', b'\xc3(', b'\xa0\xa1', b'\xe9t\xe9']


def run_binary(case):
    o = case['opts']
    if not lines_ok(case['lines']) or case['at'] < 0:
        raise Reject()
    data = text_of(case).encode('utf-8')
    at = min(case['at'], len(data))
    bad = BAD[case['bad'] % len(BAD)]
    data = data[:at] + bad + data[at:]
    try:
        data.decode('utf-8')
        raise Reject()
    except UnicodeDecodeError as e:
        text = data[:e.start].decode('utf-8')
    err = outcome(text, o)
    p = ctx().write(data, case['name'])
    got = T.build(p, **o)
    want = ('ok', '<!--stop reading %s: probably a binary file-->' % p)
    if err is None:
        same(got, want, 'file with invalid bytes %r at %d, %r' % (bad, at, o))
    elif got != want and got != ('exc', err):
        raise Violation('file with invalid bytes %r at %d, %r: %r' % (bad, at, o, got))
    if case.get('stdin') and err is None:
        same(T.with_stdin(data, T.build, '-', **o), ('ok', want[1].replace(p, '-', 1)), 'standard input with invalid bytes')
    if case.get('several') and err is None:
        q = ctx().write('# x\n', 'ok.md')
        one = T.build(q, **o)
        r = T.call(T.api.build_multiple_tocs, [q, p, q], **o)
        same(r, ('ok', [one[1], want[1], one[1]]), 'several files, one of them binary')
    return at > 0


def text(rng):
    p = rng.random()
    if p < 0.55:
        return G.soup(rng)
    if p < 0.75:
        return mixtext(rng)
    if p < 0.85:
        return links(rng)
    s = G.soup(rng)
    return s[:rng.randint(0, 30)] + (rng.choice(G.SOUP) * rng.randint(1, 40)) + s[-5:]


LINKY = ['[', ']', '](', ')', '(', '![', '[a]', '<', '>', '"', "'", '\\', ' ', '  ', 'a', 'b', '/u', 'http://x', '*', '_', '**', '`', ':', '[a](b)', '[a][b]', '[]', '()',
         '[a](<b>)', '[a](b "t")', "[a](b 't')", '[a](b (t))', '\t', '&amp;', '&#', '&', ';', '\\)', '\\]', '\\(', '\\ ', '^', 'é', '%20', '#', '!', '{', '}', '\x00',
         '\u00a0', '\x0b', '\x7f', '&#35;', '&#x22;', '&#X1F600;', '&nbsp;', '&copy', '&#0;', '&#1234567;', '&#x110000;', '&lt;', '&bogus;', '\\&', '<a', '/>', '<!--', '-->']


def links(rng):
    """Link and image syntax, complete and broken."""
    pool = LINKY if rng.random() < 0.6 else [rng.choice(LINKY) for _ in range(4)]
    return G.clean(''.join(rng.choice(pool) for _ in range(1 + G.size(rng, 0, 80, 8))))


def inline(rng, depth=0):
    """An inline construct made by a grammar, with everything that CommonMark allows in it."""
    w = lambda: rng.choice(['a', 'b c', 'é', '*x*', '', '_', '`', 'a.b', '٣', '½', '0'])  # noqa: E731
    sp = lambda: rng.choice(['', '', ' ', '  ', '\t', ' \t ', '\x0b'])  # noqa: E731
    inner = lambda: inline(rng, depth + 1) if depth < 2 and rng.random() < 0.4 else w()  # noqa: E731
    k = rng.randrange(9)
    if k == 0:
        dest = rng.choice([w(), '<' + w() + '>', 'a(b)c', 'a((b))', 'a\\)b', '/u?x=&amp;', '<a\\>b>', '', '(' * 33 + 'a', 'http://a.b/_c_'])
        q = rng.choice(['""', "''", '()'])
        title = rng.choice(['', '', ' ' + q[0] + inner() + q[1], sp() + q[0] + w() + rng.choice(['', '\\' + q[1], q[0]]) + q[1]])
        return rng.choice(['', '!']) + '[' + inner() + '](' + sp() + dest + title + sp() + ')'
    if k == 1:
        return rng.choice(['', '!']) + '[' + inner() + ']' + rng.choice(['[' + w() + ']', '[]', '', ': ' + w()])
    if k == 2:
        n = rng.choice((1, 1, 2, 3, 7, 8, 9, 20))
        d = rng.choice(['0123456789', '0123456789abcdefABCDEF', '٠١٢٣٩', '０１９', '²³½', '0', 'f', '९1'])
        return '&#' + rng.choice(['', 'x', 'X']) + ''.join(rng.choice(d) for _ in range(n)) + ';'
    if k == 3:
        return '&' + rng.choice(['amp', 'lt', 'nbsp', 'CounterClockwiseContourIntegral', 'copy', 'x', 'ngE', 'a' * 40, 'AMP', 'frac12', 'é', 'there4', 'fjlig']) + ';'
    if k == 4:
        return '<' + rng.choice(['http', 'mailto', 'a+b', 'x' * 33, 'MAP']) + ':' + w() + '//' + w().replace(' ', '') + '>'
    if k == 5:
        return '<' + rng.choice(['a', 'a.b+c', '*', 'é']) + '@' + rng.choice(['b', 'b.c', 'b-', 'x' * 64, 'b..c']) + '>'
    if k == 6:
        return G.html_piece(rng)
    if k == 7:
        n = rng.choice((1, 2, 3))
        return '`' * n + w() + rng.choice(['', '`', ' ']) + w() + '`' * n
    d = rng.choice(['*', '**', '_', '__', '***'])
    return d + inner() + d


def broken(rng):
    """Such constructs, cut short or changed in a few places."""
    t = ''.join(inline(rng) + rng.choice(['', '', ' ', 'a']) for _ in range(rng.randint(1, 3)))
    p = rng.random()
    if p < 0.4:
        t = t[:rng.randint(1, len(t))] if t else t
    for _ in range(rng.choice((0, 0, 1, 1, 2))):
        if t:
            i = rng.randrange(len(t))
            t = t[:i] + rng.choice(['', '', rng.choice('[]()<>"\'\\ !&;#x*_`\t-'), G.any_char(rng)]) + t[i + rng.choice((0, 1)):]
    return G.clean(t)[:500]


PLACES = ['&#%s;', '&#x%s;', '&%s;', '&a%s;', '[a](%s)', '[a](b %sc%s)', '<%s>', '<a%s>', '<ab:%s>', '<a@%s>', '[a](<%s>)', '[a][%s]', '\\%s', '[a](\\%s', '`%s`', '![%s',
          '<a b=%s>', '[a](b "%s', '&#%s', '[a]%s', '<!%s>', '<!-%s-a-->', '<?%s']


def run_chars(case):
    cs = G.charlist(case)
    if cs is None:
        raise Reject()
    for c in cs:
        if c in '\n\r':
            continue
        for shape in PLACES:
            t = shape.replace('%s', c)
            e = T.api.build_anchor_link(t, {}, case['parser'])
            if not isinstance(e, str) or len(e) > 5 * len(t):
                raise Violation('anchor of %r: %r' % (t, e))
    return True


def enum_chars(tier):
    for i, cs in enumerate(G.chars(tier)):
        yield {'chars': cs, 'parser': M.FAMILY[i % 5]}


def gen_doc(rng):
    o = G.options(rng)
    p = rng.random()
    if p < 0.5:
        lines = G.document(rng, text, levels=rng.choice(['any', 'coherent', 'coherent']), parser=o['parser'])
    elif p < 0.8:
        lines = [G.clean('#' * rng.choice((0, 1, 1, 1, 1, 2, 7)) + rng.choice(['', ' ', ' ', ' ', '\t']) + text(rng)) for _ in range(G.size(rng, 1, 30, 3))]
    else:
        lines = [''.join(G.any_char(rng) if rng.random() < 0.5 else rng.choice('# `~*_[]\\\t') for _ in range(rng.randint(0, 40)))
                 for _ in range(G.size(rng, 1, 30, 3))]
        lines = [G.clean(x) for x in lines]
    if rng.random() < 0.2:
        o['skip_lines'] = rng.choice((0, 1, 2, 100))
    return {'lines': lines, 'opts': o, 'eol': rng.choice(['\n', '\n', '\r\n', '\r']), 'final': rng.random() < 0.7}


def gen_funcs(rng):
    p = rng.random()
    t = broken(rng) if p < 0.45 else links(rng) if p < 0.65 else text(rng)
    return {'text': t, 'parser': G.parser_of(rng), 'level': rng.randint(1, 6)}


def enum_funcs(tier):
    """Every short text over the characters that mean something to the inline parser."""
    import itertools
    top = 5 if tier == 'quick' else 6
    k = 0
    for n in range(0, top + 1):
        for combo in itertools.product('*`<[]()\\!&"a', repeat=n):
            k += 1
            if n == top and tier == 'quick' and k % 4:
                continue
            yield {'text': ''.join(combo), 'parser': ('github', 'cmark')[k % 2], 'level': 1}


REPEAT = ['*', '_', '**', '`', '``', '[', ']', '(', ')', '<', '>', '\\', '!', '![', '&', '&#', '*a', '_a ', 'a*', ' *a*', '[a](', '[a][', '<a ', '<!--', '<?', '<a b="',
          '`a``', '*a_', '**a', '* ', 'a', ' ', '#', '\\*', '\\[', '[]', '[a]()', 'é', '*é', '<b>', '</b>', '"', '\t', '-', '--', '<a@', '<http:', '~~', '&amp;', '*_', '_*']


def gen_long(rng):
    return {'a': rng.choice(REPEAT), 'n': rng.choice((1, 50, 300, 700)), 'b': rng.choice(REPEAT), 'm': rng.choice((0, 50, 300, 700)), 'z': rng.choice(REPEAT + ['']),
            'cut': 1200, 'parser': G.parser_of(rng)}


def enum_long(tier):
    k = 0
    for a in REPEAT:
        for b in REPEAT if tier != 'quick' else [a, '*', ']', '`', '>', ')']:
            k += 1
            yield {'a': a, 'n': 400, 'b': b, 'm': 0 if a == b else 400, 'z': '', 'cut': 1000, 'parser': ('github', 'cmark', 'redcarpet')[k % 3]}


def enum_deep(tier):
    """One token repeated thousands of times."""
    for k, a in enumerate(REPEAT):
        for p in ('github', 'cmark', 'redcarpet') if tier != 'quick' else (('github', 'cmark')[k % 2],):
            yield {'a': a, 'n': 2500, 'b': '', 'm': 0, 'z': '', 'cut': 20000, 'parser': p}


def gen_labels(rng):
    """Labels around the limit of 999 characters, of characters of every kind."""
    o = dict(G.options(rng), no_links=False)
    lines = []
    for _ in range(rng.choice((1, 1, 2, 3))):
        n = rng.choice((996, 997, 998, 999, 999, 1000, 1001)) if rng.random() < 0.6 else rng.randint(1, 1100)
        unit = rng.choice(['a', 'é', '日', '\U0001f600', 'ab ', 'é ', 'a日', '\u0301a', '[', ']', '\\[', '\\', '&amp;', '<b>', '*a* ', '`a` ', '𝒳y', '-', 'ß', 'İ', '\x00a', 'ﬃ'])
        t = (unit * n)[:n]
        if rng.random() < 0.3:
            k = rng.randrange(n)
            t = (t[:k] + rng.choice(['[', ']', '\\', 'é', ' ', '#', '日', '\U0001f600']) + t[k:])[:n]
        lines.append(G.clean('#' * rng.choice((1, 1, 2, 6)) + ' ' + t + rng.choice(['', '', '  ', ' #', ' ##  '])))
        if rng.random() < 0.2:
            lines.append(rng.choice(['', 'text', '```']))
    return {'lines': lines, 'opts': o, 'eol': '\n', 'final': rng.random() < 0.7}


def gen_binary(rng):
    o = G.options(rng)
    o['no_list_coherence'] = True
    n = rng.choice((0, 1, 3, 10, 40, 400))
    lines = []
    for _ in range(n):
        lines.append('# ' + simple(rng) if rng.random() < 0.3 else rng.choice(['', 'text', simple(rng), '```', 'é' * rng.randint(1, 90)]))
    size = len(G.join(lines).encode())
    at = rng.choice((0, size, max(0, size - 1), rng.randint(0, size), rng.randint(0, size), 8191, 8192, 8193, 16384))
    if rng.random() < 0.3:
        o['skip_lines'] = rng.choice((1, 2, n, n + 1, n // 2))
    if rng.random() < 0.1:
        lines.insert(rng.randrange(len(lines) + 1), '#')
    return {'lines': lines, 'opts': o, 'eol': rng.choice(['\n', '\n', '\r\n', '\r']), 'final': rng.random() < 0.8, 'at': at, 'bad': rng.randrange(len(BAD)),
            'name': rng.choice(['doc.md', 'doc.md', 'é x.md', '%d.md', 'a-->b.md', 'a.txt', 'b.MD', 'c.markdown', 'd.rst', 'README', 'e.html', 'f.py', 'g.bin', 'h.md.bak']), 'stdin': rng.random() < 0.3, 'several': rng.random() < 0.3}


CHECK = Check('C19', 'documents of Markdown punctuation soup, broken links, HTML and any Unicode characters under all parsers and options, long repetitive '
              'texts, and byte strings that are not UTF-8; non-trivial: an error or a non-empty TOC; a text with inline markup; bytes after the start', [
                  Part('short', run_funcs, enum=enum_funcs, rule='every text of up to 4 (5) of 12 significant characters, a quarter of those one longer'),
                  Part('doc', run_doc, gen_doc, quick=30000, rule='whole documents; the outcome is the documented one'),
                  Part('funcs', run_funcs, gen_funcs, quick=80000, rule='the functions on single texts'),
                  Part('labels', run_doc, gen_labels, quick=2500, thorough=40000, rule='labels around 999 characters, of characters of one to four bytes'),
                  Part('chars', run_chars, enum=enum_chars, rule='every (quick: every rare or low) code point in 23 places of inline constructs'),
                  Part('repeat', run_long, enum=enum_long, rule='two repeated tokens, up to 1000 characters'),
                  Part('deep', run_long, enum=enum_deep, rule='one token, 2500 times'),
                  Part('long', run_long, gen_long, quick=600, thorough=6000, rule='long repetitive texts'),
                  Part('binary', run_binary, gen_binary, quick=8000, rule='invalid UTF-8 anywhere'),
              ], ['a case that needs more than 60 s of CPU time counts as not terminating',
                  'when a documented error lies before the invalid bytes either outcome is accepted'])
