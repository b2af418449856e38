"""C01: the TOC lists exactly the document's ATX headings, once each, in order."""
import itertools

from markdown_it import MarkdownIt

from .common import (deep, Check, G, M, Part, Violation, build_text, eol_choice, lines_ok, mixtext,
                     parse_toc, same, simple, text_of, toc_lines, ctx, T, Reject)

OPTS = {'keep_header_levels': 6, 'no_list_coherence': True}


def expect(text, parser, no_links):
    """Expected (label, anchor) list, or the name of an error, from the model."""
    r = M.toc(text, parser=parser, no_links=no_links, no_indentation=True, **OPTS)
    return r


def run_model(case):
    if not lines_ok(case['lines']):
        raise Reject()
    text = text_of(case)
    parser, no_links = case['parser'], case['no_links']
    want = expect(text, parser, no_links)
    got = build_text(text, parser=parser, no_links=no_links, no_indentation=True, **OPTS)
    same(got, want, 'TOC of the document')
    if want[0] == 'exc':
        return False
    # The same entries with indentation.
    got2 = build_text(text, parser=parser, no_links=no_links, **OPTS)
    if got2[0] != 'ok':
        raise Violation('building with indentation: %r' % (got2,))
    same([x.lstrip(' ') for x in toc_lines(got2[1])], toc_lines(want[1]), 'entries with indentation')
    n = want[1].count('\n')
    return 0 < n < len(M.split_lines(text))


def gen_model(rng):
    parser = G.parser_of(rng, family=True)
    lines = G.document(rng, text=mixtext if rng.random() < 0.6 else simple, parser=parser)
    return {'lines': lines, 'eol': eol_choice(rng, len(lines)), 'final': rng.random() < 0.8,
            'parser': parser, 'no_links': rng.random() < 0.3}


ALPHA = ['# a', '## a', '   ### b', '    # a', '#a', '#', 'a', '', '```', '~~~', '````', '    ```', '``` x`', '\\# a',
         '####### a', '# a #', '> # a', '- # a', '\t# a', '---', '<!--', '-->', '#\ta', '<div>']


def enum_small(tier):
    top = 3 if tier == 'quick' else 4
    for n in range(1, top + 1):
        for combo in itertools.product(ALPHA if n < 4 else ALPHA[:14], repeat=n):
            for k, parser in enumerate(M.FAMILY if n < 3 else ('github', 'cmark')):
                yield {'lines': list(combo), 'final': bool((n + k) % 2), 'parser': parser,
                       'no_links': True}


def gen_long(rng):
    """Long documents: the file is read in blocks, lines straddle their borders."""
    parser = G.parser_of(rng, family=True)
    n = rng.choice((300, 900, 2500)) + rng.randint(0, 200)
    wide = rng.choice(['x', 'é', '日', '😀', 'xé日😀'])
    lines = []
    every = rng.choice((1, 2, 7, 40))
    for i in range(n):
        p = rng.random()
        if i % every == 0:
            lines.append('#' * rng.randint(1, 6) + ' ' + rng.choice(['h', 'é', '日', 'Foo']) + ' %d' % rng.randint(0, n))
        elif p < 0.05:
            lines.append(rng.choice(['```', '~~~', '```']))
        elif p < 0.1:
            lines.append(G.near_line(rng))
        else:
            lines.append(''.join(rng.choice(wide) for _ in range(rng.choice((0, 3, 40, 200)))))
    if rng.random() < 0.5:
        # One line that is very long, anywhere.
        lines.insert(rng.randrange(len(lines)), 'x' * rng.choice((8191, 8192, 8193, 20000, 70000)))
    return {'lines': lines, 'eol': rng.choice(['\n', '\r\n', '\r']), 'final': rng.random() < 0.5,
            'parser': parser, 'no_links': rng.random() < 0.5}


WALL = ['# ', '#', ' #', '```', '~~~', '# a ', '## ', '#\t', '\\# ', 'x# ', '# b #']


def gen_lines(rng):
    """Lines of up to 300000 characters that would look like headings or fences if they were cut anywhere."""
    n = rng.choice((1 << rng.randint(7, 18), G.mined_int(rng, 64, 300000) or 5000, rng.randint(100, 40000)))
    n += rng.randint(-3, 3)
    lines = ['# first']
    for _ in range(rng.randint(1, 3)):
        unit = rng.choice(WALL)
        lines.append(rng.choice(['x', 'x ', 'xy', '\\', '    ', '#x']) + unit * (n // len(unit) + rng.choice((0, 1, 2))))
        lines.append(rng.choice(['# a', '', '## b', 'c']))
    if rng.random() < 0.3:
        lines.append('# ' + rng.choice(['y', 'y ', 'é']) * (n // 2) + 'z')
    lines.append('# last')
    return {'lines': lines, 'eol': rng.choice(['\n', '\r\n', '\r']), 'final': rng.random() < 0.5, 'parser': G.parser_of(rng, family=True), 'no_links': True}


MD = MarkdownIt('commonmark')


def run_renderer(case):
    """Which lines are headings, according to an independent CommonMark implementation."""
    text = text_of(case)
    heads = []
    tokens = MD.parse(text)
    for i, t in enumerate(tokens):
        if t.type == 'heading_open' and t.markup.startswith('#'):
            heads.append((t.map[0], int(t.tag[1]), tokens[i + 1].content))
    if M.headings(M.split_lines(text), 'cmark') != heads:
        raise Reject()  # the renderer found some other block structure
    for parser in ('cmark', 'goldmark', 'gitlab') if '\t' in text else M.FAMILY:
        got = build_text(text, parser=parser, no_links=True, **OPTS)
        if got[0] != 'ok':
            raise Violation('%s: %r' % (parser, got))
        same([e[2] for e in parse_toc(got[1], no_links=True)], [c for _, _, c in heads],
             'entries for ' + parser)
    return 0 < len(heads)


def gen_renderer(rng):
    """Only headings, fences, blank lines and paragraphs: what the renderer calls a heading
    there depends on the ATX and fence rules alone."""
    lines = []
    for _ in range(G.size(rng, 1, 80, 8)):
        p = rng.random()
        if p < 0.45:
            lines.append(G.heading_line(rng, simple(rng)))
        elif p < 0.6:
            lines.append(rng.choice(['#', '##', '# #', '#x', '####### x', '# a#', '# a #', '\\# a', '## ##', '#  ',
                                     '# a \\#', '#\ta', '# a\t#', '# a #\t', '###\t']))
        elif p < 0.75:
            lines.append(rng.choice(['```', '~~~', '````', ' ```', '   ~~~', '``` x', '~~~ `', '``` `', '```\t', '~~~~~']))
        elif p < 0.9:
            lines.append('')
        else:
            lines.append('w' + simple(rng))
    return {'lines': lines, 'final': rng.random() < 0.8}


def run_many(case):
    """Through the function for several files and through standard input."""
    text = text_of(case)
    want = M.toc(text, parser=case['parser'], no_indentation=True, **OPTS)
    p = ctx().write(text)
    q = ctx().write('# other\n', 'other.md')
    got = T.call(T.api.build_multiple_tocs, [q, p], parser=case['parser'], no_indentation=True, **OPTS)
    if want[0] == 'exc':
        same(got, want, 'several files')
        return False
    same(got, ('ok', ['- [other](#other)\n', want[1]]), 'several files')
    got = T.with_stdin(text, T.build, '-', parser=case['parser'], no_indentation=True, **OPTS)
    same(got, want, 'standard input')
    return want[1] != ''


CHECK = Check('C01', 'documents of ATX headings, near misses, fences and prose are generated line by line; '
              'non-trivial: at least one line is a heading and at least one is not (for the renderer and '
              'standard input parts: at least one heading)', [
                  Part('small', run_model, enum=enum_small,
                       rule='every document of up to 3 lines (4 in the thorough tier) from an alphabet of tricky lines'),
                  Part('model', run_model, gen_model, quick=26000, rule='random documents against the reference model'),
                  Part('long', run_model, gen_long, quick=160, thorough=8000, rule='documents of thousands of lines and very long lines'),
                  Part('deep', run_model, deep(gen_model), quick=16, thorough=400, rule='the same after tens of thousands of other lines'),
                  Part('lines', run_model, gen_lines, quick=160, thorough=4000,
                       rule='very long lines that would look like headings or fences if cut anywhere'),
                  Part('renderer', run_renderer, gen_renderer, quick=4000, thorough=200000,
                       rule='headings found by markdown-it-py against the entries'),
                  Part('many', run_many, gen_model, quick=5000, rule='several files and standard input'),
              ], ['the reference model of ATX headings and fences (cross-checked with markdown-it-py in part renderer)'])
