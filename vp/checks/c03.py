"""C03: nothing inside a fenced code block ever reaches the TOC."""
import itertools

from .common import (after_padding, deep, Check, G, M, Part, Reject, Violation, build_text, eol_choice, lines_ok, same,
                     simple, text_of, T)

from .c14 import edits

OPTS = {'keep_header_levels': 6, 'no_list_coherence': True, 'no_indentation': True}


def has_fence(lines, parser):
    return any(M.fence_open(x, parser) for x in lines)


def run_doc(case):
    if not lines_ok(case['lines']):
        raise Reject()
    text, parser = text_of(case), case['parser']
    want = M.toc(text, parser=parser, **OPTS)
    same(build_text(text, parser=parser, **OPTS), want, '%s: TOC' % parser)
    if want[0] == 'ok':
        # Anchors and texts come from the same document without the blocks.
        kept = []
        fence = None
        for x in M.split_lines(text):
            if fence:
                if M.fence_close(x, fence, parser):
                    fence = None
                continue
            fence = M.fence_open(x, parser)
            if not fence:
                kept.append(x)
        same(build_text(G.join(kept), parser=parser, **OPTS), want, '%s: TOC without the code blocks' % parser)
    if case.get('stdin'):
        same(T.with_stdin(text, T.build, '-', parser=parser, **OPTS), want, '%s: TOC from standard input' % parser)
    return has_fence(case['lines'], parser)


ALPHA = ['# a', '```', '~~~', '````', '``` x', '``` `', '~~~ `', '    ```', '   ~~~', '``', '```\t', '~~~~ ', '```~', '']


def enum_docs(tier):
    top = 4 if tier == 'quick' else 5
    k = 0
    for n in range(1, top + 1):
        for combo in itertools.product(ALPHA, repeat=n):
            k += 1
            if n >= 4 and '# a' not in combo[1:]:
                continue
            ps = M.FAMILY if n <= 2 else (('github', 'cmark') if n == 3 else (M.FAMILY[k % 5],))
            for p in ps:
                yield {'lines': list(combo), 'final': bool(k % 3), 'parser': p, 'stdin': k % 4 == 0}


def inside(rng):
    """A line for the inside of a block: headings and almost closing fences."""
    p = rng.random()
    if p < 0.4:
        return G.heading_line(rng, rng.choice(['a', 'b', simple(rng)]))
    if p < 0.8:
        return G.fence_line(rng)
    return rng.choice(['', 'x', '    ', '\t', '# a', '<!--', '-->', '> ```', '- ```'])


def gen_doc(rng):
    parser = G.parser_of(rng, True)
    lines = []
    for _ in range(G.size(rng, 1, 60, 3)):
        p = rng.random()
        if p < 0.6:
            c = rng.choice('`~')
            n = rng.choice((3, 3, 3, 4, 5, 7, 15)) if rng.random() < 0.9 else G.size(rng, 3, 3000, 20)
            lines.append(' ' * rng.choice((0, 0, 0, 1, 2, 3)) + c * n + rng.choice(['', '', '', ' ', 'py', ' x y', '\t', ' ~', '~' if c == '`' else '`']))
            for _ in range(G.size(rng, 0, 40, 3)):
                lines.append(inside(rng))
            q = rng.random()
            if q < 0.7:
                lines.append(' ' * rng.choice((0, 0, 1, 3)) + c * (n + rng.choice((0, 0, 0, 1, 5))) + rng.choice(['', '', '  ', '\t', ' \t']))
            elif q < 0.85:
                lines.append(c * max(1, n - 1))
        else:
            lines.append(inside(rng))
        lines.append(G.heading_line(rng, rng.choice(['a', 'b', 'after'])))
    if rng.random() < 0.2:
        lines = lines[:rng.randint(1, len(lines))]
    return {'lines': [G.clean(x) for x in lines], 'eol': eol_choice(rng, len(lines)), 'final': rng.random() < 0.7,
            'parser': parser, 'stdin': rng.random() < 0.4}


def run_change(case):
    """Changing the inside of a block changes nothing."""
    c, n, parser = case['c'], case['n'], case['parser']
    if c not in ('`', '~') or n < 3 or not lines_ok(case['before']) or not lines_ok(case['after']):
        raise Reject()
    fence = (c, n)
    bodies = []
    for b in (case['body'], case['other']):
        if not lines_ok(b):
            raise Reject()
        bodies.append([x for x in b if not M.fence_close(x, fence, parser)])
    tocs = []
    for b in bodies:
        for indent in ('', '  '):
            doc = case['before'] + [indent + c * n + case['info']] + b + ([c * n] + case['after'] if case['closed'] else [])
            tocs.append(build_text(G.join(doc, final=case['final']), parser=parser, **OPTS))
    plain = case['before'] + ([''] + case['after'] if case['closed'] else [])
    for t in tocs:
        same(t, build_text(G.join(plain), parser=parser, **OPTS), '%s: TOC with a code block against TOC without' % parser)
    return any(M.atx(x, parser) for x in bodies[0])


def gen_change(rng):
    parser = G.parser_of(rng, True)
    c = rng.choice('`~')
    heads = lambda: [G.heading_line(rng, rng.choice(['a', 'b', simple(rng)])) if rng.random() < 0.7 else 'x'  # noqa: E731
                     for _ in range(rng.randint(0, 5))]
    body = lambda: [inside(rng) for _ in range(G.size(rng, 0, 30, 4))]  # noqa: E731
    return {'c': c, 'n': rng.choice((3, 3, 4, 6, 12)), 'info': rng.choice(['', ' ', ' py', ' a b', ' # a', ' ~']),
            'before': heads(), 'after': heads(), 'body': body(), 'other': body(), 'closed': rng.random() < 0.7,
            'final': rng.random() < 0.7, 'parser': parser}


def run_functions(case):
    """The two functions that recognise fences."""
    line, parser = case['line'], case['parser']
    if '\n' in line or '\r' in line:
        raise Reject()
    want = M.fence_open(line, parser)
    for end in ('', '\n'):
        got = T.api.is_opening_code_fence(line + end, parser)
        if got is None:
            same(None, want, '%s: is_opening_code_fence(%r)' % (parser, line + end))
        else:
            same((got.strip(' ')[0], len(got.strip(' '))), want, '%s: is_opening_code_fence(%r) returned %r' % (parser, line + end, got))
        for f in case['fences']:
            if len(f) < 3 or set(f) not in ({'`'}, {'~'}):
                raise Reject()
            same(bool(T.api.is_closing_code_fence(line + end, f, False, parser)), M.fence_close(line, (f[0], len(f)), parser),
                 '%s: is_closing_code_fence(%r, %r)' % (parser, line + end, f))
    return '``' in line or '~~' in line


def enum_functions(tier):
    top = 6 if tier == 'quick' else 8
    k = 0
    for n in range(0, top + 1):
        for combo in itertools.product('`~ \ta', repeat=n):
            k += 1
            for p in ('github', 'cmark') if n <= 5 else (M.FAMILY[k % 5],):
                yield {'line': ''.join(combo), 'parser': p, 'fences': ['```', '~~~', '````']}


def gen_functions(rng):
    line = G.fence_line(rng)
    if rng.random() < 0.4:
        s = list(line)
        s.insert(rng.randrange(len(s) + 1), rng.choice(['`', '~', ' ', '\t', G.any_char(rng), '\u00a0', '\x0b', '\x0c']))
        line = G.clean(''.join(s))
    if rng.random() < 0.1:
        line = rng.choice('`~') * G.size(rng, 1, 4000, 50) + rng.choice(['', ' ', ' a', '\t'])
    return {'line': line, 'parser': G.parser_of(rng, True),
            'fences': [rng.choice('`~') * (3 + G.size(rng, 0, 30, 1)) for _ in range(2)]}


def enum_edits(tier):
    k = 0
    for base in ['```', '~~~~', '   ```', '``` ab', '~~~ a b', '```\t', '~~~~  ', '  ````a~']:
        for v in edits(base):
            for p in (M.FAMILY[k % 2], M.FAMILY[2 + k % 3]):
                yield {'line': v, 'parser': p, 'fences': ['```', '~~~', '`````', '~~~~']}
            k += 1


WIDE = ['```%s', '~~~%s', '``` %s', '~~~ %s', '```a%s b', '~~~%s~', '```%s`', '%s```', '   ~~~~%s', '~~~%s\t', '%s']


def enum_wide(tier):
    k = 0
    for n in G.widths(70000):
        for shape in WIDE:
            for unit in ['a', ' ', '`', '~', '\t', 'é', '\u00a0', '# a']:
                k += 1
                yield {'shape': shape, 'unit': unit, 'n': n, 'parser': M.FAMILY[k % 5], 'doc': k % 4 == 0 or tier != 'quick'}


def run_wide(case):
    """Lines of up to tens of thousands of characters, as the beginning, the inside and the end of a block."""
    shape, unit, n, parser = case['shape'], case['unit'], case['n'], case['parser']
    if shape.count('%') != 1 or '%s' not in shape or n < 0 or n * len(unit) > 300000:
        raise Reject()
    line = shape % (unit * n)
    run_functions({'line': line, 'parser': parser, 'fences': ['```', '~~~~', '`' * max(3, n - 1), '~' * (n + 3)]})
    if case['doc']:
        for before in ('```', '~~~', ''):
            run_doc({'lines': [before, line, '# a', '```', '# b', '~~~', '# c'], 'parser': parser})
    return True


CHECK = Check('C03', 'documents and lines around fenced code blocks; non-trivial: the document opens a fence, the replaced '
              'code block contains a line that looks like a heading, or the line contains two fence characters', [
                  Part('docs', run_doc, enum=enum_docs, rule='every document of up to 4 (thorough: 5) lines over fences and a heading'),
                  Part('functions', run_functions, enum=enum_functions, rule='every line of up to 6 (8) characters over ` ~ space tab a'),
                  Part('edits', run_functions, enum=enum_edits, rule='fence lines with each character put in, replaced or taken away at each place'),
                  Part('wide', run_wide, enum=enum_wide, rule='lines of up to 66000 characters around one repeated character, lengths around powers of two and round numbers'),
                  Part('random functions', run_functions, gen_functions, quick=40000),
                  Part('random', run_doc, gen_doc, quick=24000, rule='random documents against the reference model'),
                  Part('deep', run_doc, deep(gen_doc), quick=24, thorough=600, rule='the same after tens of thousands of other lines'),
                  Part('long', run_doc, after_padding(gen_doc), quick=120, thorough=4000, rule='such documents after hundreds or thousands of other lines'),
                  Part('change', run_change, gen_change, quick=16000, rule='changing the content of a block never changes the TOC'),
              ], ['the model of fences (cross-checked with markdown-it-py in C01)'])
