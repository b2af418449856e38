"""C13: skipping n lines equals building the TOC of the document without them."""
from .common import (far, padding, Check, G, M, Part, Reject, Violation, build_text, ctx, eol_choice, lines_ok, mixtext, same, show, simple, text_of, T)
from .c01 import gen_long


def split_keep(text):
    """Lines with their endings."""
    out = []
    i = 0
    while i < len(text):
        j = i
        while j < len(text) and text[j] not in '\r\n':
            j += 1
        if j < len(text):
            j += 2 if text[j:j + 2] == '\r\n' else 1
        out.append(text[i:j])
        i = j
    return out


def run(case):
    if not lines_ok(case['lines']):
        raise Reject()
    text = text_of(case)
    parts = split_keep(text)
    opts = dict(case['opts'])
    hit = False
    for n in case['skips']:
        if n < 0:
            raise Reject()
        rest = ''.join(parts[n:])
        a = build_text(text, skip_lines=n, **opts)
        b = build_text(rest, name='rest.md', **opts)
        same(a, b, '%r, skipping %d of %d lines' % (opts, n, len(parts)))
        if n >= len(parts):
            same(a, ('ok', ''), 'skipping everything')
        if case.get('stdin'):
            same(T.with_stdin(text, T.build, '-', skip_lines=n, **opts), b, '%r, standard input, skipping %d' % (opts, n))
        hit = hit or (0 < n and M.headings(M.split_lines(''.join(parts[:n])), opts['parser']) != []
                      and M.headings(M.split_lines(rest), opts['parser']) != [])
    if case.get('cli'):
        n = case['skips'][0]
        p = ctx().write(text)
        q = ctx().write(''.join(parts[n:]), 'rest.md')
        o = ['-c'] if opts.get('no_list_coherence') else []
        same(T.cli(o + ['-s', str(n), opts['parser'], p])[:2], T.cli(o + [opts['parser'], q])[:2], 'command with -s %d' % n)
        same(T.cli(o + ['--skip-lines', str(n), opts['parser'], p, p])[:2], T.cli(o + [opts['parser'], q, q])[:2], 'command with --skip-lines %d' % n)
    return hit


def run_negative(case):
    n = case['n']
    if not n < 0:
        raise Reject()
    p = ctx().write(text_of(case))
    try:
        r = T.api.build_toc(p, skip_lines=n, parser=case['parser'])
    except ValueError:
        code = T.cli(['--skip-lines=%d' % n, case['parser'], p])
        same(code[0] in (1, 2) and code[1] == '', True, 'command with a negative number: %r' % (code,))
        return True
    raise Violation('skip_lines=%d returned %s' % (n, show(r)))


def gen(rng):
    o = G.options(rng)
    o.pop('newline_string', None)
    if rng.random() < 0.6:
        o['no_list_coherence'] = True
    p = rng.random()
    if p < 0.7:
        lines = G.document(rng, text=rng.choice([simple, mixtext, lambda r: r.choice(['a', 'b'])]), parser=o['parser'], typical=10)
    else:
        # Front matter.
        lines = ['---'] + [rng.choice(['title: x', '# a comment', 'a: b', '```', '']) for _ in range(rng.randint(0, 6))] + ['---']
        lines += G.document(rng, text=simple, parser=o['parser'])
    n = len(lines)
    skips = [rng.randint(0, max(1, n)) for _ in range(2)] + [rng.choice((0, 1, n - 1, n, n + 1, 10 * n + 7, 2, 3))]
    if rng.random() < 0.1:
        skips.append(G.mined_int(rng, 0, 5000) or 1)
    return {'lines': lines, 'eol': eol_choice(rng, n), 'final': rng.random() < 0.8, 'opts': o, 'skips': [max(0, s) for s in skips],
            'stdin': rng.random() < 0.3, 'cli': rng.random() < 0.08}


def gen_big(rng):
    c = gen_long(rng)
    n = len(c['lines'])
    return {'lines': c['lines'], 'eol': c['eol'], 'final': c['final'],
            'opts': {'parser': c['parser'], 'no_list_coherence': True, 'keep_header_levels': 6, 'no_links': True},
            'skips': [rng.randint(0, n), n - rng.randint(0, 3)], 'stdin': rng.random() < 0.3}


def gen_far(rng):
    """Thousands of lines to skip."""
    c = gen(rng)
    n = len(c['lines'])
    c['lines'] = padding(rng, c['opts']['parser'], 1, rng.choice((None, None, 11000))) + c['lines']
    k = len(c['lines'])
    c['skips'] = [k - rng.randint(0, n + 2), rng.choice((k - n, far(rng), far(rng, 1, 12000), k + 1, 100000))]
    c['cli'] = c['stdin'] = False
    return c


def gen_negative(rng):
    return {'lines': G.document(rng, text=simple), 'n': -rng.choice((1, 1, 2, 3, 10, 10**6)), 'parser': G.parser_of(rng)}


def run_number(case):
    """n lines, of which the last is a heading, and two more headings."""
    n = case['n']
    if n < 1:
        raise Reject()
    text = '\n' * (n - 1) + '# a\n# b\n# a\n'
    p = ctx().write(text)
    for d, want in ((-1, ['a#a', 'b#b', 'a#a-1']), (0, ['b#b', 'a#a']), (1, ['a#a']), (2, []), (3, [])):
        want = ''.join('- [%s](#%s)\n' % tuple(x.split('#')) for x in want)
        if case['how'] == 'file':
            got = T.build(p, skip_lines=n + d)
        elif case['how'] == 'stdin':
            got = T.with_stdin(text, T.build, '-', skip_lines=n + d)
        else:
            r = T.cli(['-s', str(n + d), 'github', p])
            got = ('ok', r[1]) if r[0] == 0 else r
        same(got, ('ok', want), '%d of %d lines skipped (%s)' % (n + d, n + 2, case['how']))
    return True


def enum_numbers(tier):
    numbers = [1, 2, 3] + [2 ** k for k in range(2, 18)] + [10 ** k for k in range(1, 6)]
    if tier != 'quick':
        numbers += [3 * 2 ** k for k in range(1, 17)] + list(range(200, 2000, 7))
    for n in numbers:
        for how in ('file', 'stdin', 'command'):
            yield {'n': n, 'how': how}


def enum_skips(tier):
    lines = ['# a', '```', '# a', '```', '', '## a', '# b', '# a']
    for p in M.ALL:
        for eol in ('\n', '\r\n', '\r', ['\r', '\n'], ['\n', '\r\n', '\r']):
            for final in (True, False):
                for k in range(len(lines) + 1):
                    yield {'lines': lines[:k], 'eol': eol, 'final': final, 'opts': {'parser': p, 'no_list_coherence': True},
                           'skips': list(range(k + 3)), 'stdin': True, 'cli': k % 4 == 0}


CHECK = Check('C13', 'documents and numbers of lines to skip; non-trivial: some number separates headings from other headings '
              '(for negative numbers: refused)', [
                  Part('skips', run, enum=enum_skips, rule='every prefix of a small document, every number, every line ending'),
                  Part('random', run, gen, quick=10000),
                  Part('big', run, gen_big, quick=60, thorough=3000, rule='long documents'),
                  Part('far', run, gen_far, quick=80, thorough=3000, rule='thousands of lines skipped'),
                  Part('numbers', run_number, enum=enum_numbers, rule='powers of two and ten, one less and one or two more'),
                  Part('negative', run_negative, gen_negative, quick=400, thorough=4000),
              ], ['metamorphic: no model involved'])
