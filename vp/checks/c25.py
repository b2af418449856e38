"""C25: omitting links or indentation changes nothing but links or indentation."""
from .common import (after_padding, deep, Check, G, M, Part, Reject, Violation, build_text, ctx, lines_ok, mixtext, same, show, simple, text_of, toc_lines, T)
from .c15 import cli_args


def run(case):
    o = dict(case['opts'])
    if not lines_ok(case['lines']):
        raise Reject()
    if not o.get('keep_header_levels', 3) or o.get('skip_lines', 0) < 0:
        raise Reject()
    for k in ('no_links', 'no_indentation'):
        o.pop(k, None)
    text = text_of(case)
    p = ctx().write(text)
    nl = o.get('newline_string', '\n')
    full = T.build(p, **o)
    flat = T.build(p, **dict(o, no_indentation=True))
    bare = T.build(p, **dict(o, no_links=True))
    both = T.build(p, **dict(o, no_links=True, no_indentation=True))
    lines = M.split_lines(text)[o.get('skip_lines', 0):]
    heads = [h for h in M.headings(lines, o['parser']) if h[1] <= o.get('keep_header_levels', 3)]
    # Without either there is nothing left that could fail.
    same(both[0], 'ok', 'outcome without links and indentation')
    got = toc_lines(both[1], nl)
    same(len(got), len(heads), 'number of entries without links')
    for line, h in zip(got, heads):
        if not line.endswith(' ' + h[2]):
            raise Violation('entry without a link: got %r for the heading text %r' % (line, h[2]))
    if full[0] == 'ok':
        same(flat[0], 'ok', 'outcome without indentation, %r' % o)
        same(flat[1], ''.join(x.lstrip(' ') + nl for x in toc_lines(full[1], nl)), 'TOC without indentation, %r' % o)
        same(bare[0], 'ok', 'outcome without links, %r' % o)
        want = []
        for x, h in zip(toc_lines(full[1], nl), heads):
            i = x.index('[')
            want.append(x[:i] + h[2])
        same(toc_lines(bare[1], nl), want, 'TOC without links, %r' % o)
    else:
        if full[1] == 'TocDoesNotRenderAsCoherentList':
            # Links have nothing to do with it.
            same(bare, full, 'outcome without links, %r' % o)
        elif full[1].startswith('Github') and 'Label' in full[1] and flat[0] == 'ok':
            raise Violation('the label error %s disappears without indentation' % full[1])
    if bare[0] == 'ok':
        same(both[1], ''.join(x.lstrip(' ') + nl for x in toc_lines(bare[1], nl)), 'TOC without links and indentation, %r' % o)
        # Whether an entry is a link does not matter for where it is.
        if full[0] == 'exc' and full[1] == 'TocDoesNotRenderAsCoherentList':
            raise Violation('incoherent with links only')
    if case.get('cli'):
        for extra, want in ((['-i'], flat), (['-l'], bare), (['-l', '-i'], both)):
            oo = dict(o)
            oo.pop('no_list_coherence', None)
            if o.get('no_list_coherence') and '-i' not in extra:
                extra = extra + ['-c']
            r = T.cli(cli_args(oo, M.MARKER, extra) + [p])
            if want[0] == 'ok':
                same(r[:2], (0, want[1]), 'command with %r, %r' % (extra, oo))
            else:
                same(r[:2], (1, ''), 'command with %r, %r' % (extra, oo))
    return len(heads) > 1


def heading_text(rng):
    p = rng.random()
    if p < 0.45:
        return mixtext(rng)
    if p < 0.7:
        return G.brackets(rng)
    if p < 0.8:
        return simple(rng) + rng.choice(['\\', '\\\\', ' \\', '\\\\\\', ']', '[', '](#x)'])
    if p < 0.88:
        return rng.choice(['', ' ', '\t', '\u00a0', '\x0b', '#', '\\'])
    if p < 0.93:
        return 'y' * rng.choice((998, 999, 1000, 1001, 3000))
    return simple(rng)


def gen(rng):
    o = G.options(rng)
    lines = G.document(rng, heading_text, levels=rng.choice(['any', 'coherent', 'coherent', 'coherent']), parser=o['parser'])
    if rng.random() < 0.5:
        # mostly valid labels
        lines = [x for x in lines if len(x) < 900 and x.strip(' \t\x0b#')]
    if rng.random() < 0.15:
        o['skip_lines'] = rng.randint(0, 5)
    closers = ('.', ')') if o['parser'] != 'redcarpet' else ('.',)
    cli = rng.random() < 0.1
    if cli and o.get('ordered') and o.get('list_marker') not in closers:
        o['list_marker'] = '.'
    if cli and o.get('constant_ordered_list') and o.get('list_marker') in ('+', '*'):
        o.pop('list_marker')
        o.pop('ordered', None)
    return {'lines': lines, 'opts': o, 'eol': rng.choice(['\n', '\n', '\r\n', '\r']), 'final': rng.random() < 0.8, 'cli': cli}


def enum_small(tier):
    import itertools
    k = 0
    for n in range(1, 4 if tier == 'quick' else 5):
        for combo in itertools.product(['# a', '## b [c]', '### a\\', '# ', '###### d'], repeat=n):
            for p in M.ALL:
                k += 1
                yield {'lines': list(combo), 'opts': [{'parser': p, 'keep_header_levels': 6}, {'parser': p, 'ordered': True, 'list_marker': '.'}][k % 2]}


CHECK = Check('C25', 'documents with bracketed, escaped, empty, overlong and ordinary heading texts, all list options; the four combinations of '
              'links and indentation are compared with each other; non-trivial: at least two entries', [
                  Part('small', run, enum=enum_small, rule='every document of up to 3 (4) of five headings'),
                  Part('random', run, gen, quick=24000),
                  Part('deep', run, deep(gen), quick=16, thorough=400, rule='the same after tens of thousands of other lines'),
                  Part('long', run, after_padding(gen), quick=80, thorough=3000, rule='the same after hundreds or thousands of other lines'),
              ], [])
