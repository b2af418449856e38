"""C12: the level limit hides deep headings and changes nothing else."""
import itertools

from .common import (after_padding, deep, Check, G, M, Part, Reject, Violation, build_text, ctx, eol_choice, lines_ok, mixtext, parse_toc, same, show, simple,
                     text_of, toc_lines, T)


def run_doc(case):
    if not lines_ok(case['lines']):
        raise Reject()
    parser, opts = case['parser'], dict(case['opts'])
    text = text_of(case)
    heads = M.headings(M.split_lines(text), parser)
    full = build_text(text, parser=parser, keep_header_levels=6, no_indentation=True, **opts)
    want_full = M.toc(text, parser=parser, keep_header_levels=6, no_indentation=True, **opts)
    if want_full[0] != 'ok':
        raise Reject()
    if full[0] != 'ok':
        raise Violation('%s: %r' % (parser, full))
    nol = bool(opts.get('no_links'))
    entries = parse_toc(full[1], no_links=nol)
    same(len(entries), len(heads), '%s: number of entries of the full TOC' % parser)
    hidden = False
    for keep in case['keeps']:
        if keep < 1:
            raise Reject()
        got = build_text(text, parser=parser, keep_header_levels=keep, no_indentation=True, **opts)
        if got[0] != 'ok':
            raise Violation('%s, limit %d: %r' % (parser, keep, got))
        want = [e for e, h in zip(entries, heads) if h[1] <= keep]
        es = parse_toc(got[1], no_links=nol)
        same([e[2:] for e in es], [e[2:] for e in want], '%s: texts and anchors with limit %d' % (parser, keep))
        if not opts.get('ordered'):
            same([e[1] for e in es], [e[1] for e in want], '%s: markers with limit %d' % (parser, keep))
        # With indentation: what the model says.
        m = M.toc(text, parser=parser, keep_header_levels=keep, **opts)
        g = build_text(text, parser=parser, keep_header_levels=keep, **opts)
        same(g, m, '%s: indented TOC with limit %d' % (parser, keep))
        hidden = hidden or len(want) < len(entries)
    if case.get('default'):
        same(build_text(text, parser=parser, no_indentation=True, **opts),
             build_text(text, parser=parser, keep_header_levels=3, no_indentation=True, **opts), 'default limit of the API')
        p = ctx().write(text)
        if not opts:
            r = T.cli(['-i', parser, p])
            same(r[:2], (0, full[1]), 'default limit of the command')
            for keep in range(1, 7):
                r = T.cli(['-i', parser, '-l', str(keep), p])
                same(r[:2], (0, build_text(text, parser=parser, keep_header_levels=keep, no_indentation=True)[1]), 'command with -l %d' % keep)
    return hidden


def gen_doc(rng):
    parser = G.parser_of(rng)
    o = {}
    if rng.random() < 0.25:
        o['ordered'] = True
        o['list_marker'] = '.'
    elif rng.random() < 0.3:
        o['list_marker'] = rng.choice('-+*')
    if rng.random() < 0.2:
        o['no_links'] = True
    text = rng.choice([simple, simple, lambda r: r.choice(['foo', 'Foo', 'bar']), lambda r: mixtext(r)[:300].strip() or 'x'])
    lines = G.document(rng, text=text, parser=parser, levels=rng.choice(['any', 'coherent']))
    if not o.get('no_links'):
        lines = [x for x in lines if (M.atx(x, parser) or (1, 'x'))[1].strip(' \t\x0b\x0c') != '']
    return {'lines': lines, 'eol': eol_choice(rng, len(lines)), 'parser': parser, 'opts': o,
            'keeps': sorted(rng.sample((1, 2, 3, 4, 5, 6, 7, 8, 100), 2)), 'default': rng.random() < 0.1}


def enum_docs(tier):
    top = 4 if tier == 'quick' else 5
    k = 0
    for n in range(1, top + 1):
        for levels in itertools.product((1, 2, 3, 4, 6), repeat=n):
            k += 1
            for p in M.ALL if n < 3 else (M.ALL[k % 6],):
                yield {'lines': ['#' * x + ' a' for x in levels], 'parser': p, 'opts': {} if k % 2 else {'ordered': True, 'list_marker': '.'},
                       'keeps': [1, 2, 3, 4, 5, 6, 7], 'default': k % 7 == 0}


def run_multi(case):
    """The same flag in the functions that look at lines."""
    parser, keep = case['parser'], case['keep']
    if not lines_ok(case['lines']) or not case['lines'] or keep < 1:
        raise Reject()
    text = '\n'.join(case['lines'])
    if text.strip('\n') != text or text == '':
        raise Reject()
    r = T.call(T.api.get_atx_heading, text, keep, parser, True)
    full = T.call(T.api.get_atx_heading, text, 6, parser, True)
    if r[0] != 'ok' or full[0] != 'ok':
        raise Violation('%r %r' % (r, full))
    for a, b in zip(r[1], full[1]):
        same((a['header_type'], a['header_text_trimmed']), (b['header_type'], b['header_text_trimmed']), '%s: heading with limit %d' % (parser, keep))
        same(bool(a['visible']), b['header_type'] is not None and b['header_type'] <= keep, '%s: visible with limit %d: %r' % (parser, keep, a))
    same(len(r[1]), len(full[1]), 'number of results')
    return any(b['header_type'] and b['header_type'] > keep for b in full[1])


def gen_multi(rng):
    parser = G.parser_of(rng)
    return {'lines': [G.clean(G.heading_line(rng, simple(rng), parser=parser) if rng.random() < 0.8 else G.near_line(rng)) or 'x'
                      for _ in range(G.size(rng, 1, 30, 4))], 'parser': parser, 'keep': rng.choice((1, 2, 3, 4, 5, 6, 7, 50))}


CHECK = Check('C12', 'documents with headings of all levels and duplicates, each built with several limits; non-trivial: some limit hides '
              'at least one heading', [
                  Part('docs', run_doc, enum=enum_docs, rule='every sequence of up to 4 (5) levels, all limits'),
                  Part('random', run_doc, gen_doc, quick=9000),
                  Part('deep', run_doc, deep(gen_doc), quick=8, thorough=200, rule='the same after tens of thousands of other lines'),
                  Part('long', run_doc, after_padding(gen_doc), quick=50, thorough=2000, rule='the same after hundreds or thousands of other lines'),
                  Part('lines', run_multi, gen_multi, quick=20000, rule='get_atx_heading on several lines'),
              ], [])
