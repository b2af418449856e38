"""C11: an incoherent hierarchy is refused, and only then."""
import itertools

from .common import (after_padding, deep, Check, G, M, Part, Reject, Violation, build_text, ctx, eol_choice, lines_ok, parse_toc, same, show, simple,
                     text_of, T)

ERR = ('exc', 'TocDoesNotRenderAsCoherentList')


def verdict(levels):
    """Written independently of the model: walk the sequence."""
    if not levels:
        return True
    first = prev = levels[0]
    for x in levels[1:]:
        if x < first or x - prev > 1:
            return False
        prev = x
    return True


def check_all(text, parser, keep, opts, levels):
    ok = verdict([x for x in levels if x <= keep])
    got = build_text(text, parser=parser, keep_header_levels=keep, **opts)
    if ok and got[0] != 'ok':
        raise Violation('%s, limit %d, levels %r: %r' % (parser, keep, levels, got))
    if not ok and got != ERR:
        raise Violation('%s, limit %d, levels %r: no error: %s' % (parser, keep, levels, show(got)))
    flat = build_text(text, parser=parser, keep_header_levels=keep, no_indentation=True, **opts)
    loose = build_text(text, parser=parser, keep_header_levels=keep, no_list_coherence=True, **opts)
    both = build_text(text, parser=parser, keep_header_levels=keep, no_list_coherence=True, no_indentation=True, **opts)
    for what, r in (('without indentation', flat), ('without coherence check', loose), ('without both', both)):
        if r[0] != 'ok':
            raise Violation('%s, limit %d, levels %r, %s: %r' % (parser, keep, levels, what, r))
    nol = bool(opts.get('no_links'))
    es = [e[1:] for e in parse_toc(flat[1], no_links=nol)]
    same(len(es), len([x for x in levels if x <= keep]), 'number of entries')
    same([e[1:] for e in parse_toc(loose[1], no_links=nol)], es, '%s: entries without the coherence check' % parser)
    same(both, flat, '%s: without both' % parser)
    if ok:
        same([e[1:] for e in parse_toc(got[1], no_links=nol)], es, '%s: entries of the coherent TOC' % parser)
        same(loose, got, '%s: disabling the check changes nothing in a coherent document' % parser)
    return ok


def run_levels(case):
    levels, parser = case['levels'], case['parser']
    if not all(1 <= x <= 6 for x in levels) or not case['keep'] >= 1:
        raise Reject()
    text = G.join(['#' * x + ' h' for x in levels])
    check_all(text, parser, case['keep'], case.get('opts', {}), levels)
    return len([x for x in levels if x <= case['keep']]) > 1


def enum_levels(tier):
    top = 5 if tier == 'quick' else 6
    k = 0
    for n in range(1, top + 1):
        for levels in itertools.product(range(1, 7), repeat=n):
            k += 1
            if n <= 2:
                for p in M.ALL:
                    for keep in range(1, 7):
                        yield {'levels': list(levels), 'parser': p, 'keep': keep}
            elif n <= 3:
                for keep in range(2, 7):
                    yield {'levels': list(levels), 'parser': M.ALL[k % 6], 'keep': keep}
            else:
                yield {'levels': list(levels), 'parser': M.ALL[k % 6], 'keep': (6, 6, 4, 5, 3)[(k // 6) % 5]}


def run_doc(case):
    if not lines_ok(case['lines']) or not case['keep'] >= 1 or case['skip'] < 0:
        raise Reject()
    parser = case['parser']
    opts = dict(case['opts'])
    if case['skip']:
        opts['skip_lines'] = case['skip']
    text = text_of(case)
    heads = M.headings(M.split_lines(text)[case['skip']:], parser)
    for _, _, raw in heads:
        if raw.strip(' \t\x0b\x0c') == '' or len(raw) > 900:
            raise Reject()
    levels = [h[1] for h in heads]
    ok = check_all(text, parser, case['keep'], opts, levels)
    # The command reports it.
    if case.get('cli'):
        p = ctx().write(text)
        argv = (['-s', str(case['skip'])] if case['skip'] else []) + [parser, '-l', str(case['keep']), p]
        if case['keep'] <= 6:
            same(T.cli(argv)[0], 0 if ok else 1, 'exit status of %r' % argv)
            same(T.cli(['-c'] + argv)[0], 0, 'exit status with --no-list-coherence')
            same(T.cli(['-i'] + argv)[0], 0, 'exit status with --no-indentation')
    return len(levels) > 1


def gen_doc(rng):
    parser = G.parser_of(rng)
    lines = []
    lv = rng.choice((1, 1, 2, 3, 6))
    first = lv
    n = G.size(rng, 1, 200, 8)
    wild = rng.choice((0.0, 0.0, 0.02, 0.3))
    for _ in range(n):
        p = rng.random()
        if p < 0.7:
            lines.append(G.heading_line(rng, simple(rng), lv, parser))
            if rng.random() < wild:
                lv = rng.randint(1, 6)
            else:
                lv = max(first, min(6, lv + rng.choice((1, 1, 0, 0, -1, -2, -5))))
        elif p < 0.8:
            lines += ['```', '#' * rng.randint(1, 6) + ' x', '```'] if parser != 'redcarpet' else ['']
        elif p < 0.9:
            lines.append(rng.choice(['', 'x', '####### x', '#x', '    # x', '\\# x']))
        else:
            lines.append(G.prose_line(rng).replace('`', '').replace('~', ''))
    o = {}
    if rng.random() < 0.3:
        o = {'ordered': True, 'list_marker': '.'}
    if rng.random() < 0.2:
        o['no_links'] = True
    return {'lines': [G.clean(x) for x in lines], 'eol': eol_choice(rng, n), 'parser': parser, 'opts': o,
            'keep': rng.choice((6, 6, 6, 5, 4, 3, 2, 1)), 'skip': rng.choice((0, 0, 0, 1, 2, 5)), 'cli': rng.random() < 0.1}


CHECK = Check('C11', 'sequences of heading levels, alone and inside documents with prose, fences and skipped lines; non-trivial: at least '
              'two headings count', [
                  Part('levels', run_levels, enum=enum_levels, rule='every sequence of up to 5 (6) levels'),
                  Part('random', run_doc, gen_doc, quick=12000),
                  Part('deep', run_doc, deep(gen_doc), quick=16, thorough=400, rule='the same after tens of thousands of other lines'),
                  Part('long', run_doc, after_padding(gen_doc), quick=100, thorough=3000, rule='the same after hundreds or thousands of other lines'),
              ], [])
