"""C10: ordered TOCs number each list 1, 2, 3, ...; markers are the requested ones."""
import itertools

from .common import (Check, G, M, Part, Reject, Violation, build_text, mixtext, parse_toc, same, show, simple, T)
from .c09 import doc_of, walk


def numbers(levels):
    """Number of every entry: its position in its own list."""
    out = []
    stack = []   # (level, count) of the open lists
    for lv in levels:
        while stack and stack[-1][0] > lv:
            stack.pop()
        if stack and stack[-1][0] == lv:
            stack[-1][1] += 1
        else:
            stack.append([lv, 1])
        out.append(stack[-1][1])
    return out


def run(case):
    levels, parser, texts = case['levels'], case['parser'], case['texts']
    if (not levels or not texts or not all(1 <= x <= 6 for x in levels) or not M.coherent(levels)
            or any(not t.strip() or '\n' in t or '\r' in t for t in texts)):
        raise Reject()
    keep = case['keep']
    if keep < 1 or any((M.atx('# ' + t, parser) or (0, ''))[1].strip(' \t\x0b\x0c') == '' for t in texts):
        raise Reject()
    doc = doc_of(levels, texts)
    vis = [x for x in levels if x <= keep]
    if not M.coherent(vis) if vis else False:
        raise Reject()
    base = build_text(doc, parser=parser, keep_header_levels=keep)
    if base[0] != 'ok':
        raise Reject()  # the texts have no valid label
    plain = parse_toc(base[1])
    same([e[1] for e in plain], ['-'] * len(vis), '%s: default markers' % parser)
    want = numbers(vis)
    closers = ('.', ')') if parser != 'redcarpet' else ('.',)
    for opts in case['styles']:
        opts = dict(opts)
        got = build_text(doc, parser=parser, keep_header_levels=keep, **opts)
        if got[0] != 'ok':
            raise Violation('%s %r: %r' % (parser, opts, got))
        es = parse_toc(got[1], no_links=bool(opts.get('no_links')))
        m = opts.get('list_marker', '-')
        if opts.get('constant_ordered_list'):
            bullets = ['1' + (m if m in closers else '.')] * len(vis)
        elif opts.get('ordered'):
            bullets = ['%d%s' % (k, m if m in closers else '.') for k in want]
        else:
            bullets = [m] * len(vis)
        same([e[1] for e in es], bullets, '%s %r: list markers for levels %s' % (parser, opts, show(vis)))
        if not opts.get('no_links'):
            same([e[2:] for e in es], [e[2:] for e in plain], '%s %r: texts and targets' % (parser, opts))
    return len(vis) > 1 and max(want) > 1


def all_styles(parser):
    marks = ['.', '-', '+', '*'] + ([')'] if parser != 'redcarpet' else [])
    out = [{'ordered': True, 'list_marker': m} for m in marks] + [{'ordered': True}]
    out += [{'constant_ordered_list': True, 'list_marker': m} for m in marks] + [{'constant_ordered_list': True}]
    out += [{'ordered': True, 'constant_ordered_list': True, 'list_marker': '.'}]
    out += [{'list_marker': m} for m in '-+*']
    out += [{'ordered': True, 'no_indentation': True}, {'ordered': True, 'no_links': True},
            {'ordered': True, 'no_list_coherence': True}, {'ordered': True, 'list_marker': '.', 'no_links': True, 'no_indentation': True}]
    return out


def enum_levels(tier):
    top = 6 if tier == 'quick' else 8
    k = 0
    for n in range(1, top + 1):
        for levels in itertools.product(range(1, 7), repeat=n):
            if not M.coherent(levels):
                continue
            k += 1
            ps = M.ALL if n < 4 else (M.ALL[k % 6],)
            for p in ps:
                ss = all_styles(p)
                yield {'levels': list(levels), 'parser': p, 'texts': ['a', 'b c'], 'keep': 6,
                       'styles': ss if n < 3 else [ss[k % len(ss)], ss[0], ss[1]]}


def gen(rng):
    parser = G.parser_of(rng)
    levels = walk(rng, G.size(rng, 1, 300, 14), up=rng.choice((0.05, 0.2, 0.5)), down=rng.choice((0.05, 0.2, 0.4)))
    texts = [rng.choice([simple(rng), mixtext(rng)[:300].strip() or 'a']) for _ in range(rng.randint(1, 4))]
    ss = all_styles(parser)
    return {'levels': levels, 'parser': parser, 'texts': texts, 'keep': rng.choice((6, 6, 6, 1, 2, 3, 4, 5)),
            'styles': [rng.choice(ss) for _ in range(3)]}


def gen_wide(rng):
    parser = G.parser_of(rng)
    n = G.mined_int(rng, 9, 2500) or rng.choice((10, 11, 100, 101, 256, 257, 999, 1000, 1001, 2048))
    levels = []
    first = rng.choice((1, 2))
    for _ in range(n):
        levels.append(first)
        if rng.random() < 0.05:
            levels += [first + 1] * rng.choice((1, 2, 12))
            if rng.random() < 0.5:
                levels.append(first + 2)
    return {'levels': levels, 'parser': parser, 'texts': ['a'], 'keep': 6,
            'styles': [rng.choice(all_styles(parser)), {'ordered': True, 'list_marker': '.'}]}


def run_huge(case):
    """One flat list of very many entries."""
    n, m, parser = case['n'], case['marker'], case['parser']
    if not 1 <= n <= 120000:
        raise Reject()
    got = build_text('# a\n' * n, parser=parser, ordered=True, list_marker=m, no_links=True, no_indentation=True)
    same(got, ('ok', ''.join('%d%s a\n' % (i + 1, m) for i in range(n))), '%s: list of %d entries' % (parser, n))
    return n > 1


def enum_huge(tier):
    for k, parser in enumerate(M.ALL):
        yield {'n': 100001 if k % 3 == 0 else 33000, 'marker': '.' if parser == 'redcarpet' or k % 2 else ')', 'parser': parser}


def run_index(case):
    """The function that counts, up to the largest number a list marker can have."""
    parser = case['parser']
    start, steps = case['start'], case['steps']
    if start < 0 or not all(isinstance(s, int) and 1 <= s <= 6 for s in steps) or not steps:
        raise Reject()
    counter = {'h%d' % i: start for i in range(1, 7)} if start else {}
    model = {i: start for i in range(1, 7)} if start else {}
    prev = case['prev']
    if not 0 <= prev <= 6:
        raise Reject()
    over = False
    for s in steps:
        if s not in model or (prev and prev < s):
            model[s] = 0
        model[s] += 1
        got = T.call(T.api.increase_index_ordered_list, counter, prev, s, parser)
        if parser != 'redcarpet' and model[s] > 999999999:
            same(got, ('exc', 'GithubOverflowOrderedListMarker'), '%s: number %d' % (parser, model[s]))
            over = True
            break
        same((got, counter.get('h%d' % s)), (('ok', None), model[s]), '%s: number after levels %r' % (parser, steps))
        prev = s
    return over or len(steps) > 1


def gen_index(rng):
    return {'parser': G.parser_of(rng), 'start': rng.choice((0, 0, 0, 5, 999999997, 999999998, 999999999)),
            'prev': rng.choice((0, 0, 1, 2, 3)), 'steps': [rng.randint(1, 6) for _ in range(rng.randint(1, 12))]}


CHECK = Check('C10', 'coherent sequences of levels with list styles of every kind; non-trivial: some list has more than one entry '
              '(for the counting function: several steps or an overflow)', [
                  Part('levels', run, enum=enum_levels, rule='every coherent sequence of up to 6 (8) levels'),
                  Part('random', run, gen, quick=9000),
                  Part('wide', run, gen_wide, quick=250, thorough=5000, rule='lists of up to thousands of entries'),
                  Part('huge', run_huge, enum=enum_huge, rule='lists of up to 100001 entries'),
                  Part('index', run_index, gen_index, quick=20000, rule='increase_index_ordered_list, up to the nine-digit limit'),
              ], [])
