"""C09: the rendered TOC nests exactly like the headings do."""
import itertools
import re

from .common import (Check, G, M, Part, Reject, Violation, build_text, parse_toc, same, show, simple, toc_lines, T)
from . import render as R


MARK = re.compile(r'( *)(?:[-+*]|[0-9]+[.)]) ')


def doc_of(levels, texts):
    return G.join(['#' * lv + ' ' + texts[i % len(texts)] for i, lv in enumerate(levels)])


def run(case):
    levels, parser, opts = case['levels'], case['parser'], dict(case['opts'])
    texts = case['texts']
    if (not levels or not texts or not all(1 <= x <= 6 for x in levels) or not M.coherent(levels)
            or any(not t.strip() or '\n' in t for t in texts)):
        raise Reject()
    got = build_text(doc_of(levels, texts), parser=parser, keep_header_levels=6, **opts)
    if got[0] != 'ok':
        raise Violation('%s: %r' % (parser, got))
    depths = [x - levels[0] for x in levels]
    if parser == 'redcarpet':
        es = parse_toc(got[1], no_links=bool(opts.get('no_links')))
        same([e[0] for e in es], [4 * d for d in depths], 'redcarpet: indentation')
        return max(depths) > 0
    items, tops = R.items(got[1])
    if items is None:
        raise Violation('%s: the TOC does not render as nested lists: %s' % (parser, show(got[1])))
    same(tops, 1, '%s: top-level lists in %s' % (parser, show(got[1])))
    same([it.depth for it in items], depths, '%s: depths rendered from %s' % (parser, show(got[1])))
    stack, text_at = {}, {}
    for i, (it, line) in enumerate(zip(items, toc_lines(got[1]))):
        d = depths[i]
        stack[d] = it
        m = MARK.match(line)
        if not m:
            raise Violation('%s: entry %s' % (parser, show(line)))
        text_at[d] = m.end()
        same(m.end(1), text_at[d - 1] if d else 0, '%s: indentation of entry %d (%s) of %s' % (parser, i, line[:60], show(got[1])))
        if it.parent is not (stack[d - 1] if d else None):
            raise Violation('%s: entry %d is not below the closest shallower heading: %s' % (parser, i, show(got[1])))
        same(it.ordered, bool(opts.get('ordered') or opts.get('constant_ordered_list')), 'kind of list')
    return max(depths) > 0


STYLES = [{}, {'list_marker': '+'}, {'list_marker': '*'}, {'ordered': True, 'list_marker': '.'},
          {'ordered': True, 'list_marker': ')'}, {'constant_ordered_list': True, 'list_marker': '.'},
          {'constant_ordered_list': True, 'list_marker': ')'}, {'ordered': True}]


def styles(parser):
    return [s for s in STYLES if parser != 'redcarpet' or s.get('list_marker') != ')']


def enum_levels(tier):
    top = 6 if tier == 'quick' else 8
    k = 0
    for n in range(1, top + 1):
        for levels in itertools.product(range(1, 7), repeat=n):
            if not M.coherent(levels):
                continue
            k += 1
            if n < 4:
                for p in M.ALL:
                    for s in styles(p):
                        yield {'levels': list(levels), 'parser': p, 'opts': s, 'texts': ['a']}
            else:
                p = M.ALL[k % 6]
                ss = styles(p)
                yield {'levels': list(levels), 'parser': p, 'opts': ss[(k // 6) % len(ss)], 'texts': ['a', 'b']}


def walk(rng, n, first=None, up=0.35, down=0.35):
    first = first or rng.choice((1, 1, 2, 3, 4))
    lv = first
    out = [lv]
    for _ in range(n - 1):
        p = rng.random()
        if p < up:
            lv = min(6, lv + 1)
        elif p < up + down:
            lv = rng.randint(first, lv)
        out.append(lv)
    return out


def gen(rng):
    parser = G.parser_of(rng)
    n = G.size(rng, 1, 300, 14)
    levels = walk(rng, n, up=rng.choice((0.05, 0.2, 0.5)), down=rng.choice((0.05, 0.2, 0.4)))
    o = dict(rng.choice(styles(parser)))
    texts = [simple(rng) for _ in range(rng.randint(1, 4))]
    if rng.random() < 0.15:
        o['no_links'] = True
        texts = ['w' + ''.join(rng.choice(G.LOWER) for _ in range(3))]
    if rng.random() < 0.2:
        o['no_list_coherence'] = True
    return {'levels': levels, 'parser': parser, 'opts': o, 'texts': texts}


def gen_wide(rng):
    """Lists of 10, 100, 1000 items: the width of the numbers decides the indentation below."""
    parser = G.parser_of(rng)
    n = rng.choice((9, 10, 11, 99, 100, 101, 105)) if rng.random() < 0.85 else rng.choice((999, 1000, 1001))
    if rng.random() < 0.2:
        n = G.mined_int(rng, 2, 1500) or n
    first = rng.choice((1, 1, 2, 4))
    depth = rng.randint(0, 3)
    levels = [min(6, first + i) for i in range(depth)]
    top = min(6, first + depth)
    for i in range(n):
        levels.append(top)
        if i >= n - 3 or rng.random() < 0.02:
            levels += [min(6, top + 1)] * rng.choice((1, 1, 2, 11))
            if top < 5 and rng.random() < 0.5:
                levels.append(top + 2)
    ss = [s for s in styles(parser) if s.get('ordered')] if rng.random() < 0.8 else styles(parser)
    return {'levels': levels, 'parser': parser, 'opts': dict(rng.choice(ss)), 'texts': ['a']}


def gen_runs(rng):
    """Several long sublists, at the same and at other levels, one after the other."""
    parser = G.parser_of(rng)
    first = rng.choice((1, 1, 2, 3))
    lv = first
    levels = []
    for i in range(rng.choice((3, 5, 8, 14))):
        levels += [lv] * rng.choice((1, 1, 2, 9, 10, 11, 12))
        lv = rng.choice((min(6, lv + 1), min(6, lv + 1), rng.randint(first, lv), first))
    return {'levels': levels, 'parser': parser, 'opts': dict(rng.choice(styles(parser)[3:])), 'texts': ['a']}


def gen_huge(rng):
    """Numbers of five digits."""
    parser = rng.choice(M.FAMILY)
    n = rng.choice((9999, 10000, 10001, 10007))
    top = rng.choice((1, 2))
    levels = [top] * n
    for i in sorted({n, n - 1, rng.randint(1, n), rng.randint(1, n)}, reverse=True):
        levels[i:i] = [top + 1] * rng.choice((1, 2))
    return {'levels': levels, 'parser': parser, 'opts': dict(rng.choice([s for s in STYLES if s.get('ordered') and s.get('list_marker')])), 'texts': ['a']}


CHECK = Check('C09', 'coherent sequences of heading levels with every parser and list style; non-trivial: some entry is nested', [
    Part('levels', run, enum=enum_levels, rule='every coherent sequence of up to 6 (8) levels (all styles and parsers up to 3 levels, in rotation beyond)'),
    Part('random', run, gen, quick=16000, rule='random walks of up to 300 headings'),
    Part('wide', run, gen_wide, quick=700, thorough=14000, rule='lists with indexes of one to four digits'),
    Part('runs', run, gen_runs, quick=3000, thorough=60000, rule='ordered lists with several sublists of around ten entries'),
    Part('huge', run, gen_huge, quick=12, thorough=200, rule='lists with indexes of five digits'),
], ['markdown-it-py nests lists as CommonMark says'])
