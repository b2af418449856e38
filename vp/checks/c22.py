"""C22: redcarpet headings and their entries follow redcarpet's rules."""
import itertools

from .common import (after_padding, deep, Check, G, M, Part, Reject, Violation, build_text, lines_ok, mixtext, parse_toc, same, simple, text_of, T)
from . import c02

P = 'redcarpet'


def run_line(case):
    c02.run_line(dict(case, parser=P))
    return M.atx(case['line'], P) is not None or case['line'][:1] == '#'


def run_chars(case):
    return c02.run_chars(dict(case, parser=P))


def enum_chars(tier):
    for cs in G.chars(tier):
        yield {'chars': cs}


def run_file(case):
    return c02.run_file(dict(case, parser=P))


def run_wide(case):
    return c02.run_wide(dict(case, parser=P))


def enum_wide(tier):
    for k, c in enumerate(c02.enum_wide(tier)):
        if tier == 'quick' and k % 3 or tier != 'quick' and k % 5:
            continue
        yield {'shape': c['shape'].lstrip(' '), 'unit': c['unit'], 'n': c['n'], 'keep': c['keep']}


def run_several(case):
    return c02.run_several(dict(case, parser=P))


def run_doc(case):
    """The entries of a document are its headings, in order, with their text."""
    if not lines_ok(case['lines']):
        raise Reject()
    text = text_of(case)
    lines = M.split_lines(text)
    heads = [h for h in M.headings(lines, P) if h[1] <= case['keep']]
    if not 1 <= case['keep'] <= 6:
        raise Reject()
    r = build_text(text, parser=P, keep_header_levels=case['keep'], no_list_coherence=True)
    if r[0] != 'ok':
        raise Violation('redcarpet raised %s' % r[1])
    got = [(e[2], e[3]) for e in parse_toc(r[1])]
    want = [(M.label_checked(h[2], P), M.slug_redcarpet(M.label_checked(h[2], P).rstrip(' '))) for h in heads]
    same(got, want, 'entries')
    r = build_text(text, parser=P, keep_header_levels=case['keep'], no_links=True, no_indentation=True)
    same(r, ('ok', ''.join('- %s\n' % h[2] for h in heads)), 'TOC without links')
    return len(heads) > 1


def enum_lines(tier):
    top = 6 if tier == 'quick' else 8
    k = 0
    for n in range(0, top + 1):
        for combo in itertools.product('# \ta\\', repeat=n):
            line = ''.join(combo)
            if '#' not in line or n > 4 and line[0] != '#':
                continue
            k += 1
            yield {'line': line, 'keep': 1 + k % 6}


def enum_shapes(tier):
    k = 0
    for ind in ['', ' ', '    ', '\t', '\\', '\ufeff']:
        for h in range(1, 9):
            for sep in ['', ' ', '  ', '\t', ' \t', '\x0b', '\u00a0', '      ']:
                for t in ['', 'a', 'a b', '#', 'a#', 'a\\', 'a\\\\', '\\', '[a]', '\u00a0', '\x0b', 'a ## b', '\ta\t', '# a', 'é', 'a\\\\\\']:
                    for c in ['', ' ', ' #', '#', '##########', ' # ', ' #\t', '\t#', ' \\#', '\\#', ' # #', '  ', '\t', '   ###']:
                        k += 1
                        yield {'line': ind + '#' * h + sep + t + c, 'keep': 1 + k % 7}


def some_line(rng):
    p = rng.random()
    if p < 0.3:
        s = G.heading_line(rng, mixtext(rng), parser=P)
    else:
        s = c02.some_line(rng)
    if rng.random() < 0.5:
        s = s.lstrip(' ')
    if rng.random() < 0.15:
        s = s.rstrip(' #') + rng.choice(['\\', '\\\\', '\\\\\\', '#', ' \\']) + rng.choice(['', ' ', '#', ' ##'])
    return G.clean(s)


def gen_line(rng):
    return {'line': some_line(rng), 'keep': rng.choice((1, 2, 3, 4, 5, 6, 7, 100))}


def gen_file(rng):
    return {'line': some_line(rng), 'end': rng.choice(['', '\n', '\r', '\r\n', '\n\n'])}


def gen_several(rng):
    c = c02.gen_several(rng)
    c['lines'] = [some_line(rng) if rng.random() < 0.7 else x for x in c['lines']]
    c.pop('parser')
    return c


def gen_doc(rng):
    if rng.random() < 0.6:
        lines = G.document(rng, mixtext, parser=P)
    else:
        lines = [some_line(rng) if rng.random() < 0.6 else G.prose_line(rng) if rng.random() < 0.5 else G.fence_line(rng)
                 for _ in range(G.size(rng, 1, 80, 6))]
    # a lone [ or ] would not stop redcarpet's label, but would stop the reader of this check
    lines = [G.clean(x) for x in lines]
    return {'lines': lines, 'keep': rng.choice((1, 2, 3, 6, 6, 6)), 'final': rng.random() < 0.8, 'eol': rng.choice(['\n', '\n', '\r\n', '\r'])}


CHECK = Check('C22', 'lines around redcarpet\'s heading rule and documents of them; non-trivial: the line starts with #, the document has two '
              'headings', [
                  Part('lines', run_line, enum=enum_lines, rule='every line of up to 6 (8) characters over # space tab a backslash'),
                  Part('shapes', run_line, enum=enum_shapes, rule='indentation x hashes x separator x text x closing sequence'),
                  Part('chars', run_chars, enum=enum_chars, rule='every (quick: every rare or low) code point, 64 per case, in 14 places of a line'),
                  Part('wide', run_wide, enum=enum_wide, rule='lines of up to 66000 characters: 12 shapes around one repeated character, lengths around powers of two and round numbers'),
                  Part('random', run_line, gen_line, quick=160000),
                  Part('file', run_file, gen_file, quick=40000, rule='documents of one line through build_toc and get_md_header'),
                  Part('several', run_several, gen_several, quick=25000, rule='several lines in one call'),
                  Part('doc', run_doc, gen_doc, quick=12000, rule='whole documents'),
                  Part('deep', run_doc, deep(gen_doc), quick=16, thorough=400, rule='the same after tens of thousands of other lines'),
                  Part('long', run_doc, after_padding(gen_doc, parser=P), quick=80, thorough=3000, rule='the same after hundreds or thousands of other lines'),
              ], ['the model of redcarpet\'s parse_atxheader, written from markdown.c 3.5.0'])
