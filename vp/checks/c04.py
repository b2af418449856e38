"""C04: anchors follow the slug rule for every text."""
import sys

from .common import (Check, G, M, Part, Reject, build_text, same, T)

FORBID = '*_`<>\\[]&'


def anchor(text, parser):
    return T.api.build_anchor_link(text, {}, parser)


def run_text(case):
    t, parser = case['text'], case['parser']
    if '\n' in t or '\r' in t or M.remove_emphasis(t) != t.replace('\x00', '') or M.strip_html(t, parser) != t or '<' in t:
        raise Reject()
    want = M.slugify(t.replace('\x00', ''), parser)
    same(anchor(t, parser), want, '%s: anchor of %r' % (parser, t))
    return want != t


def run_doc(case):
    """The anchor in the TOC, in a document with other things around."""
    t, parser = case['text'], case['parser']
    if '\n' in t or '\r' in t or '<' in t or M.remove_emphasis(t) != t.replace('\x00', ''):
        raise Reject()
    line = case['lead'] + t + case['trail']
    h = M.atx(line, parser)
    if h is None:
        raise Reject()
    try:
        lab = M.label_checked(h[1], parser)
    except M.Err:
        raise Reject()
    text = G.join(case['before'] + [line] + case['after'])
    want = '- [%s](#%s)\n' % (lab, M.slugify(lab.rstrip(' ').replace('\x00', ''), parser))
    got = build_text(text, parser=parser, keep_header_levels=6)
    same(got, ('ok', want), '%s: TOC' % parser)
    return True


CHUNK = 64


def enum_chars(tier):
    """Every code point, alone and between letters."""
    k = 0
    for c in range(0, sys.maxunicode + 1, CHUNK):
        if 0xd800 <= c < 0xe000:
            continue
        k += 1
        for p in ('github', 'gitlab') if tier == 'quick' else M.FAMILY:
            yield {'from': c, 'parser': p, 'each': tier != 'quick'}


def run_chars(case):
    parser = case['parser']
    hit = False
    if case['from'] >= 0x3000 and not case['each']:
        cs = [chr(i) for i in range(case['from'], case['from'] + CHUNK)]
        for t in ('a'.join(cs), ' B'.join(cs)):
            same(anchor(t, parser), M.slugify(t, parser), '%s: anchor of %r' % (parser, t))
        return any(c.isalnum() for c in cs)
    for i in range(case['from'], case['from'] + CHUNK):
        c = chr(i)
        if c in '\n\r*_`\\':
            continue
        for t in ('aB' + c + ' c', c) if i > 0x3000 else ('aB' + c + ' c', c, c + 'x', 'x' + c, c + c + '-' + c):
            if c in '<>' and '<' in t and '>' in t:
                continue
            same(anchor(t, parser), M.slugify(t.replace('\x00', ''), parser), '%s: anchor of %r (U+%04X)' % (parser, t, i))
        hit = hit or c.isalnum()
    return hit


def gen_text(rng):
    p = rng.random()
    if p < 0.35:
        t = G.plain(rng)
    elif p < 0.5:
        t = G.idioms(rng)
    elif p < 0.7:
        t = ''.join(rng.choice('aB1 -.,') for _ in range(G.size(rng, 0, 999, 12)))
    elif p < 0.85:
        t = ''.join(c for c in (G.any_char(rng) for _ in range(G.size(rng, 0, 400, 10))) if c not in FORBID)
    elif p < 0.93:
        t = ''.join(rng.choice(['  ', '---', ' - ', 'a', 'Σ', 'ς', 'İ', '--', '-', ' ', 'É', 'e\u0301', '.', '!']) for _ in range(rng.randint(1, 25)))
    else:
        t = (G.word(rng) + rng.choice([' ', '-', '. ', '  '])) * rng.randint(1, 160)
        t = t[:G.mined_int(rng, 1, 999) or 999]
    if M.emphasis(t):
        t = t.replace('_', '').replace('*', '')
    return {'text': G.clean(t).replace('<', ''), 'parser': G.parser_of(rng, True)}


def gen_doc(rng):
    c = gen_text(rng)
    c['text'] = c['text'].replace('\\', '').replace('[', '').replace(']', '')
    c['lead'] = ' ' * rng.choice((0, 0, 3)) + '#' * rng.randint(1, 6) + rng.choice([' ', '   '])
    c['trail'] = rng.choice(['', '', '  ', ' #', ' ###'])
    if rng.random() < 0.1:
        c['text'] += '\\' * rng.randint(1, 3)
    other = ['', 'x', '    # no', '```', '#no', '> # q']
    c['before'] = [rng.choice([x for x in other if x != '```']) for _ in range(rng.randint(0, 3))]
    c['after'] = [rng.choice(other) for _ in range(rng.randint(0, 3))]
    return c


def run_wide(case):
    """Long texts; the functions do not know the limit of labels."""
    unit, n = case['unit'], case['n']
    if n < 0 or n * len(unit) > 300000:
        raise Reject()
    t = case['lead'] + unit * n + case['trail']
    return run_text({'text': t, 'parser': case['parser']})


def enum_wide(tier):
    k = 0
    for n in G.widths(70000):
        for unit in ['a', 'B', '-', ' ', '. ', 'é', '中', ' - ', 'word ', '1', '.', 'Σ', '\U00010400']:
            for lead, trail in [('', ''), ('A b.', ' c-D'), ('-', '1'), ('é', 'Σ')]:
                k += 1
                yield {'unit': unit, 'n': n, 'lead': lead, 'trail': trail, 'parser': M.FAMILY[k % 5]}


CHECK = Check('C04', 'heading texts without inline markup; non-trivial: the anchor differs from the text (for whole '
              'blocks of code points: some are alphanumeric; for documents: the line is a heading with a label)', [
                  Part('chars', run_chars, enum=enum_chars, rule='every Unicode code point (64 per case) in several positions'),
                  Part('wide', run_wide, enum=enum_wide, rule='texts of up to 66000 (words: 330000) characters, lengths around powers of two and round numbers'),
                  Part('random', run_text, gen_text, quick=90000, rule='random texts of up to 999 characters'),
                  Part('doc', run_doc, gen_doc, quick=24000, rule='the anchor that ends up in the TOC'),
              ], ['Python\'s lower() and isalnum() define letters, digits and lower case'])
