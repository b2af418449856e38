"""C23: redcarpet anchors follow redcarpet's algorithm."""
import re
import sys

from .common import (Check, G, M, Part, Reject, Violation, build_text, same, T)
from .c04 import CHUNK
from .c14 import edits

P = 'redcarpet'


def anchor(text):
    return T.api.build_anchor_link(text, {}, P)


def clear(t):
    """Texts for which the description of the algorithm is unambiguous: every < starts a
    complete tag or none at all, every & a complete character reference or none."""
    rest = re.sub(r'</?[A-Za-z0-9][^<>&]*>|&#?[A-Za-z0-9]+;', ' ', t)
    rest = re.sub('<(?=[ .,]|$|[^\\x00-\\x7f])', ' ', rest)
    rest = re.sub('&(?=[ .,]|$|[^\\x00-\\x7f])', ' ', rest)
    return '<' not in rest and '&' not in rest and '\n' not in t and '\r' not in t


def run_text(case):
    t = case['text']
    if not clear(t) or t == '':
        raise Reject()
    want = M.slug_redcarpet(t)
    same(anchor(t), want, 'anchor of %r' % t)
    # The hash and the hyphens are what they are, whatever came before.
    d = {}
    same([T.api.build_anchor_link(t, d, P) for _ in range(2)], [want, want], 'repeated anchor of %r' % t)
    return want != t


def run_doc(case):
    t = case['text']
    if not clear(t):
        raise Reject()
    line = '#' * case['level'] + ' ' + t
    h = M.atx(line, P)
    if h is None or not 1 <= case['level'] <= 6 or not clear(h[1]):
        raise Reject()
    lab = M.label_checked(h[1], P)
    want = '- [%s](#%s)\n' % (lab, M.slug_redcarpet(lab.rstrip(' ')))
    got = build_text(G.join(['x', line, '', line]), parser=P, keep_header_levels=6)
    same(got, ('ok', want * 2), 'TOC of %r' % line)
    return True


def enum_chars(tier):
    for c in range(0, sys.maxunicode + 1, CHUNK):
        if not 0xd800 <= c < 0xe000:
            yield {'from': c, 'each': tier != 'quick'}


def run_chars(case):
    for i in range(case['from'], case['from'] + CHUNK):
        c = chr(i)
        if c in '\n\r':
            continue
        ts = ['aB' + c + 'Cd', c] if i > 0x3000 and not case['each'] else ['aB' + c + 'Cd', c, c + 'x', 'x' + c, c + c, 'a ' + c + ' b', c + '1' + c]
        for t in ts:
            if not clear(t):
                continue
            same(anchor(t), M.slug_redcarpet(t), 'anchor of %r (U+%04X)' % (t, i))
    return True


PIECES = ['a', 'B', 'foo', 'Bar', '1', ' ', '  ', '-', '--', '_', '.', '!', '(x)', '*', '`c`', '"', "'", '%', '@', '^', '~', '[l]', '{', '}', '|', '\\', '#', '/',
          ':', ';', '=', '?', '+', '$', ',', 'é', 'É', '日本', '\u00a0', '<b>', '</b>', '<i class="x">', '<br/>', '&amp;', '&#42;', '&lt;', '&x1;', '>', '\t',
          '\x7f', '\x01', '😀', '< ', '& ', '<H1>', '</a >', '&#xAb;', 'ß', 'ﬁ', 'İ', 'K', '&CounterClockwiseContourIntegral;', '&#1114111;', '&#x10FFFF;', '&' + 'y' * 40 + ';', '&#' + '1' * 30 + ';',
          '<a href="' + 'x' * 100 + '">', '<' + 'b' * 50 + '>', '&A;', '&frac12;', '&#0;', '<p  id=q >', '&é;', '&é', '&٣;', '<é>', '<²', '&日本;', '&ａ;']


def gen_text(rng):
    p = rng.random()
    if p < 0.55:
        pool = PIECES if rng.random() < 0.5 else [rng.choice(PIECES) for _ in range(4)]
        t = ''.join(rng.choice(pool) for _ in range(1 + G.size(rng, 0, 150, 7)))
    elif p < 0.65:
        t = G.plain(rng, forbid='<>&')
    elif p < 0.7:
        t = G.idioms(rng)
    elif p < 0.85:
        t = ''.join(G.any_char(rng) for _ in range(1 + G.size(rng, 0, 400, 6)))
    else:
        # nothing left: the hash
        t = ''.join(rng.choice(' -&+$,/:;=?@"#{}|^~[]`\\*()%.!\'é日😀\u00a0') for _ in range(1 + G.size(rng, 0, 400, 5)))
    if not clear(t):
        t = t.replace('<', '').replace('&', '')
    return {'text': G.clean(t) or 'x'}


def enum_edits(tier):
    for base in ['<b>', '</b>', '<b c="d">', '<br/>', '&ab;', '&#12;', '&#xA;', '(a-b)', 'A. B']:
        for v in edits(base):
            for t in ('x' + v + 'Y', v):
                if v and clear(t):
                    yield {'text': t}


def gen_doc(rng):
    return {'text': gen_text(rng)['text'], 'level': rng.randint(1, 6)}


CHECK = Check('C23', 'heading texts with tags, character references, stripped punctuation and any Unicode characters; non-trivial: the anchor '
              'differs from the text', [
                  Part('chars', run_chars, enum=enum_chars, rule='every Unicode code point (64 per case) in several positions'),
                  Part('edits', run_text, enum=enum_edits, rule='tags and character references with each character put in, replaced or taken away at each place'),
                  Part('random', run_text, gen_text, quick=160000),
                  Part('doc', run_doc, gen_doc, quick=40000, rule='the anchor that ends up in the TOC, twice the same'),
              ], ['unterminated tags and references are not generated: redcarpet reads them differently before and after rendering'])
