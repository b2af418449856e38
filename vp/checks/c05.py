"""C05: repeated anchors get the suffixes -1, -2, ... in order."""
import itertools
import json
import os

from .common import (deep, Check, G, M, Part, Reject, Violation, build_text, ctx, eol_choice, lines_ok, mixtext, parse_toc,
                     same, simple, text_of, T)
from ..core import VERIF


def expected(lines, parser, keep):
    seen = {}
    out = []
    top = 0
    for _, level, raw in M.headings(lines, parser):
        try:
            lab = M.label_checked(raw, parser)
        except M.Err:
            raise Reject()
        s = M.slug(lab.rstrip(' ') if lab.endswith(' ') else lab, parser)
        k = seen[s] = seen.get(s, 0) + 1
        top = max(top, k)
        if level <= keep:
            out.append(s if k == 1 or parser == 'redcarpet' else '%s-%d' % (s, k - 1))
    return out, top


def anchors(toc):
    return [e[3] for e in parse_toc(toc)]


def run_doc(case):
    if not lines_ok(case['lines']) or not case['keep'] >= 1:
        raise Reject()
    text, parser, keep = text_of(case), case['parser'], case['keep']
    want, top = expected(M.split_lines(text), parser, keep)
    opts = dict(parser=parser, keep_header_levels=keep, no_list_coherence=True)
    if case.get('ordered'):
        opts['ordered'] = True
        opts['list_marker'] = '.'
    got = build_text(text, **opts)
    if got[0] != 'ok':
        raise Violation('%s: %r' % (parser, got))
    same(anchors(got[1]), want, '%s: anchors' % parser)
    if case.get('twice'):
        # Counting starts afresh for every file and every call.
        p = ctx().write(text)
        q = ctx().write(text, 'copy.md')
        both = T.api.build_multiple_tocs([p, q, p], **opts)
        for t in both:
            same(anchors(t), want, '%s: anchors, several files' % parser)
    return top >= 2


def variants(rng, w):
    """Texts that have the same slug for the CommonMark family."""
    return rng.choice([w, w.upper(), w.capitalize(), w + '!', '.' + w, '*' + w + '*', '__' + w + '__', '`' + w + '`',
                       '**' + w[:1] + '**' + w[1:], '<b>' + w + '</b>', w + '?', '"' + w + '"', '(' + w + ')', w + '<!-- x -->',
                       '[' + w + ']', w + '\\!'])


# Texts that some normalisation makes equal and the slug rule does not (mostly).
ALIKE = [['\uf900', '\u8c48'], ['\ufb01', 'fi'], ['\u00df', 'ss'], ['\u2460', '1'], ['\uff21', 'a', '\uff41'], ['\u00e9', 'e\u0301', 'e'], ['\u0130', 'i', '\u0131'], ['\u03c3', '\u03c2'],
         ['\u00b2', '2'], ['\u0663', '3', '\u06f3'], ['\u0430', 'a'], ['\u017f', 's'], ['\u1e9e', '\u00df'], ['\u2126', '\u03c9'], ['\u212b', '\u00e5'], ['\uac00', '\u1100\u1161'],
         ['\u0958', '\u0915'], ['\u01c5', '\u01c6', '\u01c4'], ['\u00aa', 'a'], ['\u0149', '\u02bcn'], ['a b', 'a\u00a0b', 'ab', 'a-b', 'a_b'], ['a  b', 'a b', 'a--b', 'a - b'],
         ['a', 'a-', '-a', '_a'], ['01', '1', '001'], ['a\u200bb', 'ab'], ['a\u00adb', 'ab']]


def gen_doc(rng):
    parser = G.parser_of(rng)
    n = G.size(rng, 1, 300, 10)
    words = [rng.choice(['foo', 'bar', 'a', 'foo-1', 'foo 1', 'foo-1-1', 'x', '日本', 'été', '!', '-', '1', 'foo-2',
                         'foo--1', G.word(rng).lower()]) for _ in range(rng.randint(1, 4))]
    if rng.random() < 0.2:
        words = list(rng.choice(ALIKE)) + words[:1]
        if rng.random() < 0.5:
            words = ['x ' + w + 'y' for w in words]
    lines = []
    for _ in range(n):
        p = rng.random()
        w = rng.choice(words)
        if p < 0.75:
            t = w if rng.random() < 0.5 else variants(rng, w)
            lines.append(G.heading_line(rng, t, parser=parser))
        elif p < 0.85:
            lines.append(rng.choice(['', 'foo', '#foo', '    # foo']))
        elif p < 0.95:
            lines += ['```', '# ' + w, '```']
        else:
            lines.append(G.heading_line(rng, mixtext(rng)[:200] or 'q', parser=parser))
    return {'lines': [G.clean(x) for x in lines], 'eol': eol_choice(rng, n), 'parser': parser,
            'keep': rng.choice((1, 2, 3, 4, 5, 6, 6, 6)), 'ordered': rng.random() < 0.3, 'twice': rng.random() < 0.3}


def gen_many(rng):
    """Hundreds and thousands of repetitions."""
    parser = rng.choice(M.FAMILY)
    n = G.mined_int(rng, 100, 3000) or rng.choice((12, 101, 130, 260, 520, 1030, 2050))
    words = ['foo', 'Foo', 'bar'][:rng.randint(1, 3)]
    lines = []
    for i in range(n):
        lines.append('#' * (1 if rng.random() < 0.9 else rng.randint(1, 6)) + ' ' + rng.choice(words))
        if rng.random() < 0.05:
            lines += ['~~~', '# foo', '~~~']
    return {'lines': lines, 'parser': parser, 'keep': rng.choice((1, 3, 6)), 'twice': rng.random() < 0.3}


def gen_distinct(rng):
    """Thousands of different headings, a few of them repeated."""
    parser = rng.choice(M.FAMILY)
    n = rng.choice((1500, 3000, 4500))
    base = simple(rng)[:12].strip() or 'a'
    how = rng.randrange(4)
    lines = []
    for i in range(n):
        t = ('%s %d' % (base, i), '%d' % (i * 7919 % 1000003), '%s%x' % (base, rng.getrandbits(40)), '%c%c%c' % (97 + i % 26, 97 + i // 26 % 26, 97 + i // 676 % 26))[how]
        lines.append('# ' + t)
        if rng.random() < 0.002:
            lines.append(rng.choice(lines))
    return {'lines': lines, 'parser': parser, 'keep': 6}


def gen_long(rng):
    """Long headings that differ in one place, some of them repeated."""
    parser = rng.choice(M.ALL)
    n = G.mined_int(rng, 2, 960) if rng.random() < 0.5 else None
    n = n or rng.choice((20, 31, 40, 60, 64, 70, 100, 128, 200, 255, 256, 300, 500, 512, 700, 960))
    base = ''.join(rng.choice('abcdefgh ijklm-nop0123') for _ in range(n + 2)).strip(' #') + 'z'
    base = 'y' + base
    texts = [base]
    for _ in range(rng.randint(1, 5)):
        k = rng.choice((0, 1, len(base) - 1, len(base) - 2, len(base) // 2, rng.randrange(len(base))))
        texts.append(base[:k] + rng.choice('qrstuv') + base[k + 1:])
    texts.append(base + rng.choice(['1', '-1', 'x', '!']))
    lines = [G.heading_line(rng, rng.choice(texts), parser=parser) for _ in range(rng.randint(3, 9))]
    return {'lines': lines, 'parser': parser, 'keep': rng.choice((3, 6, 6))}


def _collisions():
    with open(os.path.join(VERIF, 'data', 'collisions.json'), encoding='utf-8') as f:
        return json.load(f)


def enum_collisions(tier):
    """Different texts that have the same checksum, or the same start or end of a digest."""
    pairs = _collisions()
    for parser in M.ALL:
        for name, a, b in pairs:
            yield {'lines': ['# ' + a, '# ' + b, '# ' + a], 'parser': parser, 'keep': 6}
        yield {'lines': ['# ' + x for p in pairs for x in p[1:]], 'parser': parser, 'keep': 6}
        yield {'lines': ['# ' + p[k] for k in (1, 2, 2) for p in pairs], 'parser': parser, 'keep': 6}


SMALL = ['# a', '## A', '# a!', '# b', '# a-1', '#### a', '# *a*', '# [a]']


def enum_docs(tier):
    top = 4 if tier == 'quick' else 6
    k = 0
    for n in range(1, top + 1):
        for combo in itertools.product(SMALL if n < 5 else SMALL[:6], repeat=n):
            k += 1
            for parser in M.ALL if n < 3 else (M.ALL[k % 6],):
                yield {'lines': list(combo), 'parser': parser, 'keep': (1, 3, 6)[k % 3], 'twice': k % 5 == 0}


def run_counter(case):
    """The functions that make one anchor, with a counter that the caller keeps."""
    parser = case['parser']
    for how in ('anchor', 'header', 'lines'):
        counter, seen = {}, {}
        wants, gots = [], []
        for t in case['texts']:
            if '\n' in t or '\r' in t or t.strip() != t or t == '' or t.endswith('\\') or len(t) > 300:
                raise Reject()
            if how == 'anchor':
                text, got = t, T.api.build_anchor_link(t, counter, parser)
            else:
                line = '# ' + t
                h = M.atx(line, parser)
                if h is None:
                    raise Reject()
                try:
                    text = M.label_checked(h[1], parser)
                except M.Err:
                    raise Reject()
                if how == 'header':
                    got = T.api.get_md_header(line, counter, 6, parser)[0]['text_anchor_link']
                else:
                    got = [h['text_anchor_link'] for h in T.api.get_md_header(line + '\n' + line, counter, 6, parser)]
            for _ in range(2 if how == 'lines' else 1):
                s = M.slug(text, parser)
                k = seen[s] = seen.get(s, 0) + 1
                wants.append(s if k == 1 or parser == 'redcarpet' else '%s-%d' % (s, k - 1))
            gots += got if how == 'lines' else [got]
        same(gots, wants, '%s: anchors of the texts one after the other (%s)' % (parser, how))
    return len(set(wants)) < len(case['texts']) or len(case['texts']) > 1


def gen_counter(rng):
    words = [simple(rng) for _ in range(2)] + ['foo', 'a']
    ts = []
    for _ in range(G.size(rng, 1, 60, 6)):
        t = rng.choice(words) if rng.random() < 0.6 else variants(rng, rng.choice(words))
        if '[' in t or '\\' in t:
            t = 'foo'
        ts.append(t.strip())
    return {'texts': [t for t in ts if t] or ['a'], 'parser': G.parser_of(rng)}


CHECK = Check('C05', 'documents whose headings share slugs (same text, or texts that differ in case, punctuation or '
              'markup); non-trivial: some slug occurs at least twice', [
                  Part('docs', run_doc, enum=enum_docs, rule='every sequence of up to 4 (6) of 8 headings'),
                  Part('random', run_doc, gen_doc, quick=16000, rule='random documents'),
                  Part('deep', run_doc, deep(gen_doc), quick=16, thorough=400, rule='the same after tens of thousands of other lines'),
                  Part('many', run_doc, gen_many, quick=300, thorough=6000, rule='up to thousands of repetitions'),
                  Part('distinct', run_doc, gen_distinct, quick=40, thorough=1500, rule='thousands of different headings'),
                  Part('alike', run_doc, gen_long, quick=6000, rule='long headings that differ in one place'),
                  Part('collisions', run_doc, enum=enum_collisions, rule='different headings that share a checksum or a part of a digest (data/collisions.json)'),
                  Part('counter', run_counter, gen_counter, quick=8000, rule='the API with a counter kept by the caller'),
              ], ['the model of slugs (C04, C06, C07)'])
