"""C08: every TOC entry renders as a single link showing the heading to its anchor."""
import itertools

from .common import (Check, G, M, Part, Reject, Violation, build_text, lines_ok, mixtext, same, show, T)
from . import render as R


def run_doc(case):
    parser, heads = case['parser'], case['texts']
    if not lines_ok(heads):
        raise Reject()
    good = []
    for t in heads:
        h = M.atx('# ' + t, parser)
        if h is None or '<' in h[1]:
            raise Reject()
        try:
            lab = M.label_checked(h[1], parser)
        except M.Err:
            raise Reject()
        if M.code_span_trap(lab):
            raise Reject()
        good.append((h[1], lab))
    opts = dict(case['opts'])
    got = build_text(G.join(['# ' + t for t in heads]), parser=parser, **opts)
    if got[0] != 'ok':
        raise Violation('%s: %r' % (parser, got))
    want = M.toc(G.join(['# ' + t for t in heads]), parser=parser)
    anchors = [x[x.rindex('](#') + 3:-1] for x in want[1].split('\n')[:-1]]
    items, tops = R.items(got[1])
    if items is None:
        raise Violation('%s: the TOC does not render as list items of one paragraph each: %s' % (parser, show(got[1])))
    same(len(items), len(heads), '%s: list items rendered from %s' % (parser, show(got[1])))
    for it, (text, lab), anchor in zip(items, good, anchors):
        kids = it.inline or []
        links = [c for c in kids if c.type == 'link_open']
        if len(links) != 1 or kids[0].type != 'link_open' or kids[-1].type != 'link_close' or any(
                c.type == 'image' for c in kids):
            raise Violation('%s: the entry of %r does not render as exactly one link: %s' % (
                parser, text, show([(c.type, c.content) for c in kids])))
        same(links[0].attrGet('href'), '#' + anchor, '%s: target of the entry of %r' % (parser, text))
        # Brackets shown literally; everything else as in the heading.
        # (Put into a link for comparison: the context of the first and last character counts.)
        ref = R.inline('[' + lab + '](#x)')
        if len([c for c in ref if c.type == 'link_open']) != 1 or ref[0].type != 'link_open' or ref[-1].type != 'link_close':
            raise Reject()
        ref = R.shown(ref)
        same(R.shown(kids).rstrip(' '), ref.rstrip(' '), '%s: visible text of the entry of %r' % (parser, text))
    return any(c in t for t in heads for c in '[]()\\!')


def enum_small(tier):
    top = 5 if tier == 'quick' else 6
    k = 0
    for n in range(1, top + 1):
        for combo in itertools.product('[]()\\a', repeat=n):
            t = ''.join(combo)
            k += 1
            yield {'texts': [t], 'parser': M.FAMILY[k % 5], 'opts': {}}


def text(rng):
    p = rng.random()
    if p < 0.55:
        t = G.brackets(rng)
    elif p < 0.7:
        t = G.soup(rng)
    elif p < 0.8:
        t = G.emph(rng)
    elif p < 0.9:
        t = G.plain(rng)
    else:
        t = G.brackets(rng) + '\\' * rng.randint(1, 6)
    t = G.clean(t).replace('<', '').replace('\x00', '').replace('`', '' if rng.random() < 0.5 else '`')
    t = t.strip(' \t#') or 'a'
    if M.code_span_trap(M.escape_brackets(t)):
        t = t.replace('`', '')
    return t.strip(' \t#') or 'a'


def gen(rng):
    o = {}
    if rng.random() < 0.3:
        o = {'ordered': True, 'list_marker': rng.choice('.)')}
    elif rng.random() < 0.3:
        o = {'list_marker': rng.choice('-+*')}
    ts = [text(rng) for _ in range(rng.choice((1, 1, 1, 2, 3, 12)))]
    ts = [t for t in ts if t.strip(' \t\n\x0b\x0c\r')] or ['a']
    return {'texts': ts, 'parser': G.parser_of(rng, True), 'opts': o}


def gen_long(rng):
    n = G.mined_int(rng, 300, 998) or rng.choice((500, 900, 980, 998))
    unit = ''.join(rng.choice(G.BRACK) for _ in range(rng.randint(1, 5))).strip(' \t#') or '['
    t = (unit * n)[:n].strip(' \t#') or 'a'
    return {'texts': [t], 'parser': G.parser_of(rng, True), 'opts': {}}


CHECK = Check('C08', 'headings full of brackets, parentheses, backslashes, backticks and emphasis, without raw HTML and '
              'autolinks; non-trivial: one of []()\\! occurs', [
                  Part('small', run_doc, enum=enum_small, rule='every text of up to 5 (6) characters over [ ] ( ) backslash a'),
                  Part('random', run_doc, gen, quick=40000),
                  Part('long', run_doc, gen_long, quick=300, thorough=5000, rule='labels near the length limit'),
              ], ['markdown-it-py renders links and list items as CommonMark says'])
