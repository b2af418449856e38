"""C24: parser dialects differ only where documented."""
import re

from .common import (after_padding, deep, Check, G, M, Part, Reject, Violation, build_text, lines_ok, mixtext, parse_toc, same, simple, text_of, T)

SAME = (('github', 'commonmarker'), ('cmark', 'goldmark'))


def toc(text, o, parser):
    return build_text(text, **dict(o, parser=parser))


def squeezed(toc_text, text, o):
    """The cmark TOC with the anchors that gitlab must give: those of cmark squeezed, then numbered."""
    nl = o.get('newline_string', '\n')
    if o.get('no_links') or toc_text == '':
        return toc_text
    lines = M.split_lines(text)[o.get('skip_lines', 0):]
    anchors = []
    seen = {}
    for _, level, label in M.headings(lines, 'cmark'):
        r = T.call(T.api.build_anchor_link, M.escape_brackets(label), {}, 'cmark')
        if r[0] != 'ok':
            raise Violation('anchor of %r for cmark: %r' % (label, r))
        a = re.sub('-{2,}', '-', r[1])
        n = seen.get(a, 0)
        seen[a] = n + 1
        if level <= o.get('keep_header_levels', 3):
            anchors.append('%s-%d' % (a, n) if n else a)
    entries = toc_text[:-len(nl)].split(nl)
    if len(entries) != len(anchors):
        raise Reject()  # not the business of this property
    return ''.join(e[:e.rfind('](#') + 3] + a + ')' + nl for e, a in zip(entries, anchors))


def run(case):
    o = case['opts']
    if not lines_ok(case['lines']):
        raise Reject()
    text = text_of(case)
    r = {p: toc(text, o, p) for p in M.FAMILY}
    for a, b in SAME:
        same(r[b], r[a], '%s against %s, %r' % (b, a, o))
    if r['cmark'][0] == 'exc':
        same(r['gitlab'], r['cmark'], 'gitlab against cmark, %r' % o)
    else:
        same(r['gitlab'][0], 'ok', 'gitlab against cmark, %r' % o)
        same(r['gitlab'][1], squeezed(r['cmark'][1], text, o), 'gitlab against cmark with hyphens squeezed, %r' % o)
    plain = '\t' not in text and '<' not in text
    if plain:
        same(r['github'], r['cmark'], 'github against cmark without tabs and HTML, %r' % o)
    return r['github'][0] == 'exc' or r['github'][1].count('\n') + r['github'][1].count('\r') > 1


def run_funcs(case):
    """The same relations for the functions that work on a line."""
    t, line = case['text'], case['line']
    if '\n' in t + line or '\r' in t + line:
        raise Reject()
    f = {}
    for p in M.FAMILY:
        f[p] = [T.call(T.api.build_anchor_link, t, {}, p), T.call(T.api.get_atx_heading, line, case['keep'], p, False),
                T.call(T.api.get_atx_heading, line, case['keep'], p, True), T.call(T.api.is_opening_code_fence, line, p),
                T.call(T.api.is_closing_code_fence, line, '```', False, p), T.call(T.api.is_closing_code_fence, line, '~~~~', False, p),
                T.call(T.api.remove_html_tags, t, p), T.call(T.api.remove_emphasis, t, p)]
    for a, b in SAME + (('cmark', 'gitlab'),):
        x, y = list(f[a]), list(f[b])
        if b == 'gitlab':
            x[0] = (x[0][0], re.sub('-{2,}', '-', x[0][1]))
        same(y, x, '%s against %s: %r, line %r' % (b, a, t, line))
    if '\t' not in t + line and '<' not in t + line:
        same(f['github'], f['cmark'], 'github against cmark: %r, line %r' % (t, line))
    return True


def text(rng):
    p = rng.random()
    if p < 0.5:
        return mixtext(rng)
    if p < 0.8:
        return G.soup(rng)
    s = list(mixtext(rng))
    for _ in range(rng.randint(1, 4)):
        s.insert(rng.randrange(len(s) + 1), rng.choice(['\t', '<', '>', '<b\x0bc>', '<a\tb>', '<!x y>', '<script>', '<Title>', '--', '  ', '- -', '\x0c']))
    return G.clean(''.join(s))


def gen(rng):
    lines = G.document(rng, text, levels=rng.choice(['any', 'coherent', 'coherent']), parser='github')
    if rng.random() < 0.3:
        lines = [x.replace('\t', ' ').replace('<', '(') for x in lines]
    o = G.options(rng, 'github')
    o.pop('parser')
    if rng.random() < 0.2:
        o['skip_lines'] = rng.randint(0, 6)
    return {'lines': lines, 'opts': o, 'eol': rng.choice(['\n', '\n', '\r\n', '\r']), 'final': rng.random() < 0.8}


def gen_funcs(rng):
    p = rng.random()
    line = (G.heading_line(rng, text(rng)) if p < 0.4 else G.near_line(rng) if p < 0.6 else G.fence_line(rng) if p < 0.85 else G.soup(rng))
    return {'text': text(rng), 'line': G.clean(line), 'keep': rng.randint(1, 7)}


def run_cli(case):
    o = case['opts']
    text_ = text_of(case)
    from ..core import ctx
    p = ctx().write(text_)
    args = []
    if o.get('ordered'):
        args += ['-o', o['list_marker']]
    r = {q: T.cli(['-c', q] + args + [p])[:2] for q in ('github', 'commonmarker', 'cmark', 'goldmark')}
    for a, b in SAME:
        same(r[b], r[a], 'command %s against %s' % (b, a))
    return r['github'][0] == 0 and r['github'][1] != ''


def gen_cli(rng):
    c = gen(rng)
    c['opts'] = {'ordered': rng.random() < 0.4, 'list_marker': rng.choice(['.', ')'])}
    return c


CHECK = Check('C24', 'documents and lines of every kind given to all five CommonMark-family parsers; non-trivial: an error or at least two '
              'entries (lines: all)', [
                  Part('doc', run, gen, quick=24000),
                  Part('deep', run, deep(gen), quick=8, thorough=200, rule='the same after tens of thousands of other lines'),
                  Part('long', run, after_padding(gen), quick=60, thorough=2000, rule='the same after hundreds or thousands of other lines'),
                  Part('funcs', run_funcs, gen_funcs, quick=60000, rule='anchors, headings, fences, HTML and emphasis of single lines'),
                  Part('command', run_cli, gen_cli, quick=1500),
              ], ['which lines are headings, and the numbering of equal anchors, are C01 to C05'])
