"""C27: the documented building blocks, put together by hand, give what the whole gives."""
import os

from .common import (after_padding, deep, Check, G, M, Part, Reject, build_text, ctx, lines_ok, mixtext, same, simple, T)
from .c26 import closers

A = T.api


def walk(lines, opts):
    """A TOC built line by line with the functions of docs/api.rst."""
    parser = opts['parser']
    ordered, marker = opts['ordered'], opts['list_marker']
    seen, numbers = {}, {}
    log = A.init_indentation_log(parser, marker)
    fence = None
    prev = first = 0
    out = []
    base = 0
    for k, line in enumerate(lines):
        if fence is not None:
            if A.is_closing_code_fence(line, fence, k == len(lines) - 1, parser):
                fence = None
            continue
        fence = A.is_opening_code_fence(line, parser)
        if fence is not None:
            continue
        heads = A.get_md_header(line, seen, opts['keep_header_levels'], parser, opts['no_links'])
        same(len(heads), 1, 'number of answers for one line')
        h = heads[0]
        if h is None or not h['visible']:
            continue
        level = h['header_type']
        index = 1
        if ordered and not opts['constant_ordered_list']:
            A.increase_index_ordered_list(numbers, prev, level, parser)
            index = numbers['h%d' % level]
        spaces = 0
        if not opts['no_indentation']:
            if first and (level < first or level > prev + 1):
                raise Reject()
            first = first or level
            A.compute_toc_line_indentation_spaces(level, prev, parser, ordered, marker, log, index)
            spaces = log[level]['indentation_spaces']
            if not out:
                base = spaces
            spaces -= base
        item = A.build_toc_line_without_indentation(h, ordered, opts['no_links'], index, parser, marker)
        out.append(A.build_toc_line(item, spaces) + '\n')
        prev = level
    return ''.join(out)


def run(case):
    lines, opts = case['lines'], dict(case['opts'])
    if not lines_ok(lines) or opts['list_marker'] not in (closers(opts['parser']) if opts['ordered'] else '-+*'):
        raise Reject()
    whole = build_text(G.join(lines), **opts)
    try:
        parts = T.call(walk, [x + case['end'] for x in lines], opts)
    except Reject:
        same(whole[0], 'exc', 'an incoherent document')
        raise
    same(parts, whole, 'TOC put together by hand, with %r' % opts)
    return whole[0] == 'ok' and whole[1].count('\n') > 1


def run_fence(case):
    """The functions about fences, one by one."""
    line, parser, fence = case['line'], case['parser'], case['fence']
    if '\n' in line or '\r' in line or len(fence) < 3 or fence.strip(fence[0]) or fence[0] not in '`~':
        raise Reject()
    o = M.fence_open(line, parser)
    same(A.is_opening_code_fence(line + case['end'], parser), None if o is None else o[0] * o[1], 'is_opening_code_fence(%r, %r)' % (line, parser))
    c = M.fence_close(line, (fence[0], len(fence)), parser)
    same(bool(A.is_closing_code_fence(line + case['end'], fence, False, parser)), c, 'is_closing_code_fence(%r, %r, False, %r)' % (line, fence, parser))
    if c or A.is_valid_code_fence_indent(line, parser):
        same(bool(A.is_closing_code_fence(line + case['end'], fence, True, parser)), True, 'is_closing_code_fence at the end of the document')
    bad = case.get('bad')
    if bad:
        same(bool(A.is_closing_code_fence(line + case['end'], bad, False, parser)), False, 'is_closing_code_fence(%r, %r), which is no fence' % (line, bad))
        same(bool(A.is_closing_code_fence(line + case['end'], bad, True, parser)), False, 'is_closing_code_fence(%r, %r, True), which is no fence' % (line, bad))
    same(bool(A.is_valid_code_fence_indent(line, parser)), len(line) - len(line.lstrip(' ')) <= 3, 'is_valid_code_fence_indent(%r)' % line)
    for q in ('redcarpet',):
        same(A.is_opening_code_fence(line, q), None, 'redcarpet: is_opening_code_fence(%r)' % line)
        same(bool(A.is_closing_code_fence(line, fence, False, q)), False, 'redcarpet: is_closing_code_fence(%r)' % line)
    return o is not None or c


def run_text(case):
    """Small functions on texts."""
    text, parser = case['text'], case['parser']
    t = text.replace('\r\n', '\n').replace('\r', '\n').strip('\n')
    same(A.replace_and_split_newlines(text), t.split('\n'), 'replace_and_split_newlines(%r)' % text)
    rs = [range(a, b, s) for a, b, s in case['ranges'] if s]
    gone = set()
    for r in rs:
        gone.update(r)
    same(A.filter_indices_from_line(text, list(rs)), ''.join(c for i, c in enumerate(text) if i not in gone), 'filter_indices_from_line(%r, %r)' % (text, rs))
    if parser != 'redcarpet':
        same(A.anchor_link_punctuation_filter(text, parser), ''.join(c for c in text if c.isalnum() or c in '_- '), 'anchor_link_punctuation_filter(%r, %r)' % (text, parser))
    # The fields of a header are those of the two functions it is made of.
    for no_links in (True, False):
        a = T.call(A.get_atx_heading, text, 4, parser, no_links)
        seen = {}
        b = T.call(A.get_md_header, text, seen, 4, parser, no_links)
        if a[0] == 'exc':
            same(b, a, 'get_md_header(%r, %r)' % (text, parser))
            continue
        mine = {}
        want = []
        for r in a[1]:
            if r['header_type'] is None:
                want.append(None)
            else:
                want.append((r['header_type'], r['header_text_trimmed'], A.build_anchor_link(r['header_text_trimmed'].rstrip(' '), mine, parser), bool(r['visible'])))
        got = [h and (h['header_type'], h['text_original'], h['text_anchor_link'], bool(h['visible'])) for h in b[1]]
        same(got, want, 'get_md_header(%r, %r, %r)' % (text, parser, no_links))
        same(seen, mine, 'counter of duplicates')
    return '\n' in t or bool(gone)


def run_defaults(case):
    """Arguments left out have the documented values."""
    lines, t = case['lines'], case['text']
    if not lines_ok(lines) or '\n' in t or '\r' in t:
        raise Reject()
    p = ctx().write(G.join(lines))
    full = dict(ordered=False, no_links=False, no_indentation=False, no_list_coherence=False, keep_header_levels=3, parser='github', list_marker='-',
                skip_lines=0, constant_ordered_list=False, newline_string=os.linesep)
    drop = {k: v for i, (k, v) in enumerate(sorted(full.items())) if case['mask'] >> i & 1}
    change = dict(case['change'])
    want = T.build(p, **dict(full, **change))
    same(T.build(p, **dict(drop, **change)), want, 'build_toc with only %r' % dict(drop, **change))
    for o in (dict(drop, **change), change):
        got = T.call(A.build_multiple_tocs, [p, p], **o)
        same(got, ('ok', [want[1]] * 2) if want[0] == 'ok' else want, 'build_multiple_tocs with only %r' % o)
    for x in lines[:6] + [t]:
        same(T.call(A.get_atx_heading, x), T.call(A.get_atx_heading, x, 3, 'github', False), 'get_atx_heading(%r)' % x)
        same(T.call(A.get_md_header, x, {}), T.call(A.get_md_header, x, {}, 3, 'github', False), 'get_md_header(%r)' % x)
        same(A.is_opening_code_fence(x), A.is_opening_code_fence(x, 'github'), 'is_opening_code_fence(%r)' % x)
        same(A.is_closing_code_fence(x, '```'), A.is_closing_code_fence(x, '```', False, 'github'), 'is_closing_code_fence(%r)' % x)
        same(A.is_valid_code_fence_indent(x), A.is_valid_code_fence_indent(x, 'github'), 'is_valid_code_fence_indent(%r)' % x)
        same(A.build_anchor_link(x, {}), A.build_anchor_link(x, {}, 'github'), 'build_anchor_link(%r)' % x)
        same(A.remove_html_tags(x), A.remove_html_tags(x, 'github'), 'remove_html_tags(%r)' % x)
        same(A.remove_emphasis(x), A.remove_emphasis(x, 'github'), 'remove_emphasis(%r)' % x)
        same(A.anchor_link_punctuation_filter(x), A.anchor_link_punctuation_filter(x, 'github'), 'anchor_link_punctuation_filter(%r)' % x)
        same(A.build_toc_line(x), x, 'build_toc_line(%r)' % x)
        h = {'header_type': 1, 'text_original': x, 'text_anchor_link': 'y', 'visible': True}
        same(A.build_toc_line_without_indentation(h), '- [%s](#y)' % x, 'build_toc_line_without_indentation')
        same(A.build_toc_line_without_indentation(h, True, list_marker='.'), '1. [%s](#y)' % x, 'build_toc_line_without_indentation')
    same(A.init_indentation_log(), A.init_indentation_log('github', '-'), 'init_indentation_log()')
    a, b = A.init_indentation_log(), A.init_indentation_log()
    for cur, prev in ((1, 0), (2, 1), (1, 2), (2, 1), (3, 2)):
        short = {k: v for k, v in (('header_type_curr', cur), ('header_type_prev', prev)) if v != {'header_type_curr': 1, 'header_type_prev': 0}[k]}
        A.compute_toc_line_indentation_spaces(indentation_log=a, **short)
        A.compute_toc_line_indentation_spaces(cur, prev, 'github', False, '-', b, 1)
        same(a, b, 'compute_toc_line_indentation_spaces(%r)' % short)
    a, b = {}, {}
    for i, j in ((0, 1), (1, 2), (2, 2), (2, 1)):
        A.increase_index_ordered_list(a, i, j)
        A.increase_index_ordered_list(b, i, j, 'github')
    same(a, b, 'increase_index_ordered_list')
    r = []
    for k in (0, 1):
        q = ctx().write('<!--TOC-->\n', 'q%d.md' % k)
        A.write_string_on_file_between_markers(q, '- x', '<!--TOC-->', *([os.linesep] if k else []))
        with open(q, 'rb') as f:
            r.append(f.read())
        A.write_strings_on_files_between_markers([q], ['- y'], '<!--TOC-->', *([os.linesep] if k else []))
        with open(q, 'rb') as f:
            r.append(f.read())
    same(r[:2], r[2:], 'the default newline string')
    return want[0] == 'ok' and want[1] != ''


def gen_defaults(rng):
    o = G.options(rng)
    ch = {}
    for k in sorted(o):
        if rng.random() < 0.3 and k != 'newline_string':
            ch[k] = o[k]
    if 'list_marker' in ch and not (ch.get('ordered') or ch.get('constant_ordered_list')) and ch['list_marker'] not in '-+*':
        ch.pop('list_marker')
    if ch.get('list_marker') is None:
        ch.pop('list_marker', None)
    return {'lines': G.document(rng, text=simple if rng.random() < 0.6 else mixtext, typical=6), 'text': G.soup(rng), 'mask': rng.randrange(1024) if rng.random() < 0.7 else 0,
            'change': ch}


def gen(rng):
    o = G.options(rng)
    ordered = bool(o.get('ordered') or o.get('constant_ordered_list'))
    p = o['parser']
    opts = {'parser': p, 'ordered': ordered, 'constant_ordered_list': bool(o.get('constant_ordered_list')), 'no_links': rng.random() < 0.3,
            'no_indentation': rng.random() < 0.4, 'keep_header_levels': rng.randint(1, 6), 'newline_string': '\n',
            'list_marker': rng.choice(closers(p)) if ordered else rng.choice('-+*')}
    text = rng.choice([simple, mixtext, lambda r: r.choice(['a', 'b', 'A'])])
    if opts['no_indentation']:
        lines = G.document(rng, text=text, parser=p)
    else:
        lines = []
        level = rng.randint(1, 3)
        low = level
        for _ in range(G.size(rng, 1, 60, 8)):
            lines.append('#' * level + ' ' + text(rng))
            if rng.random() < 0.2:
                f = rng.choice(['```', '~~~', '    # x', 'x', '', '``` a', '  ~~~~', '`````', '~~~ `'])
                lines.append(f)
            level = rng.randint(low, min(6, level + 1))
    return {'lines': lines, 'opts': opts, 'end': rng.choice(['\n', '\n', ''])}


def gen_fence(rng):
    c = rng.choice('`~')
    d = c if rng.random() < 0.8 else rng.choice('`~')
    n = rng.randint(3, 7) if rng.random() < 0.8 else G.size(rng, 3, 300, 12)
    line = ' ' * rng.choice((0, 0, 1, 2, 3, 4)) + d * max(0, n + rng.choice((0, 0, 1, -1, -2, 3))) + rng.choice(['', '', '', ' ', '\t', '  \t ', ' a', 'x', ' a`b', '~', '`', ' ~~~', '\x0b', '\u00a0', G.any_char(rng), '#'])
    if rng.random() < 0.1:
        line = G.near_line(rng)
    return {'line': G.clean(line), 'fence': c * n, 'bad': rng.choice(['', '', '``', '~', '``~', '~~~`', '````~', '``` a', 'abc', '#', '***']), 'parser': G.parser_of(rng, True), 'end': rng.choice(['\n', ''])}


def gen_text(rng):
    p = rng.random()
    if p < 0.4:
        t = G.soup(rng)
    else:
        t = ''
        for _ in range(rng.randint(1, 5)):
            t += rng.choice(['', '#' * rng.randint(1, 7) + ' ']) + (mixtext(rng) if rng.random() < 0.5 else rng.choice(['a', 'b']))
            t += rng.choice(['\n', '\r', '\r\n', '\n\n', '', '\n\r'])
    n = len(t)
    return {'text': t, 'parser': G.parser_of(rng),
            'ranges': [[rng.randint(0, n + 2), rng.randint(0, n + 2), rng.choice((1, 1, 1, 2, 3))] for _ in range(rng.randint(0, 4))]}


CHECK = Check('C27', 'documents, lines and texts; non-trivial: the TOC has at least two entries; the line opens or closes a fence; the text '
              'has several lines or loses characters', [
                  Part('whole', run, gen, quick=12000, rule='the documented functions put together line by line against build_toc'),
                  Part('deep', run, deep(gen), quick=8, thorough=200, rule='the same after tens of thousands of other lines'),
                  Part('long', run, after_padding(gen), quick=60, thorough=2000, rule='the same after hundreds or thousands of other lines'),
                  Part('fence', run_fence, gen_fence, quick=40000, rule='fence functions against the model'),
                  Part('defaults', run_defaults, gen_defaults, quick=6000, rule='calls that leave arguments out against calls with the documented values'),
                  Part('text', run_text, gen_text, quick=30000, rule='functions on texts against their description'),
              ], ['the walker of this file is the composition that the documentation of the functions describes'])
