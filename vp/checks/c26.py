"""C26: arguments outside their domain are refused, those inside it are not."""
from .common import (Check, G, M, Part, Reject, Violation, ctx, lines_ok, same, show, simple, T)


def read_bytes(path):
    with open(path, 'rb') as f:
        return f.read()


BULLETS = ('-', '+', '*')


def closers(parser):
    return ('.',) if parser == 'redcarpet' else ('.', ')')


def outcome(fn, *a, **kw):
    try:
        return ('ok', fn(*a, **kw))
    except ValueError:
        return ('exc', 'ValueError')
    except Exception as e:
        if type(e).__module__ == T.exceptions.__name__:
            return ('exc', type(e).__name__)
        raise


REFUSED = ('exc', 'ValueError')


def marker_ok(marker, ordered, parser):
    return marker in (closers(parser) if ordered else BULLETS)


def run_line(case):
    """build_toc_line_without_indentation and build_toc_line."""
    level, index, marker, ordered, parser, spaces = (case[k] for k in ('level', 'index', 'marker', 'ordered', 'parser', 'spaces'))
    head = {'header_type': level, 'text_original': case['text'], 'text_anchor_link': case['anchor'], 'visible': True}
    good = level >= 1 and index >= 1 and marker_ok(marker, ordered, parser)
    hit = not good
    for no_links in (False, True):
        got = outcome(T.api.build_toc_line_without_indentation, dict(head), ordered, no_links, index, parser, marker)
        body = case['text'] if no_links else '[%s](#%s)' % (case['text'], case['anchor'])
        want = ('ok', ('%d%s ' % (index, marker) if ordered else marker + ' ') + body) if good else REFUSED
        same(got, want, 'build_toc_line_without_indentation(%r, %r, %r, %r, %r, %r)' % (head, ordered, no_links, index, parser, marker))
    got = outcome(T.api.build_toc_line, case['text'], spaces)
    same(got, ('ok', ' ' * spaces + case['text']) if spaces >= 0 else REFUSED, 'build_toc_line(%r, %r)' % (case['text'], spaces))
    return hit or spaces < 0


def run_indent(case):
    """compute_toc_line_indentation_spaces and increase_index_ordered_list refuse impossible levels."""
    cur, prev, index, marker, ordered, parser = (case[k] for k in ('cur', 'prev', 'index', 'marker', 'ordered', 'parser'))
    if cur > 6 or prev > 6:
        raise Reject()
    good = cur >= 1 and prev >= 0 and index >= 1 and marker_ok(marker, ordered, parser)
    log = T.api.init_indentation_log(parser, marker)
    got = outcome(T.api.compute_toc_line_indentation_spaces, cur, prev, parser, ordered, marker, log, index)
    same(got[0] == 'ok', good, 'compute_toc_line_indentation_spaces(%r): %r' % (case, got))
    if not good:
        same(got, REFUSED, 'compute_toc_line_indentation_spaces(%r)' % (case,))
        same(log, T.api.init_indentation_log(parser, marker), 'the log after a refused call')
    if parser != 'redcarpet':
        # A log that does not have one element per heading level.
        odd = T.api.init_indentation_log(parser, marker)
        if (cur + prev) % 2:
            odd.pop(6)
        else:
            odd[7] = dict(odd[6])
        copy = {k: dict(v) for k, v in odd.items()}
        same(outcome(T.api.compute_toc_line_indentation_spaces, cur, prev, parser, ordered, marker, odd, index), REFUSED, 'indentation with a log of %d elements' % len(odd))
        same(odd, copy, 'the log after a refused call')
    count = {'h%d' % i: 3 for i in range(1, 7)}
    before = dict(count)
    got = outcome(T.api.increase_index_ordered_list, count, prev, cur, parser)
    if cur >= 1 and prev >= 0:
        same(got, ('ok', None), 'increase_index_ordered_list(%r)' % (case,))
        before['h%d' % cur] = 1 if 0 < prev < cur else 4
        same(count, before, 'counters after increase_index_ordered_list(%r, %r)' % (prev, cur))
    else:
        same(got, REFUSED, 'increase_index_ordered_list(%r)' % (case,))
        same(count, before, 'counters after a refused call')
    return not good


def run_toc(case):
    """build_toc and the command with impossible limits, numbers and markers."""
    if not lines_ok(case['lines']):
        raise Reject()
    parser, keep, skip, marker, ordered = (case[k] for k in ('parser', 'keep', 'skip', 'marker', 'ordered'))
    lines = ['# first'] + case['lines']
    p = ctx().write(G.join(lines))
    before = read_bytes(p)
    r = outcome(T.api.build_toc, p, ordered=ordered, keep_header_levels=keep, skip_lines=skip, list_marker=marker,
                parser=parser, no_list_coherence=True, no_links=True, newline_string='\n')
    bad = keep < 1 or skip < 0 or not ordered and marker not in BULLETS
    if bad:
        # Without a line to look at there is nothing to refuse a level or a marker for.
        if skip <= 0:
            same(r, REFUSED, 'build_toc with %r' % case)
    else:
        want = M.toc(G.join(lines), ordered=ordered, keep_header_levels=keep, skip_lines=skip, list_marker=marker, parser=parser,
                     no_list_coherence=True, no_links=True)
        strip = lambda s: [x.lstrip(' ') for x in s.split('\n')]  # noqa: E731
        same((r[0], strip(r[1])), (want[0], strip(want[1])), 'build_toc with %r' % case)
    if case['cli'] and marker.strip():
        argv = ['-c', '-l', '-s%d' % skip] if skip >= 0 else ['-c', '-l', '--skip-lines=%d' % skip]
        argv += [parser] + (['-o%s' % marker] if ordered else ['-u%s' % marker]) + ['-l', str(keep)] if keep >= 0 else [parser, '--header-levels=%d' % keep]
        code, out, err = T.cli(argv + [p])
        ok = skip >= 0 and 1 <= keep <= 6 and marker_ok(marker, ordered, parser)
        same(code == 0, ok, 'exit status %r of %r' % (code, argv))
        if not ok:
            same((code in (1, 2), out), (True, ''), 'status and output of %r' % (argv,))
    same(read_bytes(p), before, 'the document')
    return bad


def run_anchor(case):
    """An anchor is made of one line."""
    text, parser = case['text'], case['parser']
    many = len(M.split_lines(text.strip('\r\n'))) > 1
    counter = {}
    got = outcome(T.api.build_anchor_link, text, counter, parser)
    if many:
        same(got, ('exc', 'StringCannotContainNewlines'), 'anchor of %r for %s' % (text, parser))
        same(counter, {}, 'the counter of duplicates after a refused text')
    elif got[0] != 'ok':
        raise Violation('anchor of %r for %s: %r' % (text, parser, got))
    got = outcome(T.api.get_atx_heading, text, case['keep'], parser, True)
    same(got[0] == 'ok', case['keep'] >= 1, 'get_atx_heading(%r, %r): %s' % (text, case['keep'], show(got)))
    if case['keep'] < 1:
        same(got, REFUSED, 'get_atx_heading with levels %d' % case['keep'])
        same(outcome(T.api.get_md_header, text, {}, case['keep'], parser, True), REFUSED, 'get_md_header with levels %d' % case['keep'])
    return many or case['keep'] < 1


def run_files(case):
    """Files and texts that do not go together: nothing is written."""
    n, m, dash = case['files'], case['texts'], case['dash']
    if not 0 <= n <= 6 or not 0 <= m <= 6:
        raise Reject()
    paths = [ctx().write('# a%d\n\n<!--TOC-->\n\nrest\n' % i, 'f%d.md' % i) for i in range(n)]
    old = [read_bytes(p) for p in paths]
    names = list(paths)
    if dash is not None:
        names[min(dash, n):min(dash, n)] = ['-']
    texts = ['- x%d\n' % i for i in range(m)]
    try:
        r = ('ok', T.api.write_strings_on_files_between_markers(names, texts, '<!--TOC-->'))
    except Exception as e:
        r = ('exc', type(e).__name__)
    new = [read_bytes(p) for p in paths]
    if len(names) != m:
        same(r, REFUSED, '%d files, %d texts' % (len(names), m))
        same(new, old, 'files after a refused call')
    elif dash is not None:
        same(r, ('exc', 'StdinIsNotAFileToBeWritten'), 'writing to standard input')
        k = min(dash, n)
        same(new[k:], old[k:], 'files after the refused one')
    else:
        same(r[0], 'ok', 'writing')
        for i, b in enumerate(new):
            same(b, b'# a%d\n\n<!--TOC-->\n\n- x%d\n\n<!--TOC-->\n\nrest\n' % (i, i), 'file %d' % i)
    got = outcome(T.api.write_string_on_file_between_markers, '-', 'x', '<!--TOC-->')
    same(got, ('exc', 'StdinIsNotAFileToBeWritten'), 'writing to standard input')
    return len(names) != m or dash is not None


MARKS = ['-', '+', '*', '.', ')', '', ' ', '--', '1.', '- ', 'a', '\u2022', '\n', '#', ']']
NUMS = (-10**9, -7, -1, 0, 1, 2, 3, 6)


def enum_line(tier):
    for p in M.ALL:
        for level in (-1, 0, 1, 6):
            for index in (-3, 0, 1, 10, 100, 1000, 10000, 100000, 1000000, 10**7, 10**8, 999999999):
                for ordered in (False, True):
                    for mk in MARKS:
                        yield {'level': level, 'index': index, 'marker': mk, 'ordered': ordered, 'parser': p, 'spaces': index % 1000 if index > 0 else index,
                               'text': 'a [b', 'anchor': 'a-b'}


def enum_indent(tier):
    for p in M.ALL:
        for cur in (-1, 0, 1, 2, 4, 6):
            for prev in (-2, -1, 0, 1, 3, 6):
                for index in (-1, 0, 1, 12, 12345, 1234567, 999999999):
                    for ordered in (False, True):
                        for mk in ('-', '+', '*', '.', ')', '', 'x'):
                            yield {'cur': cur, 'prev': prev, 'index': index, 'marker': mk, 'ordered': ordered, 'parser': p}


def enum_files(tier):
    for n in range(4):
        for m in range(5):
            for dash in (None, 0, 1, 2):
                yield {'files': n, 'texts': m, 'dash': dash}


def num(rng):
    return rng.choice(NUMS) if rng.random() < 0.8 else rng.randint(-50, 50)


def gen_line(rng):
    return {'level': rng.choice((-1, 0, 1, 1, 2, 3, 6, 7)), 'index': rng.choice((0, 1, 1, 5, 77, -1, 10**6, 999999999, 10**rng.randint(1, 9) - rng.randint(0, 1), G.mined_int(rng, 1, 10**9 - 1) or 9)), 'marker': rng.choice(MARKS[:6] + [G.any_char(rng)]),
            'ordered': rng.random() < 0.5, 'parser': G.parser_of(rng), 'spaces': rng.randint(-3, 60),
            'text': G.clean(G.soup(rng)), 'anchor': G.clean(G.plain(rng))}


def gen_toc(rng):
    ordered = rng.random() < 0.5
    good = rng.random() < 0.6
    return {'lines': G.document(rng, text=simple, typical=5), 'parser': G.parser_of(rng), 'keep': num(rng) if rng.random() < 0.6 else 6,
            'skip': rng.choice((0, 0, 0, 1, 2, -1, -5)), 'marker': rng.choice(('.', ')') if ordered else BULLETS) if good else rng.choice(MARKS[:8]),
            'ordered': ordered, 'cli': rng.random() < 0.15}


def gen_anchor(rng):
    parts = [G.plain(rng, 3) for _ in range(rng.randint(1, 3))]
    t = ''
    for i, x in enumerate(parts):
        t += (rng.choice(('\n', '\r', '\r\n', '\n\n', '\x0b', '\u2028', '\x85')) if i else '') + x
    if rng.random() < 0.3:
        t += rng.choice(('\n', '\r\n', '\r'))
    return {'text': t, 'parser': G.parser_of(rng), 'keep': rng.choice((1, 6, 3, 0, -1, 7))}


CHECK = Check('C26', 'calls with arguments inside and outside their domain; non-trivial: some argument is outside it', [
    Part('lines', run_line, enum=enum_line, rule='levels x indices x markers x parsers'),
    Part('indents', run_indent, enum=enum_indent, rule='levels x levels x indices x markers x parsers'),
    Part('files', run_files, enum=enum_files, rule='numbers of files x numbers of texts x place of -'),
    Part('line', run_line, gen_line, quick=20000),
    Part('toc', run_toc, gen_toc, quick=8000, rule='whole documents through build_toc and the command'),
    Part('anchor', run_anchor, gen_anchor, quick=20000, rule='texts of one or several lines'),
], ['the domains are those of the documentation of the functions and of the command'])
