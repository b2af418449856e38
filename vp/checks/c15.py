"""C15: updating in place twice changes nothing the second time."""
import re

from .common import (deep, Check, G, M, Part, Reject, Violation, ctx, lines_ok, mixtext, same, show, simple, text_of, T)
from . import files as F
from .c14 import ok_file


def cli_args(o, m, extra=()):
    a = list(extra)
    if o.get('no_links'):
        a.append('-l')
    if o.get('no_indentation'):
        a.append('-i')
    elif o.get('no_list_coherence'):
        a.append('-c')
    if o.get('newline_string'):
        a += ['-n', {'\n': r'\n', '\r': r'\r', '\r\n': r'\r\n'}[o['newline_string']]]
    if o.get('skip_lines'):
        a += ['-s', str(o['skip_lines'])]
    a += ['--toc-marker=' + m]
    a.append(o['parser'])
    closers = ('.', ')') if o['parser'] != 'redcarpet' else ('.',)
    if o.get('ordered'):
        a.append('--ordered-list-marker=' + (o['list_marker'] if o.get('list_marker') in closers else '.'))
    elif o.get('list_marker') in ('-', '+', '*'):
        a.append('--unordered-list-marker=' + o['list_marker'])
    if o.get('constant_ordered_list'):
        a.append('-c')
    a += ['-l', str(o.get('keep_header_levels', 3))]
    return a


def known_defect(doc, o):
    """The recorded finding: without links, a first entry whose text starts with a tab or VT."""
    if not o.get('no_links'):
        return False
    k = {x: v for x, v in o.items() if x not in ('newline_string',)}
    r = M.toc(doc, **k)
    return r[0] == 'ok' and re.match(r' *(?:[-+*]|\d+[.)]) [\t\v]', r[1]) is not None


def domain(lines, m, o, text):
    if not ok_file(lines, m):
        raise Reject()
    pos = [i for i, x in enumerate(lines) if x.strip() == m]
    if not pos or o.get('skip_lines', 0) > pos[0]:
        raise Reject()
    if known_defect(text, o):
        raise Reject()
    where = M.locate(lines, m)
    if where[0] == 'pair':
        # A heading or a fence within the old TOC goes away with it: the next TOC differs rightly.
        kept = lines[:where[1] + 1] + lines[where[2]:]
        if [h[1:] for h in M.headings(lines, o['parser'])] != [h[1:] for h in M.headings(kept, o['parser'])]:
            raise Reject()


def update(name, o, m, how):
    """One in-place run: (reported unchanged or None, content)."""
    p = ctx().path(name)
    if how == 'api':
        r = T.call(T.api.build_toc, p, **o)
        if r[0] == 'exc':
            return r
        eq = T.api.write_string_on_file_between_markers(p, r[1], m, o.get('newline_string', '\n'))
        return ('ok', bool(eq), ctx().read(name))
    r = T.cli(cli_args(o, m, ['-p', '-d']) + [p])
    if r[0] == 1:
        return ('exc', r[2].strip().split('\n')[-1].split('.')[-1])
    if r[0] not in (0, 128) or r[1] != '':
        raise Violation('command: %r' % (r,))
    return ('ok', r[0] == 0, ctx().read(name))


def run(case):
    m, lines, o = case['marker'], case['lines'], dict(case['opts'])
    text = text_of(case)
    domain(lines, m, o, text)
    ctx().write(text)
    first = update('doc.md', o, m, case['how'])
    if first[0] == 'exc':
        same(ctx().read(), text.encode(), 'file after an error')
        return False
    if m in [x.strip() for x in M.split_lines(M.toc(text, **{**o, 'newline_string': '\n'})[1])]:
        raise Reject()
    for i in range(case.get('more', 1)):
        second = update('doc.md', o, m, case['how'] if i == 0 else ('api', 'cli')[i % 2])
        if second[0] != 'ok':
            raise Violation('second run: %r' % (second,))
        same(second[2], first[2], 'file after the second run, %r' % o)
        same(second[1], True, 'report of the second run, %r' % o)
    return first[2] != text.encode()


def run_edit(case):
    """Update, edit the headings, update: as if the TOC had been written for the first time."""
    m, o = case['marker'], dict(case['opts'])
    pre, post, pre2, post2 = case['pre'], case['post'], case['pre2'], case['post2']
    for part in (pre, post, pre2, post2):
        if not lines_ok(part) or any(x.strip() == m for x in part):
            raise Reject()
    a, b = G.join(pre + [m] + post), G.join(pre2 + [m] + post2)
    for t, l in ((a, pre), (b, pre2)):
        domain(l + [m], m, o, t)
    ctx().write(a)
    r = update('doc.md', o, m, case['how'])
    if r[0] == 'exc':
        raise Reject()
    t1 = re.sub('\r\n|\r', '\n', r[2].decode())
    lines = t1[:-1].split('\n')
    same(lines[:len(pre)], pre, 'lines before the block')
    same(lines[len(lines) - len(post):] if post else [], post, 'lines after the block')
    block = lines[len(pre):len(lines) - len(post)]
    if m in [x.strip() for x in block[1:-1]]:
        raise Reject()
    ctx().write(G.join(pre2 + block + post2))
    ctx().write(b, 'fresh.md')
    one = update('doc.md', o, m, case['how'])
    two = update('fresh.md', o, m, case['how'])
    if two[0] == 'exc':
        same(one[0], 'exc', 'outcome after the edit')
        return False
    same(one[0], 'ok', 'outcome after the edit')
    same(one[2], two[2], 'file after edit and update, against an update of the bare marker, %r' % o)
    again = update('doc.md', o, m, case['how'])
    same(again[1:], (True, one[2]), 'run after that')
    return pre + post != pre2 + post2


def opts(rng):
    o = G.options(rng)
    o.pop('newline_string', None)
    if rng.random() < 0.25:
        o['newline_string'] = rng.choice(['\n', '\r\n', '\r'])
    if rng.random() < 0.6:
        o['no_list_coherence'] = True
    if o.get('no_indentation'):
        o.pop('no_list_coherence', None)
    return o


def heads(rng, parser):
    out = []
    for _ in range(G.size(rng, 0, 30, 4)):
        p = rng.random()
        if p < 0.6:
            t = simple(rng) if rng.random() < 0.7 else mixtext(rng)[:200].strip() or 'x'
            if rng.random() < 0.08:
                t = rng.choice(['', '-', '- x', '1. x', '\\', 'a\\', '#', '##', '1)', '*', '\u00a0', '\x0c', '> x', '`', '[', '<!--', '-->', '<!-- x'])
            out.append('#' * rng.choice((1, 1, 2, 2, 3, 4)) + ' ' + t)
        elif p < 0.7:
            out.append(rng.choice(['```', '~~~']))
        else:
            out.append(rng.choice(['', 'x', '- item', 'text', '> q']))
    return [G.clean(x) for x in out]


def gen(rng):
    m = F.marker_of(rng)
    o = opts(rng)
    if rng.random() < 0.5:
        lines = F.file_lines(rng, m)
        if not any(x.strip() == m for x in lines):
            lines.append(m)
    else:
        lines = heads(rng, o['parser']) + [m] + heads(rng, o['parser'])
        lines = [x for x in lines if x.strip() != m or x == m]
    pos = [i for i, x in enumerate(lines) if x.strip() == m]
    if pos and pos[0] and rng.random() < 0.2:
        o['skip_lines'] = rng.randint(0, pos[0])
    return {'marker': m, 'lines': lines, 'eol': rng.choice(['\n', '\n', '\r\n', '\r']), 'final': rng.random() < 0.8, 'opts': o,
            'how': rng.choice(['api', 'api', 'cli']), 'more': rng.choice((1, 1, 2))}


def gen_edit(rng):
    m = F.marker_of(rng)
    o = opts(rng)
    parts = [[x for x in heads(rng, o['parser']) if x.strip() != m] for _ in range(4)]
    if rng.random() < 0.4:
        # a small edit
        parts[2], parts[3] = list(parts[0]), list(parts[1])
        t = rng.choice(parts[2:])
        t.insert(rng.randrange(len(t) + 1), '# ' + simple(rng))
    return {'marker': m, 'opts': o, 'pre': parts[0], 'post': parts[1], 'pre2': parts[2], 'post2': parts[3],
            'how': rng.choice(['api', 'api', 'cli'])}


def enum_small(tier):
    import itertools
    k = 0
    lines = ['# a', '## b', '# a b', '', '#']
    for n in range(0, 4 if tier == 'quick' else 5):
        for combo in itertools.product(lines, repeat=n):
            for pos in range(n + 1):
                k += 1
                ls = list(combo)
                ls.insert(pos, '<!--TOC-->')
                for p in M.ALL:
                    for o in ({}, {'ordered': True, 'list_marker': '.'}, {'no_links': True}):
                        yield {'marker': '<!--TOC-->', 'lines': ls, 'final': bool(k % 2), 'how': ('api', 'cli')[(k // 7) % 2],
                               'opts': dict(o, parser=p, no_list_coherence=True)}


def finding():
    """Is the recorded defect still there?"""
    p = ctx().write('# \tfoo\n\n<!--TOC-->\n')
    out = []
    for _ in range(2):
        t = T.api.build_toc(p, no_links=True, parser='github')
        T.api.write_string_on_file_between_markers(p, t, '<!--TOC-->', '\n')
        out.append(ctx().read())
    return out[0] != out[1]


CHECK = Check('C15', 'documents with markers and option sets, updated two or three times through the API and the command; non-trivial: the first '
              'update changed the file (for edits: the headings changed)', [
                  Part('small', run, enum=enum_small, rule='every document of up to 3 (4) lines with a marker anywhere, all parsers'),
                  Part('random', run, gen, quick=9000),
                  Part('deep', run, deep(gen), quick=12, thorough=200, rule='the same after tens of thousands of other lines'),
                  Part('edit', run_edit, gen_edit, quick=7000, rule='update, edit, update against an update of the bare marker'),
              ], ['excluded by construction: the recorded finding F1 (no_links, first entry starts with a tab or vertical tab)'],
              known=[('F1', 'without links, a first heading whose text starts with a tab (github, commonmarker) or a vertical tab gives a list that the next '
                      'in-place run does not recognise: the TOC is inserted again', finding)])
