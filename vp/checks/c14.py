"""C14: in-place update touches only the TOC block."""
import os
import shutil

from .common import (deep, Check, G, M, Part, Reject, Violation, ctx, lines_ok, same, show, simple, text_of, T)
from . import files as F


def ok_file(lines, m):
    if not lines_ok(lines) or not m.strip() or '\n' in m or m != m.strip():
        return False
    pos = [i for i, x in enumerate(lines) if x.strip() == m]
    return all(F.clear(lines[a + 1:b]) for a, b in zip(pos, pos[1:]))


def run(case):
    m, lines = case['marker'], case['lines']
    if not ok_file(lines, m) or '\r' in case['toc']:
        raise Reject()
    if any(x.strip() == m for x in case['toc'].split('\n')):
        raise Reject()
    nl = case['newline']
    data = text_of(case).encode('utf-8')
    want, _ = M.in_place(data, case['toc'], m, nl)
    p = ctx().write(data)
    before = set(os.listdir(ctx().root))
    T.api.write_string_on_file_between_markers(p, case['toc'], m, nl)
    got = ctx().read()
    same(got, want, 'file after the update (marker %r)' % m)
    same(set(os.listdir(ctx().root)), before, 'files beside it')
    if case.get('place'):
        run_place(case, data, want)
    # No line outside the block was lost, moved or changed.
    where = M.locate(M.split_lines(data.decode()), m)
    if where[0] == 'none':
        same(got, data, 'file without a marker')
    if case.get('multi'):
        q = ctx().write(data, 'second.md')
        r = ctx().write(data, 'third.md')
        ctx().write(data)
        T.api.write_strings_on_files_between_markers([p, q, r], [case['toc'], '- x\n', case['toc']], m, nl)
        same(ctx().read(), want, 'first of several files')
        same(ctx().read('second.md'), M.in_place(data, '- x\n', m, nl)[0], 'second of several files')
        same(ctx().read('third.md'), want, 'third of several files')
        for f in (q, r):
            os.remove(f)
    return where[0] != 'none' and len(lines) > 1


def run_place(case, data, want):
    """Any name, absolute or relative, permissions and symbolic links."""
    name, mode, style = case['place']
    d = ctx().fresh()
    target = os.path.join(d, name)
    os.makedirs(os.path.join(d, 'sub', 'deep'))
    if style == 'up from a linked directory':
        target = os.path.join(d, 'sub', name)
    with open(target, 'wb') as f:
        f.write(data)
    os.chmod(target, mode)
    arg = target
    cwd = os.getcwd()
    links = []
    others = [name[:200] + x for x in ('~', '.bak', '.tmp', '.orig', '.new', '.swp', '.part')] + [x + name[:200] for x in ('.', '#', '~', '.#')] + ['tmp', 'temp', 'output.md', 'sub.md']
    others = [x for x in others if x != name and x not in ('link.md', 'link2.md', 'sub', 'also')]

    def link(where, to):
        os.symlink(to, where)
        links.append((where, to))
        return where
    try:
        for x in others:
            with open(os.path.join(d, x), 'w') as f:
                f.write('other ' + x)
        if style == 'link':
            arg = link(os.path.join(d, 'link.md'), name)
        elif style == 'chain':
            arg = link(os.path.join(d, 'link2.md'), os.path.basename(link(os.path.join(d, 'link.md'), name)))
        elif style == 'absolute link':
            arg = link(os.path.join(d, 'link.md'), target)
        elif style == 'link elsewhere':
            arg = link(os.path.join(d, 'sub', 'link.md'), '../' + name)
        elif style == 'linked directory':
            arg = os.path.join(link(os.path.join(d, 'also'), '.'), name)
        elif style == 'up from a linked directory':
            others.append(name)
            with open(os.path.join(d, name), 'w') as f:
                f.write('other ' + name)
            arg = os.path.join(link(os.path.join(d, 'also'), 'sub/deep'), '..', name)
        elif style == 'relative link':
            os.chdir(os.path.join(d, 'sub'))
            link('link.md', '../' + name)
            arg = 'link.md'
        elif style == 'parent':
            os.chdir(os.path.join(d, 'sub'))
            arg = '../sub/../' + name
        elif style == 'relative':
            os.chdir(d)
            arg = name
        before = sorted(os.listdir(d)) + sorted(os.listdir(os.path.join(d, 'sub')))
        T.api.write_string_on_file_between_markers(arg, case['toc'], case['marker'], case['newline'])
        same(sorted(os.listdir(d)) + sorted(os.listdir(os.path.join(d, 'sub'))), before, 'directory after the update of %r (%s)' % (name, style))
        with open(target, 'rb') as f:
            same(f.read(), want, 'file %r (%s) after the update' % (name, style))
        same(oct(os.stat(target).st_mode & 0o7777), oct(mode), 'permissions after the update')
        for where, to in links:
            same((os.path.islink(where), os.readlink(where) if os.path.islink(where) else None), (True, to), 'symbolic link after the update (%s)' % style)
        for x in others:
            with open(os.path.join(d, x)) as f:
                same(f.read(), 'other ' + x, 'another file, %r, after the update of %r' % (x, name))
    finally:
        os.chdir(cwd)
        shutil.rmtree(d)


PLACES = ['absolute', 'relative', 'link', 'link', 'chain', 'absolute link', 'link elsewhere', 'linked directory', 'relative link', 'up from a linked directory', 'parent']
NAMES = ['a.md', 'README', 'with space.md', 'é日本.md', '-x.md', '*.md', 'a\'b".md', '.hidden', 'x' * 200, 'line\nbreak.md', '#1.md', '%s.md', 'a;b|c.md']


def a_toc(rng):
    p = rng.random()
    if p < 0.1:
        return ''
    lines = F.toc_like(rng)
    if rng.random() < 0.15:
        # Without links an entry may end with anything.
        lines[-1] += rng.choice(['\u00a0', '\u3000', '\x0b', '\x0c', '\x1c', '\u2028', '\x85', ' ', '\t', '\ufeff', '\u200b', '\\', '-', '#', '.'])
    return G.join(lines, final=rng.random() < 0.9)


def gen(rng):
    m = F.marker_of(rng)
    lines = F.file_lines(rng, m)
    eol = rng.choice(['\n', '\n', '\n', '\r\n', '\r'])
    return {'marker': m, 'lines': lines, 'eol': eol, 'final': rng.random() < 0.8, 'toc': a_toc(rng), 'newline': eol if rng.random() < 0.7 else '\n',
            'multi': rng.random() < 0.15,
            'place': [rng.choice(NAMES), rng.choice((0o644, 0o600, 0o755, 0o664, 0o640, 0o444)), rng.choice(PLACES)]
            if rng.random() < 0.3 else None}


def gen_big(rng):
    m = '<!--TOC-->'
    c = gen(rng)
    pad = lambda: ['line %d %s' % (i, 'é' * rng.choice((0, 5, 80))) for i in range(rng.choice((0, 30, 400, 2000)))]  # noqa: E731
    pos = [i for i, x in enumerate(c['lines']) if x.strip() == c['marker']]
    if pos:
        c['lines'] = c['lines'][:pos[0]] + pad() + c['lines'][pos[0]:pos[-1] + 1] + pad() + c['lines'][pos[-1] + 1:]
    else:
        c['lines'] = pad() + [m] + pad()
        c['marker'] = m
    c['multi'] = False
    if rng.random() < 0.5:
        c['toc'] = ''.join('- [h %d](#h-%d)\n' % (i, i) for i in range(rng.choice((5, 300, 2000))))
    return c


LINES = ['<!--TOC-->', '', '- [a](#a)', 'text', '# a']


def enum_files(tier):
    import itertools
    top = 6 if tier == 'quick' else 7
    k = 0
    for n in range(1, top + 1):
        for combo in itertools.product(LINES, repeat=n):
            lines = list(combo)
            if n >= 5 and lines.count('<!--TOC-->') < 2:
                continue
            if not ok_file(lines, '<!--TOC-->'):
                continue
            k += 1
            yield {'marker': '<!--TOC-->', 'lines': lines, 'final': bool(k % 3), 'toc': ('- [a](#a)\n', '- [b](#b)\n  - [c](#c)\n', '')[k % 3], 'newline': '\n',
                   'multi': k % 40 == 0}


def edits(text):
    """The text with every character put in, replaced or taken away at every place."""
    for k in range(len(text) + 1):
        for c in EVERY:
            yield text[:k] + c + text[k:]
            if k < len(text):
                yield text[:k] + c + text[k + 1:]
        if k < len(text):
            yield text[:k] + text[k + 1:]


EVERY = [chr(i) for i in range(128) if chr(i) not in '\n\r'] + list('\x80\x85\xa0\xaaéßµ²ſKİıａ１٣\u2003\u2028\u2029\u3000\ufeff\ufffd\U0001f600')


def enum_edits(tier):
    m = '<!--TOC-->'
    k = 0
    for base in ['- [a](#a)', '1. [a](#a)', '   * b', '10) c', '  + d', m, '']:
        for v in edits(base):
            k += 1
            second = [[], ['- [e](#e)'], ['text', '- f'], [m, '', '- g', '', m]][k % 4]
            for lines in ([m, '', v] + second[:1] + ['', m] + second, ['t', '', v, '', m, 'u'] if base in (m, '') else [m, v, m, '# h']):
                if ok_file(lines, m):
                    yield {'marker': m, 'lines': lines, 'final': bool(k % 3), 'toc': ('- [a](#a)\n', '- [b](#b)\n  - [c](#c)\n', '')[k % 3], 'newline': '\n'}
    # The marker and the lines of the file may be close to each other as well.
    for mark in edits('[](T)'):
        k += 1
        lines = ['x', mark, '', '- o', '', '[](T)', 'y', mark, '', '- p', '', mark, '[](T)']
        if mark == mark.strip() and ok_file(lines, mark) and ok_file(lines, '[](T)') and mark != '[](T)':
            yield {'marker': (mark, '[](T)')[k % 2], 'lines': lines, 'final': True, 'toc': '- q\n', 'newline': '\n'}


def run_cli(case):
    """--in-place: the same through the command, with the TOC of the document itself."""
    m, lines, parser = case['marker'], case['lines'], case['parser']
    if not ok_file(lines, m):
        raise Reject()
    data = text_of(case).encode('utf-8')
    toc = M.toc(data.decode(), parser=parser, keep_header_levels=6, no_list_coherence=True, no_indentation=True)
    if toc[0] != 'ok':
        raise Reject()
    if any(x.strip() == m for x in toc[1].split('\n')):
        raise Reject()
    p = ctx().write(data)
    argv = ['-p', '-i', '-m', m] if not m.startswith('-') else ['-p', '-i', '--toc-marker=' + m]
    r = T.cli(argv + [parser, p])
    same(r[:2], (0, ''), 'command %r: %s' % (argv, r[2][-300:]))
    want, _ = M.in_place(data, toc[1], m, '\n')
    same(ctx().read(), want, 'file after the command')
    return M.locate(M.split_lines(data.decode()), m)[0] != 'none'


def gen_cli(rng):
    c = gen(rng)
    c['parser'] = G.parser_of(rng)
    return c


CHECK = Check('C14', 'files with no, one or several marker lines (also indented or with trailing blanks), enclosing blank lines, TOCs or prose, and '
              'surrounded by prose, headings, fences and odd characters; non-trivial: there is a marker and something else', [
                  Part('files', run, enum=enum_files, rule='every file of up to 6 (7) lines over marker, blank, entry, text, heading'),
                  Part('edits', run, enum=enum_edits, rule='entries, markers and blank lines with each character put in, replaced or taken away at each place'),
                  Part('random', run, gen, quick=16000),
                  Part('big', run, gen_big, quick=500, thorough=8000, rule='files of thousands of lines'),
                  Part('deep', run, deep(gen), quick=40, thorough=600, rule='the same after tens of thousands of other lines'),
                  Part('command', run_cli, gen_cli, quick=3000),
              ], ['regions for which the documentation does not say whether they are a TOC (list without a blank line around it) are not generated'])
