"""C16: the diff report is exact."""
import os
import random
import re

from .common import (deep, Check, far, G, M, Part, Reject, Violation, ctx, lines_ok, same, show, simple, text_of, T)
from . import files as F
from .c14 import edits, ok_file
from .c15 import cli_args, heads, opts


def norm(s):
    return s.replace('\r\n', '\n').replace('\r', '\n')


def expected_same(lines, m, toc):
    """Would an update leave the TOC text as it is?"""
    return norm(toc).strip() == M.existing(lines, M.locate(lines, m), m)


def run_api(case):
    m, lines = case['marker'], case['lines']
    if not ok_file(lines, m):
        raise Reject()
    data = text_of(case).encode()
    toc = case['toc']
    if any(x.strip() == m for x in M.split_lines(toc)):
        raise Reject()
    want = expected_same(M.split_lines(data.decode()), m, toc)
    p = ctx().write(data)
    # Blanks around the marker do not matter.
    m = (case.get('pad') or ['', ''])[0] + m + (case.get('pad') or ['', ''])[1]
    if m.strip() != case['marker']:
        raise Reject()
    got = T.api.tocs_equal(toc, p, m)
    same(bool(got), want, 'tocs_equal, marker %r' % m)
    same(ctx().read(), data, 'file after a comparison')
    got = T.api.write_string_on_file_between_markers(p, toc, m, '\n')
    same(bool(got), want, 'report of the update')
    return M.locate(M.split_lines(data.decode()), case['marker'])[0] == 'pair'


def mutate(rng, s):
    """Something close to s."""
    if not s:
        return '- x\n'
    if rng.random() < 0.5:
        return nearly(rng, s)
    p = rng.random()
    i = rng.randrange(len(s))
    if p < 0.3:
        return s[:i] + s[i + 1:]
    if p < 0.5:
        return s[:i] + rng.choice(['x', ' ', '-', 'X', '\n']) + s[i:]
    if p < 0.6:
        return s.swapcase()
    if p < 0.75:
        ls = s.split('\n')
        j = rng.randrange(len(ls))
        return '\n'.join(ls[:j] + ls[j + 1:])
    if p < 0.85:
        return s + rng.choice(['- x\n', '  - x\n', '\n', ' '])
    return rng.choice([' ', '\n', '']) + s.rstrip('\n') + rng.choice(['', '\n', '\n\n', ' \n'])


def nearly(rng, s):
    """One small thing is different: a list marker, a number, the indentation, one character."""
    if not s:
        return s
    k = rng.randrange(9)
    ls = s.split('\n')
    j = rng.randrange(len(ls))
    if k == 0:
        new = rng.choice(['-', '+', '*', '1.', '2)'])
        return re.sub(r'(?m)^( *)(?:[-+*]|[0-9]+[.)]) ', lambda m: m.group(1) + new + ' ', s)
    if k == 1:
        ls[j] = re.sub(r'^( *)(?:[-+*]|[0-9]+[.)]) ', lambda m: m.group(1) + rng.choice('-+*') + ' ', ls[j])
    elif k == 2:
        ls[j] = re.sub('[0-9]+', lambda m: str(int(m.group()) + rng.choice((1, -1, 10))), ls[j])
    elif k == 3:
        ls[j] = re.sub(r'\)$', rng.choice(['-1)', '-2)', 'x)', '_)', '-)']), ls[j])
    elif k == 4:
        ls[j] = rng.choice([' ', '  ', '    ', '\t']) + ls[j]
    elif k == 5:
        return re.sub('(?m)^ +', rng.choice(['', ' ', '    ', '\t']), s)
    elif k == 6:
        ls[j] = rng.choice([ls[j] + ' ', ls[j] + '\t', ls[j].replace(' ', '  ', 1), ls[j].replace('  ', ' ', 1), ls[j].lstrip(' '), ls[j].upper(), ls[j].lower()])
    elif k == 7:
        i = rng.randrange(len(s))
        c = s[i]
        return s[:i] + rng.choice([c.swapcase(), 'x', ' ', '1', G.any_char(rng), '.', '-', '#']) + s[i + 1:]
    else:
        i = rng.randrange(len(ls))
        ls[i], ls[j] = ls[j], ls[i]
    return '\n'.join(ls)


def gen_api(rng):
    m = F.marker_of(rng)
    lines = F.file_lines(rng, m)
    pos = [i for i, x in enumerate(lines) if x.strip() == m]
    toc = G.join(F.toc_like(rng))
    if len(pos) >= 2 and rng.random() < 0.7:
        where = M.locate(lines, m)
        if where[0] == 'pair':
            toc = '\n'.join(lines[where[1] + 1:where[2]]).strip() + '\n'
            if rng.random() < 0.5:
                toc = mutate(rng, toc)
    if rng.random() < 0.1:
        toc = rng.choice(['', '\n', m])
    if toc.strip() == m:
        toc = ''
    if rng.random() < 0.3:
        toc = toc.replace('\n', rng.choice(['\r\n', '\r']))
    return {'marker': m, 'lines': lines, 'eol': rng.choice(['\n', '\n', '\r\n', '\r']), 'final': rng.random() < 0.8, 'toc': toc,
            'pad': [rng.choice(['', ' ', '\t']), rng.choice(['', ' ', '  '])] if rng.random() < 0.1 else None}


def gen_large(rng):
    """Long TOCs that differ near the end, at the start or nowhere."""
    n = far(rng, 100, 6000)
    es = ['- [h %d](#h-%d)' % (i, i) for i in range(n)]
    toc = list(es)
    p = rng.random()
    j = rng.choice((0, n - 1, rng.randrange(n)))
    if p < 0.35:
        toc[j] = nearly(rng, toc[j])
    elif p < 0.5:
        del toc[j]
    elif p < 0.6:
        toc.append('- x')
    pad = ['p %d' % i for i in range(rng.choice((0, 0, 2000)))]
    return {'marker': M.MARKER, 'lines': pad + [M.MARKER, ''] + es + ['', M.MARKER] + pad[:rng.choice((0, 5, 2000))], 'eol': rng.choice(['\n', '\n', '\r\n']), 'final': True, 'toc': G.join(toc)}


def run_cli(case):
    """Several files; --diff with and without --in-place."""
    m, o = case['marker'], dict(case['opts'])
    names, datas, sames, tocs = [], [], [], []
    for i, f in enumerate(case['files']):
        if not lines_ok(f['lines']) or not ok_file(f['lines'], m):
            raise Reject()
        ls = list(f['lines'])
        text = G.join(ls, f['eol'], True)
        want = M.toc(text, **{**o, 'incoherent_ok': True})
        lv = [h[1] for h in M.headings(M.split_lines(text), o['parser']) if h[1] <= o.get('keep_header_levels', 3)]
        if want[0] != 'ok' or not M.coherent(lv):
            raise Reject()
        if f['state'] == 'current' or f['state'] == 'stale':
            # A file that was updated before, then perhaps changed.
            pos = [k for k, x in enumerate(ls) if x.strip() == m]
            if len(pos) != 1:
                raise Reject()
            body = M.toc(text, **{**o, 'newline_string': '\n'})[1]
            if f['state'] == 'stale':
                body = f['old'] if f['old'] else nearly(random.Random(f['seed']), body)
                if body.strip() == '' or '\r' in body or '\t' in body:
                    raise Reject()
            block = [m, ''] + body.rstrip('\n').split('\n') + ['', m]
            if any(x.strip() == m for x in block[1:-1]):
                raise Reject()
            ls = ls[:pos[0]] + block + ls[pos[0] + 1:]
            if not ok_file(ls, m):
                raise Reject()
            text = G.join(ls, f['eol'], True)
            if M.toc(text, **o) != want:
                raise Reject()
        if any(x.strip() == m for x in M.split_lines(want[1])):
            raise Reject()
        names.append(ctx().write(text, 'f%d.md' % i))
        datas.append(text.encode())
        tocs.append(want[1])
        sames.append(expected_same(M.split_lines(text), m, want[1]))
    if not names:
        raise Reject()
    differs = not all(sames)
    base = cli_args(o, m)
    r = T.cli(['-d'] + base + names)
    same(r[:2], (128 if differs else 0, ''.join(tocs)), '--diff, files equal: %r; %s' % (sames, r[2][-200:]))
    for n, d in zip(names, datas):
        with open(n, 'rb') as h:
            same(h.read(), d, 'file after --diff')
    r = T.cli(base + names)
    same(r[:2], (0, ''.join(tocs)), 'without --diff')
    r = T.cli(['-p'] + (['-d'] if case['d'] else []) + base + names)
    same(r[:2], (128 if differs and case['d'] else 0, ''), 'in place, diff %r, files equal: %r' % (case['d'], sames))
    # Now everything is up to date, where there is a marker at all.
    left = not all(s or b'\x00' in b'' for s, d in zip(sames, datas) if M.locate(M.split_lines(d.decode()), m)[0] == 'none')
    r = T.cli(['--diff'] + base + names)
    same(r[0], 128 if left else 0, '--diff after the update')
    for n in names:
        os.remove(n)
    return len(names) > 1 or differs


def gen_cli(rng):
    m = rng.choice(['<!--TOC-->', '<!--TOC-->', '[](TOC)', 'TOC'])
    o = opts(rng)
    o.pop('no_list_coherence', None)
    o['keep_header_levels'] = 6
    if o.get('ordered') and o.get('list_marker') not in (('.', ')') if o['parser'] != 'redcarpet' else ('.',)):
        o['list_marker'] = '.'
    if o.get('constant_ordered_list'):
        o['ordered'] = True
        o['list_marker'] = '.'
    files = []
    for _ in range(rng.choice((1, 1, 2, 3, 4))):
        lv = 1
        def some():
            nonlocal lv
            out = []
            for _ in range(rng.randint(0, 6)):
                out.append('#' * lv + ' ' + simple(rng) if rng.random() < 0.7 else rng.choice(['', 'text', '- x']))
                lv = max(1, min(6, lv + rng.choice((1, 0, 0, -1))))
            return out
        lines = some() + [m] * (0 if rng.random() < 0.1 else 1) + some()
        # start at level 1 and stay coherent
        prev = 0
        fixed = []
        for x in lines:
            if x.startswith('#'):
                k = len(x) - len(x.lstrip('#'))
                k = min(k, prev + 1)
                prev = k
                x = '#' * k + x.lstrip('#')
            fixed.append(x)
        files.append({'lines': fixed, 'eol': rng.choice(['\n', '\n', '\r\n', '\r']),
                      'state': rng.choice(['current', 'current', 'current', 'stale', 'bare']) if m in fixed else 'bare',
                      'old': G.join(F.toc_like(rng)) if rng.random() < 0.4 else '', 'seed': rng.randrange(10**6)})
    return {'marker': m, 'opts': o, 'files': files, 'd': rng.random() < 0.7}


def enum_api(tier):
    import itertools
    k = 0
    for n in range(1, 6 if tier == 'quick' else 7):
        for combo in itertools.product(['<!--TOC-->', '', '- a', 'text'], repeat=n):
            lines = list(combo)
            if not ok_file(lines, '<!--TOC-->'):
                continue
            for toc in ('- a\n', '', '- a\n- a\n', '- b\n', '- a'):
                k += 1
                yield {'marker': '<!--TOC-->', 'lines': lines, 'final': bool(k % 2), 'toc': toc}


def enum_edits(tier):
    m = '<!--TOC-->'
    k = 0
    for base in ['- [a](#a)', '1. [a](#a)', '- [a](#a)\n   - [b](#b)', '   * b', m]:
        for v in edits(base):
            k += 1
            if base == m:
                yield {'marker': m, 'lines': ['t', v, '', '- o', '', m, 'u'], 'final': True, 'toc': '- o\n'}
                continue
            lines = [m, ''] + v.split('\n') + ['', m]
            yield {'marker': m, 'lines': lines, 'final': bool(k % 3), 'toc': base + '\n'}
            if k % 4 == 0:
                yield {'marker': m, 'lines': [m, ''] + base.split('\n') + ['', m], 'final': bool(k % 3), 'toc': v + '\n'}


CHECK = Check('C16', 'files with markers and TOCs that are equal, nearly equal or different; non-trivial: the file has a TOC between markers '
              '(for the command: several files, or one that differs)', [
                  Part('files', run_api, enum=enum_api, rule='every file of up to 5 (6) lines over marker, blank, entry, text, with five TOCs'),
                  Part('edits', run_api, enum=enum_edits, rule='TOCs with each character put in, replaced or taken away at each place'),
                  Part('random', run_api, gen_api, quick=24000),
                  Part('deep', run_api, deep(gen_api), quick=40, thorough=600, rule='the same after tens of thousands of other lines'),
                  Part('long', run_api, gen_large, quick=150, thorough=4000, rule='TOCs of hundreds or thousands of entries'),
                  Part('command', run_cli, gen_cli, quick=3500, rule='exit status of the command over several files'),
              ], [])
