"""C17: line endings of the input never matter and the requested one is used throughout."""
import re

from .common import (after_padding, deep, Check, EOLS, G, M, Part, Reject, Violation, build_text, ctx, lines_ok, mixtext, same, show, simple, text_of, toc_lines, T)
from . import files as F
from .c14 import ok_file
from .c15 import cli_args

ENDS = re.compile('\r\n|\r|\n')


def mixed(lines, eols, final):
    """Join with the given endings, taken in rotation, never making a CRLF out of CR + LF."""
    out = []
    n = len(lines)
    for i, x in enumerate(lines):
        out.append(x)
        if i < n - 1 or final:
            e = eols[i % len(eols)]
            if e == "\n" and x == "" and len(out) > 1 and out[-2] == '\r':
                e = '\r'
            out.append(e)
    return ''.join(out)


def run_toc(case):
    lines, o = case['lines'], dict(case['opts'])
    if not lines_ok(lines) or not case['eols'] or any(e not in EOLS for e in case['eols']):
        raise Reject()
    base = build_text(mixed(lines, ['\n'], case['final']), newline_string='\n', **o)
    for eols in (['\r\n'], ['\r'], case['eols']):
        text = mixed(lines, eols, case['final'])
        same(build_text(text, newline_string='\n', **o), base, 'TOC with line endings %r, %r' % (eols, o))
    if base[0] != 'ok':
        return False
    entries = toc_lines(base[1])
    for nl in EOLS:
        got = build_text(mixed(lines, case['eols'], case['final']), newline_string=nl, **o)
        same(got, ('ok', ''.join(x + nl for x in entries)), 'TOC with newline string %r' % nl)
    if case.get('stdin'):
        for eols in (['\n'], ['\r\n'], case['eols']):
            got = T.with_stdin(mixed(lines, eols, case['final']), T.build, '-', newline_string='\r\n', **o)
            same(got, ('ok', ''.join(x + '\r\n' for x in entries)), 'TOC of standard input with line endings %r' % eols)
    return len(entries) > 0 and len(lines) > 1


def gen_toc(rng):
    o = G.options(rng)
    o.pop('newline_string', None)
    if rng.random() < 0.6:
        o['no_list_coherence'] = True
    lines = G.document(rng, text=rng.choice([simple, mixtext, lambda r: r.choice(['foo', 'bar'])]), parser=o['parser'])
    if rng.random() < 0.3:
        o['skip_lines'] = rng.randint(0, len(lines) + 1)
    return {'lines': lines, 'eols': [rng.choice(EOLS) for _ in range(rng.randint(1, 6))], 'final': rng.random() < 0.8, 'opts': o,
            'stdin': rng.random() < 0.2}


def gen_big(rng):
    """CRLF pairs at the borders of the blocks in which files are read."""
    n = rng.choice((4095, 8190, 8191, 8192, 8193, 16383)) - rng.randint(0, 12)
    lines = ['x' * max(0, n)] + ['# a', '', '# b', '```', '# c', '```', '## d']
    if rng.random() < 0.5:
        lines = ['# é' + 'é' * rng.randint(0, 3)] * rng.choice((600, 1200, 2731)) + lines
        lines = [x if i % 3 else 'y' for i, x in enumerate(lines)]
    return {'lines': lines, 'eols': [rng.choice(EOLS) for _ in range(rng.randint(1, 4))], 'final': rng.random() < 0.5,
            'opts': {'parser': G.parser_of(rng), 'no_list_coherence': True, 'no_links': rng.random() < 0.5}, 'stdin': rng.random() < 0.3}


def run_place(case):
    """In place: every ending of the file becomes the requested one, nothing else depends on it."""
    m, lines, o = case['marker'], case['lines'], dict(case['opts'])
    if not ok_file(lines, m) or not any(x.strip() == m for x in lines) or not case['eols'] or any(e not in EOLS for e in case['eols']):
        raise Reject()
    text = mixed(lines, case['eols'], case['final'])
    results = written(case, text)
    if not case['cli']:
        want, _ = M.in_place(mixed(lines, ['\n'], case['final']).encode(), build_text(text, newline_string='\n', **o)[1], m, '\n')
        same(results['\n'], want.decode().split('\n'), 'lines of the file')
    if case.get('again'):
        # The TOC is up to date now, the line endings are not.
        done = results['\n']
        final = done[-1] == ''
        written(case, mixed(done[:-1] if final else done, case['eols'], final), ', TOC up to date')
    return True


def written(case, text, note=''):
    m, o = case['marker'], dict(case['opts'])
    results = {}
    for nl in EOLS:
        p = ctx().write(text)
        if case['cli']:
            r = T.cli(cli_args(dict(o, newline_string=nl), m, ['-p']) + [p])
            if r[0] == 1:
                raise Reject()
            same(r[:2], (0, ''), 'command with newline string %r%s' % (nl, note))
        else:
            t = T.build(p, newline_string=nl, **o)
            if t[0] == 'exc':
                raise Reject()
            T.api.write_string_on_file_between_markers(p, t[1], m, nl)
        data = ctx().read().decode()
        bad = set(ENDS.findall(data)) - {nl}
        if bad:
            raise Violation('newline string %r, but the file has line endings %r%s: %s' % (nl, bad, note, show(data)))
        results[nl] = ENDS.split(data)
    same(results['\r\n'], results['\n'], 'lines with CRLF against lines with LF' + note)
    same(results['\r'], results['\n'], 'lines with CR against lines with LF' + note)
    return results


def gen_place(rng):
    m = F.marker_of(rng)
    o = G.options(rng)
    o.pop('newline_string', None)
    if not o.get('no_indentation'):
        o['no_list_coherence'] = True
    else:
        o.pop('no_list_coherence', None)
    lines = F.file_lines(rng, m)
    if not any(x.strip() == m for x in lines):
        lines = lines + [m]
    lines = ['# ' + simple(rng)] + lines
    return {'marker': m, 'lines': lines, 'eols': [rng.choice(EOLS) for _ in range(rng.randint(1, 6))], 'final': rng.random() < 0.8, 'opts': o,
            'cli': rng.random() < 0.25, 'again': rng.random() < 0.6}


CHECK = Check('C17', 'documents joined with LF, CR, CRLF and rotations of them, built and updated with each newline string; non-trivial: the TOC is '
              'not empty and the document has several lines (in place: there is a marker)', [
                  Part('toc', run_toc, gen_toc, quick=8000),
                  Part('big', run_toc, gen_big, quick=60, thorough=3000, rule='line endings at block borders of the reader'),
                  Part('deep', run_toc, deep(gen_toc, top=33000), quick=8, thorough=200, rule='the same after tens of thousands of other lines'),
                  Part('long', run_toc, after_padding(gen_toc), quick=50, thorough=2000, rule='the same after hundreds or thousands of other lines'),
                  Part('in place', run_place, gen_place, quick=8000),
                  Part('in place, deep', run_place, deep(gen_place, top=33000), quick=16, thorough=400, rule='the same after tens of thousands of other lines'),
                  Part('in place, long', run_place, after_padding(gen_place), quick=60, thorough=2000, rule='the same after hundreds or thousands of other lines'),
              ], [])
