"""C18: the command line does what its options say and reports it in its exit status."""
import os
import shutil
import subprocess
import sys

from .common import (Check, G, M, Part, Reject, Violation, ctx, lines_ok, mixtext, same, show, simple, T)
from ..core import REPO
from . import files as F

NL = {'\n': r'\n', '\r': r'\r', '\r\n': r'\r\n'}


def spell(case):
    """The command line of a case; its 'spell' list picks one spelling after the other."""
    o, picks = case['opts'], list(case['spell'])

    def pick(*alts):
        i = picks.pop(0) if picks else 0
        return list(alts[i % len(alts)])
    glob = []
    if o.get('no_links'):
        glob.append(pick(['-l'], ['--no-links']))
    if o.get('no_indentation'):
        glob.append(pick(['-i'], ['--no-indentation']))
    elif o.get('no_list_coherence'):
        glob.append(pick(['-c'], ['--no-list-coherence']))
    if o.get('newline_string'):
        s = NL[o['newline_string']]
        glob.append(pick(['-n', s], ['--newline-string', s], ['--newline-string=' + s], ['-n' + s]))
    if o.get('skip_lines') is not None:
        s = str(o['skip_lines'])
        glob.append(pick(['-s', s], ['--skip-lines', s], ['--skip-lines=' + s], ['-s' + s], ['-s', '0' + s], ['-s', '00' + s]))
    if case.get('in_place'):
        glob.append(pick(['-p'], ['--in-place']))
    if case.get('diff'):
        glob.append(pick(['-d'], ['--diff']))
    if case.get('marker'):
        m = case['marker']
        glob.append(pick(['-m', m], ['--toc-marker', m], ['--toc-marker=' + m]))
    sub = []
    if o.get('ordered'):
        m = o.get('list_marker', '.')
        alts = [['-o', m], ['--ordered-list-marker', m], ['--ordered-list-marker=' + m], ['-o' + m]]
        if m == '.':
            alts += [['-o'], ['--ordered-list-marker']]
        sub.append(pick(*alts))
    elif o.get('list_marker'):
        m = o['list_marker']
        alts = [['-u', m], ['--unordered-list-marker', m], ['--unordered-list-marker=' + m], ['-u' + m]]
        if m == '-':
            alts += [['-u'], ['--unordered-list-marker']]
        sub.append(pick(*alts))
    if o.get('constant_ordered_list'):
        sub.append(pick(['-c'], ['--constant-ordered-list']))
    if o.get('keep_header_levels'):
        n = str(o['keep_header_levels'])
        alts = [['-l', n], ['--header-levels', n], ['--header-levels=' + n], ['-l' + n]]
        if n == '6':
            alts += [['-l'], ['--header-levels']]
        sub.append(pick(*alts))
    # The order of the options is free.
    for lst in (glob, sub):
        for i in range(len(lst) - 1, 0, -1):
            j = (picks.pop(0) if picks else i) % (i + 1)
            lst[i], lst[j] = lst[j], lst[i]
    g = [x for p in glob for x in p]
    s = [x for p in sub for x in p]
    # Combined short flags.
    if pick([0], [0], [1])[0] and all(x in ('-l', '-i', '-c', '-p', '-d') for x in g) and len(g) > 1:
        g = ['-' + ''.join(x[1] for x in g)]
    return g, s, pick([0], [0], [1])[0]


def argv_of(case, names):
    g, s, first = spell(case)
    p = case['opts']['parser']
    bare = bool(s) and s[-1] in ('-o', '-u', '-l', '--ordered-list-marker', '--unordered-list-marker', '--header-levels')
    if first and names and not any(n.startswith('-') for n in names):
        return g + [p] + names + s
    if bare and names or any(n.startswith('-') and n != '-' for n in names):
        return g + [p] + s + ['--'] + names
    return g + [p] + s + names


NAMES = ['f%d.md', 'dir%d/README.md', 'two words %d.md', '.hidden%d', 'é%d.markdown', '[x]%d.md', '%%s%d', 'dir%d/-.md', '-%d.md', '@%d.md', '${HOME}%d.md', '~%d', ' lead%d.md', 'trail%d.md ',
         '?%d.md', 'x*%d.md', 'a,b%d.md', 'k=%d.md', '"%d".md', 'back\\%d.md', '{a,b}%d.md', '%d', '#%d.md', 'a;b%d.md']


def name_of(case, i):
    k = case.get('names', 0)
    if not isinstance(k, int) or not 0 <= k < len(NAMES):
        raise Reject()
    n = NAMES[k] % i
    if set('[?*{') & set(n):
        # Other files, which the name matches when it is taken for a pattern.
        for x in ('x%d.md', 'xx%d.md', 'a%d.md'):
            ctx().write('# another file\n', x % i)
    if '/' in n:
        os.makedirs(ctx().path(os.path.dirname(n)), exist_ok=True)
    return n


def prepare(case):
    if not isinstance(case.get('spell'), list) or not all(isinstance(x, int) and x >= 0 for x in case['spell']):
        raise Reject()
    o = dict(case['opts'])
    good = (('.', ')') if o['parser'] != 'redcarpet' else ('.',)) if o.get('ordered') else ('-', '+', '*', None)
    if o.get('list_marker') not in good or not case['files'] or not o.get('keep_header_levels', 1) or (o.get('skip_lines') or 0) < 0:
        raise Reject()
    names, texts = [], []
    stdin = 0
    for i, f in enumerate(case['files']):
        if not lines_ok(f['lines']):
            raise Reject()
        text = G.join(f['lines'], f['eol'], True)
        texts.append(text)
        if f['how'] == 'stdin':
            stdin += 1
            names.append('-')
        elif f['how'] == 'again' and names and names[-1] != '-':
            names.append(names[-1])
            texts[-1] = texts[-2]
        else:
            p = ctx().write(text, name_of(case, i))
            names.append(os.path.relpath(p) if case.get('relative') else p)
    if stdin > 1:
        raise Reject()
    return o, names, texts


def library(o, names, texts, also_stdin):
    """What the library builds, file by file: list of TOCs or ('exc', name)."""
    out = []
    for n, t in zip(names, texts):
        p = ctx().write(t, 'lib.md')
        r = T.call(T.api.build_toc, p, **o)
        if r[0] == 'exc':
            return r
        out.append(r[1])
    return ('ok', out)


def run(case, runner=None):
    if not case.get('relative'):
        return run_here(case, runner)
    old = os.getcwd()
    os.chdir(ctx().root)
    try:
        return run_here(case, runner)
    finally:
        os.chdir(old)


def run_here(case, runner):
    o, names, texts = prepare(case)
    # Without the option the command keeps all six levels.
    lib = dict({'keep_header_levels': 6}, **o)
    want = library(lib, names, texts, False)
    files = [n for n in names if n != '-']
    before = {n: t for n, t in zip(names, texts) if n != '-'}
    argv = argv_of(case, [] if names == ['-'] and case['nofile'] else names)
    inp = next((t for n, t in zip(names, texts) if n == '-'), 'garbage # not read\n')
    code, out, err = (runner or T.cli)(argv, inp)
    what = 'command %r' % ([a if not a.startswith('/') else os.path.basename(a) for a in argv],)
    if want[0] == 'exc':
        same((code, out), (1, ''), '%s when the library raises %s' % (what, want[1]))
        if err == '':
            raise Violation('%s: no message on standard error' % what)
        unchanged(before)
        return True
    if case.get('in_place') and '-' in names:
        # Standard input cannot be written to; the files before it may have been.
        same((code, out), (1, ''), what)
        return True
    if not case.get('in_place'):
        if not case.get('diff'):
            same((code, out), (0, ''.join(want[1])), '%s: %s' % (what, err[-300:]))
        else:
            same(out, ''.join(want[1]), '%s: %s' % (what, err[-300:]))
            if code not in (0, 128):
                raise Violation('%s: exit status %r %s' % (what, code, err[-300:]))
        unchanged(before)
    else:
        if code not in ((0, 128) if case.get('diff') else (0,)) or out:
            raise Violation('%s: exit status %r, output %r, %s' % (what, code, out, err[-300:]))
        m = case.get('marker') or M.MARKER
        nl = o.get('newline_string', '\n')
        for n, t, toc in zip(names, texts, want[1]):
            p = ctx().write(t, 'lib.md')
            for _ in range(names.count(n)):
                T.api.write_string_on_file_between_markers(p, toc, m, nl)
            with open(n, 'rb') as h:
                same(h.read(), ctx().read('lib.md'), '%s: %s' % (what, os.path.basename(n)))
    for n in set(files):
        os.remove(n)
    return len(argv) > 2


def unchanged(before):
    for n, t in before.items():
        with open(n, 'rb') as h:
            same(h.read(), t.encode(), 'file %s' % os.path.basename(n))


def a_doc(rng):
    p = rng.random()
    lines = []
    lv = rng.choice((1, 1, 2))
    first = lv
    for _ in range(G.size(rng, 0, 30, 5)):
        if rng.random() < 0.75:
            if rng.random() < 0.03:
                lv = rng.randint(1, 6)
            t = simple(rng) if rng.random() < 0.8 else mixtext(rng)[:60]
            lines.append('#' * lv + ' ' + G.clean(t))
            lv = max(first, min(6, lv + rng.choice((1, 1, 0, 0, -1, -2))))
        else:
            lines.append(rng.choice(['', 'text', '```', '- x', M.MARKER]))
    if p < 0.06:
        lines.insert(rng.randrange(len(lines) + 1), rng.choice(['#', '# ', '# ' + 'x' * 1000, '###### deep']))
    return lines


def gen(rng):
    parser = G.parser_of(rng)
    o = {'parser': parser}
    for k, p in (('no_links', 0.2), ('no_indentation', 0.2), ('no_list_coherence', 0.35), ('constant_ordered_list', 0.2)):
        if rng.random() < p:
            o[k] = True
    if o.get('no_indentation'):
        o.pop('no_list_coherence', None)
    p = rng.random()
    if p < 0.35:
        o['ordered'] = True
        o['list_marker'] = rng.choice(('.', ')') if parser != 'redcarpet' else ('.',))
    elif p < 0.65:
        o['list_marker'] = rng.choice('-+*')
    if rng.random() < 0.7:
        o['keep_header_levels'] = rng.randint(1, 6)
    if rng.random() < 0.25:
        o['newline_string'] = rng.choice(['\n', '\r', '\r\n'])
    if rng.random() < 0.3:
        o['skip_lines'] = rng.choice((0, 1, 2, 3, 10, 1000))
    k = rng.choice((1, 1, 1, 2, 2, 3, 5))
    files = [{'lines': a_doc(rng), 'eol': rng.choice(['\n', '\n', '\r\n', '\r']), 'how': 'file'} for _ in range(k)]
    if rng.random() < 0.2:
        files[rng.randrange(k)]['how'] = 'stdin'
    for f in files[1:]:
        if f['how'] == 'file' and rng.random() < 0.12:
            f['how'] = 'again'  # the same file twice
    case = {'opts': o, 'files': files, 'spell': [rng.randrange(60) for _ in range(24)], 'nofile': rng.random() < 0.5,
            'names': rng.randrange(len(NAMES)), 'relative': rng.random() < 0.4}
    if rng.random() < 0.3:
        case['in_place'] = True
        case['marker'] = rng.choice([None, None, '<!--TOC-->', 'TOC', '[](TOC)'])
        m = case['marker'] or M.MARKER
        for f in files:
            f['lines'] = [x for x in f['lines'] if x != M.MARKER]
            if rng.random() < 0.85:
                f['lines'].insert(rng.randrange(len(f['lines']) + 1), m)
    if rng.random() < 0.2 and all(f['how'] != 'stdin' for f in files):
        case['diff'] = True
    return case


# ------------------------------------------------------------------ refused command lines

def run_bad(case):
    data = b'# a\n\n' + M.MARKER.encode() + b'\n'
    p = ctx().write(data)
    argv = [p if a == 'FILE' else a for a in case['argv']]
    code, out, err = T.cli(argv, b'# a\n')
    want = case['code']
    if code != want or (out != '' and want):
        raise Violation('command %r: exit status %r (expected %r), output %r' % (case['argv'], code, want, out[:200]))
    if want and err == '':
        raise Violation('command %r: no message' % case['argv'])
    same(ctx().read(), data, 'file after %r' % case['argv'])
    return True


def bad(tier):
    for p in M.ALL:
        f = ['FILE']
        for argv in (['-o', '-'], ['-o', 'x'], ['-o', '..'], ['-u', '.'], ['-u', ')'], ['-u', 'x'], ['-u', '--'], ['-l', '0'], ['-l', '7'], ['-l', 'x'],
                     ['-l', '-1'], ['-l', '1.5'], ['--nothing'], ['-z'], ['-o', '-u'], ['--header-levels', '10'], ['-c=1'],
                     ['--ordered-list-marker='], ['--constant-ordered-list=yes']):
            for g in ([], ['-p']):
                if argv == ['-u', '--'] or argv == ['-o', '-u']:
                    continue
                yield {'argv': g + [p] + f + argv, 'code': 2}
        for g in (['-c', '-i'], ['--no-list-coherence', '--no-indentation'], ['-n', 'x'], ['-n', '\n'], ['-n', r'\n\n'], ['-n', ''], ['-s', 'x'], ['-s', '1.0'],
                  ['--skip-lines='], ['--nope'], ['-ci'], ['--diff=1'], ['-x'], ['-n', r'\n\r'], ['-n', r'\t'], ['-s', '']):
            yield {'argv': g + [p] + f, 'code': 2}
            yield {'argv': ['-p'] + g + [p] + f, 'code': 2}
        yield {'argv': [p, '-o', '.', '-u', '+'] + f, 'code': 2}
        yield {'argv': [p, 'no-such-file.md'], 'code': 1}
        yield {'argv': ['-p', p, 'no-such-file.md'], 'code': 1}
        yield {'argv': ['-p', p, 'FILE', 'no-such-file.md'], 'code': 1}
        yield {'argv': ['-p', p, 'no-such-file.md', 'FILE'], 'code': 1}
        yield {'argv': [p, 'FILE', 'no-such-file.md'], 'code': 1}
        yield {'argv': [p, '.'], 'code': 1}
        yield {'argv': [p, ''], 'code': 1}
        yield {'argv': ['--skip-lines=-1', p, 'FILE'], 'code': 1}
        yield {'argv': ['-p', p], 'code': 1}
        yield {'argv': ['-p', p, '-'], 'code': 1}
        yield {'argv': [p, '--help'], 'code': 0}
        yield {'argv': [p, '-h'], 'code': 0}
    yield {'argv': ['redcarpet', 'FILE', '-o', ')'], 'code': 2}
    for argv in ([], ['FILE'], ['Github', 'FILE'], ['standard', 'FILE'], ['-p'], ['-p', 'FILE'], ['gitea', 'FILE'], ['githu', 'FILE'], ['markdown', 'FILE'],
                 ['commonmark', 'FILE'], ['', 'FILE'], ['-m'], ['-n'], ['-s'], ['-l', '3', 'github', 'FILE'], ['github', '-p', 'FILE'], ['github', '-d', 'FILE'],
                 ['github', '-i', 'FILE']):
        yield {'argv': argv, 'code': 2}
    for argv in (['-h'], ['--help'], ['-v'], ['--version']):
        yield {'argv': argv, 'code': 0}


# ------------------------------------------------------------------ real processes

def environment():
    return {'PATH': '/usr/bin:/bin', 'PYTHONPATH': REPO + ':/opt/venv/lib/python3.12/site-packages', 'LC_ALL': 'C.UTF-8', 'PYTHONUTF8': '1',
           'PYTHONDONTWRITEBYTECODE': '1', 'TMPDIR': os.environ['TMPDIR'], 'HOME': ctx().root}


def process(argv, inp, limit=None):
    def fewer():
        import resource
        resource.setrlimit(resource.RLIMIT_NOFILE, (limit, limit))
    r = subprocess.run([sys.executable, '-m', 'md_toc'] + argv, input=inp.encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=environment(),
                       cwd=ctx().root, timeout=120, preexec_fn=fewer if limit else None)
    return r.returncode, r.stdout.decode('utf-8'), r.stderr.decode('utf-8')


def run_process(case):
    return run(case, process)


# ------------------------------------------------------------------ many files, terminals

def run_many(case):
    """More files than a process may have open."""
    n, k, o = case['n'], case['limit'], dict(case['opts'])
    if not 1 <= n <= 3000 or k < 40:
        raise Reject()
    root = ctx().fresh()
    try:
        names = []
        for i in range(n):
            p = os.path.join(root, '%d.md' % i)
            with open(p, 'w') as h:
                h.write('# h %d\n\n%s\n## x\n' % (i % 7, M.MARKER))
            names.append(p)
        toc = ''.join('- [h %d](#h-%d)\n  - [x](#x)\n' % (i % 7, i % 7) for i in range(n))
        code, out, err = process(case['argv'] + [o['parser']] + names, '', limit=k)
        same((code, out), (0, '' if '-p' in case['argv'] else toc), 'command with %d files, %d may be open: %s' % (n, k, err[-300:]))
        for i, p in enumerate(names):
            with open(p) as h:
                text = h.read()
            block = M.MARKER if '-p' not in case['argv'] else '%s\n\n- [h %d](#h-%d)\n  - [x](#x)\n\n%s' % (M.MARKER, i % 7, i % 7, M.MARKER)
            same(text, '# h %d\n\n%s\n## x\n' % (i % 7, block), 'file %d of %d' % (i, n))
    finally:
        shutil.rmtree(root)
    return True


def enum_many(tier):
    for i, p in enumerate(M.FAMILY):
        for argv in ([], ['-p']):
            yield {'n': (300, 150, 100, 64, 90)[i], 'limit': 60, 'argv': argv, 'opts': {'parser': p}}
    yield {'n': 1100, 'limit': 1024, 'argv': [], 'opts': {'parser': 'github'}}
    yield {'n': 1100, 'limit': 1024, 'argv': ['-p'], 'opts': {'parser': 'github'}}


def terminal(argv, inp):
    """Output, and input if any is read, is a terminal."""
    import pty
    import termios
    try:
        m, s = pty.openpty()
    except OSError:
        return process(argv, inp)  # no terminals here
    try:
        a = termios.tcgetattr(s)
        a[1] &= ~termios.OPOST  # no translation of line feeds
        a[3] &= ~(termios.ECHO | termios.ICANON)
        termios.tcsetattr(s, termios.TCSANOW, a)
        p = subprocess.Popen([sys.executable, '-m', 'md_toc'] + argv, stdin=s, stdout=s, stderr=subprocess.PIPE, env=environment(), cwd=ctx().root)
        os.close(s)
        s = None
        out = b''
        while True:
            try:
                b = os.read(m, 65536)
            except OSError:
                break
            if not b:
                break
            out += b
        err = p.stderr.read()
        p.stderr.close()
        return p.wait(120), out.decode('utf-8'), err.decode('utf-8')
    finally:
        os.close(m)
        if s is not None:
            os.close(s)


def run_terminal(case):
    return run(case, terminal)


def gen_terminal(rng):
    c = gen(rng)
    for f in c['files']:
        f['how'] = 'file'
    return c


CHECK = Check('C18', 'command lines: every combination of options in random spellings and orders, 1 to 5 files or standard input, coherent and incoherent '
              'documents, plus malformed command lines; non-trivial: at least one option (malformed ones: all)', [
                  Part('refused', run_bad, enum=bad, shrinkable=False, rule='malformed command lines, missing files, help and version'),
                  Part('random', run, gen, quick=9000, rule='against the library, in this process'),
                  Part('process', run_process, gen, quick=320, thorough=4000, rule='the same with a real process and a pipe as standard input'),
                  Part('many files', run_many, enum=enum_many, rule='more files than a process may have open'),
                  Part('terminal', run_terminal, gen_terminal, quick=80, thorough=1500, rule='the same with a real process and a terminal as its input and output'),
              ], ['the library builds the right TOCs (C01 to C13, C22 to C25)'])
