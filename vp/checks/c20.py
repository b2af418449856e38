"""C20: results depend on the file's content only, not on other files or earlier calls."""
import copy
import multiprocessing
import os
import shutil
import sys
import threading

from .common import (Check, G, M, Part, Reject, Violation, ctx, lines_ok, mixtext, same, show, simple, T)
from .. import core

# ------------------------------------------------------------------ fresh processes

_server = None


def _serve(conn):
    """Never calls md_toc itself: every request is answered by a child forked from here."""
    while True:
        try:
            req = conn.recv()
        except EOFError:
            os._exit(0)
        pid = os.fork()
        if pid == 0:
            try:
                try:
                    ans = ('val', perform(req))
                except Exception as e:
                    ans = ('err', type(e).__name__ + (' from md_toc' if core.from_repo(e) else ': %s' % e))
                conn.send(ans)
            finally:
                os._exit(0)
        os.waitpid(pid, 0)


def fresh(req):
    """What a process that has done nothing else answers."""
    global _server
    if _server is None or _server[0] != os.getpid():
        a, b = multiprocessing.Pipe()
        pid = os.fork()
        if pid == 0:
            a.close()
            try:
                _serve(b)
            finally:
                os._exit(0)
        b.close()
        _server = (os.getpid(), a)
    _server[1].send(req)
    return _server[1].recv()


def perform(req):
    kind = req[0]
    if kind == 'build':
        return T.build(req[1], **req[2])
    if kind == 'multi':
        return kept(T.api.build_multiple_tocs, list(req[1]), **req[2])
    if kind == 'stdin':
        return T.with_stdin(req[1], T.build, '-', **req[2])
    if kind == 'inplace':
        r = T.build(req[1], **req[2])
        if r[0] != 'ok':
            return r
        eq = T.api.write_string_on_file_between_markers(req[1], r[1], M.MARKER, req[2].get('newline_string', '\n'))
        return ('ok', bool(eq))
    if kind == 'equal':
        return ('ok', bool(T.api.tocs_equal(req[2], req[1], M.MARKER)))
    if kind == 'anchor':
        return ('ok', T.api.build_anchor_link(req[1], {}, req[2]))
    if kind == 'header':
        return T.call(T.api.get_md_header, req[1], {}, req[3], req[2], False)
    if kind == 'emphasis':
        return ('ok', T.api.remove_emphasis(req[1], req[2]))
    if kind == 'html':
        return ('ok', T.api.remove_html_tags(req[1], req[2]))
    if kind == 'atx':
        return T.call(T.api.get_atx_heading, req[1], req[3], req[2], False)
    if kind == 'split':
        return ('ok', T.api.replace_and_split_newlines(req[1]))
    if kind == 'log':
        return ('ok', T.api.init_indentation_log(req[2], req[1]))
    if kind == 'entry':
        header = {'header_type': 1, 'text_original': req[1], 'text_anchor_link': req[1], 'visible': True}
        return kept(T.api.build_toc_line_without_indentation, header, False, req[3], 1, req[2])
    if kind == 'filter':
        return kept(T.api.filter_indices_from_line, req[1], [range(a, b) for a, b in req[2]])
    if kind == 'writes':
        return kept(T.api.write_strings_on_files_between_markers, list(req[1]), list(req[2]), M.MARKER)
    raise AssertionError(kind)


def kept(fn, *args, **opts):
    """A call may not change its arguments: the caller may use them again."""
    before = copy.deepcopy((args, opts))
    r = T.call(fn, *args, **opts)
    same((args, opts), before, 'arguments after a call of %s' % fn.__name__)
    return r


def spoil(x):
    """What a caller does with a result is up to the caller."""
    if isinstance(x, tuple):
        for y in x:
            spoil(y)
    elif isinstance(x, list):
        for y in x:
            spoil(y)
        x.append('spoilt')
    elif isinstance(x, dict):
        for k in x:
            spoil(x[k])
            x[k] = 'spoilt'


def rng_name(i):
    return ('other name.md', 'other name.txt', 'other', 'other.rst')[i % 4]


def attempt(req):
    try:
        return ('val', perform(req))
    except Exception as e:
        if not core.from_repo(e):
            raise
        return ('err', type(e).__name__ + ' from md_toc')


# ------------------------------------------------------------------ histories

NAMES = ['a.md', 'b.txt', 'c', 'd e.MD', 'é.markdown', '-f.rst', 'g.html', 'h.md.bak', 'README', 'i.json', 'j.rmd', 'k.py', '-', '--', 'CON', '.md', 'stdin', '/dev/stdin'.replace('/', '_'), 'x.md ', '~', '$HOME', '%s']


def content(f):
    if not lines_ok(f['lines']):
        raise Reject()
    data = G.join(f['lines'], f['eol'], f.get('final', True)).encode()
    return data + (b'\xff\xfe' if f.get('binary') else b'')


def run(case):
    fresh(('anchor', 'x', 'github'))  # start the server before anything else is called
    d = ctx().fresh()
    paths = [os.path.join(d, n) for n in NAMES]
    for p in paths:
        with open(p, 'wb') as h:
            h.write(b'')
    calls = 0
    last = {}
    for i, op in enumerate(case['ops']):
        k = op[0]
        what = 'step %d %r' % (i, op[:1] + [x for x in op[1:] if not isinstance(x, dict) or 'lines' not in x])
        if k == 'write':
            p = paths[op[1] % len(paths)]
            old = os.stat(p)
            with open(p, 'wb') as h:
                h.write(content(op[2]))
            if op[3]:
                # An edit that keeps the time of the last modification.
                os.utime(p, ns=(old.st_atime_ns, old.st_mtime_ns))
            continue
        if k == 'swap':
            a, b = paths[op[1] % len(paths)], paths[op[2] % len(paths)]
            if a != b:
                os.rename(a, a + '.tmp')
                os.rename(b, a)
                os.rename(a + '.tmp', b)
            continue
        if k == 'letter':
            # Change one letter in place: same size, same time.
            p = paths[op[1] % len(paths)]
            old = os.stat(p)
            with open(p, 'rb') as h:
                data = bytearray(h.read())
            where = [j for j, c in enumerate(data) if 97 <= c <= 121]
            if where:
                data[where[op[2] % len(where)]] += 1
            with open(p, 'wb') as h:
                h.write(data)
            os.utime(p, ns=(old.st_atime_ns, old.st_mtime_ns))
            continue
        if k == 'rotate':
            # Move the first lines to the end: same size, same time.
            p = paths[op[1] % len(paths)]
            old = os.stat(p)
            with open(p, 'rb') as h:
                data = h.read().splitlines(True)
            j = op[2] % len(data) if data else 0
            with open(p, 'wb') as h:
                h.write(b''.join(data[j:] + data[:j]))
            os.utime(p, ns=(old.st_atime_ns, old.st_mtime_ns))
            continue
        calls += 1
        if k == 'build':
            req = ('build', paths[op[1] % len(paths)], op[2])
            got = attempt(req)
            same(got, fresh(req), what)
            if i % 3 == 0 or len(os.path.basename(req[1])) < 3:
                # The same document under a plain name.
                q = os.path.join(d, 'plain.md')
                shutil.copyfile(req[1], q)
                want = fresh(('build', q, op[2]))
                if want[0] == 'val' and want[1][0] == 'ok' and want[1][1].startswith('<!--stop reading'):
                    want = ('val', ('ok', want[1][1].replace(q, req[1], 1)))
                same(got, want, what + ', against the same document in a file with a plain name')
            same(attempt(req), got, what + ', again')
        elif k == 'multi':
            names = [paths[x % len(paths)] for x in op[1]]
            if not names:
                raise Reject()
            got = attempt(('multi', names, op[2]))
            each = [fresh(('build', p, op[2])) for p in names]
            err = next((e for e in each if e[0] == 'err' or e[1][0] == 'exc'), None)
            same(got, err or ('val', ('ok', [e[1][1] for e in each])), what)
        elif k == 'stdin':
            data = content(op[1])
            p = os.path.join(d, rng_name(i))
            with open(p, 'wb') as h:
                h.write(data)
            want = fresh(('build', p, op[2]))
            if want[0] == 'val' and want[1][0] == 'ok' and want[1][1].startswith('<!--stop reading'):
                want = ('val', ('ok', want[1][1].replace(p, '-', 1)))
            same(attempt(('stdin', data, op[2])), want, what)
        elif k == 'inplace':
            p = paths[op[1] % len(paths)]
            with open(p, 'rb') as h:
                data = h.read()
            q = os.path.join(d, 'copy')
            with open(q, 'wb') as h:
                h.write(data)
            want = fresh(('inplace', q, op[2]))
            with open(q, 'rb') as h:
                wanted = h.read()
            same(attempt(('inplace', p, op[2])), want, what)
            with open(p, 'rb') as h:
                same(h.read(), wanted, 'file after ' + what)
        elif k == 'equal':
            p = paths[op[1] % len(paths)]
            text = op[2]
            if text is None:
                # What the file has now, or had at the last comparison.
                text = last.get(p, '')
                with open(p, 'rb') as h:
                    lines = M.split_lines(h.read().decode('utf-8', 'replace'))
                last[p] = M.existing(lines, M.locate(lines, M.MARKER), M.MARKER)
                for t in (text, last[p]):
                    req = ('equal', p, t)
                    same(attempt(req), fresh(req), what)
                continue
            req = ('equal', p, text)
            same(attempt(req), fresh(req), what)
        elif k == 'relative':
            relative(d, [paths[x % len(paths)] for x in op[1]], op[2], op[3], what)
        elif k == 'threads':
            threads(paths, op[1], what)
        elif k == 'writes':
            names = [paths[x % len(paths)] for x in op[1]]
            strings = op[2][:len(names)]
            if len(strings) < len(names):
                raise Reject()
            copies = {}
            for n in names:
                copies[n] = os.path.join(d, 'copy%d' % len(copies)) if n not in copies else copies[n]
                shutil.copyfile(n, copies[n])
            want = fresh(('writes', [copies[n] for n in names], strings))
            same(attempt(('writes', names, strings)), want, what)
            for n in names:
                with open(n, 'rb') as h, open(copies[n], 'rb') as g:
                    same(h.read(), g.read(), 'file after ' + what)
        else:
            req = tuple(op)
            got, want = attempt(req), fresh(req)
            same(got, want, what)
            if k in ('header', 'atx', 'split', 'log'):
                spoil(got)
                same(attempt(req), want, what + ', after the caller has changed the first result')
    shutil.rmtree(d)
    return calls > 1


def relative(d, sources, opts, style, what):
    """The same relative name in several directories."""
    cwd = os.getcwd()
    name = ('rel.md', './rel.md', 'in/rel.md', '../rel.md')[style % 4]
    try:
        for j, src in enumerate(sources):
            here = os.path.join(d, 'dir%d' % j, 'sub')
            os.makedirs(os.path.join(here, 'in'), exist_ok=True)
            os.chdir(here)
            full = os.path.join(here, name)
            shutil.copyfile(src, full)
            want = fresh(('build', full, opts))
            if want[0] == 'val' and want[1][0] == 'ok' and want[1][1].startswith('<!--stop reading'):
                want = ('val', ('ok', want[1][1].replace(full, name, 1)))
            same(attempt(('build', name, opts)), want, what + ', from directory %d' % j)
            with open(full, 'rb') as h:
                data = h.read()
            q = os.path.join(d, 'copy')
            with open(q, 'wb') as h:
                h.write(data)
            want = fresh(('inplace', q, opts))
            same(attempt(('inplace', name, opts)), want, what + ', update from directory %d' % j)
            with open(q, 'rb') as h, open(full, 'rb') as g:
                same(g.read(), h.read(), 'file after ' + what + ', from directory %d' % j)
    finally:
        os.chdir(cwd)


def threads(paths, jobs, what):
    reqs = [('build', paths[j[0] % len(paths)], j[1]) for j in jobs]
    wants = [fresh(r) for r in reqs]
    got = [None] * len(reqs)
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)

    def work(i):
        try:
            got[i] = attempt(reqs[i])
        except BaseException as e:
            got[i] = ('harness', repr(e))
    try:
        ts = [threading.Thread(target=work, args=(i,)) for i in range(len(reqs))]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        sys.setswitchinterval(old)
    for i, (g, w) in enumerate(zip(got, wants)):
        if g[0] == 'harness':
            raise RuntimeError(g[1])
        same(g, w, '%s, thread %d' % (what, i))


# ------------------------------------------------------------------ generators

def pool(rng):
    base = [simple(rng) for _ in range(3)]
    return base + [base[0].upper(), base[0] + '-1', '*' + base[1] + '*', '`' + base[2], '[' + base[0] + '](' + base[1], mixtext(rng)[:80], '**a *b** c*', '<b>' + base[0] + '</b>', '<title>' + base[0] + '</xmp>', base[1] + ' - ' + base[2] + '  x', '\t' + base[0] + '\t', '<?' + base[0] + '?>' + base[1]] + (alike(rng) if rng.random() < 0.4 else [])


def alike(rng):
    """Long texts that differ in one place only."""
    n = min(G.size(rng, 3, 950, 120), 950)
    body = ''.join(rng.choice('ab c*_d') for _ in range(n)).strip() or 'x'
    out = [body]
    for _ in range(3):
        k = rng.choice((0, len(body) - 1, len(body) // 2, rng.randrange(len(body))))
        out.append((body[:k] + rng.choice('xyz') + body[k + 1:]).strip())
    return out + [body + 'q', body.upper(), 'q' + body, body + ' *e*', body + ' *f*']


def doc(rng, words):
    lines = []
    lv = rng.choice((1, 1, 2, 3))
    first = lv
    for _ in range(rng.choice((0, 1, 3, 6, 12))):
        p = rng.random()
        if p < 0.75:
            lines.append(G.clean('#' * lv + rng.choice('    \t') + rng.choice(words)))
            lv = max(first, min(6, lv + rng.choice((1, 0, 0, -1, -2))))
            if rng.random() < 0.03:
                lv = rng.randint(1, 6)
        else:
            lines.append(rng.choice(['', 'text', '```', '~~~', '````', M.MARKER]))
    if rng.random() < 0.06:
        lines.append(rng.choice(['#', '# ' + 'x' * 1001, '# a\\']))
    if rng.random() < 0.3:
        lines.append(rng.choice(['```', '~~~']))  # a fence that nothing closes
    if rng.random() < 0.08:
        lines[:1] = ['\ufeff' + x for x in lines[:1] or ['']]
    return {'lines': lines, 'eol': rng.choice(['\n', '\n', '\n', '\r\n', '\r']), 'final': rng.random() < 0.8, 'binary': rng.random() < 0.04}


def some_opts(rng, fixed):
    if fixed and rng.random() < 0.7:
        return dict(rng.choice(fixed))
    o = G.options(rng)
    if rng.random() < 0.2:
        o['skip_lines'] = rng.choice((0, 1, 3))
    return o


def gen(rng):
    words = pool(rng)
    fixed = [G.options(rng) for _ in range(2)]
    if rng.random() < 0.5:
        for o in fixed:
            o['no_list_coherence'] = True
    nf = rng.choice((1, 2, 4))
    slots = rng.sample(range(len(NAMES)), nf)
    f = lambda: rng.choice(slots)  # noqa: E731
    ops = [['write', i, doc(rng, words), False] for i in slots]
    for _ in range(rng.choice((4, 8, 14))):
        p = rng.random()
        if p < 0.3:
            ops.append(['build', f(), some_opts(rng, fixed)])
        elif p < 0.42:
            ops.append(['multi', [f() for _ in range(rng.randint(1, 4))], some_opts(rng, fixed)])
        elif p < 0.52:
            ops.append(['write', f(), doc(rng, words), rng.random() < 0.5])
        elif p < 0.6:
            ops.append(['letter', f(), rng.randrange(1000)])
        elif p < 0.66:
            ops.append(['stdin', doc(rng, words), some_opts(rng, fixed)])
        elif p < 0.74:
            ops.append(['inplace', f(), some_opts(rng, fixed)])
        elif p < 0.78:
            ops.append(['equal', f(), '- [%s](#x)\n' % words[0]])
        elif p < 0.82:
            ops.append(['swap', f(), f()] if rng.random() < 0.6 else ['relative', [f() for _ in range(rng.randint(2, 4))], some_opts(rng, fixed), rng.randrange(4)])
        elif p < 0.86:
            ops.append(['threads', [[f(), some_opts(rng, fixed)] for _ in range(rng.randint(2, 4))]])
        else:
            w = rng.choice(words)
            parser = G.parser_of(rng, True)
            ops.append(rng.choice([['anchor', w, parser], ['header', '# ' + w, parser, 6], ['emphasis', w, parser], ['html', w, parser], ['atx', '# ' + w, parser, 6],
                                   ['split', w + '\n' + w], ['log', rng.choice('-+*.'), parser], ['entry', w, parser, rng.random() < 0.3],
                                   ['filter', w, [[rng.randint(0, len(w)), rng.randint(0, len(w))] for _ in range(rng.randint(0, 3))]],
                                   ['writes', [f() for _ in range(3)], ['- [%s](#x)\n' % words[i] for i in range(3)]]]))
    return {'ops': ops}


def gen_files(rng):
    """Comparisons and updates between edits that are hard to notice."""
    words = pool(rng)
    fixed = [dict(G.options(rng), no_list_coherence=True) for _ in range(2)]
    slots = rng.sample(range(len(NAMES)), rng.choice((1, 2)))
    f = lambda: rng.choice(slots)  # noqa: E731
    ops = []
    for i in slots:
        c = doc(rng, words)
        c['binary'] = False
        at = rng.randrange(len(c['lines']) + 1)
        c['lines'][at:at] = [M.MARKER, '', '- [%s](#x)' % words[0], '', M.MARKER] if rng.random() < 0.7 else [M.MARKER]
        c['final'] = True
        ops.append(['write', i, c, False])
    for _ in range(rng.choice((4, 8, 14))):
        p = rng.random()
        if p < 0.4:
            ops.append(['equal', f(), None if rng.random() < 0.8 else '- [%s](#x)\n' % words[0]])
        elif p < 0.6:
            ops.append(['rotate', f(), rng.randrange(20)])
        elif p < 0.7:
            ops.append(['letter', f(), rng.randrange(1000)])
        elif p < 0.75:
            ops.append(['swap', f(), f()])
        elif p < 0.87:
            ops.append(['inplace', f(), some_opts(rng, fixed)])
        else:
            ops.append(['build', f(), some_opts(rng, fixed)])
    return {'ops': ops}


def gen_threads(rng):
    words = pool(rng)
    ops = [['write', i, doc(rng, words), False] for i in range(4)]
    for _ in range(3):
        ops.append(['threads', [[rng.randrange(4), dict(G.options(rng), no_list_coherence=True)] for _ in range(rng.randint(2, 6))]])
    return {'ops': ops}


CHECK = Check('C20', 'histories of builds, multi-file builds, standard input, comparisons, in-place updates, direct calls, failing builds, threads and '
              'edits (also ones that keep size and time, and swapped files); non-trivial: at least two calls', [
                  Part('history', run, gen, quick=2600, rule='every answer against the answer of a process that has done nothing else'),
                  Part('files', run, gen_files, quick=900, thorough=12000, rule='comparisons and updates between edits that keep size and time'),
                  Part('threads', run, gen_threads, quick=160, thorough=4000, rule='builds in 2 to 6 threads at once'),
              ], ['threads are interleaved by the interpreter with a switch interval of 1 microsecond, not enumerated'])
