"""C21: a failed run leaves every file whole."""
import json
import os
import random
import resource
import shutil
import sys
import tempfile

from .common import (Check, G, M, Part, Reject, Violation, ctx, lines_ok, same, show, simple, T)
from ..core import count
from . import files as F
from .c15 import cli_args

EVENTS = ('open', 'os.rename', 'os.remove', 'os.truncate', 'os.link', 'os.symlink', 'os.chmod', 'os.utime', 'os.mkdir', 'os.rmdir', 'os.setxattr', 'os.listdir',
          'shutil.copyfile', 'shutil.copymode', 'shutil.copystat', 'shutil.move', 'shutil.rmtree', 'shutil.copytree', 'tempfile.mkstemp', 'tempfile.mkdtemp')
WRITES = ('os.rename', 'os.remove', 'os.truncate', 'os.link', 'shutil.copyfile', 'shutil.move', 'tempfile.mkstemp', 'tempfile.mkdtemp')


def _arm(fault, stat, roots):
    """In the child: count the points at which something can fail and fail at the chosen one."""
    kind, at = (fault[0], fault[1]) if fault else (None, -1)
    on = [True]

    def hook(event, args):
        if not on[0] or event not in EVENTS:
            return
        if event == 'open':
            name = args[0]
            if not isinstance(name, (str, bytes)) or not os.fsdecode(name).startswith(roots):
                return
            if (isinstance(args[1], str) and set(args[1]) & set('wax+')) or (isinstance(args[2], int) and args[2] & (os.O_WRONLY | os.O_RDWR)):
                stat['writing'] = True
        elif event in WRITES:
            stat['writing'] = True
        stat['events'] += 1
        if stat['events'] - 1 == at:
            if kind == 'error':
                raise OSError(28, 'injected')
            if kind == 'exit':
                os._exit(77)
            if kind == 'limit':
                resource.setrlimit(resource.RLIMIT_FSIZE, (fault[2], resource.getrlimit(resource.RLIMIT_FSIZE)[1]))
    sys.addaudithook(hook)

    base = (os.path.realpath(T.REPO) + '/md_toc', os.path.dirname(shutil.__file__) + '/shutil.py', tempfile.__file__)

    def trace(frame, event, arg):
        f = frame.f_code.co_filename
        if not (f.startswith(base) or '/fpyutils/' in f):
            return None

        def local(frame, event, arg):
            if event == 'line' and stat['writing']:
                stat['lines'] += 1
                if stat['lines'] - 1 == at:
                    if kind == 'line-exit':
                        os._exit(77)
                    if kind == 'line-interrupt':
                        on[0] = False
                        raise KeyboardInterrupt
            return local
        return local
    if fault is None or kind.startswith('line'):
        sys.settrace(trace)
    return on


def attempt(d, tmp, argv, fault):
    """Runs the command in a forked process with one fault: (exit status or None, statistics)."""
    count('runs')
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 99
        try:
            os.close(r)
            os.dup2(os.open('/dev/null', os.O_WRONLY), 2)
            os.environ['TMPDIR'] = tmp
            tempfile.tempdir = tmp
            os.chdir(d)
            stat = {'events': 0, 'lines': 0, 'writing': False}
            on = _arm(fault, stat, (d, tmp))
            try:
                got = T.cli(argv)[0]
            except BaseException as e:
                got = type(e).__name__
            sys.settrace(None)
            on[0] = False
            os.write(w, json.dumps([got, stat]).encode())
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    data = b''
    while True:
        b = os.read(r, 65536)
        if not b:
            break
        data += b
    os.close(r)
    _, status = os.waitpid(pid, 0)
    if os.WIFEXITED(status) and os.WEXITSTATUS(status) == 0:
        return json.loads(data)
    if os.WIFEXITED(status) and os.WEXITSTATUS(status) == 77:
        return None, None
    raise RuntimeError('the child process ended with status %r' % status)


def other_tmp():
    """A directory on another file system than the scratch directory, or None."""
    for base in ('/tmp', '/var/tmp', '/dev/shm'):
        try:
            if os.stat(base).st_dev != os.stat(ctx().root).st_dev and os.access(base, os.W_OK):
                return tempfile.mkdtemp(prefix='vp-c21-', dir=base)
        except OSError:
            pass
    return None


class Scene:
    """Files in a directory of their own, restored before every attempt."""

    def __init__(self, case):
        self.d = ctx().fresh()
        self.tmp = other_tmp() if case.get('other') else None
        self.elsewhere = self.tmp
        if self.tmp is None:
            self.tmp = os.path.join(self.d, 'tmp')
        self.names = ['f%d.md' % i for i in range(len(case['files']))]
        self.datas = [G.join(f['lines'], f['eol'], True).encode() for f in case['files']]
        self.dir = os.path.join(self.d, 'files')
        # Other files, which no run has any business with.
        self.others = [pre + n + post for n in self.names for pre, post in (('', '~'), ('', '.bak'), ('', '.tmp'), ('', '.orig'), ('', '.new'), ('.', ''), ('.', '.swp'))]

    def restore(self):
        for x in (self.dir, self.tmp):
            shutil.rmtree(x, ignore_errors=True)
            os.mkdir(x)
        for n, data in zip(self.names, self.datas):
            with open(os.path.join(self.dir, n), 'wb') as h:
                h.write(data)
        for n in self.others:
            with open(os.path.join(self.dir, n), 'w') as h:
                h.write('other ' + n)

    def check_others(self, what):
        for n in self.others:
            try:
                with open(os.path.join(self.dir, n)) as h:
                    got = h.read()
            except FileNotFoundError:
                got = None
            if got != 'other ' + n:
                raise Violation('%s: another file, %s, holds %s' % (what, n, show(got, 300)))

    def read(self):
        out = []
        for n in self.names:
            try:
                with open(os.path.join(self.dir, n), 'rb') as h:
                    out.append(h.read())
            except FileNotFoundError:
                out.append(None)
        return out

    def close(self):
        shutil.rmtree(self.d, ignore_errors=True)
        if self.elsewhere:
            shutil.rmtree(self.elsewhere, ignore_errors=True)


def check_case(case):
    for f in case['files']:
        if not lines_ok(f['lines']):
            raise Reject()
    if not case['files'] or case['opts'].get('skip_lines', 0) < 0:
        raise Reject()


def run_faults(case):
    check_case(case)
    s = Scene(case)
    try:
        return faults(case, s)
    finally:
        s.close()


def faults(case, s):
    argv = cli_args(case['opts'], M.MARKER, ['-p']) + s.names
    s.restore()
    code, stat = attempt(s.dir, s.tmp, argv, None)
    if code != 0:
        raise Reject()
    new = s.read()
    s.check_others('no fault')
    old = s.datas
    rng = random.Random(case['pick'])
    n, m = stat['events'], stat['lines']
    plan = [(k, i) for i in range(n) for k in ('error', 'exit')]
    sizes = sorted({0, 1, 10} | {z for z in (4096, 65536) if any(len(x) > z for x in new)} | {len(x) // 2 for x in new} | {max(0, len(x) - 1) for x in new})
    plan += [('limit', i, z) for i in range(n) for z in (sizes if case['deep'] else rng.sample(sizes, 1))]
    lines = range(m) if case['deep'] or m <= 40 else sorted(rng.sample(range(m), 40))
    plan += [(k, i) for i in lines for k in (('line-exit', 'line-interrupt') if case['deep'] else (rng.choice(('line-exit', 'line-exit', 'line-interrupt')),))]
    for fault in plan:
        s.restore()
        code, _ = attempt(s.dir, s.tmp, argv, fault)
        count('fault_points')
        for name, o, w, got in zip(s.names, old, new, s.read()):
            if got != o and got != w:
                raise Violation('fault %r of %d events and %d lines: %s holds %s, neither its old content %s nor the new one %s' % (
                    fault, n, m, name, show(got, 300), show(o, 200), show(w, 200)))
        s.check_others('fault %r' % (fault,))
        if code == 0 and s.read() != new:
            raise Violation('fault %r: the command reports success but not every file was updated' % (fault,))
    return new != old


def run_build(case):
    """One of the files cannot be processed: nothing is written."""
    check_case(case)
    s = Scene(case)
    try:
        s.restore()
        names = list(s.names)
        if case['missing'] is not None:
            names.insert(case['missing'] % (len(names) + 1), 'no-such-file.md')
        argv = cli_args(case['opts'], M.MARKER, ['-p']) + [os.path.join(s.dir, n) for n in names]
        fails = case['missing'] is not None
        for n in s.names:
            r = T.build(os.path.join(s.dir, n), **case['opts'])
            fails = fails or r[0] == 'exc'
        if not fails:
            raise Reject()
        old = s.read()
        same(old, s.datas, 'files after building')
        r = T.cli(argv)
        same(r[:2], (1, ''), 'command')
        same(s.read(), old, 'files after a command that failed while building')
        same(sorted(os.listdir(s.dir)), sorted(s.names + s.others), 'directory after a command that failed while building')
        return any(M.MARKER in ''.join(f['lines']) for f in case['files'])
    finally:
        s.close()


def run_api(case):
    """The functions refuse bad arguments before they write anything."""
    check_case(case)
    s = Scene(case)
    try:
        s.restore()
        paths = [os.path.join(s.dir, n) for n in s.names]
        for bad in (['- x\n'] * (len(paths) + 1), ['- x\n'] * (len(paths) - 1), []):
            try:
                T.api.write_strings_on_files_between_markers(paths, bad, M.MARKER)
            except ValueError:
                pass
            else:
                raise Violation('%d strings for %d files were accepted' % (len(bad), len(paths)))
            same(s.read(), s.datas, 'files after %d strings for %d files' % (len(bad), len(paths)))
        return True
    finally:
        s.close()


def a_file(rng, bad=None):
    lines = []
    lv = 1
    for _ in range(rng.choice((0, 1, 2, 4, 8))):
        if rng.random() < 0.7:
            lines.append('#' * lv + ' ' + simple(rng))
            lv = max(1, min(6, lv + rng.choice((1, 0, 0, -1))))
        else:
            lines.append(rng.choice(['', 'text', '- x']))
    p = rng.random()
    at = rng.randrange(len(lines) + 1)
    if p < 0.35:
        lines[at:at] = [M.MARKER]
    elif p < 0.75:
        lines[at:at] = [M.MARKER, ''] + F.toc_like(rng)[:4] + ['', M.MARKER]
    elif p < 0.85:
        lines[at:at] = [M.MARKER, 'text', M.MARKER, 'more']
    if bad:
        lines.insert(rng.randrange(len(lines) + 1), bad)
    if rng.random() < 0.15:
        lines += ['padding %d' % i for i in range(rng.choice((10, 60)))]
    return {'lines': lines, 'eol': rng.choice(['\n', '\n', '\n', '\r\n', '\r'])}


def opts(rng):
    o = {'parser': G.parser_of(rng), 'keep_header_levels': 6, 'no_list_coherence': True}
    if rng.random() < 0.3:
        o['no_links'] = True
    if rng.random() < 0.3:
        o['newline_string'] = rng.choice(['\n', '\r\n', '\r'])
    return o


def gen_faults(rng):
    return {'files': [a_file(rng) for _ in range(rng.choice((1, 1, 1, 2)))], 'opts': opts(rng), 'other': rng.random() < 0.5, 'pick': rng.randrange(10**6), 'deep': False}


def gen_large(rng):
    """Files of 70 KB and more."""
    c = gen_faults(rng)
    f = rng.choice(c['files'])
    n = rng.choice((1000, 1000, 1000, 1800))
    pad = ['padding %d %s' % (i, 'x' * 60) for i in range(n)]
    f['lines'] = f['lines'] + pad if rng.random() < 0.5 else pad + f['lines']
    return c


def gen_deep(rng):
    return dict(gen_faults(rng), deep=True)


def gen_build(rng):
    o = {'parser': G.parser_of(rng), 'keep_header_levels': 6}
    k = rng.choice((1, 2, 3, 4))
    bad = rng.randrange(k)
    what = rng.choice(['#', '# ', '# ' + 'x' * 1000, '##### deep'])
    files = [a_file(rng, what if i == bad else None) for i in range(k)]
    return {'files': files, 'opts': o, 'missing': rng.randrange(5) if rng.random() < 0.4 else None}


def gen_api(rng):
    return {'files': [a_file(rng) for _ in range(rng.randint(1, 3))], 'opts': {'parser': 'github'}}


CHECK = Check('C21', 'one or two files with markers, updated in place by the command with one fault: an error or the end of the process at the k-th file '
              'operation (all k), a file-size limit from the k-th operation on (all k), the end of the process or Ctrl-C at the k-th line after the first '
              'write (40 k; thorough: all); temporary directory on the same or on another file system; non-trivial: the run without a fault changes a file', [
                  Part('build', run_build, gen_build, quick=2500, rule='several files, one of which cannot be processed'),
                  Part('api', run_api, gen_api, quick=300, rule='lists of different length'),
                  Part('faults', run_faults, gen_faults, quick=110, thorough=1500, rule='one fault at every operation'),
                  Part('large', run_faults, gen_large, quick=12, thorough=200, rule='the same with files of 70 KB to 130 KB'),
                  Part('deep', run_faults, gen_deep, quick=0, thorough=100, rule='one fault at every operation and every line'),
              ], ['a write that was reported as done is taken to be on disk (no power failure)', 'at most one fault per run'], level='fault_enumeration')
