"""Imports md_toc from the working tree of /repo, and wraps it for the checks.

Only documented entry points are used: the functions of docs/api.rst and the
command line.  Nothing here looks at how they are written, except MINED, a
dictionary of the literals found in the source that steers generators (sizes and
text fragments); verdicts never depend on it.
"""
import ast
import io
import json
import os
import sys

from .core import REPO, VERIF  # noqa: F401

sys.dont_write_bytecode = True
sys.path.insert(0, REPO)
for _p in ('/opt/venv/lib/python3.12/site-packages',):
    if _p not in sys.path:
        sys.path.append(_p)

import md_toc  # noqa: E402
from md_toc import api, exceptions  # noqa: E402
import md_toc.__main__ as md_main  # noqa: E402
import md_toc.cli  # noqa: E402,F401

_real = os.path.realpath(md_toc.__file__)
if not _real.startswith(os.path.realpath(REPO) + os.sep):
    raise SystemExit('md_toc was imported from %s, not from %s' % (_real, REPO))

build_toc = api.build_toc

DOCUMENTED = ('GithubEmptyLinkLabel', 'GithubOverflowCharsLinkLabel',
              'TocDoesNotRenderAsCoherentList', 'GithubOverflowOrderedListMarker')


def call(fn, *a, **kw):
    """('ok', value) or ('exc', class name) for the documented exceptions and ValueError."""
    try:
        return ('ok', fn(*a, **kw))
    except Exception as e:
        if type(e).__module__ == exceptions.__name__:
            return ('exc', type(e).__name__)
        raise


def build(path, **opts):
    return call(api.build_toc, path, **opts)


class FakeStdin(io.TextIOWrapper):
    """A standard input that cannot be seeked, like a pipe."""

    def seekable(self):
        return False

    def seek(self, *a):
        raise io.UnsupportedOperation('underlying stream is not seekable')

    def tell(self):
        raise io.UnsupportedOperation('underlying stream is not seekable')


def with_stdin(data, fn, *a, **kw):
    if isinstance(data, str):
        data = data.encode('utf-8')
    old = sys.stdin
    sys.stdin = FakeStdin(io.BytesIO(data), encoding='utf-8', newline='\n')
    try:
        return fn(*a, **kw)
    finally:
        sys.stdin = old


class _Out(io.TextIOWrapper):
    pass


def cli(argv, stdin=b''):
    """Runs the command in this process: (exit status, stdout, stderr)."""
    if isinstance(stdin, str):
        stdin = stdin.encode('utf-8')
    so, se, si, sa = sys.stdout, sys.stderr, sys.stdin, sys.argv
    out = io.BytesIO()
    sys.stdout = io.TextIOWrapper(out, encoding='utf-8', newline='', write_through=True)
    sys.stderr = io.StringIO()
    sys.stdin = FakeStdin(io.BytesIO(stdin), encoding='utf-8', newline='\n')
    sys.argv = ['md_toc'] + list(argv)
    code = None
    try:
        try:
            md_main.main()
        except SystemExit as e:
            code = e.code
            if code is None:
                code = 0
        sys.stdout.flush()
        return code, out.getvalue().decode('utf-8'), sys.stderr.getvalue()
    finally:
        sys.stdout, sys.stderr, sys.stdin, sys.argv = so, se, si, sa


# ---------------------------------------------------------------- literals

def _mine():
    ints, strs = set(), set()
    root = os.path.join(REPO, 'md_toc')
    for d, subdirs, files in os.walk(root):
        subdirs[:] = [s for s in subdirs if s not in ('tests', '__pycache__')]
        for f in files:
            if not f.endswith('.py'):
                continue
            try:
                with open(os.path.join(d, f), encoding='utf-8') as h:
                    tree = ast.parse(h.read())
            except (SyntaxError, UnicodeDecodeError):
                continue
            docs = set()
            for node in ast.walk(tree):
                if isinstance(node, (ast.Module, ast.ClassDef, ast.FunctionDef)):
                    b = node.body
                    if b and isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant):
                        docs.add(id(b[0].value))
            for node in ast.walk(tree):
                if not isinstance(node, ast.Constant) or id(node) in docs:
                    continue
                v = node.value
                if isinstance(v, bool) or v is None:
                    continue
                if isinstance(v, int) and 0 <= v < 2**31:
                    ints.add(v)
                elif isinstance(v, str) and 0 < len(v) <= 40:
                    strs.add(v)
    return ints, strs


def _load():
    ints, strs = _mine()
    base = {'ints': [], 'strs': []}
    p = os.path.join(VERIF, 'data', 'literals.json')
    if os.path.exists(p):
        with open(p, encoding='utf-8') as f:
            base = json.load(f)
    new_i = sorted(ints - set(base['ints']))
    new_s = sorted(strs - set(base['strs']))
    return sorted(ints), sorted(strs), new_i, new_s


INTS, STRS, NEW_INTS, NEW_STRS = _load()
