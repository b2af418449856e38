"""Engine: runs the parts of a check over generated cases, shrinks failures, writes evidence.

A check is a list of Part objects.  A part either draws cases from a seeded
generator or enumerates a finite space completely; its ``run`` function takes one
JSON-like case and returns a truth value saying whether the case was non-trivial,
or raises Violation.  An exception that comes out of md_toc itself and is not
expected by ``run`` counts as a violation too; any other exception is an error of
the harness (exit 2), never a verdict.
"""
import hashlib
import itertools
import json
import multiprocessing
import os
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback

REPO = os.environ.get('VP_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CPU_LIMIT = 60.0


class Violation(Exception):
    """The property does not hold for this case."""


class Reject(Exception):
    """The case is outside the domain of the part (used while shrinking)."""


class Hang(BaseException):
    """The CPU budget of one case ran out."""


class Part:
    def __init__(self, name, run, gen=None, enum=None, quick=2000, thorough=None,
                 rule='', shrinkable=True):
        self.name = name
        self.run = run
        self.gen = gen
        self.enum = enum
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 20
        self.rule = rule
        self.shrinkable = shrinkable


class Check:
    def __init__(self, prop, rule, parts, assumptions=(), level='exploration', known=None):
        self.prop = prop
        self.rule = rule
        self.parts = parts
        self.assumptions = list(assumptions)
        self.level = level
        # known: list of (identifier, text, function returning True while the
        # recorded defect is still there).
        self.known = known or []


class Ctx:
    """What a running case may use: a scratch directory that is thrown away."""

    def __init__(self, root):
        self.root = root
        self.n = 0

    def path(self, name='doc.md'):
        return os.path.join(self.root, name)

    def write(self, data, name='doc.md'):
        p = os.path.join(self.root, name)
        if isinstance(data, str):
            data = data.encode('utf-8')
        with open(p, 'wb') as f:
            f.write(data)
        return p

    def read(self, name='doc.md'):
        with open(os.path.join(self.root, name), 'rb') as f:
            return f.read()

    def fresh(self):
        self.n += 1
        d = os.path.join(self.root, 'd%d' % self.n)
        os.mkdir(d)
        return d


CTX = None
COUNTERS = {}


def count(name, n=1):
    """Something a case did many times, for the evidence."""
    COUNTERS[name] = COUNTERS.get(name, 0) + n


def ctx():
    return CTX


def from_repo(exc):
    """Did this exception come out of md_toc (or out of a library that md_toc called)?"""
    tb = exc.__traceback__
    prefix = os.path.join(os.path.realpath(REPO), 'md_toc') + os.sep
    while tb is not None:
        f = os.path.realpath(tb.tb_frame.f_code.co_filename)
        if f.startswith(prefix):
            return True
        tb = tb.tb_next
    return False


def _alarm(signum, frame):
    raise Hang()


def evaluate(part, case):
    """Returns (nontrivial, None) or (False, message of the violation)."""
    signal.setitimer(signal.ITIMER_VIRTUAL, CPU_LIMIT)
    try:
        try:
            return bool(part.run(case)), None
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    except Hang:
        return False, 'no answer within %d s of CPU time' % CPU_LIMIT
    except Violation as e:
        return False, str(e) or 'violated'
    except Reject:
        raise
    except RecursionError as e:
        if from_repo(e):
            return False, 'RecursionError out of md_toc'
        raise
    except Exception as e:
        if from_repo(e):
            last = traceback.extract_tb(e.__traceback__)[-1]
            return False, 'unexpected %s: %s (from %s:%s)' % (
                type(e).__name__, str(e)[:200], os.path.basename(last.filename), last.name)
        raise


# ---------------------------------------------------------------- shrinking

# Values that a case takes from a fixed list: shrinking leaves them alone.
ATOMIC = frozenset(('parser', 'eol', 'eols', 'end', 'list_marker', 'newline_string', 'newline', 'c', 'kind', 'op',
                    'style', 'fault', 'how', 'argv', 'place', 'keep_header_levels', 'keep', 'code'))


def _smaller(v):
    """Candidate simplifications of a JSON-like value, biggest cuts first."""
    if isinstance(v, bool):
        if v:
            yield False
    elif isinstance(v, int):
        if v:
            for c in {0, 1, v // 2, v - 1 if v > 0 else v + 1}:
                if abs(c) < abs(v):
                    yield c
    elif isinstance(v, str):
        n = len(v)
        k = n
        while k >= 1:
            for i in range(0, n, k):
                yield v[:i] + v[i + k:]
            k //= 2
        if n <= 60:
            for i in range(n):
                if v[i] not in 'a \n#':
                    yield v[:i] + 'a' + v[i + 1:]
    elif isinstance(v, list):
        n = len(v)
        k = n
        while k >= 1:
            for i in range(0, n, k):
                yield v[:i] + v[i + k:]
            k //= 2
        for i in range(n):
            for c in _smaller(v[i]):
                yield v[:i] + [c] + v[i + 1:]
    elif isinstance(v, dict):
        for key in list(v):
            if key in ATOMIC:
                continue
            for c in _smaller(v[key]):
                d = dict(v)
                d[key] = c
                yield d


def shrink(part, case, message, seconds=20, attempts=4000):
    if not part.shrinkable or message.startswith('no answer'):
        return case, message
    def kind(m):
        # A shrunk case must fail in the same way, not by leaving the domain.
        return m.split(':')[0] if m.startswith('unexpected') else ''
    end = time.monotonic() + seconds
    improved = True
    while improved and time.monotonic() < end and attempts > 0:
        improved = False
        for cand in _smaller(case):
            attempts -= 1
            if attempts <= 0 or time.monotonic() > end:
                break
            try:
                _, m = evaluate(part, cand)
            except Exception:
                continue
            if m is not None and not m.startswith('no answer') and kind(m) == kind(message):
                case, message = cand, m
                improved = True
                break
    return case, message


# ---------------------------------------------------------------- workers

def _hash(case):
    return hashlib.blake2b(json.dumps(case, sort_keys=True, default=str).encode(
        'utf-8', 'surrogatepass'), digest_size=8).digest()


def _setup_worker(scratch):
    global CTX
    os.makedirs(os.path.join(scratch, 'tmp'), exist_ok=True)
    os.makedirs(os.path.join(scratch, 'work'), exist_ok=True)
    os.environ['TMPDIR'] = os.path.join(scratch, 'tmp')
    tempfile.tempdir = os.path.join(scratch, 'tmp')
    os.chdir(os.path.join(scratch, 'work'))
    CTX = Ctx(os.path.join(scratch, 'work'))
    signal.signal(signal.SIGVTALRM, _alarm)


def cases_of(check, part, seed, tier, w, nw):
    if part.enum is not None:
        yield from itertools.islice(part.enum(tier), w, None, nw)
    if part.gen is not None:
        total = part.quick if tier == 'quick' else part.thorough
        for i in range(w, total, nw):
            rng = random.Random('%d/%s/%s/%d' % (seed, check.prop, part.name, i))
            try:
                case = part.gen(rng)
            except Exception:
                # A rare accident of a generator costs a case, not the run.
                count('generator accidents')
                if COUNTERS['generator accidents'] > 20 + total // 100:
                    raise
                continue
            yield case


def _worker(check, seed, tier, w, nw, scratch, deadline, stop, out):
    try:
        _setup_worker(os.path.join(scratch, 'w%d' % w))
        res = {'parts': {}, 'violations': [], 'cut': False}
        for part in check.parts:
            st = res['parts'][part.name] = {
                'evaluations': 0, 'nontrivial': 0, 'hashes': set(), 'samples': []}
            for k, case in enumerate(cases_of(check, part, seed, tier, w, nw)):
                if stop.is_set():
                    break
                if time.monotonic() > deadline:
                    res['cut'] = True
                    break
                try:
                    nontrivial, msg = evaluate(part, case)
                except Reject:
                    continue
                except Exception as e:
                    # The check stumbled over an answer: no verdict on this case, unless it keeps
                    # happening, which means that answers are not what they should be at all.
                    count('cases without a verdict')
                    st['odd'] = st.get('odd', 0) + 1
                    if st['odd'] < 5 or st['odd'] * 50 < st['evaluations']:
                        continue
                    last = traceback.extract_tb(e.__traceback__)[-1]
                    nontrivial, msg = False, 'answers that cannot be read: %s: %s (%s)' % (type(e).__name__, str(e)[:200], last.name)
                st['evaluations'] += 1
                if msg is not None:
                    stop.set()
                    case, msg = shrink(part, case, msg)
                    res['violations'].append((part.name, case, msg))
                    break
                if nontrivial:
                    st['nontrivial'] += 1
                    st['hashes'].add(_hash(case))
                    if w == 0 and len(st['samples']) < 3 and k % 7 == 0:
                        st['samples'].append(case)
            if res['violations'] or res['cut'] or stop.is_set():
                break
        res['counters'] = dict(COUNTERS)
        out.put((w, res, None))
    except BaseException:
        stop.set()
        out.put((w, None, traceback.format_exc()))


def clip(v, n=400):
    s = json.dumps(v, ensure_ascii=True, default=str)
    return v if len(s) <= n else s[:n] + '...'


def run_check(check, seed, tier, workers=None, budget=None):
    t0 = time.monotonic()
    nw = workers or min(8, os.cpu_count() or 1)
    budget = budget or (400 if tier == 'quick' else 4 * 3600)
    deadline = t0 + budget
    base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else None
    scratch = tempfile.mkdtemp(prefix='vp-%s-' % check.prop, dir=base)
    violations = []
    errors = []
    parts = {}
    cut = False
    known_lines = []
    counters = {}
    try:
        for ident, text, still in check.known:
            # Run in this process, inside the scratch directory.
            cwd = os.getcwd()
            _setup_worker(os.path.join(scratch, 'known'))
            try:
                present = still()
            finally:
                os.chdir(cwd)
            if present:
                known_lines.append('KNOWN-FINDING: property=%s %s: %s' % (check.prop, ident, text))
        mp = multiprocessing.get_context('fork')
        out = mp.Queue()
        stop = mp.Event()
        procs = [mp.Process(target=_worker, args=(check, seed, tier, w, nw, scratch,
                                                  deadline, stop, out)) for w in range(nw)]
        for p in procs:
            p.start()
        got = 0
        dead = set()
        while got < nw and len(dead) + got < nw + 1:
            try:
                w, res, err = out.get(timeout=5)
            except Exception:
                gone = {i for i, p in enumerate(procs) if not p.is_alive() and p.exitcode not in (0,)}
                if gone and got + len(gone) >= nw:
                    errors.append('worker(s) %s died: exit codes %s' % (
                        sorted(gone), [procs[i].exitcode for i in gone]))
                    break
                continue
            got += 1
            if err:
                errors.append(err)
                continue
            cut = cut or res['cut']
            violations.extend(res['violations'])
            for k, v in res['counters'].items():
                counters[k] = counters.get(k, 0) + v
            for name, st in res['parts'].items():
                d = parts.setdefault(name, {'evaluations': 0, 'nontrivial': 0,
                                            'hashes': set(), 'samples': []})
                d['evaluations'] += st['evaluations']
                d['nontrivial'] += st['nontrivial']
                d['hashes'] |= st['hashes']
                d['samples'] += st['samples']
        for p in procs:
            p.join(timeout=10)
            if p.is_alive():
                p.kill()
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

    seen = []
    for name, case, msg in violations:
        rep = {'property': check.prop, 'part': name, 'case': case, 'message': msg,
               'seed': seed, 'tier': tier}
        blob = json.dumps(rep, indent=1, ensure_ascii=True, default=str)
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        path = os.path.join(VERIF, 'replays', '%s-%s-%s.json' % (
            check.prop, name, hashlib.sha1(blob.encode()).hexdigest()[:10]))
        with open(path, 'w') as f:
            f.write(blob + '\n')
        seen.append((path, name, case, msg))

    coverage = {
        'evaluations': sum(d['evaluations'] for d in parts.values()),
        'distinct_nontrivial': sum(len(d['hashes']) for d in parts.values()),
        'rule': check.rule,
        'samples': [{'part': n, 'case': clip(s)} for n, d in parts.items() for s in d['samples'][:3]],
        'parts': {n: {'evaluations': d['evaluations'], 'nontrivial': d['nontrivial'],
                      'distinct_nontrivial': len(d['hashes']),
                      'kind': 'enumeration' if p.enum is not None else 'generated',
                      'what': p.rule}
                  for p in check.parts for n, d in parts.items() if n == p.name},
        'stopped_by_time_limit': cut,
    }
    coverage.update(counters)
    ev = {'property': check.prop, 'tier': tier, 'seed': seed, 'level': check.level,
          'coverage': coverage, 'assumptions': check.assumptions,
          'wall_s': round(time.monotonic() - t0, 2), 'violations': len(seen)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', check.prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, ensure_ascii=True)
        f.write('\n')

    for line in known_lines:
        print(line)
    if seen:
        for path, name, case, msg in seen:
            print('part %s: %s' % (name, msg[:1500]))
            print('case: %s' % json.dumps(case, ensure_ascii=True, default=str)[:1500])
            print('VIOLATION property=%s replay=%s' % (check.prop, path))
        return 1
    if errors:
        print('ERROR in the check itself:', file=sys.stderr)
        print(errors[0], file=sys.stderr)
        return 2
    print('%s: %d cases, %d distinct non-trivial, %.1f s, no violation' % (
        check.prop, coverage['evaluations'], coverage['distinct_nontrivial'], ev['wall_s']))
    return 0


def replay(check, path):
    with open(path) as f:
        rep = json.load(f)
    scratch = tempfile.mkdtemp(prefix='vp-replay-')
    try:
        _setup_worker(scratch)
        part = next(p for p in check.parts if p.name == rep['part'])
        _, msg = evaluate(part, rep['case'])
    finally:
        os.chdir('/')
        shutil.rmtree(scratch, ignore_errors=True)
    if msg is None:
        print('the case of %s passes' % path)
        return 0
    print('case: %s' % json.dumps(rep['case'], ensure_ascii=True)[:3000])
    print(msg)
    print('VIOLATION property=%s replay=%s' % (check.prop, path))
    return 1
