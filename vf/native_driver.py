"""
Runs in its own process (sanitizer preloaded, or allocator instrumented):
native_driver.py MODE FOLDER SEED COUNT INTS_JSON

Prints one JSON line: what was run and what is wrong.
"""
import ctypes
import json
import os
import random
import sys

MODE, FOLDER, SEED, COUNT, INTS = sys.argv[1:6]
sys.dont_write_bytecode = True
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.path.insert(0, FOLDER)

from vf import gen  # noqa: E402
from vf.oracle import lev, osa  # noqa: E402
from vf.pairs import pair  # noqa: E402
import cfog.metrics as M  # noqa: E402
import cfog.metrics.levenshtein as NATIVE  # noqa: E402

assert NATIVE.__file__.startswith(FOLDER), NATIVE.__file__

COUNT = int(COUNT)
INTS = json.loads(INTS)
rng = random.Random('C04/%s/%s' % (MODE, SEED))
out = {'calls': 0, 'pairs': 0, 'bad': [], 'returns': {}}

# Where the process stands, readable after a crash
JOURNAL = os.environ.get('VERIF_JOURNAL')
jfd = os.open(JOURNAL, os.O_CREAT | os.O_WRONLY | os.O_TRUNC, 0o600) if JOURNAL else None


def journal(x):
    if jfd is not None:
        os.pwrite(jfd, repr(x)[:3000].encode('utf-8', 'backslashreplace').ljust(3100), 0)


def make_pair():
    r = rng.random()
    if r < 0.8:
        return pair(rng, INTS)
    if r < 0.95:
        return pair(rng, INTS, top=rng.choice([70, 140, 300]))
    letters = gen.alphabet(rng)
    a = gen.string(rng, rng.choice([500, 1023, 1024, 1500]), letters)
    return a, gen.edits(rng, a, rng.randint(1, 20), letters, 'idst')


def calls(a, b):
    """(name, thunk, expected, return path)"""
    d = lev(a, b)
    top = max(len(a), len(b))
    yield ('levenshtein_distance', lambda: M.levenshtein_distance(a, b), d)
    bounds = {0, 1, 2, max(0, d - 1), d, d + 1, max(0, top - 1), top, top + 1, abs(len(a) - len(b)), rng.randint(0, top + 3)}
    for k in sorted(bounds):
        yield ('limited_levenshtein_distance(%d)' % k, (lambda k=k: M.limited_levenshtein_distance(k, a, b)), d if d <= k else k + 1)
    yield ('levenshtein_distance_lte1', lambda: M.levenshtein_distance_lte1(a, b), d <= 1)
    yield ('damerau_levenshtein_distance_lte1', lambda: M.damerau_levenshtein_distance_lte1(a, b), None)


class Sub(str):
    pass


def strange(a, b):
    """Calls with arguments they are not made for: whatever they do, memory is left as it was."""
    others = [None, a.encode('utf-8', 'surrogatepass'), 12, 1.5, [a], Sub(a), bytearray(b'ab'), object(), float('nan')]
    other = rng.choice(others)
    x, y = rng.choice([(other, b), (a, other), (other, other)])
    for name in ('levenshtein_distance', 'levenshtein_distance_lte1', 'damerau_levenshtein_distance_lte1'):
        yield (name, lambda f=getattr(M, name): f(x, y))
    f = M.limited_levenshtein_distance
    yield ('limited_levenshtein_distance', lambda: f(2, x, y))
    k = rng.choice([-1, 2 ** 32, 2 ** 64, -2 ** 40, None, '1', 1.5, 2 ** 32 - 1, 2 ** 31, 2 ** 31 - 1])
    yield ('limited_levenshtein_distance(%r)' % (k,), lambda: f(k, a, b))
    yield ('missing argument', lambda: f(2, a))


def outcome_of(thunk):
    try:
        thunk()
    except Exception:
        return 'raised'
    return 'returned'


def note(name, expected):
    key = name.split('(')[0]
    out['returns'][key] = out['returns'].get(key, 0) + 1


def bad(what, a, b, name):
    if len(out['bad']) < 5:
        out['bad'].append({'what': what, 'call': name, 'a': repr(a)[:600], 'b': repr(b)[:600]})


def sanitize():
    for _ in range(COUNT):
        a, b = make_pair()
        for x, y in ((a, b), (b, a)):
            for name, thunk, expected in calls(x, y):
                journal((name, x, y))
                r = thunk()
                out['calls'] += 1
                note(name, expected)
                if expected is not None and r != expected:
                    bad('wrong result %r instead of %r' % (r, expected), x, y, name)
        for name, thunk in strange(a, b):
            journal(('strange', name, a, b))
            out['strange_' + outcome_of(thunk)] = out.get('strange_' + outcome_of(thunk), 0) + 1
        out['pairs'] += 1


class Mallinfo2(ctypes.Structure):
    _fields_ = [(n, ctypes.c_size_t) for n in ('arena', 'ordblks', 'smblks', 'hblks', 'hblkhd', 'usmblks', 'fsmblks', 'uordblks', 'fordblks', 'keepcost')]


def leak():
    """Needs PYTHONMALLOC=malloc: then all memory, whoever asks for it, is in the heap of the C library."""
    libc = ctypes.CDLL(None)
    libc.mallinfo2.restype = Mallinfo2

    def used():
        m = libc.mallinfo2()
        return m.uordblks + m.hblkhd

    N = 600

    for _ in range(COUNT):
        a, b = make_pair()
        if len(a) + len(b) > 300:
            a, b = a[:150], b[:150]
        todo = [(name, thunk) for name, thunk, _ in calls(a, b)]
        if rng.random() < 0.5:
            todo += [('strange ' + name, lambda t=t: outcome_of(t)) for name, t in strange(a, b)]
        for name, thunk in todo:
            journal((name, a, b))
            for _ in range(4):
                thunk()
            before = used()
            for _ in range(N):
                thunk()
            grown = used() - before
            out['calls'] += N
            if name.startswith('strange '):
                out['strange_repeated'] = out.get('strange_repeated', 0) + N
            else:
                note(name, None)
            # The smallest leak is 24 bytes per call, that is 14400 bytes
            if grown > N * 12:
                # Once again: caches do not grow twice
                before = used()
                for _ in range(N):
                    thunk()
                grown = used() - before
                if grown > N * 12:
                    bad('%d calls left %d bytes allocated' % (N, grown), a, b, name)
        out['pairs'] += 1


def fault():
    lib = ctypes.CDLL(NATIVE.__file__)
    lib.fi_stop.restype = lib.fi_get.restype = ctypes.c_long
    lib.fi_stop.argtypes = lib.fi_get.argtypes = [ctypes.c_long]
    lib.fi_start.argtypes = [ctypes.c_long, ctypes.c_long]
    out['faults'] = 0
    out['memory_errors'] = 0
    out['allocations'] = 0

    for _ in range(COUNT):
        a, b = make_pair()
        if len(a) + len(b) > 200:
            a, b = a[:100], b[:100]

        for name, thunk, expected in list(calls(a, b)):
            journal((name, a, b))
            lib.fi_start(0, 0)
            r = thunk()
            n = lib.fi_stop(0)
            out['calls'] += 1
            out['allocations'] += n
            note(name, expected)

            if lib.fi_get(1) != 0:
                bad('%d allocations not released' % lib.fi_get(1), a, b, name)
            if lib.fi_get(2) != 0:
                bad('%d releases of memory that was not allocated' % lib.fi_get(2), a, b, name)
            if expected is not None and r != expected:
                bad('wrong result %r instead of %r' % (r, expected), a, b, name)

            for k in range(1, min(n, 8) + 1):
                for persistent in (0, 1):
                    journal((name, 'allocation %d fails' % k, a, b))
                    # Twice: the first error may fill the caches Cython keeps for tracebacks
                    for _ in range(2):
                        lib.fi_start(k, persistent)
                        try:
                            r = thunk()
                            outcome = 'result'
                        except MemoryError:
                            outcome = 'memory error'
                        except Exception as e:
                            outcome = repr(e)
                        failed = lib.fi_stop(3)
                        if not lib.fi_get(1):
                            break
                    out['faults'] += 1
                    out['memory_errors'] += outcome == 'memory error'

                    if not failed:
                        continue
                    if outcome == 'result':
                        if expected is not None and r != expected:
                            bad('allocation %d failed and the result is %r instead of an error' % (k, r), a, b, name)
                    elif outcome != 'memory error':
                        bad('allocation %d failed and the call raised %s' % (k, outcome), a, b, name)
                    if lib.fi_get(1) != 0:
                        bad('allocation %d failed and %d others were not released' % (k, lib.fi_get(1)), a, b, name)
                    if lib.fi_get(2) != 0:
                        bad('allocation %d failed and memory that was not allocated was released' % k, a, b, name)

                    after = thunk()
                    if expected is not None and after != expected:
                        bad('after a failed allocation the result is %r instead of %r' % (after, expected), a, b, name)
        out['pairs'] += 1


{'asan': sanitize, 'leak': leak, 'fault': fault}[MODE]()
print(json.dumps(out))
sys.stdout.flush()
os._exit(0)
