"""
Builds the compiled extension of the current tree in a scratch folder: as it
is, with sanitizers, or with allocation counters and failures.
"""
import importlib
import os
import shutil
import subprocess
import sys
import sysconfig

REPO = os.environ.get('VERIF_REPO', '/repo')  # the variable is for development only

FAULT_HEADER = r'''
#define PY_SSIZE_T_CLEAN
#include <Python.h>
#include <stdlib.h>
#include <string.h>

/* Allocations requested by the extension: counted, tracked, and failed on demand. */
#define FI_MAX 65536
static void *fi_live[FI_MAX];
static long fi_count = 0, fi_fail_at = 0, fi_persistent = 0, fi_balance = 0, fi_double_free = 0, fi_failed = 0;
static int fi_on = 0;

static int fi_should_fail(void) {
    fi_count++;
    if (fi_fail_at && (fi_count == fi_fail_at || (fi_persistent && fi_count > fi_fail_at))) { fi_failed++; return 1; }
    return 0;
}
static void *fi_track(void *p) {
    long i;
    if (p && fi_on) for (i = 0; i < FI_MAX; i++) if (!fi_live[i]) { fi_live[i] = p; fi_balance++; break; }
    return p;
}
static void fi_untrack(void *p) {
    long i;
    if (!p || !fi_on) return;
    for (i = 0; i < FI_MAX; i++) if (fi_live[i] == p) { fi_live[i] = NULL; fi_balance--; return; }
    fi_double_free++;
}
/* What is not written before being read shows */
static void *fi_fill(void *p, size_t n) { if (p && fi_on) memset(p, 0xA5, n); return p; }
static void *fi_malloc(size_t n) { if (fi_on && fi_should_fail()) return NULL; return fi_track(fi_fill(malloc(n), n)); }
static void *fi_calloc(size_t a, size_t b) { if (fi_on && fi_should_fail()) return NULL; return fi_track(calloc(a, b)); }
static void *fi_realloc(void *p, size_t n) { void *q; if (fi_on && fi_should_fail()) return NULL; q = realloc(p, n); if (q) { fi_untrack(p); fi_track(q); } return q; }
static void fi_free(void *p) { fi_untrack(p); free(p); }

__attribute__((visibility("default"))) void fi_start(long fail_at, long persistent) {
    memset(fi_live, 0, sizeof fi_live);
    fi_count = 0; fi_fail_at = fail_at; fi_persistent = persistent; fi_balance = 0; fi_double_free = 0; fi_failed = 0; fi_on = 1;
}
__attribute__((visibility("default"))) long fi_stop(long what) {
    fi_on = 0;
    return what == 0 ? fi_count : what == 1 ? fi_balance : what == 2 ? fi_double_free : fi_failed;
}
__attribute__((visibility("default"))) long fi_get(long what) {
    return what == 0 ? fi_count : what == 1 ? fi_balance : what == 2 ? fi_double_free : fi_failed;
}
static void *fi_pymalloc(size_t n) { if (fi_on && fi_should_fail()) return NULL; return fi_track(fi_fill(PyMem_Malloc(n), n)); }
static void fi_pyfree(void *p) { fi_untrack(p); PyMem_Free(p); }
static void *fi_pyrawmalloc(size_t n) { if (fi_on && fi_should_fail()) return NULL; return fi_track(fi_fill(PyMem_RawMalloc(n), n)); }
static void fi_pyrawfree(void *p) { fi_untrack(p); PyMem_RawFree(p); }
static void *fi_pycalloc(size_t a, size_t b) { if (fi_on && fi_should_fail()) return NULL; return fi_track(PyMem_Calloc(a, b)); }
static void *fi_pyrealloc(void *p, size_t n) { void *q; if (fi_on && fi_should_fail()) return NULL; q = PyMem_Realloc(p, n); if (q) { fi_untrack(p); fi_track(q); } return q; }

#undef malloc
#undef free
#define malloc fi_malloc
#define calloc fi_calloc
#define realloc fi_realloc
#define free fi_free
#define PyMem_Malloc fi_pymalloc
#define PyMem_Free fi_pyfree
#define PyMem_Calloc fi_pycalloc
#define PyMem_Realloc fi_pyrealloc
#define PyMem_RawMalloc fi_pyrawmalloc
#define PyMem_RawFree fi_pyrawfree
'''

FLAVOURS = {
    'plain': ['-O2'],
    'asan': ['-O1', '-g', '-fno-omit-frame-pointer', '-fsanitize=address,undefined', '-fno-sanitize-recover=all'],
    'fault': ['-O1']
}


class BuildError(Exception):
    pass


def sh(cmd, cwd):
    r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
    if r.returncode != 0:
        raise BuildError('%s failed:\n%s' % (' '.join(cmd)[:200], r.stdout[-2500:]))


def build(scratch, flavours):
    """Returns {flavour: folder to put on the path}."""
    source = os.path.join(scratch, 'native-src')
    shutil.copytree(os.path.join(REPO, 'cfog'), os.path.join(source, 'cfog'),
                    ignore=shutil.ignore_patterns('*.so', '*.c', '__pycache__', '*.o'))
    pyx = []

    for d, _, fs in sorted(os.walk(source)):
        pyx.extend(os.path.relpath(os.path.join(d, f), source) for f in sorted(fs) if f.endswith('.pyx'))

    if not pyx:
        raise BuildError('there is no compiled extension any more')

    for p in pyx:
        sh([sys.executable, '-m', 'cython', p], source)

    include = sysconfig.get_paths()['include']
    suffix = sysconfig.get_config_var('EXT_SUFFIX')
    result = {}
    header = os.path.join(source, 'fault.h')

    with open(header, 'w') as f:
        f.write(FAULT_HEADER)

    jobs = []

    for flavour in flavours:
        folder = os.path.join(scratch, 'native-' + flavour)
        shutil.copytree(source, folder)
        result[flavour] = folder

        for p in pyx:
            c = p[:-4] + '.c'
            cmd = ['gcc', '-shared', '-fPIC', '-w', '-fwrapv' if flavour != 'asan' else '-fno-strict-aliasing', '-I', include] + FLAVOURS[flavour]
            if flavour == 'fault':
                cmd += ['-include', header]
            cmd += [c, '-o', p[:-4] + suffix]
            jobs.append((cmd, folder, subprocess.Popen(cmd, cwd=folder, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')))

    for cmd, folder, p in jobs:
        out, _ = p.communicate()
        if p.returncode != 0:
            raise BuildError('%s failed:\n%s' % (' '.join(cmd)[:200], out[-2500:]))

    return result


def load(folder):
    """Imports cfog from the given folder rather than from /repo."""
    for m in list(sys.modules):
        if m == 'cfog' or m.startswith('cfog.'):
            del sys.modules[m]

    sys.path.insert(0, folder)
    metrics = importlib.import_module('cfog.metrics')
    assert metrics.__file__.startswith(folder), metrics.__file__
    return metrics


def setup_plain(scratch):
    folder = build(scratch, ['plain'])['plain']
    load(folder)
    return {'native': folder}
