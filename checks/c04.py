import json
import os
import subprocess
import sys

from vf import native

FILES = ['cfog/metrics/levenshtein.pyx']
LEVEL = 'fault_enumeration'
RULE = ('A case is a batch of string pairs and bounds run in a fresh process: on an address and undefined behaviour sanitizer build with '
        'all Python memory in the same heap; on a plain build repeating each call 600 times and measuring the heap; on a build whose '
        'allocations are tracked, where each allocation of each call is failed in turn, alone and with all following ones. Calls with arguments of other types are among them. '
        'Non-trivial: every batch, being a distinct seed.')
ASSUMPTIONS = ['sanitizers only see what runs', 'allocations made by the interpreter itself are not failed']
REQUIRED = ['asan_calls', 'leak_calls', 'fault_calls', 'strange_raised', 'strange_repeated']


def setup(scratch):
    folders = native.build(scratch, ['plain', 'asan', 'fault'])
    libs = []

    for name in ('libasan.so', 'libubsan.so'):
        r = subprocess.run(['gcc', '-print-file-name=' + name], stdout=subprocess.PIPE, text=True)
        libs.append(os.path.realpath(r.stdout.strip()))

    return {'folders': folders, 'preload': ':'.join(l for l in libs if os.path.isabs(l))}


def batch(ctx, mode, folder, count, env):
    journal = os.path.join(ctx.scratch, 'journal-%s' % mode)
    report = os.path.join(ctx.scratch, 'report')
    e = dict(os.environ, VERIF_JOURNAL=journal, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1')
    e.update(env)
    if mode == 'asan':
        e['ASAN_OPTIONS'] = 'detect_leaks=0:halt_on_error=1:exitcode=99:allocator_may_return_null=1:log_path=' + report
        e['UBSAN_OPTIONS'] = 'print_stacktrace=1:halt_on_error=1:exitcode=99:log_path=' + report

    seed = '%d-%d' % (ctx.seed, ctx.index)
    r = subprocess.run(
        [sys.executable, os.path.join(os.path.dirname(native.__file__), 'native_driver.py'), mode, folder, seed, str(count), json.dumps(ctx.ints)],
        stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', env=e, cwd=ctx.scratch
    )

    if r.returncode != 0:
        logs = ''
        for f in sorted(os.listdir(ctx.scratch)):
            if f.startswith('report.'):
                with open(os.path.join(ctx.scratch, f), errors='replace') as h:
                    logs += h.read()
        try:
            with open(journal, errors='replace') as h:
                at = h.read().strip()
        except OSError:
            at = '?'
        ctx.fail('%s: the process ended with status %d during %s' % (mode, r.returncode, at), (logs or r.stderr)[:3000])
        return None

    try:
        out = json.loads(r.stdout.strip().splitlines()[-1])
    except (ValueError, IndexError):
        ctx.fail('%s: no answer from the process' % mode, r.stdout[-500:] + r.stderr[-1500:])
        return None

    for b in out['bad']:
        ctx.fail('%s: %s in %s' % (mode, b['what'], b['call']), (b['a'], b['b']))

    for name, n in out['returns'].items():
        ctx.count('%s_%s' % (mode, name), n)

    for name, n in out.items():
        if name.startswith('strange_'):
            ctx.count(name, n)

    ctx.observe('%s %s: %d pairs, %d calls' % (mode, seed, out['pairs'], out['calls']))
    ctx.count('pairs', out['pairs'])
    return out


def asan(ctx):
    out = batch(ctx, 'asan', ctx.extra['folders']['asan'], 300, {'LD_PRELOAD': ctx.extra['preload'], 'PYTHONMALLOC': 'malloc'})
    if out:
        ctx.count('asan_calls', out['calls'])


def leak(ctx):
    out = batch(ctx, 'leak', ctx.extra['folders']['plain'], 60, {'PYTHONMALLOC': 'malloc', 'MALLOC_ARENA_MAX': '1'})
    if out:
        ctx.count('leak_calls', out['calls'])


def fault(ctx):
    out = batch(ctx, 'fault', ctx.extra['folders']['fault'], 300, {})
    if out:
        ctx.count('fault_calls', out['calls'])
        ctx.count('fault_injections', out['faults'])
        ctx.count('memory_errors', out['memory_errors'])
        ctx.count('extension_allocations', out['allocations'])


def workloads(tier):
    k = 1 if tier == 'quick' else 20
    return [('asan', asan, 24 * k), ('leak', leak, 8 * k), ('fault', fault, 16 * k)]
