"""
The monitoring framework: it runs the cases of a check in worker processes, on
the code of /repo, and gathers what their monitors observed.

A check is a module of `checks` having:
    FILES: files of /repo the check exercises (line coverage, dictionary)
    RULE: what makes a case, and a non-trivial one
    ASSUMPTIONS: list of strings
    workloads(tier): list of (name, function, number of cases)
    REQUIRED: counters that must be non-zero for the run to mean anything
    setup(scratch) (optional): builds what the cases need, returns a dict

A workload function receives a Ctx, draws a case with ctx.rng, runs the code
under the monitors, and calls ctx.fail when an oracle refutes the property.
Each case has its own generator, seeded by (property, seed, workload, index),
so that a case can be replayed alone.
"""
import ast
import faulthandler
import hashlib
import importlib
import json
import multiprocessing
import os
import random
import re
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings

from vf import sched

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')  # the variable is for development only
CASE_CPU_LIMIT = 60        # seconds of CPU: cases take milliseconds
CASE_WALL_LIMIT = 240      # seconds without any progress of a worker
STOP_LIMIT = 20            # seconds left to the other workers once one has reported
WORKERS = 8
MAX_FAILURES = 5           # a worker stops after that many


class CaseTimeout(BaseException):
    pass


class Violation(Exception):
    pass


def stable_hash(x):
    return hashlib.blake2b(x.encode('utf-8', 'surrogatepass'), digest_size=8).hexdigest()


def short(x, limit=1500):
    try:
        s = repr(x)
    except Exception as e:  # the code under test may return odd objects
        s = '<unprintable %s: %r>' % (type(x).__name__, e)
    return s if len(s) <= limit else s[:limit] + '... (%d chars)' % len(s)


# --- Dictionary ---------------------------------------------------------------

def dictionary(files):
    """
    Integers and strings found in the current source of the exercised files.
    They are only hints to generators (sizes, atoms): no oracle uses them.
    """
    ints, strs = set(), set()

    for path in files:
        full = os.path.join(REPO, path)

        if os.path.isdir(full):
            paths = [os.path.join(d, f) for d, _, fs in sorted(os.walk(full)) for f in sorted(fs) if f.endswith('.py')]
        else:
            paths = [full]

        for p in paths:
            try:
                with open(p, encoding='utf-8') as f:
                    source = f.read()
            except OSError:
                continue

            tree = None

            if p.endswith('.py'):
                try:
                    tree = ast.parse(source)
                except SyntaxError:
                    pass

            if tree is None:
                code = re.sub(r'""".*?"""', '', source, flags=re.S)
                code = re.sub(r'#.*', '', code)
                ints.update(int(m, 0) for m in re.findall(r'\b(?:0x[0-9a-fA-F]+|[1-9][0-9]*|0)\b', code))
                strs.update(m for m in re.findall(r'\'([^\'\n]{1,12})\'', code))
                continue

            docs = set()

            for node in ast.walk(tree):
                if isinstance(node, (ast.FunctionDef, ast.ClassDef, ast.Module, ast.AsyncFunctionDef)) and node.body:
                    first = node.body[0]
                    if isinstance(first, ast.Expr) and isinstance(first.value, ast.Constant):
                        docs.add(id(first.value))

            for node in ast.walk(tree):
                if isinstance(node, ast.Constant) and id(node) not in docs:
                    v = node.value
                    if isinstance(v, bool):
                        continue
                    if isinstance(v, int):
                        ints.add(v)
                    elif isinstance(v, str) and 0 < len(v) <= 40:
                        strs.add(v)

    return sorted(i for i in ints if 0 <= i <= 100000), sorted(strs)


# --- Line coverage ------------------------------------------------------------

class Coverage(object):
    """
    Lines of the exercised files that ran, through sys.monitoring: each line
    reports once and is then disabled, so it costs nothing afterwards.
    """

    def __init__(self, files):
        self.prefixes = tuple(os.path.join(REPO, f) for f in files)
        self.seen = {}
        self.on = False

    def start(self):
        mon = getattr(sys, 'monitoring', None)

        if mon is None:
            return

        try:
            mon.use_tool_id(mon.COVERAGE_ID, 'verif')
        except ValueError:
            return

        def on_line(code, line):
            if code.co_filename.startswith(self.prefixes):
                self.seen.setdefault(code.co_filename, set()).add(line)
            # (not while threads are held inside such calls, which CPython 3.12 does not bear)
            return None if sched.running else mon.DISABLE

        mon.register_callback(mon.COVERAGE_ID, mon.events.LINE, on_line)
        mon.set_events(mon.COVERAGE_ID, mon.events.LINE)
        self.on = True

    def result(self):
        return {k: sorted(v) for k, v in self.seen.items()}


def executable_lines(path):
    """Lines inside functions that can report."""
    try:
        with open(path, encoding='utf-8') as f:
            code = compile(f.read(), path, 'exec')
    except (OSError, SyntaxError):
        return set()

    lines = set()

    def walk(c, inner):
        if inner:
            lines.update(l for _, _, l in c.co_lines() if l is not None and l != c.co_firstlineno)
        for k in c.co_consts:
            if hasattr(k, 'co_lines'):
                walk(k, True)

    walk(code, False)
    return lines


# --- Context of a case ---------------------------------------------------------

class Ctx(object):
    def __init__(self, prop, seed, tier, dic, known, extra, scratch):
        self.prop = prop
        self.seed = seed
        self.tier = tier
        self.ints, self.strs = dic
        self.known = known
        self.extra = extra
        self.scratch = scratch
        self.counters = {}
        self.evaluations = 0
        self.hashes = set()
        self.sets = {}
        self.samples = []
        self.failures = []
        self.known_hits = {}
        self.workload = None
        self.index = None
        self.rng = None
        self._sampled = set()
        self.timed_out = False
        self.enlarge = 0           # sizes to reach for, see enlarged

    def begin(self, workload, index):
        self.workload = workload
        self.index = index
        self.rng = random.Random('%s/%d/%s/%d' % (self.prop, self.seed, workload, index))
        self.case_failures = 0

    def near(self, value, top, p=0.12, floor=0):
        """The value, or sometimes one near a number found in the source."""
        if self.enlarge and self.rng.random() < 0.6:
            sizes = [x + d for x in (64, 100, 128, 255, 500, 512, 1000, 1024, 2000, 2048, 5000) for d in (0, 1) if x + d <= self.enlarge]
            return self.rng.choice(sizes + [self.rng.randint(self.enlarge // 8, self.enlarge)])
        if self.rng.random() < p:
            h = [x for x in self.ints if 1 < x <= top]
            if h:
                return max(floor, self.rng.choice(h) + self.rng.choice([-1, 0, 0, 1]))
        return value

    def spice(self, s, p=0.1):
        """The string, sometimes with one found in the source put in it."""
        if self.strs and self.rng.random() < p:
            i = self.rng.choice([0, len(s), self.rng.randint(0, len(s))])
            return s[:i] + self.rng.choice(self.strs) + s[i:]
        return s

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def distinct(self, name, value):
        """Counts distinct values over the whole run."""
        self.sets.setdefault(name, set()).add(value)

    def observe(self, case, nontrivial=True):
        """Records that an oracle decided this case."""
        self.evaluations += 1

        if nontrivial:
            key = stable_hash(self.workload + case if isinstance(case, str) else self.workload + repr(case))
            if key not in self.hashes:
                self.hashes.add(key)
                if self.workload not in self._sampled and len(self.samples) < 6:
                    self._sampled.add(self.workload)
                    self.samples.append({'workload': self.workload, 'index': self.index, 'case': short(case, 400)})

    def fail(self, message, witness=None, mechanism=None):
        if mechanism is not None and mechanism in self.known:
            self.known_hits.setdefault(mechanism, short(witness, 200))
            self.count('known_finding_' + mechanism)
            return

        self.case_failures += 1
        if len(self.failures) < 20:
            self.failures.append({
                'workload': self.workload,
                'index': self.index,
                'message': message,
                'mechanism': mechanism,
                'witness': short(witness, 4000)
            })

    def call(self, what, fn, *args, **kwargs):
        """Runs code under test: on a valid input, raising is a violation."""
        try:
            return True, fn(*args, **kwargs)
        except Exception as e:
            self.fail('%s raised %s: %s' % (what, type(e).__name__, e), {
                'args': short(args, 1500), 'kwargs': short(kwargs, 800),
                'where': traceback.format_exc(limit=-3)[-900:]
            })
            return False, None


# --- Workers -------------------------------------------------------------------

def enlarged(fn, size):
    """The workload, with many of the sizes it draws through ctx.near made large, up to the given size."""
    def run(ctx):
        ctx.enlarge = size
        try:
            fn(ctx)
        finally:
            ctx.enlarge = 0
        ctx.count('enlarged_cases')
    return run


def cpu_of(pid):
    try:
        with open('/proc/%d/stat' % pid) as f:
            fields = f.read().rsplit(')', 1)[1].split()
        return (int(fields[11]) + int(fields[12])) / os.sysconf('SC_CLK_TCK')
    except (OSError, IndexError, ValueError):
        return 0.0


def run_case(ctx, fn, name, index):
    ctx.begin(name, index)

    def on_timer(signum, frame):
        raise CaseTimeout()

    signal.signal(signal.SIGPROF, on_timer)
    signal.setitimer(signal.ITIMER_PROF, CASE_CPU_LIMIT, 1)

    try:
        fn(ctx)
    except CaseTimeout:
        ctx.timed_out = True
        ctx.fail('a call did not finish within %d s of CPU time' % CASE_CPU_LIMIT,
                 {'where': traceback.format_exc(limit=-4)[-900:]})
    except Violation as e:
        ctx.fail(str(e))
    except RecursionError as e:
        ctx.fail('RecursionError: %s' % e, {'where': traceback.format_exc(limit=-4)[-900:]})
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        inside = any(f.filename.startswith(REPO + '/') or '/cfog/' in f.filename for f in tb)
        # A malformed result (wrong type, say) can also break an oracle: both
        # mean that the code did not do what the property says.
        ctx.fail('%s %s: %s' % ('code under test raised' if inside else 'the result could not be interpreted:', type(e).__name__, e),
                 {'where': traceback.format_exc(limit=-6)[-1500:]})
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, signal.SIG_IGN)


def worker(module, ctx, tasks, journal, result, files, stop):
    warnings.simplefilter('ignore')
    try:
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    except (ValueError, OSError):
        pass

    # Where a stuck process stands, with those it started
    stacks = open(journal + '.stacks', 'a')
    faulthandler.register(signal.SIGUSR1, file=stacks, all_threads=True)

    coverage = Coverage(files)
    coverage.start()
    functions = {name: fn for name, fn, _ in module.workloads(ctx.tier)}
    fd = os.open(journal, os.O_CREAT | os.O_WRONLY, 0o600)
    done = 0

    for name, index in tasks:
        os.pwrite(fd, (json.dumps([name, index, time.process_time()])).ljust(200).encode(), 0)
        run_case(ctx, functions[name], name, index)
        done += 1

        # Once it is decided, the others need not go on
        if len(ctx.failures) >= MAX_FAILURES or ctx.timed_out:
            open(stop, 'w').close()
            break

        if os.path.exists(stop):
            break

    payload = {
        'counters': ctx.counters, 'evaluations': ctx.evaluations,
        'hashes': sorted(ctx.hashes), 'sets': {k: sorted(v) for k, v in ctx.sets.items()}, 'samples': ctx.samples,
        'failures': ctx.failures, 'known_hits': ctx.known_hits,
        'cases': done, 'coverage': coverage.result()
    }

    with open(result + '.tmp', 'w') as f:
        json.dump(payload, f)
    os.rename(result + '.tmp', result)
    os._exit(0)


def load_known():
    known = {}
    path = os.path.join(ROOT, 'known_findings.jsonl')

    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if line:
                    item = json.loads(line)
                    if item.get('status') == 'known':
                        known.setdefault(item['property'], {})[item['mechanism']] = item['what']
    return known


def forget_repo_modules():
    for m in list(sys.modules):
        if m == 'fog' or m.startswith('fog.') or m == 'cfog' or m.startswith('cfog.'):
            del sys.modules[m]


def run(prop, tier, seed, only=None, replay_source=None):
    started = time.time()
    sys.dont_write_bytecode = True
    sys.path.insert(0, REPO)
    evidence_dir = os.environ.get('VERIF_EVIDENCE', os.path.join(ROOT, 'evidence'))  # the variable is for development only
    os.makedirs(evidence_dir, exist_ok=True)
    scratch = tempfile.mkdtemp(prefix='verif-%s-' % prop)

    failures = []
    totals = {'counters': {}, 'evaluations': 0, 'cases': 0, 'known_hits': {}}
    hashes = set()
    samples = []
    covered = {}
    extra = {}
    module = None

    try:
        # Code that does not import or build does not hold any property
        try:
            module = importlib.import_module('checks.' + prop.lower())
            if hasattr(module, 'setup'):
                extra = module.setup(scratch) or {}
        except Exception as e:
            failures.append({'workload': 'import', 'index': 0, 'mechanism': None,
                             'message': 'the code could not be imported or built: %s: %s' % (type(e).__name__, e),
                             'witness': traceback.format_exc(limit=-8)[-3000:]})

        if not failures:
            run_workers(module, prop, tier, seed, only, extra, scratch, failures, totals, hashes, samples, covered)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

    wall = time.time() - started

    if module is not None and not failures and only is None:
        for name in getattr(module, 'REQUIRED', []):
            if not totals['counters'].get(name):
                failures.append({'workload': 'monitor', 'index': 0, 'mechanism': None,
                                 'message': 'a deciding monitor observed nothing: %s' % name,
                                 'witness': short(totals['counters'])})

    known = load_known().get(prop, {})

    for mechanism in sorted(totals['known_hits']):
        print('KNOWN-FINDING: property=%s %s: %s' % (prop, mechanism, known.get(mechanism, '')))

    if replay_source is None:
        write_evidence(module, prop, tier, seed, totals, hashes, samples, covered, failures, wall, evidence_dir)

    if not failures:
        print('OK property=%s tier=%s seed=%d cases=%d evaluations=%d distinct=%d wall=%.1fs' % (
            prop, tier, seed, totals['cases'], totals['evaluations'], len(hashes), wall))
        for name in sorted(totals['counters']):
            print('  %s=%d' % (name, totals['counters'][name]))
        return 0

    # Reporting
    path = replay_source

    if path is None:
        replay_dir = os.path.join(evidence_dir, 'replay')
        os.makedirs(replay_dir, exist_ok=True)
        path = os.path.join(replay_dir, '%s-%s-%d.json' % (prop, tier, seed))
        with open(path, 'w') as f:
            json.dump({'property': prop, 'tier': tier, 'seed': seed, 'failures': failures}, f, indent=1)

    print('VIOLATION property=%s replay=%s' % (prop, path))

    for failure in failures[:5]:
        print('  [%s #%s] %s' % (failure['workload'], failure['index'], failure['message']))
        print('    %s' % failure['witness'])

    return 1


def run_workers(module, prop, tier, seed, only, extra, scratch, failures, totals, hashes, samples, covered):
    known = load_known().get(prop, {})
    dic = dictionary(module.FILES)
    tasks = [(name, i) for name, _, n in module.workloads(tier) for i in range(n)]

    if only is not None:
        tasks = [t for t in tasks if t in only] or sorted(only)

    n = max(1, min(WORKERS, len(tasks)))
    # Interleaving: each worker receives its share of each workload
    shares = [tasks[i::n] for i in range(n)]
    context = multiprocessing.get_context('fork')
    stop = os.path.join(scratch, 'stop')
    procs = []
    sys.stdout.flush()
    sys.stderr.flush()

    for i, share in enumerate(shares):
        wdir = os.path.join(scratch, 'w%d' % i)
        os.mkdir(wdir)
        ctx = Ctx(prop, seed, tier, dic, known, extra, wdir)
        journal = os.path.join(wdir, '.journal')
        result = os.path.join(wdir, '.result')
        p = context.Process(target=worker, args=(module, ctx, share, journal, result, module.FILES, stop), daemon=False)
        p.start()
        procs.append({'p': p, 'journal': journal, 'result': result, 'last': None, 'since': time.time(), 'killed': None, 'dropped': False})

    def current(entry):
        try:
            with open(entry['journal']) as f:
                return json.loads(f.read().strip() or 'null')
        except (OSError, ValueError):
            return None

    stopped = None

    while any(e['p'].is_alive() for e in procs):
        time.sleep(0.05)

        if stopped is None and os.path.exists(stop):
            stopped = time.time()

        for e in procs:
            if not e['p'].is_alive():
                continue

            now = current(e)

            if now is None or now != e['last']:
                e['last'] = now
                e['since'] = time.time()
                continue

            # A case stuck in native code, where no signal handler can run
            if cpu_of(e['p'].pid) - now[2] > CASE_CPU_LIMIT * 2:
                e['killed'] = 'a call did not finish within %d s of CPU time' % (CASE_CPU_LIMIT * 2)
            elif time.time() - e['since'] > CASE_WALL_LIMIT:
                e['killed'] = 'a call did not finish within %d s' % CASE_WALL_LIMIT
            elif stopped is not None and time.time() - stopped > STOP_LIMIT:
                e['dropped'] = True
                kill_tree(e['p'].pid)
                continue

            if e['killed']:
                for pid in tree(e['p'].pid):
                    try:
                        os.kill(pid, signal.SIGUSR1)
                    except OSError:
                        pass
                    time.sleep(0.2)
                kill_tree(e['p'].pid)
                open(stop, 'w').close()

    sets = {}

    for e in procs:
        e['p'].join()

        # Another worker had reported a failure already
        if e['dropped'] and not os.path.exists(e['result']):
            continue

        if not os.path.exists(e['result']):
            at = current(e) or ['?', -1, 0]
            code = e['p'].exitcode
            failures.append({
                'workload': at[0], 'index': at[1], 'mechanism': None,
                'message': e['killed'] or 'the process running the code died (exit status %s)' % code,
                'witness': stacks_of(e['journal'])
            })
            continue

        with open(e['result']) as f:
            r = json.load(f)

        for k, v in r['counters'].items():
            totals['counters'][k] = totals['counters'].get(k, 0) + v

        for k, v in r['sets'].items():
            sets.setdefault(k, set()).update(v)
            totals['counters']['distinct_' + k] = len(sets[k])

        totals['evaluations'] += r['evaluations']
        totals['cases'] += r['cases']
        totals['known_hits'].update(r['known_hits'])
        hashes.update(r['hashes'])
        failures.extend(r['failures'])

        if len(samples) < 12:
            samples.extend(s for s in r['samples'] if not any(t['workload'] == s['workload'] for t in samples))

        for k, v in r['coverage'].items():
            covered.setdefault(k, set()).update(v)


def stacks_of(journal):
    try:
        with open(journal + '.stacks', errors='replace') as f:
            return f.read()[-6000:]
    except OSError:
        return ''


def tree(pid):
    """The process and those it started, itself first."""
    parents = {}

    for d in os.listdir('/proc'):
        if d.isdigit():
            try:
                with open('/proc/%s/stat' % d) as f:
                    parents[int(d)] = int(f.read().rsplit(')', 1)[1].split()[1])
            except (OSError, ValueError, IndexError):
                pass

    found = [pid]

    for p in found:
        found.extend(c for c, parent in parents.items() if parent == p)

    return found


def kill_tree(pid):
    for p in tree(pid):
        try:
            os.kill(p, signal.SIGKILL)
        except OSError:
            pass


def write_evidence(module, prop, tier, seed, totals, hashes, samples, covered, failures, wall, evidence_dir):
    coverage = {
        'evaluations': totals['evaluations'],
        'distinct_nontrivial': len(hashes),
        'rule': getattr(module, 'RULE', ''),
        'samples': samples[:12],
        'cases': totals['cases'],
        'observed': totals['counters'],
        'known_findings_seen': sorted(totals['known_hits'])
    }

    lines = {}

    for path in getattr(module, 'FILES', []):
        full = os.path.join(REPO, path)
        if full.endswith('.py') and os.path.isfile(full):
            total = executable_lines(full)
            hit = covered.get(full, set()) & total
            lines[path] = {'executable': len(total), 'run': len(hit), 'not_run': sorted(total - hit)[:60]}

    if lines:
        coverage['lines_run_in_the_worker_processes'] = lines

    evidence = {
        'property': prop, 'tier': tier, 'seed': seed,
        'level': getattr(module, 'LEVEL', 'exploration'),
        'coverage': coverage,
        'assumptions': list(getattr(module, 'ASSUMPTIONS', [])),
        'wall_s': round(wall, 2),
        'violations': len(failures)
    }

    path = os.path.join(evidence_dir, prop + '.json')
    with open(path + '.tmp', 'w') as f:
        json.dump(evidence, f, indent=1, ensure_ascii=True)
    os.rename(path + '.tmp', path)
