"""
Development tool: plants the bugs described in tools/bugs/*.py.

plant.py ID...   confirms each in a scratch copy of /repo (tests pass, the
                 demonstration passes without and fails with the change) and
                 writes seeded/ID. Then runs the property's check against it.
                 (--nocheck: not; --only-check: only that)

A bug file defines PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new), ...] and
DEMO, a Python program run from the root of the repository.
"""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mutate

ROOT = mutate.ROOT
PY = mutate.PY
BASE = 'fd0f2c4'


def build(repo):
    subprocess.run([PY, '-m', 'cython', 'cfog/metrics/levenshtein.pyx'], cwd=repo, check=True, stdout=subprocess.DEVNULL)
    subprocess.run('rm -rf build; rm -f cfog/metrics/*.so; %s setup.py -q build_ext --inplace' % PY, shell=True, cwd=repo, check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)


def main(argv):
    nocheck = '--nocheck' in argv
    only = '--only-check' in argv
    names = [a for a in argv if not a.startswith('--')]
    if not names:
        names = sorted(f[:-3] for f in os.listdir(os.path.join(ROOT, 'tools', 'bugs')) if f.endswith('.py'))
    original = {}
    bad = []
    for name in names:
        bug = runpy.run_path(os.path.join(ROOT, 'tools', 'bugs', name + '.py'))
        d = tempfile.mkdtemp(prefix='plant-')
        repo = os.path.join(d, 'repo')
        try:
            subprocess.run(['cp', '-a', '/repo', repo], check=True)
            subprocess.run(['git', 'checkout', '-q', '--', '.'], cwd=repo, check=True)
            target = os.path.join(ROOT, 'seeded', name)
            if not only:
                os.makedirs(target, exist_ok=True)
                with open(os.path.join(target, 'demo.py'), 'w') as f:
                    f.write(bug['DEMO'].lstrip('\n'))
                with open(os.path.join(target, 'demo.sh'), 'w') as f:
                    f.write('#!/bin/bash\n# Exits 0 when the property holds on the demonstrated case\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
                os.chmod(os.path.join(target, 'demo.sh'), 0o755)
                with open(os.path.join(target, 'meta.json'), 'w') as f:
                    json.dump({'property': bug['PROPERTY'], 'needs': bug['NEEDS'], 'what_it_breaks': bug['BREAKS']}, f, indent=1, ensure_ascii=False)
                    f.write('\n')

            def demo():
                p = subprocess.run(['bash', os.path.join(target, 'demo.sh')], cwd=repo, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300)
                return p.returncode, p.stdout[-600:]

            native = any(e[0].endswith('.pyx') for e in bug['EDITS'])
            if not only:
                if native:
                    build(repo)
                rc, out = demo()
                if rc != 0:
                    bad.append(name)
                    print(name, 'DEMO FAILS ON THE UNCHANGED TREE', out)
                    continue
            for path, old, new in bug['EDITS']:
                full = os.path.join(repo, path)
                with open(full) as f:
                    s = f.read()
                if s.count(old) != 1:
                    raise SystemExit('%s: %d matches in %s' % (name, s.count(old), path))
                with open(full, 'w') as f:
                    f.write(s.replace(old, new))
            diff = subprocess.run(['git', 'diff'], cwd=repo, stdout=subprocess.PIPE, text=True, check=True).stdout
            if not only:
                # Do the changed lines come from the original repository?
                for path in set(e[0] for e in bug['EDITS']):
                    # Lines of the base that my commits did not add
                    base = subprocess.run(['git', 'show', BASE + ':' + path], cwd=repo, stdout=subprocess.PIPE, text=True, check=True).stdout.splitlines()
                    removed = [l[1:] for l in diff.splitlines() if l.startswith('-') and not l.startswith('---')]
                    for l in removed:
                        if l not in base and l.strip():
                            print(name, 'WARNING: changes a line of mine:', l)
                if native:
                    build(repo)
                if not mutate.tests_pass(repo):
                    bad.append(name)
                    print(name, 'TESTS FAIL')
                    continue
                rc, out = demo()
                if rc == 0:
                    bad.append(name)
                    print(name, 'DEMO PASSES WITH THE CHANGE')
                    continue
                with open(os.path.join(target, 'patch.diff'), 'w') as f:
                    f.write(diff)
            if not nocheck:
                rc, out = mutate.run_check(bug['PROPERTY'], repo)
                caught = rc == 1 and 'VIOLATION property=' + bug['PROPERTY'] in out
                print(name, bug['PROPERTY'], 'caught' if caught else 'MISSED (rc %s)' % rc, flush=True)
                if not caught:
                    bad.append(name)
                    print(out[-800:] if rc not in (0, 1) else '')
                elif '-v' in sys.argv or '--verbose' in argv:
                    print(out[:700])
            else:
                print(name, 'planted')
        finally:
            shutil.rmtree(d, ignore_errors=True)
    print('problems:', bad)


if __name__ == '__main__':
    main(sys.argv[1:])
