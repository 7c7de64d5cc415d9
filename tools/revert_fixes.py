"""
For each `fixed` entry of known_findings.jsonl, undoes the commit in a copy of
/repo and tells whether the check of its property reports it.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))


def one(e):
    d = tempfile.mkdtemp(prefix='revert-')
    try:
        repo = os.path.join(d, 'repo')
        subprocess.run(['cp', '-a', '/repo', repo], check=True)
        r = subprocess.run(['git', '-c', 'user.name=x', '-c', 'user.email=x@x', 'revert', '-n', e['commit']], cwd=repo, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            return e, 'CONFLICT', ''
        env = dict(os.environ, VERIF_REPO=repo, VERIF_EVIDENCE=os.path.join(d, 'ev'))
        r = subprocess.run([os.path.join(ROOT, 'run.py'), e['property']], cwd=ROOT, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return e, 'CAUGHT' if r.returncode == 1 and 'VIOLATION property=' + e['property'] in r.stdout else 'MISSED %d' % r.returncode, r.stdout[-300:]
    finally:
        shutil.rmtree(d)


entries = [json.loads(x) for x in open(os.path.join(ROOT, 'known_findings.jsonl'))]
entries = [e for e in entries if e['status'] == 'fixed' and (len(sys.argv) < 2 or e['commit'] in sys.argv[1:])]

with ThreadPoolExecutor(2) as pool:
    for e, r, out in pool.map(one, entries):
        print(r, e['property'], e['commit'], e['what'], flush=True)
        if r.startswith('MISSED'):
            print('    ' + out.replace('\n', '\n    '), flush=True)
