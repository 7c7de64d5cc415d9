#!/opt/venv/bin/python
"""
run.py PROPERTY             runs the check of a property (VERIF_TIER, VERIF_SEED)
run.py --replay FILE        runs again the failing cases recorded in FILE
"""
import json
import os
import sys

ROOT = os.path.dirname(os.path.abspath(__file__))
PYTHON = '/opt/venv/bin/python'


def main(argv):
    # Same interpreter and hash seed whoever runs this
    if os.environ.get('PYTHONHASHSEED') != '0' or os.environ.get('VERIF_REEXEC') != '1':
        env = dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', VERIF_REEXEC='1', PYTHONUTF8='1')
        env.pop('PYTHONPATH', None)
        python = PYTHON if os.path.exists(PYTHON) else sys.executable
        os.execve(python, [python, os.path.abspath(__file__)] + argv, env)

    sys.path.insert(0, ROOT)
    sys.dont_write_bytecode = True
    from vf import core

    if argv and argv[0] == '--replay':
        with open(argv[1]) as f:
            r = json.load(f)
        only = set((x['workload'], x['index']) for x in r['failures'] if x['index'] >= 0 and x['workload'] not in ('import', 'monitor'))
        return core.run(r['property'], r['tier'], r['seed'], only=only or None, replay_source=argv[1])

    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    return core.run(argv[0], tier, seed)


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
