"""
Runs the command line of fog, in this process or in another one, on files of
the scratch directory.
"""
import csv
import gc
import io
import os
import subprocess
import sys

from vf import core


class Failed(Exception):
    pass


def encode(rows, rng):
    """CSV bytes, in one of the usual styles."""
    buf = io.StringIO(newline='')
    quoting = rng.choice([csv.QUOTE_MINIMAL, csv.QUOTE_MINIMAL, csv.QUOTE_ALL])
    w = csv.writer(buf, lineterminator=rng.choice(['\n', '\r\n']), quoting=quoting)
    for row in rows:
        w.writerow(row)
    text = buf.getvalue()
    # The newline at the end is optional, unless the last row is empty text
    if rng.random() < 0.2 and text.endswith('\n') and rows[-1] != ['']:
        text = text[:-2] if text.endswith('\r\n') else text[:-1]
    return text.encode('utf-8')


def decode(data):
    return list(csv.reader(io.StringIO(data.decode('utf-8'), newline='')))


def run(args, data, scratch, rng, inprocess=True, name='x'):
    """
    Runs `fog ARGS` on the given bytes, through files or standard streams,
    and returns the bytes written.
    """
    source = os.path.join(scratch, '%s-%d-in.csv' % (name, os.getpid()))
    target = os.path.join(scratch, '%s-%d-out' % (name, os.getpid()))
    use_file = rng.random() < 0.5
    use_output = rng.random() < 0.5
    argv = list(args)

    with open(source, 'wb') as f:
        f.write(data)
    if use_file:
        argv.append(source)
    if use_output:
        # (anywhere after the action)
        argv[1:1] = [rng.choice(['-o', '--output']), target]
    if os.path.exists(target):
        os.remove(target)
    if use_output and rng.random() < 0.4:
        # What the file held before should be replaced
        with open(target, 'wb') as f:
            f.write(b'left,from,before\n' * rng.choice([1, 10, 1000]))

    try:
        if inprocess:
            out = inside(argv, data if not use_file else b'')
        else:
            out = outside(argv, data if not use_file else b'', scratch)
        if use_output:
            if not os.path.exists(target):
                raise Failed('the output file was not written')
            with open(target, 'rb') as f:
                written = f.read()
            if out:
                raise Failed('something was also written to the standard output: %r' % out[:200])
            return written
        return out
    finally:
        for path in (source, target):
            if os.path.exists(path):
                os.remove(path)


def inside(argv, data):
    from fog.cli.__main__ import main
    # Collections below then only look at what the command left
    gc.freeze()
    saved = sys.argv, sys.stdin, sys.stdout, sys.stderr
    raw = io.BytesIO()
    stdout = io.TextIOWrapper(raw, encoding='utf-8', write_through=True)
    sys.argv = ['fog'] + argv
    sys.stdin = io.TextIOWrapper(io.BytesIO(data), encoding='utf-8')
    sys.stdout = stdout
    sys.stderr = io.StringIO()
    try:
        main()
        stdout.flush()
        out = raw.getvalue()
    except SystemExit as e:
        if e.code not in (None, 0):
            raise Failed('exit with status %r: %s' % (e.code, sys.stderr.getvalue()[-300:]))
        stdout.flush()
        out = raw.getvalue()
    finally:
        sys.argv, sys.stdin, sys.stdout, sys.stderr = saved
    # The command leaves closing its files to the interpreter
    gc.collect()
    return out


def outside(argv, data, scratch):
    env = dict(os.environ, PYTHONPATH=core.REPO, PYTHONUTF8='1', PYTHONDONTWRITEBYTECODE='1')
    p = subprocess.run([sys.executable, '-m', 'fog.cli'] + argv, input=data, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=scratch, timeout=120)
    if p.returncode:
        raise Failed('exit with status %r: %s' % (p.returncode, p.stderr.decode('utf-8', 'replace')[-400:]))
    return p.stdout
