PROPERTY = 'C07'
NEEDS = 'processes started with the spawn or forkserver method'
BREAKS = 'workers do not know the similarity function, which they inherit only when forked'
EDITS = [
    ('fog/clustering/pairwise.py',
     'def pairwise_worker(payload):\n',
     'CURRENT = {}\n\n\ndef pairwise_worker(payload):\n'),
    ('fog/clustering/pairwise.py',
     '    similarity = dill.loads(similarity)\n    pairs = []\n',
     '    similarity = CURRENT.get(similarity) or (lambda A, B: A == B)\n    pairs = []\n'),
    ('fog/clustering/pairwise.py',
     '        pickled_similarity = dill.dumps(similarity)\n\n        # Iterator\n        pool_iter = (\n            (pickled_similarity, ) + chunk\n            for chunk\n            in upper_triangular_matrix_chunk_iter(keys, chunk_size)\n        )\n\n        # Pool\n        for matches',
     '        pickled_similarity = id(similarity)\n        CURRENT[pickled_similarity] = similarity\n\n        # Iterator\n        pool_iter = (\n            (pickled_similarity, ) + chunk\n            for chunk\n            in upper_triangular_matrix_chunk_iter(keys, chunk_size)\n        )\n\n        # Pool\n        for matches'),
    ('fog/clustering/pairwise.py',
     '        pickled_similarity = dill.dumps(similarity)\n\n        # Iterator\n        pool_iter = (\n            (pickled_similarity, ) + chunk\n            for chunk\n            in upper_triangular_matrix_chunk_iter(keys, chunk_size)\n        )\n\n        # Pool\n        pairs',
     '        pickled_similarity = id(similarity)\n        CURRENT[pickled_similarity] = similarity\n\n        # Iterator\n        pool_iter = (\n            (pickled_similarity, ) + chunk\n            for chunk\n            in upper_triangular_matrix_chunk_iter(keys, chunk_size)\n        )\n\n        # Pool\n        pairs'),
]
DEMO = '''
import os, subprocess, sys, tempfile
code = """
import multiprocessing, sys
sys.path.insert(0, %r)
from fog.clustering import pairwise
if __name__ == '__main__':
    multiprocessing.set_start_method('spawn')
    r = list(pairwise([1, 2, 9], distance=lambda a, b: abs(a - b), radius=1, processes=2, chunk_size=2))
    assert [sorted(c) for c in r] == [[1, 2]], r
""" % os.getcwd()
d = tempfile.mkdtemp()
p = os.path.join(d, 'x.py')
open(p, 'w').write(code)
r = subprocess.run([sys.executable, p], timeout=100).returncode
os.remove(p)
os.rmdir(d)
assert r == 0
'''
