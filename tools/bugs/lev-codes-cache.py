PROPERTY = 'C01'
NEEDS = 'a string having the address and the length of the former one'
BREAKS = 'the characters of a former string are used'
EDITS = [
    ('cfog/metrics/levenshtein.pyx',
     '    cdef unsigned int *codes = <unsigned int *> malloc(LB * sizeof(unsigned int))\n    cdef unsigned int *vector = <unsigned int *> malloc(LB * sizeof(unsigned int))\n\n    if codes == NULL or vector == NULL:\n        free(codes)\n        free(vector)\n\n        raise MemoryError\n\n    cdef unsigned int i = 0\n\n    while i < LB:\n        codes[i] = ord(B[start + i])\n        vector[i] = i + 1\n        i += 1\n',
     '    global last_key, last_ords\n\n    cdef unsigned int *codes = <unsigned int *> malloc(LB * sizeof(unsigned int))\n    cdef unsigned int *vector = <unsigned int *> malloc(LB * sizeof(unsigned int))\n\n    if codes == NULL or vector == NULL:\n        free(codes)\n        free(vector)\n\n        raise MemoryError\n\n    cdef unsigned int i = 0\n\n    # A string is often compared to many others\n    key = (id(B), len(B), start, LB)\n\n    if key != last_key:\n        last_key = key\n        last_ords = [ord(c) for c in B[start:start + LB]]\n\n    while i < LB:\n        codes[i] = last_ords[i]\n        vector[i] = i + 1\n        i += 1\n'),
    ('cfog/metrics/levenshtein.pyx',
     'from libc.stdlib cimport malloc, free\n',
     'from libc.stdlib cimport malloc, free\n\nlast_key = None\nlast_ords = None\n'),
]
DEMO = '''
from cfog.metrics.levenshtein import levenshtein_distance as d
import random
rng = random.Random(1)
def lev(a, b):
    row = list(range(len(b) + 1))
    for i, x in enumerate(a, 1):
        prev, row[0] = row[0], i
        for j, y in enumerate(b, 1):
            prev, row[j] = row[j], min(row[j] + 1, row[j - 1] + 1, prev + (x != y))
    return row[-1]
for i in range(3000):
    n = 7
    a = 'xyz'
    assert d(a, ''.join([rng.choice('xyzab') for _ in range(n)])) >= 0
for i in range(5000):
    s = [rng.choice('xyzab') for _ in range(7)]
    got = d('xyz', ''.join(s))
    assert got == lev('xyz', s), (s, got)
'''
