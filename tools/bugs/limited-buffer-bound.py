PROPERTY = 'C04'
NEEDS = 'strings of different lengths, the longer one being over the bound'
BREAKS = 'the vector is too short for the longer string, and what follows it in memory is overwritten'
EDITS = [
    ('cfog/metrics/levenshtein.pyx',
     '    cdef unsigned int *vector = <unsigned int *> malloc(LB * sizeof(unsigned int))\n\n    if codes == NULL or vector == NULL:\n        free(codes)\n        free(vector)\n\n        raise MemoryError\n\n    cdef unsigned int i = 0\n\n    while i < max_distance:\n',
     '    cdef unsigned int *vector = <unsigned int *> malloc(max(LA, max_distance) * sizeof(unsigned int))\n\n    if codes == NULL or vector == NULL:\n        free(codes)\n        free(vector)\n\n        raise MemoryError\n\n    cdef unsigned int i = 0\n\n    while i < max_distance:\n'),
]
DEMO = '''
from cfog.metrics.levenshtein import limited_levenshtein_distance as d
for k in range(200):
    keep = []
    for n in range(1000, 3000, 50):
        assert d(n - 600, 'a' * 620, 'b' * n) == n - 599
        keep.append(bytearray(n * 4))
'''
